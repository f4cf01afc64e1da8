"""Seeded generation of configurations and operation sequences."""
import math
import numpy as np
from .core import A

LIN = ('kf', 'proc', 'ekf', 'ukf', 'ckf', 'srkf', 'inf', 'fading')
NL = ('ekfnl', 'ukfnl', 'ckfnl')
TRACK = ('gh', 'ghk', 'gho', 'fmem', 'lsq')

# per-call model arguments each kind documents
PRED = dict(kf=('u', 'B', 'F', 'Q'), flaky=('u', 'B', 'F', 'Q'), proc=('u', 'B', 'F', 'Q', 'alpha'),
            ekf=('u',), ukf=('u', 'F'), ckf=('u', 'F'), srkf=('u',), inf=('u',), fading=('u',),
            hinf=('u',), imm=('u',), mmae=('u',))
UPD = dict(kf=('R', 'H'), flaky=('R', 'H'), proc=('R', 'H'), ekf=('R', 'H'), ukf=('R', 'H'),
           ckf=('R', 'H'), srkf=('R',), inf=('R',), fading=('R',), hinf=(), imm=(), mmae=('R', 'H'), enkf=('R',))
SET = dict(kf='FQHRB', flaky='FQHRB', proc='FQHRB', ekf='FQHRB', ukf='FQHR', ckf='FQHR', srkf='FQHRB',
           inf='FQHRB', fading='FQHRB', hinf='FQHVWB', ekfnl='QRB', ukfnl=('Q', 'R', 'fx', 'hx'), ckfnl='QR',
           enkf='QR', imm='M', mmae='H')
PUT = ('kf', 'proc', 'ekf', 'ukf', 'ckf', 'srkf', 'inf', 'fading', 'hinf', 'ekfnl', 'ukfnl', 'ckfnl', 'enkf', 'imm',
       'mmae', 'gh', 'ghk', 'gho', 'fmem', 'fls')
VARYM = ('kf', 'flaky', 'proc', 'ekf', 'ukf')
SIGMA = ('ukf', 'ckf', 'ukfnl', 'ckfnl')


def mat_F(rng, n):
    r = rng.random()
    if r < .15:
        return np.eye(n).tolist()
    if r < .4:
        dt = rng.choice([.1, .5, 1., rng.f(.05, 2.)]) if n < 5 else rng.f(.02, .1)
        F = np.eye(n)
        for i in range(n - 1):
            F[i, i + 1] = dt
            if i + 2 < n:
                F[i, i + 2] = dt * dt / 2
        return F.round(6).tolist()
    u, _ = np.linalg.qr(np.array(rng.mat(n, n)) + .1 * np.eye(n))
    v, _ = np.linalg.qr(np.array(rng.mat(n, n)) + .1 * np.eye(n))
    s = np.array([rng.f(.7, 1.12) for _ in range(n)])
    return ((u * s).dot(v)).round(5).tolist()


def mat_H(rng, m, n):
    if rng.chance(.3):
        H = np.zeros((m, n))
        for i in range(m):
            H[i, rng.randrange(n)] = 1.
        return H.tolist()
    return rng.mat(m, n)


def noise_R(rng, m, scalar=True):
    if scalar and rng.chance(.2):
        return rng.lf(.05, 5.)
    if rng.chance(.3):
        return np.diag([rng.lf(.05, 5.) for _ in range(m)]).tolist()
    return rng.spd(m, .05, 5.)


def noise_Q(rng, n, scalar=False):
    if scalar and rng.chance(.25):
        return rng.lf(.01, 2.) if rng.chance(.9) else 0.
    return rng.spd(n, .01, 2.)


def cross_M(rng, Q, R, n, m):
    LQ, LR = np.linalg.cholesky(np.array(Q)), np.linalg.cholesky(np.array(R))
    U = np.array(rng.mat(n, m))
    U = U / max(np.linalg.norm(U, 2), 1e-9)
    return (rng.f(.1, .6) * LQ.dot(U).dot(LR.T)).round(5).tolist()


def gen_points(rng, n):
    fam = rng.choice(['merwe', 'merwe', 'julier', 'simplex'])
    if fam == 'merwe':
        return dict(fam=fam, alpha=rng.choice([1., .5, .1, .3, rng.f(.1, 1.2)]),
                    beta=rng.choice([2., 2., 0., 1.]), kappa=rng.choice([0., 3. - n if n < 3 else 1., .5]))
    if fam == 'julier':
        return dict(fam=fam, kappa=rng.choice([0.5, 1., 2.]) if n > 2 else rng.choice([0.5, 1., 3. - n]))
    return dict(fam=fam)


def gen_lin(rng, kind, nmax=4, mmax=3, **opt):
    n = opt.get('n') or min(nmax, rng.wpick([(2, 1), (4, 2), (3, 3), (2, 4)]))
    m = opt.get('m') or min(mmax, rng.wpick([(4, 1), (3, 2), (1, 3)]))
    if rng.chance(.06) and 'n' not in opt and nmax > 3 and kind != 'hinf':
        n = rng.randint(5, 7)
        m = m if 'm' in opt or mmax < 3 else rng.randint(1, 5)
    col = opt['col'] if 'col' in opt else rng.chance(.6)
    if kind in ('ukf', 'imm_ukf'):
        col = False
    c = dict(kind=kind, n=n, m=m, col=col, x0=rng.vec(n, 3.), P0=rng.spd(n, .1, 20.),
             F=mat_F(rng, n), Q=noise_Q(rng, n), H=mat_H(rng, m, n), R=noise_R(rng, m))
    if kind in ('proc', 'ekf', 'srkf') and np.ndim(c['R']) == 0:
        c['R'] = (np.eye(m) * c['R']).tolist()
    if kind in ('ukf', 'ckf', 'fading') and np.ndim(c['R']) == 0:
        c['R'] = (np.eye(m) * c['R']).tolist()
    if kind in ('kf', 'flaky') and np.ndim(c['R']) == 0 and m > 1:
        c['R'] = (np.eye(m) * c['R']).tolist()
    if rng.chance(.12) and kind in ('kf', 'proc', 'ekf', 'srkf', 'fading', 'inf'):
        c['xint'] = True
        c['x0'] = [float(rng.randint(-5, 5)) for _ in range(n)]
    if rng.chance(.5) and kind != 'proc1':
        l = rng.wpick([(4, 1), (4, 2), (1, 3)])
        c['l'] = l
        c['B'] = rng.mat(n, l)
    if kind in ('kf', 'proc', 'fading', 'flaky') and rng.chance(.4):
        c['alpha'] = rng.choice([1.02, 1.1, rng.f(1., 1.3)])
    if kind == 'ckf':
        c['col'] = False
    if kind == 'ukf':
        c['points'] = gen_points(rng, n)
        if rng.chance(.25):
            c['sqrt'] = 'sym'
    if kind == 'kf' and rng.chance(.1):
        c['inv'] = 'pinv'
    if kind == 'proc' and n == 1 and m == 1 and rng.chance(.5):
        c['float'] = True
        c.pop('xint', None)
        if 'B' in c:
            c['l'], c['B'] = 1, rng.mat(1, 1)
    if kind == 'proc' and n == 1 and m == 1 and rng.chance(.25):
        c['plain'] = True                  # all factors are one, and left out
        c['F'] = c['H'] = [[1.]]
        if 'B' in c:
            c['l'], c['B'] = 1, [[1.]]
    if kind != 'hinf' and not c.get('float') and rng.chance(.08):
        whole_numbers(rng, c)
    elif kind != 'proc' and rng.chance(.15):
        defaults(rng, c)
    return c


def defaults(rng, c):
    """some parameters keep the values the constructor gave them, others are written into its arrays"""
    p = rng.choice([.2, .5])
    c['defaults'] = [k for k in 'xPFQR' if rng.chance(p)]
    c['fill'] = [k for k in 'xPFQHRW' if k not in c['defaults'] and rng.chance(.4)]
    c.pop('xint', None)
    for k in c['defaults']:
        if k == 'x':
            c['x0'] = [0.] * c['n']
        elif k != 'F' or c['kind'] in ('kf', 'flaky', 'ekf', 'srkf', 'fading', 'fls'):
            c['P0' if k == 'P' else k] = np.eye(c['m'] if k == 'R' else c['n']).tolist()


def whole_numbers(rng, c):
    """the user writes her model in whole numbers, which arrive as integer arrays"""
    n, m = c['n'], c['m']
    c['ints'] = True
    c.pop('xint', None)

    def spd(d, most):
        L = np.array([[rng.randint(-1, 1) if j < i else 0 for j in range(d)] for i in range(d)], float)
        L += np.diag([rng.randint(1, most) for _ in range(d)])
        return L.dot(L.T).tolist()
    F = np.eye(n)
    for i in range(n - 1):
        F[i, i + 1] = rng.choice([0, 1, 1])
    c.update(x0=[float(rng.randint(-5, 5)) for _ in range(n)], F=F.tolist(), P0=spd(n, 4))
    if rng.chance(.5):
        c['Q'] = spd(n, 1)
    if rng.chance(.6):
        H = np.zeros((m, n))
        for i in range(m):
            H[i, rng.randrange(n)] = rng.choice([1, 1, 2, -1])
        c['H'] = H.tolist()
    if rng.chance(.6) and np.ndim(c['R']):
        c['R'] = spd(m, 2)
    if c.get('B') is not None and rng.chance(.6):
        c['B'] = [[float(rng.randint(-1, 2)) for _ in range(c['l'])] for _ in range(n)]


def gen_hinf(rng):
    c = gen_lin(rng, 'hinf')
    c.pop('xint', None)
    n, m = c['n'], c['m']
    c['Q'] = rng.spd(n, .001, .02)
    c['P0'] = rng.spd(n, .05, .8)
    c['W'] = rng.spd(n, .001, .05)
    c['V'] = rng.lf(.2, 2.) if m == 1 and rng.chance(.4) else rng.spd(m, .2, 2.)
    c['gamma'] = rng.f(.001, .02)
    c['F'] = (.9 * np.array(c['F'])).round(5).tolist()
    c['R'] = np.eye(m).tolist()
    return c


def gen_nl_params(rng, n, m, ax=(), az=()):
    return dict(A=(np.array(rng.mat(n, n, .4)) - .5 * np.eye(n)).round(4).tolist(),
                fc=rng.vec(n, .3), H=rng.mat(m, n), W=rng.mat(m, n, .6), hc=rng.vec(m, .5),
                ax=list(ax), az=list(az))


def gen_nl(rng, kind, angles=None):
    n = rng.randint(1, 4)
    m = rng.randint(1, 3)
    if rng.chance(.05):
        n, m = rng.randint(5, 6), rng.randint(1, 4)
    angles = rng.chance(.4) if angles is None else angles
    ax = [i for i in range(n) if rng.chance(.4)] if angles and kind in ('ukfnl', 'ckfnl') else []
    az = [i for i in range(m) if rng.chance(.6)] if angles else []
    p = gen_nl_params(rng, n, m, ax, az)
    c = dict(kind=kind, n=n, m=m, col=(rng.chance(.4) if kind == 'ekfnl' else False),
             x0=rng.vec(n, 1.5), P0=rng.spd(n, .02, .4), Q=rng.spd(n, .005, .2),
             R=noise_R(rng, m, False), p=p, dt=rng.choice([.1, .2, rng.f(.02, .5)]),
             alts=[gen_nl_params(rng, n, m, ax, az) for _ in range(2)])
    if ax:
        for i in ax:
            c['x0'][i] = round(math.pi * rng.choice([1, -1]) + rng.gauss(0, .3), 4)
        c['P0'] = rng.spd(n, .01, .1)
        c['Q'] = rng.spd(n, .002, .03)
    if az:
        c['R'] = rng.spd(m, .01, .2)
    if rng.chance(.1):
        c['fill'] = [k for k in 'xPQR' if rng.chance(.5)]
    if kind == 'ukfnl':
        c['points'] = gen_points(rng, n)
        if c['points']['fam'] == 'merwe' and ax:
            c['points']['alpha'] = max(c['points']['alpha'], .5)
        if c['points'].get('kappa', 1.) < 0:
            c['points']['kappa'] = .5
        if rng.chance(.25):
            c['sqrt'] = 'sym'
    if kind in ('ukfnl', 'ckfnl') and not ax and not az and rng.chance(.2):
        odd = c['odd'] = {}
        for k in ('x_mean_fn', 'z_mean_fn', 'residual_x', 'residual_z') + (('state_add', 'subtract') if kind == 'ukfnl' else ()):
            if rng.chance(.4):
                d = m if 'z' in k else n
                odd[k] = [rng.f(-.3, .3) if 'mean' in k else rng.f(.8, 1.) for _ in range(d)]
    if kind == 'ekfnl' and rng.chance(.4):
        c['l'] = rng.randint(1, 2)
        c['B'] = rng.mat(n, c['l'])
    return c


def gen_enkf(rng, N=None):
    c = gen_nl(rng, 'enkf', angles=False)
    for k in ('points', 'alts', 'l', 'B'):
        c.pop(k, None)
    c['N'] = N or rng.wpick([(3, 2), (3, 3), (3, 5), (3, 8), (3, 12), (1, 40)])
    c['col'] = False
    return c


def gen_imm(rng, kind='imm'):
    k = rng.wpick([(8, 2), (6, 3), (2, 4), (1, rng.randint(5, 7))])
    base = gen_lin(rng, 'kf')
    base.pop('xint', None)
    base.pop('ints', None)
    base.pop('inv', None)
    ints = rng.chance(.08)
    if ints:
        whole_numbers(rng, base)
    sub = rng.chance(.15)
    fs = []
    for _ in range(k):
        c = dict(base, x0=base['x0'] if rng.chance(.6) or ints else rng.vec(base['n'], 2.))
        if rng.chance(.6):
            c['F'] = mat_F(rng, base['n'])
        if rng.chance(.8):
            c['Q'] = noise_Q(rng, base['n'])
        if rng.chance(.3):
            c['R'] = noise_R(rng, base['m'], False)
        if rng.chance(.3):
            c['H'] = mat_H(rng, base['m'], base['n'])
        if rng.chance(.3):
            c['P0'] = rng.spd(base['n'], .1, 10.)
        if rng.chance(.3) and kind == 'imm':
            c['alpha'] = rng.f(1., 1.2)
        if sub and not base['col']:
            c = {a: b for a, b in c.items() if a not in ('B', 'l', 'alpha')}
            if rng.chance(.6):
                c['kind'] = 'ukf'
                c['points'] = gen_points(rng, base['n'])
                if np.ndim(c['R']) == 0:
                    c['R'] = (np.eye(base['m']) * c['R']).tolist()
        fs.append(c)
    if any(f['kind'] == 'ukf' for f in fs):
        for f in fs:
            f.pop('B', None)
            f.pop('l', None)
    out = dict(kind=kind, n=base['n'], m=base['m'], col=base['col'], filters=fs)
    if 'B' in fs[0]:
        out['B'], out['l'] = fs[0]['B'], fs[0]['l']
    w = [rng.f(.05, 1.) for _ in range(k)]
    if rng.chance(.2):
        w[rng.randrange(k)] = rng.choice([1e-6, 0.02])
    w = [v / sum(w) for v in w]
    if kind == 'imm':
        M = []
        for i in range(k):
            r = [rng.f(.01, .3) + (1.2 if j == i and rng.chance(.8) else 0.) for j in range(k)]
            if rng.chance(.15) and k > 2:
                r[(i + 1) % k] = 0.
            M.append([v / sum(r) for v in r])
        dead = rng.chance(.1)           # modes that are never left, or never entered
        if dead:
            for i in range(k):
                if rng.chance(.5):
                    M[i] = [float(j == i) for j in range(k)]
            if rng.chance(.6):
                j = rng.randrange(k)
                w = [0. if i == j else v for i, v in enumerate(w)]
                w = [v / sum(w) for v in w]
        out['M'] = M
        out['mu'] = w if rng.chance(.8) else [2 * v for v in w]
        if ints and rng.chance(.5):
            one = rng.randrange(k)
            out['mu'] = [float(i == one) for i in range(k)]
    else:
        out['p'] = w
        if ints and rng.chance(.5):
            one = rng.randrange(k)
            out['p'] = [float(i == one) for i in range(k)]
    if ints:
        out['ints'] = True
    if rng.chance(.3):
        out['mulist'] = True
    if kind == 'mmae' and rng.chance(.2) and not sub:
        out['bankH'] = mat_H(rng, base['m'], base['n'])
    return out


def gen_track(rng, kind):
    dt = rng.choice([1., .5, .1, rng.f(.05, 3.)])
    if kind == 'lsq':
        return dict(kind=kind, order=rng.randint(0, 2), dt=dt, sigma=rng.f(.1, 3.))
    if kind == 'fmem':
        o = rng.randint(0, 2)
        c = dict(kind=kind, order=o, dt=dt, beta=rng.f(.1, .95), s=rng.vec(o + 1, 2.))
        if rng.chance(.3):
            c['scalar0'] = True
            c['s'] = [c['s'][0]] + [0.] * o
        return c
    nst = dict(gh=2, ghk=3).get(kind) or rng.randint(1, 3)
    vec = rng.chance(.4)
    d = rng.randint(1, 3)
    s = [rng.vec(d) if vec else rng.norm() for _ in range(nst)]
    gains = [rng.f(.05, 1.), rng.f(.01, .8), rng.f(.001, .3)][:nst]
    c = dict(kind=kind, s=s, dt=dt, gains=gains)
    if kind == 'gho' and not vec and rng.chance(.3):
        c['scalar0'] = True
        c['s'] = [s[0]] + [0.] * (nst - 1)
    return c


def gen_fls(rng):
    c = gen_lin(rng, 'fls')
    c['N'] = rng.randint(7, 14) if rng.chance(.08) else rng.randint(1, 6)
    for k in ('alpha', 'xint'):
        c.pop(k, None)
    if np.ndim(c['R']) == 0:
        c['R'] = (np.eye(c['m']) * c['R']).tolist()
    return c


def gen_dbayes(rng):
    n = rng.randint(1, 12)
    r = rng.random()
    if r < .2:
        b = [0.] * n
        b[rng.randrange(n)] = 1.
    else:
        b = [rng.f(0.01, 1.) for _ in range(n)]
    s = sum(b)
    c = dict(kind='dbayes', n=n, prior=[v / s for v in b], col=False)
    if r < .1:
        c['bint'] = True
    return c


def gen_cfg(rng, kind):
    c = gen_cfg_(rng, kind)
    if rng.chance(.1):                      # arrays laid out by columns, or parts of larger ones
        c['layout'] = rng.choice(['F', 'part'])
        for f in c.get('filters') or ():
            f['layout'] = c['layout']
    if rng.chance(.03):                     # at rest: measurements often come out exactly as predicted
        if 'x0' in c and not (c.get('p') or {}).get('ax'):
            c['x0'] = [0.] * c['n']
            c['rest'] = True
        elif kind in ('gh', 'ghk', 'gho', 'fmem'):
            c['s'] = [[0.] * len(v) if np.ndim(v) else 0. for v in c['s']]
            c['rest'] = True
    return c


def gen_cfg_(rng, kind):
    if kind in LIN or kind == 'flaky':
        return gen_lin(rng, kind)
    if kind in NL:
        return gen_nl(rng, kind)
    if kind in TRACK:
        return gen_track(rng, kind)
    if kind in ('imm', 'mmae'):
        return gen_imm(rng, kind)
    return dict(hinf=gen_hinf, enkf=gen_enkf, fls=gen_fls, dbayes=gen_dbayes)[kind](rng)


# -------------------------------------------------------------- operations
class Mix(object):
    """how often a run uses each feature (swarm style: drawn per run)"""

    def __init__(self, rng, **kw):
        self.over = rng.choice([0., .2, .5])
        self.set = rng.choice([0., 0., .15, .3])
        self.none = rng.choice([0., .1, .3])
        self.tick = rng.choice([0., .15, .4])
        self.burst = rng.choice([0., .1, .3])
        self.special = rng.choice([0., .2, .4])
        self.outlier = rng.choice([0., 0., .08])
        self.forms = rng.chance(.6)
        self.put = 0.
        for k, v in kw.items():
            setattr(self, k, v)


def gen_z(rng, m, mix=None, scale=3.):
    if mix is not None and rng.chance(mix.outlier):
        scale *= 60
    return rng.vec(m, scale)


def nl_Q(rng, c):
    return rng.spd(c['n'], .002, .03) if c['p'].get('ax') else rng.spd(c['n'], .005, .2)


def nl_R(rng, c):
    return rng.spd(c['m'], .01, .2) if c['p'].get('az') else noise_R(rng, c['m'], False)


def op_set(rng, c, kind):
    """the user reconfigures her filter between steps; 'inp' writes into the array the filter holds"""
    op = op_set_(rng, c, kind)
    if rng.chance(.3):
        op['inp'] = True
    return op


def op_set_(rng, c, kind):
    n, m = c['n'], c['m']
    if kind in ('imm', 'mmae'):
        if rng.chance(.5):
            i = rng.randrange(len(c['filters']))
            s = c['filters'][i]
            o = op_set_(rng, dict(s, B=None), s['kind'])
            o['v'].pop('alpha', None)
            return dict(op='set', v={}, sub=[i, o['v']])
        if kind == 'mmae':
            if any(s['kind'] == 'ukf' for s in c['filters']):
                return dict(op='set', v={})
            return dict(op='set', v=dict(H=mat_H(rng, m, n)))
        k = len(c['M'])
        return dict(op='set', v=dict(M=[[v / sum(r) for v in r] for r in
                                        [[rng.f(.01, 1.) for _ in range(k)] for _ in range(k)]]))
    if kind in NL + ('enkf',):
        ks = [k for k in SET[kind] if k != 'B' or c.get('B') is not None]
        mk = dict(Q=lambda: nl_Q(rng, c), R=lambda: nl_R(rng, c), B=lambda: rng.mat(n, c['l']),
                  fx=lambda: rng.randrange(2), hx=lambda: rng.randrange(2))
        return dict(op='set', v={k: mk[k]() for k in rng.sample(ks, rng.randint(1, min(2, len(ks))))})
    ks = [k for k in SET.get(kind, '') if k != 'B' or c.get('B') is not None]
    v = {}
    for k in rng.sample(ks, rng.randint(1, min(2, len(ks)))):
        if kind == 'hinf':
            v[k] = dict(F=lambda: (.9 * np.array(mat_F(rng, n))).round(5).tolist(),
                        Q=lambda: rng.spd(n, .001, .02), H=lambda: mat_H(rng, m, n),
                        V=lambda: rng.spd(m, .2, 2.), W=lambda: rng.spd(n, .001, .05),
                        B=lambda: rng.mat(n, c['l']))[k]()
        else:
            v[k] = dict(F=lambda: mat_F(rng, n), Q=lambda: noise_Q(rng, n), H=lambda: mat_H(rng, m, n),
                        R=lambda: noise_R(rng, m, False), B=lambda: rng.mat(n, c['l']))[k]()
    if kind in ('kf', 'proc') and rng.chance(.2):
        v['alpha'] = rng.f(1., 1.2)
    return dict(op='set', v=v)


def op_put(rng, c, kind):
    """the user assigns the state herself: arrays of her own, holding the present values (1) or new ones;
    'inp' writes new ones into the arrays the filter holds"""
    op = op_put_(rng, c, kind)
    if kind not in TRACK and 'inp' not in op and rng.chance(.3):
        op['inp'] = True
    return op


def op_put_(rng, c, kind):
    now = rng.chance(.6)
    if kind in ('imm', 'mmae') and rng.chance(.7):
        i = rng.randrange(len(c['filters']))
        o = op_put(rng, c['filters'][i], c['filters'][i]['kind'])
        return dict(o, who=i)
    if kind in ('imm', 'mmae'):
        if now:
            return dict(op='put', **{'mu' if kind == 'imm' else 'p': 1})
        w = [rng.f(.05, 1.) for _ in c['filters']]
        return dict(op='put', **{'mu' if kind == 'imm' else 'p': [v / sum(w) for v in w]})
    if kind in TRACK:
        if now:
            return dict(op='put', s=1)
        d = np.shape(c['s'][0])
        return dict(op='put', s=[rng.vec(d[0]) if d else rng.norm() for _ in c['s']])
    op = dict(op='put')
    n = c['n']
    for k in ('x', 'P') if rng.chance(.4) else (rng.choice('xP'),):
        op[k] = 1
        if now or kind in ('enkf', 'fls'):
            continue
        if k == 'x':
            op[k] = rng.vec(n, 1.5 if kind in NL else 3.)
            for i in (c.get('p') or {}).get('ax') or ():
                op[k][i] = round(math.pi * rng.choice([1, -1]) + rng.gauss(0, .3), 4)
        elif kind in NL:
            op[k] = rng.spd(n, .01, .1) if c['p'].get('ax') else rng.spd(n, .02, .4)
        else:
            op[k] = rng.spd(n, .05, .8) if kind == 'hinf' else rng.spd(n, .1, 20.)
    return op


def interval(rng):
    """time since the previous step; two sensors may report the same instant"""
    return 0. if rng.chance(.08) else rng.f(.02, .5)


def op_predict(rng, c, kind, mix):
    op = dict(op='predict')
    n = c['n']
    if kind in NL:
        if rng.chance(.6):
            op['dt'] = interval(rng)
        if kind == 'ekfnl':
            if c.get('B') is not None and rng.chance(.7):
                op['u'] = rng.vec(c['l'])
        else:
            a = {}
            if rng.chance(mix.over):
                a['bias'] = rng.norm()
            if rng.chance(mix.over / 2):
                a['gain'] = rng.f(.5, 1.5)
            if a:
                op['fargs'] = a
                op['bare'] = rng.chance(.3)
            if kind == 'ukfnl' and rng.chance(mix.over):
                op['alt'] = rng.randrange(2)
            if kind == 'ukfnl' and rng.chance(mix.over / 2):
                op['UT'] = rng.f(1., 1.3)
        return op
    args = PRED.get(kind, ())
    if 'u' in args and c.get('B') is not None and rng.chance(.75):
        op['u'] = rng.vec(c['l'])
    if 'F' in args and rng.chance(mix.over):
        op['F'] = mat_F(rng, n)
        op['bare'] = rng.chance(.3)
    if 'Q' in args and rng.chance(mix.over):
        op['Q'] = noise_Q(rng, n, kind in ('kf', 'flaky'))
    if 'B' in args and c.get('l') and rng.chance(mix.over):
        op['B'] = rng.mat(n, c['l'])
    if 'alpha' in args and rng.chance(mix.over / 2):
        op['alpha'] = rng.f(1.01, 1.3)
    if kind in ('ukf', 'ckf') and rng.chance(.3):
        op['dt'] = rng.choice([0., .5, 2.])
    return op


def op_update(rng, c, kind, mix):
    m = c['m']
    op = dict(op='update')
    if kind in NL:
        op['z'] = rng.vec(m, 1.5)
        for i in c['p'].get('az') or ():
            op['z'][i] = round(rng.uniform(-math.pi, math.pi), 4)
        if rng.chance(mix.over):
            op['R'] = noise_R(rng, m) if not c['p'].get('az') else rng.spd(m, .01, .2)
        for k in ('jargs', 'hargs') if kind == 'ekfnl' else ('hargs',):
            if rng.chance(mix.over):
                a = dict(scale=rng.f(.6, 1.4))
                if rng.chance(.4):
                    a['off'] = rng.norm()
                op[k] = a
        op['bare'] = rng.chance(.3)
        if kind != 'ckfnl' and rng.chance(mix.over):
            op['alt'] = rng.randrange(2)
        if kind == 'ukfnl' and rng.chance(mix.over / 2):
            op['UT'] = rng.f(1., 1.3)
        if kind == 'ekfnl' and (c['p'].get('az') or rng.chance(.2)):
            op['residual'] = True if c['p'].get('az') or rng.chance(.5) else [rng.f(.6, 1.2) for _ in range(m)]
        if mix.forms and rng.chance(.5):
            op['form'] = rng.choice(['scalar', 'list', 'col', 'row', 'vec', 'tuple', '0d'])
        return op
    mm = m
    args = UPD.get(kind, ())
    subs = set(f['kind'] for f in c.get('filters', ()))
    if c.get('float') or 'ukf' in subs:
        args = ('R',) if 'R' in args and not c.get('float') else ()
    if 'H' in args and rng.chance(mix.over):
        if kind in VARYM and rng.chance(.5):
            mm = rng.randint(1, 3)
        op['H'] = mat_H(rng, mm, c['n'])
        op['bare'] = rng.chance(.3)
    if 'R' in args and (rng.chance(mix.over) or mm != m):
        op['R'] = noise_R(rng, mm, mm == m)
    op['z'] = gen_z(rng, mm, mix)
    if mix.forms and rng.chance(.6) and 'ukf' not in subs:
        op['form'] = rng.choice(['scalar', 'list', 'col', 'row', 'vec', 'tuple', '0d'])
    if kind == 'proc' and rng.chance(.4):
        op['all'] = True
    return op


def gen_ops(rng, c, count, mix=None, special=True):
    """an operation sequence for one node: what the network made it do"""
    mix = mix or Mix(rng)
    ops = gen_ops_(rng, c, count, mix, special)
    if rng.chance(.008):
        ops = settle(rng, c) + ops
    if mix.put and c['kind'] in PUT and not c.get('float'):
        ops = [o for op in ops for o in ([op_put(rng, c, c['kind']), op] if rng.chance(mix.put) else [op])]
    coincide(rng, ops, c.get('rest'))
    if c.get('ints'):
        for op in ops:
            for k in ('z', 'u'):
                if op.get(k) is not None and rng.chance(.7):
                    op[k] = np.round(op[k]).tolist()
    return ops


def length(rng, tier, usual, long, marathon, c=None):
    """how much happens in a run; very much only where the covariance does not grow without bound meanwhile"""
    if rng.chance(.002) and (c is None or (settles(c) if c['kind'] in LIN + ('imm', 'mmae') else c['kind'] not in NL)):
        return marathon
    return rng.choice(usual + ([long] if tier == 'thorough' or rng.chance(.04) else []))


def settle(rng, c):
    """a long quiet history under one model, until the covariance no longer changes"""
    if not settles(c):
        return []
    out = []
    for i in range(rng.randint(40, 100) if rng.chance(.85) else rng.randint(260, 520)):
        out += [dict(op='predict'), dict(op='update', z=rng.vec(c['m'], 3.))]
        if c['kind'] == 'proc':
            out[-1]['all'] = True
    return out


def settles(c):
    for f in c['filters'] if c['kind'] in ('imm', 'mmae') else [c]:
        if f['kind'] not in LIN or f.get('float'):
            return False
        F, H, P = A(f['F']), A(c.get('bankH') or f['H']), A(f['P0'])
        Q, R = A(f['Q']) * np.eye(f['n']), A(f['R']) * np.eye(f['m'])
        for i in range(60):
            before = P
            P = f.get('alpha', 1.) ** 2 * F.dot(P).dot(F.T) + Q
            if P.max() > 1e3:
                return False
            K = P.dot(H.T).dot(np.linalg.inv(H.dot(P).dot(H.T) + R))
            P = P - K.dot(H).dot(P)
        if abs(P - before).max() > 1e-7 * P.max():
            return False
    return True


def coincide(rng, ops, rest):
    """values that happen to be zero, or to be those of the previous step"""
    p = rng.choice([0., 0., .1])
    last = {}
    for op in ops if rest else ():
        if op.get('z') is not None and rng.chance(.7):
            op['z'] = [0.] * len(op['z']) if isinstance(op['z'], list) else 0.
    for op in ops:
        for k in ('z', 'u', 'F', 'Q', 'H', 'R', 'B'):
            v = op.get(k)
            if v is None or isinstance(v, str) or (op['op'] == 'corr' and k not in 'zu'):
                continue
            if rng.chance(p):
                if k in 'zu' and rng.chance(.4):
                    op[k] = [0.] * len(v) if isinstance(v, list) else 0.
                elif k in last and np.shape(last[k]) == np.shape(v):
                    op[k] = last[k]
            last[k] = op[k]


def gen_ops_(rng, c, count, mix, special):
    kind = c['kind']
    mix = mix or Mix(rng)
    ops = []
    if kind in TRACK:
        for _ in range(count):
            if kind == 'lsq' and rng.chance(.1):
                ops.append(dict(op='reset'))
                continue
            if kind in ('gh', 'ghk', 'gho'):
                d = np.shape(c['s'][0])
                op = dict(op='update', z=rng.vec(d[0], 3.) if d else rng.norm())
                if kind == 'gho' and d and len(c['s']) == 1:
                    pass
                for i, k in enumerate('ghk'[:len(c['s'])]):
                    if rng.chance(mix.over):
                        op[k] = rng.f(.05, .9) if rng.chance(.85) else 0.
                if rng.chance(mix.set):
                    ops.append(dict(op='set', v={rng.choice(['dt'] + list('ghk'[:len(c['s'])])): rng.f(.1, .9)}))
            else:
                op = dict(op='update', z=rng.f(-5, 5))
                if kind == 'fmem' and rng.chance(mix.set):
                    ops.append(dict(op='set', v={rng.choice(['dt', 'beta']): rng.f(.1, .9)}))
            ops.append(op)
        return ops
    if kind == 'fls':
        for _ in range(count):
            op = dict(op='smooth', z=gen_z(rng, c['m'], mix))
            if c.get('B') is not None and rng.chance(.7):
                op['u'] = rng.vec(c['l'])
            if rng.chance(mix.set):
                ops.append(dict(op='set', v=dict(Q=noise_Q(rng, c['n']))))
            ops.append(op)
        return ops
    if kind == 'dbayes':
        n = c['n']
        for _ in range(count):
            if rng.chance(.5):
                k = rng.wpick([(1, 1), (5, 3), (2, 5), (1, 2), (1, 2 * n + 1)])
                ker = [rng.f(.01, 1.) for _ in range(k)]
                s = sum(ker)
                op = dict(op='move', kernel=[v / s for v in ker],
                          offset=rng.randint(-2 * n, 2 * n) if rng.chance(.3) else rng.randint(-2, 2),
                          klist=rng.chance(.4))
                if rng.chance(.3):
                    op['mode'] = 'constant'
                    if rng.chance(.4):
                        op['cval'] = rng.f(.001, .2)
                ops.append(op)
            else:
                ops.append(dict(op='sense', like=[rng.f(.05, 1.) for _ in range(n)]))
        return ops
    while len(ops) < count:
        if rng.chance(mix.set) and kind in SET:
            ops.append(op_set(rng, c, kind))
        r = rng.random()
        sp = special and rng.chance(mix.special)
        if sp and kind == 'kf' and c.get('M') is not None:
            ops.append(op_predict(rng, c, kind, Mix(rng, over=0.)))
            o = dict(op='corr', z=gen_z(rng, c['m'], mix), form=rng.choice([None, 'vec', 'scalar', 'list']))
            if rng.chance(mix.over):
                # any H, and any R no smaller than the one the cross-correlation was stated for, make a joint covariance
                if rng.chance(.5):
                    o['H'] = mat_H(rng, c['m'], c['n'])
                    o['form'] = None
                if rng.chance(.5):
                    o['R'] = (np.array(c['R']) + np.array(rng.spd(c['m'], .05, 3.))).tolist() if rng.chance(.7) else \
                        float(np.linalg.norm(np.atleast_2d(c['R']), 2)) + rng.lf(.05, 3.)
            ops.append(o)
        elif sp and kind in ('kf', 'proc') and rng.chance(.4):
            o = op_predict(rng, c, kind, mix)
            o['op'] = 'pss'
            o.pop('Q', None)
            o.pop('alpha', None)
            if kind == 'kf':
                o.pop('F', None)
            ops.append(o)
            ops.append(dict(op='uss', z=gen_z(rng, c['m'], mix), **(
                dict(form=rng.choice(['scalar', 'list', 'col', 'row', 'vec', 'tuple', '0d'])) if mix.forms and rng.chance(.5)
                else {})))
        elif sp and kind in ('ekf', 'ekfnl') and rng.chance(.6):
            p = op_predict(rng, c, kind, mix)
            u = op_update(rng, c, kind, mix)
            u.pop('R', None)
            u.pop('form', None)
            u.pop('residual', None)
            if kind == 'ekf' and len(u['z']) != c['m']:
                continue
            if kind == 'ekfnl' and c['p'].get('az'):
                continue
            u['op'] = 'pu'
            for k in ('u', 'dt'):
                if p.get(k) is not None:
                    u[k] = p[k]
            ops.append(u)
        else:
            if r >= mix.burst:
                ops.append(op_predict(rng, c, kind, mix))
            if rng.chance(mix.tick):
                continue
            if rng.chance(mix.none):
                ops.append(dict(op='none'))
                if rng.chance(.5):
                    continue
            ops.append(op_update(rng, c, kind, mix))
    return ops


def new_values(op):
    return any(op.get(k) not in (None, 1) for k in ('x', 'P', 's', 'mu', 'p'))


def legal(cfg, ops, insert=False):
    """drop operations whose documented precondition a (shrunk or reordered) sequence
    breaks; unscented filters predict before every update, cubature ones need not"""
    kinds = set([cfg['kind']] + [f['kind'] for f in cfg.get('filters', ())])
    fresh = False
    haveK = False
    noisy = True             # the process and measurement noise the cross-correlation was stated for
    out = []
    for op in ops:
        o = op['op']
        if o == 'put' and new_values(op):
            fresh = False
        if o == 'predict':
            fresh = True
            plain = op.get('Q') is None
        elif o == 'set' and ('Q' in op['v'] or 'R' in op['v']):
            noisy = False
        elif o == 'update':
            if kinds & set(SIGMA) and not (fresh or cfg['kind'] in ('ckf', 'ckfnl')):
                if not insert:
                    continue
                out.append(dict(op='predict'))
            fresh = False
            haveK = np.size(op['z']) == cfg.get('m') and (cfg['kind'] != 'proc' or bool(op.get('all')))
        elif o in ('corr',):
            if not noisy or (not insert and not (fresh and plain)):
                continue
            if not (fresh and plain):
                out.append(dict(op='predict'))
            fresh = False
            haveK = True
        elif o == 'uss':
            if not haveK:
                continue
        elif o == 'pu':
            haveK = True
            fresh = False
        out.append(op)
    return out
