"""C16: covariances stay symmetric and positive in long, badly conditioned histories."""
import numpy as np
from sim import gen as G, nodes
from sim.core import A, Violation, num
from sim.world import events_of, simplify_plan, stream

RUNS = 8000
LISTS = ['events']
KINDS = ('kf', 'kf', 'proc', 'ekf', 'srkf', 'fading')
RULE = ('seeded model with priors up to 1e8 and sensor variances down to 1e-10 of it, tens to hundreds of steps over a link '
        'with bursts of loss, duplicates and delays; the covariance is judged after every step; non-trivial when a report '
        'was lost, duplicated or late')
STATES = 'distinct (filter form, decades of the prior and of the sensor noise, losses and steps of the first 40 events)'
REAL = ['KalmanFilter (update, update_sequential)', 'procedural predict/update', 'ExtendedKalmanFilter',
        'FadingKalmanFilter', 'SquareRootKalmanFilter']
STUB = ['sensors, network and clocks (simulated)', 'linear measurement callbacks of the EKF']
FAULTS = ['loss', 'duplicate', 'reorder', 'partition', 'delay']
PROBES = ['ratio-above-1e10', 'ratio-above-1e14', 'long', 'static', 'axis', 'override', 'sequential', 'gap-growth', 'tight']
ASSUME = ['rounding allowance: the rounding of each product of the Joseph-form recursion (40 n units in the last place) '
          'carried through the same linear maps; squared error of the gain where the innovation covariance itself is badly '
          'conditioned; the square-root form\'s factors carry 1e-14 of the root of the prior']
simplify = simplify_plan
EPS = 2.3e-16


def gen(rng, tier):
    kind = rng.choice(KINDS)
    n = rng.wpick([(2, 1), (4, 2), (3, 3), (1, 4)])
    m = rng.wpick([(5, 1), (2, 2)]) if n > 1 else 1
    big = rng.lf(1., 1e8)
    small = rng.lf(1e-10, 1e-2) * (big if rng.chance(.5) else 1.)
    small = max(small, big * 1e-17)
    axis = rng.chance(.7)
    cfg = dict(kind=kind, n=n, m=m, col=rng.chance(.5), x0=rng.vec(n))
    cfg['P0'] = (big * A(rng.spd(n, .1, 1.))).tolist() if rng.chance(.5) else \
        np.diag([big * rng.lf(1e-6, 1.) for _ in range(n)]).tolist()
    if axis:
        H = np.zeros((m, n))
        for i, j in enumerate(rng.sample(range(n), m)):
            H[i, j] = 1.
        cfg['H'] = H.tolist()
    else:
        cfg['H'] = rng.mat(m, n)
    cfg['R'] = np.diag([small * rng.lf(.01, 1.) for _ in range(m)]).tolist()
    static = rng.chance(.2)
    F = np.eye(n)
    dt = rng.choice([.01, .1, 1., 5.])
    if not static and rng.chance(.75):
        for i in range(n - 1):
            F[i, i + 1] = dt
            if i + 2 < n:
                F[i, i + 2] = dt * dt / 2
    elif not static:
        u, _ = np.linalg.qr(A(rng.mat(n, n)) + .1 * np.eye(n))
        F = u
    cfg['F'] = F.tolist()
    q = rng.choice([1e-8, 1e-4, 1., 1e3])
    cfg['Q'] = (q * A(rng.spd(n, .05, 1.))).tolist()
    if static and kind != 'srkf':
        cfg['Q'] = np.zeros((n, n)).tolist()
    if kind == 'fading' or (kind in ('kf', 'proc') and rng.chance(.2)):
        cfg['alpha'] = rng.choice([1., 1.01, 1.1])
    ops = []
    gap = 0
    burst = rng.choice([0., .05, .2])
    for _ in range(rng.choice([20, 60, 150] + ([600] if tier == 'thorough' or rng.chance(.04) else []))):
        if rng.random() > .1:
            ops.append(dict(op='predict'))
        if gap:
            gap -= 1
            continue
        if rng.chance(burst):
            gap = rng.randint(1, 25)
            continue
        z = rng.vec(m, 2.)
        if kind == 'kf' and rng.chance(.2):
            k = rng.randrange(m)
            ops.append(dict(op='seq', start=k, z=[z[k]], form='col'))
        else:
            op = dict(op='update', z=z)
            if rng.chance(.1):
                op['R'] = np.diag([small * rng.lf(.01, 1.) for _ in range(m)]).tolist()
            ops.append(op)
    return dict(cfg=cfg, big=big, small=small, axis=axis, events=events_of(rng, ops))


class Rounding(object):
    """a matrix E such that the covariance a correct Joseph-form filter reports differs from an exactly symmetric,
    positive semi-definite one by less than E: the same linear maps, plus what each product rounds"""

    def __init__(self, P):
        self.E = np.zeros_like(P)
        self.c = 40 * EPS * len(P)

    def add(self, B):
        self.local = self.c * np.diag(B.sum(axis=1))
        self.E = (self.E + self.E.T) / 2 + self.local

    def predict(self, F, P, Q, a):
        self.E = a * a * F.dot(self.E).dot(F.T)
        self.add(a * a * np.abs(F).dot(np.abs(P)).dot(np.abs(F).T) + np.abs(Q))

    def update(self, K, h, P, P1, r, S):
        # how far off the gain may be: the rounding of P h', of S (which may cancel) and of its inverse
        SI, aP, ah, aK = np.abs(np.linalg.inv(S)), np.abs(P), np.abs(h), np.abs(K)
        dS = ah.dot(aP).dot(ah.T) + np.abs(r)
        dK = 100 * EPS * (aP.dot(ah.T) + aK.dot(dS) + aK.dot(np.abs(S))).dot(SI)
        off = dK.dot(dS).dot(dK.T)
        if np.abs(off).max() > 1e-3 * np.abs(P1).max():
            return False
        M = np.eye(len(P)) - K.dot(h)
        self.E = M.dot(self.E).dot(M.T)
        aM = np.abs(M)
        self.add(aM.dot(np.abs(P)).dot(aM.T) + aK.dot(np.abs(r)).dot(aK.T)
                 + (np.eye(len(P)) + aK.dot(np.abs(h))).dot(np.abs(P1))
                 + off / self.c)
        return np.abs(self.E).max() < np.abs(P1).max()


def judge(P, E, what):
    if not np.isfinite(P).all():
        raise Violation('not-finite', '%s: the covariance is not finite: %s' % (what, P.tolist()))
    s = np.sqrt(np.maximum(E.diagonal(), 0.))
    a = np.abs(P - P.T) - 2 * np.outer(s, s)
    if a.max() > 1e-12 * np.abs(P).max():
        raise Violation('asymmetric', '%s: the covariance is not symmetric (rounding allows %s): %s'
                        % (what, np.outer(s, s).max(), P.tolist()))
    w = np.linalg.eigvalsh((P + P.T) / 2 + E)[0]
    if w < -1e-12 * (np.abs(P).max() + np.abs(E).max()):
        raise Violation('indefinite', '%s: the covariance, with its rounding allowance of %.3g added, has eigenvalue %.3g: '
                        '%s' % (what, np.abs(E).max(), w, P.tolist()))
    if (P.diagonal() + E.diagonal()).min() < 0:
        raise Violation('negative-variance', '%s: the variances are %s (rounding allows %s)'
                        % (what, P.diagonal().tolist(), E.diagonal().tolist()))


def run(plan, ctx):
    cfg = plan['cfg']
    kind, n, m = cfg['kind'], cfg['n'], cfg['m']
    ops = stream(plan['events'], ctx, cfg, bounded=False)
    node = nodes.make_node(cfg)
    ratio = plan['big'] / plan['small']
    for v in (10, 14):
        if ratio > 10. ** v:
            ctx.probe('ratio-above-1e%d' % v)
    if len(ops) > 200:
        ctx.probe('long')
    if plan['axis']:
        ctx.probe('axis')
    if not np.any(cfg['Q']):
        ctx.probe('static')
    P = A(cfg['P0'])
    F, Q, H, R = (A(cfg[k]) for k in 'FQHR')
    rnd = Rounding(P)
    since = 0
    for i, op in enumerate(ops):
        node.do(op)
        P1 = num(node.f.P, 'P')
        what = '%s of %s at step %d of %d' % (op['op'], kind, i, len(ops))
        ctx.checks += 3
        if P1.shape != (n, n):
            raise Violation('shape', '%s: the covariance has shape %s' % (what, P1.shape))
        if op['op'] == 'predict':
            since += 1
            if since == 10:
                ctx.probe('gap-growth')
            rnd.predict(F, P, Q, cfg.get('alpha', 1.))
            judge(P1, rnd.E, what)
        else:
            since = 0
            h, r = H, R
            if op['op'] == 'seq':
                ctx.probe('sequential')
                k = op['start']
                h, r = H[k:k + 1], R[k:k + 1, k:k + 1]
            elif op.get('R') is not None:
                ctx.probe('override')
                r = A(op['R'])
            S = h.dot(P).dot(h.T) + r
            K = np.linalg.solve(S.T, h.dot(P)).T
            pm = np.abs(P).max()
            if not rnd.update(K, h, P, P1, r, S):
                ctx.probe('stopped')                    # all of it could be rounding
                break
            judge(P1, rnd.E, what)
            for k in range(len(h)):
                v = h[k].dot(P1).dot(h[k])
                a = np.abs(h[k])
                prior = h[k].dot(P).dot(h[k])
                slack = max(0., h[k].dot(rnd.E).dot(h[k])) + 1e-13 * a.dot(np.abs(rnd.E)).dot(a)
                tol = 1e-9 * r[k, k] + slack
                if kind == 'srkf':                      # its factors carry the rounding of the prior's root
                    tol += 100 * EPS * a.sum() * np.sqrt(pm * r[k, k]) + (100 * EPS * a.sum()) ** 2 * pm
                if v > r[k, k] + tol:
                    raise Violation('observed-variance', '%s: quantity %d was just observed with variance %r, its variance '
                                    'is %r (rounding allows %.3g)' % (what, k, float(r[k, k]), float(v), tol))
                if not v > -tol or (not v > 0 and prior > 0 and tol < .1 * min(r[k, k], prior)):
                    raise Violation('observed-variance', '%s: the variance of quantity %d, just observed, is %r (prior '
                                    '%r, sensor %r)' % (what, k, float(v), float(prior), float(r[k, k])))
                ctx.checks += 1
                if slack < .1 * r[k, k]:
                    ctx.probe('tight')
        P = P1
    ctx.arr(P)
    ctx.state(kind, int(np.log10(plan['big'])), int(np.log10(plan['small'])), tuple(o['op'] for o in ops[:40]))
