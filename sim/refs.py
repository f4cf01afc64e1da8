"""Executable reference models: plain textbook recursions in flat arrays.

They share no code with filterpy and are only evaluated with the fault plane
disarmed.  Every reference has do(op) for the same operations its node takes.
"""
import math
import sys
import numpy as np
from .boot import ORIG
from .core import A
from . import models

TINY = sys.float_info.min
inv = ORIG['numpy.linalg.inv']
chol = ORIG['numpy.linalg.cholesky']
solve = ORIG['numpy.linalg.solve']


def sym(P):
    return (P + P.T) / 2


def mat(R, m):
    """scalar or matrix noise -> matrix"""
    return np.eye(m) * float(R) if np.ndim(R) == 0 else A(R)


def gauss_ll(y, S):
    y = np.ravel(y)
    s, ld = np.linalg.slogdet(S)
    return -.5 * (len(y) * math.log(2 * math.pi) + ld + y.dot(solve(S, y)))


class Diag(object):
    """what the last processed measurement should have left behind"""

    def __init__(self, y, S, K, ll=None):
        self.y = np.ravel(y)
        self.S = S
        self.K = K
        if S is not None:
            self.SI = inv(S)
            self.log_likelihood = gauss_ll(self.y, S) if ll is None else ll
            e = math.exp(min(self.log_likelihood, 700))
            self.likelihood = e if e else TINY
            self.mahalanobis = math.sqrt(max(0., self.y.dot(self.SI).dot(self.y)))


class Ref(object):
    diag = None

    def posts(self):
        self.x_post, self.P_post = self.x.copy(), self.P.copy()

    def priors(self):
        self.x_prior, self.P_prior = self.x.copy(), self.P.copy()

    def est(self):
        return dict(x=self.x, P=self.P)

    def do(self, op):
        return getattr(self, 'op_' + op['op'])(op)

    def op_none(self, op):
        self.posts()

    def op_set(self, op):
        for k in op['v']:
            setattr(self, k, A(op['v'][k]) if op['v'][k] is not None else None)

    def op_put(self, op):
        for k in 'xP':
            if op.get(k, 1) != 1:
                setattr(self, k, A(op[k]))


class RefLin(Ref):
    def __init__(self, cfg):
        self.n, self.m = cfg['n'], cfg['m']
        self.x = A(cfg['x0'])
        self.P = A(cfg['P0'])
        self.F, self.Q, self.H, self.R = (A(cfg[k]) for k in 'FQHR')
        if self.R.ndim == 0:
            self.R = np.eye(self.m) * float(self.R)
        if self.Q.ndim == 0:
            self.Q = np.eye(self.n) * float(self.Q)
        self.B = None if cfg.get('B') is None else A(cfg['B'])
        self.alpha = cfg.get('alpha', 1.)
        self.M = None if cfg.get('M') is None else A(cfg['M'])
        self.K = np.zeros((self.n, self.m))
        self.priors()
        self.posts()

    def op_set(self, op):
        Ref.op_set(self, op)
        if np.ndim(self.R) == 0:
            self.R = np.eye(self.m) * float(self.R)
        if np.ndim(self.Q) == 0:
            self.Q = np.eye(self.n) * float(self.Q)

    def pred(self, op):
        F = A(op['F']) if op.get('F') is not None else self.F
        Q = mat(op['Q'], self.n) if op.get('Q') is not None else self.Q
        B = A(op['B']) if op.get('B') is not None else self.B
        a = op['alpha'] if op.get('alpha') is not None else self.alpha
        x = F.dot(self.x)
        if B is not None and op.get('u') is not None:
            x = x + B.dot(A(op['u']).ravel())
        return x, sym(a * a * F.dot(self.P).dot(F.T) + Q)

    def op_predict(self, op):
        self.x, self.P = self.pred(op)
        self.priors()

    def upd(self, op, corr=False):
        z = A(op['z']).ravel()
        m = len(z)
        H = A(op['H']) if op.get('H') is not None else self.H
        R = mat(op['R'], m) if op.get('R') is not None else self.R
        y = z - H.dot(self.x)
        C = self.P.dot(H.T)
        S = H.dot(C) + R
        if corr:
            S = S + H.dot(self.M) + self.M.T.dot(H.T)
            C = C + self.M
        K = solve(S.T, C.T).T
        x = self.x + K.dot(y)
        P = sym(self.P - K.dot(S).dot(K.T))
        return x, P, Diag(y, S, K)

    def op_update(self, op, corr=False):
        self.x, self.P, self.diag = self.upd(op, corr)
        self.K = self.diag.K
        self.posts()

    def op_corr(self, op):
        self.op_update(op, True)

    def op_pu(self, op):
        self.op_predict(op)
        self.op_update(op)

    def op_punone(self, op):
        self.op_predict(op)

    def op_pss(self, op):
        self.x = self.pred(op)[0]
        self.priors()

    def op_uss(self, op):
        y = A(op['z']).ravel() - self.H.dot(self.x)
        self.x = self.x + self.K.dot(y)
        self.diag = Diag(y, None, self.K)
        self.posts()

    def op_seq(self, op):
        """a block of components of one joint measurement"""
        a, z = op['start'], A(op['z']).ravel()
        b = a + len(z)
        H = A(op['H']) if op.get('H') is not None else self.H[a:b]
        R = mat(op['R'], len(z)) if op.get('R') is not None else self.R[a:b, a:b]
        y = z - H.dot(self.x)
        C = self.P.dot(H.T)
        S = H.dot(C) + R
        K = solve(S.T, C.T).T
        self.x = self.x + K.dot(y)
        self.P = sym(self.P - K.dot(S).dot(K.T))
        self.K = self.K.copy()
        self.K[:, a:b] = K
        self.diag = None
        self.posts()


class RefHInf(Ref):
    """the H-infinity recursion as documented (Simon, ch. 11)"""

    def __init__(self, cfg):
        self.x, self.P = A(cfg['x0']), A(cfg['P0'])
        self.F, self.Q, self.H, self.W = (A(cfg[k]) for k in 'FQHW')
        self.V = mat(cfg['V'], cfg['m'])
        self.B = None if cfg.get('B') is None else A(cfg['B'])
        self.gamma = cfg['gamma']

    def op_none(self, op):
        pass

    def op_predict(self, op):
        self.x = self.F.dot(self.x)
        if self.B is not None and op.get('u') is not None:
            self.x = self.x + self.B.dot(A(op['u']).ravel())

    def op_update(self, op):
        n = len(self.x)
        HTVI = self.H.T.dot(inv(self.V))
        L = inv(np.eye(n) - self.gamma * self.Q.dot(self.P) + HTVI.dot(self.H).dot(self.P))
        PL = self.P.dot(L)
        K = self.F.dot(PL).dot(HTVI)
        y = A(op['z']).ravel() - self.H.dot(self.x)
        self.x = self.x + K.dot(y)
        self.P = sym(self.F.dot(PL).dot(self.F.T) + self.W)
        self.diag = Diag(y, None, K)


# ---------------------------------------------------------------- nonlinear
class RefNL(Ref):
    def __init__(self, cfg):
        self.cfg = cfg
        self.p = self.pf = self.ph = cfg['p']
        self.n, self.m = cfg['n'], cfg['m']
        self.x, self.P = A(cfg['x0']), A(cfg['P0'])
        self.Q, self.R = A(cfg['Q']), mat(cfg['R'], cfg['m'])
        self.B = None if cfg.get('B') is None else A(cfg['B'])
        self.dt = cfg['dt']
        self.ax = cfg['p'].get('ax') or []
        self.az = cfg['p'].get('az') or []
        self.odd = {k: A(v) for k, v in (cfg.get('odd') or {}).items()}
        self.priors()
        self.posts()

    def op_set(self, op):
        Ref.op_set(self, dict(op, v={k: v for k, v in op['v'].items() if k not in ('fx', 'hx')}))
        self.R = mat(self.R, self.m)
        if 'fx' in op['v']:
            self.pf = self.cfg['alts'][op['v']['fx']]
        if 'hx' in op['v']:
            self.ph = self.cfg['alts'][op['v']['hx']]

    def par(self, op):
        k = op.get('alt')
        return (self.pf if op.get('op') == 'predict' else self.ph) if k is None else self.cfg['alts'][k]

    def res(self, a, b, idx):
        y = np.array(a - b, dtype=float)
        if idx:
            y[idx] = models.wrap(y[idx])
        return y

    def resx(self, a, b):
        return self.res(a, b, self.ax) * self.odd.get('residual_x', 1.)

    def resz(self, a, b):
        return self.res(a, b, self.az) * self.odd.get('residual_z', 1.)

    def RR(self, op, m):
        return mat(op['R'], m) if op.get('R') is not None else self.R

    def finish(self, y, S, C, add=None):
        K = solve(S.T, C.T).T
        dx = K.dot(y)
        x = self.x + dx * self.odd.get('state_add', 1.)
        if add:
            x[add] = models.wrap(x[add])
        self.x = x
        self.P = sym(self.P - K.dot(S).dot(K.T))
        self.diag = Diag(y, S, K)
        self.posts()


class RefEKF(RefNL):
    def __init__(self, cfg):
        RefNL.__init__(self, cfg)
        self.F = np.eye(self.n)

    def op_predict(self, op):
        dt = op.get('dt', self.dt)
        F = models.nl_fj(self.p, self.x, dt)
        self.F = F
        self.x = models.nl_f(self.p, self.x, dt)
        if self.B is not None and op.get('u') is not None:
            self.x = self.x + self.B.dot(A(op['u']).ravel())
        self.P = sym(F.dot(self.P).dot(F.T) + self.Q)
        self.priors()

    def op_update(self, op):
        p = self.par(op)
        z = A(op['z']).ravel()
        Hm = models.nl_hj(p, self.x, **op.get('jargs', {}))
        hx = models.nl_h(p, self.x, **op.get('hargs', {}))
        idx = (p.get('az') or []) if op.get('residual') else []
        y = self.res(z, hx, idx)
        if isinstance(op.get('residual'), list):
            y = y * A(op['residual'])
        C = self.P.dot(Hm.T)
        S = Hm.dot(C) + self.RR(op, len(z))
        K = solve(S.T, C.T).T
        # Joseph form: exact for the gain actually used
        I = np.eye(self.n) - K.dot(Hm)
        P = I.dot(self.P).dot(I.T) + K.dot(self.RR(op, len(z))).dot(K.T)
        self.x = self.x + K.dot(y)
        self.P = sym(P)
        self.diag = Diag(y, S, K)
        self.posts()

    def op_pu(self, op):
        self.op_predict(op)
        self.op_update(op)

    def op_punone(self, op):
        self.op_predict(op)


class RefUKF(RefNL):
    def __init__(self, cfg):
        RefNL.__init__(self, cfg)
        n = self.n
        sp = cfg['points']
        self.sp = sp
        if sp['fam'] == 'merwe':
            a, b, k = sp['alpha'], sp['beta'], sp['kappa']
            lam = a * a * (n + k) - n
            self.Wm = np.full(2 * n + 1, .5 / (n + lam))
            self.Wc = self.Wm.copy()
            self.Wm[0] = lam / (n + lam)
            self.Wc[0] = self.Wm[0] + 1 - a * a + b
            self.c = n + lam
        elif sp['fam'] == 'julier':
            k = sp['kappa']
            self.Wm = np.full(2 * n + 1, .5 / (n + k))
            self.Wm[0] = k / (n + k)
            self.Wc = self.Wm
            self.c = n + k
        else:
            self.Wm = self.Wc = np.full(n + 1, 1. / (n + 1))
        self.sig = None

    def sqrt(self, P):
        """rows are the spread directions"""
        if self.cfg.get('sqrt') == 'sym':
            w, v = np.linalg.eigh(P)
            return (v * np.sqrt(np.maximum(w, 0.))).dot(v.T)
        return chol(P).T

    def points(self, x, P):
        n = self.n
        less = self.odd.get('subtract', 1.)
        if self.sp['fam'] == 'simplex':
            lam = n / (n + 1.)
            I = np.array([[-1., 1.]]) / math.sqrt(2 * lam)
            for d in range(2, n + 1):
                row = np.ones((1, d + 1)) / math.sqrt(lam * d * (d + 1))
                row[0, d] *= -d
                I = np.vstack([np.hstack([I, np.zeros((d - 1, 1))]), row])
            D = self.sqrt(P).T.dot(math.sqrt(n) * I)
            return np.array([self.res(x, -D[:, k] * less, self.ax) for k in range(n + 1)])
        U = self.sqrt(self.c * P) * less
        out = [x] + [self.res(x, -U[k], self.ax) for k in range(n)] \
                  + [self.res(x, U[k], self.ax) for k in range(n)]
        return np.array(out)

    def ut(self, s, noise, of, k=None):
        x = self.Wm.dot(s) + self.odd.get(of + '_mean_fn', 0.)
        idx, res = (self.ax, self.resx) if of == 'x' else (self.az, self.resz)
        for i in idx:
            x[i] = math.atan2(self.Wm.dot(np.sin(s[:, i])), self.Wm.dot(np.cos(s[:, i])))
        D = np.array([res(v, x) for v in s])
        P = (D.T * self.Wc).dot(D)
        if k:
            P = P * k
        return x, P + noise, D

    def op_predict(self, op):
        p = self.par(op)
        dt = op.get('dt')
        dt = self.dt if dt is None else dt
        s = np.array([models.nl_f(p, v, dt, **op.get('fargs', {})) for v in self.points(self.x, self.P)])
        self.x, P, _ = self.ut(s, self.Q, 'x', op.get('UT'))
        self.P = sym(P)
        self.sig = self.points(self.x, self.P)
        self.priors()

    def op_update(self, op):
        p = self.par(op)
        z = A(op['z']).ravel()
        sh = np.array([models.nl_h(p, v, **op.get('hargs', {})) for v in self.sig])
        zp, S, Dz = self.ut(sh, self.RR(op, len(z)), 'z', op.get('UT'))
        Dx = np.array([self.resx(v, self.x) for v in self.sig])
        self.finish(self.resz(z, zp), S, (Dx.T * self.Wc).dot(Dz), self.ax)

    def smooth(self, Xs, Ps, Qs, dts, k=None):
        xs, ps = Xs.copy(), Ps.copy()
        for i in range(len(xs) - 2, -1, -1):
            s = self.points(xs[i], ps[i])
            sf = np.array([models.nl_f(self.pf, v, dts[i + 1]) for v in s])
            xb, Pb, Df = self.ut(sf, Qs[i + 1], 'x', k)
            D = np.array([self.resx(v, Xs[i]) for v in s])
            G = solve(Pb.T, ((D.T * self.Wc).dot(Df)).T).T
            xs[i] = xs[i] + G.dot(self.resx(xs[i + 1], xb)) * self.odd.get('state_add', 1.)
            xs[i][self.ax] = models.wrap(xs[i][self.ax])
            ps[i] = ps[i] + G.dot(ps[i + 1] - Pb).dot(G.T)
        return xs, ps


class RefCKF(RefNL):
    def points(self, x, P):
        U = chol(P).T * math.sqrt(self.n)
        return np.array([x + u for u in U] + [x - u for u in U])

    def op_predict(self, op):
        dt = op.get('dt')
        dt = self.dt if dt is None else dt
        s = np.array([models.nl_f(self.pf, v, dt, **op.get('fargs', {})) for v in self.points(self.x, self.P)])
        self.x, P, _ = self.ct(s, self.Q, 'x')
        self.P = sym(P)
        self.sig = self.points(self.x, self.P)
        self.priors()

    def ct(self, s, noise, of):
        x = s.mean(axis=0) + self.odd.get(of + '_mean_fn', 0.)
        idx, res = (self.ax, self.resx) if of == 'x' else (self.az, self.resz)
        for i in idx:
            x[i] = math.atan2(np.sin(s[:, i]).mean(), np.cos(s[:, i]).mean())
        D = np.array([res(v, x) for v in s])
        return x, D.T.dot(D) / len(s) + noise, D

    def op_update(self, op):
        z = A(op['z']).ravel()
        self.sig = self.points(self.x, self.P)
        sh = np.array([models.nl_h(self.ph, v, **op.get('hargs', {})) for v in self.sig])
        zp, S, Dz = self.ct(sh, self.RR(op, len(z)), 'z')
        C = np.array([self.resx(v, self.x) for v in self.sig]).T.dot(Dz) / len(sh)
        # there is no addition callback: the state is not normalised
        self.finish(self.resz(z, zp), S, C)


# -------------------------------------------------------------------- banks
def mixture(xs, Ps, w):
    x = sum(wi * xi for wi, xi in zip(w, xs))
    P = sum(wi * (np.outer(xi - x, xi - x) + Pi) for wi, xi, Pi in zip(w, xs, Ps))
    return x, P


class RefIMM(Ref):
    def __init__(self, cfg):
        self.fs = [make_ref(c) for c in cfg['filters']]
        self.M = A(cfg['M'])
        self.mu = A(cfg['mu']) / sum(cfg['mu'])
        self.estimate()
        self.priors()
        self.posts()
        self.mixed()

    def op_set(self, op):
        if 'M' in op['v']:
            self.M = A(op['v']['M'])
            self.mixed()
        if op.get('sub'):
            self.fs[op['sub'][0]].op_set(dict(v=op['sub'][1]))

    def op_put(self, op):
        if 'who' in op:
            self.fs[op['who']].op_put(op)
        elif op['mu'] != 1:
            self.mu = A(op['mu'])
            self.mixed()

    def mixed(self):
        """mixing weights follow from the mode probabilities and the transition matrix"""
        self.cbar = self.mu.dot(self.M)
        live = self.cbar > 0
        self.omega = np.where(live[None, :], self.M * self.mu[:, None] / np.where(live, self.cbar, 1.)[None, :],
                              np.eye(len(self.mu)))

    def estimate(self):
        self.x, self.P = mixture([f.x for f in self.fs], [f.P for f in self.fs], self.mu)

    def op_predict(self, op):
        self.mixed()
        xs, Ps = [f.x for f in self.fs], [f.P for f in self.fs]
        new = [mixture(xs, Ps, self.omega[:, j]) for j in range(len(self.fs))]
        for f, (x, P) in zip(self.fs, new):
            f.x, f.P = x, P
            f.do(op)
        self.mu = self.cbar / self.cbar.sum()
        self.estimate()
        self.priors()

    def op_update(self, op):
        lk = []
        for f in self.fs:
            f.do(op)
            lk.append(f.diag.likelihood)
        self.lk = lk
        self.mu = self.mu * A(lk)
        self.mu = self.mu / self.mu.sum()
        self.mixed()
        self.estimate()
        self.posts()

    def est(self):
        return dict(x=self.x, P=self.P, mu=self.mu)


class RefMMAE(Ref):
    def __init__(self, cfg):
        self.fs = [make_ref(c) for c in cfg['filters']]
        self.p = A(cfg['p'])
        self.H = cfg.get('bankH')
        self.x, self.P = self.fs[0].x.copy(), self.fs[0].P.copy()
        self.priors()
        self.posts()

    def estimate(self):
        self.x, self.P = mixture([f.x for f in self.fs], [f.P for f in self.fs], self.p)

    def op_set(self, op):
        if 'H' in op['v']:
            self.H = op['v']['H']
        if op.get('sub'):
            self.fs[op['sub'][0]].op_set(dict(v=op['sub'][1]))

    def op_put(self, op):
        if 'who' in op:
            self.fs[op['who']].op_put(op)
        elif op['p'] != 1:
            self.p = A(op['p'])

    def op_predict(self, op):
        for f in self.fs:
            f.do(op)
        self.estimate()
        self.priors()

    def op_update(self, op):
        if self.H is not None and op.get('H') is None:
            op = dict(op, H=self.H)
        w = []
        for f in self.fs:
            f.do(op)
            w.append(f.diag.likelihood)
        self.lk = w
        self.p = self.p * A(w)
        self.p = self.p / self.p.sum()
        self.estimate()
        self.posts()

    def est(self):
        return dict(x=self.x, P=self.P, p=self.p)


# ----------------------------------------------------------------- trackers
class RefGH(Ref):
    """g-h / g-h-k predict-correct; x is the state list [x, dx(, ddx)]"""

    def __init__(self, cfg):
        self.s = [A(v) for v in cfg['s']]
        self.dt = cfg['dt']
        self.gains = list(cfg['gains'])

    def op_set(self, op):
        for k, v in op['v'].items():
            if k == 'dt':
                self.dt = v
            else:
                self.gains['ghk'.index(k)] = v

    def op_put(self, op):
        if op['s'] != 1:
            self.s = [A(v) for v in op['s']]

    def op_update(self, op):
        g = [b if op.get('ghk'[i]) is None else op['ghk'[i]] for i, b in enumerate(self.gains)]
        dt, s, z = self.dt, self.s, A(op['z'])
        if len(s) == 1:
            pred = [s[0]]
        elif len(s) == 2:
            pred = [s[0] + dt * s[1], s[1]]
        else:
            pred = [s[0] + dt * s[1] + .5 * dt * dt * s[2], s[1] + dt * s[2], s[2]]
        y = z - pred[0]
        c = [1., 1. / dt, 2. / dt ** 2]
        self.pred, self.y = pred, y
        self.s = [p + c[i] * g[i] * y for i, p in enumerate(pred)]

    def est(self):
        return dict(s=np.array([np.ravel(v) for v in self.s]))


class RefFMem(Ref):
    def __init__(self, cfg):
        self.order = cfg['order']
        self.gh = RefGH(dict(s=cfg['s'], dt=cfg['dt'], gains=self.gains(cfg['beta'])))

    def gains(self, b):
        return [[1 - b], [1 - b ** 2, (1 - b) ** 2],
                [1 - b ** 3, 1.5 * (1 + b) * (1 - b) ** 2, .5 * (1 - b) ** 3]][self.order]

    def op_set(self, op):
        if 'dt' in op['v']:
            self.gh.dt = op['v']['dt']
        if 'beta' in op['v']:
            self.gh.gains = self.gains(op['v']['beta'])

    def op_put(self, op):
        self.gh.op_put(op)

    def op_update(self, op):
        self.gh.op_update(dict(op='update', z=op['z']))

    def est(self):
        return dict(x=np.array([float(v) for v in self.gh.s]))


class RefLSQ(Ref):
    def __init__(self, cfg):
        self.order, self.dt, self.sigma = cfg['order'], cfg['dt'], cfg['sigma']
        self.zs = []

    def op_reset(self, op):
        self.zs = []

    def op_update(self, op):
        self.zs.append(float(op['z']))

    def fit(self):
        """polynomial through all samples, expressed at the newest one"""
        n, o = len(self.zs), self.order
        t = (np.arange(n) - (n - 1)) * self.dt
        X = np.array([[t_ ** j / math.factorial(j) for j in range(o + 1)] for t_ in t])
        C = inv(X.T.dot(X))
        return C.dot(X.T.dot(A(self.zs))), C, X


class RefFLS(RefLin):
    def op_smooth(self, op):
        self.op_predict(op)
        self.op_update(dict(z=op['z']))


class RefDBayes(Ref):
    """exact hidden-Markov filter over grid cells"""

    def __init__(self, cfg):
        self.b = A(cfg['prior'])

    def op_move(self, op):
        n = len(self.b)
        k = A(op['kernel'])
        c = len(k) // 2
        out = np.zeros(n)
        if op.get('mode', 'wrap') == 'wrap':
            for i in range(n):
                for j, w in enumerate(k):
                    out[(i + op['offset'] + j - c) % n] += w * self.b[i]
        else:
            v = op.get('cval', 0.)
            sh = np.full(n, v)
            for i in range(n):
                d = i + op['offset']
                if 0 <= d < n:
                    sh[d] = self.b[i]
            for i in range(n):
                for j, w in enumerate(k):
                    s = i - (j - c)
                    out[i] += w * (sh[s] if 0 <= s < n else v)
        self.b = out

    def op_sense(self, op):
        self.b = self.b * A(op['like'])
        self.b = self.b / self.b.sum()

    def est(self):
        return dict(b=self.b)


def make_ref(cfg):
    k = cfg['kind']
    if k in ('kf', 'proc', 'ekf', 'ukf', 'ckf', 'srkf', 'inf', 'fading', 'flaky'):
        return RefLin(cfg)
    return dict(hinf=RefHInf, ekfnl=RefEKF, ukfnl=RefUKF, ckfnl=RefCKF, imm=RefIMM, mmae=RefMMAE,
                gh=RefGH, ghk=RefGH, gho=RefGH, fmem=RefFMem, lsq=RefLSQ, fls=RefFLS,
                dbayes=RefDBayes)[k](cfg)
