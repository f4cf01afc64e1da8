"""Adapters that drive the real filterpy objects with plan operations.

A node owns one real filter (or filter bank, tracker, belief) and knows how to
pass an operation to it the way a user would.  It records every array it hands
over, so that any world can check that the library left them alone.
"""
import copy
import json
import numpy as np
from . import boot                                    # noqa: F401
from .boot import ORIG
from .core import A, Violation
from . import models
from filterpy.kalman import (KalmanFilter, ExtendedKalmanFilter, UnscentedKalmanFilter,
                             CubatureKalmanFilter, SquareRootKalmanFilter, InformationFilter,
                             FadingKalmanFilter, EnsembleKalmanFilter, IMMEstimator,
                             MMAEFilterBank, FixedLagSmoother, MerweScaledSigmaPoints,
                             JulierSigmaPoints, SimplexSigmaPoints)
import filterpy.kalman.kalman_filter as kfmod
from filterpy.hinfinity import HInfinityFilter
from filterpy.gh import GHFilter, GHKFilter, GHFilterOrder
from filterpy.leastsq import LeastSquaresFilter
from filterpy.memory import FadingMemoryFilter
import filterpy.discrete_bayes as db

_inv = ORIG['numpy.linalg.inv']
_chol = ORIG['numpy.linalg.cholesky']


class Holder(object):
    """the caller's variables, for the function-style interfaces"""


class Node(object):
    CONF = ()            # names of configured model attributes
    DIAG = ()            # names of diagnostics describing the last measurement
    POST = ('x', 'P')    # what *_prior / *_post exist

    def __init__(self, cfg, pool=None):
        self.cfg = cfg
        self.kind = cfg['kind']
        self.pool = pool
        self.given = []          # (what, object handed over, deep copy)
        self.col = cfg.get('col', False)
        self.build(cfg)

    # -- passing the caller's data ------------------------------------
    def own(self, what, v):
        self.given.append((what, v, copy.deepcopy(v)))
        return v

    def g(self, v, what='argument'):
        """JSON value -> the array the caller hands over"""
        if v is None or np.ndim(v) == 0:
            return v
        if self.pool is not None:
            k = json.dumps([v, bool(self.cfg.get('ints')), self.cfg.get('layout')])
            if k not in self.pool:
                self.pool[k] = self.typed(A(v))
            v = self.pool[k]
        else:
            v = self.typed(A(v))
        return self.own(what, v)

    def typed(self, v):
        """whole numbers as integers, where this user writes them so; rows or columns first, or a part of something larger"""
        if self.cfg.get('ints') and np.array_equal(v, np.round(v)):
            v = v.astype(int)
        return self.laid(v)

    def laid(self, v):
        how = self.cfg.get('layout')
        if how == 'F':
            return np.asfortranarray(v) if v.ndim else v
        if how == 'part' and v.ndim:
            w = np.full([2 * k + 1 for k in v.shape], 7, dtype=v.dtype)[tuple(slice(1, None, 2) for _ in v.shape)]
            w[...] = v
            return w
        return v

    def shared(self, make, v):
        """a callback, one for all nodes where they share"""
        if self.pool is None:
            return make(v)
        k = make.__name__ + json.dumps(v)
        if k not in self.pool:
            self.pool[k] = make(v)
        return self.pool[k]

    def check_given(self):
        for what, v, c in self.given:
            if isinstance(v, np.ndarray):
                ok = v.shape == c.shape and v.dtype == c.dtype and np.array_equal(v, c)
            else:
                ok = repr(v) == repr(c)
            if not ok:
                raise Violation('caller-data-modified', 'the %s handed to %s was changed from %r to %r'
                                % (what, self.kind, c, v))

    FILL = 'xPFQHR'      # plain arrays the user may fill in rather than replace
    DEFAULT = 'xPFQR'    # zero or identity unless assigned

    def init(self, c, keys):
        """configure a new filter: leave a parameter at its documented default, write into the default, or assign"""
        f = self.f
        for k in keys:
            v = c[k + '0' if k in 'xP' else k]
            a = getattr(f, k, None)
            if k in c.get('defaults', ()) and k in self.DEFAULT and np.ndim(v) == (1 if k == 'x' else 2) and \
                    np.array_equal(v, np.zeros(c['n']) if k == 'x' else np.eye(len(v))) and (
                    k != 'x' or np.shape(a) == ((c['n'], 1) if self.col else (c['n'],))):
                continue
            if k in c.get('fill', ()) and k in self.FILL and isinstance(a, np.ndarray) and a.dtype == float and \
                    np.shape(a) == ((len(v), 1) if k == 'x' and self.col else np.shape(v)):
                a[...] = A(v).reshape(a.shape)
            else:
                setattr(f, k, self.x0(c) if k == 'x' else self.g(v, k))

    def x0(self, cfg):
        x = A(cfg['x0'])
        if cfg.get('xint') or cfg.get('ints'):
            x = x.astype(int)
        x = self.laid(x)
        if self.pool is not None:
            x = self.pool.setdefault('x0' + json.dumps([cfg['x0'], bool(cfg.get('xint') or cfg.get('ints')), self.cfg.get('layout')]), x)
        return self.own('initial state', x[:, None] if self.col else x)

    def vec(self, v, what='argument'):
        """a state-shaped vector"""
        v = self.typed(A(v).ravel())
        return self.own(what, v[:, None] if self.col else v)

    FLEX = False

    def z(self, op):
        z = op['z']
        A = self.zarray
        form = op.get('form')
        if self.FLEX and op.get('H') is None or self.FLEX == 2:
            if form == 'scalar' and len(z) == 1:
                return float(z[0])
            if form == '0d' and len(z) == 1:
                return self.own('measurement', A(z[0]))
            v = {'tuple': lambda: tuple(z), 'col': lambda: A(z)[:, None], 'row': lambda: A(z)[None, :],
                 'list': lambda: list(z), 'vec': lambda: A(z)}.get(form or 'vec', lambda: A(z))()
            if form == 'scalar' or form is None:
                v = A(z)[:, None] if self.col else A(z)
            return self.own('measurement', v)
        if form == 'scalar' and len(z) == 1 and self.SCALARZ and op.get('H') is None:
            return float(z[0])
        return self.own('measurement', A(z)[:, None] if self.col else A(z))
    SCALARZ = True

    def zarray(self, v):
        return self.typed(A(v))

    def u(self, op, l=None, B=None):
        """control vector: zeros where a control matrix is set but no control given"""
        B = op.get('B') if B is None else B
        if op.get('u') is not None:
            return self.vec(op['u'], 'control')
        if B is None:
            B = self.B
        if B is not None and not (self.col and np.shape(B)[1] == 1):
            return self.vec([0.] * np.shape(B)[1], 'control')
        return None         # left to the default, a plain zero where it is not None
    B = None

    # -- operations -----------------------------------------------------
    def do(self, op):
        n = len(self.given)
        out = getattr(self, 'op_' + op['op'])(op)
        if self.reuse and op['op'] not in ('set', 'put'):
            self.scribble(n)
        return out

    reuse = False        # the caller reuses the buffers she passed to a call

    def scribble(self, n):
        keep = self.given[:n]
        for what, v, c in self.given[n:]:
            if isinstance(v, np.ndarray) and not any(o is v for _, o, _ in keep):
                v[...] = 97
            elif isinstance(v, list):
                v[:] = [97. if np.ndim(e) == 0 else e for e in v]
        self.given = keep

    def op_none(self, op):
        self.f.update(None)

    def op_set(self, op):
        for k, v in op['v'].items():
            if not (op.get('inp') and self.write(k, v)):
                self.set(k, v)
        if op.get('sub'):
            i, v = op['sub']
            s = self.subs[i]
            s.f = self.f.filters[i]
            s.op_set(dict(op, v=v, sub=None))

    INP = ()             # plain attributes the user may write into

    def write(self, k, v):
        """the new values go into the array the filter holds"""
        a = getattr(self.f, k, None)
        if k not in self.INP or self.pool is not None or np.ndim(v) == 0 or not isinstance(a, np.ndarray) \
                or a.dtype != float or a.shape != np.shape(v):
            return False
        a[...] = A(v)
        if k == 'B':
            self.B = v
        self.refresh(a)
        return True

    def op_put(self, op):
        """the user assigns state of her own"""
        if 'who' in op:
            s = self.subs[op['who']]
            s.f = self.f.filters[op['who']]
            return s.op_put({k: v for k, v in op.items() if k != 'who'})
        for k in ('x', 'P', 'mu', 'p', 's'):
            if k in op and not (op.get('inp') and self.overwrite(k, op[k])):
                self.put(k, op[k])

    PINP = ('x', 'P', 'mu', 'p')      # plain arrays of state the user may write into

    def overwrite(self, k, v):
        a = getattr(self.f, k)
        if k not in self.PINP or np.ndim(v) == 0 or self.pool is not None or not isinstance(a, np.ndarray) or a.dtype != float:
            return False
        a[...] = A(v).reshape(a.shape)
        self.refresh(a)
        return True

    def refresh(self, a):
        """what the user wrote into her own arrays is no surprise to her"""
        self.given = [(w, o, copy.deepcopy(o) if isinstance(o, np.ndarray) and np.shares_memory(o, a) else c)
                      for w, o, c in self.given]

    def put(self, k, v):
        if v == 1:
            v = np.array(getattr(self.f, k))
        else:
            v = A(v)[:, None] if k == 'x' and self.col else A(v)
        setattr(self.f, k, self.own('assigned ' + k, v))

    def set(self, k, v):
        setattr(self.f, k, self.g(v, k))
        if k == 'B':
            self.B = v

    # -- observation ------------------------------------------------------
    def est(self):
        f = self.f
        return dict(x=f.x, P=f.P)

    def held(self):
        """the estimate objects a user appends to a list of her own"""
        f = self.f
        out = [(k, getattr(f, k, None)) for k in ('x', 'P', 'dx', 'ddx', 'mu', 'p', 'x_prior', 'P_prior', 'x_post',
                                                  'P_post')]
        for i, s in enumerate(getattr(f, 'filters', ())):
            out += [('filters[%d].%s' % (i, k), getattr(s, k)) for k in 'xP']
        return [(k, v) for k, v in out if isinstance(v, np.ndarray)]

    def saved(self):
        f = self.f
        return {k + s: getattr(f, k + s) for s in ('_prior', '_post') for k in self.POST
                if hasattr(f, k + s)}

    def conf(self):
        out = {k: getattr(self.f, k) for k in self.CONF}
        return {k: v if callable(v) else copy.deepcopy(v) for k, v in out.items()}

    def diag(self, names=None):
        return {k: getattr(self.f, k) for k in (names or self.DIAG)}

    def adopt(self, f):
        """take over a restored filter object"""
        self.f = f

    def snapshot(self):
        return {k: copy.deepcopy(v) for k, v in self.est().items()}


LINDIAG = ('y', 'S', 'SI', 'K', 'log_likelihood', 'likelihood', 'mahalanobis')


class KFNode(Node):
    CONF = ('F', 'Q', 'H', 'R', 'B', 'M', 'alpha', 'inv', 'dim_x', 'dim_z', 'dim_u')
    DIAG = LINDIAG
    FLEX = True
    CLS = KalmanFilter
    INP = ('F', 'Q', 'H', 'R', 'B')

    def build(self, c):
        f = self.f = self.CLS(dim_x=c['n'], dim_z=c['m'], dim_u=c.get('l', 0))
        self.init(c, 'xPFQHR')
        if np.ndim(c['Q']) == 0:
            f.Q = np.eye(c['n']) * c['Q']
        if c.get('B') is not None:
            f.B = self.g(c['B'], 'B')
            self.B = c['B']
        if c.get('alpha', 1.) != 1.:
            f.alpha = c['alpha']
        if c.get('M') is not None:
            f.M = self.g(c['M'], 'M')
        if c.get('inv') == 'pinv':
            f.inv = np.linalg.pinv

    def set(self, k, v):
        if k == 'Q' and np.ndim(v) == 0:
            v = (np.eye(self.cfg['n']) * v).tolist()
        Node.set(self, k, v)

    def kw(self, op, names):
        return {k: self.g(op[k], k) for k in names if op.get(k) is not None}

    def op_predict(self, op):
        kw = self.kw(op, ('B', 'F', 'Q'))
        if op.get('u') is not None:
            kw['u'] = self.u(op)
        self.f.predict(**kw)

    def op_update(self, op):
        self.f.update(self.z(op), **self.kw(op, ('R', 'H')))

    def op_corr(self, op):
        self.f.update_correlated(self.z(op), **self.kw(op, ('R', 'H')))

    def op_pss(self, op):
        kw = self.kw(op, ('B',))
        u = self.u(op)
        if u is not None:
            kw['u'] = u
        self.f.predict_steadystate(**kw)

    def op_uss(self, op):
        self.f.update_steadystate(self.z(op))

    def op_none(self, op):
        w = op.get('via')
        {'corr': self.f.update_correlated, 'uss': self.f.update_steadystate}.get(
            w, self.f.update)(None)

    def op_seq(self, op):
        z = A(op['z'])
        z = self.own('measurement', z[:, None] if op.get('form') == 'col' else z)
        if op.get('form') == 'scalar' and len(op['z']) == 1:
            z = float(op['z'][0])
        kw = {}
        if op.get('R') is not None:
            kw['R_i'] = self.g(op['R'], 'R_i')
        if op.get('H') is not None:
            kw['H_i'] = self.g(op['H'], 'H_i')
        self.f.update_sequential(op['start'], z, **kw)

    # what-if queries
    def q_prediction(self, op):
        kw = self.kw(op, ('B', 'F', 'Q'))
        if op.get('u') is not None:
            kw['u'] = self.u(op)
        return self.f.get_prediction(**kw)

    def q_update(self, op):
        return self.f.get_update(self.z(op))


class FlakyNode(KFNode):
    CLS = models.FlakyKF


class ProcNode(Node):
    FLEX = 2

    def build(self, c):
        f = self.f = Holder()
        self.float = c.get('float')
        f.x = self.x0(c)
        f.P = self.m(c['P0'], 'P')
        if self.float:
            f.x = float(np.ravel(f.x)[0])
        for k in 'FQHR':
            setattr(f, k, self.m(c[k], k))
        f.B = self.B = None
        if c.get('B') is not None:
            self.set('B', c['B'])
        f.alpha = c.get('alpha', 1.)
        f.K = None

    def m(self, v, what):
        v = self.g(v, what)
        return float(np.ravel(v)[0]) if self.float and v is not None else v

    def set(self, k, v):
        setattr(self.f, k, self.m(v, k) if k not in ('alpha',) else v)
        if k == 'B':
            self.B = v

    def pick(self, op, k):
        return self.m(op[k], k) if op.get(k) is not None else getattr(self.f, k)

    def factor(self, k, v):
        """a factor of one is the default, and may be left out"""
        return {} if self.cfg.get('plain') and np.size(v) == 1 and np.ravel(v)[0] == 1. else {k: v}

    def ctl(self, op):
        B = self.pick(op, 'B')
        if B is None:
            return {}
        u = self.u(op)
        kw = self.factor('B', B)
        if u is not None:
            kw['u'] = float(np.ravel(u)[0]) if self.float else u
        return kw

    def op_predict(self, op):
        f = self.f
        a = op.get('alpha') or f.alpha
        kw = self.ctl(op)
        if a != 1.:
            kw['alpha'] = a
        kw.update(self.factor('F', self.pick(op, 'F')))
        f.x, f.P = kfmod.predict(f.x, f.P, Q=self.pick(op, 'Q'), **kw)

    def op_update(self, op):
        f = self.f
        R = op['R'] if op.get('R') is not None and np.ndim(op['R']) == 0 else None
        R = self.pick(op, 'R') if R is None else R
        if np.ndim(R) == 0 and not self.float:
            R = np.eye(len(op['z'])) * R
        r = kfmod.update(f.x, f.P, self.z(op), R, return_all=bool(op.get('all')), **self.factor('H', self.pick(op, 'H')))
        f.x, f.P = r[0], r[1]
        if self.cfg.get('plain') and not self.float:     # what shape a default factor leaves is not asked
            f.x, f.P = np.reshape(f.x, self.m(self.cfg['x0'], 'x').shape), np.reshape(f.P, (1, 1))
        if op.get('all'):
            self.last = r
            f.K = r[3]
        else:
            self.last = None

    def op_none(self, op):
        f = self.f
        r = kfmod.update(f.x, f.P, None, f.R, f.H, return_all=bool(op.get('all')))
        f.x, f.P = r[0], r[1]
    last = None

    def op_pss(self, op):
        self.f.x = kfmod.predict_steadystate(self.f.x, **dict(self.ctl(op), **self.factor('F', self.pick(op, 'F'))))

    def op_uss(self, op):
        self.f.x = kfmod.update_steadystate(self.f.x, self.z(op), self.f.K, **self.factor('H', self.f.H))

    def saved(self):
        return {}

    CONF = ('F', 'Q', 'H', 'R', 'B', 'alpha')


class EKFNode(Node):
    """extended filter on a linear model, H supplied through the callbacks"""
    CONF = ('F', 'Q', 'R', 'B', 'dim_x', 'dim_z', 'dim_u')
    DIAG = LINDIAG
    INP = ('F', 'Q', 'R', 'B')

    def build(self, c):
        f = self.f = ExtendedKalmanFilter(dim_x=c['n'], dim_z=c['m'], dim_u=c.get('l', 0))
        self.init(c, 'xPFQR')
        if c.get('B') is not None:
            f.B = self.g(c['B'], 'B')
            self.B = c['B']
        self.hj, self.hx = (self.shared(t, c['H']) for t in (models.LinHJ, models.LinHx))
        self.own('matrix returned by HJacobian', self.hj.H)

    def set(self, k, v):
        if k == 'H':
            self.hj, self.hx = models.LinHJ(v), models.LinHx(v)
        else:
            Node.set(self, k, v)

    def op_predict(self, op):
        u = self.u(op)
        self.f.predict(*([] if u is None else [u]))

    def hkw(self, op):
        kw = {}
        if op.get('H') is not None:
            H = self.g(op['H'], 'H')
            kw = dict(args=H, hx_args=H) if op.get('bare') else dict(args=(H,), hx_args=(H,))
        return kw

    def op_update(self, op):
        kw = self.hkw(op)
        if op.get('R') is not None:
            kw['R'] = self.g(op['R'], 'R')
        self.f.update(self.z(op), self.hj, self.hx, **kw)

    def op_none(self, op):
        self.f.update(None, self.hj, self.hx)

    def op_pu(self, op):
        u = self.u(op)
        kw = self.hkw(op)
        if u is not None:
            kw['u'] = u
        self.f.predict_update(self.z(op), self.hj, self.hx, **kw)

    def op_punone(self, op):
        u = self.u(op)
        self.f.predict_update(None, self.hj, self.hx, **({} if u is None else dict(u=u)))


def points(c):
    sp = c['points']
    n = c['n']
    kw = {}
    if c.get('sqrt') == 'sym':
        kw['sqrt_method'] = models.SymSqrt()
    ax = c.get('p', {}).get('ax')
    if ax:
        kw['subtract'] = models.Residual(ax)
    if 'subtract' in (c.get('odd') or {}):
        kw['subtract'] = models.Less(c['odd']['subtract'])
    if sp['fam'] == 'merwe':
        return MerweScaledSigmaPoints(n, sp['alpha'], sp['beta'], sp['kappa'], **kw)
    if sp['fam'] == 'julier':
        return JulierSigmaPoints(n, sp['kappa'], **kw)
    return SimplexSigmaPoints(n, **kw)


class UKFNode(Node):
    """unscented filter on a linear model"""
    CONF = ('Q', 'R', 'Wm', 'Wc', 'fx', 'hx')
    DIAG = LINDIAG
    INP = ('Q', 'R')

    def build(self, c):
        pts = points(c)
        if self.pool is not None:
            k = 'points' + json.dumps([c['points'], c['n']])
            pts = self.pool.setdefault(k, pts)
        self.fx, self.hx = self.shared(models.LinFx, c['F']), self.shared(models.LinHx, c['H'])
        if c.get('A') is not None:
            self.fx = self.shared(models.LinDtFx, c['A'])
        self.make(c, pts)
        f = self.f
        self.init(c, 'xPQR')
        if c.get('B') is not None:
            self.B = c['B']

    def make(self, c, pts):
        self.f = UnscentedKalmanFilter(c['n'], c['m'], c.get('dt', 1.), self.hx, self.fx, pts)

    def write(self, k, v):
        if k in ('F', 'H') and self.pool is None and type(self.f.fx) is models.LinFx:
            cb = self.f.fx if k == 'F' else self.f.hx
            getattr(cb, k)[...] = A(v)
            return True
        return Node.write(self, k, v)

    def set(self, k, v):
        if k == 'F':
            if type(self.f.fx) is models.LinFx:
                self.f.fx = self.shared(models.LinFx, v)
            else:
                self.f.fx.F = A(v)
        elif k == 'H':
            self.f.hx = self.shared(models.LinHx, v)
        elif k == 'B':
            self.B = v
        else:
            Node.set(self, k, v)

    def fkw(self, op):
        kw = {}
        if op.get('F') is not None:
            kw['F'] = self.g(op['F'], 'F')
        B = op.get('B') if op.get('B') is not None else self.B
        if B is not None and op.get('u') is not None:
            kw['b'] = self.own('control', A(B).dot(A(op['u'])))
        return kw

    def op_predict(self, op):
        kw = self.fkw(op)
        if op.get('dt') is not None:
            kw['dt'] = op['dt']
        self.f.predict(**kw)

    def op_update(self, op):
        kw = {}
        if op.get('R') is not None:
            kw['R'] = self.g(op['R'], 'R')
        if op.get('H') is not None:
            kw['H'] = self.g(op['H'], 'H')
        self.f.update(self.z(op), **kw)

    def op_points(self, op):
        """documented for several updates after one predict: points which reflect the updated state"""
        self.f.compute_process_sigmas(0., lambda x, dt: x)


class CKFNode(UKFNode):
    CONF = ('Q', 'R', 'dim_x', 'dim_z', 'fx', 'hx')
    FLEX = 2

    def make(self, c, pts):
        self.f = CubatureKalmanFilter(c['n'], c['m'], c.get('dt', 1.), self.hx, self.fx)

    def build(self, c):
        UKFNode.build(self, dict(c, points=dict(fam='simplex')))

    def op_predict(self, op):
        kw = self.fkw(op)
        a = ()
        if 'b' in kw:
            a = (kw.get('F'), kw['b'])
        elif 'F' in kw:
            a = kw['F'] if op.get('bare') else (kw['F'],)
        k = {} if isinstance(a, tuple) and not a else dict(fx_args=a)
        if op.get('dt') is not None:
            k['dt'] = op['dt']
        self.f.predict(**k)

    def op_update(self, op):
        kw = {}
        if op.get('R') is not None:
            kw['R'] = self.g(op['R'], 'R')
        if op.get('H') is not None:
            H = self.g(op['H'], 'H')
            kw['hx_args'] = H if op.get('bare') else (H,)
        self.f.update(self.z(op), **kw)


class SRKFNode(Node):
    CONF = ('F', 'Q', 'H', 'R', 'B', 'dim_x', 'dim_z', 'dim_u')
    DIAG = ('y', 'S', 'SI', 'K')
    INP = ('F', 'H', 'B')
    PINP = ('x',)
    FILL = 'xFH'

    def build(self, c):
        f = self.f = SquareRootKalmanFilter(c['n'], c['m'], c.get('l', 0))
        self.init(c, 'xPFQH' + ('R' if np.ndim(c['R']) else ''))
        if not np.ndim(c['R']):
            self.set('R', c['R'])
        if c.get('B') is not None:
            f.B = self.g(c['B'], 'B')
            self.B = c['B']

    def set(self, k, v):
        if k == 'R' and np.ndim(v) == 0:
            v = (np.eye(self.cfg['m']) * v).tolist()
        Node.set(self, k, v)

    def op_predict(self, op):
        u = self.u(op)
        self.f.predict(*([] if u is None else [u]))

    def op_update(self, op):
        kw = {}
        R = op.get('R')
        if R is not None:
            kw['R2'] = float(np.sqrt(R)) if np.ndim(R) == 0 else self.own('R2', _chol(A(R)))
        self.f.update(self.z(op), **kw)

    def q_residual(self, op):
        return self.f.residual_of(self.z(op))


class InfNode(Node):
    CONF = ('F', 'Q', 'H', 'R_inv', 'B', 'inv', 'dim_x', 'dim_z', 'dim_u', 'compute_log_likelihood')
    DIAG = ('y', 'K', 'log_likelihood', 'likelihood')
    FLEX = 2
    POST = ('x', 'P_inv')
    INP = ('Q', 'H', 'B')
    PINP = ('x',)
    FILL = 'xQH'
    DEFAULT = 'xPQR'

    def put(self, k, v):
        if k != 'P':
            return Node.put(self, k, v)
        self.f.P_inv = self.own('assigned P_inv', np.array(self.f.P_inv) if v == 1 else _inv(A(v)))

    def build(self, c):
        f = self.f = InformationFilter(c['n'], c['m'], c.get('l', 0))
        self.init(c, 'xFQH')
        d = c.get('defaults', ())
        if not ('P' in d and np.array_equal(c['P0'], np.eye(c['n']))):
            f.P_inv = self.own('P_inv', _inv(A(c['P0'])))
        if not ('R' in d and np.array_equal(c['R'], np.eye(c['m']))):
            self.set('R', c['R'])
        if c.get('B') is not None:
            f.B = self.g(c['B'], 'B')
            self.B = c['B']

    def set(self, k, v):
        if k == 'R':
            R = np.eye(self.cfg['m']) * v if np.ndim(v) == 0 else A(v)
            self.f.R_inv = self.own('R_inv', _inv(R))
        else:
            Node.set(self, k, v)

    def op_predict(self, op):
        u = self.u(op)
        self.f.predict(*([] if u is None else [u]))

    def op_update(self, op):
        kw = {}
        R = op.get('R')
        if R is not None:
            kw['R_inv'] = 1. / R if np.ndim(R) == 0 else self.own('R_inv', _inv(A(R)))
        self.f.update(self.z(op), **kw)

    def saved(self):
        s = Node.saved(self)
        return {k.replace('P_inv', 'P'): (_inv(v) if 'P_inv' in k else v) for k, v in s.items()}


class FadingNode(Node):
    CONF = ('F', 'Q', 'H', 'R', 'B', 'alpha', 'dim_x', 'dim_z', 'dim_u')
    DIAG = LINDIAG
    INP = ('F', 'Q', 'H', 'R', 'B')

    def build(self, c):
        f = self.f = FadingKalmanFilter(c.get('alpha', 1.), c['n'], c['m'], c.get('l', 0))
        self.init(c, 'xPFQHR')
        if c.get('B') is not None:
            f.B = self.g(c['B'], 'B')
            self.B = c['B']

    def op_predict(self, op):
        u = self.u(op)
        self.f.predict(*([] if u is None else [u]))

    def op_update(self, op):
        kw = {}
        if op.get('R') is not None:
            kw['R'] = self.g(op['R'], 'R')
        self.f.update(self.z(op), **kw)

    def q_prediction(self, op):
        u = self.u(op)
        return self.f.get_prediction(*([] if u is None else [u]))

    def q_residual(self, op):
        return self.f.residual_of(self.z(op))


class HInfNode(Node):
    CONF = ('F', 'Q', 'H', 'V', 'W', 'B', 'gamma', 'dim_x', 'dim_z', 'dim_u')
    DIAG = ('y',)
    INP = ('F', 'Q', 'H', 'W', 'B')
    FILL = 'xPFQHW'
    DEFAULT = 'xPFQ'

    def build(self, c):
        f = self.f = HInfinityFilter(c['n'], c['m'], c.get('l', 0), c['gamma'])
        self.init(c, 'xPFQHVW')
        if c.get('B') is not None:
            f.B = self.g(c['B'], 'B')
            self.B = c['B']

    def op_predict(self, op):
        u = self.u(op)
        self.f.predict(*([] if u is None else [u]))

    def op_update(self, op):
        self.f.update(self.z(op))

    def saved(self):
        return {}

    def q_prediction(self, op):
        u = self.u(op)
        return self.f.get_prediction(*([] if u is None else [u]))

    def q_residual(self, op):
        return self.f.residual_of(self.z(op))


# ---------------------------------------------------------------- nonlinear
class EKFNLNode(Node):
    CONF = ('Q', 'R', 'B', 'dim_x', 'dim_z', 'dim_u')
    DIAG = LINDIAG
    INP = ('Q', 'R', 'B')

    def build(self, c):
        f = self.f = models.EKFNL(c['n'], c['m'], c.get('l', 0))
        f.p, f.dt = c['p'], c['dt']
        self.init(c, 'xPQR')
        if c.get('B') is not None:
            f.B = self.g(c['B'], 'B')
            self.B = c['B']

    def prepared(self, op, call):
        """the interval and the Jacobian set for a call that predicts"""
        f = self.f
        dt = op['dt'] if op.get('dt') is not None else self.cfg['dt']
        was = f.dt, f.F
        f.dt = dt
        f.F = models.nl_fj(self.cfg['p'], f.x, dt)
        try:
            call()
        except Exception:
            f.dt, f.F = was          # this user undoes her own preparations
            raise

    def op_predict(self, op):
        u = self.u(op)
        self.prepared(op, lambda: self.f.predict(*([] if u is None else [u])))

    def par(self, op):
        return self.cfg['p'] if op.get('alt') is None else self.cfg['alts'][op['alt']]

    def hkw(self, op):
        kw = {}
        for name, k in (('args', 'jargs'), ('hx_args', 'hargs')):
            a = op.get(k) or {}
            if 'off' in a:
                kw[name] = (a.get('scale', 1.), a['off'])
            elif 'scale' in a:
                kw[name] = a['scale'] if op.get('bare') else (a['scale'],)
        return kw

    def op_update(self, op, call=None):
        p = self.par(op)
        kw = self.hkw(op)
        if op.get('R') is not None:
            kw['R'] = self.g(op['R'], 'R')
        if op.get('residual'):
            r = op['residual']
            kw['residual'] = models.Residual(p.get('az') or []) if r is True else models.Scaled(r)
        self.f.update(self.z(op), models.HJ(p), models.Hx(p), **kw)

    def op_none(self, op):
        self.f.update(None, models.HJ(self.cfg['p']), models.Hx(self.cfg['p']))

    def op_pu(self, op):
        p = self.par(op)
        kw = self.hkw(op)
        u = self.u(op)
        if u is not None:
            kw['u'] = u
        z = self.z(op)
        self.prepared(op, lambda: self.f.predict_update(z, models.HJ(p), models.Hx(p), **kw))

    def op_punone(self, op):
        u, p = self.u(op), self.cfg['p']
        self.prepared(op, lambda: self.f.predict_update(None, models.HJ(p), models.Hx(p), **({} if u is None else dict(u=u))))


def odd_functions(c):
    """means, residuals and an addition of the user's own, each given or not by itself"""
    mk = dict(x_mean_fn=models.Shifted, z_mean_fn=models.Shifted, residual_x=models.Scaled,
              residual_z=models.Scaled, state_add=models.Damped)
    return {k: mk[k](v) for k, v in (c.get('odd') or {}).items() if k in mk}


class UKFNLNode(Node):
    CONF = ('Q', 'R', 'Wm', 'Wc', 'fx', 'hx')
    DIAG = LINDIAG
    INP = ('Q', 'R')

    def set(self, k, v):
        if k in ('fx', 'hx'):
            setattr(self.f, k, self.shared(models.Fx if k == 'fx' else models.Hx, self.cfg['alts'][v]))
        else:
            Node.set(self, k, v)

    def build(self, c):
        pts = points(c)
        if self.pool is not None:
            k = 'points' + json.dumps([c['points'], c['n'], c.get('sqrt'), c['p'].get('ax'), (c.get('odd') or {}).get('subtract')])
            pts = self.pool.setdefault(k, pts)
        p = c['p']
        kw = {}
        if p.get('ax'):
            kw.update(x_mean_fn=models.Mean(p['ax']), residual_x=models.Residual(p['ax']),
                      state_add=models.Add(p['ax']))
        if p.get('az'):
            kw.update(z_mean_fn=models.Mean(p['az']), residual_z=models.Residual(p['az']))
        kw.update(odd_functions(c))
        f = self.f = UnscentedKalmanFilter(c['n'], c['m'], c['dt'], self.shared(models.Hx, p),
                                           self.shared(models.Fx, p), pts, **kw)
        self.init(c, 'xPQR')

    def op_predict(self, op):
        kw = dict(op.get('fargs') or {})
        if op.get('dt') is not None:
            kw['dt'] = op['dt']
        if op.get('alt') is not None:
            kw['fx'] = models.Fx(self.cfg['alts'][op['alt']])
        if op.get('UT'):
            kw['UT'] = models.UT(op['UT'])
        self.f.predict(**kw)

    def op_update(self, op):
        kw = dict(op.get('hargs') or {})
        if op.get('R') is not None:
            kw['R'] = self.g(op['R'], 'R')
        if op.get('alt') is not None:
            kw['hx'] = models.Hx(self.cfg['alts'][op['alt']])
        if op.get('UT'):
            kw['UT'] = models.UT(op['UT'])
        self.f.update(self.z(op), **kw)


class CKFNLNode(Node):
    CONF = ('Q', 'R', 'dim_x', 'dim_z', 'fx', 'hx')
    DIAG = LINDIAG
    FLEX = 2
    INP = ('Q', 'R')

    def build(self, c):
        p = c['p']
        kw = {}
        if p.get('ax'):
            kw.update(x_mean_fn=models.Mean(p['ax']), residual_x=models.Residual(p['ax']))
        if p.get('az'):
            kw.update(z_mean_fn=models.Mean(p['az']), residual_z=models.Residual(p['az']))
        kw.update(odd_functions(c))
        f = self.f = CubatureKalmanFilter(c['n'], c['m'], c['dt'], self.shared(models.Hx, p),
                                          self.shared(models.Fx, p), **kw)
        self.init(c, 'xPQR')

    def op_predict(self, op):
        kw = {}
        a = op.get('fargs') or {}
        if 'gain' in a:
            kw['fx_args'] = (a.get('bias', 0.), a['gain'])
        elif 'bias' in a:
            kw['fx_args'] = a['bias'] if op.get('bare') else (a['bias'],)
        if op.get('dt') is not None:
            kw['dt'] = op['dt']
        self.f.predict(**kw)

    def op_update(self, op):
        kw = {}
        a = op.get('hargs') or {}
        if 'off' in a:
            kw['hx_args'] = (a.get('scale', 1.), a['off'])
        elif 'scale' in a:
            kw['hx_args'] = a['scale'] if op.get('bare') else (a['scale'],)
        if op.get('R') is not None:
            kw['R'] = self.g(op['R'], 'R')
        self.f.update(self.z(op), **kw)


class EnKFNode(Node):
    CONF = ('Q', 'R', 'N', 'dim_x', 'dim_z', 'dt', 'fx', 'hx')
    DIAG = ('S', 'SI', 'K')
    INP = ('Q', 'R')

    def build(self, c):
        p = c['p']
        f = self.f = EnsembleKalmanFilter(x=self.x0(c), P=self.g(c['P0'], 'P'), dim_z=c['m'], dt=c['dt'],
                                          N=c['N'], hx=models.Hx(p), fx=models.Fx(p))
        self.init(c, 'QR')

    def op_predict(self, op):
        self.f.predict()

    def op_update(self, op):
        kw = {}
        if op.get('R') is not None:
            kw['R'] = self.g(op['R'], 'R')
        self.f.update(self.z(op), **kw)
    SCALARZ = False

    def est(self):
        f = self.f
        return dict(x=f.x, P=f.P, sigmas=f.sigmas)


# -------------------------------------------------------------------- banks
class IMMNode(Node):
    CONF = ('M', 'N')
    INP = ('M',)

    def build(self, c):
        self.subs = [make_node(s, self.pool) for s in c['filters']]
        self.B = c['filters'][0].get('B')
        self.flist = [s.f for s in self.subs]
        self.f = IMMEstimator(self.flist, self.own('mu', self.muform(c)), self.g(c['M'], 'M'))

    def muform(self, c):
        return list(c['mu']) if c.get('mulist') else self.typed(A(c['mu']))

    def op_predict(self, op):
        u = op.get('u')
        self.f.predict(*([] if u is None else [self.vec(u, 'control')]))

    def op_update(self, op):
        self.f.update(self.z(op))

    def z(self, op):
        return self.subs[0].z(op)

    def est(self):
        f = self.f
        d = dict(x=f.x, P=f.P, mu=f.mu)
        for i, s in enumerate(f.filters):
            d['x%d' % i], d['P%d' % i] = s.x, s.P
        return d

    def check_given(self):
        Node.check_given(self)
        for s in self.subs:
            s.check_given()

    def adopt(self, f):
        self.f = f


class MMAENode(IMMNode):
    CONF = ('H', 'dim_x')
    INP = ('H',)

    def set(self, k, v):
        if k == 'H':
            self.bankH = v
        Node.set(self, k, v)

    def write(self, k, v):
        if not Node.write(self, k, v):
            return False
        self.bankH = v
        return True
    bankH = None

    def build(self, c):
        self.subs = [make_node(s, self.pool) for s in c['filters']]
        self.B = c['filters'][0].get('B')
        p = self.own('p', list(c['p']) if c.get('mulist') else self.typed(A(c['p'])))
        self.bankH = c.get('bankH')
        kw = {} if c.get('bankH') is None else dict(H=self.g(c['bankH'], 'H'))
        self.f = MMAEFilterBank([s.f for s in self.subs], p, c['n'], **kw)

    def op_predict(self, op):
        u = self.u(op)
        self.f.predict(*([None] if u is None else [u]))

    def op_update(self, op):
        kw = {k: self.g(op[k], k) for k in ('R', 'H') if op.get(k) is not None}
        self.f.update(self.z(op), **kw)

    def z(self, op):
        if self.bankH is not None:
            op = dict(op, H=self.bankH)
        return self.subs[0].z(op)

    def est(self):
        f = self.f
        d = dict(x=f.x, P=f.P, p=f.p)
        for i, s in enumerate(f.filters):
            d['x%d' % i], d['P%d' % i] = s.x, s.P
        return d


# ----------------------------------------------------------------- trackers
class GHNode(Node):
    CONF = ('dt', 'g', 'h')

    def build(self, c):
        s = [self.g(v, 'state') for v in c['s']]
        self.f = GHFilter(s[0], s[1], c['dt'], *c['gains'])

    def op_update(self, op):
        kw = {k: op[k] for k in 'ghk' if op.get(k) is not None}
        return self.f.update(self.g(op['z'], 'measurement'), **kw)

    def est(self):
        f = self.f
        return dict(s=np.array([np.ravel(f.x), np.ravel(f.dx)]))

    PARTS = ('x', 'dx')

    def put(self, k, v):
        for i, p in enumerate(self.PARTS):
            now = getattr(self.f, p) if v == 1 else v[i]
            setattr(self.f, p, self.own('assigned ' + p, np.array(now, float)) if np.ndim(now) else float(now))


class GHKNode(GHNode):
    CONF = ('dt', 'g', 'h', 'k')
    PARTS = ('x', 'dx', 'ddx')

    def build(self, c):
        s = [self.g(v, 'state') for v in c['s']]
        self.f = GHKFilter(s[0], s[1], s[2], c['dt'], *c['gains'])

    def est(self):
        f = self.f
        return dict(s=np.array([np.ravel(f.x), np.ravel(f.dx), np.ravel(f.ddx)]))


class GHONode(GHNode):
    CONF = ('dt', 'g', 'h', 'k', 'order')

    def build(self, c):
        x0 = self.own('state', self.typed(A(c['s'])))
        if c.get('scalar0'):
            x0 = c['s'][0]
        self.f = GHFilterOrder(x0, c['dt'], len(c['s']) - 1, *c['gains'])

    def put(self, k, v):
        self.f.x = self.own('assigned x', np.array(self.f.x if v == 1 else v, float))

    def est(self):
        x = np.array(self.f.x)
        return dict(s=x.reshape(len(x), -1))


class FMemNode(Node):
    CONF = ('dt', 'order', 'beta', 'P', 'e')

    def build(self, c):
        x0 = c['s'][0] if c.get('scalar0') else self.own('state', self.typed(A(c['s'])))
        self.f = FadingMemoryFilter(x0, c['dt'], c['order'], c['beta'])

    def put(self, k, v):
        self.f.x = self.own('assigned x', np.array(self.f.x if v == 1 else v, float))

    def op_update(self, op):
        self.f.update(op['z'])

    def est(self):
        return dict(x=np.array(self.f.x))


class LSQNode(Node):
    CONF = ('dt', 'sigma')

    def build(self, c):
        self.f = LeastSquaresFilter(c['dt'], c['order'], c['sigma'])

    def op_update(self, op):
        return self.f.update(op['z'])

    def op_reset(self, op):
        self.f.reset()

    def est(self):
        return dict(x=np.array(self.f.x), n=self.f.n)


class FLSNode(Node):
    CONF = ('F', 'Q', 'H', 'R', 'B', 'N', 'dim_x', 'dim_z')

    def build(self, c):
        f = self.f = FixedLagSmoother(c['n'], c['m'], c['N'])
        self.init(c, 'xPFQHR')
        if c.get('B') is not None:
            f.B = self.g(c['B'], 'B')
            self.B = c['B']

    def op_smooth(self, op):
        if op.get('u') is not None and self.B is not None:
            self.f.smooth(self.z(op), self.vec(op['u'], 'control'))
        else:
            self.f.smooth(self.z(op))

    def est(self):
        f = self.f
        return dict(x=f.x, P=f.P, xSmooth=np.array([np.ravel(v) for v in f.xSmooth]))


class DBNode(Node):
    def build(self, c):
        f = self.f = Holder()
        b = self.g(c['prior'], 'prior')
        f.b = self.own('prior', b.astype(int)) if c.get('bint') else b

    def op_move(self, op):
        kw = {}
        if op.get('mode'):
            kw = dict(mode=op['mode'])
            if op.get('cval'):
                kw['cval'] = op['cval']
        self.f.b = db.predict(self.own('belief', self.f.b), op['offset'],
                              self.own('kernel', list(op['kernel'])) if op.get('klist')
                              else self.g(op['kernel'], 'kernel'), **kw)

    def op_sense(self, op):
        self.f.b = db.update(self.g(op['like'], 'likelihood'), self.own('belief', self.f.b))

    def est(self):
        return dict(b=self.f.b)


KINDS = dict(kf=KFNode, flaky=FlakyNode, proc=ProcNode, ekf=EKFNode, ukf=UKFNode, ckf=CKFNode,
             srkf=SRKFNode, inf=InfNode, fading=FadingNode, hinf=HInfNode, ekfnl=EKFNLNode,
             ukfnl=UKFNLNode, ckfnl=CKFNLNode, enkf=EnKFNode, imm=IMMNode, mmae=MMAENode,
             gh=GHNode, ghk=GHKNode, gho=GHONode, fmem=FMemNode, lsq=LSQNode, fls=FLSNode,
             dbayes=DBNode)


def make_node(cfg, pool=None):
    return KINDS[cfg['kind']](cfg, pool)
