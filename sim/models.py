"""Simulated user code: the callbacks and subclasses a user would write.

All are picklable, each announces itself to the fault plane before it
computes, and each exists once more as a plain formula in refs.py.
"""
import numpy as np
from .boot import PLANE, InjectedFault
from .core import A
from filterpy.kalman import KalmanFilter, ExtendedKalmanFilter


def wrap(a):
    return (a + np.pi) % (2 * np.pi) - np.pi


class LinFx(object):
    """linear transition for sigma-point filters: x -> F x + b"""

    def __init__(self, F):
        self.F = A(F)

    def __call__(self, x, dt, F=None, b=None):
        PLANE.hit('fx', InjectedFault('fx'))
        y = np.dot(self.F if F is None else F, x)
        return y if b is None else y + b


class LinDtFx(object):
    """linear transition over an interval: x -> (I + dt A) x"""

    def __init__(self, A_):
        self.A = A(A_)

    def __call__(self, x, dt):
        PLANE.hit('fx', InjectedFault('fx'))
        return x + dt * np.dot(self.A, x)


class LinHx(object):
    def __init__(self, H):
        self.H = A(H)

    def __call__(self, x, H=None):
        PLANE.hit('hx', InjectedFault('hx'))
        return np.dot(self.H if H is None else H, x)


class LinHJ(object):
    def __init__(self, H):
        self.H = A(H)

    def __call__(self, x, H=None):
        PLANE.hit('HJacobian', InjectedFault('HJacobian'))
        return self.H if H is None else H


def nl_f(p, x, dt, bias=0., gain=1.):
    """nonlinear transition, any leading state shape (n,) or (n,1)"""
    c = A(p['fc']).reshape((-1,) + (1,) * (np.ndim(x) - 1))
    y = x + dt * (gain * np.dot(A(p['A']), x) + c * np.sin(x) + bias)
    if p.get('ax'):
        y = np.array(y)
        y[p['ax']] = wrap(y[p['ax']])
    return y


def nl_fj(p, x, dt, bias=0., gain=1.):
    x = np.ravel(x)
    n = len(x)
    return np.eye(n) + dt * (gain * A(p['A']) + np.diag(A(p['fc']) * np.cos(x)))


def nl_h(p, x, scale=1., off=0.):
    c = A(p['hc']).reshape((-1,) + (1,) * (np.ndim(x) - 1))
    z = scale * (np.dot(A(p['H']), x) + c * np.sin(np.dot(A(p['W']), x))) + off
    if p.get('az'):
        z = np.array(z)
        z[p['az']] = wrap(z[p['az']])
    return z


def nl_hj(p, x, scale=1., off=0.):
    x = np.ravel(x)
    W = A(p['W'])
    return scale * (A(p['H']) + (A(p['hc']) * np.cos(np.dot(W, x)))[:, None] * W)


class Fx(object):
    def __init__(self, p):
        self.p = p

    def __call__(self, x, dt, bias=0., gain=1.):
        PLANE.hit('fx', InjectedFault('fx'))
        return nl_f(self.p, x, dt, bias, gain)


class Hx(object):
    def __init__(self, p):
        self.p = p

    def __call__(self, x, scale=1., off=0.):
        PLANE.hit('hx', InjectedFault('hx'))
        return nl_h(self.p, x, scale, off)


class HJ(object):
    def __init__(self, p):
        self.p = p

    def __call__(self, x, scale=1., off=0.):
        PLANE.hit('HJacobian', InjectedFault('HJacobian'))
        return nl_hj(self.p, x, scale, off)


class Residual(object):
    """a - b with the angular components wrapped"""

    def __init__(self, idx):
        self.idx = idx

    def __call__(self, a, b):
        PLANE.hit('residual', InjectedFault('residual'))
        y = np.array(np.subtract(a, b), dtype=float)
        y[self.idx] = wrap(y[self.idx])
        return y


class Add(object):
    def __init__(self, idx):
        self.idx = idx

    def __call__(self, a, b):
        PLANE.hit('state_add', InjectedFault('state_add'))
        y = np.array(np.add(a, b), dtype=float)
        y[self.idx] = wrap(y[self.idx])
        return y


class Mean(object):
    """weighted mean of sigma points, circular in the angular components"""

    def __init__(self, idx):
        self.idx = idx

    def __call__(self, sigmas, Wm):
        PLANE.hit('mean_fn', InjectedFault('mean_fn'))
        x = np.dot(Wm, sigmas)
        for i in self.idx:
            x[i] = np.arctan2(np.dot(Wm, np.sin(sigmas[:, i])), np.dot(Wm, np.cos(sigmas[:, i])))
        return x


class Scaled(object):
    """a residual that weighs each component by itself"""

    def __init__(self, k):
        self.k = k

    def __call__(self, a, b):
        PLANE.hit('residual', InjectedFault('residual'))
        return (np.subtract(a, b).T * np.array(self.k)).T


class Damped(Scaled):
    """an addition that takes only part of each step"""

    def __call__(self, a, b):
        PLANE.hit('state_add', InjectedFault('state_add'))
        return np.add(a, (np.array(b).T * np.array(self.k)).T)


class Less(Scaled):
    """a subtraction of only part of the second argument"""

    def __call__(self, a, b):
        PLANE.hit('residual', InjectedFault('residual'))
        return np.subtract(a, (np.array(b).T * np.array(self.k)).T)


class Shifted(Scaled):
    """the weighted mean, set off by a constant"""

    def __call__(self, sigmas, Wm):
        PLANE.hit('mean_fn', InjectedFault('mean_fn'))
        return np.dot(Wm, sigmas) + np.array(self.k)


class UT(object):
    """a user-supplied transform: the standard one, covariance inflated by k"""

    def __init__(self, k):
        self.k = k

    def __call__(self, sigmas, Wm, Wc, noise_cov=None, mean_fn=None, residual_fn=None):
        PLANE.hit('UT', InjectedFault('UT'))
        x = np.dot(Wm, sigmas) if mean_fn is None else mean_fn(sigmas, Wm)
        P = np.zeros((sigmas.shape[1],) * 2)
        for w, s in zip(Wc, sigmas):
            d = np.subtract(s, x) if residual_fn is None else residual_fn(s, x)
            P = P + w * np.outer(d, d)
        P = P * self.k
        return x, P if noise_cov is None else P + noise_cov


class SymSqrt(object):
    """a user-supplied matrix square root (symmetric)"""

    def __call__(self, P):
        PLANE.hit('sqrt_method', InjectedFault('sqrt_method'))
        w, v = np.linalg.eigh(P)
        return (v * np.sqrt(np.maximum(w, 0.))).dot(v.T)


class EKFNL(ExtendedKalmanFilter):
    """an EKF with a nonlinear state transition, as its documentation asks"""
    dt = 0.1
    p = None

    def predict_x(self, u=0):
        PLANE.hit('predict_x', InjectedFault('predict_x'))
        self.x = nl_f(self.p, self.x, self.dt) + np.dot(self.B, u)


class FlakyKF(KalmanFilter):
    """a user's filter with computed properties, two of which can fail"""

    @property
    def a_first(self):
        PLANE.hit('property', InjectedFault('a_first'))
        return self.x.sum()

    @property
    def zz_last(self):
        PLANE.hit('property', InjectedFault('zz_last'))
        return self.P

    @property
    def live_view(self):
        return self.x

    _marks = None

    @property
    def marks(self):
        return self._marks      # a buffer the user writes into as she goes
