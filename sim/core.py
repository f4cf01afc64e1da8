"""Seeded randomness, violations, comparison and per-run accounting."""
import json
import math
import random
import zlib
import numpy as np


class Violation(Exception):
    def __init__(self, kind, msg, **detail):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.detail = detail


class Hang(BaseException):
    """the per-run watchdog expired"""


class SimCrash(BaseException):
    """the simulated process was killed"""


class Rng(random.Random):
    """the one source of choices of a run"""

    def chance(self, p):
        return self.random() < p

    def f(self, lo, hi, nd=4):
        return round(self.uniform(lo, hi), nd)

    def lf(self, lo, hi, nd=6):
        """log-uniform"""
        return float('%.*g' % (nd, math.exp(self.uniform(math.log(lo), math.log(hi)))))

    def norm(self, nd=4):
        return round(self.gauss(0., 1.), nd)

    def vec(self, n, s=1.):
        return [round(self.gauss(0., s), 4) for _ in range(n)]

    def mat(self, n, m, s=1.):
        return [self.vec(m, s) for _ in range(n)]

    def spd(self, n, lo, hi):
        """random symmetric positive definite matrix, eigenvalues in [lo,hi]"""
        q, _ = np.linalg.qr(np.array([[self.gauss(0., 1.) for _ in range(n)] for _ in range(n)]))
        e = np.array([math.exp(self.uniform(math.log(lo), math.log(hi))) for _ in range(n)])
        a = (q * e).dot(q.T)
        return [[float('%.6g' % ((a[i, j] + a[j, i]) / 2)) for j in range(n)] for i in range(n)]

    def wpick(self, items):
        """items: list of (weight, value)"""
        t = self.random() * sum(w for w, _ in items)
        for w, v in items:
            t -= w
            if t < 0:
                return v
        return items[-1][1]


def A(v):
    return np.array(v, dtype=float)


def num(v, what):
    """SUT value -> float array, or a violation if it is not numeric"""
    try:
        return np.array(v, dtype=float)
    except (TypeError, ValueError):
        raise Violation('bad-value', '%s is not numeric: %r' % (what, v))


def flat(v, what='value'):
    return num(v, what).ravel()


def close(got, want, tol, scale=None, what='value', kind='mismatch'):
    """scale-aware comparison; raises Violation"""
    g = num(got, what)
    w = np.asarray(want, dtype=float)
    if g.size != w.size:
        raise Violation(kind, '%s has shape %s, expected %s' % (what, g.shape, w.shape))
    g = g.ravel()
    w = w.ravel()
    if not g.size:
        return
    if scale is None:
        fin = np.abs(w[np.isfinite(w)])
        scale = 1e-3 + (fin.max() if fin.size else 0.)
    bad = ~(np.abs(g - w) <= tol * scale)
    if bad.any():
        bad &= ~((g == w) | (np.isnan(g) & np.isnan(w)))
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation(kind, '%s[%d] = %r, expected %r (tolerance %.3g)'
                        % (what, i, float(g[i]), float(w[i]), tol * scale))


def same(got, want, what='value', kind='changed', tol=1e-10):
    """equality up to reassociation-level rounding, shape included"""
    if got is None or want is None:
        if got is None and want is None:
            return
        raise Violation(kind, '%s is %r, expected %r' % (what, got, want))
    if isinstance(want, np.ndarray) and want.dtype == object:
        if np.shape(got) != want.shape or not all(
                a is b or a == b for a, b in zip(np.asarray(got, dtype=object).ravel(), want.ravel())):
            raise Violation(kind, '%s is %r, expected %r' % (what, got, want))
        return
    if np.shape(got) != np.shape(want):
        raise Violation(kind, '%s has shape %s, expected %s' % (what, np.shape(got), np.shape(want)))
    close(got, want, tol, None, what, kind)


class Ctx(object):
    """what one run did; merged into the evidence"""

    def __init__(self):
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.simtime = 0.
        self.steps = 0
        self.checks = 0
        self.nontrivial = False
        self.log = 0

    def fault(self, k, n=1):
        if n:
            self.faults[k] = self.faults.get(k, 0) + n
            self.nontrivial = True

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    def state(self, *sig):
        self.states.add(zlib.crc32(repr(sig).encode()))

    def ev(self, *what):
        """event log digest, for the determinism proof"""
        self.log = zlib.crc32(repr(what).encode(), self.log)

    def arr(self, v):
        try:
            self.log = zlib.crc32(np.ascontiguousarray(np.asarray(v, float)).tobytes(), self.log)
        except (TypeError, ValueError):
            self.log = zlib.crc32(b'?', self.log)


def plan_hash(plan):
    return zlib.crc32(json.dumps(plan, sort_keys=True).encode())
