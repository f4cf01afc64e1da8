"""C14: resampling is complete, in range, proportional and unbiased for any random draws."""
import math
import numpy as np
from sim import boot                                  # noqa: F401
from sim.boot import PLANE
from sim.core import Violation
from filterpy.monte_carlo import (multinomial_resample, residual_resample, stratified_resample,
                                  systematic_resample)

RUNS = 40000
LISTS = ['steps']
RULE = ('a simulated particle filter (or hand-made degenerate weights) resampled by a seeded scheme while the stream of '
        'uniform draws is scripted: ordinary, all zero, all the largest float below 1, a mix, or draws that make a '
        'position fall exactly on (or one ulp beside) a cumulative weight; non-trivial when a scripted stream was met')
STATES = 'distinct (scheme, weight pattern, number of particles, draw script)'
REAL = ['residual_resample', 'stratified_resample', 'systematic_resample', 'multinomial_resample']
STUB = ['random source (scripted)', 'the particle filter around it']
FAULTS = ['draw-zero', 'draw-max', 'draw-mix', 'draw-edge']
PROBES = ['systematic', 'stratified', 'residual', 'multinomial', 'zero-weight', 'one-hot', 'integer-shares',
          'unbiased-grid', 'independent-draws', 'list', 'single']
ASSUME = ['weights are non-negative and sum to one up to rounding, as the documentation asks']

SCHEMES = dict(systematic=systematic_resample, stratified=stratified_resample, residual=residual_resample,
               multinomial=multinomial_resample)
TOP = 1. - 2. ** -53
UNIFORM = ('random', 'random_sample', 'ranf', 'sample', 'rand', 'uniform')


def gen(rng, tier):
    N = rng.wpick([(1, 1), (2, 2), (6, rng.randint(3, 12)), (3, rng.randint(13, 60)), (1, rng.randint(100, 1000))])
    steps = []
    for _ in range(rng.choice([1, 2, 4, 8])):
        steps.append(dict(
            weights=rng.choice(['pf', 'pf', 'dirichlet', 'spiky', 'onehot', 'zeros', 'tiny', 'uniform', 'shares', 'ends']),
            scheme=rng.choice(sorted(SCHEMES)),
            draws=rng.choice([None, None, 'zero', 'max', 'mix', 'edge', 'edge']),
            list=rng.chance(.2), seed=rng.randrange(1 << 30)))
    return dict(N=N, steps=steps, grid=N <= 6 and rng.chance(.1), like=rng.f(.05, 2.),
                joint=rng.choice(sorted(RANDOM)) if rng.chance(.004) else None,
                parts=rng.randrange(1 << 30))


def simplify(plan):
    for N in (1, 2, 3, 4, 6, 10):
        if N < plan['N']:
            yield dict(plan, N=N)
    for i, s in enumerate(plan['steps']):
        for k, v in (('list', False), ('draws', None), ('draws', 'zero'), ('weights', 'uniform'), ('seed', 1)):
            if s[k] != v and s[k]:
                yield dict(plan, steps=plan['steps'][:i] + [dict(s, **{k: v})] + plan['steps'][i + 1:])


def weights_of(kind, N, rs, pf):
    if kind == 'pf':
        w = pf
    elif kind == 'dirichlet':
        w = rs.gamma(1., size=N)
    elif kind == 'spiky':
        w = rs.gamma(.1, size=N) + 1e-12
    elif kind == 'onehot':
        w = np.zeros(N)
        w[rs.randint(N)] = 1.
    elif kind == 'zeros':
        w = rs.gamma(1., size=N) * (rs.random_sample(N) < .5)
        if not w.sum():
            w[rs.randint(N)] = 1.
    elif kind == 'ends':                   # nothing at either end
        w = rs.gamma(1., size=N)
        k = N // 3
        w[:k] = 0.
        w[N - k:] = 0.
    elif kind == 'tiny':
        w = np.where(rs.random_sample(N) < .5, 10. ** -rs.randint(10, 320, N).astype(float), rs.gamma(1., size=N))
        w[rs.randint(N)] = 1.
    elif kind == 'uniform':
        w = np.ones(N)
    else:                                  # whole multiples of 1/N, the rest in halves
        w = np.bincount(rs.randint(0, N, N), minlength=N).astype(float)
        if N > 1 and rs.random_sample() < .5:
            i = int(np.argmax(w))
            w[i] -= .5
            w[(i + 1) % N] += .5
    return w / w.sum()


def script(kind, w, rs):
    """a stream of draws in [0,1) for these weights"""
    if kind is None:
        return None
    N = len(w)
    c = np.cumsum(w)
    fr = N * w - np.floor(N * w)
    r = np.cumsum(fr) / fr.sum() if fr.sum() > 0 else c
    edges = np.concatenate([c, c / c[-1], N * c - np.floor(N * c), r, r / r[-1]])

    def one():
        if kind == 'zero':
            return 0.
        if kind == 'max':
            return TOP
        u = rs.random_sample()
        if kind == 'mix':
            return [0., TOP, u, .5, 2. ** -60][rs.randint(5)]
        e = edges[rs.randint(len(edges))]
        e = [e, np.nextafter(e, 0.), np.nextafter(e, 1.)][rs.randint(3)]
        return min(max(float(e), 0.), TOP)

    def draw(size):
        if size is None:
            return one()
        return np.array([one() for _ in range(int(np.prod(size)))]).reshape(size)
    return draw


def judge(scheme, w, idx, what):
    N = len(w)
    idx = np.asarray(idx)
    if idx.shape != (N,):
        raise Violation('incomplete', '%s returned %s indices for %d particles' % (what, idx.shape, N))
    if not np.issubdtype(idx.dtype, np.integer):
        raise Violation('out-of-range', '%s returned indices of type %s' % (what, idx.dtype))
    if idx.min() < 0 or idx.max() >= N:
        raise Violation('out-of-range', '%s returned index %d for %d particles' % (what, idx[np.argmax(np.abs(idx))], N))
    c = np.bincount(idx, minlength=N)
    bad = np.nonzero((w == 0) & (c > 0))[0]
    if len(bad):
        raise Violation('zero-weight', '%s selected particle %d of zero weight' % (what, bad[0]))
    s = N * w
    eps = 1e-9 * N
    if scheme == 'systematic':
        bad = (c < np.floor(s - eps)) | (c > np.ceil(s + eps))
    elif scheme == 'stratified':
        bad = np.abs(c - s) >= 2 + eps
    elif scheme == 'residual':
        bad = c < np.floor(s - eps)
    else:
        bad = np.zeros(N, bool)
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation('disproportionate', '%s copied particle %d %d times, N times its weight is %r'
                        % (what, i, c[i], float(s[i])))
    return c


def call(scheme, w, as_list):
    arg = w.tolist() if as_list else w.copy()
    keep = list(arg)
    idx = SCHEMES[scheme](arg)
    if list(arg) != keep:
        raise Violation('caller-data-modified', '%s changed the weights passed in' % scheme)
    return idx


def unbiased(scheme, w, ctx):
    """average over an even grid of draws: exact up to the grid step"""
    N = len(w)
    M = 100 * N
    tot = np.zeros(N)
    PLANE.record_draws = True
    PLANE.draws = []
    want = {'systematic': 1, 'residual': N - int(np.floor(N * w + 1e-12).sum())}.get(scheme, N)
    plain = True
    for k in range(M):
        u = (k + .5) / M
        PLANE.random_script = lambda size: u if size is None else np.full(size, u)
        PLANE.draws = []
        tot += judge(scheme, w, call(scheme, w, False), '%s on %s' % (scheme, w.tolist()))
        plain = plain and sum(np.size(v) for _, _, _, v in PLANE.draws) == want and all(
            n in UNIFORM for n, _, _, _ in PLANE.draws)
    tol = 2.5 * N / M + 1e-9
    if not plain:                 # this tree draws otherwise: ordinary draws, statistically
        PLANE.random_script = None
        M = 3000
        tot = np.zeros(N)
        for k in range(M):
            tot += np.bincount(call(scheme, w, False), minlength=N)
        tol = 7. * math.sqrt(N * .25 / M) + .01
    PLANE.random_script = None
    PLANE.record_draws = False
    d = np.abs(tot / M - N * w)
    if d.max() > tol:
        i = int(np.argmax(d))
        raise Violation('biased', '%s copies particle %d %.4f times on average, N times its weight is %.4f (weights %s)'
                        % (scheme, i, tot[i] / M, N * w[i], w.tolist()))
    ctx.probe('unbiased-grid')


# schemes whose random parts are drawn separately, and how many draws they need
RANDOM = dict(stratified=lambda N, n: N, multinomial=lambda N, n: N, residual=lambda N, n: N - n)


def independent(scheme, seed, ctx):
    """every combination of draws on an even grid, which resolves these weights exactly: the covariance of the numbers of
    copies is that of independent draws (one per stratum, per copy, per copy left over)"""
    rs = np.random.RandomState(seed)
    N = rs.randint(2, 4) if scheme == 'multinomial' else 3
    q, k = dict(residual=(12, 24)).get(scheme, ({2: 12, 3: 6}[N], 12))
    while True:
        cuts = np.sort(rs.randint(0, q + 1, N - 1))
        parts = np.diff(np.concatenate([[0], cuts, [q]]))
        if scheme == 'stratified':              # two strata or more are shared between particles
            if len({c * N // q for c in cuts if c * N % q}) > 1:
                break
        elif scheme == 'residual':              # two draws or more
            if N - ((parts * N) // q).sum() > 1:
                break
        elif (parts > 0).sum() > 1:
            break
    w = parts / q
    whole = (parts * N) // q
    D = RANDOM[scheme](N, int(whole.sum()))
    if scheme == 'stratified':
        edge = np.concatenate([[0], np.cumsum(parts)]) * N / q      # in strata
        P = [np.clip(np.minimum(edge[1:], s + 1) - np.maximum(edge[:-1], s), 0, 1) for s in range(N)]
    elif scheme == 'multinomial':
        P = [w] * N
    else:
        P = [(parts * N / q - whole) / D] * D if D else []
    if not D:
        return
    want = sum(np.diag(p) - np.outer(p, p) for p in P)
    mean = whole * (scheme == 'residual') + sum(P)
    second = np.zeros((N, N))
    feed = []

    def draw(size):
        n = 1 if size is None else int(np.prod(size))
        got, feed[:] = feed[:n], feed[n:]
        if len(got) < n:
            raise Other()
        return got[0] if size is None else np.array(got).reshape(size)
    PLANE.random_script = draw
    PLANE.record_draws, PLANE.draws = True, []
    try:
        for combo in range(k ** D):
            feed[:] = [((combo // k ** i) % k + .5) / k for i in range(D)]
            c = judge(scheme, w, call(scheme, w, False), '%s on %s' % (scheme, w.tolist()))
            if feed:
                raise Other()
            second += np.outer(c - mean, c - mean)
        if not all(n in UNIFORM for n, _, _, _ in PLANE.draws):
            raise Other()
    except Other:
        return                         # this tree draws otherwise
    finally:
        PLANE.random_script = None
        PLANE.record_draws = False
    second /= k ** D
    if np.abs(second - want).max() > 1e-9:
        raise Violation('dependent', '%s: with every combination of %d draws the numbers of copies have covariance %s, '
                        'independent draws give %s (weights %s)' % (scheme, D, second.tolist(), want.tolist(), w.tolist()))
    ctx.probe('independent-draws')
    ctx.checks += 1


class Other(Exception):
    pass


def run(plan, ctx):
    N = plan['N']
    if plan.get('joint'):
        independent(plan['joint'], plan['parts'], ctx)
    pf = np.ones(N) / N
    xs = np.linspace(-1., 1., N)
    for i, s in enumerate(plan['steps']):
        rs = np.random.RandomState(s['seed'])
        # one step of a particle filter: move, weigh by a measurement
        xs = xs + .1 * rs.standard_normal(N)
        pf = pf * (np.exp(-.5 * ((xs - rs.standard_normal()) / plan['like']) ** 2) + 1e-300)
        pf = pf / pf.sum()
        w = weights_of(s['weights'], N, rs, pf)
        if s['draws']:
            ctx.fault('draw-' + s['draws'])
        PLANE.random_script = script(s['draws'], w, rs)
        try:
            idx = call(s['scheme'], w, s['list'])
        finally:
            PLANE.random_script = None
        judge(s['scheme'], w, idx, '%s, step %d, weights %s' % (s['scheme'], i, w[:8].tolist()))
        ctx.probe(s['scheme'])
        ctx.steps += 1
        ctx.checks += 5
        if (w == 0).any():
            ctx.probe('zero-weight')
        for k, n in (('onehot', 'one-hot'), ('shares', 'integer-shares')):
            if s['weights'] == k:
                ctx.probe(n)
        if s['list']:
            ctx.probe('list')
        if N == 1:
            ctx.probe('single')
        if s['weights'] == 'pf':
            xs = xs[idx]
            pf = np.ones(N) / N
        ctx.arr(idx)
        ctx.state(s['scheme'], s['weights'], N, s['draws'])
        if plan['grid'] and not i:
            unbiased(s['scheme'], w, ctx)
