"""C17: polynomial and fixed-gain trackers follow their defining recursions exactly."""
import math
import numpy as np
from sim import gen as G, nodes, refs
from sim.core import A, Violation, close, num
from sim.world import cmp_est, events_of, simplify_plan, stream

RUNS = 24000
LISTS = ['events']
RULE = ('seeded tracker (g-h, g-h-k, order-generic, fading-memory, least-squares), gains, intervals and a stream over a '
        'faulty link, with per-call gains, gain changes and resets at seeded points; non-trivial when a sample was lost, '
        'duplicated or late, or a per-call gain or reset was used')
STATES = 'distinct (tracker, order, step sequence with overrides and resets)'
REAL = ['GHFilter', 'GHKFilter', 'GHFilterOrder', 'FadingMemoryFilter', 'LeastSquaresFilter']
STUB = ['sensors, network and clocks (simulated)']
FAULTS = ['loss', 'duplicate', 'reorder']
PROBES = ['override', 'set', 'reset', 'agree', 'batch', 'steady-state', 'fit', 'errors', 'residual', 'zero-gain', 'put']
ASSUME = ['error estimates of the least-squares tracker are judged once it has as many samples as coefficients']
simplify = simplify_plan


def gen(rng, tier):
    kind = rng.choice(['gh', 'ghk', 'gho', 'gho', 'fmem', 'fmem', 'lsq', 'lsq', 'lsq'])
    cfg = G.gen_cfg(rng, kind)
    if kind in ('gho', 'gh', 'ghk', 'fmem') and rng.chance(.2) and not cfg.get('scalar0'):
        cfg['ints'] = True
        cfg['s'] = np.round(A(cfg['s'])).tolist()
    if kind == 'fmem' and rng.chance(.4):
        cfg['beta'] = rng.f(.05, .6)
    mix = G.Mix(rng)
    mix.put = rng.choice([0., 0., .15])
    ops = G.gen_ops(rng, cfg, rng.choice([2, 5, 12, 40] + ([300] if tier == 'thorough' or rng.chance(.04) else [])), mix)
    return dict(cfg=cfg, events=events_of(rng, ops))


def twin(cfg):
    """the same recursion through the order-generic tracker"""
    if cfg['kind'] == 'gh' or cfg['kind'] == 'ghk':
        return nodes.make_node(dict(cfg, kind='gho'))
    if cfg['kind'] == 'fmem':
        b = cfg['beta']
        gains = [[1 - b], [1 - b ** 2, (1 - b) ** 2], [1 - b ** 3, 1.5 * (1 + b) * (1 - b) ** 2, .5 * (1 - b) ** 3]]
        return nodes.make_node(dict(kind='gho', s=cfg['s'], dt=cfg['dt'], gains=gains[cfg['order']], n=1))
    if cfg['kind'] == 'gho' and len(cfg['s']) > 1:
        return nodes.make_node(dict(cfg, kind={2: 'gh', 3: 'ghk'}[len(cfg['s'])]))


def design(n, o, s):
    """polynomial basis at the last n instants, time in units of s steps, newest at zero"""
    t = (np.arange(n) - (n - 1.)) / s
    return np.array([t ** j / math.factorial(j) for j in range(o + 1)]).T


def asked(f, where):
    """the errors may be asked for at any time; too few samples determine nothing else"""
    for name, e in zip(('error', 'std'), f.errors()):
        if not np.isfinite(np.asarray(e, float)).all():
            raise Violation('error-estimate', '%s %s is %r' % (name, where, e))


def lsq(node, zs, o, dt, sigma, prev, where, ctx):
    n = len(zs)
    f = node.f
    if f.n != n:
        raise Violation('mismatch', 'n %s is %r after %d samples' % (where, f.n, n))
    if n < o + 1:
        asked(f, where)
        return None
    s = max(1., n - 1.)
    u = np.array([(s * dt) ** -j for j in range(o + 1)])
    X = design(n, o, s)
    C = np.linalg.inv(X.T.dot(X))
    x = C.dot(X.T.dot(A(zs))) * u
    zm = 1e-3 + np.abs(zs).max()
    for j in range(o + 1):
        sc = zm * dt ** -j
        close(num(f.x, 'x').ravel()[j], x[j], 1e-6, sc, 'x[%d] %s, against the fit of %d samples' % (j, where, n))
        close(num(f.K, 'K').ravel()[j], C[j, 0] * u[j], 1e-6, None, 'K[%d] %s' % (j, where), 'gain')
    if np.size(f.x) != o + 1:
        raise Violation('mismatch', 'x %s has %d entries for order %d' % (where, np.size(f.x), o))
    ctx.probe('fit')
    if prev is not None:
        pred = sum(prev[j] * dt ** j / math.factorial(j) for j in range(o + 1))
        close(num(f.y, 'y').ravel(), zs[-1] - pred, 1e-6, zm, 'residual %s' % where, 'residual')
        ctx.probe('residual')
    want = sigma * np.sqrt(np.diag(C)) * u
    for name, e in zip(('error', 'std'), f.errors()):
        close(e, want, 1e-6, None, '%s %s' % (name, where), 'error-estimate')
        for j in range(o + 1):
            close(e[j], want[j], 1e-6, want[j] + 1e-300, '%s[%d] %s' % (name, j, where), 'error-estimate')
    ctx.probe('errors')
    ctx.checks += 8
    return x


def steady(cfg, node, zs, s0, where, ctx):
    """after a long stream: the discounted least-squares fit of everything"""
    b, o, dt = cfg['beta'], cfg['order'], cfg['dt']
    n = len(zs)
    if n < 3 or b ** (n - 2) * (n ** 2) * (1. + np.abs(A(s0)).max() * (1 + (n * dt) ** 2)) > 1e-9:
        return
    w = np.sqrt(b ** np.arange(n - 1., -1., -1.))       # far weights vanish: not through the normal equations
    X = design(n, o, 1.)
    c = np.linalg.lstsq(X * w[:, None], A(zs) * w, rcond=None)[0]
    zm = 1e-3 + np.abs(zs).max()
    for j in range(o + 1):
        close(num(node.f.x, 'x').ravel()[j], c[j] * dt ** -j, 1e-6, zm * dt ** -j,
              'x[%d] %s, against the discounted fit of %d samples' % (j, where, n), 'steady-state')
    ctx.probe('steady-state')
    ctx.checks += 1


def stated(cfg, f):
    """variances and truncation errors stated by the fading-memory tracker"""
    b, o, dt = cfg['beta'], cfg['order'], cfg['dt']
    K = int(math.ceil(math.log(1e-16) / math.log(b))) + 60
    w = b ** np.arange(K - 1., -1., -1.)
    X = design(K, o, 1.)
    M = np.linalg.solve((X.T * w).dot(X), X.T * w)
    u = dt ** -np.arange(o + 1.)
    P = (M ** 2).sum(axis=1) * u ** 2
    e = np.abs(M.dot((np.arange(K) - (K - 1.)) ** (o + 1))) * u * dt ** (o + 1)
    for j in range(o + 1):
        close(num(f.P, 'P').ravel()[j], P[j], 1e-6, P[j], 'stated variance %d' % j, 'error-estimate')
        close(num(f.e, 'e').ravel()[j], e[j], 1e-5, e[j], 'stated truncation error %d' % j, 'error-estimate')


def run(plan, ctx):
    cfg = dict(plan['cfg'], n=1)
    kind, dt = cfg['kind'], cfg['dt']
    ops = stream(plan['events'], ctx, cfg)
    node, ref, other = nodes.make_node(cfg), refs.make_ref(cfg), twin(cfg)
    if kind == 'fmem':
        stated(cfg, node.f)
    batch(cfg, ops, ref, ctx)
    zs, prev = [], None
    for i, op in enumerate(ops):
        where = 'of %s after %s (step %d)' % (kind, op['op'], i)
        was = node.conf()
        ret = node.do(op)
        ref.do(op)
        for k, v in node.conf().items():
            if op['op'] == 'set' and k in op['v']:
                v2 = op['v'][k]
            else:
                v2 = was[k]
            if np.any(np.asarray(v != v2)):
                raise Violation('gain-not-transient', '%s %s is %r, was %r' % (k, where, v, v2))
        if any(op.get(k) is not None for k in 'ghk'):
            ctx.probe('override')
            ctx.nontrivial = True
            if any(op.get(k) == 0. for k in 'ghk'):
                ctx.probe('zero-gain')
        if op['op'] == 'set':
            ctx.probe('set')
            if op.get('inp'):
                ctx.probe('set-in-place')
            if other is not None:
                v = dict(op['v'])
                if 'beta' in v:
                    v.update(zip('ghk', ref.gh.gains))
                    del v['beta']
                other.do(dict(op, v=v))
            continue
        if op['op'] == 'put':
            ctx.probe('put')
            node.check_given()
            if other is not None:
                other.do(op)
            continue
        if op['op'] == 'reset':
            ctx.probe('reset')
            ctx.nontrivial = True
            zs, prev = [], None
            fresh = nodes.make_node(cfg)
            for k in ('x', 'K', 'y', 'n'):
                close(np.ravel(getattr(node.f, k)), np.ravel(getattr(fresh.f, k)), 0., 1., '%s after reset' % k, 'reset')
            asked(node.f, where)
            continue
        zs.append(op['z'])
        if kind == 'lsq':
            prev = lsq(node, zs, cfg['order'], dt, cfg['sigma'], prev, where, ctx)
            if ret is not None:
                close(ret, node.f.x, 0., 1., 'the value returned ' + where, 'returned')
            ctx.arr(node.f.x)
            continue
        cmp_est(node, ref, 1e-9, '%s (step %d)' % (op['op'], i), ctx)
        r = ref.gh if kind == 'fmem' else ref
        f = node.f
        if kind in ('gh', 'ghk', 'gho'):
            close(f.y, np.ravel(r.y), 1e-9, 1e-3 + np.abs(op['z']).max() + np.abs(np.ravel(r.pred[0])).max(),
                  'residual ' + where, 'residual')
            ctx.probe('residual')
            if node.given and node.given[-1][0] == 'measurement':
                given = node.given.pop()[1]    # a caller may read the next measurement into the same array
                if given.dtype == float and given.flags.writeable:
                    given += 1.
            close(np.ravel(f.z), np.ravel(op['z']), 0., 1., 'the measurement z recorded ' + where, 'recorded')
        if kind in ('gh', 'ghk'):
            for k, v in zip(('x_prediction', 'dx_prediction', 'ddx_prediction'), r.pred):
                close(getattr(f, k), np.ravel(v), 1e-9, None, k + ' ' + where, 'prediction')
            if np.shape(ret[0]) != np.shape(f.x):
                raise Violation('returned', 'the value returned %s is %r' % (where, ret))
            close(ret[0], f.x, 0., 1., 'the x returned ' + where, 'returned')
            close(ret[1], f.dx, 0., 1., 'the dx returned ' + where, 'returned')
        if other is not None:
            other.do(op)
            a, b = (num(list(v.est().values())[0], 'state').ravel() for v in (node, other))
            close(a, b, 1e-9, None, 'state %s, against the %s tracker' % (where, other.kind), 'disagree')
            ctx.probe('agree')
        if kind == 'fmem' and not any(o['op'] in ('set', 'put') for o in ops):
            steady(cfg, node, zs, cfg['s'], where, ctx)
    node.check_given()
    ctx.state(kind, cfg.get('order', len(cfg.get('s', ()))),
              tuple((o['op'],) + tuple(k for k in 'ghk' if k in o) for o in ops))


def batch(cfg, ops, ref, ctx):
    """the g-h and g-h-k batch call on the same samples, gains as configured"""
    if cfg['kind'] not in ('gh', 'ghk') or np.ndim(cfg['s'][0]):
        return
    zs = [o['z'] for o in ops if o['op'] == 'update']
    node, r = nodes.make_node(cfg), refs.make_ref(cfg)
    res, pred = node.f.batch_filter(zs, save_predictions=True)
    alone = node.f.batch_filter(list(zs))
    close(alone, res, 0., 1., 'batch_filter with and without predictions', 'batch')
    close(res[0], [r.s[0], r.s[1]], 1e-12, None, 'batch_filter()[0]', 'batch')
    for i, z in enumerate(zs):
        r.op_update(dict(z=z))
        close(res[i + 1], [r.s[0], r.s[1]], 1e-9, None, 'batch_filter()[%d]' % (i + 1), 'batch')
        close(pred[i], r.pred[0], 1e-9, None, 'batch prediction %d' % i, 'batch')
        ctx.checks += 2
    close(node.est()['s'], A([np.ravel(v) for v in cfg['s']]), 0., 1., 'the tracker after batch_filter', 'batch')
    ctx.probe('batch')
