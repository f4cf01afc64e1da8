"""C11: fixed-lag smoothing: streaming equals batch, settled estimates are exact, old ones are final."""
import copy
import numpy as np
from sim import gen as G, nodes, refs
from sim.core import A, Violation, close, same
from sim.world import events_of, simplify_plan, stream

RUNS = 16000
LISTS = ['events']
simplify = simplify_plan
RULE = ('seeded linear model, lag, controls and delivered log (losses, duplicates, reordering), every prefix of which is '
        'also given to the batch call, on a fresh smoother and on the running one; the model may be changed between '
        'steps; non-trivial when the stream is longer than the lag or was disturbed')
STATES = 'distinct (dimensions, lag, stream length, controls, position of batch calls and model changes)'
REAL = ['FixedLagSmoother.smooth and smooth_batch']
STUB = ['sensors, network and clocks']
FAULTS = ['loss', 'duplicate', 'reorder', 'delay']
PROBES = ['prefix', 'settled', 'past-lag', 'controls', 'batch-on-running', 'model-change', 'other-lag']


def gen(rng, tier):
    cfg = G.gen_cfg(rng, 'fls')
    if 'P' not in cfg.get('defaults', []) and not cfg.get('ints') and rng.chance(.4):
        P = settled(cfg)
        if P is not None:
            cfg['P0'] = P.tolist()
    n = G.length(rng, tier, [1, 2, 4, 8, 14], 40, 150)
    mix = G.Mix(rng, set=rng.choice([0., 0., .15]))
    ops = G.gen_ops(rng, cfg, n, mix)
    ctl = cfg.get('B') is not None and rng.chance(.7)
    form = rng.choice([None, 'scalar'])
    for op in ops:
        if op['op'] == 'smooth':
            op.pop('u', None)
            if ctl:
                op['u'] = rng.vec(cfg['l'])
            if form:
                op['form'] = form
    return dict(cfg=cfg, events=events_of(rng, ops), ask=[rng.randrange(n), rng.randint(1, 6)])


def settled(cfg):
    """the covariance at which the filter of this model comes to rest, if it soon does"""
    ref = refs.make_ref(cfg)
    for _ in range(300):
        P = ref.P
        ref.do(dict(op='smooth', z=[0.] * cfg['m']))
        if not np.all(np.isfinite(ref.P)) or np.abs(ref.P).max() > 1e4:
            return None
        if np.abs(ref.P - P).max() <= 1e-15 * np.abs(P).max():
            return ref.P
    return None


def smoothed(past, j, last):
    """the mean of state j given the measurements up to step last (Bryson-Frazier)"""
    lam = 0.
    for i in range(last, j - 1, -1):
        p = past[i]
        SI = np.linalg.inv(p['S'])
        HS = p['H'].T.dot(SI)
        lam = HS.dot(p['y']) + (lam if i == last else
                                (np.eye(len(p['x'])) - HS.dot(p['H']).dot(p['P'])).dot(past[i + 1]['F'].T).dot(lam))
    return past[j]['x'] + past[j]['P'].dot(lam)


def batch(node, seq, N):
    zs = node.own('measurements', [node.z(op) for op in seq])
    if seq and seq[0].get('u') is not None:
        us = node.own('controls', [node.vec(op['u'], 'control') for op in seq])
        return node.f.smooth_batch(zs, N, us)
    return node.f.smooth_batch(zs, N)


def public(f):
    return {k: copy.deepcopy(v) for k, v in vars(f).items() if not k.startswith('_')}


def rows(v, n):
    return np.array([np.ravel(a) for a in v], float).reshape(len(v), n)


def run(plan, ctx):
    cfg = plan['cfg']
    n, N = cfg['n'], cfg['N']
    ops = stream(plan['events'], ctx, cfg)
    has_u = [op.get('u') is not None for op in ops if op['op'] == 'smooth']
    if any(has_u) and not all(has_u):           # a shrunk plan: all or none
        ops = [{k: v for k, v in op.items() if k != 'u'} for op in ops]
    node, ref = nodes.make_node(cfg), refs.make_ref(cfg)
    seq = []
    past = []
    rest = 0                                    # since which step the covariance has not changed
    old = None
    const = True
    for i, op in enumerate(ops):
        if op['op'] == 'smooth':
            x, P = ref.pred(op)
            past.append(dict(x=x, P=P, H=ref.H, F=ref.F, S=ref.H.dot(P).dot(ref.H.T) + ref.R,
                             y=A(op['z']).ravel() - ref.H.dot(x)))
            if len(past) == 1 or np.abs(P - past[rest]['P']).max() > 1e-11 * np.abs(P).max():
                rest = len(past) - 1
        node.do(op)
        ref.do(op)
        if op['op'] == 'set':
            const = False
            ctx.probe('model-change')
            continue
        seq.append(op)
        k = len(seq)
        what = 'after %d measurements (lag %d)' % (k, N)
        close(node.f.x, ref.x, 1e-6, None, 'forward estimate ' + what, 'forward')
        close(node.f.P, ref.P, 1e-6, None, 'forward covariance ' + what, 'forward')
        sm = rows(node.f.xSmooth, n)
        ctx.checks += 3
        if len(sm) != k:
            raise Violation('length', 'xSmooth has %d entries %s' % (len(sm), what))
        if old is not None:
            final = max(0, k - N)
            same(sm[:final], old[:final], 'estimates older than the lag ' + what, 'revised-old', 0.)
            if k <= N:
                # the lag is not full yet: the estimates are the filtered ones
                same(sm[:k - 1], old[:k - 1], 'estimates before the lag is full ' + what, 'revised-old', 0.)
        if k > N:
            ctx.probe('past-lag')
            ctx.nontrivial = True
        old = sm
        scale = 1e-3 + max(np.abs(ref.x).max(), max(np.abs(p['x']).max() for p in past[-N:]))
        close(sm[-1], ref.x, 1e-6, scale, 'smoothed estimate of the newest step ' + what, 'newest')
        if const:
            for j in range(max(rest, N, k - N), k - 1):
                close(sm[j], smoothed(past, j, k - 1), 1e-6, scale,
                      'estimate of step %d of a settled filter %s' % (j, what), 'not-smoothed')
                ctx.probe('settled')
                ctx.checks += 1
        if const:
            fresh = nodes.make_node(cfg)
            before = public(fresh.f)
            xs, xh = batch(fresh, seq, N)
            ctx.probe('prefix')
            if op.get('u') is not None:
                ctx.probe('controls')
            close(rows(xs, n), sm, 1e-9, None, 'smooth_batch of the prefix against the stream ' + what, 'stream-differs')
            close(np.ravel(xh[-1]), np.ravel(node.f.x), 1e-9, None, 'forward estimate of smooth_batch ' + what,
                  'stream-differs')
            unaltered(fresh.f, before, what)
            fresh.check_given()
        if k == plan['ask'][0] + 1:
            lag = plan['ask'][1]
            ctx.probe('batch-on-running')
            if lag != N:
                ctx.probe('other-lag')
            before = public(node.f)
            batch(node, seq, lag)
            unaltered(node.f, before, 'while streaming, ' + what)
            ctx.checks += 1
    node.check_given()
    if old is not None:
        ctx.arr(old)
    ctx.state(n, cfg['m'], N, len(seq), any(has_u), plan['ask'][0], tuple(i for i, o in enumerate(ops)
                                                                         if o['op'] == 'set'))


def unaltered(f, before, what):
    now = public(f)
    if set(now) != set(before):
        raise Violation('batch-altered', 'smooth_batch changed the attributes of the smoother %s' % what)
    for k, v in before.items():
        if k == 'xSmooth':
            now[k] = A([np.ravel(a) for a in now[k]])
            v = A([np.ravel(a) for a in v])
        if isinstance(v, (int, float, np.ndarray)):
            same(np.array(now[k], float), np.array(v, float), '%s of the smoother after smooth_batch %s' % (k, what),
                 'batch-altered', 0.)
