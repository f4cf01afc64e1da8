"""C09: interacting multiple models follow the Markov-mixing recursion."""
import numpy as np
from sim import gen as G, nodes, refs
from sim.core import A, Violation, close
from sim.world import add_elapsed, cmp_est, events_of, signature, simplify_plan, stream

KIND = 'imm'
RUNS = 24000
LISTS = ['events', 'cfg.filters']
MINLEN = {'filters': 2}
RULE = ('seeded bank of 2-7 filters (linear Kalman, sometimes with unscented members), chain and initial '
        'probabilities, delivered log with losses, duplicates, reordering, gaps and outliers; non-trivial when the '
        'log was disturbed or has a gap')
STATES = 'distinct (bank composition, executed operation/argument sequence, quantised probabilities)'
REAL = ['IMMEstimator over KalmanFilter / UnscentedKalmanFilter members']
STUB = ['sensors, network and clocks', 'user callbacks of the unscented members']
FAULTS = ['loss', 'duplicate', 'reorder', 'delay', 'gap', 'outlier']
PROBES = ['ill-conditioned', 'unreachable', 'predict', 'update', 'none', 'floored', 'ukf-member', 'near-certain', 'given-up', 'chain-changed',
          'reconfigured', 'assigned']


def gen_ops(rng, cfg, tier):
    mix = G.Mix(rng)
    mix.put = rng.choice([0., 0., .15])
    return G.gen_ops(rng, cfg, G.length(rng, tier, [1, 3, 6, 12], 40, 150, cfg), mix)


def gen(rng, tier):
    cfg = G.gen_cfg(rng, KIND)
    ops = gen_ops(rng, cfg, tier)
    return dict(cfg=cfg, events=events_of(rng, ops))


def simplify(plan):
    for p in simplify_plan(plan):
        yield p
    c = plan['cfg']
    if c.get('mulist'):
        yield dict(plan, cfg={k: v for k, v in c.items() if k != 'mulist'})


def hopeless(ref):
    """likelihoods so small that doubles no longer resolve their ratios, or priors so wide (mixed after an outlier)
    that the subtraction of the update leaves rounding only"""
    for f in ref.fs:
        w = np.linalg.eigvalsh(f.diag.S)
        if 4e-16 * w[-1] / w[0] * w[-1] > 1e-7 * np.abs(f.P).max():
            return True
    best = max(f.diag.log_likelihood for f in ref.fs)
    return -746.5 < best < -600 or (best < -600 and any(
        -746.5 < f.diag.log_likelihood < -690 for f in ref.fs)) or any(
        0 < v < 1e-280 for v in np.ravel(getattr(ref, 'cbar', 1.)))


def jostle(ref, rs):
    """errors of the size of rounding"""
    for f in ref.fs:
        E = rs.uniform(-1, 1, f.P.shape) * 1e-14 * np.abs(f.P).max()
        f.P = f.P + (E + E.T) / 2
        f.x = f.x + rs.uniform(-1, 1, f.x.shape) * 1e-14 * np.abs(f.x).max()


def apart(ref, other, name):
    """has rounding grown until the history no longer determines the result?"""
    def far(a, b):
        return not np.abs(a - b).max() <= 1e-7 * (np.abs(a).max() + 1e-300)
    return far(getattr(ref, name), getattr(other, name)) or any(
        far(f.x, g.x) or far(f.P, g.P) for f, g in zip(ref.fs, other.fs))


def probs(node, w, what, ctx):
    w = np.ravel(np.array(w, float))
    if not (w >= 0).all() or abs(w.sum() - 1) > 1e-9:
        raise Violation('not-probabilities', 'the probabilities %s are %r' % (what, w.tolist()))
    ctx.checks += 1
    return w


def own_mixture(node, w, what, ctx):
    """the reported estimate is the mixture of the bank's own filters"""
    fs = node.f.filters
    x, P = refs.mixture([np.ravel(f.x) for f in fs], [np.array(f.P, float) for f in fs], w)
    close(node.f.x, x, 1e-9, None, 'x %s against the mixture of its filters' % what, 'not-the-mixture')
    close(node.f.P, P, 1e-9, None, 'P %s against the mixture of its filters' % what, 'not-the-mixture')
    ctx.checks += 2


def run(plan, ctx):
    cfg = plan['cfg']
    k = len(cfg['filters'])
    if cfg['kind'] == 'imm' and len(cfg['M']) > k:              # a shrunk plan
        M = A(cfg['M'])[:k, :k]
        cfg = dict(cfg, M=(M / M.sum(axis=1)[:, None]).tolist(), mu=cfg['mu'][:k])
    if cfg['kind'] == 'mmae' and len(cfg['p']) > k:
        cfg = dict(cfg, p=(A(cfg['p'][:k]) / sum(cfg['p'][:k])).tolist())
    ops = stream(plan['events'], ctx, cfg)
    ctx.fault('outlier', int(sum(np.abs(op['z']).max() > 40 for op in ops if op.get('z'))))
    ctx.fault('gap', sum(op['op'] == 'none' for op in ops))
    node, ref, shadow = nodes.make_node(cfg), refs.make_ref(cfg), refs.make_ref(cfg)
    rs = np.random.RandomState(7)
    name = 'mu' if cfg['kind'] == 'imm' else 'p'
    alone = [nodes.make_node(c) for c in cfg['filters']] if cfg['kind'] == 'mmae' else []
    if any(f['kind'] == 'ukf' for f in cfg['filters']):
        ctx.probe('ukf-member')
    q = []
    if cfg['kind'] == 'imm':
        w = probs(node, node.f.mu, 'at the start', ctx)
        own_mixture(node, w, 'at the start', ctx)
    updated = cfg['kind'] == 'imm'
    bankH = cfg.get('bankH')
    assigned = False
    ctx.probe('overridden', sum('R' in o or 'H' in o for o in ops))
    for i, op in enumerate(ops):
        ref.do(op)
        if op['op'] == 'update':
            if hopeless(ref):
                ctx.probe('given-up')
                break
            if any(f.diag.log_likelihood < -746 for f in ref.fs):
                ctx.probe('floored')
        shadow.do(op)
        if apart(ref, shadow, name):
            ctx.probe('ill-conditioned')
            break
        jostle(shadow, rs)
        if (np.ravel(getattr(ref, 'cbar', 1.)) == 0).any():
            ctx.probe('unreachable')
        node.do(op)
        what = 'of the %s after %s (step %d)' % (cfg['kind'], op['op'], i)
        w = probs(node, getattr(node.f, name), what, ctx)
        close(w, getattr(ref, name), 1e-6, 1., name + ' ' + what, 'wrong-probabilities')
        if w.max() > 1 - 1e-9:
            ctx.probe('near-certain')
        if op['op'] in ('set', 'put'):
            ctx.probe('chain-changed' if 'M' in op.get('v', ()) else 'assigned' if op['op'] == 'put' else 'reconfigured')
        updated = updated or op['op'] in ('predict', 'update')
        # what the user assigns to a member shows in the blend from the next step on
        assigned = op['op'] not in ('predict', 'update') and (assigned or op['op'] == 'put')
        if updated and not assigned:
            own_mixture(node, w, what, ctx)
        cmp_est(node, ref, 1e-6, '%s (step %d)' % (op['op'], i), ctx, ('x', 'P'))
        for j, (f, r) in enumerate(zip(node.f.filters, ref.fs)):
            close(f.x, r.x, 1e-6, None, 'x of filter %d %s' % (j, what), 'wrong-filter')
            close(f.P, r.P, 1e-6, None, 'P of filter %d %s' % (j, what), 'wrong-filter')
            ctx.checks += 2
        for j, a in enumerate(alone):
            o = op
            if op['op'] == 'set':
                bankH = op['v'].get('H', bankH)
                if op.get('sub') and op['sub'][0] == j:
                    a.do(dict(op, v=op['sub'][1], sub=None))
            elif op['op'] == 'put':
                if op.get('who') == j:
                    a.do({k: v for k, v in op.items() if k != 'who'})
            else:
                if bankH is not None and op['op'] == 'update' and op.get('H') is None:
                    o = dict(op, H=bankH)
                a.do(o)
            f = node.f.filters[j]
            close(f.x, a.f.x, 1e-10, None, 'x of filter %d %s against the filter alone' % (j, what), 'not-alone')
            close(f.P, a.f.P, 1e-10, None, 'P of filter %d %s against the filter alone' % (j, what), 'not-alone')
            ctx.checks += 2
        q.append(tuple((w * 4).round().astype(int)))
    for k in ('x', 'P'):
        for s in ('_prior', '_post'):
            a = getattr(node.f, k + s, None)
            if a is not None and hasattr(ref, k + s) and len(q) == len(ops) and any(
                    o['op'] == ('predict' if s == '_prior' else 'update') for o in ops):
                close(a, getattr(ref, k + s), 1e-6, None, '%s%s of the %s at the end' % (k, s, cfg['kind']), 'saved')
    ctx.state(tuple(f['kind'] for f in cfg['filters']), signature(ops), tuple(q[-2:]))
