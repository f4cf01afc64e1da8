"""C18: discrete Bayes filtering is exact hidden-Markov inference on the delivered log."""
import numpy as np
from sim import gen as G, nodes, refs
from sim.core import A, Violation, close, num
from sim.world import events_of, simplify_plan, stream
import filterpy.discrete_bayes as db

RUNS = 30000
LISTS = ['events']
RULE = ('seeded grid, belief, motion kernels, offsets (beyond the grid too) and observations over a faulty link, on a '
        'circular and a bounded grid; non-trivial when an observation was lost, duplicated or late, or probability was '
        'shifted past an edge')
STATES = 'distinct (grid size, sequence of moves (mode, offset, kernel length) and observations)'
REAL = ['discrete_bayes.predict', 'discrete_bayes.update', 'discrete_bayes.normalize']
STUB = ['sensors, network and clocks (simulated)']
FAULTS = ['loss', 'duplicate', 'reorder', 'past-edge']
PROBES = ['wrap', 'constant', 'fill', 'other-mode', 'even-kernel', 'kernel-wider-than-grid', 'far-offset', 'list-belief',
          'list-likelihood', 'int-likelihood', 'int-belief', 'impossible-cells', 'enumerated', 'single-cell']


def gen(rng, tier):
    cfg = G.gen_dbayes(rng)
    ops = G.gen_ops(rng, cfg, G.length(rng, tier, [2, 4, 8, 16], 60, 300))
    n = cfg['n']
    for op in ops:
        if op['op'] == 'sense':
            r = rng.random()
            if r < .2:
                op['like'] = [float(rng.randint(1, 4)) for _ in range(n)]
                op['int'] = True
            elif r < .4:
                op['like'] = [v if rng.chance(.7) else 0. for v in op['like']]
            elif r < .5:
                op['like'] = [v * 1e-6 for v in op['like']]
            op['llist'] = rng.chance(.2)
        else:
            if rng.chance(.1) and op.get('mode'):
                op['mode'] = rng.choice(['bounded', 'reflect', 'nearest'])
            if rng.chance(.3):
                k = rng.choice([2, 4, 6])
                op['kernel'] = [round(1. / k, 4)] * (k - 1) + [1. - (k - 1) * round(1. / k, 4)]
        op['blist'] = rng.chance(.15)
    return dict(cfg=cfg, events=events_of(rng, ops))


def simplify(plan):
    for p in simplify_plan(plan):
        yield p
    evs = plan['events']
    for i, e in enumerate(evs):
        k = e['op'].get('kernel')
        if k and len(k) > 1:
            yield dict(plan, events=evs[:i] + [dict(e, op=dict(e['op'], kernel=[1.]))] + evs[i + 1:])


def enumerate_paths(prior, ops):
    """the posterior by summing over every path of the hidden state"""
    n = len(prior)
    T = np.eye(n)                           # T[i, j]: weight of being at j, having started at i
    w = np.diag(A(prior))
    for op in ops:
        if op['op'] == 'sense':
            w = w * A(op['like'])[None, :]
        else:
            M = np.zeros((n, n))
            k = op['kernel']
            for i in range(n):
                for j, v in enumerate(k):
                    M[i, (i + op['offset'] + j - len(k) // 2) % n] += v
            w = w.dot(M)
    s = w.sum(axis=0)
    return s, T


def run(plan, ctx):
    cfg = plan['cfg']
    n = cfg['n']
    ops = stream(plan['events'], ctx, cfg)
    node, ref = nodes.make_node(cfg), refs.make_ref(cfg)
    if n == 1:
        ctx.probe('single-cell')
    if cfg.get('bint'):
        ctx.probe('int-belief')
    given = []
    wrap_only = True
    err = 1e-12
    for i, op in enumerate(ops):
        o = op['op']
        where = 'after %s (step %d)' % (o, i)
        before = np.array(ref.b)
        b = node.f.b
        if op.get('blist'):
            b = list(b)
            ctx.probe('list-belief')
        if o == 'sense':
            like = A(op['like'])
            if op.get('int'):
                like = like.astype(int)
                ctx.probe('int-likelihood')
            if op.get('llist'):
                like = like.tolist()
                ctx.probe('list-likelihood')
            if 0. in op['like']:
                ctx.probe('impossible-cells')
            given += [(b, np.copy(b)), (like, np.copy(like))]
            node.f.b = db.update(like, b)
        else:
            kernel = list(op['kernel']) if op.get('klist') else A(op['kernel'])
            given += [(b, np.copy(b)), (kernel, np.copy(kernel))]
            kw = {}
            if op.get('mode'):
                kw['mode'] = op['mode']
                wrap_only = False
                ctx.probe('constant' if op['mode'] == 'constant' else 'other-mode')
                if op.get('cval'):
                    kw['cval'] = op['cval']
                    ctx.probe('fill')
                if abs(op['offset']) > 0:
                    ctx.fault('past-edge')
            else:
                ctx.probe('wrap')
            if len(kernel) > n:
                ctx.probe('kernel-wider-than-grid')
            if len(kernel) % 2 == 0:
                ctx.probe('even-kernel')
            if abs(op['offset']) > n:
                ctx.probe('far-offset')
            node.f.b = db.predict(b, op['offset'], kernel, **kw)
        ref.do(op)
        got = num(node.f.b, 'belief')
        if got.shape != (n,):
            raise Violation('mismatch', 'the belief %s has shape %s' % (where, got.shape))
        # rounding of a shifted-away belief is magnified when what is left is renormalised
        if o == 'sense':
            err = err * max(op['like']) / (before * A(op['like'])).sum() + 1e-12
        else:
            err = err * sum(op['kernel']) + 1e-12 * (np.abs(before).max() + op.get('cval', 0.))
        if err > 1e-7:
            ctx.probe('stopped')
            break
        close(got, ref.b, 10., err, 'belief ' + where)
        if o == 'sense':
            close(got.sum(), 1., 1e-9, 1., 'total belief ' + where, 'not-normalised')
        elif not op.get('mode'):
            close(got.sum(), before.sum() * sum(op['kernel']), 10., n * err, 'total belief ' + where,
                  'not-conserved')
        ctx.checks += 2
        for v, c in given:
            if not np.array_equal(v, c) or np.asarray(v).dtype != c.dtype:
                raise Violation('caller-data-modified', 'an array passed in earlier was %s and is %s %s'
                                % (c.tolist(), np.asarray(v).tolist(), where))
        ctx.arr(got)
    if wrap_only and err <= 1e-7 and len(ops) <= 10 and any(o['op'] == 'sense' for o in ops):
        s, _ = enumerate_paths(cfg['prior'], ops)
        if s.sum() > 1e-200:
            close(num(node.f.b, 'belief') / np.sum(node.f.b), s / s.sum(), 10., err, 'belief against the sum over all paths')
            ctx.probe('enumerated')
    ctx.state(n, tuple((o['op'], o.get('mode'), o.get('offset'), len(o.get('kernel', ()))) for o in ops))
