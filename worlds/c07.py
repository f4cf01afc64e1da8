"""C07: filters do not interfere with each other or with the caller's data."""
import copy
import json
import numpy as np
from sim import batch, gen as G, nodes
from sim.boot import PLANE
from sim.core import A, Violation, plan_hash, same
from sim.procs import sub
from sim.runner import describe
from sim.sched import Sched
from sim.world import add_elapsed, events_of, screen, simplify_plan, stream
import filterpy.kalman.kalman_filter as kfmod

RUNS = 5000
LISTS = ['nodes', 'nodes.*.events', 'segments']
MINLEN = {'nodes': 1}
KINDS = ('kf', 'flaky', 'proc', 'ekf', 'ukf', 'ckf', 'srkf', 'inf', 'fading', 'hinf', 'ekfnl', 'ukfnl', 'ckfnl',
         'enkf', 'imm', 'mmae', 'gh', 'ghk', 'gho', 'fmem', 'lsq', 'fls', 'dbayes')
SIBLINGS = ('kf', 'proc', 'ekf', 'ukf', 'ckf', 'srkf', 'inf', 'fading')
RULE = ('two to four seeded filters sharing model matrices, initial states, sigma-point generators and callbacks, each '
        'with its own delivered log, batch calls, smoother calls and queries; a seeded schedule switches between them '
        'after every operation, source line or bytecode instruction it names; each must compute what it computes '
        'alone in a process of its own; non-trivial when at least one switch happened inside a call')
STATES = 'distinct (filter forms, function preempted, thread preempted, thread resumed)'
REAL = ['all filter classes, procedural functions, batch and smoother functions, sigma-point generators']
STUB = ['threads (real ones, run one at a time by the seeded scheduler through sys.settrace)', 'random source (one '
        'stream per filter)', 'sensors, network, user callbacks']
FAULTS = ['preempt-line', 'preempt-opcode', 'preempt-op', 'loss', 'duplicate', 'reorder']
PROBES = ['shared', 'batch', 'rts', 'query', 'fls-batch', 'alone']


def gen(rng, tier):
    kind = rng.choice(KINDS)
    k = rng.choice([1, 2, 2, 2, 3, 4])
    base = G.gen_cfg(rng, kind)
    base.pop('float', None)
    out = []
    for i in range(k):
        r = rng.random()
        c = base
        if i and r < .25 and kind in SIBLINGS:
            c = G.gen_lin(rng, rng.choice(SIBLINGS), n=base['n'], m=base['m'])
            c.pop('float', None)
            for key in ('P0', 'F', 'Q', 'H'):
                c[key] = base[key]
            if np.ndim(base['R']):
                c['R'] = base['R']
        elif i and r < .4:
            c = G.gen_cfg(rng, rng.choice(KINDS))
            c.pop('float', None)
        elif i and r < .7 and 'x0' in base:
            c = dict(base, x0=[v + 1. for v in base['x0']])
        n = rng.choice([1, 3, 6] + ([12] if tier == 'thorough' or rng.chance(.04) else []))
        mix = G.Mix(rng)
        mix.put = rng.choice([0., 0., .15])
        if c['kind'] in G.SIGMA:
            mix.set = 0.                    # callbacks are shared
        ops = G.gen_ops(rng, c, n, mix)
        for op in ops:
            if op['op'] == 'put':
                op.pop('inp', None)         # estimates read earlier are being watched
        if c['kind'] not in G.TRACK:
            add_elapsed(rng, c, ops)
        for _ in range(rng.choice([0, 0, 1, 2])):
            e = extra(rng, c)
            if e:
                ops.insert(rng.randint(0, len(ops)), e)
        out.append(dict(cfg=c, events=events_of(rng, ops)))
    mode = rng.choice(['op', 'line', 'line', 'opcode'])
    s = {'op': 3, 'line': 40, 'opcode': 300}[mode]
    segs = [[rng.randrange(k), rng.choice([1, rng.randint(1, 4), rng.randint(1, s)])]
            for _ in range(rng.choice([5, 20, 60] + ([200] if tier == 'thorough' or rng.chance(.04) else [])))]
    return dict(nodes=out, mode=mode, segments=segs)


def extra(rng, c):
    """an operation that returns arrays the caller keeps"""
    kind = c['kind']
    r = rng.random()
    if kind in ('kf', 'proc', 'ukf', 'ukfnl', 'fading', 'hinf') and r < .7:
        if kind in ('fading', 'hinf') and (not c.get('col') or c.get('B') is not None):
            return None
        cc = dict(c)
        cc.pop('alpha', None)
        eps = batch.screen(cc, batch.gen_epochs(rng, cc, rng.randint(1, 5)))
        if not eps:
            return None
        return dict(op='rts' if kind in ('kf', 'proc', 'ukf', 'ukfnl') and rng.chance(.5) else 'batch', eps=eps,
                    first=int(kind in batch.FIRST and rng.chance(.4)))
    if kind in ('gh', 'ghk') and not np.ndim(c['s'][0]):
        return dict(op='batch', zs=rng.vec(rng.randint(1, 4)))
    if kind == 'fls':
        return dict(op='batch', zs=[rng.vec(c['m'], 3.) for _ in range(rng.randint(1, 8))], N=c['N'])
    if kind in ('kf', 'fading', 'hinf', 'srkf'):
        from worlds.c04 import query
        q = query(rng, c)
        return dict(op='query', q=q[1:]) if q else None
    return None


def simplify(plan):
    for i, nd in enumerate(plan['nodes']):
        for p in simplify_plan(dict(events=nd['events'], cfg=nd['cfg'])):
            yield dict(plan, nodes=plan['nodes'][:i] + [p] + plan['nodes'][i + 1:])
    if plan['mode'] == 'opcode':
        yield dict(plan, mode='line')
    if plan['mode'] == 'line':
        yield dict(plan, mode='op')
    if len(plan['nodes']) == 1 and plan['segments']:
        yield dict(plan, segments=[])


class Job(object):
    """one filter and its log; what it returned on the way is kept and re-examined"""

    def __init__(self, cfg, ops, pool):
        self.cfg, self.ops, self.pool = cfg, ops, pool
        self.kept = []
        self.node = None
        self.recs = []
        self.i = 0

    def keep(self, what, v):
        self.kept.append((what, v, copy.deepcopy(v)))
        self.recs.append([np.array(a, float) for a in (v if isinstance(v, (tuple, list)) else [v])])

    def step(self):
        if self.node is None:
            self.node = nodes.make_node(self.cfg, self.pool)
            return True
        if self.i >= len(self.ops):
            return False
        op = self.ops[self.i]
        self.i += 1
        node = self.node
        o = op['op']
        if o == 'batch' or o == 'rts':
            self.batch(node, op)
        elif o == 'query':
            w, q = op['q']
            if w in ('prediction', 'update'):
                v = getattr(node, 'q_' + w)(q)
            elif w == 'residual':
                v = node.f.residual_of(node.z(dict(z=q['z'])))
            else:
                v = 0.
            self.keep('result of a %s query' % w, v)
        else:
            v = node.do(op)
            if isinstance(v, np.ndarray):
                self.keep('result of ' + o, v)
            for k, v in node.held():
                self.kept.append((k + ' read after ' + o, v, v.copy()))
        self.recs.append([np.array(v, float) for _, v in sorted(node.est().items())])
        return True

    def batch(self, node, op):
        kind = node.kind
        if kind in ('gh', 'ghk'):
            zs = node.own('measurement list', [float(v) for v in op['zs']])
            return self.keep('result of batch_filter', node.f.batch_filter(zs))
        if kind == 'fls':
            zs = node.own('measurements', np.array([node.z(dict(z=z)) for z in op['zs']]))
            return self.keep('result of smooth_batch', node.f.smooth_batch(zs, op['N']))
        out, raw = batch.run_batch(node, op['eps'], op['first'])
        self.keep('result of batch_filter', raw)
        if op['op'] != 'rts':
            return
        xs, Ps = node.own('means', raw[0]), node.own('covariances', raw[1])
        eps = op['eps']
        n = len(eps)
        if kind == 'kf':
            kw = {}
            for k in 'FQ':
                if k in eps[0]:
                    kw[k + 's'] = node.own(k + 's', [node.g(e[k], k) for e in eps])
            r = node.f.rts_smoother(xs, Ps, **kw)
        elif kind == 'proc':
            r = kfmod.rts_smoother(xs, Ps, *[node.own(k + 's', [node.g(e.get(k, node.cfg[k]), k) for e in eps])
                                             for k in 'FQ'])
        else:
            kw = {}
            if 'dt' in eps[0]:
                kw['dts'] = node.own('dts', [e['dt'] for e in eps])
            try:
                r = node.f.rts_smoother(xs, Ps, **kw)
            except np.linalg.LinAlgError:
                return                   # the backward unscented recursion left its domain
        self.keep('result of rts_smoother', r)

    def run(self):
        while self.step():
            pass
        return self.recs

    def verify(self):
        for what, v, c in self.kept:
            for a, b in zip(v if isinstance(v, (tuple, list)) else [v], c if isinstance(c, (tuple, list)) else [c]):
                if np.shape(a) != np.shape(b) or not np.array_equal(np.asarray(a, float), np.asarray(b, float),
                                                                    equal_nan=True):
                    raise Violation('result-modified', 'the %s of %s was changed later' % (what, self.cfg['kind']))
        if self.node is not None:
            self.node.check_given()


def alone(cfg, ops, seed):
    PLANE.reset(seed)
    j = Job(cfg, ops, None)
    j.run()
    j.verify()
    return j.recs


def together(plan, logs, seeds):
    pool = {}
    jobs = [Job(nd['cfg'], ops, pool) for nd, ops in zip(plan['nodes'], logs)]
    rngs = [np.random.RandomState(s) for s in seeds]
    if plan['mode'] == 'op':
        n = 0
        trail = []
        live = [True] * len(jobs)
        cur = None
        for t, k in plan['segments'] + [[t, 1 << 60] for t in range(len(jobs))]:
            if t >= len(jobs) or not live[t]:
                continue
            if cur is not None and t != cur:
                n += 1
                trail.append(('op', cur, t))
            cur = t
            PLANE.rs = rngs[t]
            while k > 0 and live[t]:
                live[t] = jobs[t].step()
                k -= 1
        points = sum(len(o) for o in logs)
    else:
        s = Sched(plan['segments'], [j.run for j in jobs], plan['mode'] == 'opcode', rngs)
        _, errs = s.run()
        for t, e in enumerate(errs):
            if isinstance(e, Violation):
                raise e
            if e is not None:
                raise Violation(*describe(e))
        n, points, trail = s.switches, s.points, s.trail
    for j in jobs:
        j.verify()
    return [j.recs for j in jobs], n, points, trail


def run(plan, ctx):
    logs = []
    for nd in plan['nodes']:
        ops = stream(nd['events'], ctx, nd['cfg'])
        if nd['cfg']['kind'] in G.SIGMA:
            ops = G.legal(nd['cfg'], [o for op in ops for o in
                                      ([op, dict(op='predict')] if op['op'] in ('batch', 'rts') else [op])], True)
            ops = screen(nd['cfg'], ops)
        logs.append(ops)
    seeds = [(plan_hash(nd['cfg']) + 17 * i) % 2 ** 32 for i, nd in enumerate(plan['nodes'])]
    want = [sub(lambda: alone(nd['cfg'], ops, s)) for nd, ops, s in zip(plan['nodes'], logs, seeds)]
    ctx.probe('alone', len(want))
    got, n, points, trail = sub(lambda: together(plan, logs, seeds))
    ctx.fault('preempt-' + plan['mode'], n)
    ctx.steps += points
    kinds = tuple(nd['cfg']['kind'] for nd in plan['nodes'])
    for w in trail:
        ctx.state(kinds, w)
    if len(set(json.dumps(nd['cfg'].get('F', nd['cfg'])) for nd in plan['nodes'])) < len(plan['nodes']):
        ctx.probe('shared')
    for op in (o for l in logs for o in l):
        if op['op'] in ('batch', 'rts', 'query'):
            ctx.probe('fls-batch' if op['op'] == 'batch' and 'N' in op else op['op'])
            ctx.nontrivial = True
    for i, (g, w) in enumerate(zip(got, want)):
        if len(g) != len(w):
            raise Violation('interference', '%s %d returned %d results, alone %d' % (kinds[i], i, len(g), len(w)))
        for k, (a, b) in enumerate(zip(g, w)):
            for x, y in zip(a, b):
                same(x, y, 'result %d of %s (filter %d of %s) compared with running alone' % (k, kinds[i], i, kinds),
                     'interference', 1e-12)
                ctx.checks += 1
                ctx.arr(x)
