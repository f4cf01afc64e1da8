"""C06: restart from a checkpoint after a crash equals an uninterrupted run."""
import copy
import pickle
import sys
import numpy as np
from sim import gen as G, nodes
from sim.boot import PLANE, SUT_DIR
from sim.core import SimCrash, Violation, plan_hash, same
from sim.procs import sub
from sim.world import add_elapsed, events_of, simplify_plan, stream
from filterpy.common import compare_kf, copy_states

RUNS = 6000
LISTS = ['events', 'crashes']
KINDS = ('kf', 'flaky', 'proc', 'ekf', 'ukf', 'ckf', 'srkf', 'inf', 'fading', 'hinf', 'ekfnl', 'ukfnl', 'ckfnl',
         'enkf', 'imm', 'mmae', 'gh', 'ghk', 'gho', 'fmem', 'lsq', 'fls', 'dbayes')
RULE = ('seeded filter, delivered log, checkpoint interval and checkpoint method; process deaths between steps and at '
        'the n-th line executed inside a step, after which a fresh process restores the last checkpoint and replays '
        'the log; or a standby copy made in the running process takes over or evolves on its own; non-trivial when a '
        'crash or take-over happened after the first step')
STATES = 'distinct (filter form, checkpoint method, step kind and position of the crash, steps replayed)'
REAL = ['all filter classes and procedural functions, pickle/deepcopy of their state, filterpy.common.copy_states']
STUB = ['processes (forked from one that never called filterpy), durable store and log (bytes handed from process '
        'to process), sensors and network, random source, user callbacks']
FAULTS = ['crash-between', 'crash-inside', 'takeover-crash', 'loss', 'duplicate', 'reorder']
PROBES = ['compared', 'pickle', 'deepcopy', 'copy_states', 'replayed', 'from-scratch', 'diverge']
ASSUME = ['the user logs each measurement before processing it and can rebuild the callbacks she supplied; random '
          'draws of a step are a function of the step (the simulator reseeds per step)']


def gen(rng, tier):
    kind = rng.choice(KINDS)
    cfg = G.gen_cfg(rng, kind)
    cfg.pop('float', None)
    n = rng.choice([2, 5, 9] + ([25] if tier == 'thorough' or rng.chance(.04) else []))
    mix = G.Mix(rng)
    mix.put = rng.choice([0., 0., .1])
    ops = G.gen_ops(rng, cfg, n, mix)
    if kind not in G.TRACK:
        add_elapsed(rng, cfg, ops)
    plan = dict(cfg=cfg, events=events_of(rng, ops))
    if rng.chance(.5):
        plan['every'] = rng.choice([1, 1, 2, 3, 7])
        plan['proto'] = rng.choice([2, 4, 5])
        plan['crashes'] = [dict(after=rng.randint(0, n), line=rng.choice([None, rng.randint(1, 30), rng.randint(1, 400)]))
                           for _ in range(rng.randint(1, 3))]
    else:
        plan['standby'] = dict(at=rng.randint(0, n), how=rng.choice(['deepcopy', 'copy_states', 'pickle']),
                               mode=rng.choice(['takeover', 'diverge', 'diverge']), line=rng.randint(1, 300))
    return plan


def simplify(plan):
    for p in simplify_plan(plan):
        yield p
    for i, c in enumerate(plan.get('crashes', ())):
        if c['line'] is not None:
            yield dict(plan, crashes=plan['crashes'][:i] + [dict(c, line=None)] + plan['crashes'][i + 1:])


def fresh(cfg, seed):
    PLANE.reset(seed)
    return nodes.make_node(cfg)


def step(node, ops, i, seed):
    PLANE.rs.seed((seed + 7919 * (i + 1)) % 2 ** 32)
    node.do(ops[i])
    return grab(node)


def grab(node):
    return {k: np.array(v, dtype=float) for k, v in node.est().items()}


def final(node):
    out = {}
    if node.kind not in ('proc', 'dbayes'):
        out.update(('config ' + k, v) for k, v in node.conf().items() if isinstance(v, (int, float, np.ndarray)))
    out.update(('saved ' + k, v) for k, v in (nodes.Node.saved(node) if node.kind not in ('proc', 'dbayes', 'hinf')
                                               else {}).items())
    return {k: np.array(v) for k, v in out.items()}


def rehome(node, f):
    """the caller's side of a node around a restored filter"""
    n = copy.copy(node)
    n.given = []
    n.f = f
    if hasattr(node, 'subs'):
        n.subs = []
        for s, g in zip(node.subs, f.filters):
            t = copy.copy(s)
            t.given, t.f = [], g
            n.subs.append(t)
        n.flist = None
    return n


def freeze(node, proto):
    """what the user writes to disk: the filter, and apart from it her own variables"""
    mine = {k: v for k, v in node.__dict__.items() if k not in ('f', 'given', 'pool', 'subs', 'flist', 'cfg')}
    return pickle.dumps(node.f, proto), pickle.dumps(mine, proto)


def thaw(cfg, blob, seed):
    node = fresh(cfg, seed)              # a fresh process sets itself up as the first one did
    n = rehome(node, pickle.loads(blob[0]))
    n.__dict__.update(pickle.loads(blob[1]))
    return n


class Killer(object):
    """kills at the n-th line executed inside the code under test"""

    def __init__(self, n):
        self.n = n

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SUT_DIR):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.n -= 1
            if self.n <= 0:
                self.n = 1 << 60
                raise SimCrash()
        return self.local


def life(cfg, ops, seed, ck, blob, every, proto, crash):
    """one process: restore, replay, go on, until killed -> records, checkpoint, where it died"""
    node = fresh(cfg, seed) if blob is None else thaw(cfg, blob, seed)
    recs = {}
    start = ck
    end = len(ops) if crash is None else min(len(ops), start + crash['after'])
    died = None
    i = start
    for i in range(start, end):
        recs[i] = step(node, ops, i, seed)
        if (i + 1 - start) % every == 0:
            ck, blob = i + 1, freeze(node, proto)
    if crash is None:
        return recs, ck, blob, None, final(node)
    died = ('between', end)
    if crash['line'] is not None and end < len(ops):
        sys.settrace(Killer(crash['line']))
        try:
            step(node, ops, end, seed)
        except SimCrash:
            died = ('inside', end)
        finally:
            sys.settrace(None)
    return recs, ck, blob, died, None


def whole(cfg, ops, seed):
    node = fresh(cfg, seed)
    recs = [step(node, ops, i, seed) for i in range(len(ops))]
    return recs, final(node)


def check(got, want, what, ctx, tol=1e-10):
    if set(got) != set(want):
        raise Violation('restart-differs', '%s has %s, expected %s' % (what, sorted(got), sorted(want)))
    for k in want:
        same(got[k], want[k], '%s %s' % (k, what), 'restart-differs', tol)
        ctx.checks += 1


def run(plan, ctx):
    cfg = plan['cfg']
    ops = stream(plan['events'], ctx, cfg)
    if not ops:
        return
    kind = cfg['kind']
    seed = plan_hash(dict(cfg=cfg))
    base, fin = sub(lambda: whole(cfg, ops, seed))
    for r in base:
        for k in sorted(r):
            ctx.arr(r[k])
    if plan.get('standby'):
        return standby(plan['standby'], cfg, ops, seed, base, fin, ctx)
    ck, blob = 0, None
    for crash in plan['crashes'] + [None]:
        first = ck
        if blob is None:
            ctx.probe('from-scratch')
        else:
            ctx.probe('pickle')
        recs, ck, blob, died, last = sub(lambda: life(cfg, ops, seed, ck, blob, plan['every'], plan['proto'], crash))
        for i in sorted(recs):
            check(recs[i], base[i], 'of %s after step %d (%s) of a process restored at step %d'
                  % (kind, i, ops[i]['op'], first), ctx)
        if crash is None:
            check(last, fin, 'of %s at the end of a restarted run' % kind, ctx)
            break
        ctx.fault('crash-' + died[0])
        ctx.probe('replayed', died[1] - ck)
        ctx.state(kind, died[0], ops[died[1]]['op'] if died[1] < len(ops) else None, died[1] - ck,
                  crash['line'] and crash['line'] // 5, plan['proto'])


def clone(node, how):
    if how == 'deepcopy':
        f = copy.deepcopy(node.f)
    elif how == 'pickle':
        f = pickle.loads(pickle.dumps(node.f))
    else:
        # a standby set up alike, from other initial estimates
        other = nodes.make_node(node.cfg)
        f = other.f
        copy_states(f, node.f)
    n = rehome(node, f)
    return n


NAMES = ['P', 'P_post', 'P_prior', 'R', 'Q', 'x', 'x_post', 'x_prior', 'mu', 'p', 'sigmas', 'dx', 'y']


def compare(node, other):
    """what compare_kf reports of these attributes, and what it ought to"""
    if node.kind in ('proc', 'dbayes'):
        return None
    a, b = vars(node.f), vars(other.f)
    want = []
    for k in NAMES:
        if k in a and k in b:
            v, w = np.asarray(a[k]), np.asarray(b[k])
            if v.dtype.kind not in 'biuf' or w.dtype.kind not in 'biuf' or v.shape != w.shape:
                return None
            if not np.allclose(v, w):
                want.append(k)
    got = compare_kf(node.f, other.f, log=False)
    if got is not None and not got:
        return [], 'None where nothing differs'
    return sorted(set(got or ()) & set(NAMES)), sorted(want)


def vary(ops):
    """another history: the same steps with other measurements and controls"""
    out = []
    for op in ops:
        op = dict(op)
        for k in ('z', 'u'):
            if op.get(k) is not None:
                op[k] = (np.multiply(op[k], -.5) + .25).tolist()
        if op.get('like'):
            op['like'] = op['like'][::-1]
        if op['op'] == 'move':
            op['offset'] = op['offset'] + 1
        out.append(op)
    return out


def standby(sb, cfg, ops, seed, base, fin, ctx):
    kind = cfg['kind']
    at = min(sb['at'], len(ops))
    how = sb['how'] if kind not in ('proc', 'dbayes') or sb['how'] != 'copy_states' else 'deepcopy'
    if how == 'copy_states' and at == 0 and kind == 'enkf':
        how = 'deepcopy'
    ctx.probe(how)
    what = 'of %s after step %d (%s), copy made by ' + how + ' at step ' + str(at)
    if sb['mode'] == 'takeover':
        def go():
            node = fresh(cfg, seed)
            for i in range(at):
                step(node, ops, i, seed)
            st = PLANE.rs.get_state()
            other = clone(node, how)
            PLANE.rs.set_state(st)
            died = None
            if at < len(ops):
                sys.settrace(Killer(sb['line']))
                try:
                    step(node, ops, at, seed)
                except SimCrash:
                    died = at
                finally:
                    sys.settrace(None)
            return died, [step(other, ops, i, seed) for i in range(at, len(ops))], final(other)
        died, recs, last = sub(go)
        ctx.fault('takeover-crash')
        for i, r in enumerate(recs):
            check(r, base[at + i], what % ('the ' + kind + ' that took over', at + i, ops[at + i]['op']), ctx)
        if recs:
            check(last, fin, 'at the end, of the %s that took over at step %d' % (kind, at), ctx)
        ctx.state(kind, how, 'takeover', died, sb['line'] // 5)
        return
    ctx.probe('diverge')
    alt = ops[:at] + vary(ops[at:])
    r = base if cfg['kind'] not in ('ukfnl', 'dbayes') else None
    if r is None:
        from sim.world import screen
        alt = screen(cfg, alt)
    abase, afin = sub(lambda: whole(cfg, alt, seed))

    def both():
        node = fresh(cfg, seed)
        for i in range(at):
            step(node, ops, i, seed)
        other = clone(node, how)
        cmps = [compare(node, other)]
        a, b = [], []
        for i in range(at, max(len(ops), len(alt))):
            # either one first, in turn
            for who in ((0, 1) if i % 2 else (1, 0)):
                if who and i < len(alt):
                    b.append(step(other, alt, i, seed))
                elif not who and i < len(ops):
                    a.append(step(node, ops, i, seed))
        cmps.append(compare(node, other))
        return a, b, final(node), final(other), cmps
    a, b, fa, fb, cmps = sub(both)
    for w, c in zip(('right after the copy', 'at the end'), cmps):
        if c is not None:
            ctx.checks += 1
            ctx.probe('compared')
            if c[0] != c[1]:
                raise Violation('comparison', 'compare_kf of a %s and its copy (%s at step %d), %s, reports %s of %s, not %s'
                                % (kind, how, at, w, c[0], NAMES, c[1]))
    for i, r in enumerate(a):
        check(r, base[at + i], what % ('the original ' + kind, at + i, ops[at + i]['op']), ctx)
    for i, r in enumerate(b):
        check(r, abase[at + i], what % ('the copied ' + kind, at + i, alt[at + i]['op']), ctx)
    check(fa, fin, 'at the end, of the original %s' % kind, ctx)
    if b:
        check(fb, afin, 'at the end, of the copied %s' % kind, ctx)
    if at < len(ops):
        ctx.nontrivial = True
    ctx.state(kind, how, 'diverge', at, tuple(o['op'] for o in ops[at:at + 4]))
