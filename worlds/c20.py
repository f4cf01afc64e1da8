"""C20: per-call overrides are transient and stepping never rewrites the model."""
import copy
import numpy as np
from sim import batch, gen as G, nodes, refs
from sim.boot import PLANE
from sim.core import A, Violation, same
from sim.world import add_elapsed, cmp_est, events_of, same_est, signature, simplify_plan, stream
from worlds import c03, c04
from worlds.c09 import hopeless
from filterpy.common import Saver
import filterpy.kalman.kalman_filter as kfmod

RUNS = 16000
LISTS = ['events', 'events.*.op.extra']
KINDS = ('kf', 'kf', 'proc', 'ekf', 'ukf', 'ckf', 'srkf', 'inf', 'fading', 'hinf', 'ekfnl', 'ukfnl', 'ukfnl', 'ckfnl',
         'enkf', 'imm', 'mmae', 'gh', 'ghk', 'gho', 'fmem', 'lsq', 'fls')
RULE = ('seeded filter, bank or tracker of any kind; calls carry their own model arguments, parameters are changed '
        'between steps, and gaps, batches, smoothers, queries, recordings and injected failures happen in between; '
        'non-trivial when a call carried its own argument, a parameter was changed or something happened in between')
STATES = 'distinct (kind, step sequence with arguments, what happened in between)'
REAL = ['all filter classes, banks, trackers and procedural functions, with their batch and smoother methods, Saver']
STUB = ['sensors, network and clocks (simulated)', 'user callbacks', 'random source (EnKF)',
        'numpy/scipy linear-algebra entry points (pass-through, fail on command)']
FAULTS = ['loss', 'duplicate', 'reorder', 'gap', 'delay', 'assignment-failure', 'step-failure', 'batch-failure', 'smoother-failure', 'buffer-reuse']
PROBES = ['override', 'set', 'batch', 'smoother', 'query', 'read', 'record', 'override-then-plain', 'set-then-step',
          'temporary', 'bank', 'put', 'set-member', 'set-in-place']
simplify = simplify_plan
OVER = ('F', 'Q', 'H', 'R', 'B', 'alpha', 'dt', 'fargs', 'hargs', 'jargs', 'alt', 'UT', 'g', 'h', 'k', 'residual', 'u')


def gen(rng, tier):
    kind = rng.choice(KINDS)
    batched = kind in batch.ARGS and rng.chance(.35)
    cfg = batch.gen_cfg(rng, kind) if batched else G.gen_cfg(rng, kind)
    mix = G.Mix(rng, over=rng.choice([.2, .5, .8]))
    if rng.chance(.5):
        mix.set = rng.choice([.2, .4])
    mix.put = rng.choice([0., 0., .1, .25])
    ops = add_elapsed(rng, cfg, G.gen_ops(rng, cfg, G.length(rng, tier, [3, 6, 12], 30, 150, cfg),
                                          mix))
    if batched and kind == 'proc':              # the procedural batch takes no memory factor
        for op in ops:
            op.get('v', {}).pop('alpha', None)
        ops = [op for op in ops if op['op'] != 'set' or op['v']]
    evs = events_of(rng, ops)
    p = rng.choice([.1, .4])
    for ev in evs:
        ex = []
        if ev['op']['op'] in ('set', 'put'):
            continue
        while rng.chance(p) and len(ex) < 4:
            r = rng.random()
            if r < .25 and kind in c03.KINDS:
                ex.append(['fail', dict(at=rng.f(0, 1), then='retry')])
            elif r < .35:
                ex.append(['repr'])
            elif r < .45 and nodes.KINDS[kind].DIAG:
                ex.append(['diag', rng.choice(nodes.KINDS[kind].DIAG)])
            elif r < .6:
                ex.append(['record'])
            elif r < .75:
                q = c04.query(rng, cfg) if kind in ('kf', 'fading', 'hinf', 'srkf') else None
                if q:
                    ex.append(q)
            elif kind in ('kf', 'proc', 'ukf', 'ukfnl', 'fls', 'gh', 'ghk'):
                ex.append(['side', rng.randrange(1 << 20), rng.f(0, 1) if rng.chance(.3) else None])
            elif kind == 'inf':
                ex.append(['refused', int(rng.chance(.5))])
            elif kind == 'kf':
                ex.append(['dims'])
        if ex:
            ev['op']['extra'] = ex
    if batched:
        k = rng.randrange(len(evs) + 1)
        t = evs[k - 1]['t'] if k else 0.
        first = kind in batch.FIRST and rng.chance(.4)
        eps = batch.screen(cfg, batch.gen_epochs(rng, cfg, rng.randint(1, 5)))
        if eps:
            evs[k:k] = [dict(t=t, op=dict(op='batch', eps=eps, first=int(first),
                                         **({'fail': rng.f(0, 1)} if rng.chance(.4) else {}))), dict(t=t, op=dict(op='predict'))]
    return dict(cfg=cfg, events=evs, reuse=int(rng.chance(.3)))


def conf(node):
    """every model parameter the user configured, as the filter reports it now"""
    out = node.conf()
    for i, (s, f) in enumerate(zip(getattr(node, 'subs', ()), getattr(node.f, 'filters', ()))):
        for k in s.CONF:
            v = getattr(f, k)
            out['filters[%d].%s' % (i, k)] = v if callable(v) else copy.deepcopy(v)
    for k, o in (('fx', 'F'), ('hx', 'H')):
        c = getattr(node.f, k, None)
        if hasattr(c, o):
            out['%s of the callback %s' % (o, k)] = copy.deepcopy(getattr(c, o))
    return out


def unchanged(node, was, what, ctx, but=()):
    now = conf(node)
    for k, v in was.items():
        if k in but:
            continue
        ctx.checks += 1
        if callable(v):
            if now[k] is not v:
                raise Violation('model-changed', '%s of %s was replaced by %s' % (k, node.kind, what))
        else:
            same(now[k], v, '%s of %s after %s' % (k, node.kind, what), 'model-changed', 0.)


def run(plan, ctx):
    cfg = plan['cfg']
    kind = cfg['kind']
    ops = stream(plan['events'], ctx, cfg)
    node = nodes.make_node(cfg)
    node.reuse = plan.get('reuse')
    ref = refs.make_ref(cfg) if kind not in ('enkf', 'lsq') else None
    saver = None if kind == 'proc' else Saver(node.f)
    if kind in ('imm', 'mmae'):
        ctx.probe('bank')
    over = False
    haveK = False
    for i, op in enumerate(ops):
        op = dict(op)
        o = op['op']
        # diagnostics are not defined between a failed step and its retry
        extra = sorted(op.pop('extra', None) or (), key=lambda e: e[0] == 'fail')
        was = conf(node)
        if o == 'uss' and not haveK:
            continue
        for ex in extra:
            between(node, ref, saver, op, ex, ops[i - 1] if i else None, cfg, ctx)
            unchanged(node, was, ex[0], ctx)
        what = '%s (step %d)' % (o, i)
        if o == 'set':
            est = node.snapshot()
            node.do(op)
            if ref is not None:
                ref.do(op)
            but = tuple(op['v'])
            if op.get('sub'):
                but += tuple('filters[%d].%s' % (op['sub'][0], k) for k in op['sub'][1])
                ctx.probe('set-member')
            name = '/'.join(but)
            but += tuple(k[:-1] + 'R_inv' for k in but if k.endswith('R')) + tuple(
                k for k in was if k.startswith(('F of', 'H of'))) + tuple(
                k.replace(a, b) for k in but for a, b in (('F', 'fx'), ('H', 'hx')))
            unchanged(node, was, 'setting ' + name, ctx, but)
            same_est(node.est(), est, 'of %s right after setting %s' % (kind, name), ctx, 0., 'set-acted-early')
            if op.get('inp'):
                ctx.probe('set-in-place')
            ctx.probe('set')
            ctx.nontrivial = True
            if i + 1 < len(ops):
                ctx.probe('set-then-step')
            continue
        if o == 'put':
            node.do(op)
            if ref is not None:
                ref.do(op)
                cmp_est(node, ref, 1e-6, 'assigning the state', ctx)
            unchanged(node, was, 'assigning the state', ctx)
            node.check_given()
            ctx.probe('put')
            continue
        mine = [k for k in OVER if op.get(k) is not None]
        if mine:
            ctx.probe('override')
            ctx.nontrivial = True
        elif over:
            ctx.probe('override-then-plain')
        over = bool(mine)
        if o == 'none':
            ctx.fault('gap')
        if node.reuse and mine:
            ctx.fault('buffer-reuse')
        twin = temporary(node, op, cfg) if mine else None
        if o == 'batch':
            if op.get('fail') is not None:
                broken_batch(node, op, ctx)
            batch.run_batch(node, op['eps'], bool(op['first']))
            K = getattr(ref, 'K', None)
            for e in op['eps']:
                for s in batch.ops_of(e, kind, op['first']):
                    ref.do(s)
            if kind == 'proc':
                ref.K = K               # the caller's variable
            ctx.probe('batch')
            ctx.nontrivial = True
            haveK = haveK or any(e['z'] is not None for e in op['eps']) and kind != 'proc'
        else:
            if ref is not None:
                ref.do(op)
                if kind in ('imm', 'mmae') and o == 'update' and hopeless(ref):
                    break
            node.do(op)
            if o in ('update', 'corr', 'pu'):
                haveK = np.size(op['z']) == cfg.get('m') and (kind != 'proc' or bool(op.get('all')))
        unchanged(node, was, what, ctx)
        node.check_given()
        if twin is not None:
            ctx.probe('temporary')
            same_est(node.est(), twin, 'of %s after %s with its own %s, compared with configuring that for the step'
                     % (kind, what, '/'.join(mine)), ctx, 1e-9, 'override')
        if ref is not None:
            cmp_est(node, ref, 1e-6, what, ctx)
    ctx.state(kind, signature(ops), tuple(e[0] for op in ops for e in op.get('extra') or ()))


def broken_batch(node, op, ctx):
    """a batch run that fails half-way leaves the model as it was"""
    t = copy.deepcopy(node)
    PLANE.arm(None)
    try:
        batch.run_batch(t, op['eps'], bool(op['first']))
    finally:
        sites, _ = PLANE.disarm()
    if not sites:
        return
    t = copy.deepcopy(node)
    was = conf(t)
    PLANE.arm(min(int(op['fail'] * len(sites)), len(sites) - 1))
    try:
        batch.run_batch(t, op['eps'], bool(op['first']))
    except Exception:
        pass
    finally:
        _, fired = PLANE.disarm()
    if fired:
        ctx.fault('batch-failure')
        unchanged(t, was, 'a batch run that failed', ctx)


# which arguments equal configuring the parameter for one step
SWAP = dict(kf=('F', 'Q', 'H', 'R', 'B'), proc=(), ekf=('R', 'H'), ukf=('R',), ckf=('R',), srkf=('R',), inf=('R',),
            fading=('R',), ekfnl=('R',), ukfnl=('R',), ckfnl=('R',), enkf=('R',), gh=('g', 'h'), ghk=('g', 'h', 'k'))


def temporary(node, op, cfg):
    """the estimate had the argument been configured for this step only"""
    mine = [k for k in OVER if op.get(k) is not None]
    ks = [k for k in SWAP.get(node.kind, ()) if k in mine and k != 'u']
    if not ks or (op.get('H') is not None and len(op['z']) != cfg['m']):
        return None
    rs = PLANE.rs
    st = rs.get_state()
    t = copy.deepcopy(node)
    v = {}
    for k in ks:
        v[k] = op[k]
        if k in 'QR' and np.ndim(v[k]) == 0:
            v[k] = (np.eye(cfg['n'] if k == 'Q' else cfg['m']) * v[k]).tolist()
    t.op_set(dict(v=v))
    o = {k: x for k, x in op.items() if k not in ks}
    t.do(o)
    rs.set_state(st)
    return t.est()


def between(node, ref, saver, op, ex, prev, cfg, ctx):
    kind = node.kind
    ctx.nontrivial = True
    if ex[0] == 'fail':
        if op['op'] in ('set', 'put', 'none', 'batch'):
            return
        st = PLANE.rs.get_state()
        if c03.inject(node, op, ex[1], Quiet(ctx)) is not None:
            ctx.fault('step-failure')
        PLANE.rs.set_state(st)
    elif ex[0] == 'repr':
        repr(node.f)
        ctx.probe('read')
    elif ex[0] == 'diag':
        if kind != 'proc':
            getattr(node.f, ex[1])
            ctx.probe('read')
    elif ex[0] == 'record':
        if saver is not None:
            saver.save()
            ctx.probe('record')
    elif ex[0] == 'refused':
        # a transition the filter cannot invert, or cannot now
        F = np.zeros((cfg['n'], cfg['n'])) if ex[1] else 2. * np.eye(cfg['n'])
        if not ex[1]:
            PLANE.arm(0)
        was = node.f.F
        try:
            node.f.F = F
        except np.linalg.LinAlgError:
            ctx.fault('assignment-failure')
        else:
            node.f.F = was          # accepted for now: the user withdraws it
        finally:
            if not ex[1]:
                PLANE.disarm()
    elif ex[0] == 'dims':
        node.f.test_matrix_dimensions()
        ctx.probe('query')
    elif ex[0] == 'query':
        o = prev['op'] if prev else None
        c04.ask(node, ref, ex[1], ex[2], None, o, 'between the steps', cfg, ctx,
                o == 'update' and prev.get('H') is None and False)
        ctx.probe('query')
    elif ex[0] == 'side':
        side(node, ex[1], ex[2], cfg, ctx)


class Quiet(object):
    """a context that counts checks only"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.checks = 0

    def fault(self, *a):
        pass

    probe = state = fault


def side(node, seed, at, cfg, ctx):
    """a smoother or batch run over unrelated data, possibly failing inside"""
    kind, f = node.kind, node.f
    rs = np.random.RandomState(seed)
    n = cfg.get('n')
    k = rs.randint(1, 5)

    def spd(d):
        a = rs.uniform(-1, 1, (d, d))
        return a.dot(a.T) + .5 * np.eye(d)
    if kind in ('kf', 'proc', 'ukf', 'ukfnl'):
        Xs = rs.uniform(-1, 1, (k, n, 1) if node.col else (k, n))
        Ps = np.array([.2 * spd(n) for _ in range(k)])
        Fs = [np.eye(n) + rs.uniform(-.2, .2, (n, n)) for _ in range(k)]
        Qs = [.1 * spd(n) for _ in range(k)]
        if kind == 'kf':
            kw = {}
            if rs.randint(2):
                kw['Fs'] = Fs
            if rs.randint(2):
                kw['Qs'] = Qs

            def call():
                f.rts_smoother(Xs, Ps, **kw)
        elif kind == 'proc':
            def call():
                kfmod.rts_smoother(Xs, Ps, Fs, Qs)
        else:
            kw = {}
            if rs.randint(2):
                kw['Qs'] = Qs
            if rs.randint(2):
                kw['dts'] = float(rs.uniform(.05, .3))

            def call():
                f.rts_smoother(Xs, Ps, **kw)
    elif kind == 'fls':
        m = cfg['m']
        zs = [rs.uniform(-1, 1, (m, 1) if node.col else m) for _ in range(k)]
        us = [np.zeros((cfg['l'], 1) if node.col else cfg['l']) for _ in range(k)] if cfg.get('B') is not None else None

        def call():
            f.smooth_batch(zs, int(rs.randint(1, 5)), us)
    else:
        if np.ndim(f.x):
            return
        zs = [float(v) for v in rs.uniform(-1, 1, k)]

        def call():
            f.batch_filter(zs)
    est = node.snapshot()
    sites = []
    if at is not None and kind in ('kf', 'ukf', 'ukfnl', 'proc'):
        PLANE.arm(None)
        try:
            call()
        except np.linalg.LinAlgError:
            pass                # a random history may leave the domain of the unscented smoother
        finally:
            sites, _ = PLANE.disarm()
        if sites:
            PLANE.arm(min(int(at * len(sites)), len(sites) - 1))
            try:
                call()
            except Exception:
                pass
            finally:
                _, fired = PLANE.disarm()
            if fired:
                ctx.fault('smoother-failure')
    else:
        try:
            call()
        except np.linalg.LinAlgError:
            pass
    ctx.probe('smoother')
    same_est(node.est(), est, 'of %s after a smoother or batch run over other data' % kind, ctx, 0., 'side-effect')
