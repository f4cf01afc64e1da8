"""C03: a failed step is all-or-nothing and can be retried or abandoned."""
import copy
import numpy as np
from sim import gen as G, nodes, refs
from sim.boot import PLANE
from sim.core import Violation, same
from sim.world import MEAS, add_elapsed, events_of, same_est, sane, signature, simplify_plan, stream

RUNS = 22000
LISTS = ['events']
KINDS = ('kf', 'proc', 'ekf', 'ukf', 'ckf', 'srkf', 'inf', 'fading', 'hinf', 'ekfnl', 'ukfnl', 'ckfnl', 'enkf', 'fls')
RULE = ('seeded filter and operation stream; faults are placed inside steps: the k-th library call or user '
        'callback of the step fails, or the measurement has the wrong length; the step is then retried '
        '(possibly failing several times) or abandoned; non-trivial when at least one fault fired inside a step')
STATES = 'distinct (filter form, step kind, failing site, ordinal of the site in the step, retry or abandon)'
REAL = ['all single-model filter classes, the fixed-lag smoother and the procedural functions']
STUB = ['numpy/scipy linear-algebra entry points (pass-through, fail on command)', 'user callbacks',
        'random source (EnKF)', 'sensors and network']
FAULTS = ['numpy.linalg.inv', 'scipy.linalg.inv', 'scipy.linalg.cholesky', 'scipy.linalg.qr', 'fx', 'hx', 'HJacobian', 'predict_x',
          'residual', 'mean_fn', 'state_add', 'UT', 'sqrt_method', 'random', 'bad-shape']
PROBES = ['retry', 'abandon', 'retry-twice', 'then-next-step']
simplify = simplify_plan


def gen(rng, tier):
    kind = rng.choice(KINDS + ('ukfnl', 'ekfnl', 'ckfnl', 'enkf', 'ukf'))
    cfg = G.gen_cfg(rng, kind)
    mix = G.Mix(rng)
    mix.put = rng.choice([0., 0., .1])
    ops = add_elapsed(rng, cfg, G.gen_ops(rng, cfg, rng.choice([2, 4, 8] + ([20] if tier == 'thorough' or rng.chance(.04) else [])), mix))
    evs = events_of(rng, ops)
    p = rng.choice([.2, .5, .9])
    for ev in evs:
        if ev['op']['op'] in ('set', 'put', 'none'):
            continue
        if rng.chance(p):
            ev['op']['fault'] = [dict(at=rng.f(0, 1), then=rng.choice(['retry', 'retry', 'abandon']))
                                 for _ in range(rng.choice([1, 1, 2]))]
            if ev['op']['op'] in ('update', 'smooth') and rng.chance(.2):
                ev['op']['fault'][0]['shape'] = 1
    return dict(cfg=cfg, events=evs)


def wrong_shape(node, op):
    """a measurement one component too long, in the filter's own layout"""
    m = node.cfg['m']
    if op.get('H') is not None or (node.kind == 'enkf' and m < 2) or node.cfg.get('float'):
        return None
    o = dict(op, z=list(op['z']) + [1.])
    o.pop('form', None)
    return o


def run(plan, ctx):
    cfg = plan['cfg']
    ops = stream(plan['events'], ctx, cfg)
    rs = PLANE.rs
    st = rs.get_state()
    a = nodes.make_node(cfg)
    rs.set_state(st)
    b = nodes.make_node(cfg)
    guard = refs.make_ref(cfg) if cfg['kind'] == 'ukfnl' else None
    fresh = haveK = False
    sigma = cfg['kind'] in G.SIGMA
    cubature = cfg['kind'] in ('ckf', 'ckfnl')
    hurt = False
    for i, op in enumerate(ops):
        op = dict(op)
        faults = op.pop('fault', None) or []
        o = op['op']
        if (o == 'corr' and not fresh) or (sigma and o == 'update' and not (fresh or cubature)):
            continue
        if o == 'uss' and not haveK:
            continue
        if guard is not None:
            was = copy.deepcopy(guard)
            if not sane(guard, op):
                break
        st = rs.get_state()
        abandoned = False
        nf = 0
        for f in faults:
            what = inject(a, op, f, ctx)
            if what is None:
                continue
            hurt = True
            nf += 1
            rs.set_state(st)
            if f['then'] == 'abandon':
                abandoned = True
                ctx.probe('abandon')
                break
            ctx.probe('retry')
        if nf > 1:
            ctx.probe('retry-twice')
        if abandoned:
            if guard is not None:
                guard = was
            continue
        if hurt and not faults:
            ctx.probe('then-next-step')
        a.do(op)
        rs.set_state(st)
        b.do(op)
        if o == 'predict':
            fresh = True
        elif o == 'put' and G.new_values(op):
            fresh = False
        elif o in ('update', 'corr', 'pu'):
            fresh = False
            haveK = len(op['z']) == cfg['m'] and (cfg['kind'] != 'proc' or bool(op.get('all')))
        same_est(a.est(), b.est(), 'of %s after %s (step %d), compared with the run without the failure'
                 % (a.kind, o, i), ctx, 1e-10, 'failure-left-traces')
        for k, v in b.saved().items():
            same(a.saved()[k], v, '%s of %s after %s (step %d), compared with the run without the failure'
                 % (k, a.kind, o, i), 'failure-left-traces')
    ctx.arr(a.est()['x'])


def inject(a, op, f, ctx):
    """run op on a with one fault; returns what fired, or None if nothing could"""
    rs = PLANE.rs
    st = rs.get_state()
    if f.get('shape'):
        bad = wrong_shape(a, op)
        if bad is None:
            return None
        return attempt(a, bad, None, 'bad-shape', f, ctx)
    trial = copy.deepcopy(a)
    PLANE.arm(None)
    try:
        trial.do(op)
    finally:
        sites, _ = PLANE.disarm()
        rs.set_state(st)
    lo = 0
    if a.kind == 'inf' and op['op'] == 'predict':
        # a failing inverse of the prior information is documented to mean
        # "no information yet"; only the last inverse is a plain failure
        lo = len(sites) - 1
    if len(sites) <= lo:
        return None
    k = lo + int(f['at'] * (len(sites) - lo))
    k = min(k, len(sites) - 1)
    return attempt(a, op, k, sites[k], f, ctx)


def attempt(a, op, k, site, f, ctx):
    want = a.snapshot()
    PLANE.arm(k if k is not None else None)
    raised = None
    try:
        a.do(op)
    except Exception as e:
        raised = e
    finally:
        _, fired = PLANE.disarm()
    if k is not None and not fired:
        raise Violation('not-repeatable', 'the same %s of %s made fewer calls the second time' % (op['op'], a.kind))
    where = '%s of %s with %s failing%s' % (op['op'], a.kind, site, '' if k is None else ' (call %d)' % k)
    ctx.fault(site if k is None else site)
    ctx.state(a.kind, op['op'], site, k, f['then'])
    if raised is None:
        raise Violation('failure-swallowed', '%s returned normally' % where)
    e = a.est()
    for n, v in want.items():
        same(e[n], v, '%s after a failed %s' % (n, where), 'partial-step', 0.)
        ctx.checks += 1
    return site
