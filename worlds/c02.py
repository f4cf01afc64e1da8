"""C02: a missing measurement changes nothing."""
import numpy as np
from sim import batch, gen as G, nodes
from sim.boot import PLANE
from sim.core import Violation, close, same
from sim.world import MEAS, add_elapsed, events_of, same_est, signature, simplify_plan, stream

RUNS = 24000
LISTS = ['events', 'epochs']
KINDS = ('kf', 'proc', 'ekf', 'ukf', 'ckf', 'srkf', 'inf', 'fading', 'hinf', 'ekfnl', 'ukfnl', 'ckfnl',
         'enkf', 'imm', 'mmae')
BATCH = ('kf', 'proc', 'ukf', 'ukfnl', 'fading', 'hinf')
RULE = ('seeded filter, operation stream and gap positions (a gap at any point, also first, repeated, or '
        'standing for a lost packet); non-trivial when at least one None was processed')
STATES = 'distinct (filter form, dimensions, executed operation sequence)'
REAL = ['every filter class with update(None), procedural update, EKF.predict_update, IMMEstimator, '
        'MMAEFilterBank, batch_filter of KalmanFilter / procedural / UKF / fading / H-infinity']
STUB = ['sensors, network and clocks (simulated)', 'user callbacks', 'random source (EnKF)']
FAULTS = ['gap', 'loss', 'partition', 'duplicate', 'delay', 'reorder']
PROBES = ['none', 'gap-first', 'batch', 'punone', 'none-via']


def simplify(plan):
    for p in simplify_plan(plan):
        yield p
    for k in ('first', 'saver'):
        if plan.get(k):
            yield dict(plan, **{k: 0})


def gen(rng, tier):
    if rng.chance(.25):
        kind = rng.choice(BATCH)
        cfg = batch.gen_cfg(rng, kind)
        return dict(cfg=cfg, mode='batch', first=int(kind in batch.FIRST and rng.chance(.4)),
                    epochs=batch.gen_epochs(rng, cfg, rng.randint(1, 10), rng.choice([.2, .5])))
    kind = rng.choice(KINDS)
    cfg = G.gen_cfg(rng, kind)
    ops = G.gen_ops(rng, cfg, G.length(rng, tier, [3, 6, 12], 30, 150, cfg), G.Mix(rng, none=0.))
    ops = add_elapsed(rng, cfg, ops)
    p = rng.choice([.1, .3, .6])
    out = []
    for i, op in enumerate(ops):
        if rng.chance(p) or (not i and rng.chance(.4)):
            out.append(none_op(rng, cfg))
        out.append(op)
    out.append(none_op(rng, cfg))
    evs = events_of(rng, out)
    return dict(cfg=cfg, mode='stream', events=evs)


def none_op(rng, cfg):
    op = dict(op='none')
    if cfg['kind'] == 'kf' and rng.chance(.3):
        op['via'] = rng.choice(['corr', 'uss'])
    if cfg['kind'] == 'proc' and rng.chance(.3):
        op['all'] = True
    if cfg['kind'] in ('ekf', 'ekfnl') and rng.chance(.25):
        op = dict(op='punone')
        if cfg['kind'] == 'ekfnl' and rng.chance(.5):
            op['dt'] = G.interval(rng)
        if cfg.get('B') is not None:
            op['u'] = rng.vec(cfg['l'])
    return op


def run(plan, ctx):
    cfg = plan['cfg']
    if plan['mode'] == 'batch':
        return run_batch(plan, ctx)
    ops = stream(plan['events'], ctx, cfg)
    rs = PLANE.rs
    st = rs.get_state()
    a = nodes.make_node(cfg)
    rs.set_state(st)
    b = nodes.make_node(cfg)
    for i, op in enumerate(ops):
        if op['op'] in ('none', 'punone'):
            if not i:
                ctx.probe('gap-first')
            if op.get('via'):
                ctx.probe('none-via')
            ctx.fault('gap')
            if op['op'] == 'punone':
                b.do(dict(op, op='predict'))
                a.do(op)
                want = b.snapshot()
            else:
                want = a.snapshot()
                a.do(op)
            e = a.est()
            for k, v in want.items():
                same(e[k], v, '%s of %s after update(None) (step %d)' % (k, a.kind, i), 'gap-changed-estimate',
                     0. if op['op'] == 'none' else 1e-12)
                ctx.checks += 1
            for k, v in a.saved().items():
                if k.endswith('_post'):
                    src = k[:-5]
                    tol = 1e-9 if a.kind == 'inf' else 1e-12
                    close(v, e[src], tol, None, '%s of %s after update(None) (step %d)' % (k, a.kind, i),
                          'gap-posterior')
                    ctx.checks += 1
            continue
        st = rs.get_state()
        a.do(op)
        if a.kind == 'enkf':
            rs.set_state(st)
        b.do(op)
        same_est(a.est(), b.est(), 'of %s after %s (step %d), compared with the run without gaps'
                 % (a.kind, op['op'], i), ctx, 1e-10, 'gap-changed-later')
    ctx.arr(a.est()['x'])
    ctx.state(cfg['kind'], cfg['n'], cfg['m'], signature(ops))


def run_batch(plan, ctx):
    cfg, eps, first = plan['cfg'], plan['epochs'], plan['first']
    eps = batch.screen(cfg, eps)
    if not eps:
        return
    ctx.probe('batch')
    ctx.steps += 2 * len(eps)
    ctx.fault('gap', sum(e['z'] is None for e in eps))
    if eps[0]['z'] is None:
        ctx.probe('gap-first')
    a, b = nodes.make_node(cfg), nodes.make_node(cfg)
    got, _ = batch.run_batch(a, eps, first)
    want = batch.run_steps(b, eps, first, skip_none=True)
    for k in got:
        close(got[k], want[k], 1e-9, None, '%s of the %s batch with gaps' % (k, a.kind), 'gap-in-batch')
        ctx.checks += 1
    same_est({k: np.ravel(a.est()[k]) for k in 'xP'}, {k: np.ravel(b.est()[k]) for k in 'xP'},
             'of %s after the batch with gaps' % a.kind, ctx, 1e-9, 'gap-in-batch')
    saved = a.saved()
    for k in 'xP':
        # the posterior recorded last is the estimate reported at the last epoch, measured or not
        if k + '_post' in saved:
            close(saved[k + '_post'], want[k][-1], 1e-9, None, '%s_post of %s after the batch with gaps' % (k, a.kind),
                  'gap-posterior')
            ctx.checks += 1
    ctx.arr(got['x'])
    ctx.state('batch', cfg['kind'], cfg['n'], cfg['m'], first, tuple(e['z'] is None for e in eps))
