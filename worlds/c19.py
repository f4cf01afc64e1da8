"""C19: nonlinear filters follow their published recursions on the delivered log."""
import math
import numpy as np
from sim import gen as G, models, nodes, refs
from sim.core import A, Violation, close, num
from sim.world import add_elapsed, cmp_est, events_of, signature, simplify_plan, stream
from worlds.c04 import check_diag

RUNS = 12000
LISTS = ['events']
RULE = ('seeded nonlinear model with or without angular components, sigma-point family, noises, intervals and callback '
        'arguments; delivered log over a faulty link; a twin receives the same angles wrapped differently; unscented '
        'histories are smoothed; non-trivial when the link disturbed the log or a call carried its own arguments')
STATES = 'distinct (filter, dimensions, angular components, step sequence with the arguments used)'
REAL = ['ExtendedKalmanFilter', 'UnscentedKalmanFilter with its sigma-point classes, unscented_transform and rts_smoother',
        'CubatureKalmanFilter']
STUB = ['sensors, network and clocks (simulated)', 'user callbacks (transition, measurement, Jacobian, mean, residual, '
        'addition, square root, transform)']
FAULTS = ['loss', 'duplicate', 'reorder', 'gap', 'delay', 'rewrapped']
PROBES = ['predict', 'update', 'pu', 'diag', 'angles', 'periodic', 'smoothed', 'smoothed-angles', 'callback-args',
          'own-transform', 'own-functions', 'own-sqrt', 'set', 'put', 'merwe', 'julier', 'simplex', 'prior-post']
ASSUME = ['unscented runs end where the reference recursion itself leaves the positive definite cone',
          'results with differently wrapped angles are compared for models that are periodic in those angles']
simplify = simplify_plan


def gen(rng, tier):
    kind = rng.choice(['ekfnl', 'ukfnl', 'ukfnl', 'ukfnl', 'ckfnl'])
    cfg = G.gen_cfg(rng, kind)
    mix = G.Mix(rng)
    mix.put = rng.choice([0., 0., .15])
    plan = dict(cfg=cfg)
    smooth = kind == 'ukfnl' and rng.chance(.35)
    if cfg['p'].get('ax') or cfg['p'].get('az'):
        if rng.chance(.7):
            for p in [cfg['p']] + cfg['alts']:      # make the model periodic in the angular states
                ax = cfg['p'].get('ax') or []
                for i in ax:
                    for row in p['A'] + p['H']:
                        row[i] = 0.
                    for row in p['W']:
                        row[i] = float(rng.choice([-1, 0, 1]))
            plan['twist'] = rng.randrange(1 << 20)
    if smooth:
        ops = []
        even = G.interval(rng) if rng.chance(.3) else None
        for _ in range(rng.choice([2, 3, 6, 12])):
            op = dict(op='predict')
            if even is not None:
                op['dt'] = even
            elif rng.chance(.5):
                op['dt'] = G.interval(rng)
            ops.append(op)
            if rng.chance(.8):
                u = G.op_update(rng, cfg, kind, G.Mix(rng, over=0.))
                ops.append(u)
            else:
                ops.append(dict(op='none'))
        plan['smooth'] = dict(Q=rng.chance(.4), UT=rng.f(1., 1.3) if rng.chance(.2) else None, seed=rng.randrange(1 << 20))
    else:
        ops = add_elapsed(rng, cfg, G.gen_ops(rng, cfg, G.length(rng, tier, [3, 6, 12], 30, 200, cfg), mix),
                          rng.choice([0., .5]))
    plan['events'] = events_of(rng, ops)
    return plan


def twisted(rs, v, idx):
    v = list(v)
    for i in idx:
        v[i] = v[i] + 2 * math.pi * rs.randint(-2, 3)
    return v


def angular(a, b, idx, tol, what, kind):
    d = num(a, what).ravel() - np.ravel(b)
    d[idx] = models.wrap(d[idx])
    close(d, np.zeros(len(d)), tol, 1. + np.abs(b).max(), what, kind)


def added(x, ax, what):
    """the user's addition keeps angles within half a turn of zero, plain addition does not"""
    a = num(x, what).ravel()[ax]
    if len(a) and not (np.abs(a) <= math.pi + 1e-9).all():
        raise Violation('not-added', '%s has the angles %s, which state_add never returns' % (what, a.tolist()))


def run(plan, ctx):
    cfg = plan['cfg']
    kind, p = cfg['kind'], cfg['p']
    ax, az = p.get('ax') or [], p.get('az') or []
    ops = stream(plan['events'], ctx, cfg)
    node, ref = nodes.make_node(cfg), refs.make_ref(cfg)
    if kind == 'ukfnl':
        ctx.probe(cfg['points']['fam'])
        if cfg.get('sqrt'):
            ctx.probe('own-sqrt')
    if ax or az:
        ctx.probe('angles')
    for k in cfg.get('odd') or ():
        ctx.probe('own-functions')
    twin = None
    if 'twist' in plan:
        rs = np.random.RandomState(plan['twist'])
        twin = nodes.make_node(dict(cfg, x0=twisted(rs, cfg['x0'], ax)))
        ctx.fault('rewrapped')
        ctx.probe('periodic')
    xs, Ps, dts = [], [], []
    for i, op in enumerate(ops):
        o = op['op']
        where = 'of %s after %s (step %d)' % (kind, o, i)
        if any(op.get(k) for k in ('fargs', 'hargs', 'jargs')) or op.get('alt') is not None:
            ctx.probe('callback-args')
            ctx.nontrivial = True
        if op.get('UT'):
            ctx.probe('own-transform')
        if o == 'none':
            ctx.fault('gap')
        # the recursion is judged where it is defined; angles are judged modulo a turn
        node.do(op)
        ref.do(op)
        if ax:
            angular(node.f.x, ref.x, ax, 1e-6, 'x ' + where, 'mismatch')
            close(node.f.P, ref.P, 1e-6, None, 'P ' + where)
            ctx.checks += 2
            ctx.arr(node.f.x)
        else:
            cmp_est(node, ref, 1e-6, '%s (step %d)' % (o, i), ctx)
        if kind == 'ukfnl' and o == 'update':
            added(node.f.x, ax, 'x ' + where)
        if o in ('update', 'pu') and ref.diag is not None:
            for name in ('y', 'S', 'K', 'SI', 'log_likelihood', 'mahalanobis'):
                check_diag(node, ref, name, getattr(node.f, name), where, ctx)
            ctx.probe('diag')
        f = node.f
        if o in ('set', 'put'):
            ctx.probe(o)
            if twin is not None:
                twin.do(op)
            continue
        ctx.probe('prior-post')
        for k in ('x_prior', 'P_prior') if o in ('predict', 'pu') else ('x_post', 'P_post'):
            v = getattr(ref, k)
            if k[0] == 'x' and ax:
                angular(getattr(f, k), v, ax, 1e-6, '%s %s' % (k, where), 'mismatch')
            else:
                close(getattr(f, k), v, 1e-6, None, '%s %s' % (k, where))
        if twin is not None:
            op2 = op
            if op.get('z') is not None and (kind != 'ekfnl' or op.get('residual')):
                op2 = dict(op, z=twisted(rs, op['z'], az))
            twin.do(op2)
            angular(twin.f.x, num(node.f.x, 'x').ravel(), ax, 1e-8,
                    'x %s, with angles wrapped differently' % where, 'wrap-dependent')
            close(twin.f.P, node.f.P, 1e-8, None, 'P %s, with angles wrapped differently' % where, 'wrap-dependent')
            ctx.checks += 2
        if 'smooth' in plan:
            if o == 'predict':
                dts.append(op.get('dt', cfg['dt']))
                xs.append(0)
                Ps.append(0)
            if xs:
                xs[-1], Ps[-1] = np.array(f.x, float), np.array(f.P, float)
    if 'smooth' in plan and len(xs) > 1:
        smooth(plan['smooth'], node, ref, np.array(xs), np.array(Ps), dts, ctx)
    ctx.state(kind, cfg['n'], cfg['m'], tuple(ax), tuple(az), signature(ops))


def smooth(s, node, ref, xs, Ps, dts, ctx):
    cfg = node.cfg
    ax = cfg['p'].get('ax') or []
    rs = np.random.RandomState(s['seed'])
    Qs = [A(cfg['Q']) * (rs.uniform(.5, 1.5) if s['Q'] else 1.) for _ in xs]
    kw = dict(dts=list(dts))
    if len(set(dts)) == 1 and rs.randint(2):
        kw['dts'] = dts[0]
        if dts[0] == cfg['dt'] and rs.randint(2):
            del kw['dts']
    if s['Q']:
        kw['Qs'] = Qs
    if s['UT']:
        kw['UT'] = models.UT(s['UT'])
    # the backward recursion may leave the positive definite cone: stop where the reference does
    try:
        rx, rP = ref.smooth(xs, Ps, Qs, dts, s['UT'])
    except np.linalg.LinAlgError:
        return
    if not np.isfinite(rx).all() or not np.isfinite(rP).all() or np.abs(rP).max() > 1e4:
        return
    if min(np.linalg.eigvalsh(P)[0] / np.linalg.eigvalsh(P)[-1] for P in Ps) < 1e-7:
        return
    x0, P0 = xs.copy(), Ps.copy()
    sx, sP = node.f.rts_smoother(xs, Ps, **kw)[:2]
    for k in range(len(xs) - 1, -1, -1):
        w = 'at epoch %d of %d' % (k, len(xs))
        angular(sx[k], rx[k], ax, 1e-5, 'smoothed mean ' + w, 'smoother')
        close(sP[k], rP[k], 1e-5, None, 'smoothed covariance ' + w, 'smoother')
        ctx.checks += 2
        if k < len(xs) - 1:
            added(sx[k], ax, 'smoothed mean ' + w)
    close(xs, x0, 0., 1., 'means passed to the smoother', 'caller-data-modified')
    close(Ps, P0, 0., 1., 'covariances passed to the smoother', 'caller-data-modified')
    ctx.probe('smoothed')
    if ax:
        ctx.probe('smoothed-angles')


def ukf_ignores():
    """the unscented filter accepts sqrt_fn and does not use it"""
    from filterpy.kalman import MerweScaledSigmaPoints, UnscentedKalmanFilter
    called = []

    def sq(P):
        called.append(1)
        return np.linalg.cholesky(P).T
    f = UnscentedKalmanFilter(1, 1, .1, lambda x: x, lambda x, dt: x, MerweScaledSigmaPoints(1, .5, 2., 1.), sqrt_fn=sq)
    f.predict()
    f.update(np.array([1.]))
    return None if called else 'sqrt_fn is never called'


KNOWN = {'ukf-sqrt-fn': ukf_ignores}
