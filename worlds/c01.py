"""C01: linear filters equal the exact posterior of the delivered log."""
import numpy as np
from sim import gen as G, nodes, refs
from sim.core import Violation, close
from sim.world import add_elapsed, events_of, signature, simplify_plan, stream

RUNS = 40000
LISTS = ['events']
simplify = simplify_plan
RULE = ('seeded linear model, filter form, per-call arguments and link faults; non-trivial when a '
        'measurement was lost, duplicated, delayed or reordered, the node clock jumped, or a '
        'per-call or reconfigured model was in force')
STATES = 'distinct (filter form, dimensions, executed operation/argument sequence)'
REAL = ['filterpy.kalman: KalmanFilter, procedural predict/update/..., ExtendedKalmanFilter, '
        'UnscentedKalmanFilter with all sigma-point families, CubatureKalmanFilter, SquareRootKalmanFilter, '
        'InformationFilter, FadingKalmanFilter']
STUB = ['sensors, network and clocks (simulated)', 'user callbacks fx/hx/HJacobian (linear models)']
FAULTS = ['loss', 'partition', 'duplicate', 'delay', 'reorder', 'clock-jump']
PROBES = ['predict', 'update', 'corr', 'pss', 'uss', 'pu', 'set', 'none', 'put', 'units', 'dense']
ASSUME = ['model matrices are drawn with condition numbers below about 1e4, so rounding stays far below '
          'the comparison tolerance 1e-6']


def gen(rng, tier):
    kind = rng.choice(G.LIN + ('kf', 'proc'))
    cfg = G.gen_cfg(rng, kind)
    mix = G.Mix(rng)
    mix.put = rng.choice([0., 0., 0., .15])
    if kind == 'kf' and rng.chance(.3) and not cfg.get('inv'):
        cfg['R'] = np.atleast_2d(cfg['R']).tolist() if np.ndim(cfg['R']) else (np.eye(cfg['m']) * cfg['R']).tolist()
        cfg['M'] = G.cross_M(rng, cfg['Q'], cfg['R'], cfg['n'], cfg['m'])
        mix.set = 0.
    n = G.length(rng, tier, [3, 6, 10, 16], 40, 300, cfg)
    ops = add_elapsed(rng, cfg, G.gen_ops(rng, cfg, n, mix), rng.choice([0., .5]))
    if rng.chance(.15) and not cfg.get('ints') and not cfg.get('xint'):
        cfg['units'] = rng.choice([1e-4, 1e-3, 1e3, 1e4])
    return dict(cfg=cfg, events=events_of(rng, ops))


def rescale(cfg, ops):
    """the same problem with states and measurements in another unit of length"""
    s = cfg.get('units')
    if not s:
        return cfg, ops
    pw = dict(x0=1, x=1, z=1, B=1, P0=2, P=2, Q=2, R=2, M=2)

    def sc(d):
        return {k: (np.array(v, float) * s ** pw[k]).tolist() if k in pw and v is not None and not (
            k in 'xP' and v == 1) else v for k, v in d.items()}
    out = []
    for op in ops:
        op = sc(op)
        if 'v' in op:
            op['v'] = sc(op['v'])
        out.append(op)
    return sc(cfg), out


def dense(cfg, ops):
    """posterior of the final state by one joint Gaussian conditioning, no recursion"""
    r = refs.RefLin(cfg)
    # latent vector xi = (x0, w1, w2, ...) and the current state as T xi + c
    n = cfg['n']
    blocks = [r.P]
    T = np.eye(n)
    c = r.x.copy()
    rows, Rs, zs = [], [], []
    mean0 = []
    for op in ops:
        if op['op'] == 'set':
            r.op_set(op)
        elif op['op'] == 'predict':
            F = np.array(op['F']) if op.get('F') is not None else r.F
            Q = refs.mat(op['Q'], n) if op.get('Q') is not None else r.Q
            B = np.array(op['B']) if op.get('B') is not None else r.B
            T = np.hstack([F.dot(T), np.eye(n)])
            blocks.append(Q)
            c = F.dot(c)
            if B is not None and op.get('u') is not None:
                c = c + B.dot(np.ravel(op['u']))
        elif op['op'] == 'update':
            m = len(op['z'])
            H = np.array(op['H']) if op.get('H') is not None else r.H
            R = refs.mat(op['R'], m) if op.get('R') is not None else r.R
            rows.append(H.dot(T))
            zs.append(np.ravel(op['z']) - H.dot(c))
            Rs.append(R)
    N = T.shape[1]
    P = np.zeros((N, N))
    k = 0
    for b in blocks:
        P[k:k + n, k:k + n] = b
        k += n
    if not rows:
        return c, T.dot(P).dot(T.T)
    M = sum(len(v) for v in zs)
    H = np.zeros((M, N))
    R = np.zeros((M, M))
    k = 0
    for a, b in zip(rows, Rs):
        H[k:k + len(b), :a.shape[1]] = a
        R[k:k + len(b), k:k + len(b)] = b
        k += len(b)
    C = P.dot(H.T)
    S = H.dot(C) + R
    K = refs.solve(S, C.T).T
    return c + T.dot(K.dot(np.concatenate(zs))), T.dot(P - K.dot(C.T)).dot(T.T)


def run(plan, ctx):
    cfg = plan['cfg']
    ops = stream(plan['events'], ctx, cfg)
    cfg, ops = rescale(cfg, ops)
    u = cfg.get('units', 1.)
    if u != 1.:
        ctx.probe('units')
    node, ref = nodes.make_node(cfg), refs.make_ref(cfg)
    for i, op in enumerate(ops):
        node.do(op)
        ref.do(op)
        e = node.est()
        for k, v, s in (('x', ref.x, u), ('P', ref.P, u * u)):
            close(np.asarray(e[k], float) / s, v / s, 1e-6, None, '%s of %s after %s (step %d)' % (k, cfg['kind'], op['op'], i))
            ctx.checks += 1
        ctx.arr(e['x'])
    if any(k in o for o in ops for k in 'FQHRBuv'):
        ctx.nontrivial = True
    if cfg.get('alpha', 1.) == 1. and len(ops) <= 12 and all(
            o['op'] in ('predict', 'update', 'set', 'none') and 'alpha' not in o and 'alpha' not in o.get('v', ())
            for o in ops):
        x, P = dense(cfg, ops)
        e = node.est()
        close(np.asarray(e['x'], float) / u, x / u, 1e-6, None, 'x of %s against the joint posterior' % cfg['kind'])
        close(np.asarray(e['P'], float) / u ** 2, P / u ** 2, 1e-6, None, 'P of %s against the joint posterior' % cfg['kind'])
        ctx.probe('dense')
    ctx.state(cfg['kind'], cfg['n'], cfg['m'], signature(ops))


def no_information():
    """an information filter started with no information, two scalar sensors"""
    from filterpy.kalman import InformationFilter
    f = InformationFilter(2, 1)
    f.P_inv = np.zeros((2, 2))
    f.F = np.eye(2)
    f.Q = np.zeros((2, 2))
    try:
        for H in ([[1., 0.]], [[0., 1.]]):
            f.H = np.array(H)
            f.update(np.array([[3.]]))
        if not np.allclose(np.ravel(f.x), 3.):
            return 'x is %r after both components were measured as 3' % np.ravel(f.x).tolist()
    except np.linalg.LinAlgError as e:
        return 'update raises %r' % e


KNOWN = {'inf-no-information': no_information}
