"""C13: ensemble filter: estimate and covariance stay consistent with the draws."""
import math
import numpy as np
from sim import gen as G, models, nodes, refs
from sim.boot import PLANE
from sim.core import A, Violation, close, flat
from sim.world import events_of, simplify_plan, stream

RUNS = 20000
LISTS = ['events']
RULE = ('seeded nonlinear model, ensemble size, delivered log and per-call noise; the random source is scripted per step '
        '(ordinary, all-zero, identical for every member, ten times too large); non-trivial when a scripted draw or a '
        'disturbed log was met')
STATES = 'distinct (dimensions, ensemble size, step sequence, draw scripts)'
REAL = ['EnsembleKalmanFilter']
STUB = ['random source (recorded and scripted)', 'sensors, network, user callbacks']
FAULTS = ['loss', 'duplicate', 'gap', 'draw-zero', 'draw-same', 'draw-big']
PROBES = ['predict', 'update', 'override', 'update-first', 'exact-draws', 'set']


def gen(rng, tier):
    cfg = G.gen_cfg(rng, 'enkf')
    cfg['N'] = rng.choice([2, 3, 5, 8, 20])
    ops = []
    for _ in range(G.length(rng, tier, [2, 4, 8], 20, 150)):
        r = rng.random()
        if r < .45:
            op = dict(op='predict')
        elif r < .85:
            op = dict(op='update', z=rng.vec(cfg['m'], 1.5))
            if rng.chance(.3):
                op['R'] = G.noise_R(rng, cfg['m'])
        elif r < .93:
            op = dict(op='none')
        else:
            op = dict(op='set', v=dict(Q=rng.spd(cfg['n'], .005, .3)) if rng.chance(.5) else
                      dict(R=rng.spd(cfg['m'], .05, 2.)))
        if op['op'] in ('predict', 'update') and rng.chance(.25):
            op['draw'] = rng.choice(['zero', 'same', 'big'])
        ops.append(op)
    return dict(cfg=cfg, events=events_of(rng, ops), draw0=rng.choice([None, None, 'same']))


def simplify(plan):
    if plan['draw0']:
        yield dict(plan, draw0=None)
    for p in simplify_plan(plan):
        yield p


def script(how):
    return {None: None, 'zero': lambda v: v * 0., 'big': lambda v: v * 10.,
            'same': lambda v: v * 0. + (v[0] if v.ndim > 1 else v)}[how]


def rows_of(draws, cov, N, d, what):
    """the draws of one step as one row per member, or None when this tree draws otherwise"""
    if not draws or any(n != 'multivariate_normal' for n, _, _, _ in draws):
        return None
    out = []
    for name, args, kw, v in draws:
        mean = kw.get('mean', args[0] if args else None)
        c = kw.get('cov', args[1] if len(args) > 1 else None)
        if np.shape(c) != (d, d) or np.abs(flat(mean)).max() > 0:
            return None
        if not np.allclose(c, cov, 1e-9, 1e-12):
            if np.allclose(c, np.eye(d)):
                return None                       # presumably transformed afterwards
            raise Violation('wrong-noise', 'noise %s is drawn with covariance %s, in force is %s'
                            % (what, np.array(c).tolist(), np.array(cov).tolist()))
        out.append(np.reshape(v, (-1, d)))
    out = np.concatenate(out)
    if len(out) != N:
        raise Violation('wrong-noise', '%d noise vectors are drawn %s for %d members' % (len(out), what, N))
    return out


def matches(res, draws, scale):
    """is res a permutation of draws?"""
    left = list(range(len(draws)))
    for r in res:
        d = [np.abs(r - draws[j]).max() for j in left]
        j = int(np.argmin(d))
        if not d[j] <= 1e-8 * scale:
            return False
        left.pop(j)
    return True


def run(plan, ctx):
    cfg = plan['cfg']
    n, m, N, p, dt = cfg['n'], cfg['m'], cfg['N'], cfg['p'], cfg['dt']
    ops = stream(plan['events'], ctx, cfg)
    PLANE.record_draws = True
    PLANE.normal_script = script(plan['draw0'])
    node = nodes.make_node(cfg)
    f = node.f
    Q, R = A(cfg['Q']), refs.mat(cfg['R'], m)
    close(f.x, cfg['x0'], 1e-12, None, 'x at the start')
    close(f.P, cfg['P0'], 1e-12, None, 'P at the start')
    r = rows_of_first(cfg, f)
    stats = []
    for i, op in enumerate(ops):
        o = op['op']
        what = 'of the %s at step %d' % (o, i)
        if o == 'set':
            node.do(op)
            if 'Q' in op['v']:
                Q = A(op['v']['Q'])
            else:
                R = A(op['v']['R'])
            continue
        how = op.get('draw')
        if how:
            ctx.fault('draw-' + how)
        if o == 'none':
            ctx.fault('gap')
        s0, P0 = np.array(f.sigmas, float), np.array(f.P, float)
        x0 = np.array(f.x, float)
        PLANE.draws = []
        PLANE.normal_script = script(how)
        node.do(op)
        draws = PLANE.draws
        s1 = np.array(f.sigmas, float)
        if s1.shape != (N, n):
            raise Violation('ensemble', 'the ensemble has shape %s %s' % (s1.shape, what))
        ctx.checks += 4
        for k, v in node.saved().items():
            if k.endswith('_prior' if o == 'predict' else '_post'):
                close(v, getattr(f, k[0]), 0., 1., '%s %s' % (k, what), 'saved-estimate')
        if o == 'none':
            close(s1, s0, 0., 1., 'ensemble ' + what, 'gap-changed')
            close(f.x, x0, 0., 1., 'x ' + what, 'gap-changed')
            close(f.P, P0, 0., 1., 'P ' + what, 'gap-changed')
            continue
        scale = 1e-3 + np.abs(s1).max()
        close(f.x, s1.mean(axis=0), 1e-9, scale, 'x against the ensemble mean ' + what, 'inconsistent')
        if o == 'predict':
            D = s1 - s1.mean(axis=0)
            close(f.P, D.T.dot(D) / (N - 1), 1e-8, None, 'P against the ensemble covariance ' + what, 'inconsistent')
            res = s1 - np.array([models.nl_f(p, v, dt) for v in s0])
            e = rows_of(draws, Q, N, n, what)
            if e is None:
                if how is None:
                    stats.append(refs.solve(refs.chol(Q), res.T).ravel())
            elif not matches(res, e, scale):
                raise Violation('wrong-member', 'the members move by %s beyond the transition, the process noise drawn '
                                'is %s %s' % (res.tolist(), e.tolist(), what))
            else:
                ctx.probe('exact-draws')
            ctx.probe('predict')
            continue
        if i == 0:
            ctx.probe('update-first')
        Rc = refs.mat(op['R'], m) if op.get('R') is not None else R
        if op.get('R') is not None:
            ctx.probe('override')
        h = np.array([models.nl_h(p, v) for v in s0])
        dh, dx = h - h.mean(axis=0), s0 - s0.mean(axis=0)
        S = dh.T.dot(dh) / (N - 1) + Rc
        K = refs.solve(S.T, (dx.T.dot(dh) / (N - 1)).T).T
        close(f.S, S, 1e-7, None, 'S ' + what, 'wrong-gain')
        close(f.K, K, 1e-7, None, 'K ' + what, 'wrong-gain')
        close(f.P, P0 - K.dot(S).dot(K.T), 1e-7, 1e-3 + np.abs(P0).max(), 'P ' + what, 'wrong-covariance')
        move = s1 - s0 - (A(op['z']) - h).dot(K.T)
        e = rows_of(draws, Rc, N, m, what)
        if e is not None:
            if not matches(move, e.dot(K.T), scale):
                raise Violation('wrong-member', 'the members move by %s beyond the gain times the innovation, the gain '
                                'times the measurement noise drawn is %s %s' % (move.tolist(), e.dot(K.T).tolist(), what))
            ctx.probe('exact-draws')
        elif how is None and np.linalg.matrix_rank(K, 1e-4) == m <= n:
            stats.append(refs.solve(refs.chol(Rc), np.linalg.lstsq(K, move.T, None)[0]).ravel())
        ctx.probe('update')
    if stats:
        v = np.concatenate(stats)
        k = len(v)
        if abs(v.mean()) * math.sqrt(k) > 6 or abs(v.var() - 1) > 7 * math.sqrt(2. / k) + 7. / k:
            raise Violation('wrong-noise', 'over %d draws the noise, whitened, has mean %.3f and variance %.3f'
                            % (k, v.mean(), v.var()))
    if any(o['op'] == 'set' for o in ops):
        ctx.probe('set')
    ctx.arr(f.sigmas)
    ctx.state(n, m, N, tuple((o['op'], o.get('draw'), 'R' in o) for o in ops))


def rows_of_first(cfg, f):
    """the first ensemble is drawn from the prior"""
    draws = PLANE.draws
    if len(draws) == 1 and draws[0][0] == 'multivariate_normal' and np.shape(draws[0][3]) == (cfg['N'], cfg['n']):
        name, args, kw, v = draws[0]
        mean = kw.get('mean', args[0] if args else None)
        cov = kw.get('cov', args[1] if len(args) > 1 else None)
        if np.allclose(flat(mean), cfg['x0']):
            if not np.allclose(cov, cfg['P0']):
                raise Violation('wrong-noise', 'the first ensemble is drawn with covariance %r, not P' % (cov,))
            close(f.sigmas, v, 1e-9, None, 'first ensemble', 'wrong-member')
