"""C04: diagnostics describe the last processed measurement; reading is passive."""
import copy
import math
import numpy as np
from sim import gen as G, nodes, refs
from sim.boot import PLANE
from sim.core import Violation, close, flat, num, same
from sim.world import MEAS, add_elapsed, events_of, same_est, signature, simplify_plan, stream

RUNS = 18000
LISTS = ['events', 'events.*.op.reads']
KINDS = ('kf', 'kf', 'proc', 'ekf', 'ukf', 'ckf', 'srkf', 'inf', 'fading', 'hinf', 'ekfnl', 'ukfnl', 'ckfnl',
         'enkf', 'imm', 'mmae')
RULE = ('seeded filter and operation stream; between any two steps a seeded subset of diagnostics is read in '
        'seeded order, the filter is printed, or a what-if query is made; non-trivial when at least one read '
        'happened between steps')
STATES = 'distinct (filter form, last step, order of reads since it)'
REAL = ['all filter classes, banks and procedural functions, with their diagnostics and query methods']
STUB = ['sensors, network and clocks (simulated)', 'user callbacks', 'random source (EnKF)']
FAULTS = ['loss', 'duplicate', 'reorder', 'gap', 'outlier', 'buffer-reuse']
PROBES = ['read', 'print', 'query-prediction', 'query-update', 'query-residual', 'query-likelihood', 'query-measurement', 'floored',
          'read-after-predict', 'read-after-gap', 'prior', 'post', 'put-in-place']
simplify = simplify_plan
TINY = refs.TINY


def gen(rng, tier):
    kind = rng.choice(KINDS)
    cfg = G.gen_cfg(rng, kind)
    mix = G.Mix(rng)
    mix.put = rng.choice([0., 0., .15])
    if kind == 'kf' and rng.chance(.25) and not cfg.get('inv') and np.ndim(cfg['R']) == 2:
        cfg['M'] = G.cross_M(rng, cfg['Q'], cfg['R'], cfg['n'], cfg['m'])
        mix.set = 0.
    ops = add_elapsed(rng, cfg, G.gen_ops(rng, cfg, G.length(rng, tier, [3, 6, 12], 30, 150, cfg),
                                          mix))
    evs = events_of(rng, ops)
    p = rng.choice([.3, .8])
    diag = nodes.KINDS[kind].DIAG
    for ev in evs:
        reads = []
        while rng.chance(p) and len(reads) < 8:
            r = rng.random()
            if r < .6 and diag:
                reads.append(['diag', rng.choice(diag)])
            elif r < .75:
                reads.append(['repr'])
            elif r < .8:
                reads.append(['all'])
            elif r < .85:
                reads.append(['copy'])
            else:
                reads.append(query(rng, cfg))
        if reads:
            ev['op']['reads'] = [x for x in reads if x]
    return dict(cfg=cfg, events=evs, reuse=int(rng.chance(.4)))


def query(rng, cfg):
    k = cfg['kind']
    z = rng.vec(cfg['m'], 3.)
    u = rng.vec(cfg['l']) if cfg.get('B') is not None and rng.chance(.7) else None
    if k == 'kf':
        w = rng.choice(['prediction', 'update', 'residual', 'likelihood', 'measurement'])
        op = dict(z=z, u=u)
        if rng.chance(.4):
            op['form'] = rng.choice(['scalar', 'list', 'col', 'row', 'vec', 'tuple', '0d'])
        if w == 'prediction':
            for key, fn in (('F', lambda: G.mat_F(rng, cfg['n'])), ('Q', lambda: G.noise_Q(rng, cfg['n'], True))):
                if rng.chance(.4):
                    op[key] = fn()
            if u is not None and rng.chance(.3):
                op['B'] = rng.mat(cfg['n'], cfg['l'])
        return ['query', w, op]
    if k in ('fading', 'hinf'):
        return ['query', rng.choice(['prediction', 'residual', 'measurement']), dict(z=z, u=u)]
    if k == 'srkf':
        return ['query', rng.choice(['residual', 'measurement']), dict(z=z)]
    return None


def check_diag(node, ref, name, v, where, ctx):
    d = ref.diag
    if node.kind == 'enkf':
        return
    if name == 'likelihood':
        ll = d.log_likelihood
        g = float(num(v, name))
        if ll < -746:
            ctx.probe('floored')
            if g != TINY:
                raise Violation('diagnostic', 'likelihood %s is %r, expected the floor %r' % (where, g, TINY))
        elif ll < -700:
            if not 0 < g < 1e-300:
                raise Violation('diagnostic', 'likelihood %s is %r, expected about exp(%r)' % (where, g, ll))
        else:
            if not g > 0:
                raise Violation('diagnostic', 'likelihood %s is %r' % (where, g))
            close(math.log(g), ll, 1e-6, 1 + abs(ll), 'log of likelihood %s' % where, 'diagnostic')
        ctx.checks += 1
        return
    want = getattr(d, name, None)
    if want is None:
        return
    ctx.checks += 1
    tol = 1e-6
    scale = None
    if name == 'SI':
        scale = np.abs(want).max() * max(1., np.linalg.cond(d.S) * 1e-6)
    if name == 'log_likelihood':
        scale = 1 + abs(want)
    if name == 'mahalanobis':
        scale = 1e-3 + abs(want)
        v = float(num(v, name).ravel()[0]) if np.size(v) == 1 else v
    close(flat(v, name), np.ravel(want), tol, scale, '%s %s' % (name, where), 'diagnostic')


def known_diag(ref, name):
    d = ref.diag
    return d is not None and getattr(d, name, None) is not None


def live(ref, last, kind, name):
    """is name defined to describe the last processed measurement right now?"""
    return known_diag(ref, name)


def run(plan, ctx):
    cfg = plan['cfg']
    kind = cfg['kind']
    ops = stream(plan['events'], ctx, cfg)
    rs = PLANE.rs
    st = rs.get_state()
    a = nodes.make_node(cfg)
    a.reuse = plan.get('reuse')
    rs.set_state(st)
    b = nodes.make_node(cfg)
    ref = refs.make_ref(cfg) if kind != 'enkf' else None
    ctx.fault('outlier', int(sum(np.abs(op['z']).max() > 40 for op in ops if op.get('z'))))
    last = None              # last measurement-type step
    predicted = updated = False
    z = None
    for i, op in enumerate(ops):
        op = dict(op)
        reads = op.pop('reads', None) or []
        o = op['op']
        # an update straight after its predict, with the filter's own H
        direct = o == 'update' and op.get('H') is None and i > 0 and ops[i - 1]['op'] == 'predict'
        st = rs.get_state()
        a.do(op)
        rs.set_state(st)
        b.do(op)
        if ref is not None:
            ref.do(op)
        if o in ('predict', 'pss', 'pu'):
            predicted = True
        if o not in ('predict', 'pss', 'set', 'put'):
            last = o
            updated = True
        if o not in ('predict', 'pss', 'set', 'put'):
            z = op.get('z')
            if a.reuse and z:
                ctx.fault('buffer-reuse')
        if z and kind != 'proc' and hasattr(a.f, 'z'):
            close(flat(a.f.z, 'z'), np.ravel(z), 1e-12, None, 'the measurement z of %s after %s (step %d)' % (kind, o, i),
                  'diagnostic')
        if o == 'none':
            ctx.fault('gap')
        same_est(a.est(), b.est(), 'of %s after %s (step %d), compared with the run without reads' % (kind, o, i),
                 ctx, 1e-12, 'read-disturbed')
        where = 'of %s after %s (step %d)' % (kind, o, i)
        if ref is not None:
            # the last measurement's diagnostics can never have been touched by a predict
            if kind == 'proc':
                if o == 'update' and op.get('all'):
                    r = a.last
                    for name, v in zip(('y', 'K', 'S', 'log_likelihood'), r[2:6]):
                        check_diag(a, ref, name, v, where, ctx)
            for k, v in a.saved().items():
                if (k.endswith('_prior') and not predicted) or (k.endswith('_post') and not updated):
                    continue
                want = getattr(ref, k, None)
                if want is not None:
                    ctx.probe('prior' if 'prior' in k else 'post')
                    close(v, want, 1e-6, None, '%s %s' % (k, where), 'saved-estimate')
                    ctx.checks += 1
            if o == 'put' and op.get('inp'):
                ctx.probe('put-in-place')
            if kind in ('imm', 'mmae') and updated:
                for f, rf, lk in zip(a.f.filters, ref.fs, ref.lk if hasattr(ref, 'lk') else ()):
                    if lk > 1e-290 and known_diag(rf, 'log_likelihood'):
                        close(math.log(max(f.likelihood, TINY)), rf.diag.log_likelihood, 1e-6,
                              1 + abs(rf.diag.log_likelihood), 'log of a bank filter\'s likelihood ' + where,
                              'diagnostic')
                        ctx.checks += 1
        for r in reads:
            ctx.nontrivial = True
            snap = a.snapshot()
            do_read(a, ref, r, last, o, where, cfg, ctx, direct)
            for k, v in snap.items():
                same(a.est()[k], v, '%s of %s after reading %s' % (k, kind, r[:2]), 'read-disturbed', 0.)
        ctx.state(kind, o, last, tuple(tuple(r[:2]) if r[0] != 'query' else (r[0], r[1]) for r in reads))
    # finally: everything readable, in an order of its own, equals the undisturbed twin
    names = a.DIAG if kind != 'proc' else ()
    if updated:
        da = {k: getattr(a.f, k) for k in names}
        db = {k: getattr(b.f, k) for k in reversed(names)}
        for k in names:
            same(da[k], db[k], '%s of %s at the end, compared with the run without reads' % (k, kind),
                 'read-disturbed', 1e-9)
    ctx.arr(a.est()['x'])


def do_read(a, ref, r, last, o, where, cfg, ctx, direct):
    kind = a.kind
    if r[0] == 'repr':
        ctx.probe('print')
        if kind != 'proc':
            s = repr(a.f)
            if not isinstance(s, str):
                raise Violation('diagnostic', 'printing %s gives %r' % (kind, s))
    elif r[0] == 'copy':
        if kind != 'proc':
            copy.deepcopy(a.f)
    elif r[0] in ('diag', 'all'):
        if kind == 'proc':
            return
        for name in [r[1]] if r[0] == 'diag' else list(a.DIAG):
            ctx.probe('read')
            v = getattr(a.f, name)
            if o in ('predict', 'pss'):
                ctx.probe('read-after-predict')
            if o == 'none':
                ctx.probe('read-after-gap')
            if ref is not None and last is not None and live(ref, last, kind, name):
                check_diag(a, ref, name, v, where + ', read as %s' % name, ctx)
    elif r[0] == 'query':
        ask(a, ref, r[1], r[2], last, o, where, cfg, ctx, direct)


def ask(a, ref, w, op, last, o, where, cfg, ctx, direct):
    kind = a.kind
    ctx.probe('query-' + w)
    r = copy.deepcopy(ref)
    if w == 'prediction':
        out = a.q_prediction(op)
        if kind == 'hinf':
            if cfg.get('B') is not None and op.get('u') is None:
                op = dict(op, u=[0.] * cfg['l'])
            r.op_predict(dict(op, op='predict'))
            close(out, r.x, 1e-6, None, 'get_prediction ' + where, 'query')
        else:
            x, P = out
            r.op_predict(dict(op, op='predict'))
            close(x, r.x, 1e-6, None, 'get_prediction()[0] ' + where, 'query')
            close(P, r.P, 1e-6, None, 'get_prediction()[1] ' + where, 'query')
    elif w == 'update':
        x, P = a.q_update(op)
        r.op_update(dict(z=op['z'], op='update'))
        close(x, r.x, 1e-6, None, 'get_update()[0] ' + where, 'query')
        close(P, r.P, 1e-6, None, 'get_update()[1] ' + where, 'query')
    elif w == 'residual':
        if o != 'predict':
            return
        v = a.f.residual_of(a.z(dict(z=op['z'], form=op.get('form'))))
        close(v, np.ravel(op['z']) - r.H.dot(r.x), 1e-6, None, 'residual_of ' + where, 'query')
    elif w == 'measurement':
        x = np.resize(np.ravel(op['z']), r.x.shape) + 1.
        v = a.f.measurement_of_state(x[:, None] if a.col else x)
        close(v, r.H.dot(x), 1e-6, None, 'measurement_of_state ' + where, 'query')
    elif w == 'likelihood':
        if o != 'update' or not direct or len(op['z']) != len(r.diag.y):
            return               # documented to follow an update
        v = a.f.log_likelihood_of(a.z(dict(z=op['z'], form=op.get('form'))))
        want = refs.gauss_ll(np.ravel(op['z']) - r.H.dot(r.x_prior), r.diag.S)
        close(v, want, 1e-6, 1 + abs(want), 'log_likelihood_of ' + where, 'query')
    ctx.checks += 1
