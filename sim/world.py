"""What the worlds share: putting a node's operations on the simulated network."""
import numpy as np
from . import gen, net, refs
from .core import A, Violation, close, same

MEAS = ('update', 'corr', 'uss', 'pu', 'smooth', 'sense', 'seq')


def events_of(rng, ops, prof=None, mean_dt=.2):
    """spread operations over simulated time; give every measurement a link fate"""
    prof = prof or net.gen_profile(rng)
    t = 0.
    evs = []
    n = len(ops)
    part = None
    if prof['partition'] and n > 2:
        a = rng.randrange(n)
        part = (a, a + rng.randrange(1, max(2, n // 3)))
    for i, op in enumerate(ops):
        t = round(t + rng.choice([rng.f(.01, 2 * mean_dt), mean_dt, 0. if i else mean_dt]), 4)
        ev = dict(t=t, op=op)
        if op['op'] in MEAS:
            ev['fate'] = net.gen_fate(rng, prof, prof['jitter'])
            if part and part[0] <= i < part[1]:
                ev['fate'] = ['drop', 'partition']
        elif op['op'] == 'predict' and rng.chance(.08):
            ev['jump'] = rng.f(-3., 3.)          # the node's clock is stepped
        evs.append(ev)
    return evs


def chain(n, dt):
    """kinematic transition over dt"""
    F = np.eye(n)
    for i in range(n - 1):
        F[i, i + 1] = dt
        if i + 2 < n:
            F[i, i + 2] = dt * dt / 2
    return F.round(9).tolist()


def resolve(op, el, cfg):
    """an operation that asks for the elapsed time gets the node's reading of it"""
    op = dict(op)
    if op.pop('el', None):
        if cfg['kind'] in gen.NL:
            op['dt'] = min(.5, max(.01, el))
        elif op['op'] == 'predict' and 'F' in gen.PRED.get(cfg['kind'], ()):
            op['F'] = chain(cfg['n'], min(2., max(.01, el)))
    return op


def stream(events, ctx, cfg, insert=True, bounded=True):
    """run the network; the operations in the order the node executes them"""
    ops = []
    clock = [0., 0.]                 # node clock offset, last reading

    def local(now, ev):
        if ev.get('jump'):
            clock[0] += ev['jump']
            ctx.fault('clock-jump')
        act(now, ev['op'])

    def act(now, op):
        if op['op'] in ('predict', 'pss', 'pu'):
            r = now + clock[0]
            el = round(r - clock[1], 6)
            clock[1] = r
            op = resolve(op, el, cfg)
        ops.append(op)

    net.run_network([e if 'fate' in e else dict(e, tick=1) for e in events], ctx,
                    lambda now, ev: act(now, ev['op']), local)
    ops = screen(cfg, gen.legal(cfg, ops, insert))
    if bounded and len(ops) > 16:
        ops = tame(cfg, ops)
    ctx.steps += len(ops)
    for op in ops:
        ctx.probe(op['op'])
    return ops


def tame(cfg, ops):
    """a long history without a measurement of what grows: stop before rounding is all that is left of the digits"""
    fs = cfg['filters'] if cfg['kind'] in ('imm', 'mmae') else [cfg]
    if not all(f['kind'] in gen.LIN + ('flaky', 'fls') for f in fs):
        return ops
    r = refs.make_ref(cfg)
    most = max([3e4] + [30. * np.abs(np.array(f['P0'])).max() for f in fs])
    for i, op in enumerate(ops):
        for o in singles(op):
            if hasattr(r, 'op_' + o['op']):
                try:
                    r.do(o)
                except (np.linalg.LinAlgError, ValueError):
                    return ops[:i]
        for q in r.fs if hasattr(r, 'fs') else [r]:
            if not np.abs(q.P).max() <= most or not np.abs(q.x).max() <= most:
                return ops[:i]
    return ops


def screen(cfg, ops):
    """the unscented recursion may legitimately leave the positive definite cone
    (negative weights on a strong nonlinearity): stop where the reference does"""
    if cfg['kind'] == 'dbayes':
        # no belief is left once all of it was shifted past the edge
        r = refs.make_ref(cfg)
        for i, op in enumerate(ops):
            if op['op'] == 'sense' and not (r.b * np.array(op['like'])).sum() > 1e-9:
                return ops[:i]
            r.do(op)
        return ops
    if cfg['kind'] != 'ukfnl' and not (
            cfg['kind'] == 'ckfnl' and (cfg['p'].get('ax') or cfg['p'].get('az') or cfg.get('odd'))):
        return ops
    r = refs.make_ref(cfg)
    for i, op in enumerate(ops):
        if not all(sane(r, o) for o in singles(op)):
            return ops[:i]
    return ops


def singles(op):
    """a batch call as single steps"""
    if 'eps' not in op:
        return [op]
    out = []
    for e in op['eps']:
        out.append(dict(op='predict', **({'dt': e['dt']} if 'dt' in e else {})))
        out.append(dict(op='none') if e['z'] is None else
                   dict(op='update', z=e['z'], **({'R': e['R']} if 'R' in e else {})))
    return out


def sane(r, op):
    """step the reference; False when the recursion leaves its domain"""
    try:
        r.do(op)
        w = np.linalg.eigvalsh(r.P)
        if r.diag is not None:
            v = np.linalg.eigvalsh((r.diag.S + r.diag.S.T) / 2)
            if not v[0] > 1e-7 * v[-1]:
                return False
        # the mean of an angle known to no better than a turn is not defined
        p = getattr(r, 'p', {})
        if any(r.P[i, i] > 1. for i in p.get('ax') or ()) or (
                r.diag is not None and any(r.diag.S[i, i] > 2. for i in p.get('az') or ())):
            return False
        return w[0] > 1e-7 * w[-1] and np.isfinite(r.x).all() and w[-1] < 1e4
    except (np.linalg.LinAlgError, ValueError):
        return False


def add_elapsed(rng, cfg, ops, p=.3):
    for op in ops:
        if op['op'] == 'predict' and rng.chance(p) and op.get('F') is None:
            op['el'] = 1
    return ops


def signature(ops):
    """the interleaving a run realised: what happened in which order, features used"""
    return tuple((o['op'],) + tuple(sorted(k for k in o if k not in ('op', 'z', 'u', 'form'))) for o in ops)


def simplify_plan(plan):
    """calmer fates, then plainer operations"""
    for k, evs in (('events', plan.get('events')),):
        if not evs:
            continue
        for new in net.simplify_events(evs):
            yield dict(plan, **{k: new})
        for i, ev in enumerate(evs):
            if ev.get('jump'):
                yield dict(plan, **{k: evs[:i] + [{a: b for a, b in ev.items() if a != 'jump'}] + evs[i + 1:]})
            op = ev.get('op')
            for key in list(op or ()):
                if key in ('op', 'z', 'v', 'like', 'kernel', 'offset', 'start'):
                    continue
                if key in ('R', 'u') and op.get('H') is not None:
                    continue
                if key == 'H' and len(op.get('z', ())) != plan['cfg'].get('m'):
                    continue
                yield dict(plan, **{k: evs[:i] + [dict(ev, op={a: b for a, b in op.items() if a != key})]
                                    + evs[i + 1:]})


def cmp_est(node, ref, tol, what, ctx, keys=None):
    e = node.est()
    for k, v in ref.est().items():
        if keys is None or k in keys:
            close(e[k], v, tol, None, '%s of %s after %s' % (k, node.kind, what))
            ctx.checks += 1
    ctx.arr(e.get('x', 0.))
    return e


def same_est(a, b, what, ctx, tol=1e-9, kind='diverged'):
    for k in b:
        same(a[k], b[k], '%s %s' % (k, what), kind, tol)
        ctx.checks += 1
