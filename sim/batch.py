"""Batch processing: an epoch list run through batch_filter, and the same
epochs one at a time."""
import numpy as np
from . import gen as G, models, world
from .core import A
import filterpy.kalman.kalman_filter as kfmod

# per-epoch arguments each batch interface documents
ARGS = dict(kf=('F', 'Q', 'H', 'R', 'B', 'u'), proc=('F', 'Q', 'H', 'R', 'B', 'u'), ukf=('R', 'dt'),
            ukfnl=('R', 'dt'), fading=('R',), hinf=())
FIRST = ('kf', 'proc', 'fading', 'hinf')        # offer update_first
PRIORS = ('kf', 'proc', 'fading')               # return predictions too
SAVER = ('kf', 'proc', 'ukf', 'ukfnl', 'hinf')


def gen_cfg(rng, kind):
    cfg = G.gen_cfg(rng, kind)
    cfg.pop('float', None)
    if kind == 'proc':
        cfg.pop('alpha', None)
    if kind in ('fading', 'hinf'):
        cfg['col'] = True
        cfg.pop('B', None)
        cfg.pop('l', None)
    return cfg


def gen_epochs(rng, c, n, none=None, loose=True):
    """each argument is given for every epoch or for none, as the interface asks; loose: noises as plain numbers, or
    left to the filter in some epochs, where that is documented"""
    kind = c['kind']
    have = {}
    for k in ARGS[kind]:
        if k in ('B', 'u') and c.get('B') is None:
            continue
        have[k] = rng.chance(.4)
    if kind == 'proc':
        have.update({k: True for k in 'FQHR'})
    if have.get('B') and not have.get('u') and kind in ('kf', 'proc'):
        have['u'] = True
    if kind == 'proc' and c.get('B') is not None:
        have['B'] = have['u'] = True
    p = rng.choice([0., .15, .4]) if none is None else none
    eps = []
    vary = rng.wpick([(5, 1.), (2, .15), (3, 0.)])
    long = n > 40
    if long:
        vary = .04
    fixed = {}
    for i in range(n):
        e = dict(z=None if rng.chance(p) else rng.vec(c['m'], 1.5 if kind == 'ukfnl' else 3.))
        for k, on in have.items():
            if not on:
                continue
            if long and k in 'FHB':
                e[k] = c[k]
                continue
            if k in fixed and not rng.chance(vary):
                e[k] = fixed[k]
                continue
            if k == 'F':
                e[k] = G.mat_F(rng, c['n'])
            elif k == 'Q':
                e[k] = rng.spd(c['n'], .01, 2.)
            elif k == 'H':
                e[k] = G.mat_H(rng, c['m'], c['n'])
            elif k == 'R':
                e[k] = rng.spd(c['m'], .05, 5.)
                if loose and kind in ('kf', 'fading') and rng.chance(.2):
                    e[k] = rng.f(.05, 5.)
                if loose and kind == 'fading' and rng.chance(.3):
                    e[k] = None
            elif k == 'B':
                e[k] = rng.mat(c['n'], c['l'])
            elif k == 'u':
                e[k] = rng.vec(c['l'])
            elif k == 'dt':
                e[k] = G.interval(rng)
            if k != 'u':
                fixed[k] = e[k]
        eps.append(e)
    if rng.chance(.25) and eps:
        eps[0]['z'] = None
    if rng.chance(.2):
        for e, f in zip(eps, eps[1:]):
            if rng.chance(.15) and e['z'] is not None and f['z'] is not None:
                f['z'] = list(e['z']) if rng.chance(.6) else [0.] * c['m']
    if loose and kind == 'ukfnl' and rng.chance(.15):
        k = rng.f(1., 1.3)
        eps = [dict(e, UT=k) for e in eps]
    return eps


def screen(c, eps):
    if c['kind'] != 'ukfnl':
        return eps
    ops = [o for e in eps for o in ops_of(e, 'ukfnl', False)]
    return eps[:len(world.screen(c, ops)) // 2]


def hmeas(node, z, form=None):
    if z is None:
        return None
    if form == 'scalar' and len(z) == 1 and node.kind in ('kf', 'ukf', 'ukfnl', 'proc'):
        return float(z[0])
    z = node.laid(A(z))
    if node.kind in ('ukf', 'ukfnl') or (form == 'flat' and node.kind == 'kf'):
        return node.own('measurement', z)
    return node.own('measurement', z[:, None] if node.col else z)


def hlist(node, eps, form):
    if form == 'array' and node.kind in ('kf', 'ukf', 'ukfnl', 'proc') and all(e['z'] is not None for e in eps):
        return node.own('measurement array', node.laid(A([e['z'] for e in eps])))
    return node.own('measurement list', [hmeas(node, e['z'], form) for e in eps])


def intervals(node, eps):
    """one number where all epochs last as long, as some users would write it"""
    dts = [e['dt'] for e in eps]
    if len(set(dts)) == 1 and round(dts[0] * 1e4) % 2:
        return dts[0]
    return node.own('dts', dts)


def run_batch(node, eps, first=False, saver=None, form=None):
    """-> dict of per-epoch arrays; the node is left as the batch call leaves it"""
    kind, c, f = node.kind, node.cfg, node.f
    zs = hlist(node, eps, form)

    def per(k):
        if not eps or k not in eps[0]:
            return None
        if k == 'dt':
            return intervals(node, eps)
        if k == 'u':
            return [node.vec(e[k], 'control') for e in eps]
        vs = [node.g(e[k], k) for e in eps]
        if form in ('array', 'stack') and all(np.ndim(v) == 2 for v in vs) and len(set(v.shape for v in vs)) == 1:
            if k == 'H' and kind == 'kf' and all((v == vs[0]).all() for v in vs):
                return vs[0]
            vs = node.laid(np.array(vs))
        return node.own(k + 's', vs)
    if kind == 'kf':
        kw = {k + 's': per(k) for k in ARGS[kind] if eps and k in eps[0]}
        if saver is not None:
            kw['saver'] = saver
        r = f.batch_filter(zs, update_first=first, **kw)
    elif kind == 'proc':
        kw = {}
        if eps and 'u' in eps[0]:
            kw = dict(us=per('u'), Bs=per('B'))
        if saver is not None:
            kw['saver'] = saver
        F, Q, H, R = [per(k) if eps else [] for k in 'FQHR']
        r = kfmod.batch_filter(f.x, f.P, zs, F, Q, H, R,
                               update_first=first, **kw)
        if len(eps):
            i = 2 if first else 0
            f.x, f.P = r[i][-1], r[i + 1][-1]
    elif kind in ('ukf', 'ukfnl'):
        kw = {}
        if saver is not None:
            kw['saver'] = saver
        if eps and eps[0].get('UT'):
            kw['UT'] = models.UT(eps[0]['UT'])
        r = f.batch_filter(zs, Rs=per('R'), dts=per('dt'), **kw)
    elif kind == 'fading':
        r = f.batch_filter(zs, Rs=per('R'), update_first=first)
    elif kind == 'hinf':
        r = f.batch_filter(zs, update_first=first, **({} if saver is None else dict(saver=saver)))
    if not eps:
        return {}, r
    out = dict(x=np.array(r[0]).reshape(len(eps), -1), P=np.array(r[1]))
    if kind in PRIORS:
        out['xp'], out['Pp'] = np.array(r[2]).reshape(len(eps), -1), np.array(r[3])
    return out, r


def ops_of(e, kind, first):
    """one epoch as single steps"""
    p = dict(op='predict')
    for k in ('F', 'Q', 'B', 'u', 'dt', 'UT'):
        if k in e:
            p[k] = e[k]
    if e['z'] is None:
        u = dict(op='none')
    else:
        u = dict(op='update', z=e['z'])
        for k in ('R', 'H', 'UT'):
            if e.get(k) is not None:
                u[k] = e[k]
    return [u, p] if first else [p, u]


def run_steps(node, eps, first=False, skip_none=False, saver=None):
    """the same epochs one call at a time; skip_none leaves the calls out"""
    out = dict(x=[], P=[], xp=[], Pp=[])

    def note(kx, kp):
        e = node.est()
        out[kx].append(np.ravel(e['x']).astype(float))
        out[kp].append(np.array(e['P'], float))
    for e in eps:
        ops = {o['op'] == 'predict': o for o in ops_of(e, node.kind, first)}
        for pred in ((False, True) if first else (True, False)):
            if pred:
                node.do(ops[True])
                note('xp', 'Pp')
            else:
                if not (skip_none and e['z'] is None):
                    node.do(ops[False])
                note('x', 'P')
        if saver is not None:
            saver.save()
    return {k: np.array(v) for k, v in out.items()}
