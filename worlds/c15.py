"""C15: simultaneous measurements may arrive in any order and grouping."""
import numpy as np
from sim import gen as G, nodes, refs
from sim.core import A, close
from sim.net import Sim

RUNS = 22000
LISTS = ['epochs', 'variants', 'epochs.*.msgs']
KINDS = ('kf', 'kf', 'kf', 'proc', 'ekf', 'srkf', 'inf', 'fading', 'ckf', 'ukf')
RULE = ('several sensors with independent noise report each instant over links with seeded delay and loss; the same '
        'arrivals are processed one at a time in arrival order, in sensor order and reversed, jointly in two orders, in a '
        'seeded partition, component by component and through update_sequential; non-trivial when some arrival order '
        'differed from the sensor order or a report was lost')
STATES = 'distinct (filter form, arrival order and losses of each instant)'
REAL = ['KalmanFilter (update, update_sequential)', 'procedural update', 'ExtendedKalmanFilter', 'SquareRootKalmanFilter',
        'InformationFilter', 'FadingKalmanFilter', 'CubatureKalmanFilter',
        'UnscentedKalmanFilter (compute_process_sigmas between updates, as documented)']
STUB = ['sensors, network and clocks (simulated)', 'linear callbacks of the EKF, UKF and CKF']
FAULTS = ['reorder', 'loss', 'gap']
PROBES = ['sigma-points', 'arrival', 'sorted', 'reversed', 'joint', 'joint-sorted', 'partition', 'components', 'sequential',
          'sequential-args', 'correlated-sensor', 'precise']
ASSUME = ['noise of different sensors is independent; models are linear, so the answer is unique']
FIXED = ('srkf', 'inf', 'fading', 'ckf')


def gen(rng, tier):
    kind = rng.choice(KINDS)
    cfg = G.gen_cfg(rng, kind)
    cfg.pop('float', None)
    cfg.pop('inv', None)
    n = cfg['n']
    K = rng.randint(2, 4)
    uniform = kind in FIXED or rng.chance(.4)
    q = rng.choice([1, 1, 2])
    precise = rng.chance(.2)
    sensors = []
    for _ in range(K):
        m = q if uniform else rng.choice([1, 1, 2, 3])
        R = G.noise_R(rng, m, False)
        if precise and rng.chance(.5):
            R = (1e-2 * A(R)).tolist()
        if rng.chance(.5):
            R = np.diag(np.diag(A(R))).tolist()
        sensors.append(dict(m=m, H=G.mat_H(rng, m, n), R=R))
    k = rng.randint(2, K)                   # reports per instant, where the form fixes it
    epochs = []
    mix = G.Mix(rng, set=0.)
    loss = rng.choice([0., .2, .5])
    for _ in range(rng.choice([1, 2, 4, 8] + ([20] if tier == 'thorough' or rng.chance(.04) else []))):
        ids = rng.sample(range(K), k) if kind in FIXED else [i for i in range(K) if not rng.chance(loss)]
        if rng.chance(.1):
            ids = []
        e = dict(predict=G.op_predict(rng, cfg, kind, mix),
                 msgs=[[i, rng.f(0., .2), rng.vec(sensors[i]['m'], 3.)] for i in ids],
                 cut=rng.randrange(1 << 16))
        epochs.append(e)
    vs = ['arrival', 'joint']
    vs += rng.sample(['sorted', 'reversed', 'joint-sorted', 'partition', 'components', 'sequential', 'sequential-args'], 4)
    return dict(cfg=cfg, sensors=sensors, k=k, epochs=epochs, precise=precise,
                variants=[dict(name=v, attr=rng.chance(.5), seed=rng.randrange(1 << 16)) for v in vs])


def simplify(plan):
    for i, v in enumerate(plan['variants']):
        if v['attr']:
            yield dict(plan, variants=plan['variants'][:i] + [dict(v, attr=False)] + plan['variants'][i + 1:])
    c = plan['cfg']
    for k in ('B', 'alpha', 'xint'):
        if k in c:
            p = dict(plan, cfg={a: b for a, b in c.items() if a != k})
            if k == 'B':
                p['epochs'] = [dict(e, predict={a: b for a, b in e['predict'].items() if a not in 'uB'})
                               for e in plan['epochs']]
            yield p
    for i, e in enumerate(plan['epochs']):
        if len(e['predict']) > 1:
            yield dict(plan, epochs=plan['epochs'][:i] + [dict(e, predict=dict(op='predict'))] + plan['epochs'][i + 1:])


def block(ms, sensors, key):
    if key == 'z':
        return [v for _, _, z in ms for v in z]
    if key == 'H':
        return [r for i, _, _ in ms for r in sensors[i]['H']]
    m = sum(sensors[i]['m'] for i, _, _ in ms)
    R = np.zeros((m, m))
    k = 0
    for i, _, _ in ms:
        a = sensors[i]['m']
        R[k:k + a, k:k + a] = sensors[i]['R']
        k += a
    return R.tolist()


def size_of(name, plan):
    """how many components each update of this variant has, None when that varies"""
    ms = set(s['m'] for s in plan['sensors'])
    if name == 'components':
        return 1
    if len(ms) > 1:
        return None
    q = ms.pop()
    if name in ('arrival', 'sorted', 'reversed'):
        return q
    if name in ('joint', 'joint-sorted') and plan['cfg']['kind'] in FIXED:
        return q * plan['k']
    return None


def run(plan, ctx):
    cfg = plan['cfg']
    kind, n = cfg['kind'], cfg['n']
    sensors = plan['sensors']
    diagonal = all(np.count_nonzero(A(s['R']) - np.diag(np.diag(A(s['R'])))) == 0 for s in sensors)
    if not diagonal:
        ctx.probe('correlated-sensor')
    if plan['precise']:
        ctx.probe('precise')
    total = sum(s['m'] for s in sensors)
    act = []
    for v in plan['variants']:
        name = v['name']
        if name == 'components' and not diagonal:
            continue
        if name.startswith('sequential') and kind != 'kf':
            continue
        if name == 'partition' and kind in FIXED:
            continue
        m = size_of(name, plan)
        attr = (v['attr'] and m is not None) or kind in FIXED
        if name.startswith('sequential'):
            m, attr = total, False
        c = dict(cfg, m=m or total)
        c['H'] = np.zeros((c['m'], n)).tolist() if m != total else block([[i, 0, 0] for i in range(len(sensors))], sensors, 'H')
        c['R'] = np.eye(c['m']).tolist() if m != total else block([[i, 0, 0] for i in range(len(sensors))], sensors, 'R')
        act.append((name, attr, np.random.RandomState(v['seed']), nodes.make_node(c)))
    ref = refs.make_ref(dict(cfg, m=total, H=np.zeros((total, n)).tolist(), R=np.eye(total).tolist()))
    hist = []
    for t, e in enumerate(plan['epochs']):
        sent = e['msgs']
        if kind in FIXED and len(sent) != plan['k']:
            sent = []
        got = []
        sim = Sim()
        for msg in sent:
            sim.at(msg[1], lambda msg=msg: got.append(msg))
        sim.run()
        ctx.simtime += sim.now + 1.
        order = [i for i, _, _ in got]
        if not got:
            ctx.fault('gap')
        if len(got) < len(sensors):
            ctx.fault('loss', len(sensors) - len(got))
        if order != sorted(order):
            ctx.fault('reorder')
        hist.append(tuple(order))
        ref.do(e['predict'])
        if got:
            ref.do(dict(op='update', z=block(got, sensors, 'z'), H=block(got, sensors, 'H'), R=block(got, sensors, 'R')))
        for name, attr, rs, node in act:
            node.do(e['predict'])
            srt = sorted(got, key=lambda g: g[0])
            if name == 'arrival':
                groups = [[g] for g in got]
            elif name == 'sorted':
                groups = [[g] for g in srt]
            elif name == 'reversed':
                groups = [[g] for g in got[::-1]]
            elif name == 'joint':
                groups = [got]
            elif name == 'joint-sorted':
                groups = [srt]
            elif name == 'partition':
                groups = [[]]
                for g in (got if rs.randint(2) else srt):
                    groups[-1].append(g)
                    if rs.randint(2):
                        groups.append([])
            if kind in G.SIGMA and len(got) > 1:
                ctx.probe('sigma-points')
            if name.startswith('sequential'):
                sequential(node, name, got, sensors, rs)
            elif name == 'components':
                for i, d, z in got:
                    for j in rs.permutation(len(z)):
                        one(node, attr, [z[j]], [sensors[i]['H'][j]], [[sensors[i]['R'][j][j]]])
            else:
                for g in groups:
                    if g:
                        one(node, attr, block(g, sensors, 'z'), block(g, sensors, 'H'), block(g, sensors, 'R'))
            ctx.probe(name)
            ctx.steps += 1
            for k, v in ref.est().items():
                s = 1. + np.abs(ref.x).max()
                if k == 'P':
                    s = max(1e-3, np.abs(ref.P).max(), (1e-3 if plan['precise'] else 0.) * np.abs(ref.P_prior).max())
                close(node.est()[k], v, 1e-5 if plan['precise'] else 1e-6, s, '%s of %s processing instant %d as %s (arrivals %s)'
                      % (k, kind, t, name, order), 'order-dependent')
                ctx.checks += 1
            ctx.arr(node.est()['x'])
    ctx.state(kind, tuple(hist))


def one(node, attr, z, H, R):
    if node.kind == 'ukf':
        node.do(dict(op='points'))
    if attr:
        if node.kind in FIXED and node.kind != 'fading':
            node.do(dict(op='set', v=dict(H=H)))
            node.do(dict(op='update', z=z, R=R))
        else:
            node.do(dict(op='set', v=dict(H=H, R=R)))
            node.do(dict(op='update', z=z))
    else:
        node.do(dict(op='update', z=z, H=H, R=R))


def sequential(node, name, got, sensors, rs):
    """blocks of the filter's own joint measurement, in arrival order"""
    starts = np.concatenate([[0], np.cumsum([s['m'] for s in sensors])])
    for i, d, z in got:
        a = int(starts[i])
        cut = [(0, len(z))]
        R = A(sensors[i]['R'])
        if len(z) > 1 and np.count_nonzero(R - np.diag(np.diag(R))) == 0 and rs.randint(2):
            k = int(rs.randint(1, len(z)))
            cut = [(0, k), (k, len(z))]
            if rs.randint(2):
                cut = cut[::-1]
        for lo, hi in cut:
            op = dict(op='seq', start=a + lo, z=z[lo:hi], form=['col', 'vec', 'scalar', 'list'][rs.randint(4)])
            if name == 'sequential-args':
                op['H'] = [r for r in sensors[i]['H'][lo:hi]]
                op['R'] = float(R[lo, lo]) if hi - lo == 1 and rs.randint(2) else R[lo:hi, lo:hi].tolist()
            node.do(op)
