"""C12: fixed-interval smoothers return the exact posterior given the whole log."""
import copy
import numpy as np
from sim import batch, gen as G, net, nodes, refs
from sim.boot import PLANE
from sim.core import A, Violation, close, same
import filterpy.kalman.kalman_filter as kfmod

RUNS = 16000
LISTS = ['epochs']
MINLEN = {'epochs': 1}
RULE = ('seeded linear model with per-epoch transitions, noises, measurement matrices and intervals, delivered log with '
        'losses, smoothed by the class, procedural or unscented smoother from a batch or step-by-step filtered log, '
        'sometimes with a matrix inverse failing inside the smoother before a retry; non-trivial when a measurement '
        'was lost, a per-epoch model was in force or a fault fired')
STATES = 'distinct (smoother, source of the filtered log, gap pattern, per-epoch arguments, failing call)'
REAL = ['KalmanFilter.rts_smoother, procedural rts_smoother, UnscentedKalmanFilter.rts_smoother, and the filters that '
        'produce their input']
STUB = ['sensors and network', 'callbacks of the unscented filter', 'matrix inverses (pass-through, fail on command)']
FAULTS = ['loss', 'partition', 'numpy.linalg.inv', 'fx', 'scipy.linalg.cholesky']
PROBES = ['kf', 'proc', 'ukf', 'class-on-proc-log', 'stepped', 'pinv', 'retry', 'intervals', 'even-intervals', 'stacked-models']
ASSUME = ['models are drawn well conditioned; no control input (the smoothers take none)']


def gen(rng, tier):
    kind = rng.choice(['kf', 'kf', 'proc', 'ukf'])
    cfg = G.gen_lin(rng, kind)
    for k in ('alpha', 'float', 'B', 'l', 'inv', 'xint'):
        cfg.pop(k, None)
    n = rng.choice([70, 70, 140]) if rng.chance(.015) and G.settles(cfg) else rng.choice([1, 2, 3, 5, 9] + ([25] if tier == 'thorough' or rng.chance(.04) else []))
    prof = net.gen_profile(rng)
    prof['dup'] = 0
    eps = batch.gen_epochs(rng, cfg, n, 0., False)
    part = rng.randrange(n) if prof['partition'] else n
    for i, e in enumerate(eps):
        f = net.gen_fate(rng, prof, 0.)
        if i >= part and i < part + 3:
            e['lost'] = 'partition'
        elif f[0] == 'drop':
            e['lost'] = 'loss'
    if rng.chance(.1):
        cfg['layout'] = rng.choice(['F', 'part'])
    if kind == 'ukf' and n < 40 and rng.chance(.6):
        cfg['A'] = (np.array(rng.mat(cfg['n'], cfg['n'], .5)) - .4 * np.eye(cfg['n'])).round(4).tolist()
        cfg['dt'] = rng.f(.1, .8)
    return dict(cfg=cfg, epochs=eps, how=rng.choice(['batch', 'batch', 'step']), cross=int(rng.chance(.2)),
                pinv=int(rng.chance(.15)), stack=int(rng.chance(.3)), fault=rng.f(0, 1) if rng.chance(.25) else None)


def simplify(plan):
    for k in ('cross', 'pinv', 'stack'):
        if plan.get(k):
            yield dict(plan, **{k: 0})
    if plan['how'] != 'batch':
        yield dict(plan, how='batch')
    if plan['fault'] is not None:
        yield dict(plan, fault=None)
    eps = plan['epochs']
    for i, e in enumerate(eps):
        if e.get('lost'):
            yield dict(plan, epochs=eps[:i] + [{k: v for k, v in e.items() if k != 'lost'}] + eps[i + 1:])
    for k in ('FQHR' if plan['cfg']['kind'] == 'kf' else 'R'):
        if k in eps[0]:
            yield dict(plan, epochs=[{a: b for a, b in e.items() if a != k} for e in eps])


def dense(cfg, eps):
    """means and covariances of every state given all measurements: one joint Gaussian"""
    n = cfg['n']
    ks = len(eps)
    F, Q = [], []
    for e in eps:
        if cfg.get('A') is not None:
            F.append(np.eye(n) + (e['dt'] if 'dt' in e else cfg['dt']) * A(cfg['A']))
        else:
            F.append(A(e.get('F', cfg['F'])))
        Q.append(A(e.get('Q', cfg['Q'])))
    if ks > 12:
        return banded(cfg, eps, F, Q) + (F, Q)
    # the states are T (x0, w1 .. wk)
    N = n * (ks + 1)
    C = np.zeros((N, N))
    C[:n, :n] = A(cfg['P0'])
    T = np.zeros((n * ks, N))
    row = np.zeros((n, N))
    row[:, :n] = np.eye(n)
    m0 = A(cfg['x0'])
    mean = []
    for i in range(ks):
        C[n * (i + 1):n * (i + 2), n * (i + 1):n * (i + 2)] = Q[i]
        row = F[i].dot(row)
        row[:, n * (i + 1):n * (i + 2)] += np.eye(n)
        T[n * i:n * (i + 1)] = row
        m0 = F[i].dot(m0)
        mean.append(m0)
    mean = np.concatenate(mean)
    P = T.dot(C).dot(T.T)
    Hs, zs, Rs = [], [], []
    for i, e in enumerate(eps):
        if e['z'] is None:
            continue
        m = len(e['z'])
        H = np.zeros((m, n * ks))
        H[:, n * i:n * (i + 1)] = A(e.get('H', cfg['H']))
        Hs.append(H)
        zs.append(A(e['z']))
        Rs.append(refs.mat(e.get('R', cfg['R']), m))
    if Hs:
        H, z = np.vstack(Hs), np.concatenate(zs)
        R = np.zeros((len(z), len(z)))
        k = 0
        for r in Rs:
            R[k:k + len(r), k:k + len(r)] = r
            k += len(r)
        G_ = P.dot(H.T)
        S = H.dot(G_) + R
        K = refs.solve(S, G_.T).T
        mean = mean + K.dot(z - H.dot(mean))
        P = P - K.dot(G_.T)
    return (mean.reshape(ks, n), np.array([P[n * i:n * (i + 1), n * i:n * (i + 1)] for i in range(ks)]), F, Q)


def banded(cfg, eps, F, Q):
    """the same joint Gaussian from its inverse covariance, which stays well conditioned over a long log"""
    n, ks = cfg['n'], len(eps)
    L = np.zeros((n * ks, n * ks))
    b = np.zeros(n * ks)
    W = np.linalg.inv(F[0].dot(A(cfg['P0'])).dot(F[0].T) + Q[0])
    L[:n, :n] = W
    b[:n] = W.dot(F[0].dot(A(cfg['x0'])))
    for i in range(1, ks):
        W = np.linalg.inv(Q[i])
        D = np.hstack([-F[i], np.eye(n)])
        s = slice(n * (i - 1), n * (i + 1))
        L[s, s] += D.T.dot(W).dot(D)
    for i, e in enumerate(eps):
        if e['z'] is None:
            continue
        s = slice(n * i, n * (i + 1))
        H = A(e.get('H', cfg['H']))
        W = H.T.dot(np.linalg.inv(refs.mat(e.get('R', cfg['R']), len(e['z']))))
        L[s, s] += W.dot(H)
        b[s] += W.dot(A(e['z']))
    P = np.linalg.inv(L)
    return P.dot(b).reshape(ks, n), np.array([P[n * i:n * (i + 1), n * i:n * (i + 1)] for i in range(ks)])


def run(plan, ctx):
    cfg = plan['cfg']
    kind = cfg['kind']
    eps = [dict(e) for e in plan['epochs']]
    for e in eps:
        lost = e.pop('lost', None)
        if lost:
            e['z'] = None
            ctx.fault(lost)
    n, ks = cfg['n'], len(eps)
    if len(eps[0]) > 1:
        ctx.nontrivial = True
    node = nodes.make_node(cfg)
    if plan['how'] == 'batch':
        out, raw = batch.run_batch(node, eps)
        xs, Ps = raw[0], raw[1]
    else:
        ctx.probe('stepped')
        out = batch.run_steps(node, eps)
        shape = (ks, n, 1) if node.col and kind != 'ukf' else (ks, n)
        xs, Ps = out['x'].reshape(shape), out['P']
    ctx.steps += 2 * ks
    if cfg.get('layout'):
        xs, Ps = node.laid(np.asarray(xs)), node.laid(np.asarray(Ps))
    node.own('filtered means', xs)
    node.own('filtered covariances', Ps)
    before = node.snapshot()
    fl = [node.g(e.get('F', cfg['F']), 'F') for e in eps]
    ql = [node.g(e.get('Q', cfg['Q']), 'Q') for e in eps]
    if plan.get('stack'):
        fl, ql = node.laid(np.array(fl)), node.laid(np.array(ql))
        ctx.probe('stacked-models')
    kw = {}
    if plan['pinv'] and kind == 'kf':
        kw['inv'] = np.linalg.pinv
        ctx.probe('pinv')
    which = kind
    if plan['cross'] and kind in ('kf', 'proc'):
        which = 'proc' if kind == 'kf' else 'kf'
    if which == 'kf':
        if kind == 'proc':
            ctx.probe('class-on-proc-log')
            f = nodes.make_node(dict(cfg, kind='kf')).f
        else:
            f = node.f
        if 'F' in eps[0]:
            kw['Fs'] = node.own('Fs', fl)
        if 'Q' in eps[0]:
            kw['Qs'] = node.own('Qs', ql)
        call = lambda: f.rts_smoother(xs, Ps, **kw)                       # noqa: E731
    elif which == 'proc':
        call = lambda: kfmod.rts_smoother(xs, Ps, node.own('Fs', fl), node.own('Qs', ql))      # noqa: E731
    else:
        if 'dt' in eps[0]:
            kw['dts'] = batch.intervals(node, eps)
            if not isinstance(kw['dts'], list):
                ctx.probe('even-intervals')
            if cfg.get('A') is not None:
                ctx.probe('intervals')
        if ks % 2:
            kw['Qs'] = node.own('Qs', ql)
        call = lambda: node.f.rts_smoother(xs, Ps, **kw)                  # noqa: E731
    ctx.probe(which)
    fired = None
    if plan['fault'] is not None and ks > 1:
        PLANE.arm(None)
        try:
            first = call()
        finally:
            sites, _ = PLANE.disarm()
        if sites:
            at = min(int(plan['fault'] * len(sites)), len(sites) - 1)
            fired = sites[at]
            PLANE.arm(at)
            err = None
            try:
                call()
            except Exception as e:
                err = e
            finally:
                PLANE.disarm()
            ctx.fault(fired)
            ctx.probe('retry')
            if err is None:
                raise Violation('failure-swallowed', 'the %s smoother returned normally although %s failed'
                                % (which, fired))
            check_left_alone(node, before, 'a failing %s smoother' % which, ctx)
    r = call()
    if fired:
        for a, b in zip(r, first):
            same(np.array(a), np.array(b), 'result of a %s smoother retried after a failure' % which, 'retry', 1e-12)
    check_left_alone(node, before, 'the %s smoother' % which, ctx)
    sx, sP = np.array(r[0], float).reshape(ks, n), np.array(r[1], float)
    x, P, F, Q = dense(cfg, eps)
    tol = 1e-6
    for k in range(ks):
        w = 'at epoch %d of %d against the joint posterior (%s smoother, %s)' % (k, ks, which, plan['how'])
        close(sx[k], x[k], tol, 1e-3 + np.abs(x).max(), 'smoothed mean ' + w, 'not-the-posterior')
        close(sP[k], P[k], tol, 1e-3 + np.abs(P).max(), 'smoothed covariance ' + w, 'not-the-posterior')
        ctx.checks += 2
    same(sx[-1], np.array(xs[-1], float).ravel(), 'last smoothed mean', 'last-differs')
    same(sP[-1], np.array(Ps[-1], float), 'last smoothed covariance', 'last-differs')
    fP = np.array(Ps, float)
    for k in range(ks - 1):
        Pp = F[k + 1].dot(fP[k]).dot(F[k + 1].T) + Q[k + 1]
        K = refs.solve(Pp.T, F[k + 1].dot(fP[k].T)).T
        close(r[2][k], K, tol, 1e-2 + np.abs(K).max(), 'smoother gain %d (%s)' % (k, which), 'gain')
        if which != 'ukf':
            close(r[3][k], Pp, tol, None, 'predicted covariance %d (%s)' % (k, which), 'gain')
        ctx.checks += 2
    ctx.arr(sx)
    ctx.state(which, kind, plan['how'], tuple(e['z'] is None for e in eps), tuple(sorted(eps[0])), fired)


def check_left_alone(node, before, what, ctx):
    for k, v in before.items():
        same(np.array(node.est()[k], float), np.array(v, float), '%s of the filter after %s' % (k, what),
             'filter-changed', 0.)
        ctx.checks += 1
    node.check_given()
