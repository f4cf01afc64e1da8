"""C05: batch processing equals streaming under any chunking."""
import copy
import numpy as np
from sim import batch, gen as G, nodes, refs
from sim.core import A, Violation, close, same
from sim.world import same_est
from filterpy.common import Saver

RUNS = 16000
LISTS = ['epochs', 'chunks']
KINDS = ('kf', 'kf', 'kf', 'proc', 'proc', 'ukf', 'ukfnl', 'fading', 'hinf', 'gh', 'ghk')
RULE = ('seeded filter, epoch list with per-epoch models, gaps and controls, step order, and a seeded split of '
        'the log into batch calls and single steps (chunk boundaries stand for restarts of the feeding process); '
        'non-trivial when the log was split, has gaps, or carries per-epoch arguments')
STATES = 'distinct (filter form, order, chunking, gap pattern, per-epoch arguments)'
REAL = ['batch_filter of KalmanFilter, procedural, UnscentedKalmanFilter, FadingKalmanFilter, HInfinityFilter, '
        'GHFilter, GHKFilter; filterpy.common.Saver']
STUB = ['the feed (simulated)', 'user callbacks']
FAULTS = ['gap', 'feed-split']
PROBES = ['update-first', 'saver', 'per-epoch', 'batch-then-step', 'empty-chunk', 'array-log', 'scalar-log', 'stack-log', 'custom-transform', 'noise-left-out']


class Counter(object):
    """recorder for the function-style batch: only counts"""

    def __init__(self):
        self.n = 0

    def save(self):
        self.n += 1

    def __len__(self):
        return self.n


def gen(rng, tier):
    kind = rng.choice(KINDS)
    if kind in ('gh', 'ghk'):
        n = G.length(rng, tier, [1, 2, 4, 8, 12], 40, 200)
        cfg = G.gen_track(rng, kind)
        cfg['s'] = [rng.norm() for _ in cfg['s']]
        return dict(cfg=cfg, zs=rng.vec(n, 3.), chunks=chunks(rng, n), saver=int(rng.chance(.5)), form=None,
                    predictions=int(rng.chance(.5)))
    cfg = batch.gen_cfg(rng, kind)
    n = G.length(rng, tier, [1, 2, 4, 8, 12], 40, 200, cfg)
    if rng.chance(.015) and kind in G.LIN and G.settles(cfg):
        n = 70
    return dict(cfg=cfg, epochs=batch.gen_epochs(rng, cfg, n), chunks=chunks(rng, n),
                first=int(kind in batch.FIRST and rng.chance(.45)), saver=int(rng.chance(.5)),
                form=rng.choice([None, None, 'array', 'scalar', 'flat', 'stack']))


def chunks(rng, n):
    out = []
    while n > 0:
        k = rng.choice([1, 2, n, rng.randint(1, n)])
        k = min(k, n)
        out.append([k, rng.choice(['batch', 'batch', 'step'])])
        if rng.chance(.05):
            out.append([0, 'batch'])
        n -= k
    return out


def simplify(plan):
    for k in ('first', 'saver', 'form', 'predictions'):
        if plan.get(k):
            yield dict(plan, **{k: None if k == 'form' else 0})
    if plan.get('chunks') and len(plan['chunks']) > 1:
        yield dict(plan, chunks=[[10 ** 6, 'batch']])
    eps = plan.get('epochs')
    if eps:
        for k in ('F', 'Q', 'H', 'R', 'B', 'u', 'UT'):
            if k in eps[0]:
                new = [{a: b for a, b in e.items() if a != k} for e in eps]
                if not (plan['cfg']['kind'] == 'proc') and not (k == 'u' and 'B' in eps[0]):
                    yield dict(plan, epochs=new)
        for i, e in enumerate(eps):
            if e['z'] is None:
                yield dict(plan, epochs=eps[:i] + [dict(e, z=[1.] * plan['cfg']['m'])] + eps[i + 1:])


def recorder(node, plan):
    if not plan['saver'] or node.kind not in batch.SAVER + ('gh',):
        return None
    return Counter() if node.kind == 'proc' else Saver(node.f)


def run(plan, ctx):
    cfg = plan['cfg']
    kind = cfg['kind']
    if kind in ('gh', 'ghk'):
        return run_gh(plan, ctx)
    eps = batch.screen(cfg, plan['epochs'])
    first = plan['first']
    if not eps:
        return
    gaps = sum(e['z'] is None for e in eps)
    ctx.fault('gap', gaps)
    ctx.steps += 4 * len(eps)
    if len(eps[0]) > 1:
        ctx.probe('per-epoch')
        ctx.nontrivial = True
    if first:
        ctx.probe('update-first')
    if eps[0].get('UT'):
        ctx.probe('custom-transform')
    if any(e.get('R', 1) is None for e in eps):
        ctx.probe('noise-left-out')
    form = plan['form']
    if 'H' in eps[0] and form != 'stack':
        form = None              # with a per-epoch H the measurement's shape is the caller's affair
    if form in ('array', 'scalar', 'stack'):
        ctx.probe(form + '-log')
    # one step at a time
    s = nodes.make_node(cfg)
    want = batch.run_steps(s, eps, first)
    fin = final(s, eps)
    # one batch
    b = nodes.make_node(cfg)
    rec = recorder(b, plan)
    got, raw = batch.run_batch(b, eps, first, rec, form)
    for k in got:
        close(got[k], want[k], 1e-9, None, '%s of one %s batch against single steps' % (k, kind), 'batch-differs')
        ctx.checks += 1
    compare_final(b, fin, 'after one %s batch' % kind, ctx)
    if rec is not None:
        ctx.probe('saver')
        if len(rec) != len(eps):
            raise Violation('recorder-count', 'the recorder attached to a %s batch of %d epochs has %d entries'
                            % (kind, len(eps), len(rec)))
        if kind != 'proc':
            k = 'xp' if first else 'x'
            if kind in ('hinf', 'ukf', 'ukfnl') and first:
                k = 'xp'
            close(np.array([np.ravel(v) for v in rec.x]), want[k], 1e-9, None,
                  'states recorded during a %s batch' % kind, 'recorder-values')
    # any split
    c = nodes.make_node(cfg)
    i = 0
    pieces = {k: [] for k in got}
    rec = recorder(c, plan)
    nrec = 0
    for size, mode in plan['chunks']:
        part = eps[i:i + size]
        i += len(part)
        if not part:
            if size == 0 and kind not in ('ukf', 'ukfnl', 'proc'):
                ctx.probe('empty-chunk')
                batch.run_batch(c, [], first, rec)
            continue
        ctx.fault('feed-split')
        if mode == 'batch':
            out, _ = batch.run_batch(c, part, first, rec, form)
            nrec += len(part)
        else:
            ctx.probe('batch-then-step')
            out = batch.run_steps(c, part, first)
        for k in pieces:
            pieces[k].append(out[k])
    if i < len(eps):
        out, _ = batch.run_batch(c, eps[i:], first, rec, form)
        nrec += len(eps) - i
        for k in pieces:
            pieces[k].append(out[k])
    for k in pieces:
        close(np.concatenate(pieces[k]), want[k], 1e-9, None, '%s of %s over %s against single steps'
              % (k, kind, plan['chunks']), 'chunking-differs')
        ctx.checks += 1
    compare_final(c, fin, 'after %s chunks %s' % (kind, plan['chunks']), ctx)
    if rec is not None and len(rec) != nrec:
        raise Violation('recorder-count', 'the recorder attached to %s batches of %d epochs in all has %d entries'
                        % (kind, nrec, len(rec)))
    # and the filters go on alike
    more = eps[:2]
    if cfg['kind'] != 'ukfnl':
        w2 = batch.run_steps(s, more, first)
        for node, what in ((b, 'one batch'), (c, 'chunks')):
            g2 = batch.run_steps(node, more, first)
            for k in w2:
                close(g2[k], w2[k], 1e-9, None, '%s of %s stepped on after %s' % (k, kind, what), 'batch-differs')
    for node in (b, c):
        node.check_given()
    ctx.arr(want['x'])
    ctx.state(kind, first, tuple(map(tuple, plan['chunks'])), tuple(e['z'] is None for e in eps),
              tuple(sorted(eps[0])), form)


LOOSE = ('y', 'S', 'SI', 'K', 'log_likelihood', 'likelihood', 'mahalanobis')


def final(node, measured):
    """the filter as a log leaves it: estimate, saved prior and posterior, diagnostics of the last measurement"""
    out = dict(node.saved(), **node.snapshot())
    if any(e['z'] is not None for e in measured):
        out.update(node.diag())
    return copy.deepcopy(out)


def compare_final(node, want, what, ctx):
    e = dict(node.saved(), **node.est())
    e.update(node.diag([k for k in want if k in LOOSE]) if any(k in LOOSE for k in want) else {})
    for k, v in want.items():
        if k in LOOSE:
            close(e[k], v, 1e-7, None, '%s %s' % (k, what), 'final-differs')
        else:
            close(e[k], v, 1e-9, None, '%s %s' % (k, what), 'final-differs')
        ctx.checks += 1


def run_gh(plan, ctx):
    cfg = plan['cfg']
    kind = cfg['kind']
    zs = plan['zs']
    s = nodes.make_node(cfg)
    rows, preds = [np.ravel(s.est()['s'])[:2]], []
    for z in zs:
        s.do(dict(op='update', z=z))
        rows.append(np.ravel(s.est()['s'])[:2])
        preds.append(float(s.f.x_prediction))
    rows = np.array(rows)
    b = nodes.make_node(cfg)
    rec = recorder(b, plan)
    kw = {} if rec is None else dict(saver=rec)
    log = b.own('measurement list', [float(z) for z in zs])
    before = b.snapshot()
    r = b.f.batch_filter(log, save_predictions=bool(plan['predictions']), **kw)
    if plan['predictions']:
        r, p = r
        close(p, preds, 1e-9, None, 'predictions of one %s batch' % kind, 'batch-differs')
    close(r, rows, 1e-9, None, 'one %s batch against single steps' % kind, 'batch-differs')
    same_est(b.est(), before, 'of %s, which batch_filter promises to leave alone' % kind, ctx, 0., 'final-differs')
    if rec is not None:
        ctx.probe('saver')
        if len(rec) != len(zs):
            raise Violation('recorder-count', 'a recorder attached to %d epochs has %d entries' % (len(zs), len(rec)))
    if kind == 'gh':
        # continue from the last row of the previous chunk, as its documentation suggests
        c = nodes.make_node(cfg)
        i = 0
        out = []
        for size, mode in plan['chunks'] + [[10 ** 6, 'batch']]:
            part = [float(z) for z in zs[i:i + size]]
            i += len(part)
            if not part:
                continue
            ctx.fault('feed-split')
            if mode == 'batch':
                q = c.f.batch_filter(part)
                out.append(q[1:])
                c.f.x, c.f.dx = q[-1]
            else:
                for z in part:
                    c.do(dict(op='update', z=z))
                    out.append([np.ravel(c.est()['s'])[:2]])
        if out:
            close(np.concatenate(out), rows[1:], 1e-9, None, '%s over %s against single steps'
                  % (kind, plan['chunks']), 'chunking-differs')
    ctx.steps += 2 * len(zs)
    ctx.checks += 3
    ctx.arr(rows)
    ctx.state(kind, len(zs), tuple(map(tuple, plan['chunks'])))
    b.check_given()
