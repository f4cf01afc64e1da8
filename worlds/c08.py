"""C08: the history recorder is faithful, complete and immutable."""
import copy
import inspect
import types
import numpy as np
from sim import gen as G, nodes
from sim.boot import PLANE, InjectedFault
from sim.core import Violation, same
from sim.world import add_elapsed, events_of, same_est, simplify_plan, stream
from filterpy.common import Saver

RUNS = 14000
LISTS = ['events', 'events.*.op.saves']
KINDS = ('kf', 'kf', 'flaky', 'flaky', 'ekf', 'ukf', 'ckf', 'srkf', 'inf', 'fading', 'hinf', 'ekfnl', 'ukfnl',
         'ckfnl', 'enkf', 'imm', 'mmae', 'gh', 'ghk', 'gho', 'fmem', 'lsq', 'fls')
RULE = ('seeded filter with user attributes, delivered log, and one or two recorders with seeded options that save at '
        'seeded points (before, between and after steps, several times in a row); saves may fail in a computed '
        'property or while copying a user attribute; non-trivial when something was recorded')
STATES = 'distinct (filter form, recorder options, step before the save, failed save site, save ordinal)'
REAL = ['filterpy.common.Saver on every filter class']
STUB = ['sensors, network, user callbacks, a user subclass with failing properties, a user attribute whose copy fails']
FAULTS = ['property', 'copy', 'loss', 'duplicate', 'reorder', 'gap']
PROBES = ['save', 'save-current', 'to_array', 'flatten', 'skip_private', 'skip_callable', 'ignore', 'failed-then-saved',
          'two-recorders']


class Brittle(object):
    """a user attribute whose copy can fail (a full disk, a closed handle, ...)"""
    value = 3

    def __deepcopy__(self, memo):
        PLANE.hit('copy', InjectedFault('copy'))
        return Brittle()


class Track(object):
    """a user attribute that is an object of her own, with state that moves on"""

    def __init__(self):
        self.n = 0
        self.where = dict(at=np.zeros(2), trail=[])

    def note(self, i):
        self.n += 1
        self.where['at'] += i
        self.where['trail'].append(i)


def gen(rng, tier):
    kind = rng.choice(KINDS)
    cfg = G.gen_cfg(rng, kind)
    n = G.length(rng, tier, [1, 3, 6, 10], 25, 260)
    mix = G.Mix(rng)
    mix.put = rng.choice([0., 0., .15])
    ops = G.gen_ops(rng, cfg, n, mix)
    if kind not in G.TRACK:
        add_elapsed(rng, cfg, ops)
    k = rng.choice([1, 1, 2])
    evs = events_of(rng, ops)
    p = rng.choice([.3, .8])
    pf = rng.choice([0., .2, .5])
    for ev in evs:
        s = []
        while rng.chance(p) and len(s) < 3:
            s.append([rng.randrange(k), rng.f(0, 1) if rng.chance(pf) else None, rng.choice('ba')])
        if s:
            ev['op']['saves'] = s
    recs = [dict(now=int(rng.chance(.3)), skip_private=int(rng.chance(.3)), skip_callable=int(rng.chance(.3)),
                 ignore=rng.choice([[], [], ['P'], ['x', 'likelihood'], ['brittle', 'y']]))
            for _ in range(k)]
    return dict(cfg=cfg, events=evs, recs=recs, user=rng.choice([None, None, 'list', 'object', 'private', 'brittle', 'brittle']),
                arrays=rng.choice([None, 'end', 'flatten', 'mid']))


def simplify(plan):
    for p in simplify_plan(plan):
        yield p
    for k in ('user', 'arrays'):
        if plan.get(k):
            yield dict(plan, **{k: None})
    for i, r in enumerate(plan['recs']):
        for k in r:
            if r[k]:
                yield dict(plan, recs=plan['recs'][:i] + [dict(r, **{k: [] if k == 'ignore' else 0})]
                           + plan['recs'][i + 1:])


def names_of(f):
    props = [n for n, _ in inspect.getmembers(type(f), lambda o: isinstance(o, property))]
    # the filter's own private attributes are its own business, the user's are not
    return [n for n in list(vars(f)) + props if not n.startswith('_') or n == '_tag']


def equal(a, b, depth=0):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if np.shape(a) != np.shape(b):
            return False
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype == object or b.dtype == object:
            return all(equal(x, y, depth + 1) for x, y in zip(a.ravel(), b.ravel()))
        return bool(((a == b) | ((a != a) & (b != b))).all())
    if isinstance(a, (int, float, complex, str, type(None))) or isinstance(b, (int, float, complex, str, type(None))):
        try:
            return bool(a == b or (a != a and b != b))
        except Exception:
            return False
    if isinstance(a, (list, tuple)) or (hasattr(a, '__len__') and hasattr(a, '__iter__')):
        try:
            return len(a) == len(b) and all(equal(x, y, depth + 1) for x, y in zip(a, b))
        except TypeError:
            return False
    if callable(a):
        if type(a) is not type(b):
            return False
        if not hasattr(a, '__dict__') or isinstance(a, (types.FunctionType, types.MethodType, type)):
            return True
    if hasattr(a, '__dict__') and depth < 4:
        va, vb = vars(a), vars(b)
        return set(va) == set(vb) and all(equal(va[k], vb[k], depth + 1) for k in va)
    return type(a) is type(b)


class Log(object):
    """what recorder r must hold"""

    def __init__(self, node, opt):
        self.opt = opt
        self.node = node
        self.snaps = []
        kw = {k: bool(opt[k]) for k in ('skip_private', 'skip_callable') if opt[k]}
        if opt['ignore']:
            kw['ignore'] = tuple(opt['ignore'])
        if opt['now']:
            self.snaps.append(self.snap())
            kw['save_current'] = True
        self.saver = Saver(node.f, **kw)

    def snap(self):
        out = {}
        for n in names_of(self.node.f):
            if n in self.opt['ignore'] or (self.opt['skip_private'] and n.startswith('_')):
                continue
            v = getattr(self.node.f, n)
            if self.opt['skip_callable'] and callable(v):
                continue
            out[n] = copy.deepcopy(v)
        return out

    def save(self, when, fail, ctx):
        before = len(self.saver)
        if fail is not None:
            # find out what a save does that can fail, on a copy
            trial = Saver(copy.deepcopy(self.node.f), **({'ignore': tuple(self.opt['ignore'])} if self.opt['ignore']
                                                         else {}))
            PLANE.arm(None)
            try:
                trial.save()
            finally:
                sites, _ = PLANE.disarm()
            if sites:
                k = min(int(fail * len(sites)), len(sites) - 1)
                want = self.sizes()
                PLANE.arm(k)
                raised = None
                try:
                    self.saver.save()
                except Exception as e:
                    raised = e
                finally:
                    _, fired = PLANE.disarm()
                if fired:
                    ctx.fault(fired[0])
                    if raised is None:
                        raise Violation('failure-swallowed', 'save() returned normally although the %s of the filter '
                                        'failed' % fired[0])
                    if len(self.saver) != before or self.sizes() != want:
                        raise Violation('partial-save', 'a save that failed in a %s changed the lengths of the series '
                                        'from %s to %s' % (fired[0], want, self.sizes()))
                    ctx.probe('failed-then-saved')
                    ctx.state(self.node.kind, fired[0], k)
                    return
                # the saver visited fewer sites than a plain one (options); it did record
                self.snaps.append(self.snap())
                return
        if when == 'b':
            s = self.snap()
            self.saver.save()
        else:
            self.saver.save()
            s = self.snap()
        self.snaps.append(s)
        ctx.probe('save')
        ctx.nontrivial = True

    def sizes(self):
        return {k: len(self.saver[k]) for k in sorted(self.saver.keys)}

    def check(self, ctx, when):
        s = self.saver
        what = 'the recorder of %s %s' % (self.node.kind, when)
        n = len(self.snaps)
        if len(s) != n:
            raise Violation('count', '%s reports %d saves, %d were made' % (what, len(s), n))
        keys = set(s.keys)
        for k in keys:
            if len(s[k]) != n:
                raise Violation('count', 'series %s of %s has %d entries after %d saves' % (k, what, len(s[k]), n))
            if k in self.opt['ignore'] or (self.opt['skip_private'] and k.startswith('_')):
                raise Violation('option', '%s records %s against its options' % (what, k))
        for i, snap in enumerate(self.snaps):
            for k, v in snap.items():
                if k not in keys:
                    raise Violation('missing', '%s has no series for %s' % (what, k))
                for how, got in (('[]', s[k][i]), ('.', getattr(s, k)[i])):
                    ctx.checks += 1
                    if not equal(got, v):
                        raise Violation('unfaithful', 'entry %d of series %s (by %s) of %s is %r, it was %r when saved'
                                        % (i, k, how, what, got, v))

    def arrays(self, flatten, ctx, when):
        s = self.saver
        n = len(self.snaps)
        if not n:
            return
        uniform = True
        for k in s.keys:
            try:
                np.array(s[k])
            except ValueError:
                uniform = False
        try:
            s.to_array(flatten=flatten)
        except ValueError:
            if uniform:
                raise Violation('arrays', 'to_array of the recorder of %s fails though every series is uniform'
                                % self.node.kind)
            return self.check(ctx, when + ', after to_array refused')
        ctx.probe('flatten' if flatten else 'to_array')
        for k in self.snaps[0]:
            want = [sn[k] for sn in self.snaps]
            try:
                w = np.array(want)
            except ValueError:
                continue
            if w.dtype == object:
                continue
            if flatten:
                if w.ndim == 3 and w.shape[2] == 1:
                    w = w.reshape(w.shape[:2])
                    if w.shape[1] == 1:
                        w = w.ravel()
                elif w.ndim == 2 and w.shape[1] == 1:
                    continue                  # already one-dimensional per entry
            got = getattr(s, k)
            if flatten and w.ndim > 3:
                got, w = np.ravel(got), w.ravel()
            if not isinstance(got, np.ndarray) or not equal(got, w):
                raise Violation('arrays', 'series %s of %s as an array is %r, expected %r'
                                % (k, self.node.kind, got, w))
            ctx.checks += 1


def run(plan, ctx):
    cfg = plan['cfg']
    ops = stream(plan['events'], ctx, cfg)
    rs = PLANE.rs
    st = rs.get_state()
    a = nodes.make_node(cfg)
    rs.set_state(st)
    b = nodes.make_node(cfg)
    if plan['user'] == 'list':
        a.f.notes = [1, [2.5, 'x'], dict(k=np.zeros(2))]
    elif plan['user'] == 'object':
        a.f.track = Track()
    elif plan['user'] == 'private':
        a.f._tag = [0]
    elif plan['user'] == 'brittle':
        a.f.brittle = Brittle()
    if cfg['kind'] == 'flaky':
        a.f._marks = np.zeros(2)
    logs = [Log(a, o) for o in plan['recs']]
    for o in plan['recs']:
        for k in ('skip_private', 'skip_callable', 'ignore'):
            if o[k]:
                ctx.probe(k)
        if o['now']:
            ctx.probe('save-current')
    if len(logs) > 1:
        ctx.probe('two-recorders')
    half = len(ops) // 2
    for i, op in enumerate(ops):
        op = dict(op)
        saves = op.pop('saves', None) or []
        if op['op'] == 'none':
            ctx.fault('gap')
        st = rs.get_state()
        a.do(op)
        rs.set_state(st)
        b.do(op)
        if plan['user'] == 'list':
            a.f.notes[1].append(i)
            a.f.notes[2]['k'][0] = i
        if plan['user'] == 'object':
            a.f.track.note(i)
        if cfg['kind'] == 'flaky':
            a.f._marks[i % 2] += 1
        if plan['user'] == 'private':
            a.f._tag.append(i)
        for r, fail, when in saves:
            if r >= len(logs):
                continue
            ctx.state(cfg['kind'], op['op'], len(logs[r].snaps), tuple(sorted((k, bool(v)) for k, v in
                                                                              plan['recs'][r].items())))
            logs[r].save(when, fail, ctx)
        same_est(a.est(), b.est(), 'of %s after %s (step %d), compared with the run without a recorder'
                 % (cfg['kind'], op['op'], i), ctx, 1e-12, 'recording-disturbed')
        if plan['arrays'] == 'mid' and i == half:
            for l in logs:
                l.arrays(False, ctx, 'at step %d' % i)
                l.save('b', None, ctx)
    for l in logs:
        l.check(ctx, 'at the end')
    if plan['arrays'] in ('end', 'flatten'):
        for l in logs:
            l.arrays(plan['arrays'] == 'flatten', ctx, 'at the end')
    ctx.arr(list(a.est().values())[0])
