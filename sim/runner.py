"""Seeded search over simulated runs, minimisation, replay, evidence.

A world module supplies gen(rng, tier) -> plan (plain JSON), run(plan, ctx)
raising Violation, and LISTS: paths of the plan's lists that may be shortened.
A run is a pure function of (plan, code): it executes in a process forked from
one that has imported filterpy but never called it.  For speed a few runs
share a child; a violation seen there is first re-run alone in a fresh child
and only if it does not reproduce alone is it reported with the runs before it.
"""
import copy
import importlib
import json
import os
import pickle
import re
import resource
import select
import signal
import sys
import time
import traceback
from . import boot
from .core import Ctx, Hang, Rng, Violation, plan_hash

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BATCH = 10
CPU_LIMIT = 20          # seconds of CPU a single run may take
MEM_LIMIT = 6 << 30


def load(prop):
    return importlib.import_module('worlds.' + prop.lower())


def plan_seed(seed, i):
    return seed * 1000003 + i


def make_plan(world, seed, i, tier):
    return world.gen(Rng(plan_seed(seed, i)), tier)


def _alarm(*a):
    raise Hang()


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f for f in tb if f.filename.startswith(boot.SUT_DIR)]
    site = '%s in %s' % (os.path.basename(where[-1].filename), where[-1].name) if where \
        else 'the observation of its results (%s:%s)' % (os.path.basename(tb[-1].filename), tb[-1].lineno)
    return ('exception-' + type(e).__name__ + '-' + (where[-1].name if where else 'observed'),
            '%s: %s, from %s' % (type(e).__name__, str(e)[:200], site))


def run_plan(world, plan, ctx):
    """one simulated run -> None or (kind, message)"""
    boot.PLANE.reset(plan_hash(plan))
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        world.run(copy.deepcopy(plan), ctx)
        return None
    except Violation as e:
        return e.kind, e.msg
    except Hang:
        return 'no-progress', 'the run used more than %d s of CPU' % CPU_LIMIT
    except MemoryError:
        return 'no-progress', 'the run exhausted its memory'
    except Exception as e:
        return describe(e)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def in_child(fn):
    """run fn in a forked child; returns its pickled result, or None if it died"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if not pid:
        code = 0
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)         # the code under test may print
            resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
            out = pickle.dumps(fn())
            while out:
                out = out[os.write(w, out):]
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    buf = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(b''.join(buf))
    except Exception:
        return None


def run_plans(world, plans):
    """plans in sequence in one fresh child; the verdict on the last"""
    def go():
        v = None
        log = 0
        for p in plans:
            c = Ctx()
            v = run_plan(world, p, c)
            log = c.log
        return v, log
    r = in_child(go)
    return (('died', 'the simulated process died'), 0) if r is None else r


# ---------------------------------------------------------------- shrinking
def get_list(plan, path):
    """every list a path like 'nodes.*.ops' denotes, as key tuples"""
    out = [((), plan)]
    for part in path.split('.'):
        nxt = []
        for key, v in out:
            if part == '*':
                if isinstance(v, list):
                    nxt += [(key + (i,), e) for i, e in enumerate(v)]
            elif isinstance(v, dict) and part in v:
                nxt.append((key + (part,), v[part]))
        out = nxt
    return [k for k, v in out if isinstance(v, list)]


def at(plan, key):
    for k in key:
        plan = plan[k]
    return plan


def with_list(plan, key, new):
    plan = copy.deepcopy(plan)
    at(plan, key[:-1])[key[-1]] = new
    return plan


def shrink(world, plan, kind, prelude, budget):
    end = time.time() + budget

    def bad(p):
        try:
            v = run_plans(world, prelude + [p])[0]
        except Exception:
            return False
        return v is not None and v[0] == kind

    def ddmin(key):
        nonlocal plan
        cur = at(plan, key)
        n = max(1, len(cur) // 2)
        while n and time.time() < end:
            i = 0
            hit = False
            while i < len(cur) and time.time() < end:
                new = cur[:i] + cur[i + n:]
                cand = with_list(plan, key, new)
                if len(new) >= getattr(world, 'MINLEN', {}).get(key[-1], 0) and bad(cand):
                    plan, cur, hit = cand, new, True
                else:
                    i += n
            if not hit or n > 1:
                n //= 2
    progress = True
    while progress and time.time() < end:
        before = json.dumps(plan)
        for path in getattr(world, 'LISTS', ()):
            for key in get_list(plan, path):
                try:
                    ddmin(key)
                except (KeyError, IndexError):
                    pass
        simp = getattr(world, 'simplify', None)
        again = True
        while simp and again and time.time() < end:
            again = False
            for cand in simp(copy.deepcopy(plan)):
                if time.time() > end:
                    break
                if cand != plan and bad(cand):
                    plan, again = cand, True
                    break
        progress = json.dumps(plan) != before
    return plan


# ------------------------------------------------------------------- search
def worker(world, seed, tier, wid, nproc, limit, deadline, conn, stop):
    """runs batches wid, wid+nproc, ...; reports a summary per batch"""
    b = wid
    while True:
        lo, hi = b * BATCH, min(limit, (b + 1) * BATCH)
        if lo >= limit or time.time() > deadline or lo > stop.value:
            break
        b += nproc

        def go(lo=lo, hi=hi):
            tot = Ctx()
            tot.hashes = []
            tot.logs = []
            tot.sample = None
            for i in range(lo, hi):
                plan = make_plan(world, seed, i, tier)
                c = Ctx()
                v = run_plan(world, plan, c)
                for name in ('faults', 'probes'):
                    d = getattr(tot, name)
                    for k, n in getattr(c, name).items():
                        d[k] = d.get(k, 0) + n
                tot.states |= c.states
                tot.simtime += c.simtime
                tot.steps += c.steps
                tot.checks += c.checks
                h = plan_hash(plan)
                tot.hashes.append((h, c.nontrivial))
                tot.logs.append((i, c.log))
                if i < 3 and c.nontrivial:
                    tot.sample = (i, plan)
                if v is not None:
                    return tot.__dict__, (i, v)
            return tot.__dict__, None
        r = in_child(go)
        conn.send((b, lo, hi, r))
    conn.send(None)
    conn.close()


def search(world, seed, tier, nproc, limit, seconds):
    import multiprocessing as mp
    mpc = mp.get_context('fork')
    stop = mpc.Value('l', 1 << 60, lock=False)
    t0 = time.time()
    conns, procs = [], []
    for w in range(nproc):
        a, b = mpc.Pipe(False)
        p = mpc.Process(target=worker, args=(world, seed, tier, w, nproc, limit, t0 + seconds, b, stop))
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)
    res = dict(faults={}, probes={}, states=set(), simtime=0., steps=0, checks=0, n=0,
               hashes=set(), triv=set(), samples=[], logs=[], viol=None)
    live = list(conns)
    while live:
        for c in mp.connection.wait(live):
            try:
                m = c.recv()
            except EOFError:
                m = None
            if m is None:
                live.remove(c)
                continue
            b, lo, hi, r = m
            if r is None:
                # the child died: find which run kills it
                for i in range(lo, hi):
                    v = run_plans(world, [make_plan(world, seed, i, tier)])[0]
                    if v is not None and v[0] == 'died':
                        r = (None, (i, v))
                        break
                else:
                    raise RuntimeError('a simulation process died and the death does not repeat '
                                       '(runs %d..%d of seed %d)' % (lo, hi, seed))
            tot, viol = r
            if tot:
                for name in ('faults', 'probes'):
                    for k, n in tot[name].items():
                        res[name][k] = res[name].get(k, 0) + n
                res['states'] |= tot['states']
                for name in ('simtime', 'steps', 'checks'):
                    res[name] += tot[name]
                res['n'] += len(tot['hashes'])
                for h, nt in tot['hashes']:
                    (res['hashes'] if nt else res['triv']).add(h)
                res['logs'] += tot['logs']
                if tot['sample'] and len(res['samples']) < 3:
                    res['samples'].append(tot['sample'])
            if viol and (res['viol'] is None or viol[0] < res['viol'][0]):
                res['viol'] = viol
                stop.value = viol[0]
    for p in procs:
        p.join()
    return res


def report(world, prop, seed, tier, viol, budget):
    i, v = viol
    lo = i // BATCH * BATCH
    plan = make_plan(world, seed, i, tier)
    prelude = []
    alone = run_plans(world, [plan])[0]
    if alone is None:
        prelude = [make_plan(world, seed, j, tier) for j in range(lo, i)]
        again = run_plans(world, prelude + [plan])[0]
        if again is None:
            raise RuntimeError('run %d of seed %d reported %r but does not repeat' % (i, seed, v))
        v = again
        k = 0
        while k < len(prelude):           # drop runs that are not needed
            cand = prelude[:k] + prelude[k + 1:]
            w = run_plans(world, cand + [plan])[0]
            if w is not None and w[0] == v[0]:
                prelude = cand
            else:
                k += 1
    else:
        v = alone
    small = shrink(world, plan, v[0], prelude, budget)
    v, log = run_plans(world, prelude + [small])
    os.makedirs(os.path.join(HOME, 'replays'), exist_ok=True)
    path = os.path.join(HOME, 'replays', '%s-%d-%d.json' % (prop, seed, i))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, seed=seed, run=i, tier=tier, kind=v[0], message=v[1], log=log,
                       plans=prelude + [small], original=plan), f, indent=1)
    return path, v


def replay(path):
    d = json.load(open(path))
    world = load(d['property'])
    if 'scenario' in d:
        what = scenario(world.KNOWN[d['scenario']])
        if what is None:
            print('replay: no violation')
            return 0
        print('replay: %s: %s' % (d['scenario'], what))
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    v, log = run_plans(world, d['plans'])
    if v is None:
        print('replay: no violation')
        return 0
    exact = (v[0], v[1], log) == (d['kind'], d['message'], d['log'])
    print('replay: %s: %s (%s)' % (v[0], v[1], 'identical' if exact else 'DIFFERS from the recorded run'))
    print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return 1


def evidence(world, prop, seed, tier, res, wall, known, nviol):
    runs = res['n']
    cov = dict(
        evaluations=runs,
        distinct_nontrivial=len(res['hashes']),
        rule=world.RULE,
        samples=[dict(seed=plan_seed(seed, i), plan=p) for i, p in res['samples']],
        runs_per_hour=int(runs * 3600 / max(wall, 1e-9)),
        seeds=[plan_seed(seed, 0), plan_seed(seed, max(0, runs - 1))],
        simulated_seconds=round(res['simtime'], 1),
        operations=res['steps'],
        comparisons=res['checks'],
        faults_injected=dict(sorted(res['faults'].items())),
        probes=dict(sorted(res['probes'].items())),
        probes_never_hit=[p for p in getattr(world, 'PROBES', ()) if not res['probes'].get(p)],
        faults_never_fired=[p for p in getattr(world, 'FAULTS', ()) if not res['faults'].get(p)],
        distinct_states=len(res['states']),
        state_measure=world.STATES,
        ran_real=world.REAL,
        ran_stub=world.STUB)
    if known:
        cov['known_findings'] = known
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=list(getattr(world, 'ASSUME', ())), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(HOME, 'evidence'), exist_ok=True)
    with open(os.path.join(HOME, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def check(prop, tier, seed, nproc=None, runs=None, seconds=None):
    world = load(prop)
    t0 = time.time()
    nproc = nproc or min(8, os.cpu_count() or 1)
    if tier == 'thorough':
        limit = runs or 1 << 40
        seconds = seconds or 600
    else:
        limit = runs or world.RUNS
        seconds = seconds or 240
    known, unlisted = [], []
    listed = findings(prop)
    for name, fn in sorted(getattr(world, 'KNOWN', {}).items()):
        r = scenario(fn)
        if r is None:
            continue
        if name in listed:
            known.append(listed[name])
            print('KNOWN-FINDING: property=%s %s' % (prop, listed[name]))
        else:
            unlisted.append((name, r))
    res = search(world, seed, tier, nproc, limit, seconds)
    nviol = 0
    if res['viol']:
        path, v = report(world, prop, seed, tier, res['viol'], 60 if tier == 'quick' else 180)
        nviol = 1
        print('%s: %s' % v)
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for name, what in unlisted:
        os.makedirs(os.path.join(HOME, 'replays'), exist_ok=True)
        path = os.path.join(HOME, 'replays', '%s-%s.json' % (prop, name))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, scenario=name, message=what), f)
        nviol += 1
        print('%s: %s' % (name, what))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    wall = time.time() - t0
    evidence(world, prop, seed, tier, res, wall, known, nviol)
    print('%s %s seed=%d: %d runs, %d distinct non-trivial, %d operations, %d comparisons, '
          '%d states, %.1f s, faults %s' % (prop, tier, seed, res['n'], len(res['hashes']), res['steps'],
                                            res['checks'], len(res['states']), wall,
                                            json.dumps(res['faults'], sort_keys=True)))
    return 1 if nviol else 0


def scenario(fn):
    """a deterministic scenario in a fresh child: None, or what goes wrong in it"""
    def go():
        boot.PLANE.reset(1)
        return fn()
    r = in_child(lambda: [go()])
    return 'the simulated process died' if r is None else r[0]


def findings(prop):
    """recorded, unrepaired defects of this property: scenario name -> what fails"""
    out = {}
    with open(os.path.join(HOME, 'KNOWN_FINDINGS')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) scenario=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out
