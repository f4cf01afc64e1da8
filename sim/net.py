"""Discrete-event network between sensors and an estimator node.

The plan lists every send explicitly with its fate, so a plan *is* the
schedule and fault trace: {"t": sent, "s": sensor, "z": [...], "fate": F} with
F one of ["ok", delay], ["drop"], ["dup", delay1, delay2].  Timer ticks of the
node are events too: {"t": .., "tick": 1}.  Partitions appear as runs of drops
followed (heal) by normal fates.
"""
import heapq
from .core import A


class Sim(object):
    """events ordered by (time, sequence number): a total order"""

    def __init__(self):
        self.now = 0.
        self.seq = 0
        self.q = []

    def at(self, t, fn):
        self.seq += 1
        heapq.heappush(self.q, (max(t, self.now), self.seq, fn))

    def run(self, limit=100000):
        n = 0
        while self.q:
            t, _, fn = heapq.heappop(self.q)
            self.now = t
            fn()
            n += 1
            if n > limit:
                raise RuntimeError('simulation did not stop')


def gen_fate(rng, prof, jit):
    r = rng.random()
    if r < prof['drop']:
        return ['drop']
    r -= prof['drop']
    if r < prof['dup']:
        return ['dup', rng.f(0, jit), rng.f(0, 3 * jit)]
    return ['ok', rng.f(0, jit)]


def gen_profile(rng):
    """swarm style: each run enables its own mix of link faults"""
    return dict(drop=rng.choice([0, 0, .1, .3, .6]), dup=rng.choice([0, 0, .1, .3]),
                jitter=rng.choice([0., .02, .2, .8]), partition=rng.chance(.3),
                tick=rng.choice([0, 0, .3, .7]))


def gen_traffic(rng, nev, zgen, nsensors, prof=None, mean_dt=.2, opts=None):
    """zgen(t, sensor) -> measurement; opts(rng, sensor, ev) decorates the event"""
    prof = prof or gen_profile(rng)
    t = 0.
    evs = []
    part = None
    if prof['partition']:
        a = rng.randrange(nev)
        part = (a, a + rng.randrange(1, max(2, nev // 3)))
    for i in range(nev):
        t = round(t + rng.choice([rng.f(.01, 2 * mean_dt), mean_dt, mean_dt, 0. if i else mean_dt]), 4)
        if rng.random() < prof['tick']:
            ev = dict(t=t, tick=1)
        else:
            s = rng.randrange(nsensors)
            ev = dict(t=t, s=s, z=zgen(t, s), fate=gen_fate(rng, prof, prof['jitter']))
            if part and part[0] <= i < part[1]:
                ev['fate'] = ['drop', 'partition']
        if opts:
            opts(rng, ev)
        evs.append(ev)
    return evs


def run_network(events, ctx, on_message, on_tick, on_lost=None):
    """delivers the plan's events to the node; returns the simulated end time"""
    sim = Sim()

    def send(i, ev):
        fate = ev['fate']
        if fate[0] == 'drop':
            ctx.fault('partition' if len(fate) > 1 else 'loss')
            if on_lost:
                on_lost(sim.now, ev)
            return
        for j, d in enumerate(fate[1:]):
            if j:
                ctx.fault('duplicate')
            if d > .05:
                ctx.fault('delay')
            sim.at(sim.now + d, lambda ev=ev, i=i, j=j: deliver(i, ev, j))

    last = [-1]

    def deliver(i, ev, copy):
        if i < last[0] and not copy:
            ctx.fault('reorder')
        last[0] = max(last[0], i)
        on_message(sim.now, ev)

    for i, ev in enumerate(events):
        if 'tick' in ev:
            sim.at(ev['t'], lambda ev=ev: on_tick(sim.now, ev))
        else:
            sim.at(ev['t'], lambda ev=ev, i=i: send(i, ev))
    sim.run()
    ctx.simtime += sim.now
    return sim.now


def simplify_events(events):
    """shrinking candidates for one event list: calmer fates"""
    for i, ev in enumerate(events):
        f = ev.get('fate')
        if f and f != ['ok', 0.]:
            for g in (['ok', 0.], ['drop']) if f[0] != 'drop' else (['ok', 0.],):
                if g != f:
                    out = list(events)
                    out[i] = dict(ev, fate=g)
                    yield out
