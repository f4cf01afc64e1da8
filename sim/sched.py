"""Deterministic threads: one runs at a time, and the plan says for how long.

Each simulated thread is a real one holding the baton.  A trace function counts
the lines (or bytecode instructions) it executes inside the code under test; when
its segment of the schedule is used up, the baton goes to the next segment's thread.
"""
import sys
import threading
from .boot import PLANE, SUT_DIR


class Sched(object):
    def __init__(self, segments, fns, opcodes, rngs):
        self.segments = [s for s in segments if s[0] < len(fns)]
        self.fns = fns
        self.opcodes = opcodes
        self.rngs = rngs
        self.alive = set(range(len(fns)))
        self.batons = [threading.Semaphore(0) for _ in fns]
        self.done = threading.Semaphore(0)
        self.out = [None] * len(fns)
        self.err = [None] * len(fns)
        self.pos = 0
        self.left = 0
        self.points = 0
        self.switches = 0
        self.trail = []

    def pick(self):
        while self.pos < len(self.segments):
            t, n = self.segments[self.pos]
            self.pos += 1
            if t in self.alive:
                self.left = max(1, n)
                return t
        self.left = 1 << 60
        return min(self.alive)

    def give(self, t):
        PLANE.rs = self.rngs[t]
        self.batons[t].release()

    def point(self, t, frame):
        self.points += 1
        self.left -= 1
        if self.left > 0:
            return
        n = self.pick()
        if n != t:
            self.switches += 1
            self.trail.append((frame.f_code.co_name, t, n))
            self.give(n)
            self.batons[t].acquire()

    def tracer(self, t):
        def local(frame, event, arg):
            if event == ('opcode' if self.opcodes else 'line'):
                self.point(t, frame)
            return local

        def call(frame, event, arg):
            if not frame.f_code.co_filename.startswith(SUT_DIR):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local
        return call

    def body(self, t):
        self.batons[t].acquire()
        sys.settrace(self.tracer(t))
        try:
            self.out[t] = self.fns[t]()
        except BaseException as e:
            self.err[t] = e
        finally:
            sys.settrace(None)
        self.alive.discard(t)
        if self.alive:
            self.give(self.pick())
        else:
            self.done.release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in range(len(self.fns))]
        for t in ts:
            t.start()
        self.give(self.pick())
        self.done.acquire()
        for t in ts:
            t.join()
        return self.out, self.err
