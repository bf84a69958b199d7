"""A scheduler that decides at every line (or opcode) of the package which thread runs."""
import hashlib
import os
import sys
import threading

from . import base
from .base import guarded


class Baton:
    """One thread at a time; the holder may hand over at each trace event."""

    def __init__(self, jobs, r, policy, opcodes):
        self.jobs, self.r, self.policy, self.opcodes = jobs, r, policy, opcodes
        self.prefix = os.path.join(os.path.realpath(base.REPO), "pytiled_parser") + os.sep
        n = len(jobs)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.live = set(range(n))
        self.free = False
        self.events = self.switches = 0
        self.trace = hashlib.blake2b(digest_size=8)
        self.results = [[] for _ in range(n)]
        self.left = 0
        if policy[0] == "pct":
            self.prio = list(range(n))
            r.shuffle(self.prio)
            self.points = set(r.sample(range(1, policy[2]), min(policy[1], policy[2] - 1)))

    # ------------------------------------------------------------ decisions
    def choose(self, me):
        kind = self.policy[0]
        others = [t for t in self.live if t != me]
        if not others:
            return me
        if kind == "random":
            return self.r.choice(others) if self.r.random() < self.policy[1] else me
        if kind == "burst":
            self.left -= 1
            if self.left > 0:
                return me
            self.left = int(self.r.expovariate(1 / self.policy[1])) + 1
            return self.r.choice(others)
        if kind == "lockstep":
            return min((t for t in others if t > me), default=min(others))
        if self.events in self.points:
            self.prio[me] = min(self.prio) - 1
        return max(self.live, key=lambda t: self.prio[t])

    def event(self, me, where):
        if self.free:
            return
        self.events += 1
        nxt = self.choose(me)
        if nxt != me:
            self.switches += 1
            self.trace.update(f"{me}>{nxt}@{where};".encode())
            self.sems[nxt].release()
            self.wait(me)

    def wait(self, me):
        seen = -1
        while not self.sems[me].acquire(timeout=0.5):
            if self.free:
                return
            # The holder waits for something a suspended thread holds
            if self.events == seen:
                self.free = True
                for s in self.sems:
                    s.release()
                return
            seen = self.events

    # ------------------------------------------------------------ threads
    def tracer(self, me):
        prefix, opcodes = self.prefix, self.opcodes

        def local(frame, event, arg):
            if event == ("opcode" if opcodes else "line"):
                self.event(me, f"{frame.f_code.co_name}:{frame.f_lineno}")
            return local

        def glob(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(prefix):
                if opcodes:
                    frame.f_trace_opcodes = True
                self.event(me, f"{frame.f_code.co_name}:0")
                return local
            return None

        return glob

    def body(self, me):
        self.wait(me)
        for fn, arg in self.jobs[me]:
            sys.settrace(self.tracer(me))
            try:
                o = guarded(fn, arg)
            finally:
                sys.settrace(None)
            if o.exc is not None:
                o.exc.__traceback__ = None
            self.results[me].append(o)
        self.live.discard(me)
        if self.live and not self.free:
            self.sems[self.r.choice(sorted(self.live))].release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(len(self.jobs))]
        for t in ts:
            t.start()
        self.sems[self.r.randrange(len(ts))].release()
        for t in ts:
            while t.is_alive():
                t.join(0.2)
        return self.results


def stress(jobs):
    """The same under the interpreter's own scheduler, switching as often as it can."""
    results = [[] for _ in jobs]
    go = threading.Barrier(len(jobs))

    def body(k):
        go.wait()
        for fn, arg in jobs[k]:
            o = guarded(fn, arg)
            if o.exc is not None:
                o.exc.__traceback__ = None
            results[k].append(o)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            while t.is_alive():
                t.join(0.2)
    finally:
        sys.setswitchinterval(old)
    return results
