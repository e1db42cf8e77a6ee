"""Deterministic thread scheduling.

Real threads run the sessions, but exactly one is ever released; the others are parked.  At every line event inside
simcats frames (and at every yield point of the session driver) the running thread asks the schedule whether to go on.
The schedule is a list of [lines, choice]: after that many line events hand over to the choice-th of the other live
threads.  Nothing depends on the operating system's scheduler.
"""
import sys
import threading

from dst.boot import SIMCATS_DIR
from dst.core import HarnessError
from dst.rng import stat


class Scheduler:
    def __init__(self, switches, watch=None):
        self.switches = list(switches)
        self.pos = 0
        self.left = self.switches[0][0] if self.switches else None
        self.steps = 0
        self.done_switches = 0
        self.sem = []
        self.alive = []
        self.errors = {}
        self.trace = []
        self.watch = watch
        self.cur = 0

    def _tick(self, me, where):
        self.steps += 1
        if self.watch is not None:
            self.watch(me)
        if self.left is None:
            return
        self.left -= 1
        if self.left <= 0:
            choice = self.switches[self.pos][1]
            self.pos += 1
            self.left = self.switches[self.pos][0] if self.pos < len(self.switches) else None
            others = [i for i in range(len(self.alive)) if self.alive[i] and i != me]
            if others:
                nxt = others[choice % len(others)]
                self.done_switches += 1
                if where and len(self.trace) < 400:
                    self.trace.append(where)
                self._hand(me, nxt)

    def _hand(self, me, nxt):
        self.cur = nxt
        self.sem[nxt].release()
        self.sem[me].acquire()

    def _body(self, me, fn):
        self.sem[me].acquire()

        def local(frame, event, arg):
            if event == "line":
                self._tick(me, (frame.f_code.co_name, frame.f_lineno))
            return local

        def glob(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(SIMCATS_DIR):
                return local
            return None
        sys.settrace(glob)
        try:
            fn()
        except BaseException as e:
            self.errors[me] = e
        finally:
            sys.settrace(None)
            self.alive[me] = False
            others = [i for i in range(len(self.alive)) if self.alive[i]]
            if others:
                self.cur = others[0]
                self.sem[others[0]].release()
            else:
                self.finished.release()

    def run(self, fns, timeout=110):
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.finished = threading.Semaphore(0)
        th = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in th:
            t.start()
        self.sem[0].release()
        if not self.finished.acquire(timeout=timeout):
            raise HarnessError("scheduled threads did not finish")
        for t in th:
            t.join(10)
        stat("fault:thread-switch", self.done_switches)
        stat("steps", self.steps)
        for i in sorted(self.errors):
            raise self.errors[i]
        return self


def gen_switches(r, total_hint=4000, n_max=120):
    mean = r.pick([2, 5, 20, 80, 300])
    n = r.randrange(3, n_max)
    import math
    return [[1 + int(-math.log(1 - r.random()) * mean), r.randrange(4)] for _ in range(n)]
