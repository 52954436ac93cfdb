"""Threads whose interleaving is chosen: one runs at a time and hands over between lines of /repo."""
import random
import sys
import threading

from .core import REPO

CODE = REPO + "/continual/"


class Schedule:
    """Runs functions in threads, switching at random lines of the code under test. The same seed gives the same interleaving.
    With a quantum, threads take turns of that many lines instead, so those which do the same run in lockstep.
    If the running thread is stuck (e.g. it waits for a lock which another one holds), all are let go."""

    def __init__(self, seed, p, quantum=None, patience=3.0):
        self.r = random.Random(seed)
        self.p, self.quantum, self.patience = p, quantum, patience
        self.ran, self.switches, self.points, self.trace, self.free = 0, 0, 0, [], False

    def run(self, fns):
        n = len(fns)
        self.turn = [threading.Event() for _ in range(n)]
        self.alive = set(range(n))
        out = [None] * n
        ts = [threading.Thread(target=self._work, args=(i, fns[i], out), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        self.turn[self.r.randrange(n)].set()
        for t in ts:
            t.join()
        return out

    def _wait(self, i):
        seen = None
        while not self.turn[i].wait(self.patience):
            if seen == self.points or self.free:
                self.free = True
                for e in self.turn:
                    e.set()
                return
            seen = self.points

    def _hand_over(self, i):
        others = sorted(self.alive - {i})
        if not others:
            return
        j = next((o for o in others if o > i), others[0]) if self.quantum else self.r.choice(others)
        self.switches += 1
        self.trace.append(j)
        self.turn[i].clear()
        self.turn[j].set()

    def _point(self, i):
        self.points += 1
        if self.free:
            return
        if self.quantum:
            self.ran += 1
            go = self.ran >= self.quantum
        else:
            go = self.r.random() < self.p
        if go:
            self.ran = 0
            self._hand_over(i)
            self._wait(i)

    def _work(self, i, fn, out):
        self._wait(i)

        def line(frame, event, arg):
            if event == "line":
                self._point(i)
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(CODE) else None

        sys.settrace(call)
        try:
            out[i] = fn()
        finally:
            sys.settrace(None)
            self.alive.discard(i)
            if not self.free:
                self._hand_over(i)
