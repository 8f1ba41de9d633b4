"""Seeded schedules of real threads: one runs at a time, and the turn is passed at lines (or bytecodes) of the code under test."""
import os
import sys
import threading

import ruleskit

ROOT = os.path.dirname(os.path.abspath(ruleskit.__file__)) + os.sep


FREED = [0]  # schedules given up because the thread whose turn it was waited for another (a lock, say)


class Stuck(Exception):
    """The threads never end, whatever the schedule."""


class Schedule:
    """Runs functions in threads; at every traced point the turn passes to another thread with probability p (decided by rng alone, so
    that the same seed gives the same interleaving). Points: lines of the library, or its bytecodes."""

    def __init__(self, rng, p, opcodes=False, limit=120):
        self.rng, self.p, self.opcodes, self.limit = rng, p, opcodes, limit
        self.switches, self.points, self.where = 0, 0, []
        self.free = FREED[0] > 3  # then the threads run as they like

    def run(self, fns):
        self.seen = -1
        self.turns = [threading.Semaphore(0) for _ in fns]
        self.alive = set(range(len(fns)))
        self.out = [None] * len(fns)
        self.err = [None] * len(fns)
        threads = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in threads:
            t.start()
        self.turns[self.rng.randrange(len(fns))].release()
        for t in threads:
            t.join(self.limit)
            if t.is_alive():
                raise Stuck("a thread did not end")
        return self.out, self.err

    def _wait(self, i):
        while not self.free and not self.turns[i].acquire(timeout=5):
            if self.seen == self.points and not self.free:  # no progress at all
                self.free = True
                FREED[0] += 1
                for t in self.turns:
                    t.release()
            self.seen = self.points

    def _body(self, i, f):
        self._wait(i)
        sys.settrace(lambda frame, event, arg: self._enter(i, frame))
        try:
            self.out[i] = f()
        except BaseException as e:  # noqa
            self.err[i] = e
        finally:
            sys.settrace(None)
            self.alive.discard(i)
            if self.alive and not self.free:
                self.turns[self.rng.choice(sorted(self.alive))].release()

    def _enter(self, i, frame):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True

        def local(fr, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                self._point(i, fr)
            return local
        return local

    def _point(self, i, frame):
        self.points += 1
        if not self.free and len(self.alive) > 1 and self.rng.random() < self.p:
            j = self.rng.choice(sorted(self.alive - {i}))
            self.switches += 1
            if len(self.where) < 4000:
                self.where.append((i, j, os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            self.turns[j].release()
            self._wait(i)
