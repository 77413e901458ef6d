"""Deterministic interleaving of threads at line granularity.

Only the holder of the token runs.  Whenever the holder is about to execute a line of the code under test it may have to hand the
token to another thread; a seeded generator decides, so that a schedule is a function of the seed and can be replayed.
"""
import os
import sys
import threading

import numpy as np


class Interleave:
    def __init__(self, rng, tasks, marker=os.sep + "simcats" + os.sep, lines=(1, 60)):
        self.rng, self.tasks, self.marker = rng, tasks, marker
        self.mean = float(lines[0] * (lines[1] / lines[0]) ** rng.random())      # mean number of lines between two switches
        self.turn = [threading.Semaphore(0) for _ in tasks]
        self.alive = set(range(len(tasks)))
        self.results = [None] * len(tasks)
        self.errors = [None] * len(tasks)
        self.switches = 0
        self.places = set()
        self.budget = int(rng.integers(200, 1500))      # afterwards the threads run to completion one after the other
        self.left = 1 + int(np.exp(rng.uniform(0, 9)))     # the first switch may come late
        self.abort = False

    def _next(self):
        return 1 + int(self.rng.geometric(1 / self.mean))

    def _hand_over(self, me, frame):
        others = sorted(self.alive - {me})
        if not others:
            return
        to = others[int(self.rng.integers(len(others)))]
        self.switches += 1
        self.places.add((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        self.turn[to].release()
        self.turn[me].acquire()
        if self.abort:
            raise SystemExit

    def _tracer(self, me):
        def local(frame, event, arg):
            if event == "line" and self.switches < self.budget:
                self.left -= 1
                if self.left <= 0:
                    self.left = self._next()
                    self._hand_over(me, frame)
            return local

        def tracer(frame, event, arg):
            if self.switches >= self.budget:
                return None
            return local if self.marker in frame.f_code.co_filename else None
        return tracer

    def _main(self, me):
        self.turn[me].acquire()
        try:
            if not self.abort:
                sys.settrace(self._tracer(me))
                self.results[me] = self.tasks[me]()
        except BaseException as e:  # noqa
            self.errors[me] = e
        finally:
            sys.settrace(None)
            self.alive.discard(me)
            if self.alive:
                self.turn[sorted(self.alive)[int(self.rng.integers(len(self.alive)))]].release()

    def run(self):
        ts = [threading.Thread(target=self._main, args=(k,), daemon=True) for k in range(len(self.tasks))]
        for t in ts:
            t.start()
        try:
            self.turn[int(self.rng.integers(len(ts)))].release()
            for t in ts:
                t.join()
        except BaseException:
            self.abort = True
            for s in self.turn:
                s.release()
            raise
        return self.results, self.errors
