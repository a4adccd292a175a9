"""Threads that take turns, line by line, in an order given by the case.

Exactly one thread runs at a time.  After each executed line of the watched
files a counter decides whether another thread goes on.  Should the running
thread not get on (it waits for a lock that a stopped thread holds), the
order is given up and all threads run freely.
"""
import os
import sys
import threading

from . import env
from .env import HarnessError

ELEMENTSTX = os.path.join(env.REPO, 'elementstx') + os.sep
BITCOINTX = os.path.join(env.VENV_SITE, 'bitcointx') + os.sep
STALL = 5.0


class Sched:
    def __init__(self, gaps, picks, deep):
        self.gaps = [max(1, g) for g in gaps] or [1]
        self.picks = picks or [0]
        self.prefixes = (ELEMENTSTX, BITCOINTX) if deep else (ELEMENTSTX,)
        self.turn = []
        self.done = []
        self.switches = 0
        self.ticks = 0
        self.free = False
        self.left = self.gaps[0]
        self.watched = {}

    # ---- called by the thread that has the turn ----

    def tick(self, k):
        self.ticks += 1
        self.left -= 1
        if self.left > 0 or self.free:
            return
        self.switches += 1
        self.left = self.gaps[self.switches % len(self.gaps)]
        others = [n for n in range(len(self.turn)) if n != k and not self.done[n]]
        if not others:
            return
        n = others[self.picks[self.switches % len(self.picks)] % len(others)]
        self.turn[n].set()
        self.wait(k)

    def wait(self, k):
        while not self.free:
            seen = self.ticks
            if self.turn[k].wait(STALL):
                self.turn[k].clear()
                return
            if self.ticks == seen and not self.turn[k].is_set():
                self.free = True
                for t in self.turn:
                    t.set()

    def finish(self, k):
        self.done[k] = True
        for n in range(len(self.turn)):
            if not self.done[n]:
                self.turn[n].set()
                return

    def tracer(self, k):
        watched, prefixes = self.watched, self.prefixes

        def local(frame, event, arg):
            if event == 'line':
                self.tick(k)
            return local

        def start(frame, event, arg):
            f = frame.f_code.co_filename
            w = watched.get(f)
            if w is None:
                p = os.path.abspath(f)
                w = watched[f] = p.startswith(prefixes) and not p.endswith('sha256.py')
            return local if w else None
        return start

    def run(self, functions):
        """Results of the functions: (True, value) or (False, exception)"""
        n = len(functions)
        self.turn = [threading.Event() for _ in range(n)]
        self.done = [False] * n
        out = [None] * n

        def body(k):
            self.wait(k)
            sys.settrace(self.tracer(k))
            try:
                out[k] = (True, functions[k]())
            except BaseException as e:
                out[k] = (False, e)
            finally:
                sys.settrace(None)
                self.finish(k)
        threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
        for t in threads:
            t.start()
        self.turn[self.picks[0] % n].set()
        for t in threads:
            t.join(120)
            if t.is_alive():
                raise HarnessError('a thread does not come to an end')
        return out
