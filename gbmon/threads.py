"""Threads that are made to switch all the time."""

import os
import random
import sys
import threading
import time

from gbmon.core import REPO, Obs
from gbmon.stubs import monitor


def yielding(rng, often, switch, root=os.path.realpath(REPO) + os.sep):
    """A trace function that lets other threads run at random lines of the code under test."""
    def line(frame, event, arg):
        switch()
        if event == 'line' and rng.random() < often:
            time.sleep(0)
        return line

    def call(frame, event, arg):
        return line if os.path.realpath(frame.f_code.co_filename).startswith(root) else None
    return call


class Runner(threading.Thread):
    """Works on its own, and keeps what it observed, or what went wrong."""

    def __init__(self, work, gate, trace=None):
        threading.Thread.__init__(self, daemon=True)
        self.work = work
        self.trace = trace
        self.gate = gate
        self.error = None
        self.obs = Obs()

    def run(self):
        try:
            self.gate.wait(60)
            sys.settrace(self.trace)
            self.work(self.obs)
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)


def together(obs, works, rng=None, often=0.0):
    """Runs them in threads, and switches between them all the time."""
    interval = sys.getswitchinterval()
    switches = [0, None]

    def switch(*_):
        me = threading.get_ident()
        if switches[1] != me:
            switches[0] += 1
            switches[1] = me
    gate = threading.Barrier(len(works))
    runners = [Runner(work, gate, yielding(random.Random(rng.random()), often, switch) if often else None) for work in works]
    try:
        sys.setswitchinterval(1e-6)
        monitor.listener = switch
        for r in runners:
            r.start()
        for r in runners:
            r.join()
    finally:
        monitor.listener = None
        sys.setswitchinterval(interval)
    obs.count('switches', switches[0])
    for r in runners:
        obs.trace += r.obs.trace[-20:]
        obs.distinct |= r.obs.distinct
        for name, n in r.obs.counts.items():
            obs.count(name, n)
    for r in runners:
        if r.error is not None:
            raise r.error
