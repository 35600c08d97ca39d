"""Control over the execution of the package at its source lines.

``Steps`` counts the line events of the package (in the thread that uses it) and acts at a chosen
one; nothing depends on what the lines are.
"""
from __future__ import annotations

import collections
import os
import sys
import threading

import graphblas_algorithms

PKG = os.path.dirname(os.path.abspath(graphblas_algorithms.__file__)) + os.sep


class Steps:
    """Run a function; call ``act(k)`` before its k-th line in the package, while ``act`` wants to."""

    def __init__(self, act):
        self.act = act
        self.k = 0

    def _line(self, frame, event, arg):
        if event == "line":
            self.k += 1
            self.at = (frame.f_code.co_filename, frame.f_lineno)
            self.act(self.k)
        return self._line

    def _call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            return self._line
        return None

    def run(self, fn):
        old = sys.gettrace()
        sys.settrace(self._call)
        try:
            return fn()
        finally:
            sys.settrace(old)


def count(fn):
    """The number of line events of a call."""
    s = Steps(lambda k: None)
    s.run(fn)
    return s.k


def points(fn, repeats=None):
    """The numbers of the line events of a call; of each line the first ``repeats`` (None: all)."""
    seen = collections.Counter()
    out = []

    def note(k):
        seen[s.at] += 1
        if repeats is None or seen[s.at] <= repeats:
            out.append(k)

    s = Steps(note)
    s.run(fn)
    return out


class Stuck(Exception):  # noqa: N818
    pass


class Thread(threading.Thread):
    """A thread that runs ``fn`` in turns: as many lines as it is granted, then it waits."""

    PATIENCE = 20  # seconds; a turn takes milliseconds

    def __init__(self, fn):
        super().__init__(daemon=True)
        self.fn = fn
        self.left = 0
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.done = False
        self.result = None

    def _step(self, k):
        while self.left == 0:
            self.back.release()
            self.go.acquire()
        self.left -= 1

    def run(self):
        self.go.acquire()
        self.result = Steps(self._step).run(self.fn)
        self.done = True
        self.back.release()

    def turn(self, lines=None, patience=PATIENCE):
        """Let it run ``lines`` lines (None: to the end).  False: it waits for something else."""
        if self.done:
            return True
        self.left = -1 if lines is None else lines
        self.go.release()
        return self.back.acquire(timeout=patience)

    def wait(self, patience=PATIENCE):
        """After ``turn`` returned False."""
        return self.back.acquire(timeout=patience)


def schedule(fns, turns):
    """Run functions in threads of their own; ``turns`` is [(thread, lines or None)].  One runs at a time.

    A thread that blocks on another (a lock) is left waiting, and the others go on.
    """
    ts = [Thread(f) for f in fns]
    for t in ts:
        t.start()
    waiting = []
    for i, lines in turns:
        t = ts[i]
        if t in waiting:
            continue
        if not t.turn(lines, 5.0):
            t.left = -1  # when it gets what it waits for, it runs to the end
            waiting.append(t)
    for t in ts:
        if t not in waiting and not t.done and not t.turn():
            raise Stuck
    for t in waiting:
        if not t.wait():
            raise Stuck
    for t in ts:
        if not t.done:
            raise Stuck
    return [t.result for t in ts]
