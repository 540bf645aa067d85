"""Interruptions in the middle of a call: at a chosen line of the library, another thread runs.

With several threads the operating system may switch at any line.  Here the switch is made at a
chosen one, so that the schedule is part of the (seeded, reproducible) input: the call is traced,
and when it reaches its n-th line inside the library, `other` is run to its end in another thread.
"""
import os
import sys
import threading

from . import record

ROOT = os.path.realpath(os.path.join(record.REPO, "elgas"))
_known = {}


def ours(filename):
    k = _known.get(filename)
    if k is None:
        k = _known[filename] = os.path.realpath(filename).startswith(ROOT + os.sep)
    return k


class Preempter:
    """run(fn) calls fn; at its `at`-th line `other` happens; afterwards if there was no such line."""

    def __init__(self, at, other):
        self.at, self.other = at, other
        self.lines, self.thread, self.fired = 0, None, False

    def _line(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            if self.lines == self.at and not self.fired:
                self._switch()
        return self._line

    def _call(self, frame, event, arg):
        return self._line if ours(frame.f_code.co_filename) else None

    def _switch(self):
        self.fired = True
        self.thread = threading.Thread(target=self.other, daemon=True)
        self.thread.start()
        self.thread.join(5)  # if it has to wait for us, we go on

    def run(self, fn):
        old = sys.gettrace()
        sys.settrace(self._call)
        try:
            r = fn()
        finally:
            sys.settrace(old)
            if not self.fired:
                self._switch()
            if self.thread.is_alive():
                self.thread.join(record.CALL_LIMIT)
        return r


longest = {}  # lines a call of this kind has taken so far


def arm(rnd, kind, other):
    """Something happens in the middle of the next recorded call."""

    def way(fn):
        p = Preempter(rnd.randrange(1, longest.get(kind, 40) + 1), other)
        try:
            return p.run(fn)
        finally:
            longest[kind] = max(longest.get(kind, 0), p.lines)

    record.WAY = way
