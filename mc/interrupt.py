"""Interrupts (Ctrl-C) at every line of chosen source files."""

import os
import sys

from mc.engine import REPO


class Interrupt(object):
    """Raises KeyboardInterrupt before the n-th executed line (from 1) of the
    given files of the repository; n = 0 only counts."""

    def __init__(self, files, n=0):
        self.files = {os.path.realpath(os.path.join(REPO, f)) for f in files}
        self.n = n
        self.count = 0
        self.where = None
        self.firsts = {}        # line -> n of its first execution
        self._known = {}

    def _mine(self, code):
        f = code.co_filename
        if f not in self._known:
            self._known[f] = os.path.realpath(f) in self.files
        return self._known[f]

    def _call(self, frame, event, arg):
        if self.where is None and self._mine(frame.f_code):
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == 'line' and self.where is None:
            self.count += 1
            if not self.n:
                self.firsts.setdefault((frame.f_code.co_filename,
                                        frame.f_lineno), self.count)
            if self.count == self.n:
                self.where = '%s:%d' % (os.path.basename(
                    frame.f_code.co_filename), frame.f_lineno)
                raise KeyboardInterrupt()
        return self._line

    def __enter__(self):
        self.saved = sys.gettrace()
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(self.saved)
        return False


def choose(c, files, run, key, _counts={}):
    """Picks n among all executed lines of an undisturbed run()."""
    if key not in _counts:
        with Interrupt(files) as i:
            run()
        _counts[key] = i.count
    return 1 + c.choose(_counts[key], 'interrupted line')
