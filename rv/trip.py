"""Faults raised at a chosen source line of pymantic, by way of sys.settrace.

Lines of clean-up (finally and except bodies, __exit__ and __del__ methods) and
"try:" lines themselves are passed over, wherever on the stack they are: what
is lost when clean-up itself is interrupted no program can promise.
"""
import ast
import os
import sys

import pymantic

from .core import NoProgress

SRC = os.path.dirname(os.path.abspath(pymantic.__file__)) + os.sep
CLEAN = {"__exit__", "__del__", "close", "release", "__aexit__"}
_spared = {}


def spared(fn):
    """Line numbers of a file at which nothing is raised."""
    if fn not in _spared:
        out = set()
        try:
            with open(fn, encoding="utf-8") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.parse("")
        for node in ast.walk(tree):
            if isinstance(node, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                out.add(node.lineno)
                for part in [node.finalbody] + [h.body for h in node.handlers]:
                    for st in part:
                        out.update(range(st.lineno, st.end_lineno + 1))
                for h in node.handlers:
                    out.add(h.lineno)
        _spared[fn] = out
    return _spared[fn]


class Trip:
    """Raises exc() at the n-th line of pymantic that the call comes to (n None: only counts)."""

    def __init__(self, n=None, exc=KeyboardInterrupt, prefixes=(SRC,)):
        self.n, self.exc, self.prefixes = n, exc, tuple(prefixes)
        self.count = 0
        self.trail = []  # where it went, when it only counts
        self.where = None
        self.mine = {}

    def _ours(self, fn):
        w = self.mine.get(fn)
        if w is None:
            w = self.mine[fn] = fn.startswith(self.prefixes)
        return w

    def _allowed(self, frame):
        while frame is not None:
            c = frame.f_code
            if self._ours(c.co_filename) and (c.co_name in CLEAN or frame.f_lineno in spared(c.co_filename)):
                return False
            frame = frame.f_back
        return True

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.n is None:
                self.trail.append((frame.f_code.co_filename, frame.f_lineno))
            if self.n is not None and self.where is None and self.count >= self.n and self._allowed(frame):
                self.where = (frame.f_code.co_filename[len(SRC):], frame.f_code.co_name, frame.f_lineno)
                raise self.exc("interrupted")
        return self._local

    def _glob(self, frame, event, arg):
        return self._local if self._ours(frame.f_code.co_filename) else None

    def __call__(self, f):
        """(value, exception)"""
        old = sys.gettrace()
        sys.settrace(self._glob)
        try:
            return f(), None
        except NoProgress:
            raise
        except BaseException as e:
            sys.settrace(old)
            return None, e
        finally:
            sys.settrace(old)


def points(trail, rng, limit):
    """Numbers of lines (from 1): the first and last time at each place and some others."""
    first, last = {}, {}
    for k, x in enumerate(trail, 1):
        first.setdefault(x, k)
        last[x] = k
    first, last = list(first.values()), [k for k in last.values() if k not in first.values()]
    for part in (first, last):
        rng.shuffle(part)
    rest = [k for k in rng.sample(range(1, len(trail) + 1), min(limit, len(trail)))]
    return sorted(list(dict.fromkeys(first + last + rest))[:limit])
