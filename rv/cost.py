"""Deterministic work counting: what pymantic's own code executes, and how often terms are hashed or compared."""
import os
import sys

from pymantic.primitives import NamedNode

from .core import REPO

TOOL = 4
PREFIX = os.path.join(REPO, "src", "pymantic") + os.sep
_mon = sys.monitoring
_n = [0]
_ready = []


class CN(NamedNode):
    """An IRI that counts how often it is hashed and compared."""

    def __hash__(self):
        _n[0] += 1
        return str.__hash__(self)

    def __eq__(self, other):
        _n[0] += 1
        return str.__eq__(self, other)

    def __ne__(self, other):
        _n[0] += 1
        return str.__ne__(self, other)


def _on(code, *_):
    if code.co_filename.startswith(PREFIX):
        _n[0] += 1
        return None
    return _mon.DISABLE


EVENTS = _mon.events.LINE | _mon.events.JUMP | _mon.events.BRANCH | _mon.events.PY_START | _mon.events.CALL


def work(fn):
    """(units of work, result) of one call."""
    if not _ready:
        _mon.use_tool_id(TOOL, "rv-cost")
        for e in (_mon.events.LINE, _mon.events.JUMP, _mon.events.BRANCH, _mon.events.PY_START, _mon.events.CALL):
            _mon.register_callback(TOOL, e, _on)
        _ready.append(1)
    _n[0] = 0
    _mon.set_events(TOOL, EVENTS)
    try:
        r = fn()
    finally:
        _mon.set_events(TOOL, 0)
    return _n[0], r
