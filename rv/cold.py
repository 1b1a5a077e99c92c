"""Run things in children that start as this process stands: nothing one of them
leaves in the process is met by another."""
import os
import pickle
import signal
import sys
import traceback
import warnings

from .core import NoProgress, Violation
from .model import HarnessError


def _send(fd, data):
    view = memoryview(data)
    while view:
        view = view[os.write(fd, view):]


def _child(fn, fd):
    out = None
    try:
        try:
            out = ("ok", fn())
        except Violation as v:
            out = ("violation", v.msg, v.witness)
        except HarnessError as e:
            out = ("harness", str(e))
        except NoProgress as e:
            out = ("stuck", str(e))
        except BaseException as e:
            out = ("raised", type(e).__name__, str(e)[:1000], traceback.format_exc()[-3000:])
        sys.settrace(None)
        try:
            data = pickle.dumps(out)
        except Exception as e:
            data = pickle.dumps(("harness", "result cannot be sent: %r" % e))
        _send(fd, data)
    finally:
        os._exit(0)


def run(fn):
    """fn() in a child: its plain result. What it raised is raised here."""
    r, w = os.pipe()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore", DeprecationWarning)
        pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(fn, w)
    os.close(w)
    parts = []
    try:
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            parts.append(b)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not parts:
        raise HarnessError("a child process ended without a result")
    out = pickle.loads(b"".join(parts))
    if out[0] == "violation":
        raise Violation(*out[1:])
    if out[0] == "harness":
        raise HarnessError(out[1])
    if out[0] == "stuck":
        raise NoProgress(out[1])
    if out[0] == "raised":
        raise Violation("unexpected %s: %s\n%s" % out[1:])
    return out[1]


def case(ctx, fn):
    """fn(ctx) in a child; what ctx was told is kept."""
    def go():
        w = ctx.w
        w.counters, w.samples, w.lines_before = {}, [], {k: set(v) for k, v in w.lines.items()}
        bad = None
        try:
            fn(ctx)
        except Violation as v:
            bad = (v.msg, v.witness, v.fatal)
        return bad, w.counters, w.samples, ctx.sigs, ctx.trace, {k: v - w.lines_before.get(k, set()) for k, v in w.lines.items()}, w.known_hits

    bad, counters, samples, sigs, trace, lines, known = run(go)
    w = ctx.w
    for k, n in counters.items():
        w.counters[k] = w.counters.get(k, 0) + n
    w.samples += samples[:max(0, 3 - len(w.samples))]
    ctx.sigs += sigs
    ctx.nontrivial = ctx.nontrivial or bool(sigs)
    ctx.trace = trace
    for k, v in lines.items():
        w.lines.setdefault(k, set()).update(v)
    w.known_hits.update(known)
    if bad:
        v = Violation(bad[0], bad[1])
        v.fatal = bad[2]
        raise v
