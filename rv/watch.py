"""What a call does to the process besides its result: audit events, global state, output."""
import contextlib
import gc
import io
import locale
import logging
import os
import signal
import socket
import sys
import threading
import warnings

_here = threading.local()

# what reading and writing data in memory may cause
HARMLESS = ("object.", "sys._getframe", "sys._current", "sys.unraisablehook", "sys.excepthook", "code.__new__", "import", "marshal.", "array.", "builtins.id", "gc.", "cpython.", "function.__new__", "sys.monitoring", "time.sleep")
LOADING = ("open", "compile", "exec", "os.listdir", "os.scandir", "os.stat", "sys.set_asyncgen")


def _importing():
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename.startswith(("<frozen importlib", "<frozen zipimport")) or f.f_globals.get("__name__", "").startswith("importlib."):
            return True
        f = f.f_back
    return False


def _hook(event, args):
    seen = getattr(_here, "seen", None)
    if seen is None or event.startswith(HARMLESS):
        return
    _here.seen = None
    try:
        if event.startswith(LOADING) and _importing():
            return
        seen.append((event, tuple(_plain(a) for a in args)))
    finally:
        _here.seen = seen


def _plain(a):
    if isinstance(a, (str, bytes, int, float, type(None))):
        return a
    if isinstance(a, (tuple, list)):
        return tuple(_plain(x) for x in a)
    return type(a).__name__


_installed = False


def install():
    global _installed
    if not _installed:
        _installed = True
        logging.lastResort = logging.NullHandler()
        sys.addaudithook(_hook)


class Tape(io.StringIO):
    pass


class Watch:
    """Effects of the calls made inside `with`."""

    def __init__(self):
        self.events, self.printed = [], ""

    def __enter__(self):
        install()
        self.std = sys.stdout, sys.stderr
        self.tape = Tape()
        sys.stdout = sys.stderr = self.tape
        _here.seen = self.events
        return self

    def __exit__(self, *a):
        _here.seen = None
        swapped = sys.stdout is not self.tape or sys.stderr is not self.tape
        sys.stdout, sys.stderr = self.std
        self.printed = self.tape.getvalue()
        if swapped:
            self.events.append(("sys.stdout or sys.stderr replaced", ()))
        return False


@contextlib.contextmanager
def pause():
    """The harness's own doings, called back from the code under test."""
    seen = getattr(_here, "seen", None)
    _here.seen = None
    try:
        yield
    finally:
        _here.seen = seen


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[n] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass  # the listing's own
    return {(n, t) for n, t in out.items() if not t.startswith("/proc/")}


def state():
    """The process's settings, as far as a library could change them."""
    import builtins
    import decimal
    import random
    import urllib.request
    mask = os.umask(0o022)
    os.umask(mask)
    root = logging.getLogger()
    ctx = decimal.getcontext()
    return {
        "environment": dict(os.environ), "working directory": os.getcwd(), "umask": mask, "module path": list(sys.path), "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "integer digits": sys.get_int_max_str_digits(),
        "warning filters": [repr(f) for f in warnings.filters], "locale": locale.setlocale(locale.LC_ALL), "socket timeout": socket.getdefaulttimeout(), "decimal context": (ctx.prec, ctx.rounding, ctx.Emin, ctx.Emax, repr(sorted(map(repr, ctx.traps.items())))),
        "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug()), "root logger": (root.level, [repr(h) for h in root.handlers], logging.root.manager.disable, logging.raiseExceptions), "random numbers": hash(random.getstate()),
        "signal handlers": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGUSR1)], "hooks": [repr(x) for x in (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile(), sys.unraisablehook, threading.excepthook)],
        "builtins": sorted(vars(builtins)), "url opener": repr(urllib.request._opener), "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "module finders": [repr(x) for x in sys.meta_path], "threads": sorted(t.name for t in threading.enumerate() if not t.daemon),
    }
