"""Worker side: case contexts, the observation log, verdicts, replay records."""
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_CPU_LIMIT = 60.0  # CPU seconds; a normal case needs milliseconds
CASE_IDLE_LIMIT = 45.0  # seconds without CPU use, seen twice in a row: the case is blocked


from .model import HarnessError


class Violation(Exception):
    def __init__(self, msg, witness=None):
        super().__init__(msg)
        self.msg = msg
        self.witness = witness
        self.fatal = False


class NoProgress(BaseException):
    """The case used CASE_CPU_LIMIT seconds of CPU time, or waits for ever."""


def _on_prof(signum, frame):
    raise NoProgress("no progress: the case used %.0f s of CPU time" % CASE_CPU_LIMIT)


_idle = [0, 0.0]


def _on_real(signum, frame):
    """A case that neither ends nor computes is blocked (a lock never released)."""
    now = time.process_time()
    _idle[0] = _idle[0] + 1 if now - _idle[1] < CASE_IDLE_LIMIT / 10 else 0
    _idle[1] = now
    if _idle[0] >= 2:
        raise NoProgress("no progress: the case has been blocked for %.0f s" % (2 * CASE_IDLE_LIMIT))


def short(x, n=400):
    try:
        r = x if isinstance(x, str) else repr(x)
    except Exception as e:  # a broken __repr__ must not hide the violation
        r = "<unrepresentable %s>" % type(e).__name__
    return r if len(r) <= n else r[: n - 20] + "...(%d chars)" % len(r)


class Ctx:
    """What one case sees. Everything observed goes through here."""

    def __init__(self, worker, rng, label):
        self.w = worker
        self.rng = rng
        self.label = label
        self.trace = []
        self.sigs = []
        self.nontrivial = False

    @property
    def thorough(self):
        return self.w.tier == "thorough"

    # -- observation log ----------------------------------------------------
    def ev(self, kind, n=1):
        c = self.w.counters
        c[kind] = c.get(kind, 0) + n

    def log(self, *parts):
        if len(self.trace) < 400:
            self.trace.append(" ".join(short(p, 300) for p in parts))

    def call(self, name, fn, *a, **k):
        """Invoke the code under test, recording call and return events."""
        self.ev("calls:" + name)
        self.log("call", name, [short(x, 120) for x in a], k or "")
        r = fn(*a, **k)
        self.ev("returns:" + name)
        return r

    def raises(self, name, exc, fn, *a, **k):
        """The call must raise exc (a class or tuple); returns the exception."""
        self.ev("calls:" + name)
        self.log("call (must raise)", name, [short(x, 120) for x in a], k or "")
        try:
            r = fn(*a, **k)
        except exc as e:
            self.ev("raised:" + name)
            return e
        except NoProgress:
            raise
        except BaseException as e:
            self.fail("%s raised %s: %s, expected %s" % (name, type(e).__name__, e, exc))
        self.fail("%s returned %s instead of raising %s" % (name, short(r), exc))

    def sig(self, *what):
        """Fingerprint of a non-trivial case, for the distinct count."""
        self.nontrivial = True
        self.sigs.append(repr(what))

    def sample(self, x):
        if len(self.w.samples) < 3:
            self.w.samples.append(short(x, 1500))

    # -- verdicts -----------------------------------------------------------
    def fail(self, msg, witness=None):
        raise Violation(msg, witness)

    def expect(self, cond, msg, witness=None):
        self.ev("oracle:evaluations")
        if not cond:
            self.fail(msg() if callable(msg) else msg, witness)

    def stuck(self, msg):
        """Threads that never end: report, and run nothing more in this process."""
        v = Violation(msg)
        v.fatal = True
        raise v

    def same(self, got, want, what, witness=None):
        self.ev("oracle:evaluations")
        if got != want:
            extra = ""
            if isinstance(got, (set, frozenset)) and isinstance(want, (set, frozenset)):
                extra = "\n  unexpected: %s\n  missing: %s" % (
                    short(sorted(map(repr, got - want)), 1500),
                    short(sorted(map(repr, want - got)), 1500),
                )
            self.fail("%s: got %s, expected %s%s" % (what, short(got, 800), short(want, 800), extra), witness)

    def known(self, key, msg):
        """A deviation that is a listed known finding; anything else fails."""
        if key in self.w.known_keys:
            self.w.known_hits.setdefault(key, short(msg, 300))
        else:
            self.fail("[%s] %s" % (key, msg))


class Worker:
    def __init__(self, prop, tier, seed, shard, nshards, known_keys, time_cap):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.nshards = shard, nshards
        self.known_keys = known_keys
        self.time_cap = time_cap
        self.counters = {}
        self.samples = []
        self.known_hits = {}
        self.sigset = set()
        self.cases = 0
        self.violations = []
        self.lines = {}
        self.harness = []
        self.stop = False

    def rng_for(self, label):
        return random.Random("%s|%s|%s" % (self.prop, self.seed, label))

    def one(self, label, fn):
        ctx = Ctx(self, self.rng_for(label), label)
        self.cases += 1
        t0 = time.process_time()
        try:
            _idle[:] = [0, t0]
            signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
            signal.setitimer(signal.ITIMER_REAL, CASE_IDLE_LIMIT, CASE_IDLE_LIMIT)
            try:
                fn(ctx)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Violation as v:
            self._record(ctx, v.msg, v.witness, None)
            self.stop = self.stop or v.fatal
        except NoProgress as e:
            self._record(ctx, str(e), None, traceback.format_exc())
            self.stop = True  # what holds it up would hold up every later case
        except (KeyboardInterrupt, SystemExit):
            raise
        except HarnessError as e:
            self.harness.append("%s: %s" % (ctx.label, short(str(e), 1500)))
        except BaseException as e:
            self._record(ctx, "unexpected %s: %s" % (type(e).__name__, short(str(e), 500)), None, traceback.format_exc())
        else:
            for s in ctx.sigs:
                self.sigset.add(hashlib.blake2b(s.encode("utf-8", "surrogatepass"), digest_size=8).hexdigest())

    def _record(self, ctx, msg, witness, tb):
        self.violations.append({
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "shard": self.shard, "nshards": self.nshards,
            "hashseed": os.environ.get("PYTHONHASHSEED"),
            "case": ctx.label, "message": msg,
            "witness": short(witness, 6000) if witness is not None else None,
            "traceback": tb, "trace": ctx.trace[-200:],
        })

    def run(self, only=None):
        mod = importlib.import_module("rv.checks." + self.prop.lower())
        start_lines(self)
        t_end = time.monotonic() + self.time_cap
        n = mod.COUNT[self.tier]
        fixed = list(getattr(mod, "FIXED", ()))
        todo = [("fixed:" + f.__name__, f) for f in fixed]
        for f in getattr(mod, "SWEEPS", ()):
            todo += [("sweep:%s:%s" % (f.__name__, k), (lambda c, f=f, k=k: f(c, k))) for k in f.keys(self.tier)]
        todo = [x for j, x in enumerate(todo) if j % self.nshards == self.shard] if only is None else todo
        if only is not None:
            if only.startswith("case:"):
                i = int(only.split(":")[1])
                self.one(only, lambda c: mod.case(c, i))
            else:
                for label, f in todo:
                    if label == only:
                        self.one(label, f)
            return
        for label, f in todo:
            self.one(label, f)
            if self.stop or len(self.violations) >= 3:
                return
        for i in range(self.shard, n, self.nshards):
            if time.monotonic() > t_end:
                self.counters["stopped_at_time_cap"] = 1
                break
            self.one("case:%d" % i, lambda c: mod.case(c, i))
            if self.stop or len(self.violations) >= 3:
                return


def start_lines(worker):
    """Record which pymantic source lines the workload reached (evidence only)."""
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return
    tool = 3
    try:
        mon.use_tool_id(tool, "rv")
    except ValueError:
        return
    prefix = os.path.join(REPO, "src", "pymantic") + os.sep
    lines = worker.lines

    def on_line(code, line):
        fn = code.co_filename
        if fn.startswith(prefix):
            lines.setdefault(fn[len(prefix):], set()).add(line)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)


def main(argv):
    prop, tier, seed, shard, nshards, time_cap, out, known, only = argv
    resource.setrlimit(resource.RLIMIT_AS, (5 << 29, 5 << 29))
    signal.signal(signal.SIGPROF, _on_prof)
    signal.signal(signal.SIGALRM, _on_real)
    sys.setrecursionlimit(3000)
    w = Worker(prop, tier, int(seed), int(shard), int(nshards), set(json.loads(known)), float(time_cap))
    import pymantic

    here = os.path.realpath(os.path.dirname(pymantic.__file__))
    want = os.path.realpath(os.path.join(REPO, "src", "pymantic"))
    if here != want:
        raise SystemExit("pymantic imported from %s, not %s" % (here, want))
    import logging

    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    w.run(only or None)
    json.dump({
        "cases": w.cases, "counters": w.counters, "samples": w.samples,
        "known_hits": w.known_hits, "sigs": sorted(w.sigset),
        "violations": w.violations, "harness": w.harness[:5],
        "lines": {k: sorted(v) for k, v in w.lines.items()},
    }, open(out, "w"))


if __name__ == "__main__":
    sys.modules["rv.core"] = sys.modules["__main__"]  # one Violation, one NoProgress
    main(sys.argv[1:])
