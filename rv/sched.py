"""A token scheduler: one thread runs at a time, switches happen at source lines.

Each worker thread is traced (sys.settrace). At every line event in the watched
source tree the running thread may hand the token to another thread, chosen by
the case's random generator, so a run explores one line-level interleaving and
the same seed explores it again. A holder that blocks (say, on a lock another
thread holds) loses the token after STALL seconds.
"""
import sys
import threading
import time

STALL = 0.3
LIMIT = 70.0


class Sched:
    def __init__(self, rng, prefixes, p):
        self.rng, self.prefixes, self.p = rng, tuple(prefixes), p
        self.cond = threading.Condition()
        self.turn = 0
        self.alive = set()
        self.progress = 0
        self.switches = 0
        self.steps = 0
        self.stalls = 0
        self.schedule = []
        self.watch = {}

    def _wait(self, k):
        # cond held
        seen = self.progress
        while self.turn != k:
            if not self.cond.wait(STALL) and self.turn != k:
                if self.progress == seen:
                    self.turn = k
                    self.stalls += 1
                    self.cond.notify_all()
                    return
            seen = self.progress

    def step(self, k, where=None):
        """A point at which thread k may be preempted."""
        with self.cond:
            self.progress += 1
            self.steps += 1
            if self.turn != k:  # lost the token while blocked
                self._wait(k)
            if self.rng.random() < self.p:
                others = sorted(self.alive - {k})
                if others:
                    self.turn = self.rng.choice(others)
                    self.switches += 1
                    if len(self.schedule) < 2000:
                        self.schedule.append((k, where))
                    self.cond.notify_all()
                    self._wait(k)

    def _tracer(self, k):
        watch, prefixes, step = self.watch, self.prefixes, self.step

        def local(frame, event, arg):
            if event == "line":
                step(k, (frame.f_code.co_name, frame.f_lineno))
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            w = watch.get(fn)
            if w is None:
                w = watch[fn] = fn.startswith(prefixes)
            return local if w else None

        return glob

    def run(self, fns):
        """Run the callables, each in its own thread; list of (value, exception)."""
        out = [None] * len(fns)
        self.alive = set(range(len(fns)))
        self.turn = self.rng.randrange(len(fns))

        def body(k):
            with self.cond:
                self._wait(k)
            sys.settrace(self._tracer(k))
            try:
                out[k] = (fns[k](), None)
            except BaseException as e:
                sys.settrace(None)
                out[k] = (None, e)
            finally:
                sys.settrace(None)
                with self.cond:
                    self.alive.discard(k)
                    self.progress += 1
                    if self.alive and self.turn == k:
                        self.turn = self.rng.choice(sorted(self.alive))
                    self.cond.notify_all()

        ths = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(fns))]
        for t in ths:
            t.start()
        end = time.monotonic() + LIMIT
        for t in ths:
            t.join(max(0.1, end - time.monotonic()))
        stuck = [k for k, t in enumerate(ths) if t.is_alive()]
        return out, stuck


def free_run(fns, interval=1e-6):
    """The same callables, preempted by the interpreter as often as possible."""
    out = [None] * len(fns)
    gate = threading.Barrier(len(fns))

    def body(k):
        try:
            gate.wait(60)
            out[k] = (fns[k](), None)
        except BaseException as e:
            out[k] = (None, e)

    old = sys.getswitchinterval()
    ths = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(fns))]
    try:
        sys.setswitchinterval(interval)
        for t in ths:
            t.start()
        end = time.monotonic() + LIMIT
        for t in ths:
            t.join(max(0.1, end - time.monotonic()))
    finally:
        sys.setswitchinterval(old)
    return out, [k for k, t in enumerate(ths) if t.is_alive()]
