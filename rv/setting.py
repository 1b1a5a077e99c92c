"""Runs cases of other checks in a process with unusual settings; prints what failed.

stdin: {"inside": {...}, "jobs": [[property, seed, [labels]]]}
"""
import json
import os
import sys


def trace(frame, event, arg):
    return trace


def apply(inside):
    """Settings made from inside, before pymantic is imported."""
    for m in inside.get("import", []):
        __import__(m)
    if "gc" in inside:
        import gc
        gc.set_threshold(*inside["gc"]) if inside["gc"] else gc.disable()
    if "locale" in inside:
        import locale
        locale.setlocale(locale.LC_ALL, inside["locale"])
    if "umask" in inside:
        os.umask(inside["umask"])
    if "cwd" in inside:
        os.chdir(inside["cwd"])
    if "decimal" in inside:
        import decimal
        decimal.getcontext().prec = inside["decimal"]
        decimal.getcontext().traps[decimal.Inexact] = True
    if "digits" in inside:
        sys.set_int_max_str_digits(inside["digits"])
    if "switch" in inside:
        sys.setswitchinterval(inside["switch"])
    if "nofile" in inside:
        import resource
        resource.setrlimit(resource.RLIMIT_NOFILE, (inside["nofile"],) * 2)
    if inside.get("no stdin"):
        sys.stdin = None
    if inside.get("no stderr"):
        sys.stderr = None
    if "logging" in inside:
        import io
        import logging
        logging.basicConfig(level=logging.DEBUG, stream=io.StringIO())
    if inside.get("numbers"):
        import random
        random.seed(0)


def main():
    spec = json.load(sys.stdin)
    apply(spec["inside"])
    import signal
    from rv import core
    signal.signal(signal.SIGPROF, core._on_prof)
    signal.signal(signal.SIGALRM, core._on_real)
    sys.setrecursionlimit(3000)
    import importlib
    import warnings

    import pymantic
    here = os.path.realpath(os.path.dirname(pymantic.__file__))
    if here != os.path.realpath(os.path.join(core.REPO, "src", "pymantic")):
        raise SystemExit("pymantic imported from %s" % here)
    if not spec["inside"].get("warnings"):
        warnings.simplefilter("ignore")
    else:
        warnings.simplefilter("ignore")
        for c in (BytesWarning, ResourceWarning, SyntaxWarning, RuntimeWarning, UnicodeWarning):  # not: what rdflib deprecates
            warnings.filterwarnings("error", category=c, module=r"pymantic(\.|$)")
    if "logging" not in spec["inside"]:
        import logging
        logging.disable(logging.CRITICAL)
    out = {"ran": 0, "failed": [], "harness": [], "oracle": 0, "sigs": 0}

    def work():
        if spec["inside"].get("trace"):
            sys.settrace(trace)
        for prop, seed, labels in spec["jobs"]:
            mod = importlib.import_module("rv.checks." + prop.lower())
            w = core.Worker(prop, "quick", seed, 0, 1, set(), 600)
            for label in labels:
                kind, _, rest = label.partition(":")
                if kind == "case":
                    w.one(label, lambda c: mod.case(c, int(rest)))
                else:
                    name, _, key = rest.partition(":")
                    f = [s for s in list(getattr(mod, "SWEEPS", ())) + list(getattr(mod, "FIXED", ())) if s.__name__ == name][0]
                    if kind == "fixed":
                        w.one(label, f)
                    else:
                        k = [x for x in f.keys("quick") if str(x) == key][0]
                        w.one(label, lambda c: f(c, k))
                if w.stop:
                    break
            out["ran"] += w.cases
            out["oracle"] += w.counters.get("oracle:evaluations", 0)
            out["sigs"] += len(w.sigset)
            out["failed"] += [[prop, seed, v["case"], v["message"][:3000], (v["traceback"] or "")[-1500:]] for v in w.violations]
            out["harness"] += w.harness
        sys.settrace(None)

    if spec["inside"].get("thread"):
        import threading
        t = threading.Thread(target=work)
        t.start()
        t.join()
    else:
        work()
    sys.__stdout__.write("\n#RESULT " + json.dumps(out) + "\n")
    sys.__stdout__.flush()


if __name__ == "__main__":
    main()
