"""C39: results do not depend on the settings of interpreter and process."""
import importlib
import json
import os
import subprocess
import sys
import tempfile

from rv.core import REPO
from rv.model import HarnessError

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
RULE = "distinct (setting, check whose cases ran under it) pairs"
ASSUMES = ["the oracles are those of the other checks; a case that fails under the ordinary settings too is theirs", "only locales installed here (C, C.utf8, POSIX)"]
MIN_EVENTS = {"oracle:evaluations": 250, "cases under other settings": 3850, "settings": 9, "their oracle evaluations": 50000}

# (name, interpreter options, environment, settings from inside)
SETTINGS = [
    ("-O", ["-O"], {}, {}), ("-OO", ["-OO"], {}, {}), ("-O and hash seed", ["-O"], {"PYTHONHASHSEED": "77"}, {}), ("-bb", ["-bb"], {}, {"warnings": True}), ("development mode", ["-X", "dev"], {}, {"warnings": True}),
    ("hash seed 0", [], {"PYTHONHASHSEED": "0"}, {}), ("hash seed 1", [], {"PYTHONHASHSEED": "1"}, {}), ("hash seed at random", [], {"PYTHONHASHSEED": "random"}, {}),
    ("C locale", [], {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "ascii:strict"}, {}), ("POSIX locale set", [], {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"locale": ""}), ("UTF-8 locale set", [], {"LC_ALL": "C.utf8", "LANGUAGE": "tr"}, {"locale": ""}), ("UTF-8 mode", ["-X", "utf8"], {"LC_ALL": "C"}, {}),
    ("time zone east", [], {"TZ": "Pacific/Kiritimati"}, {}), ("time zone west", [], {"TZ": "XXX11:30YYY"}, {}), ("no time zone", [], {"TZ": ""}, {}),
    ("own directory", [], {}, {"cwd": "/", "umask": 0o777}), ("no home", [], {"HOME": None, "USER": None, "PATH": None, "TMPDIR": None}, {}),
    ("collector always", [], {}, {"gc": [1, 1, 1]}), ("no collector", [], {}, {"gc": []}), ("allocator debug", [], {"PYTHONMALLOC": "debug"}, {}), ("malloc", [], {"PYTHONMALLOC": "malloc"}, {}),
    ("trace function", [], {}, {"trace": True}), ("other thread", [], {}, {"thread": True}), ("fast switches", [], {}, {"switch": 1e-6, "thread": True}), ("decimal context", [], {}, {"decimal": 2}), ("short integers", [], {}, {"digits": 640}),
    ("no standard streams", [], {}, {"no stdin": True, "no stderr": True}), ("all logged", [], {}, {"logging": True}), ("seeded numbers", [], {}, {"numbers": True}),
    ("sparql first", [], {}, {"import": ["pymantic.sparql"]}), ("serializers first", [], {}, {"import": ["pymantic.serializers", "pymantic.util"]}), ("skos first", [], {}, {"import": ["pymantic.vocab.skos"]}), ("jsonld first", [], {}, {"import": ["pymantic.parsers.jsonld", "pymantic.rdf"]}), ("parsers last", [], {}, {"import": ["pymantic.primitives", "pymantic.rdf", "pymantic.parsers.lark.turtle"]}),
    ("no caches", ["-B", "-X", "no_debug_ranges"], {"PYTHONNODEBUGRANGES": "1", "PYTHONDONTWRITEBYTECODE": "1"}, {}), ("warnings as errors", ["-W", "error"], {}, {"warnings": True}),
]
COUNT = {"quick": len(SETTINGS), "thorough": 12 * len(SETTINGS)}

# checks whose cases judge results alone (not time, memory, threads or processes), and how many cases of each to run
CHECKS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C35", "C37"]
BRIEF = {"C13": ["curated", "illegal_iri"]}  # sweeps of short cases worth running too
THREADS = {"C01": 0, "C25": 8}


def run(opts, env, inside, jobs, tmp):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON") and k not in ("LC_ALL", "LANG", "TZ")}
    e.update(PYTHONPATH=HERE + os.pathsep + os.path.join(REPO, "src"), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO)
    for k, v in env.items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    r = subprocess.run([sys.executable] + opts + ["-m", "rv.setting"], input=json.dumps({"inside": inside, "jobs": jobs}).encode(), capture_output=True, timeout=600, env=e, cwd=tmp)
    lines = [x for x in r.stdout.decode("utf-8", "replace").split("\n") if x.startswith("#RESULT ")]
    return (json.loads(lines[-1][8:]) if lines and r.returncode == 0 else None), r.returncode, r.stderr.decode("utf-8", "replace")[-2500:]


def case(ctx, i):
    rng = ctx.rng
    name, opts, env, inside = SETTINGS[i % len(SETTINGS)]
    per = 3 if inside.get("trace") or inside.get("gc") else 14
    jobs = []
    for c in CHECKS:
        mod = importlib.import_module("rv.checks." + c.lower())
        lo = rng.randrange(mod.COUNT["quick"] - per)
        labels = ["case:%d" % k for k in range(lo, lo + per)]
        if name.startswith("-O") or i >= len(SETTINGS):
            for f in getattr(mod, "SWEEPS", ()):
                if f.__name__ in BRIEF.get(c, ()):
                    keys = [str(k) for k in f.keys("quick")]
                    labels += ["sweep:%s:%s" % (f.__name__, k) for k in rng.sample(keys, min(len(keys), 40))]
        jobs.append([c, rng.randrange(10 ** 6), labels])
    with tempfile.TemporaryDirectory(prefix="rv39-") as tmp:
        out, rc, err = run(opts, env, inside, jobs, tmp)
        ctx.log("setting", name, opts, env, inside)
        ctx.ev("settings")
        if out is None:
            # nothing ran to its end: is it the setting?
            plain, rc2, err2 = run([], {}, {}, jobs, tmp)
            if plain is None:
                raise HarnessError("the cases do not run under ordinary settings either: %d %s" % (rc2, err2))
            ctx.fail("with %s the process fails (%d); without, it runs\n%s" % (name, rc, err))
        ctx.ev("cases under other settings", out["ran"])
        ctx.ev("their oracle evaluations", out["oracle"])
        if out["harness"]:
            raise HarnessError("with %s: %s" % (name, out["harness"][:2]))
        ctx.ev("oracle:evaluations", len(jobs))
        for prop, seed, label, msg, tb in out["failed"]:
            plain, rc2, err2 = run([], {}, {}, [[prop, seed, [label]]], tmp)
            if plain is None:
                raise HarnessError("%s %s: %s" % (prop, label, err2))
            if plain["failed"]:
                ctx.ev("fails under any setting")
                continue
            again, _, _ = run(opts, env, inside, [[prop, seed, [label]]], tmp)
            if again is not None and not again["failed"] and prop not in ("C24",):
                ctx.ev("failed once")  # depends on what ran before; judged by running it all without the setting
                plain, rc2, err2 = run([], {}, {}, jobs, tmp)
                if plain is None or any(x[:3] == [prop, seed, label] for x in plain["failed"]):
                    ctx.ev("fails under any setting")
                    continue
            ctx.fail("with %s, not without: %s %s (seed %d): %s\n%s" % (name, prop, label, seed, msg, tb))
        for c in CHECKS:
            ctx.sig(name, c)


FIXED = []
