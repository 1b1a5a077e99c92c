"""C35: Turtle output is ordered and reproducible."""
from collections import Counter
import io
import json
import os
import subprocess
import sys

from pymantic.primitives import Graph, PrefixMap, Profile, TermMap
from pymantic.serializers import serialize_ntriples, serialize_turtle

from rv import gen, ttl
from rv.checks.c12 import BASES, profile, with_lists
from rv.lines import Sink, features
from rv.model import B, I, L, bnodes
from rv.pm import Maker

RULE = "distinct (term features, prefixes, base, lists, number of subjects and blank nodes) graphs whose text was compared between writes, histories, or processes"
ASSUMES = ["a token's spelling in the output is the written name things are ordered by", "the order of the objects of one subject and predicate is left open between different histories"]
COUNT = {"quick": 2500, "thorough": 30000}
MIN_EVENTS = {"oracle:evaluations": 8000, "texts": 2250, "subjects in order": 4500, "predicates in order": 7400, "same text again": 600, "other history": 400, "other nodes": 150, "own labels": 90, "texts from other processes": 150}


def write(ctx, g, base=None, prof=None, names=None):
    out = ctx.rng.choice([Sink, io.StringIO])()
    kw = {}
    if base is not None:
        kw["base"] = base
    if prof is not None:
        kw["profile"] = prof
    if names is not None:
        kw["bnode_name_generator"] = names
    ctx.call("serialize_turtle", serialize_turtle, g, out, **kw)
    ctx.ev("texts")
    return out.getvalue()


def parts(text):
    """(directives, [(subject, [(predicate, [object])])]) by spelling."""
    toks = [t[1] for t in ttl.lex(text)]
    i, dirs, body = 0, [], []
    while toks[i] != "":
        if toks[i].lower() in ("@prefix", "@base", "prefix", "base"):
            j = i
            while not toks[j].startswith("<"):
                j += 1
            j += 1
            dirs.append(tuple(toks[i:j]))
            i = j + (toks[j] == ".")
            continue
        subj, preds = toks[i], []
        i += 1
        while toks[i] != ".":
            pred, objs, cur, depth = toks[i], [], [], 0
            i += 1
            while True:
                t = toks[i]
                if depth == 0 and t in (",", ";", "."):
                    objs.append(" ".join(cur))
                    cur = []
                    if t != ",":
                        break
                    i += 1
                    continue
                if t == "":
                    raise ttl.TurtleError("the statement does not end")
                depth += {"(": 1, "[": 1, ")": -1, "]": -1}.get(t, 0)
                cur.append(t)
                i += 1
            preds.append((pred, objs))
            while toks[i] == ";":
                i += 1
        i += 1
        body.append((subj, preds))
    return dirs, body


def ordered(ctx, text, prof=None, base=None):
    try:
        dirs, body = parts(text)
    except (ttl.TurtleError, IndexError) as e:
        ctx.fail("the output is not valid Turtle: %s\n%s" % (e, text[:3000]), text)
    subs = [s for s, _ in body]
    ctx.ev("subjects in order", len(subs))
    ctx.expect(len(subs) == len(set(subs)), lambda: "a subject is written in several places\n" + text[:3000], text)
    ctx.expect(subs == sorted(subs), lambda: "subjects are not in order: %r\n%s" % (subs, text[:3000]), text)
    for s, preds in body:
        ps = [p for p, _ in preds]
        ctx.ev("predicates in order", len(ps))
        ctx.expect(len(ps) == len(set(ps)), lambda: "a predicate of %s is written in several places\n%s" % (s, text[:3000]), text)
        ctx.expect(ps == sorted(ps), lambda: "predicates of %s are not in order: %r\n%s" % (s, ps, text[:3000]), text)
        for p, objs in preds:
            flat = [o for o in objs if not o.startswith("(")]
            # A literal without a datatype and one that is an xsd:string are written alike.
            ctx.expect(all(n <= (2 if o.endswith('"') else 1) for o, n in Counter(flat).items()), lambda: "an object of %s %s is written twice: %r" % (s, p, objs), text)
    names = [d[1] for d in dirs if d[0] == "@prefix"]
    ctx.expect(len(names) == len(set(names)), lambda: "a prefix is declared twice: %r" % dirs, text)
    if prof is not None:
        order = [p + ":" for p in prof.prefixes]
        ctx.expect([n for n in order if n in names] == [n for n in names if n in order], lambda: "prefixes are not declared in the profile's order: %r, %r" % (names, order), text)
    return dirs, body


def canon(p):
    return p[0], [(s, [(q, sorted(o)) for q, o in ps]) for s, ps in p[1]]


def fill(stmts, m):
    g = Graph()
    for s in stmts:
        g.add(m.triple(s))
    return g


def setting(rng, stmts):
    iris = sorted({t[1] for s in stmts for t in s if t[0] == "I"} | {t[3] for s in stmts for t in s if t[0] == "L" and t[3]})
    prof, shape, base = None, None, None
    if rng.random() < 0.5:
        prof, shape = profile(rng, iris)
    if rng.random() < 0.35:
        base = rng.choice(BASES)
    return prof, shape, base


def graph(rng, i):
    big = i % 50 == 3
    r = rng.random()
    if r < 0.3:
        st = gen.graph(rng, n=None if not big else 80, nb=0)
    elif r < 0.55:  # names close to each other
        pool = ["http://e/a", "http://e/a/", "http://e/a/b", "http://e/a#b", "http://e/aa", "http://e/A", "http://e/b", "http://e/a-", "http://e/a\u00e9", "http://e/a10", "http://e/a2", "http://e/", "urn:a", "http://example.org/x"]
        st = {(I(rng.choice(pool)), I(rng.choice(pool)), I(rng.choice(pool)) if rng.random() < 0.6 else gen.literal(rng)) for _ in range(rng.choice([2, 8, 30]))}
    elif r < 0.8:
        st = gen.graph(rng, n=None if not big else 80)
    else:
        st = with_lists(rng, gen.graph(rng) if rng.random() < 0.5 else set())[0]
    return gen.shuffled(rng, st)


def case(ctx, i):
    rng = ctx.rng
    stmts = graph(rng, i)
    prof, shape, base = setting(rng, stmts)
    m = Maker()
    g = fill(stmts, m)
    text = write(ctx, g, base, prof)
    first = ordered(ctx, text, prof, base)
    # something else is written in between
    if rng.random() < 0.5:
        other = fill(graph(rng, 0), Maker() if rng.random() < 0.5 else m)
        write(ctx, other, base if rng.random() < 0.5 else None, prof if rng.random() < 0.5 else None)
        serialize_ntriples(g, io.StringIO())
    ctx.ev("same text again")
    ctx.same(write(ctx, g, base, prof), text, "the text of the same graph, written again")
    nb = len(bnodes(stmts))
    if nb:
        ctx.ev("other nodes")
        ctx.same(write(ctx, fill(stmts, Maker()), base, prof), text, "the text of the same statements about other blank nodes, added in the same order")
    else:
        ctx.ev("other history")
        m2 = Maker()
        g2 = Graph() if rng.random() < 0.8 else Graph("http://e/name")
        extra = [s for s in gen.shuffled(rng, gen.graph(rng, n=6)) if s not in stmts]
        ops = gen.shuffled(rng, [("+", s) for s in stmts] + [("+", s) for s in extra] + [("+", s) for s in stmts if rng.random() < 0.2])
        again = [s for s in stmts if rng.random() < 0.2]
        for _, s in ops:
            g2.add(m2.triple(s))
        for s in gen.shuffled(rng, set(extra) | set(again)):
            g2.remove(m2.triple(s))
        for s in gen.shuffled(rng, again):
            g2.add(m2.triple(s))
        prof2 = prof
        if prof is not None and rng.random() < 0.5:  # an equal profile
            prof2 = Profile(PrefixMap(prof.prefixes), TermMap(prof.terms))
        t2 = write(ctx, g2, base, prof2)
        second = ordered(ctx, t2, prof, base)
        ctx.expect(canon(second) == canon(first), lambda: "the same statements added in another order are written differently\n-- one:\n%s\n-- other:\n%s" % (text[:3000], t2[:3000]), (text, t2))
    if nb and rng.random() < 0.5:
        ctx.ev("own labels")
        given = []

        def names():
            k = 0
            while True:
                k += 1
                given.append("_:my%dx" % k)
                yield given[-1]

        t3 = write(ctx, g, base, prof, names)
        used = {t[1] for t in ttl.lex(t3) if t[0] == "BNODE"}
        ctx.same(used, set(given), "labels of blank nodes against those taken from the given generator")
        ordered(ctx, t3, prof, base)
    if stmts:
        ctx.sig(features(stmts), shape, base, nb, len(first[1]))
    ctx.sample(text)


CHILD = """
import io, json, sys
from pymantic.primitives import Graph, Profile
from pymantic.serializers import serialize_turtle
from rv.pm import Maker
out = []
for stmts, base, prefixes in json.load(sys.stdin):
    m = Maker()
    g = Graph()
    for s in stmts:
        g.add(m.triple([tuple(t) for t in s]))
    kw = {}
    if prefixes is not None:
        kw["profile"] = Profile()
        for p, ns in prefixes:
            kw["profile"].setPrefix(p, ns)
    f = io.StringIO()
    serialize_turtle(g, f, base=base, **kw)
    out.append(f.getvalue())
json.dump(out, sys.stdout)
"""


def processes(ctx, key):
    """The same program run with other hash seeds writes the same text."""
    rng = ctx.rng
    jobs = []
    for i in range(60):
        stmts = graph(rng, i)
        if rng.random() < 0.5:
            k = rng.choice([3, 8])  # many predicates and objects of one subject
            stmts = stmts + [(I("http://e/s"), I("http://e/p%d" % (j * 7 % 11)), L(str(j))) for j in range(k)] + [(B("n%d" % j), I("http://e/p"), B("n%d" % (j + 1))) for j in range(k)]
            stmts = list(dict.fromkeys(stmts))
        ren = {}
        stmts = [tuple(B(ren.setdefault(t[1], "n%d" % len(ren))) if t[0] == "B" else t for t in st) for st in stmts]
        prof, shape, base = setting(rng, stmts)
        jobs.append((stmts, base, None if prof is None else list(prof.prefixes.items())))
        ctx.sig("processes", features(stmts), shape, base)
    texts = []
    for seed in key:
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        p = subprocess.run([sys.executable, "-c", CHILD], input=json.dumps(jobs), env=env, capture_output=True, text=True, encoding="utf-8", timeout=300)
        ctx.expect(p.returncode == 0, lambda: "writing graphs in a process with hash seed %s failed:\n%s" % (seed, p.stderr[-3000:]))
        texts.append(json.loads(p.stdout))
        ctx.ev("texts from other processes", len(jobs))
    for seed, ts in zip(key[1:], texts[1:]):
        for j, (a, b) in enumerate(zip(texts[0], ts)):
            ctx.expect(a == b, lambda: "hash seeds %s and %s give different text\n-- one:\n%s\n-- other:\n%s" % (key[0], seed, a[:3000], b[:3000]), (a, b))


processes.keys = lambda tier: [(0, 1, 2), (3, 4, 4711), (5, 6, 7), (8, 9, "random")] + ([(10, 11, 12, 13), (14, 15, 16, "random"), (17, 18, 19, 20), (21, 22, 23, 24)] if tier == "thorough" else [])


def large(ctx, key):
    """Many subjects, predicates or blank nodes."""
    kind, n = key
    if kind == "subjects":
        stmts = [(I("http://e/s%d" % (k * 7919 % n)), I("http://e/p"), L("v%d" % k)) for k in range(n)]
    elif kind == "predicates":
        stmts = [(I("http://e/s%d" % (k % 2)), I("http://e/p%d" % (k * 7919 % n)), L("v%d" % k)) for k in range(n)]
    else:
        stmts = [(B("n%d" % k), I("http://e/p%d" % (k % 3)), B("n%d" % (k * 7919 % n))) for k in range(n)]
    m = Maker()
    g = fill(stmts, m)
    prof, shape, base = setting(ctx.rng, stmts)
    text = write(ctx, g, base, prof)
    ordered(ctx, text, prof, base)
    ctx.expect(write(ctx, g, base, prof) == text, "a large graph written twice gives two texts")
    ctx.sig("large", key)


large.keys = lambda tier: [(kind, n) for kind in ("subjects", "predicates", "nodes") for n in ([300, 2500] + ([12000] if tier == "thorough" else []))]
SWEEPS = [processes, large]
FIXED = []
