"""C42: deep copies and pickles of graphs, data sets, maps, profiles and resources."""
import atexit
import copy
import os
import pickle
import random
import struct
import subprocess
import sys
import tempfile

from pymantic.primitives import BlankNode, Dataset, Graph, Literal, NamedNode, PrefixMap, Profile, Quad, RDFEnvironment, TermMap, Triple
from pymantic.rdf import Resource, register_class

from rv import gen
from rv.graphs import Universe, all_shapes, mutate, new_graph, patterns, see_all, see_match, see_set
from rv.model import B, HarnessError, I, L
from rv.pm import Maker, Reader

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
RULE = "distinct (kind of object, ways of copying, operations before and after) histories"
ASSUMES = ["copies of several objects that share blank nodes are made in one call, as a tuple", "a resource of a combined class is deep-copied, not pickled (such a class has no module of its own)", "copy.copy makes shallow copies, which share what they hold, as for any Python object; not judged", "no thread changes an object while it is copied"]
COUNT = {"quick": 12000, "thorough": 200000}
MIN_EVENTS = {"oracle:evaluations": 100000, "way:deepcopy": 500, "way:pickle": 1000, "way:elsewhere": 500, "kind:graph": 500, "kind:dataset": 300, "kind:maps": 100, "kind:resource": 200, "copies of copies": 300, "changes after copying": 5000, "blank nodes copied": 1000, "observed elsewhere": 400}

NS = "http://c42.example/"


@register_class(NS + "Person")
class Person(Resource):
    prefixes = {"e": NS}


@register_class(NS + "Cook")
class Cook(Resource):
    prefixes = {"e": NS}


# -- observations shared with the other process ------------------------------
def twin(u, nodes, rng):
    """The universe u as seen from a copy: nodes stand for the blank nodes."""
    v = Universe.__new__(Universe)
    v.__dict__.update(u if isinstance(u, dict) else u.__dict__)
    v.rng = rng
    v.maker = Maker()
    v.maker.b = dict(nodes)
    v.reader = Reader(v.maker)
    return v


def pool(u):
    return {k: getattr(u, k) for k in ("subs", "preds", "objs", "absent", "names")}


def see_dataset(ctx, d, model, u, what):
    ctx.same(len(d), len(model), "len(%s)" % what)
    ctx.same(u.reader.stmts(iter(d), ctx, "iterating the %s" % what), model, "iterating the %s" % what)
    ctx.same(u.reader.stmts(d.toArray()), model, "toArray() of the %s" % what)
    r = u.rng
    ms = sorted(model, key=repr)
    for _ in range(6):
        q = r.choice(ms) if ms and r.random() < 0.7 else u.rand_triple() + (r.choice(u.names),)
        ctx.same(bool(u.quad(q) in d), q in model, "membership of %r in the %s" % (q, what))
        ctx.same(bool(u.triple(q[:3]) in d), any(x[:3] == q[:3] for x in model), "membership of %r in some graph of the %s" % (q[:3], what))
        for m in range(0, 16, r.choice([1, 3, 5])):
            pat = tuple(x if m >> j & 1 else None for j, x in enumerate(q))
            got = u.reader.stmts(ctx.call("match", d.match, *[u.term(x) for x in pat]), ctx, "match%r" % (pat,))
            ctx.same(got, {x for x in model if all(a is None or a == b for a, b in zip(pat, x))}, "match%r on the %s" % (pat, what))
    per = {}
    for x in model:
        per.setdefault(x[3], set()).add(x[:3])
    seen = {}
    for g in d.graphs:
        if len(g):
            seen[u.reader.term(g.uri)] = u.reader.stmts(iter(g))
    ctx.same(seen, per, "the graphs of the %s" % what)


def see_maps(ctx, o, model, what):
    pre, terms, default = model["prefixes"], model["terms"], model["default"]
    ps = o if isinstance(o, PrefixMap) else getattr(o, "prefixes", None)
    ts = o if isinstance(o, TermMap) else getattr(o, "terms", None)
    if ps is not None:
        ctx.expect(isinstance(ps, PrefixMap), "the prefixes of the %s are a %s" % (what, type(ps).__name__))
        ctx.same(list(ps.items()), list(pre.items()), "the prefixes of the %s, in order" % what)
        for p, iri in pre.items():
            ctx.same(ctx.call("resolve", (o if isinstance(o, Profile) else ps).resolve, p + ":local"), iri + "local", "resolving %r in the %s" % (p + ":local", what))
    if ts is not None:
        ctx.expect(isinstance(ts, TermMap), "the terms of the %s are a %s" % (what, type(ts).__name__))
        ctx.same(dict(ts), terms, "the terms of the %s" % what)
        for t, iri in list(terms.items()) + [("unknown", None if default is None else default + "unknown")]:
            ctx.same(ctx.call("resolve", (o if isinstance(o, Profile) else ts).resolve, t), iri, "resolving the term %r in the %s" % (t, what))


def see(ctx, kind, o, model, u, what):
    if kind == "graph":
        see_all(ctx, o, model["triples"], u, what, npat=4)
        ctx.same(u.reader.term(o.uri), model["uri"], "the name of the %s" % what)
    elif kind == "dataset":
        see_dataset(ctx, o, model["quads"], u, what)
    elif kind == "maps":
        see_maps(ctx, o, model, what)
    else:
        see_resource(ctx, o, model, u, what)


def see_resource(ctx, r, model, u, what):
    rd = u.reader
    ctx.same(rd.term(r.subject), model["subject"], "the subject of the %s" % what)
    ctx.same(type(r).__name__, model["class"], "the class of the %s" % what)
    see_set(ctx, r.graph, model["triples"], u, "graph of the " + what)
    for p in [NS + "name", NS + "dish", NS + "knows"]:
        want = {t[2] for t in model["triples"] if t[:2] == (model["subject"], I(p))}
        got = list(ctx.call("get", r.__getitem__, (NamedNode(p), None)))
        ctx.same({rd.term(x.subject if isinstance(x, Resource) else x) for x in got}, want, "%s of the %s" % (p, what))
        for x in got:
            if isinstance(x, Resource):
                ctx.expect(x.graph is r.graph, "a value of the %s looks into another graph" % what)
    ctx.expect(r == type(r)(r.graph, u.term(model["subject"])) and len({r, type(r)(r.graph, u.term(model["subject"]))}) == 1, "the %s differs from another resource for its subject" % what)


# -- changes -----------------------------------------------------------------
def change(ctx, kind, o, model, u, tag):
    r = u.rng
    if kind == "graph":
        return mutate(ctx, o, model["triples"], u)
    if kind == "dataset":
        qs = model["quads"]
        x = r.random()
        if x < 0.35 and qs:
            q = r.choice(sorted(qs, key=repr))
            ctx.call("remove", o.remove, u.quad(q))
            qs.discard(q)
            return "remove"
        if x < 0.45:
            s = r.choice(u.subs)
            ctx.call("removeMatches", o.removeMatches, u.term(s), None, None)
            model["quads"] -= {q for q in qs if q[0] == s}
            return "removeMatches"
        q = u.rand_triple() + (r.choice(u.names),)
        ctx.call("add", o.add, u.quad(q))
        qs.add(q)
        return "add"
    if kind == "maps":
        ps = o if isinstance(o, PrefixMap) else getattr(o, "prefixes", None)
        ts = o if isinstance(o, TermMap) else getattr(o, "terms", None)
        if ts is None or (ps is not None and r.random() < 0.5):
            p, iri = r.choice(["a", "b", "c", "", "rdf"]), "http://%s.example/%d#" % (tag, r.randrange(9))
            if p == "":
                ctx.call("setDefault", ps.setDefault, iri)
            elif r.random() < 0.2 and p in model["prefixes"]:
                del ps[p]
                del model["prefixes"][p]
                return "remove"
            else:
                ps[p] = iri
            model["prefixes"][p] = iri
            return "add"
        if r.random() < 0.3:
            iri = "http://%s.example/default/%d#" % (tag, r.randrange(9))
            ctx.call("setDefault", ts.setDefault, iri)
            model["default"] = iri
            return "default"
        t, iri = r.choice(["x", "y", "z"]), "http://%s.example/%d" % (tag, r.randrange(9))
        ts[t] = iri
        model["terms"][t] = iri
        return "add"
    x = r.random()
    if x < 0.5:
        p = r.choice([NS + "name", NS + "dish", NS + "knows"])
        v = r.choice([L("v%d" % r.randrange(5)), L("w", "en"), r.choice(u.subs)])
        ctx.call("set", o.__setitem__, (NamedNode(p), None), {u.term(v)})
        model["triples"] -= {t for t in model["triples"] if t[:2] == (model["subject"], I(p))}
        model["triples"].add((model["subject"], I(p), v))
        return "set"
    return mutate(ctx, o.graph, model["triples"], u)


def make(ctx, kind, rng):
    u = Universe(rng, graphs=1)
    if kind == "graph":
        g = new_graph(rng)
        return g, {"triples": set(), "uri": u.reader.term(g.uri)}, u
    if kind == "dataset":
        return Dataset(), {"quads": set()}, u
    if kind == "maps":
        o = rng.choice([PrefixMap, TermMap, Profile, RDFEnvironment])()
        ps = o if isinstance(o, PrefixMap) else getattr(o, "prefixes", None)
        return o, {"prefixes": dict(ps or {}), "terms": {}, "default": None}, u
    cls = rng.choice([Resource, Person, Cook, "both"])
    g = Graph()
    s = rng.choice(u.subs)
    model = {"triples": set(), "subject": s, "class": cls if isinstance(cls, str) else cls.__name__}
    for c in {Resource: [], Person: ["Person"], Cook: ["Cook"], "both": ["Person", "Cook"]}[cls]:
        t = (s, I("http://www.w3.org/1999/02/22-rdf-syntax-ns#type"), I(NS + c))
        g.add(u.triple(t))
        model["triples"].add(t)
    o = ctx.call("classify", Resource.classify, g, u.term(s))
    model["class"] = type(o).__name__
    return o, model, u


# -- copying -----------------------------------------------------------------
class Elsewhere:
    """Another interpreter, with another hash seed, that opens what it is sent,
    observes and changes it, and sends it back."""

    def __init__(self):
        env = {k: v for k, v in os.environ.items()}
        env["PYTHONHASHSEED"] = str(int(os.environ.get("PYTHONHASHSEED", "0") if os.environ.get("PYTHONHASHSEED", "0").isdigit() else 0) + 1000)
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([sys.executable, "-m", "rv.far"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=HERE)
        atexit.register(self.close)

    def close(self):
        self.p.stdin.close()
        self.p.wait(30)

    def ask(self, data):
        self.p.stdin.write(struct.pack(">I", len(data)) + data)
        self.p.stdin.flush()
        h = self.p.stdout.read(4)
        if len(h) < 4:
            self.err.seek(0)
            raise HarnessError("the other process ended: %r" % self.err.read()[-1500:])
        return pickle.loads(self.p.stdout.read(struct.unpack(">I", h)[0]))


FAR = []


class Note:
    """What an observation needs of a check's context, in the other process."""

    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def ev(self, kind, n=1):
        pass

    def log(self, *a):
        pass

    def call(self, name, fn, *a, **k):
        return fn(*a, **k)

    def expect(self, cond, msg, witness=None):
        self.n += 1
        if not cond:
            raise AssertionError(msg() if callable(msg) else msg)

    def same(self, got, want, what, witness=None):
        self.n += 1
        if got != want:
            raise AssertionError("%s: got %.600r, expected %.600r" % (what, got, want))

    def fail(self, msg, witness=None):
        raise AssertionError(msg)

    def raises(self, name, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc as e:
            return e
        raise AssertionError("%s did not raise" % name)


def visit(job):
    """In the other process: (pickle, facts) -> (problem, pickle, new model, observations)."""
    ctx = Note(random.Random(job["seed"]))
    try:
        o, nodes = pickle.loads(job["data"])
        u = twin(job["pool"], nodes, ctx.rng)
        model = job["model"]
        see(ctx, job["kind"], o, model, u, "%s in another process" % job["kind"])
        for _ in range(job["changes"]):
            change(ctx, job["kind"], o, model, u, "elsewhere")
        if job["changes"]:
            see(ctx, job["kind"], o, model, u, "%s changed in another process" % job["kind"])
        return (None, pickle.dumps((o, u.maker.b), job["protocol"]), model, ctx.n)
    except Exception as e:
        return ("%s: %s" % (type(e).__name__, e) if not isinstance(e, AssertionError) else str(e), None, None, ctx.n)


def copied(ctx, way, kind, o, model, u, rng):
    """(copy, its model, its universe) of the object o."""
    ctx.ev("way:" + way.split(" ")[0])
    nodes = dict(u.maker.b)
    model = copy.deepcopy(model)
    for n in nodes.values():
        u.reader.term(n)
    if way == "deepcopy":
        o2, nodes2 = ctx.call("deepcopy", copy.deepcopy, (o, nodes))
    elif way == "pickle":
        proto = rng.randrange(pickle.HIGHEST_PROTOCOL + 1)
        dumps, loads = rng.choice([(pickle.dumps, pickle.loads), (pickle._dumps, pickle._loads)])
        data = ctx.call("dumps", dumps, (o, nodes), proto)
        o2, nodes2 = ctx.call("loads", loads, data)
    else:
        if not FAR:
            FAR.append(Elsewhere())
        changes = rng.choice([0, 0, 1, 5])
        data = ctx.call("dumps", pickle.dumps, (o, nodes), rng.randrange(2, pickle.HIGHEST_PROTOCOL + 1))
        bad, data, model, n = FAR[0].ask(pickle.dumps({"data": data, "kind": kind, "model": model, "pool": pool(u), "seed": rng.randrange(1 << 30), "changes": changes, "protocol": rng.randrange(2, pickle.HIGHEST_PROTOCOL + 1)}))
        ctx.ev("oracle:evaluations", n)
        ctx.ev("observed elsewhere")
        if bad:
            ctx.fail(bad)
        o2, nodes2 = ctx.call("loads", pickle.loads, data)
    ctx.ev("blank nodes copied", len(nodes2))
    for b, n in nodes2.items():
        ctx.expect(isinstance(n, BlankNode), "a copied blank node is a %s" % type(n).__name__)
        for b2, n2 in list(nodes.items()) + list(nodes2.items()):
            if n2 is not n:
                ctx.expect(n2 != n and str(n2) != str(n), "a blank node and a copied one, or two copied ones, are taken for one: %s %s" % (n, n2))
    ctx.expect(type(o2) is type(o), "a copied %s is a %s" % (type(o).__name__, type(o2).__name__))
    return o2, model, twin(u, nodes2, rng)


def case(ctx, i):
    rng = ctx.rng
    kind = rng.choice(["graph"] * 5 + ["dataset"] * 3 + ["maps", "resource", "resource"])
    ctx.ev("kind:" + kind)
    o, model, u = make(ctx, kind, rng)
    ops = [change(ctx, kind, o, model, u, "first") for _ in range(rng.choice([0, 1, 3, 8, 20, 40]))]
    if rng.random() < 0.5:
        see(ctx, kind, o, model, u, "original")
    objs = [(o, model, u)]
    ways = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.randrange(len(objs))
        if k:
            ctx.ev("copies of copies")
        src = objs[k]
        way = "deepcopy" if model.get("class") not in (None, "Resource", "Person", "Cook") else rng.choice(["deepcopy", "pickle", "pickle", "elsewhere"])
        ways.append("%d %s" % (k, way))
        new = copied(ctx, way, kind, *src, rng)
        objs.append(new)
        see(ctx, kind, *new, "%s copied by %s" % (kind, way))
        for j in range(rng.choice([0, 2, 10])):
            c = rng.randrange(len(objs))
            ops.append(change(ctx, kind, *objs[c], "o%d" % c))
            ctx.ev("changes after copying")
        for c, x in enumerate(objs):
            see(ctx, kind, *x, "%s %s" % (kind, "copied earlier" if c else "first copied from"))
    ctx.sig(kind, ways, ops)
    ctx.sample({"kind": kind, "ways": ways, "operations": ops[:40]})


def sharing(ctx):
    """Two graphs, and a data set and a graph of its own, copied together."""
    for way in (copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))):
        b, c = BlankNode(), BlankNode()
        p = NamedNode(NS + "p")
        g, h, d = Graph(), Graph(NS + "h"), Dataset()
        g.add(Triple(b, p, c))
        h.add(Triple(c, p, b))
        d.add_graph(h)
        d.add(Quad(b, p, Literal("1"), NamedNode(NS + "k")))
        g2, h2, d2 = ctx.call("copy together", way, (g, h, d))
        t = next(iter(g2))
        ctx.expect(Triple(t.object, p, t.subject) in h2 and len(h2) == 1, "graphs copied together do not share their blank nodes")
        ctx.expect(Quad(t.subject, p, Literal("1"), NamedNode(NS + "k")) in d2, "a data set and a graph copied together do not share blank nodes")
        n = NamedNode(NS + "n")
        h2.add(Triple(n, p, n))
        ctx.expect(Quad(n, p, n, NamedNode(NS + "h")) in d2 and len(d2) == 3, "a copied data set does not hold the copied graph added to the one copied")
        ctx.same((len(h), len(d)), (1, 2), "the sizes of what was copied")
        ctx.ev("kind:together")
        r = Resource(g, b)
        r2, g3 = ctx.call("copy together", way, (r, g))
        ctx.expect(r2.graph is g3 and len(g3.toArray()) == 1, "a resource and its graph copied together come apart")


def sizes(ctx, key):
    way, n = key
    g = Graph()
    b = [BlankNode() for _ in range(n)]
    p = [NamedNode(NS + "p%d" % j) for j in range(3)]
    for j in range(n):
        g.add(Triple(b[j], p[j % 3], b[(j + 1) % n]))
        g.add(Triple(b[j], p[j % 3], Literal("%d" % (j % 10))))
    g2, b2 = ctx.call("copy", copy.deepcopy if way == "deepcopy" else lambda x: pickle.loads(pickle.dumps(x)), (g, b))
    ctx.same(len(g2), 2 * n, "the size of a copied graph")
    for j in range(n):
        ctx.same({t.object for t in g2.match(b2[j], None, None)}, {b2[(j + 1) % n], Literal("%d" % (j % 10))}, "the objects of a node of a copied ring")
        ctx.same({t.subject for t in g2.match(None, None, b2[j])}, {b2[j - 1]}, "the node before one of a copied ring")
    for x in b2:
        g2.removeMatches(x, None, None)
    ctx.same((len(g2), len(g), list(g2)), (0, 2 * n, []), "sizes after draining the copy")
    ctx.sig("ring", way, n)


sizes.keys = lambda tier: [(w, n) for w in ("deepcopy", "pickle") for n in ([1, 2, 10, 400] + ([5000] if tier == "thorough" else []))]
SWEEPS = [sizes]
FIXED = [sharing]
