"""C32: data the program has dropped is released."""
import gc
import io
import json
import queue
import threading
import tracemalloc
import weakref

import rdflib

from pymantic.parsers import jsonld_parser, nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import BlankNode, Dataset, Graph, Literal, NamedNode, Quad, RDFEnvironment, Triple
from pymantic.rdf import List
from pymantic.serializers import serialize_nquads, serialize_ntriples, serialize_turtle
from pymantic.sparql import PatchableGraphStore, changeset, differences

from rv import gen, jldgen, linegen, res, ttlgen
from rv.httpd import Reply, server
from rv.model import XSD, HarnessError, bnodes
from rv.pm import Maker

RULE = "distinct (scenario, format, kind of target and source, way of ending, contents) observations of what was still alive after everything was dropped and collected"
ASSUMES = ["what is released is observed after a full garbage collection", "caches of PyLD and lark are not part of pymantic; documents use one remote-free context"]
COUNT = {"quick": 4000, "thorough": 16000}
MIN_EVENTS = {"oracle:evaluations": 2550, "objects watched": 10950, "objects released": 10900, "parses": 500, "failed parses": 90, "parses in a thread": 150, "interrupted parses": 30, "long-lived clients": 10, "histories": 200, "resources": 150, "derived": 100, "growth runs": 2}


class N(NamedNode):
    """An IRI that can be watched."""


class G(Graph):
    pass


class D(Dataset):
    pass


class Text(str):
    pass


class Stream(io.StringIO):
    pass


class Obj(dict):
    pass


class Fail(Exception):
    pass


class Stop(BaseException):
    """An interruption."""


class Full(G):
    """Takes some statements only."""

    def add(self, triple):
        if len(self) >= 2:
            raise self.why
        return super().add(triple)


class FullD(D):
    def add(self, quad):
        if len(self) >= 2:
            raise self.why
        return super().add(quad)


class Watch:
    def __init__(self, ctx):
        self.ctx = ctx
        self.refs = []

    def __call__(self, what, x):
        self.refs.append((what, weakref.ref(x)))
        self.ctx.ev("objects watched")
        return x

    def all_gone(self, when):
        gc.collect()
        alive = sorted(set(w for w, r in self.refs if r() is not None))
        self.ctx.expect(not alive, lambda: "%s, still in memory although the program has dropped everything: %s" % (when, ", ".join(map(repr, alive[:5]))))
        self.ctx.ev("objects released", len(self.refs))
        self.refs = []


def nodes_of(container):
    return {id(n): n for s in container for n in s if isinstance(n, BlankNode)}.values()


# -- parsing -------------------------------------------------------------------
BREAK = {"nt": "<http://e/a> <http://e/b> nonsense .\n", "nq": "<http://e/a> <http://e/b> nonsense .\n", "ttl": "\n<http://e/a> <http://e/b> nonsense .\n"}


def source(rng, fmt, bad):
    """A document with blank nodes; bad: one that cannot be parsed to its end."""
    if fmt == "jsonld":
        obj = jldgen.document(rng, jldgen.quads(rng))
        if bad:
            extra = rng.choice([{"@id": 5}, {"@type": 7}, {"http://e/p": {"@value": []}}, {"http://e/p": {"@value": "a", "@language": 5}}])
            obj = [obj, extra] if rng.random() < 0.5 else extra
        return obj
    if fmt == "ttl":
        text = ttlgen.join(rng, ttlgen.random_doc(rng, base="").toks)
    else:
        st = [s for s in gen.graph(rng)]
        if fmt == "nq":
            st = [s + (rng.choice([None, ("I", "http://e/g"), ("B", "g")]),) for s in st]
        text = linegen.document(rng, st)
        text = text[0] if isinstance(text, tuple) else text
    if bad:
        text = text + BREAK[fmt] if rng.random() < 0.6 else BREAK[fmt] + text
    return text


PARSER = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser}


def parse_once(w, fmt, src, form, own, failing, done, why):
    """One parse whose every participant is watched; nothing of it is left when this returns."""
    target = None
    if own:
        target = w("target", {"own": (G, D), "full": (Full, FullD)}[own][fmt not in ("nt", "ttl")]())
        target.why = why
    if fmt == "jsonld":
        src = w("document", Obj(src)) if isinstance(src, dict) else src
        args = (src,) if target is None else (src, target)
        fn = jsonld_parser.parse_json
    else:
        if form == "stream":
            src = w("stream", Stream(src))
            if failing:
                def broken(it=iter(src)):
                    yield from it
                    raise why
                b = broken()
                src = w("stream", Failing(b))
        elif form == "bytes":
            src = src.encode("utf-8")
        else:
            src = w("text", Text(src))
        fn = PARSER[fmt].parse if form != "bytes" else PARSER[fmt].parse_string
        args = (src,) if target is None else (src, target)
    try:
        got = fn(*args)
        done.append("returned")
    except Exception:
        got = None
        done.append("failed")
    except Stop:
        got = None
        done.append("interrupted")
        w.ctx.ev("interrupted parses")
    for c in (got, target):
        if c is not None:
            if c is got and target is None:
                w("new graph", c)
            for n in nodes_of(c):
                w("blank node", n)
                del n


class Failing(io.TextIOBase):
    def __init__(self, it):
        super().__init__()
        self.it = it

    def readline(self, size=-1):
        return next(self.it, "")

    def read(self, n=-1):
        return "".join(self.it)


class Worker:
    """A thread that outlives the calls made in it."""

    def __init__(self):
        self.q, self.done = queue.Queue(), queue.Queue()
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            f = self.q.get()
            e = None
            try:
                f()
            except BaseException as x:
                e = x.with_traceback(None)
            f = None
            self.done.put(e)
            e = None

    def run(self, f):
        self.q.put(f)
        e = self.done.get()
        if e is not None:
            raise e


_worker = []


def parsing(ctx):
    rng = ctx.rng
    fmt = rng.choice(["nt", "nq", "ttl", "jsonld"])
    bad = rng.random() < 0.4
    form = rng.choice(["text", "stream", "bytes"]) if fmt != "jsonld" else "object"
    own = rng.choice(["own", "own", "full", None])
    why = rng.choice([Fail, Stop])
    thread = rng.random() < 0.4
    failing = form == "stream" and rng.random() < 0.3
    src = source(rng, fmt, bad)
    w, done = Watch(ctx), []
    rounds = rng.choice([1, 1, 2, 4])
    for _ in range(rounds):
        ctx.ev("parses")
        if thread:
            ctx.ev("parses in a thread")
            if not _worker:
                _worker.append(Worker())
            _worker[0].run(lambda: parse_once(w, fmt, src, form, own, failing, done, why))
        else:
            parse_once(w, fmt, src, form, own, failing, done, why)
    src = None
    if "failed" in done:
        ctx.ev("failed parses")
    when = "after %d %s parse(s) of %s that %s%s" % (rounds, fmt, form, "/".join(sorted(set(done))), " in a thread that lives on" if thread else "")
    n = len(w.refs)
    w.all_gone(when)
    ctx.sig("parse", fmt, form, own, thread, failing, sorted(set(done)), n)
    ctx.sample("%s: %d objects watched, all gone" % (when, n))


def still_held(ctx):
    """The target is kept, its statements are removed: the parser must not hold the blank nodes."""
    rng = ctx.rng
    fmt = rng.choice(["nt", "nq", "ttl", "jsonld"])
    src = source(rng, fmt, False)
    target = (Graph if fmt in ("nt", "ttl") else Dataset)()
    w = Watch(ctx)
    ctx.ev("parses")

    def go():
        (jsonld_parser.parse_json if fmt == "jsonld" else PARSER[fmt].parse)(src, target)
        for n in nodes_of(target):
            w("blank node", n)

    go()
    how = rng.choice(["remove", "removeMatches", "each predicate"])
    if how == "remove":
        for s in target.toArray():
            target.remove(s)
            s = None
    elif how == "removeMatches":
        target.removeMatches(None, None, None)
    else:
        for p in list({s.predicate for s in target}):
            target.removeMatches(None, p, None)
            p = None
    if isinstance(target, Dataset):
        for g in list(target.graphs):
            target.remove_graph(g)
            g = None
    ctx.same(len(target), 0, "statements left after %s" % how)
    w.all_gone("after parsing %s and emptying the target by %s" % (fmt, how))
    ctx.sig("emptied", fmt, how)


# -- histories of one container --------------------------------------------------
class History:
    """Random operations; what is alive must still be named by a statement, a graph or the caller."""

    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.quads = ctx.rng.random() < 0.5
        self.c = D() if self.quads else G()
        self.model = set()
        self.held = {}   # blank nodes the caller holds
        self.refs = []
        self.serial = 0
        self.names = set()

    def key(self, kind):
        r = self.rng
        if kind == "p":
            return ("I", "http://e/p%d" % r.randrange(4))
        if kind == "g":
            k = r.random()
            return None if k < 0.3 else ("I", "http://e/g%d" % r.randrange(3)) if k < 0.8 else self.bkey()
        k = r.random()
        if kind == "o" and k < 0.3:
            return ("L", "v%d" % r.randrange(3), "http://e/t%d" % r.randrange(4))
        if k < 0.65:
            return ("I", "http://e/n%d" % r.randrange(6))
        return self.bkey()

    def bkey(self):
        if self.held and self.rng.random() < 0.7:
            return self.rng.choice(sorted(self.held))
        self.serial += 1
        k = ("B", self.serial)
        n = BlankNode()
        self.held[k] = n
        self.watch(k, n)
        return k

    def watch(self, k, x):
        self.refs.append((k, weakref.ref(x)))
        self.ctx.ev("objects watched")
        return x

    def term(self, k):
        if k is None:
            return None
        if k[0] == "B":
            return self.held[k]
        if k[0] == "I":
            return self.watch(k, N(k[1]))
        return Literal(k[1], None, self.watch(("I", k[2]), N(k[2])))

    def stmt(self, s):
        return (Quad if self.quads else Triple)(*map(self.term, s))

    def usable(self, s):
        return all(k is None or k[0] != "B" or k in self.held for k in s)

    def new(self):
        s = (self.key("s"), self.key("p"), self.key("o"))
        return s + (self.key("g"),) if self.quads else s

    def named(self, s):
        if self.quads:
            self.names.add(s[3])

    def step(self):
        r, c = self.rng, self.c
        op = r.choice(["add", "add", "add", "addAll", "remove", "remove", "match", "contains", "absent", "removeMatches", "listing", "bad", "partial", "forget", "forget",
                       "dropgraph", "derive"])
        if op == "add":
            s = self.new()
            c.add(self.stmt(s))
            self.model.add(s)
            self.named(s)
        elif op == "addAll":
            ss = [self.new() for _ in range(r.randrange(4))]
            fails = r.random() < 0.3

            def src():
                for s in ss:
                    yield self.stmt(s)
                if fails:
                    raise Fail
            try:
                c.addAll(src())
            except Fail:
                pass
            for s in ss:
                self.model.add(s)
                self.named(s)
        elif op == "remove":
            here = sorted((s for s in self.model if self.usable(s)), key=repr)
            if here:
                s = r.choice(here)
                c.remove(self.stmt(s))
                self.model.discard(s)
        elif op == "absent":
            s = self.new()
            if s not in self.model:
                try:
                    c.remove(self.stmt(s))
                except KeyError:
                    pass
        elif op in ("match", "partial"):
            s = self.new()
            if r.random() < 0.5 and any(self.usable(x) for x in self.model):
                s = r.choice(sorted((x for x in self.model if self.usable(x)), key=repr))
            pat = [self.term(k) if r.random() < 0.5 else None for k in s]
            m = c.match(*pat)
            if op == "partial":
                next(iter(m), None)
            else:
                list(m)
        elif op == "contains":
            s = self.new()
            self.stmt(s) in c
            if self.quads:
                Triple(*map(self.term, s[:3])) in c
        elif op == "removeMatches":
            s = self.new()
            keep = [r.random() < 0.6 for _ in s]
            pat = [k if b else None for k, b in zip(s, keep)]
            c.removeMatches(*map(self.term, pat))
            self.model = {x for x in self.model if any(k is not None and k != v for k, v in zip(pat, x))}
        elif op == "listing":
            list(c)
            c.toArray()
            len(c)
            if not self.quads:
                for x in (c.subjects(), c.predicates(), c.objects()):
                    list(x)
        elif op == "bad":
            try:
                c.add(Triple(N("http://e/x"), N("http://e/y"), [1]))
            except Exception:
                pass
        elif op == "forget" and self.held:
            del self.held[r.choice(sorted(self.held))]
        elif op == "dropgraph" and self.quads and r.random() < 0.4:
            for g in sorted(self.names, key=repr):
                if g is not None and (g[0] != "B" or g in self.held):
                    c.remove_graph(self.term(g))
                    self.names.discard(g)
                    self.model = {s for s in self.model if s[3] != g}
                    break
        elif op == "derive":
            if self.quads:
                RDFEnvironment().createDataset().addAll(c)
                serialize_nquads(c, io.StringIO())
            else:
                c.merge(Graph())
                Graph().merge(c)
                g = Graph()
                g.addAll(c)
                g.removeMatches(None, None, None)
                serialize_ntriples(c, io.StringIO())
        return op

    def check(self, when):
        gc.collect()
        allowed = set(self.held) | {k for s in self.model for k in s} | {("I", k[2]) for s in self.model for k in s if k and k[0] == "L"} | self.names
        bad = sorted({repr(k) for k, r in self.refs if r() is not None and k not in allowed})
        self.ctx.expect(not bad, lambda: "after %s nothing refers to these terms any more, yet they are in memory: %s" % (when, ", ".join(bad[:5])))
        n = len(self.refs)
        self.refs = [x for x in self.refs if x[1]() is not None]
        self.ctx.ev("objects released", n - len(self.refs))


def history(ctx):
    rng = ctx.rng
    h = History(ctx)
    ctx.ev("histories")
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        for _ in range(rng.choice([1, 4, 12])):
            ops.append(h.step())
        h.check("the steps " + " ".join(ops[-20:]))
        ctx.same(len(h.c), len(h.model), "statements after " + " ".join(ops[-20:]))
    how = rng.choice(["drop", "empty"])
    if how == "drop":
        h.refs.append((("container",), weakref.ref(h.c)))
        h.c = None
    else:
        h.c.removeMatches(None, None, None)
    if how == "drop":
        h.names = set()
    h.model = set()
    h.held.clear()
    h.check("the steps %s and %s" % (" ".join(ops[-20:]), "dropping the container" if how == "drop" else "removing every statement"))
    ctx.sig("history", h.quads, ops[-6:], how)


# -- resources, serialisation, derived graphs ------------------------------------
def use_resource(ctx, w, rng):
    room = res.Room(ctx)
    g, r = room.graph, room.res
    w("graph", g)
    w("resource", r)
    for n in room.m.b.values():
        w("blank node", n)
        n = None
    for _ in range(rng.choice([1, 3, 8])):
        p = rng.choice(res.PREDS)
        k = rng.randrange(9)
        try:
            if k == 0:
                list(r[p]) if not isinstance(r[p], (str, tuple)) else r[p]
            elif k == 1:
                r[p] = w("value", N("http://e/v"))
            elif k == 2:
                r[p, "fr"] = "texte"
            elif k == 3:
                b = w("value", BlankNode())
                r[p] = w("resource", res.Thing(g, b))
            elif k == 4:
                del r[p]
            elif k == 5:
                p in r
            elif k == 6:
                str(r), repr(r), hash(r), r == res.Thing(g, r.subject)
            elif k == 7:
                w("copy", r.copy(N("http://e/copy")))
            else:
                for x in list(r.objects(p)):
                    w("resource", x) if isinstance(x, res.Resource) else None
                    x = None
        except Exception as e:
            ctx.ev("refused:" + type(e).__name__)
        p = None
    if rng.random() < 0.5:
        a, b = w("cell", BlankNode()), w("cell", BlankNode())
        rdf = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
        for s, p, o in ((a, "first", N("http://e/m")), (a, "rest", b), (b, "first", Literal("x")), (b, "rest", N(rdf + "nil"))):
            g.add(Triple(s, N(rdf + p), o))
        ctx.same(len(list(w("list", List(g, a)))), 2, "members of a list")
    if rng.random() < 0.3:
        r.erase()


def resources(ctx):
    w = Watch(ctx)
    ctx.ev("resources")
    use_resource(ctx, w, ctx.rng)
    n = len(w.refs)
    w.all_gone("after using a resource")
    ctx.sig("resource", n, ctx.rng.random())


def replaced(ctx):
    """A value that has been replaced or deleted is released while graph and resource live on."""
    rng = ctx.rng
    w = Watch(ctx)
    ctx.ev("resources")
    g = Graph()
    r = res.Thing(g, N("http://e/s"))
    p = rng.choice(["ex:one", "ex:many", "http://elsewhere.example/p"])

    def value():
        k = rng.randrange(4)
        if k == 0:
            return w("IRI", N("http://e/v"))
        if k == 1:
            return Literal("v", None, w("datatype", N("http://e/t")))
        b = w("blank node", BlankNode())
        return b if k == 2 else w("resource", res.Thing(g, b))

    def old():
        r[p] = value() if p == "ex:one" or rng.random() < 0.5 else [value(), value()]
        x = r[p]
        if not isinstance(x, (str, tuple, res.Resource, BlankNode)):
            list(x)

    old()
    how = rng.choice(["replace", "delete", "erase", "graph"])
    if how == "replace":
        r[p] = "new"
        r[p] = N("http://e/new")
    elif how == "delete":
        del r[p]
    elif how == "erase":
        g.removeMatches(g and r.subject, None, None)
    else:
        g.removeMatches(None, None, None)
    # types guessed from values are other properties' business: what is left is counted as it is
    left = {id(x) for s in g for x in s} | {id(x.datatype) for s in g for x in s if isinstance(x, Literal)}
    for what, ref in list(w.refs):
        x = ref()
        if x is not None and id(x) in left:
            w.refs.remove((what, ref))
        x = None
    ctx.ev("objects released", 0)
    w.all_gone("after a property value was dropped by %s" % how)
    ctx.sig("replaced", how, p)


def derived(ctx):
    """Everything made from a graph: none of it keeps the graph, and the graph keeps none of it."""
    rng = ctx.rng
    w = Watch(ctx)
    ctx.ev("derived")
    kind = rng.choice(["merge", "serialise", "environment", "differences", "dataset", "iterators"])

    def make(hold):
        m = Maker()
        st = list(gen.graph(rng))
        g = w("graph", G(N("http://e/name") if rng.random() < 0.3 else None))
        for s in st:
            g.add(m.triple(s))
        if hold:
            keep.append(g)
        else:
            for n in m.b.values():
                w("blank node", n)
                n = None
        if kind == "merge":
            a = w("merged", g.merge(Graph()))
            b = w("merged", Graph().merge(g))
            a.addAll(b)
        elif kind == "serialise":
            f = w("output", Stream())
            serialize_ntriples(g, f)
            f = w("output", Stream())
            prof = w("profile", RDFEnvironment().createProfile())
            serialize_turtle(g, f, profile=prof) if rng.random() < 0.5 else serialize_turtle(g, f)

            class Broken(Stream):
                def write(self, s):
                    raise OSError("full")
            for ser in (serialize_ntriples, serialize_turtle):
                try:
                    ser(g, w("broken output", Broken()))
                except OSError:
                    pass
        elif kind == "environment":
            env = w("environment", RDFEnvironment())
            h = w("graph", env.createGraph())
            h.addAll(g)
            pr = w("profile", env.createProfile())
            pr.setPrefix("z", "http://e/z")
            w("prefixes", env.createPrefixMap())
            w("blank node", env.createBlankNode())
            pr.resolve("z:q"), pr.prefixes.shrink("http://e/zq")
        elif kind == "differences":
            h = w("graph", G())
            for s in st[::2]:
                h.add(m.triple(s))
            h.add(Triple(N("http://e/a"), N("http://e/b"), N("http://e/c")))
            list(differences(g, h))
        elif kind == "dataset":
            d = w("dataset", D())
            name = N("http://e/in")
            d.add_graph(g, named=name if hold else w("name", name))  # which stays the name of the graph
            list(d.match(None, None, None)), list(d), len(d), d.toArray()
            f = w("output", Stream())
            serialize_nquads(d, f)
            d.remove_graph(g)
            if not hold:
                d.add_graph(g, named=N("http://e/in"))
                for s in st:
                    d.add(Quad(*map(m.term, s), N("http://e/other")))
        else:
            its = [iter(g), g.match(None, None, None), g.match(None, N("http://e/p"), None)]
            for it in its:
                next(it, None)

    keep = []
    hold = rng.random() < 0.5
    make(hold)
    if hold:
        w.refs = [(k, r) for k, r in w.refs if r() is not keep[0]]
    n = len(w.refs)
    w.all_gone("after %s%s" % (kind, ", the graph itself living on," if hold else ""))
    ctx.sig("derived", kind, hold, n)


class Graphs(list):
    pass


def clients(ctx):
    """A client lives on; what was asked, sent and received does not."""
    rng = ctx.rng
    srv = server()
    w = Watch(ctx)
    c = PatchableGraphStore(srv.url + "/sparql", srv.url + "/data", param_style=rng.random() < 0.5, post_queries=rng.random() < 0.5, post_directly=rng.random() < 0.3)
    ctx.ev("long-lived clients")
    kinds = []

    def ask(kind):
        status = rng.choice([200, 200, 200, 400, 500])
        turtle = rng.random() < 0.5
        body = b"<http://e/s> <http://e/p> 'x' ." if turtle else b'{"head": {}, "boolean": true}'
        srv.handler = lambda req: Reply(status, "text/turtle" if turtle else "application/sparql-results+json", body)
        g = w("graph sent", rdflib.Graph())
        g.add((rdflib.URIRef("http://e/s"), rdflib.URIRef("http://e/p"), rdflib.Literal("x")))
        try:
            if kind == "query":
                got = c.query(w("query", Text("ASK {}")), default_graph=w("list of graphs", Graphs(["http://e/g"])))
            elif kind == "update":
                got = c.update(w("update", Text("CLEAR ALL")))
            elif kind == "get":
                got = c.get("http://e/g")
            elif kind == "patch":
                got = c.patch("http://e/g", w("change set", changeset(g, rdflib.Graph(), "http://e/g")))
            else:
                got = getattr(c, kind)("http://e/g", *([] if kind == "delete" else [g]))
            if isinstance(got, rdflib.Graph):
                w("graph received", got)
        except Exception as e:
            kinds.append(type(e).__name__)

    for _ in range(rng.choice([1, 2, 4])):
        kinds.append(rng.choice(["query", "query", "update", "get", "put", "post", "delete", "patch"]))
        ask(kinds[-1])
    srv.handler = None
    srv.take()
    w.all_gone("with a client that lives on, after %s" % ", ".join(kinds))
    if srv.errors:
        raise HarnessError(srv.errors.pop())
    ctx.sig("client", sorted(set(kinds)))


KINDS = [parsing, parsing, still_held, history, history, resources, replaced, derived]


def case(ctx, i):
    if i < 8:
        gc.collect()
        gc.freeze()
    if i % 40 == 7:
        return clients(ctx)
    KINDS[ctx.rng.randrange(len(KINDS))](ctx)


# -- no growth ---------------------------------------------------------------------
def churn(ctx, key):
    """The same work over and over takes no more memory."""
    rng = ctx.rng
    fmt, rounds = key
    kept = {"g": Graph(), "d": Dataset()}

    def one(k):
        if fmt == "graph":
            g = kept["g"]
            b = BlankNode()
            t = Triple(b, NamedNode("http://e/p%d" % k), Literal("v%d" % k, None, NamedNode(XSD + "string")))
            g.add(t)
            t in g, list(g.match(b)), list(g.match(None, None, NamedNode("http://e/none%d" % k)))
            list(g.match(NamedNode("http://e/x%d" % k), NamedNode("http://e/y%d" % k), None))
            g.remove(t)
        elif fmt == "dataset":
            d = kept["d"]
            q = Quad(BlankNode(), NamedNode("http://e/p%d" % k), Literal("v%d" % k), NamedNode("http://e/g%d" % k))
            list(d.match(None, None, None, NamedNode("http://e/none%d" % k)))
            Quad(q[0], q[1], q[2], NamedNode("http://e/none%d" % k)) in d
            d.add(q)
            q in d, list(d.match(q.subject)), list(d)
            d.remove(q)
            d.remove_graph(q.graph)
        elif fmt == "resource":
            g = kept["g"]
            r = res.Person(g, NamedNode("http://e/s%d" % k))
            r["ex:many"] = [Literal("v%d" % k), NamedNode("http://e/o%d" % k)]
            list(r["ex:many"]), str(r), r["ex:one"]
            del r["ex:many"]
            g.removeMatches(None, None, None)
        elif fmt == "turtle out":
            g = Graph()
            for j in range(3):
                g.add(Triple(BlankNode(), NamedNode("http://e/p%d-%d" % (k, j)), Literal("%d" % k)))
            serialize_turtle(g, io.StringIO())
            serialize_ntriples(g, io.StringIO())
        elif fmt == "environment":
            env = RDFEnvironment()
            env.setPrefix("p%d" % k, "http://e/%d/" % k) if hasattr(env, "setPrefix") else None
            pr = env.createProfile()
            pr.setPrefix("p%d" % k, "http://e/%d/" % k)
            pr.resolve("p%d:x" % k), pr.prefixes.shrink("http://e/%d/x" % k)
        elif fmt == "jsonld":
            jsonld_parser.parse_json({"@id": "http://e/s%d" % k, "http://e/p": [{"@id": "_:b%d" % k}, "v%d" % k]})
            try:
                jsonld_parser.parse_json({"@id": k}, kept["d"] if k % 2 else None)
            except Exception:
                pass
        else:
            line = "_:b%d <http://e/p%d> \"v%d\"@en-x%d%s .\n" % (k, k, k, k % 10000, " <http://e/g%d>" % k if fmt == "nq" else "")
            PARSER[fmt].parse(line)
            PARSER[fmt].parse(io.StringIO(line * 2))
            try:
                PARSER[fmt].parse(line + BREAK[fmt])
            except Exception:
                pass

    def size():
        gc.collect()
        return tracemalloc.get_traced_memory()[0], len(gc.get_objects())

    tracemalloc.start()
    try:
        k = 1000
        for _ in range(rounds // 4):
            one(k)
            k += 1
        a = size()
        for _ in range(rounds):
            one(k)
            k += 1
        b = size()
        for _ in range(rounds):
            one(k)
            k += 1
        c = size()
    finally:
        tracemalloc.stop()
    ctx.ev("growth runs")
    grew = min(b[0] - a[0], c[0] - b[0]), min(b[1] - a[1], c[1] - b[1])
    ctx.expect(grew[0] < 24 * rounds and grew[1] < rounds // 2, lambda: "%d rounds of %s that leave nothing behind grew the process by %d bytes and %d objects, twice over" % (rounds, fmt, grew[0], grew[1]))
    ctx.sig("growth", key)
    ctx.sample("%d rounds of %s: %d bytes, %d objects more" % (rounds, fmt, grew[0], grew[1]))


churn.keys = lambda tier: [(f, r * (10 if tier == "thorough" else 1)) for f, r in
                           [("graph", 1000), ("dataset", 1000), ("resource", 500), ("turtle out", 300), ("environment", 500), ("jsonld", 300), ("nt", 300), ("nq", 300), ("ttl", 200)]]
SWEEPS = [churn]
