"""C40: an operation that was interrupted leaves nothing behind that later ones meet."""
import inspect
import io
import random
import sys
import threading
from collections import Counter
from types import SimpleNamespace

import pyld.jsonld  # (here, so that children need not)
import rdflib

from pymantic.parsers import jsonld_parser, nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import Dataset, Graph
from pymantic.rdf import Resource
from pymantic.sparql import PatchableGraphStore, SPARQLServer, UpdateableGraphStore, changeset, differences

from rv import cold, gen, jldgen, linegen, rdfl, res, trip, ttlgen
from rv.checks import c36
from rv.core import Violation
from rv.httpd import Reply, server
from rv.model import RDFNS, I, L, isomorphic, map_terms, merge_string, show
from rv.pm import Maker, Reader

RULE = "distinct (operation, source line at which it was stopped, kind of exception)"
ASSUMES = [
    "interruptions arrive at source lines of pymantic outside clean-up code (finally and except bodies); recursion runs out anywhere, libraries included",
    "only operations that read shared data or fill an object of their own are interrupted: of an interrupted change to a graph nothing is claimed",
    "results are judged against the same operations alone on an equal graph built apart",
]
COUNT = {"quick": 500, "thorough": 30000}
MIN_EVENTS = {"oracle:evaluations": 10000, "first uses": 2, "interrupted": 300, "operations interrupted at many lines": 3, "raised:KeyboardInterrupt": 70, "raised:MemoryError": 70, "raised:RecursionError": 2, "stopped:parse": 30, "stopped:write": 20, "stopped:classify": 20, "stopped:resource": 30, "stopped:class": 18, "stopped:client": 8, "repeated": 350, "sources that failed": 3, "iterators thrown into": 3, "elsewhere": 3}
TYPE = c36.TYPE


class Stop(BaseException):
    """Asks the program to end, like SystemExit."""


EXC = [KeyboardInterrupt, MemoryError, Stop, TimeoutError]


# -- operations besides those of C36: rng, plan, back -> (kind, function of a world) ----

def op_parse(rng, plan, back):
    fmt = rng.choice(["nt", "nq", "ttl", "ttl", "jsonld"])
    via = rng.choice(["text", "stream", "bytes"])
    own = rng.random() < 0.4
    if fmt == "jsonld":
        doc, opts, want, _ = jldgen.document(rng, jldgen.quads(rng))
        run = lambda: jsonld_parser.parse_json(doc, Dataset() if own else None, dict(opts or {}))
    elif fmt == "ttl":
        d = ttlgen.random_doc(rng, n=rng.choice([1, 2, 4]))
        text, want, base = d.text(), d.triples, d.start_base
        arg = lambda: text if via == "text" else io.StringIO(text, newline="") if via == "stream" else text.encode("utf-8")
        run = lambda: turtle_parser.parse(arg(), Graph() if own else None, base)
    else:
        want = gen.graph(rng, n=rng.choice([1, 3, 8]), nb=rng.choice([1, 3]))
        if fmt == "nq":
            want = {s + (rng.choice([None, I("http://e/g")]),) for s in want}
        text = linegen.document(rng, want)
        p = ntriples_parser if fmt == "nt" else nquads_parser
        new = lambda: (Dataset() if fmt == "nq" else Graph()) if own else None
        run = {"text": lambda: p.parse(text, new()), "stream": lambda: p.parse(io.StringIO(text, newline=""), new()), "bytes": lambda: p.parse_string(text.encode("utf-8"), new())}[via]

    def f(w, ask=False):
        if ask:
            return fmt
        g = run()
        got = Reader().stmts(g)
        if fmt == "jsonld" or fmt == "nq":
            ref = {s if len(s) == 4 else s + (None,) for s in want}
        else:
            ref = set(want)
        return ("parse", fmt, True) if isomorphic(map_terms(got, merge_string), map_terms(ref, merge_string)) else ("parse", fmt, show(got), "instead of", show(ref))
    return "parse", f


def op_classify(rng, plan, back, fresh=None):
    node = rng.choice(plan[1])
    mine = {o[1] for a, p, o in plan[0] if a == node and p == TYPE}

    def f(w):
        x = Resource.classify(w.g, w.m.term(node))
        c = type(x)
        new = sorted({str(t.object) for t in c.new(Graph(), "http://nodes.example/new").graph}) if hasattr(c, "rdf_classes") else None
        return (sorted(map(str, getattr(c, "rdf_classes", ()))), [isinstance(x, k) for k in w.classes.values()], new, type(Resource.classify(w.g, w.m.term(node))) is c)
    return "classify", f


def op_class(rng, plan, back):
    """Make a class, register it, make resources of it."""
    bases = rng.sample(res.CLASSES, rng.choice([1, 1, 2]))
    tag = "%x" % rng.getrandbits(60)

    def f(w):
        ns = "http://types.example/c40/%s/" % tag
        try:
            c = type(Resource)("Made", tuple(bases), {"prefixes": {"own": ns}, "scalars": ["own:one"]})
        except TypeError:
            return "no consistent order of bases"
        from pymantic.rdf import register_class
        register_class("own:Kind")(c)
        r = c.new(Graph(), "own:x")
        r["own:one"] = "text"
        return (sorted((k, str(v)) for k, v in c.prefixes.items()), sorted(map(str, c.scalars)), sorted(map(str, c.rdf_classes)), isinstance(Resource.classify(r.graph, r.subject), c), str(r["own:one"]), len(r.graph))
    return "class", f


def op_sets(rng, plan, back):
    a, b = gen.graph(rng, n=3), gen.graph(rng, n=3)

    def f(w):
        x, y = rdfl.graph(a | b), rdfl.graph(b)
        gone, new = differences(x, y)
        c = changeset(x, y, "http://e/g")
        count = lambda p: len(list(c.subject_objects(rdflib.URIRef("http://purl.org/vocab/changeset/schema#" + p))))
        return len(gone) == count("removal"), len(new) == count("addition"), len(x), len(y), len(c) - 4 * (len(gone) + len(new)) - len(gone) - len(new)
    return "sets", f


_srv = None
GOOD = b'{"head": {"vars": ["a"]}, "results": {"bindings": [{"a": {"type": "uri", "value": "http://e/a"}}, {"a": {"type": "bnode", "value": "b0"}}]}}'


def answer(req):
    if "graph=" in req.target:
        return Reply(200, "text/plain", b"<http://e/s> <http://e/p> <http://e/o> .\n") if req.method == "GET" else Reply(204)
    return Reply(200, "application/sparql-results+json", GOOD)


def srv():
    global _srv
    if _srv is None:
        _srv = server()
        _srv.handler = answer
    return _srv


def op_client(rng, plan, back):
    """A request, and what the server was sent."""
    kind = rng.choice(["query", "query", "update", "get", "put", "delete"])
    text = "SELECT * WHERE { ?s ?p %r }" % rng.choice(["x", "caf\u00e9", "a b&c"])
    kw = {"default_graph": ["http://e/d"]} if rng.random() < 0.3 else {}
    content = rdfl.graph(gen.graph(rng, n=1, nb=0))

    def f(w):
        if w.client is None:
            w.client = [PatchableGraphStore(srv().url + "/sparql", srv().url + "/data", post_queries=post) for post in (False, True)] + [UpdateableGraphStore(srv().url + "/sparql", srv().url + "/data", post_directly=True)]
        c = w.client[way]
        n = len(srv().log)
        out = {"query": lambda: str(c.query(text, **kw)), "update": lambda: str(c.update("DROP GRAPH <http://e/g>"))[:20] if way != 0 else None, "get": lambda: rdfl.stmts(c.get("http://e/g")),
               "put": lambda: str(c.put("http://e/g", content)), "delete": lambda: str(c.delete("http://e/g"))}[kind]()
        return out, [(r.method, r.target, sorted((k.lower(), v) for k, v in r.headers.items()), r.body) for r in srv().log[n:]]
    way = rng.randrange(3)
    return "client", f


MORE = [op_parse] * 7 + [op_classify] * 3 + [op_class, op_class, op_sets, op_client, op_client]


def make_op(rng, plan, back):
    return rng.choice(c36.OPS + MORE)(rng, plan, back)


# -- ways to be interrupted ---------------------------------------------------------------

def recursing(rng, f):
    """Too little room to call: (value, exception)."""
    old = sys.getrecursionlimit()
    try:
        sys.setrecursionlimit(len(inspect.stack(0)) + 9 + int(rng.choice([6, 12, 40, 100]) * rng.random()))
        try:
            return f(), None
        except Exception as e:  # libraries wrap it
            return None, e
    finally:
        sys.setrecursionlimit(old)


def stopped(rng, f, w, total):
    """Run f on w and interrupt it: (where or None, result, exception)."""
    if rng.random() < 0.15:
        out, exc = recursing(rng, lambda: f(w))
        return exc and ("recursion",), out, exc
    return at_line(rng, rng.randrange(1, total + 1) if rng.random() < 0.7 else rng.randrange(1, min(12, total) + 1), f, w)


def at_line(rng, n, f, w):
    kind = rng.choice(EXC)
    t = trip.Trip(n, kind)
    out, exc = t(lambda: f(w))
    if exc is not None and t.where is None:
        raise exc
    if exc is not None and not issubclass(kind, Exception) and not isinstance(exc, kind):
        raise Violation("%s at %r reached the caller as %s: %s" % (kind.__name__, t.where, type(exc).__name__, exc))
    return t.where, out, exc


def undisturbed(f, w):
    """(its result, the lines of pymantic it takes) when nothing has run before."""
    def go():
        t = trip.Trip()
        out, exc = t(lambda: f(w))
        if exc is not None:
            raise exc
        return out, t.trail
    return cold.run(go)


class Source(io.StringIO):
    """Fails after some lines."""

    def __init__(self, text, n, exc):
        super().__init__(text)
        self.left, self.exc = n, exc

    def readline(self, *a):  # iteration goes through it
        self.left -= 1
        if self.left < 0:
            raise self.exc("source")
        return super().readline(*a)

    def read(self, *a):
        raise self.exc("source")


def failing_source(ctx, rng):
    text = "".join('_:b%d <http://e/p> _:b%d .\n' % (rng.randrange(4), rng.randrange(4)) for _ in range(6))
    exc = rng.choice(EXC)
    p = rng.choice([ntriples_parser, nquads_parser])
    try:
        p.parse(Source(text, rng.randrange(6), exc), Graph() if p is ntriples_parser else Dataset())
    except exc:
        pass
    else:
        ctx.fail("a source that raised %s was taken for one that ended" % exc.__name__)
    ctx.ev("sources that failed")


def thrown(ctx, rng, w, plan):
    """Give up iterating, one way or another."""
    g, d, m = w.g, w.d, w.m
    s = rng.choice(plan[1])
    r = Resource(g, m.term(s))
    it = iter(rng.choice([lambda: g.match(m.term(s)), lambda: g.match(), lambda: d.match(m.term(s)), lambda: r, lambda: r.objects(c36.NamedNode(rng.choice(res.PREDS))), lambda: c36.List(g, m.term(rng.choice(plan[2]))), lambda: iter(g), lambda: iter(d)])())
    for _, _ in zip(range(rng.randrange(4)), it):
        pass
    exc = rng.choice(EXC)
    if hasattr(it, "throw") and rng.random() < 0.7:
        try:
            it.throw(exc("consumer"))
        except exc:
            pass
        except StopIteration:
            ctx.fail("%s thrown into an iterator disappeared" % exc.__name__)
    elif hasattr(it, "close"):
        it.close()
    ctx.ev("iterators thrown into")


class Setting:
    """A plan and its world, none of it used yet."""

    def __init__(self, ctx, rng):
        fresh = c36.fresh_classes(ctx)
        kinds = list(fresh) + list(res.REGISTERED)[:1] + ["http://types.example/unregistered"]
        self.plan = plan = c36.plan_world(rng, kinds)
        m = Maker()
        for s in plan[0]:
            m.triple(s)
        for t in c36.ABSENT + plan[1] + plan[2]:
            m.term(t)
        self.back = {id(n): t for t, n in m.b.items()}
        self.names = [("p", "http://ns.example/p#"), ("q", "http://ns.example/q/"), ("r", "http://ns.example/")]
        self.w = c36.World(plan, m, self.names)
        self.fresh = self.w.classes = fresh
        self.w.client = None


_ready = False


def prepare():
    """Each parser has parsed something: lark compiles its expressions on first use."""
    global _ready
    if not _ready:
        ntriples_parser.parse('_:a <http://e/p> "x"@en .\n')
        nquads_parser.parse('_:a <http://e/p> "x"^^<http://e/d> <http://e/g> .\n')
        turtle_parser.parse('@prefix e: <http://e/> . @base <http://e/> . e:a a <#b>, 1, 1.5, true, "x"@en, """y""", [ e:p ( 1 ) ] . PREFIX : <http://e/> BASE <http://e/>')
        jsonld_parser.parse_json({"@id": "http://e/s", "http://e/p": "x"})
        _ready = True


def case(ctx, i):
    prepare()
    cold.case(ctx, every_point if i // 8 % 16 == 3 else history)


def every_point(ctx, make=make_op):
    """One operation, interrupted at each of its lines (in a process of its own each time)."""
    rng = ctx.rng
    st = Setting(ctx, rng)
    kind, f = make(rng, st.plan, st.back)
    if kind == "client":
        return history(ctx)
    want, trail = undisturbed(f, st.w)
    truth(ctx, kind, want)
    total = len(trail)
    limit = 400 if ctx.thorough else 60
    points = trip.points(trail, rng, limit)
    seeds = [rng.random() for _ in points]
    ctx.log("interrupt", kind, "at", len(points), "of", total)

    def go(n, seed):
        r = random.Random(seed)
        where, out, exc = at_line(r, n, f, st.w)
        if where is None:
            return None
        name = type(exc).__name__
        del exc
        if name == "NoneType" and out != want:
            raise Violation("%s was interrupted at %r, hid it and gave another result\n-- undisturbed: %.1500r\n-- here: %.1500r" % (kind, where, want, out))
        again(ctx, [where], kind, f, st.w, want)
        whole(ctx, st)
        return where, name, {k: v for k, v in ctx.w.counters.items()}

    for n, seed in zip(points, seeds):
        ctx.w.counters, mine = {}, ctx.w.counters
        try:
            got = cold.run(lambda: go(n, seed))
        finally:
            ctx.w.counters = mine
        if got is None:
            ctx.ev("finished first")
            continue
        where, name, counters = got
        for k, v in counters.items():
            ctx.ev(k, v)
        note(ctx, kind, where, name)
    ctx.ev("operations interrupted everywhere" if total <= limit else "operations interrupted at many lines")
    ctx.sample((kind, "at each of", len(points), "of", total))


def note(ctx, kind, where, name):
    ctx.ev("interrupted")
    ctx.ev("stopped:" + kind)
    ctx.ev("went on" if name == "NoneType" else "raised:" + name)
    ctx.sig(kind, where, name)


def truth(ctx, kind, got):
    if kind == "parse":
        ctx.expect(got[2] is True, lambda: "a document was misread: %.3000r" % (got,))
    if kind == "classify":
        ctx.expect(got[3], "a node classified twice was instantiated as two types")
        ctx.expect(not any(got[1]) or got[0] == got[2], lambda: "a combined class lists %r but gives new instances %r" % (got[0], got[2]))


def again(ctx, done, kind, f, w, want):
    got = f(w)
    ctx.ev("repeated")
    ctx.expect(got == want, lambda: "after interruptions (%r) %s gave another result\n-- undisturbed: %.1500r\n-- here: %.1500r" % (done, kind, want, got))
    truth(ctx, kind, got)


def history(ctx):
    rng = ctx.rng
    st = Setting(ctx, rng)
    w = st.w
    ops = [make_op(rng, st.plan, st.back) for _ in range(rng.choice([1, 1, 2, 3]))]
    more = [make_op(rng, st.plan, st.back) for _ in range(2)]
    want, total = {}, {}
    for kind, f in ops + more:
        if kind == "client":  # nothing to fork while the server's thread runs; it has no state but its own
            twin = SimpleNamespace(client=None)
            t = trip.Trip()
            want[f], exc = t(lambda: f(twin))
            if exc is not None:
                raise exc
            total[f] = t.count
    for kind, f in ops + more:
        if f not in want:
            want[f], trail = undisturbed(f, w)
            total[f] = len(trail)
        truth(ctx, kind, want[f])
    done = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        kind, f = rng.choice(ops)
        r = rng.random()
        if r < 0.06:
            failing_source(ctx, rng)
        elif r < 0.12:
            thrown(ctx, rng, w, st.plan)
        ctx.log("interrupt", kind)
        if rng.random() < 0.05 and kind != "client":
            box = []

            def elsewhere():
                try:
                    box.append(stopped(rng, f, w, total[f]))
                except BaseException as e:
                    box.append(e)
            th = threading.Thread(target=elsewhere, daemon=True)
            th.start()
            th.join(60)
            if not box:
                ctx.stuck("interrupted in a thread, %s never ended" % kind)
            if isinstance(box[0], BaseException):
                raise box[0]
            where, out, exc = box[0]
            ctx.ev("elsewhere")
        else:
            where, out, exc = stopped(rng, f, w, total[f])
        if where is None:
            ctx.ev("finished first")
            continue
        name = type(exc).__name__
        ctx.log("stopped at", where, repr(exc)[:200])
        exc = None
        note(ctx, kind, where, name)
        done.append(where)
        if name == "NoneType":
            ctx.expect(out == want[f], lambda: "%s was interrupted at %r, hid it and gave another result\n-- undisturbed: %.1500r\n-- here: %.1500r" % (kind, where, want[f], out))
    if not done:
        return
    for kind, f in ops + more:
        again(ctx, done, kind, f, w, want[f])
    whole(ctx, st)
    ctx.sample((done, [k for k, _ in ops]))


def whole(ctx, st):
    """The world is as it was, and everything works in it."""
    w, plan, fresh, back, names = st.w, st.plan, st.fresh, st.back, st.names
    ctx.same(c36.stmts(back, w.g), Counter(plan[0]), "statements of the graph after interruptions")
    ctx.same(len(w.d), len(plan[0]), "quads of the data set after interruptions")
    for x in (w.profile, w.env):
        ctx.same({k: str(v) for k, v in x.prefixes.items() if k in "pqr"}, dict(names), "prefixes after interruptions")
    for s in plan[1]:
        mine = {o[1] for a, p, o in plan[0] if a == s and p == TYPE}
        x = Resource.classify(w.g, w.m.term(s))
        for t, c in list(fresh.items()) + [(k, v) for k, v in res.REGISTERED.items() if v is res.Person]:
            ctx.expect(isinstance(x, c) == (t in mine or any(issubclass(v, c) for k, v in res.REGISTERED.items() if k in mine)), lambda: "after interruptions a node of classes %r was instantiated as %r" % (sorted(mine), type(x).__mro__))
        reg = {t for t in mine if t in fresh or t in res.REGISTERED}
        ctx.same({str(t) for t in getattr(type(x), "rdf_classes", ())}, reg, "classes of the type made for %r after interruptions" % sorted(mine))
    g = ntriples_parser.parse('_:a <http://e/p> _:b .\n_:b <http://e/p> _:a .\n')
    ctx.expect(len(g) == 2 and len(set(g.subjects())) == 2 and {x.subject for x in g} == {x.object for x in g}, "a document was misread after interruptions")


FIRST = ["nt", "nq", "ttl", "jsonld", "classify", "class", "write", "names"]


def first_use(ctx, key):
    """The first operation of its kind in a process, interrupted."""
    kind, k = key.split(":")

    def go():
        rng = ctx.rng
        st = Setting(ctx, rng)
        make = {"classify": op_classify, "class": op_class, "write": c36.op_write, "names": c36.op_names}.get(kind, op_parse)
        while True:
            name, f = make(rng, st.plan, st.back)
            if make is not op_parse or f(None, True) == kind:
                break
        want, trail = undisturbed(f, st.w)
        total = len(trail)
        truth(ctx, name, want)
        n = 1 + min(total - 1, int(2 ** (rng.random() * 6)) if rng.random() < 0.6 else rng.randrange(total))
        where, out, exc = at_line(rng, n, f, st.w)
        if where is not None:
            note(ctx, name, where, type(exc).__name__)
        exc = None
        again(ctx, [where], name, f, st.w, want)
        whole(ctx, st)
        ctx.ev("first uses")
    cold.case(ctx, lambda c: go())


first_use.keys = lambda tier: ["%s:%d" % (k, j) for k in FIRST for j in range(3 if tier == "quick" else 40)]
MAKERS = {x.__name__[3:]: x for x in c36.OPS + MORE if x is not op_client}


def points(ctx, key):
    """Each kind of operation, at the places it comes to."""
    prepare()
    cold.case(ctx, lambda c: every_point(c, MAKERS[key.split(":")[0]]))


points.keys = lambda tier: ["%s:%d" % (k, j) for k in MAKERS for j in range({"classify": 6, "parse": 6, "resource": 4, "write": 4}.get(k, 2) * (1 if tier == "quick" else 30))]


def client_points(ctx, key):
    """Requests of every kind, interrupted at each line; then others by the same client."""
    rng = ctx.rng
    kind, form = key.split(":")
    new = {"get": lambda: SPARQLServer(srv().url + "/sparql"), "post": lambda: SPARQLServer(srv().url + "/sparql", post_queries=True), "direct": lambda: SPARQLServer(srv().url + "/sparql", post_directly=True),
           "store": lambda: PatchableGraphStore(srv().url + "/sparql", srv().url + "/data"), "path": lambda: UpdateableGraphStore(srv().url + "/sparql", srv().url + "/data", param_style=False)}[form]
    content = rdfl.graph(gen.graph(rng, n=1, nb=0))
    acts = {"query": lambda c: str(c.query("ASK {}")), "dataset": lambda c: str(c.query("ASK {}", default_graph=["http://e/d"], named_graph=["http://e/n"])), "xml": lambda c: str(c.query("ASK {}", output="xml"))}
    if form != "get":
        acts["update"] = lambda c: str(c.update("DROP ALL"))[:20]
    if form in ("store", "path"):
        acts.update({"get": lambda c: rdfl.stmts(c.get("http://e/g?graph=")), "put": lambda c: str(c.put("http://e/g", content)), "post": lambda c: str(c.post("http://e/g", content)), "delete": lambda c: str(c.delete("http://e/g"))})
    if form == "store":
        acts["patch"] = lambda c: str(c.patch("http://e/g", changeset(rdfl.graph(set()), content, "http://e/g")))[:20]

    def seen(c, act):
        n = len(srv().log)
        out = acts[act](c)
        return out, [(r.method, r.target, sorted((k.lower(), v) for k, v in r.headers.items() if k.lower() != "content-length"), r.body if act != "patch" else None) for r in srv().log[n:]]

    if kind not in acts:
        return
    want = {a: seen(new(), a) for a in acts}
    n = 1
    while True:
        c = new()
        where, out, exc = at_line(rng, n, acts[kind], c)
        if where is None:
            break
        note(ctx, "client", where, type(exc).__name__)
        exc = None
        for act in [kind] + rng.sample(sorted(acts), 1):
            ctx.ev("repeated")
            got = seen(c, act)
            ctx.expect(got == want[act], lambda: "after %s was interrupted at %r, %s gave something else\n-- undisturbed: %.1500r\n-- here: %.1500r" % (kind, where, act, want[act], got))
        n += 1
    ctx.ev("requests interrupted everywhere")


client_points.keys = lambda tier: ["%s:%s" % (k, f) for k in ("query", "dataset", "xml", "update", "get", "put", "post", "delete", "patch") for f in ("get", "post", "direct", "store", "path")]
FIXED = []
SWEEPS = [first_use, points, client_points]
