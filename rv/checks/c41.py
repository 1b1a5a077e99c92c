"""C41: calls made from within other calls and iterations disturb neither."""
import io
from collections import Counter
from types import SimpleNamespace

from pymantic.parsers import jsonld_parser, nquads_parser, ntriples_parser, turtle_parser
from pymantic.parsers.jsonld import PyLDLoader
from pymantic.primitives import Dataset, Graph, NamedNode, RDFEnvironment
from pymantic.rdf import List, Resource, register_class
from pymantic.serializers import default_bnode_name_generator, serialize_nquads, serialize_ntriples, serialize_turtle

from rv import gen, jldgen, linegen, res, ttlgen
from rv.checks import c36, c40
from rv.model import I, L, isomorphic, map_terms, merge_string, show
from rv.pm import Maker, Reader

RULE = "distinct (outer operation, operations run within it at which of its calls into the program)"
ASSUMES = [
    "the program's code runs where pymantic calls it or hands it control: sources being read, sinks and graphs being filled, writers, label generators, iterables and iterators, environments, constructors of registered classes; not at arbitrary points, as a signal handler would",
    "the inner operations only read what the outer one works on, or work on data of their own",
]
COUNT = {"quick": 4000, "thorough": 120000}
MIN_EVENTS = {"oracle:evaluations": 20000, "nested": 3550, "outer:read": 200, "outer:sink": 150, "outer:environment": 50, "outer:write": 150, "outer:iterate": 150, "outer:fill": 100, "outer:construct": 100, "inner:parse": 600, "inner:write": 500, "inner:classify": 100, "same parser": 200, "within itself": 400, "depth 2": 250}


class Tick:
    """Runs other operations when called, up to a number of them."""

    def __init__(self, ctx, rng, w, ops, want, p, depth=1):
        self.ctx, self.rng, self.w, self.ops, self.want, self.p, self.depth = ctx, rng, w, ops, want, p, depth
        self.left = 6
        self.busy = 0
        self.calls = 0
        self.log = []
        self.bad = []

    def __call__(self):
        self.calls += 1
        if self.busy >= self.depth or self.left <= 0 or self.rng.random() >= self.p:
            return
        self.left -= 1
        self.busy += 1
        try:
            kind, f = op = self.rng.choice(self.ops)
            self.log.append((self.calls, kind))
            self.ctx.ev("nested")
            self.ctx.ev("inner:" + kind)
            if self.busy > 1:
                self.ctx.ev("depth 2")
            try:
                got = f(self.w)
            except Exception as e:
                self.bad.append((kind, "raised", repr(e)[:300]))
                return
            if got != self.want[op]:
                self.bad.append((kind, "gave", str(got)[:800], "instead of", str(self.want[op])[:800]))
        finally:
            self.busy -= 1


def nothing():
    pass


# -- outer operations: (rng, plan, back) -> (kind, function of a world and a tick) --------

class Source(io.StringIO):
    tick = staticmethod(nothing)

    def __next__(self):
        self.tick()
        return super().__next__()

    def __iter__(self):
        return self

    def readline(self, *a):
        self.tick()
        return super().readline(*a)

    def read(self, *a):
        self.tick()
        return super().read(*a)


class Into(Graph):
    tick = staticmethod(nothing)

    def add(self, t):
        self.tick()
        super().add(t)
        self.tick()
        return self


class IntoSet(Dataset):
    tick = staticmethod(nothing)

    def add(self, q):
        self.tick()
        super().add(q)
        self.tick()
        return self


class Environment(RDFEnvironment):
    tick = staticmethod(nothing)

    def createBlankNode(self):
        self.tick()
        return super().createBlankNode()

    def createNamedNode(self, value):
        self.tick()
        return super().createNamedNode(value)

    def createQuad(self, *a, **k):
        self.tick()
        return super().createQuad(*a, **k)

    def createLiteral(self, *a, **k):
        self.tick()
        return super().createLiteral(*a, **k)


class Out(io.StringIO):
    tick = staticmethod(nothing)

    def write(self, s):
        self.tick()
        return super().write(s)


def reading(g, want):
    got, ref = map_terms(Reader().stmts(g), merge_string), map_terms(want, merge_string)
    return "as written" if isomorphic(got, ref) else ("misread", show(got), "instead of", show(ref))


def line_doc(rng):
    nq = rng.random() < 0.4
    want = gen.graph(rng, n=rng.choice([1, 3, 8]), nb=rng.choice([1, 3]))
    if nq:
        want = {s + (rng.choice([None, I("http://e/g")]),) for s in want}
    return nq, want, linegen.document(rng, want)


def o_read(rng, plan, back):
    nq, want, text = line_doc(rng)
    if rng.random() < 0.2:
        nq, d = None, ttlgen.random_doc(rng, n=2)
        text, want, base = d.text(), d.triples, d.start_base

    def f(w, tick):
        src = Source(text, newline="")
        src.tick = tick
        g = turtle_parser.parse(src, None, base) if nq is None else (nquads_parser if nq else ntriples_parser).parse(src)
        return reading(g, want)
    return "read", f, {None: "ttl", True: "nq", False: "nt"}[nq]


def o_sink(rng, plan, back):
    fmt = rng.choice(["nt/nq", "ttl", "jsonld"])
    if fmt == "jsonld":
        doc, opts, want, _ = jldgen.document(rng, jldgen.quads(rng))
        return "sink", lambda w, tick: fill(IntoSet, tick, lambda g: jsonld_parser.parse_json(doc, g, dict(opts or {})), want), "jsonld"
    if fmt == "ttl":
        d = ttlgen.random_doc(rng, n=2)
        return "sink", lambda w, tick: fill(Into, tick, lambda g: turtle_parser.parse(d.text(), g, d.start_base), d.triples), "ttl"
    nq, want, text = line_doc(rng)
    p = nquads_parser if nq else ntriples_parser
    src = (lambda: io.StringIO(text, newline="")) if rng.random() < 0.5 else (lambda: text)
    return "sink", lambda w, tick: fill(IntoSet if nq else Into, tick, lambda g: p.parse(src(), g), want), "nq" if nq else "nt"


def fill(cls, tick, parse, want):
    g = cls()
    g.tick = tick
    parse(g)
    if cls is IntoSet:
        want = {s if len(s) == 4 else s + (None,) for s in want}
    return reading(g, want)


def o_environment(rng, plan, back):
    doc, opts, want, _ = jldgen.document(rng, jldgen.quads(rng))

    def f(w, tick):
        env = Environment()
        env.tick = tick
        p = PyLDLoader(env)
        n = 3

        def again():  # the parser is asked for more while it parses
            nonlocal n
            if n:
                n -= 1
                return reading(p.parse_json({"@id": "_:a", "http://e/p": {"@id": "_:a"}}), {(("B", "a"), I("http://e/p"), ("B", "a"), None)})
        if tick is not nothing:
            env.tick = lambda: (tick(), tick.bad.extend(("own parser", x) for x in [again()] if x not in (None, "as written")))
        return reading(p.parse_json(doc, None, dict(opts or {})), {s if len(s) == 4 else s + (None,) for s in want})
    return "environment", f, "jsonld"


def o_write(rng, plan, back):
    k, prefix = rng.choice([0, 1, 2, 2, 3, 4]), rng.choice(["", "own", "z"])
    base = rng.choice([None, "http://e/"])

    def f(w, tick):
        out = Out()
        out.tick = tick
        if k == 0:
            serialize_ntriples(w.g, out)
        elif k == 1:
            serialize_nquads(w.d, out)
        else:
            kw = {}
            if k == 2:
                kw["bnode_name_generator"] = lambda: labels(tick, prefix)
            if k == 3:
                kw["profile"] = w.profile
            serialize_turtle(w.g, out, base=base, **kw)
        return out.getvalue() if k > 1 else Counter(out.getvalue().split("\n"))
    return "write", f, None


def labels(tick, prefix):
    for x in default_bnode_name_generator():
        tick()
        yield "_:" + prefix + x[2:]


def o_iterate(rng, plan, back):
    s, p = rng.choice(plan[1]), NamedNode(rng.choice(res.PREDS))
    h = rng.choice(plan[2])
    k = rng.randrange(12)
    lang = rng.choice(res.LANGS)

    def f(w, tick):
        m = w.m
        r = Resource(w.g, m.term(s))
        it = [lambda: w.g.match(m.term(s)), lambda: w.g.match(None, p), lambda: w.g.match(), lambda: w.d.match(m.term(s)), lambda: w.d.match(None, p), lambda: w.g, lambda: w.d, lambda: List(w.g, m.term(h)),
              lambda: r, lambda: r.objects(p), lambda: r[str(p), lang] if lang else r[str(p), None], lambda: w.d.graphs][k]()
        if not hasattr(it, "__iter__") or isinstance(it, (tuple, str)) and not isinstance(it, c36.Triple):
            return c36.term(back, it)
        out = []
        for x in it:
            tick()
            out.append(x)
        if k == 11:
            return Counter((str(x.uri), len(x)) for x in out)
        if k == 8:
            return Counter((str(a), c36.term(back, b)) for a, b in out)
        return c36.stmts(back, out) if k < 7 else Counter(c36.term(back, x) for x in out)
    return "iterate", f, None


def o_fill(rng, plan, back):
    k = rng.randrange(4)

    def f(w, tick):
        def each(src):
            for x in src:
                tick()
                yield x
                tick()
        if k == 0:
            g = Graph().addAll(each(w.g.toArray()))
        elif k == 1:
            g = w.env.createGraph(each(w.g))
        elif k == 2:
            g = Dataset()
            g.addAll(each(w.d))
        else:
            g = Into()
            g.tick = tick
            g.addAll(each(w.g.match()))
        return c36.stmts(back, g), len(g)
    return "fill", f, None


_current = [nothing]


class Noticing(Resource):
    """Its instances look around as they are made."""

    def __init__(self, *a, **k):
        _current[0]()
        super().__init__(*a, **k)
        _current[0]()


def o_construct(rng, plan, back, own):
    node = rng.choice(plan[1])

    def f(w, tick):
        old, _current[0] = _current[0], tick
        try:
            x = Resource.classify(w.g, w.m.term(node))
        finally:
            _current[0] = old
        return (c36.term(back, x.subject), x.graph is w.g, sorted(map(str, getattr(type(x), "rdf_classes", ()))), [isinstance(x, c) for c in own.values()])
    return "construct", f, None


OUTER = [o_read] * 4 + [o_sink] * 3 + [o_environment, o_write, o_write, o_write, o_iterate, o_iterate, o_iterate, o_fill, o_fill, o_construct, o_construct]


def case(ctx, i):
    rng = ctx.rng
    fresh = c36.fresh_classes(ctx)
    ns = "http://types.example/c41/" + ctx.label.replace(":", "/") + "/"
    own = {}
    for k in range(3):
        c = type(Resource)("Looks%d" % k, (Noticing,), {"prefixes": {"fr": ns}})
        register_class("fr:k%d" % k)(c)
        own[ns + "k%d" % k] = c
    kinds = list(fresh) + list(own) + list(res.REGISTERED)[:1]
    plan = c36.plan_world(rng, kinds)
    m = Maker()
    for s in plan[0]:
        m.triple(s)
    for t in c36.ABSENT + plan[1] + plan[2]:
        m.term(t)
    back = {id(n): t for t, n in m.b.items()}
    names = [("p", "http://ns.example/p#"), ("q", "http://ns.example/q/"), ("r", "http://ns.example/")]
    w, twin = c36.World(plan, m, names), c36.World(plan, m, names)
    for x in (w, twin):
        x.classes, x.client = fresh, None
    outer = rng.choice(OUTER)
    kind, f, fmt = outer(rng, plan, back, own) if outer is o_construct else outer(rng, plan, back)
    ops = [rng.choice(c36.OPS + [c40.op_parse] * 5 + [c40.op_classify] * 2 + [c40.op_class])(rng, plan, back) for _ in range(rng.choice([1, 2, 4]))]
    if fmt and rng.random() < 0.5:  # the very parser that is at work
        for _ in range(20):
            op = c40.op_parse(rng, plan, back)
            if op[1](twin)[1] == fmt:
                ops = [op] + ops[:1]
                ctx.ev("same parser")
                break
    want = {op: op[1](twin) for op in ops}
    for op in ops:
        if op[0] == "parse":
            ctx.expect(want[op][2] is True, lambda: "a document was misread: %.2000r" % (want[op],))
    tick = Tick(ctx, rng, w, ops, want, rng.choice([0.1, 0.5, 1]), 1)
    if rng.random() < 0.3:  # something that itself calls back
        o2 = rng.choice(OUTER[:-2])
        k2, f2, _ = o2(rng, plan, back)
        op = (k2, lambda world: f2(world, tick))
        want[op] = f2(twin, nothing)
        tick.ops.append(op)
        tick.depth = 2
    if rng.random() < 0.4:  # the same again, within itself
        again = (kind, lambda world: f(world, nothing))
        want[again] = f(twin, nothing)
        ops[:] = [again] + ops[:rng.choice([0, 1])]
        ctx.ev("within itself")
    elif kind == "write" and rng.random() < 0.7:
        op = c36.op_write(rng, plan, back)
        want[op] = op[1](twin)
        ops[:] = [op]
    ctx.ev("outer:" + kind)
    ctx.log("outer", kind, "inner", [k for k, _ in ops])
    calm = f(twin, nothing)
    if fmt:
        ctx.expect(calm == "as written", lambda: "a document was misread: %.2000r" % (calm,))
    got = f(w, tick)
    ctx.log("ran", tick.log)
    ctx.expect(not tick.bad, lambda: "within %s (%s), %r" % (kind, fmt, tick.bad[:3]))
    ctx.expect(got == calm, lambda: "%s (%s) gave another result with %r run within\n-- alone: %.1500r\n-- here: %.1500r" % (kind, fmt, tick.log, calm, got))
    for op in ops[:2]:
        ctx.expect(op[1](w) == want[op], lambda: "after %s with calls within, %s gave another result" % (kind, op[0]))
    st = SimpleNamespace(w=w, plan=plan, fresh=dict(fresh, **own), back=back, names=names)
    c40.whole(ctx, st)
    if tick.log:
        ctx.sig(kind, fmt, tick.log)
        ctx.sample((kind, fmt, tick.log))


FIXED = []
SWEEPS = []
