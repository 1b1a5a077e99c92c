"""C24: terms and statements as values."""
import copy
import datetime
import pickle

from pymantic.primitives import BlankNode, Literal, NamedNode, Prefix, Quad, RDFEnvironment, Triple, q_as_t, t_as_q
from pymantic.util import de, en

from rv import gen
from rv.model import XSD, B, I, L, ascii_term, read_statement
from rv.pm import Maker, Reader

RULE = "distinct (operation, kinds of components) combinations on generated terms and statements"
ASSUMES = ["pickling or deep-copying a blank node makes a new node (identity is the node)", "comparison across a literal and a statement with the same fields is not judged"]
COUNT = {"quick": 10000, "thorough": 150000}
MIN_EVENTS = {"oracle:evaluations": 200000, "comparisons": 27500, "equal": 5000, "copies": 20000, "replacements": 10000, "numbers": 1000, "datetimes": 1000, "factories": 10000, "live blank nodes": 3000}
ENV = RDFEnvironment()
TEXTS = ["", "a", "A", "b", "en", "http://example.org/a", "_:b", "1", "\u00e9", "e\u0301", "\n", '"']


def term(rng, m):
    r = rng.random()
    if r < 0.3:
        return I(rng.choice(TEXTS[3:5] + ["a"]) if rng.random() < 0.5 else gen.iri(rng))
    if r < 0.45:
        return B("b%d" % rng.randrange(3))
    t = rng.choice(TEXTS) if rng.random() < 0.7 else gen.text(rng)
    return rng.choice([L(t), L(t, rng.choice(["en", "fr", "de", "en-us", "EN", "en-US"])), L(t, None, rng.choice([XSD + "string", XSD + "integer", "http://example.org/a"]))])


def near(rng, t):
    """A term that differs from t in little."""
    if t[0] == "B":
        return rng.choice([I("_:" + t[1]), L(t[1]), L("_:" + t[1]), B(t[1] + "x")])
    v = rng.choice([t[1].swapcase(), t[1] + " ", t[1] + "\n", t[1] + "/", t[1][:-1], t[1] + "\u0301", "\u00e9" + t[1], "e\u0301" + t[1]])
    if t[0] == "I":
        return rng.choice([I(v), L(t[1]), L(t[1], None, XSD + "anyURI")])
    lang, dt = t[2], t[3]
    r = rng.random()
    if r < 0.3:
        return L(v, lang, dt)
    if lang:
        return L(t[1], rng.choice([None, lang.swapcase(), lang + "-x", lang.split("-")[0], lang.replace("-", "_")]))
    if dt:
        return L(t[1], None, rng.choice([None, dt + "#", dt.swapcase(), XSD + "string", XSD + "int"]))
    return L(t[1], *rng.choice([("en", None), (None, XSD + "string"), (None, t[1])]))


def stmt(rng, quad, m):
    s = (term(rng, m), term(rng, m), term(rng, m))
    return s + (rng.choice([None, I("http://g/1"), I("http://g/2"), B("b0")]),) if quad else s


def compare(ctx, a, b, x, y, what):
    """x, y are made from the reference values a, b."""
    ctx.ev("comparisons")
    if a == b:
        ctx.ev("equal")
    ctx.same((x == y, y == x, x != y), (a == b, a == b, a != b), "%s: comparing %r with %r" % (what, x, y))
    if a == b:
        ctx.same(hash(x), hash(y), "%s: hashes of the equal %r and %r" % (what, x, y))
    ctx.same(len({x, y}), 1 if a == b else 2, "%s: a set of %r and %r" % (what, x, y))
    ctx.same({x: 1}.get(y), 1 if a == b else None, "%s: looking up %r under %r" % (what, y, x))


def build(rng, m, s):
    """A statement object for a reference statement, by any constructor."""
    cls = Quad if len(s) == 4 else Triple
    ts = [m.term(t) for t in s]
    k = rng.randrange(5)
    if k == 0:
        return cls(*ts)
    if k == 1:
        return cls(**dict(zip(("subject", "predicate", "object", "graph"), ts)))
    if k == 2:
        return cls._make(rng.choice([list, tuple, iter])(ts))
    if k == 3:
        return (ENV.createQuad if len(s) == 4 else ENV.createTriple)(*ts)
    if len(s) == 4:
        return t_as_q(ts[3], Triple(*ts[:3]))
    return q_as_t(Quad(*ts, NamedNode("http://whatever/")))


def case(ctx, i):
    rng = ctx.rng
    m = Maker()
    rd = Reader(m)
    # terms
    ts = [term(rng, m) for _ in range(5)]
    ts.append(rng.choice(ts))
    ts += [near(rng, rng.choice(ts)) for _ in range(2)]
    for a in ts:
        b = rng.choice(ts) if rng.random() < 0.7 else near(rng, a)
        x, y = fresh(rng, m, a), fresh(rng, m, b)
        compare(ctx, a, b, x, y, "terms")
        ctx.sig("terms", a[0], b[0], a == b, len(a) > 2 and len(b) > 2 and a[1] == b[1])
        one_term(ctx, a, x, m)
    # statements
    quad = i % 2 == 1
    ss = [stmt(rng, quad, m) for _ in range(3)]
    s = rng.choice(ss)
    k = rng.randrange(len(s))
    ss.append(s[:k] + (stmt(rng, quad, m)[k],) + s[k + 1:])  # differs in one place, or not
    ss.append(rng.choice(ss))
    for a in ss:
        rd = Reader(m)
        b = rng.choice(ss)
        x, y = build(rng, m, a), build(rng, m, b)
        compare(ctx, a, b, x, y, "statements")
        one_stmt(ctx, a, x, m, quad)
        ctx.sig("statements", quad, [t[0] if t else None for t in a], sum(p != q for p, q in zip(a, b)))
    ctx.sample(ss[0])


def fresh(rng, m, t):
    """The term, by constructor or factory; blank nodes are what they are."""
    if t[0] == "B":
        return m.term(t)
    if t[0] == "I":
        return rng.choice([NamedNode, ENV.createNamedNode, lambda v: Prefix(v[:3])(v[3:])])("".join(list(t[1])))
    dt = NamedNode(t[3]) if t[3] is not None else None
    v = "".join(list(t[1]))
    k = rng.randrange(6)
    if k == 0:
        return Literal(v, t[2], dt)
    if k == 1:
        return Literal(value=v, language=t[2], datatype=dt)
    if k == 2:
        return ENV.createLiteral(v, t[2], dt)
    if k == 3:
        return ENV.createLiteral(value=v, datatype=dt, language=t[2])
    if k == 4:
        return Literal._make([v, t[2], dt])
    if t[2] in ("en", "de") and t[3] is None:
        return (en if t[2] == "en" else de)(v)
    return Literal("other", "xx", None)._replace(value=v, language=t[2], datatype=dt)


def one_term(ctx, a, x, m):
    rd = Reader(m)
    ctx.ev("factories")
    ctx.same(rd.term(x), a, "the term built for %r" % (a,))
    if a[0] == "B":
        ctx.expect(type(x) is BlankNode and x == x and not (x != x), "a blank node is not itself")
        ctx.same(str(x), "_:" + x.value, "text of a blank node")
        return
    ctx.expect(type(x) is (NamedNode if a[0] == "I" else Literal), "wrong type %r" % type(x))
    for f in (copy.copy, copy.deepcopy, lambda v: pickle.loads(pickle.dumps(v)), lambda v: pickle.loads(pickle.dumps(v, 2))):
        ctx.ev("copies")
        y = f(x)
        ctx.expect(type(y) is type(x) and y == x and hash(y) == hash(x) and Reader(m).term(y) == a, lambda: "a copy of %r is %r" % (x, y))
    if a[0] == "I":
        ctx.same((str(x), "".join(x.value)), (a[1], a[1]), "text and value of an IRI")
        return
    ctx.same((x.value, x.language, x.datatype), (a[1], a[2], a[3]), "fields of %r" % (x,))
    ctx.same(tuple(x), (a[1], a[2], a[3]), "components of %r" % (x,))
    ctx.same(dict(x._asdict()), {"value": a[1], "language": a[2], "datatype": a[3]}, "dictionary of %r" % (x,))
    ctx.same(str(x), a[1], "text of %r" % (x,))
    for f, v in (("value", "new"), ("language", "fr"), ("datatype", NamedNode("http://dt/"))):
        ctx.ev("replacements")
        y = ctx.call("_replace", x._replace, **{f: v})
        want = dict(value=a[1], language=a[2], datatype=a[3])
        want[f] = v
        ctx.expect(type(y) is Literal, "replacement changed the type")
        ctx.same((y.value, y.language, y.datatype), (want["value"], want["language"], want["datatype"]), "%r with %s replaced" % (x, f))
    if ctx.rng.random() < 0.2:
        ctx.raises("_replace", ValueError, lambda: x._replace(nonsense=1))
        ctx.raises("_make", TypeError, Literal._make, list(x) + [None])
        ctx.raises("_make", TypeError, Literal._make, list(x)[:-1])
    ctx.same((x.value, x.language, x.datatype), (a[1], a[2], a[3]), "%r after making changed copies" % (x,))


FIELDS = ("subject", "predicate", "object", "graph")


def one_stmt(ctx, a, x, m, quad):
    rng = ctx.rng
    cls = Quad if quad else Triple
    names = FIELDS[: len(a)]
    ts = [m.term(t) for t in a]
    same = lambda y, want: type(y) is cls and len(y) == len(want) and all((p is q if isinstance(q, BlankNode) else p == q and type(p) is type(q)) for p, q in zip(y, want)) and all(getattr(y, n) is y[k] for k, n in enumerate(names))
    ctx.ev("factories")
    ctx.expect(same(x, ts), lambda: "built %r for %r" % (x, a))
    d = x._asdict()
    ctx.expect(list(d) == list(names) and all(d[n] is x[k] for k, n in enumerate(names)), lambda: "dictionary of %r is %r" % (x, d))
    y = cls._make(x)
    ctx.expect(same(y, ts), "made from itself")
    ctx.expect(same(cls(**d), ts), "made from its dictionary")
    for n in names:
        ctx.ev("replacements")
        k = names.index(n)
        v = m.term(rng.choice([I("http://new/"), L("new"), B("b1")]))
        y = ctx.call("_replace", x._replace, **{n: v})
        ctx.expect(same(y, ts[:k] + [v] + ts[k + 1:]), lambda: "%r with %s replaced by %r is %r" % (x, n, v, y))
    ctx.expect(same(x._replace(), ts), "replacing nothing")
    if rng.random() < 0.2:
        ctx.raises("_replace", ValueError, lambda: x._replace(nonsense=1))
        ctx.raises("_make", TypeError, cls._make, ts + [None])
        ctx.raises("_make", TypeError, cls._make, ts[:-1])
    ctx.ev("copies", 2)
    ctx.expect(same(copy.copy(x), ts), lambda: "copy of %r" % (x,))
    ground = not any(t is not None and t[0] == "B" for t in a)
    for f in (copy.deepcopy, lambda v: pickle.loads(pickle.dumps(v, rng.choice([0, 1, 2, 3, 4, 5])))):
        ctx.ev("copies")
        y = f(x)
        ctx.expect(type(y) is cls, "a copy is a %r" % type(y))
        if ground:
            ctx.expect(y == x and hash(y) == hash(x) and same(y, ts), lambda: "copy of %r is %r" % (x, y))
        else:
            shape = lambda z: [next(k2 for k2, w in enumerate(z) if w is v) if isinstance(v, BlankNode) else v for v in z]
            ctx.same(shape(y), shape(x), "a deep copy, up to its blank nodes")
    # between triples and quads
    if quad:
        t = ctx.call("q_as_t", q_as_t, x)
        ctx.expect(type(t) is Triple and all(p is q for p, q in zip(t, x)) and len(t) == 3, lambda: "q_as_t of %r is %r" % (x, t))
        g = m.term(rng.choice([None, I("http://g/9"), B("b2")]))
        q2 = ctx.call("t_as_q", t_as_q, g, t)
        ctx.expect(type(q2) is Quad and q2.graph is g and all(p is q for p, q in zip(q2, x[:3])), lambda: "t_as_q gave %r" % (q2,))
    # text: one valid N-Triples / N-Quads line with the same terms
    ok = a[0][0] != "L" and a[1][0] == "I" and all(t is None or t[0] != "I" or ":" in t[1] for t in a) and not (a[2][0] == "L" and a[2][3] and ":" not in a[2][3])
    if ok:
        ctx.ev("stringified")
        line = str(x)
        try:
            st = read_statement(line.rstrip("\n"), 4 if quad else 3)
        except ValueError as e:
            ctx.fail("the text of %r is not a valid line: %s" % (x, e), line)
        lab = {m.term(t).value: t for t in a if t is not None and t[0] == "B"}
        back = tuple(lab.get(t[1], t) if t is not None and t[0] == "B" else t for t in st)
        if quad and len(back) == 3:
            back += (None,)
        ctx.same([t and ascii_term(t) for t in back], [t and ascii_term(t) for t in a], "the text of %r" % (x,))
        if not quad:
            ctx.same(x.toString(), line, "toString")


def numbers(ctx):
    rng = ctx.rng
    for v in [0, 1, -1, 7, 10 ** 30, -(2 ** 64), 2 ** 31, 2 ** 63] + [s * (b ** k + d) for s in (1, -1) for b, k in ((10, 15), (10, 17), (10, 45), (2, 200), (7, 400), (10, 4000)) for d in (-1, 0, 1, 7)] + [rng.randrange(-10 ** 12, 10 ** 12) for _ in range(2000)]:
        for f in (Literal, ENV.createLiteral):
            x = f(v)
            ctx.ev("numbers")
            ctx.expect(x.value == str(v) and int(x.value) == v and x.datatype == XSD + "integer" and isinstance(x.datatype, NamedNode) and x.language is None, lambda: "%r became %r" % (v, x))
        ctx.expect(Literal(v, datatype=NamedNode("http://dt/")).datatype == "http://dt/", "a given datatype is kept")
    ctx.sig("numbers")


def datetimes(ctx):
    rng = ctx.rng
    tz = datetime.timezone
    zones = [None, tz.utc, tz(datetime.timedelta(hours=-8)), tz(datetime.timedelta(hours=5, minutes=30)), tz(datetime.timedelta(hours=14))]
    for k in range(2000):
        v = datetime.datetime(rng.choice([1, 1000, 1969, 1999, 2000, 2024, 9999]), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.choice([0, 0, 1, 500000, 999999]), rng.choice(zones))
        for f in (Literal, ENV.createLiteral):
            x = f(v)
            ctx.ev("datetimes")
            w = datetime.datetime.fromisoformat(x.value)
            ctx.expect(w == v and w.utcoffset() == v.utcoffset() and "T" in x.value and x.datatype == XSD + "dateTime" and isinstance(x.datatype, NamedNode) and x.language is None, lambda: "%r became %r" % (v, x))
    ctx.sig("datetimes")


def live_nodes(ctx):
    """Labels of nodes alive at the same time differ; equality is identity."""
    alive = []
    rng = ctx.rng
    for k in range(4000):
        alive.append(rng.choice([BlankNode, ENV.createBlankNode])())
        if rng.random() < 0.3:
            alive.pop(rng.randrange(len(alive)))
        if k % 200 == 0 and alive:
            ctx.same(len({n.value for n in alive}), len(alive), "distinct labels of live nodes")
            ctx.same(len({n.toNT() for n in alive}), len(alive), "distinct N-Triples forms of live nodes")
            ctx.same(len(set(alive)), len(alive), "distinct live nodes")
            a, b = rng.choice(alive), rng.choice(alive)
            ctx.same((a == b, a != b), (a is b, a is not b), "comparison of nodes")
            ctx.expect(a != a.value and a != str(a) and a != NamedNode(str(a)) and a != Literal(a.value), "a blank node equals something else")
    lab = [n.value for n in alive]
    ctx.same([n.value for n in alive], lab, "labels are stable")
    more = [BlankNode() for _ in range(600000)]
    ctx.same(len({n.toNT() for n in more}), len(more), "distinct N-Triples forms of many live nodes")
    ctx.same(len(set(more)), len(more), "distinct nodes")
    del more
    ctx.ev("live blank nodes", 604000)
    ctx.sig("live")


def kinds(ctx):
    """Equal text in different kinds of terms."""
    m = Maker()
    for t in TEXTS:
        a = [NamedNode(t), Literal(t), Literal(t, "en"), Literal(t, None, NamedNode(XSD + "string")), BlankNode(), Literal(t, None, NamedNode("en"))]
        for j, x in enumerate(a):
            for k, y in enumerate(a):
                ctx.same((x == y, x != y), (j == k, j != k), "comparing %r with %r" % (x, y))
                for c in (Triple, lambda *v: Quad(*v, None), lambda *v: Quad(v[0], v[1], Literal("x"), v[2])):
                    p, q = c(NamedNode("s"), NamedNode("p"), x), c(NamedNode("s"), NamedNode("p"), y)
                    ctx.same(p == q, j == k, "comparing %r with %r" % (p, q))
        ctx.same(len(set(a)), len(a), "a set of different terms with the text %r" % t)
        ctx.sig("kinds", t)


FIXED = [numbers, datetimes, live_nodes, kinds]
