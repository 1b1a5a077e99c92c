"""C33: the cost of an operation follows what it is about, not what else there is."""
import gc
import io
import time

from pymantic.parsers import jsonld_parser, nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import BlankNode, Dataset, Graph, Literal, NamedNode, PrefixMap, Profile, Quad, RDFEnvironment, TermMap, Triple
from pymantic.rdf import List
from pymantic.serializers import serialize_nquads, serialize_ntriples, serialize_turtle
from pymantic.util import normalize_iri, smart_urljoin

from rv import res
from rv.cost import CN, work

RULE = "distinct (operation, given terms, kind of unrelated data, size) measurements of work"
ASSUMES = ["work is counted as executed lines, branches, jumps and calls in pymantic's own code and as hashing and comparing of terms; what C code does besides is measured as CPU time, with wide margins",
           "a lookup may cost up to three times as much when there are fifty times as many unrelated statements; sorting while serialising is allowed"]
COUNT = {"quick": 1600, "thorough": 6000}
MIN_EVENTS = {"oracle:evaluations": 850, "graph operations": 100, "data set operations": 80, "resource operations": 70, "documents": 30, "clocked operations": 10, "clocked documents": 40}
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
SMALL, BIG = 30, 1500


def node(kind, k, i="", w=CN):
    return w("http://e/%s%s-%s" % (kind, k, i))


def bounded(ctx, small, big, what):
    ctx.expect(big <= 3 * small + 60, lambda: "%s: %d units of work among %d unrelated statements, %d among %d" % (what, small, SMALL, big, BIG))


# -- graphs ---------------------------------------------------------------------
SHAPES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1)]


def obj(rng, k):
    return [lambda i: node("o", k, i), lambda i: Literal("o%s-%s" % (k, i)), lambda i: Literal("o%s-%s" % (k, i), None, CN("http://e/dt"))][rng.randrange(3)]


class Plan:
    """Statements that match a pattern, and unrelated ones that agree with it in all but one given term."""

    def __init__(self, rng, shape, hits):
        mk = (lambda i: node("s", 0, i), lambda i: node("p", 0, i), obj(rng, 0))
        given = [j for j in range(3) if shape[j]]
        self.pattern = tuple(mk[j]("x") if shape[j] else None for j in range(3))
        if all(shape):
            hits = min(hits, 1)
        self.hits = [tuple(mk[j]("x") if shape[j] else mk[j]("h%d" % k) for j in range(3)) for k in range(hits)]
        self.differ = rng.choice(given)
        self.same_rest = rng.random() < 0.4
        self.mk, self.shape = mk, shape

    def unrelated(self, k):
        """Statement k of the background."""
        out = []
        for j in range(3):
            if j == self.differ:
                out.append(self.mk[j]("u%d" % k))
            elif self.shape[j]:
                out.append(self.mk[j]("x"))
            else:
                out.append(self.mk[j]("c" if self.same_rest else "r%d" % k))
        return tuple(out)


def graph_case(ctx):
    rng = ctx.rng
    ctx.ev("graph operations")
    shape = rng.choice(SHAPES)
    plan = Plan(rng, shape, rng.choice([0, 1, 3, 10]))
    op = rng.choice(["match", "match", "removeMatches", "contains", "absent", "add", "add again", "remove", "remove absent"])
    if op not in ("match", "removeMatches"):
        plan = Plan(rng, (1, 1, 1), 1)
    past = rng.random() < 0.3   # the unrelated statements were there once
    probe = Triple(*(plan.mk[j]("n") if j == plan.differ else plan.pattern[j] for j in range(3))) if op not in ("match", "removeMatches") else None

    def measure(n):
        g = Graph()
        hits = [Triple(*h) for h in plan.hits]
        for h in hits[: len(hits) // 2]:
            g.add(h)
        for k in range(n):
            g.add(Triple(*plan.unrelated(k)))
        for h in hits[len(hits) // 2:]:
            g.add(h)
        if past:
            for k in range(n):
                g.remove(Triple(*plan.unrelated(k)))
        left = 0 if past else n
        if op == "match":
            w, r = work(lambda: list(g.match(*plan.pattern)))
            ctx.same(len(r), len(hits), "matches of %r" % (plan.pattern,))
        elif op == "removeMatches":
            w, r = work(lambda: g.removeMatches(*plan.pattern))
            ctx.same(len(g), left, "statements left")
        elif op == "contains":
            w, r = work(lambda: hits[0] in g)
            ctx.same(bool(r), True, "membership")
        elif op == "absent":
            w, r = work(lambda: probe in g)
            ctx.same(bool(r), False, "membership")
        elif op == "add":
            w, r = work(lambda: g.add(probe))
            ctx.same(len(g), left + 2, "statements")
        elif op == "add again":
            w, r = work(lambda: g.add(Triple(*plan.hits[0])))
            ctx.same(len(g), left + 1, "statements")
        elif op == "remove":
            w, r = work(lambda: g.remove(hits[0]))
            ctx.same(len(g), left, "statements")
        else:
            def missing():
                try:
                    g.remove(probe)
                except KeyError:
                    return True
            w, r = work(missing)
            ctx.same(r, True, "removing an absent statement raises KeyError")
        return w

    a, b = measure(SMALL), measure(BIG)
    what = "%s of %s, unrelated statements differing in the %s%s" % (op, "".join("?" if not s else "spo"[j] for j, s in enumerate(shape)), ("subject", "predicate", "object")[plan.differ],
                                                                   ", since removed" if past else "")
    bounded(ctx, a, b, what)
    ctx.sig("graph", op, shape, plan.differ, past, len(plan.hits), plan.same_rest)
    ctx.sample("%s: %d and %d units of work" % (what, a, b))


# -- data sets --------------------------------------------------------------------
def dataset_case(ctx):
    rng = ctx.rng
    ctx.ev("data set operations")
    op = rng.choice(["match", "match", "removeMatches", "contains", "absent", "absent graph", "add", "add new graph", "remove", "remove absent", "add_graph", "remove_graph", "any graph"])
    shape = rng.choice(SHAPES + [(0, 0, 0)]) if op in ("match", "removeMatches") else rng.choice(SHAPES) if op == "any graph" else (1, 1, 1)
    others = rng.choice(["many graphs", "one large graph", "the same graph"])
    if not any(shape) and others == "the same graph":
        others = "many graphs"
    if op == "any graph":
        others = "the same graph"
    plan = Plan(rng, shape if any(shape) else (1, 0, 0), rng.choice([0, 1, 3]) if op in ("match", "removeMatches", "any graph") else 1)
    pattern = plan.pattern if any(shape) else (None, None, None)

    def name(k):
        return CN("http://e/g-%s" % k)

    def measure(n):
        d = Dataset()
        hits = [Quad(*h, name("x")) for h in plan.hits]
        for h in hits:
            d.add(h)
        for k in range(n):
            t = plan.unrelated(k)
            if others == "many graphs":
                d.add(Quad(*(t if rng.random() < 0.5 or not plan.hits else plan.hits[0]), name(k)))
            elif others == "one large graph":
                d.add(Quad(*t, name("large")))
            else:
                d.add(Quad(*t, name("x")))
        probe = Quad(*(plan.mk[j]("n") for j in range(3)), name("x"))
        if op == "match":
            w, r = work(lambda: list(d.match(*pattern, name("x"))))
            ctx.same(len(r), len(hits), "matches")
        elif op == "any graph":
            w, r = work(lambda: list(d.match(*pattern)))
            ctx.same(len(r), len(hits), "matches")
        elif op == "removeMatches":
            w, r = work(lambda: d.removeMatches(*pattern, name("x")))
            ctx.same(len(d), n, "statements left")
        elif op in ("contains", "absent", "absent graph"):
            q = {"contains": hits[0], "absent": probe, "absent graph": Quad(*probe[:3], name("none"))}[op]
            w, r = work(lambda: q in d)
            ctx.same(bool(r), op == "contains", "membership")
        elif op == "add":
            w, r = work(lambda: d.add(probe))
        elif op == "add new graph":
            w, r = work(lambda: d.add(Quad(*probe[:3], name("new"))))
        elif op == "remove":
            w, r = work(lambda: d.remove(hits[0]))
            ctx.same(len(d), n, "statements left")
        elif op == "remove absent":
            def missing():
                try:
                    d.remove(probe)
                except KeyError:
                    return True
            w, r = work(missing)
            ctx.same(r, True, "removing an absent statement raises KeyError")
        elif op == "add_graph":
            g = Graph(name("added"))
            g.add(Triple(*probe[:3]))
            w, r = work(lambda: d.add_graph(g))
        else:
            w, r = work(lambda: d.remove_graph(name("x")))
        return w

    a, b = measure(SMALL), measure(BIG)
    what = "data set: %s of %s with unrelated statements in %s" % (op, "".join("?" if not s else "spo"[j] for j, s in enumerate(shape)), others)
    bounded(ctx, a, b, what)
    ctx.sig("dataset", op, shape, others, len(plan.hits))
    ctx.sample("%s: %d and %d units of work" % (what, a, b))


# -- resources --------------------------------------------------------------------
def resource_case(ctx):
    rng = ctx.rng
    ctx.ev("resource operations")
    own = rng.choice([1, 2, 5])
    prop = CN(rng.choice([res.EX + "many", res.EX + "one", res.RDFS + "label", "http://elsewhere.example/p"]))
    if prop != res.EX + "many" and not str(prop).startswith("http://elsewhere"):
        own = 1
    values = rng.choice(["text", "nodes", "dates"])
    bg = rng.choice(["the same property of others", "other properties", "others of the type", "others with the value", "another property with the value"])
    op = rng.choice(["get", "get lang", "get datatype", "get class", "set", "set lang", "set datatype", "del", "in", "str", "classify", "is_a", "copy", "erase", "new", "list", "is list", "in graph", "as"])
    if op == "in graph" and bg == "others of the type":
        bg = "others with the value"
    if bg == "other properties" and op in ("copy", "erase"):
        bg = "the same property of others"
    if bg == "another property with the value" and op in ("copy", "erase"):
        bg = "others with the value"

    def val(k):
        if values == "text":
            return Literal("v%s" % k, rng.choice(["en", "fr", None]) if own > 1 else "en")
        if values == "dates":
            return Literal("v%s" % k, None, CN(res.XSD + "date"))
        return CN("http://e/v%s" % k)

    state = rng.getstate()

    def measure(n):
        rng.setstate(state)
        g = Graph()
        s = CN("http://e/self")
        typ = CN(RDF + "type")
        person = CN(res.EX + "Person")
        g.add(Triple(s, typ, person))
        vals = [val(k) for k in range(own)]
        for v in vals:
            g.add(Triple(s, prop, v))
            if isinstance(v, CN):
                g.add(Triple(v, typ, person))
        cells = [BlankNode() for _ in range(3)] + [CN(RDF + "nil")]
        for c, d in zip(cells, cells[1:]):
            g.add(Triple(c, CN(RDF + "first"), Literal("m")))
            g.add(Triple(c, CN(RDF + "rest"), d))
        for k in range(n):
            o = CN("http://e/other%d" % k)
            if bg == "the same property of others":
                g.add(Triple(o, prop, Literal("w%d" % k, "en") if k % 2 else CN("http://e/w%d" % k)))
                if op == "list":
                    g.add(Triple(o, CN(RDF + "first"), Literal("m%d" % k)))
                    g.add(Triple(o, CN(RDF + "rest"), CN("http://e/other%d" % (k + 1))))
            elif bg == "other properties":
                g.add(Triple(s, CN("http://e/q%d" % k), vals[0] if k % 2 else o))
            elif bg == "others of the type":
                g.add(Triple(o, typ, person))
            elif bg == "others with the value":
                g.add(Triple(o, CN("http://e/q"), vals[0]))
                g.add(Triple(o, prop, vals[0]))
            else:
                g.add(Triple(s, CN("http://e/q%d" % k), vals[0]))
        r = res.Person(g, s)
        rng.setstate(state)

        def out(x):
            return x if isinstance(x, (str, tuple, res.Resource)) or x is None else list(x)

        fns = {
            "get": lambda: out(r[prop]), "get lang": lambda: out(r[prop, "fr"]), "get datatype": lambda: out(r[prop, res.XSD + "date"]), "get class": lambda: out(r[prop, res.Person]),
            "set": lambda: r.__setitem__(prop, "new"), "set lang": lambda: r.__setitem__((prop, "fr"), "nouveau"),
            "set datatype": lambda: r.__setitem__((prop, res.XSD + "date"), "2000-01-01"),
            "del": lambda: r.__delitem__(prop), "in": lambda: prop in r, "str": lambda: str(r), "classify": lambda: type(res.Resource.classify(g, s)),
            "is_a": lambda: res.Person(g, s).is_a(), "copy": lambda: r.copy(CN("http://e/copy")), "erase": lambda: r.erase(), "new": lambda: res.Person.new(g, CN("http://e/made")),
            "list": lambda: list(List(g, cells[0])), "is list": lambda: List.is_list(cells[1], g), "in graph": lambda: res.Person.in_graph(g), "as": lambda: r.as_(res.Place)[prop],
        }
        try:
            w, x = work(fns[op])
        except TypeError:  # an access the declared scalar or key does not allow
            return None
        return w

    a, b = measure(SMALL), measure(BIG)
    if a is None or b is None:
        ctx.expect(a is None and b is None, "the same access fails depending on unrelated statements")
        return
    what = "resource: %s with %d values, unrelated statements: %s" % (op, own, bg)
    bounded(ctx, a, b, what)
    ctx.sig("resource", op, own, values, bg, prop)
    ctx.sample("%s: %d and %d units of work" % (what, a, b))


# -- names ------------------------------------------------------------------------
def names_case(ctx):
    rng = ctx.rng
    ctx.ev("names")
    op = rng.choice(["prefixes", "terms", "profile", "profile term"])

    def measure(n):
        if op in ("prefixes", "profile"):
            m = PrefixMap()
            for k in range(n):
                m[CN("p%d" % k)] = "http://e/%d/" % k
            m[CN("mine")] = "http://mine/"
            x = m if op == "prefixes" else Profile(prefixes=m)
            w, r = work(lambda: x.resolve("mine:x"))
            ctx.same(str(r), "http://mine/x", "a resolved name")
        else:
            m = TermMap()
            for k in range(n):
                m[CN("p%d" % k)] = "http://e/%d/" % k
            m[CN("mine")] = "http://mine/"
            x = m if op == "terms" else Profile(terms=m)
            w, r = work(lambda: x.resolve("mine"))
            ctx.same(str(r), "http://mine/", "a resolved term")
        return w

    a, b = measure(SMALL), measure(BIG)
    bounded(ctx, a, b, "resolving a name among other names (%s)" % op)
    ctx.sig("names", op)


# -- documents: n statements and 4 n statements -----------------------------------
def statements(rng, kind, n, w):
    p = w("http://e/p")
    if kind == "many subjects":
        return [(w("http://e/s%d" % k), p, Literal("v%d" % k)) for k in range(n)]
    if kind == "one subject":
        return [(w("http://e/s"), p, w("http://e/o%d" % k)) for k in range(n)]
    if kind == "many predicates":
        return [(w("http://e/s"), w("http://e/p%d" % k), Literal("v", "en")) for k in range(n)]
    if kind == "one object":
        return [(w("http://e/s%d" % k), p, w("http://e/o")) for k in range(n)]
    b = [BlankNode() for _ in range(n + 1)]
    if kind == "chain":
        return [(b[k], p, b[k + 1]) for k in range(n)]
    if kind == "ring":
        return [(b[k], p, b[(k + 1) % n]) for k in range(n)]
    if kind == "tree":
        return [(b[(k - 1) // 2], p, b[k]) for k in range(1, n)]
    if kind == "star":
        return [(b[0], p, b[k]) for k in range(1, n)]
    first, rest, nil = w(RDF + "first"), w(RDF + "rest"), w(RDF + "nil")
    m = n // 2
    if kind in ("list", "open list", "entered list"):
        out = [(b[k], first, Literal("m%d" % k)) for k in range(m)]
        out += [(b[k], rest, b[k + 1] if k + 1 < m else nil) for k in range(m - (kind == "open list"))]
        out.append((w("http://e/s"), p, b[0]))
        if kind == "entered list":
            out += [(w("http://e/t"), p, b[k]) for k in range(0, m, 3)]
        return out
    assert kind == "lists"
    out = []
    for k in range(m):
        out += [(w("http://e/s"), p, b[k]), (b[k], first, Literal("m%d" % k)), (b[k], rest, nil)]
    return out


KINDS = ["many subjects", "one subject", "many predicates", "one object", "chain", "ring", "tree", "star", "list", "open list", "entered list", "lists"]


def fill(kind, n, quads, rng, w=NamedNode):
    c = Dataset() if quads else Graph()
    for k, s in enumerate(statements(rng, kind, n, w)):
        c.add(Quad(*s, w("http://e/g%d" % (k % (n // 4) if quads == "many" else k % 2))) if quads else Triple(*s))
    return c


def document_case(ctx):
    rng = ctx.rng
    ctx.ev("documents")
    kind = rng.choice(KINDS)
    op = rng.choice(["write nt", "write nq", "write ttl", "read nt", "read nq", "read ttl", "read ttl", "read jsonld", "addAll", "merge", "clear"])
    quads = rng.choice(["few", "many"]) if op in ("write nq", "read nq") else ""
    n = 150

    def measure(n):
        if op == "read jsonld":
            doc = [{"@id": "_:b%d" % (k // 3), "http://e/p": [{"@id": "http://e/o%d" % k}, "v%d" % k]} for k in range(n // 2)]
            w, r = work(lambda: jsonld_parser.parse_json(doc))
            ctx.same(len(r), n // 2 * 2, "statements read")
            return w
        if op.startswith("read"):
            c = fill(kind, n, quads, rng)
            f = io.StringIO()
            {"read nt": serialize_ntriples, "read nq": serialize_nquads, "read ttl": serialize_turtle}[op](c, f)
            parse = {"read nt": ntriples_parser, "read nq": nquads_parser, "read ttl": turtle_parser}[op].parse
            text = f.getvalue()
            w, r = work(lambda: parse(text))
            ctx.same(len(r), len(c), "statements read")
            return w
        c = fill(kind, n, quads, rng, CN)
        f = io.StringIO()
        if op.startswith("write"):
            return work(lambda: {"write nt": serialize_ntriples, "write nq": serialize_nquads, "write ttl": serialize_turtle}[op](c, f))[0]
        if op == "addAll":
            return work(lambda: Graph().addAll(c))[0]
        if op == "merge":
            return work(lambda: c.merge(c))[0]
        w, r = work(lambda: c.removeMatches(None, None, None))
        ctx.same(len(c), 0, "statements left")
        return w

    a, b = measure(n), measure(4 * n)
    ctx.expect(b <= 7 * a + 200, lambda: "%s (%s): %d units of work for %d statements, %d for %d" % (op, kind, a, n, b, 4 * n))
    ctx.sig("document", op, kind, quads)
    ctx.sample("%s (%s): %d units of work for %d statements, %d for %d" % (op, kind, a, n, b, 4 * n))


def case(ctx, i):
    r = ctx.rng.random()
    (graph_case if r < 0.42 else dataset_case if r < 0.66 else resource_case if r < 0.88 else document_case if r < 0.98 else names_case)(ctx)


# -- the clock, for what happens inside C code ----------------------------------------
def best(fn, times):
    t = []
    for _ in range(times):
        a = time.thread_time()
        fn()
        t.append(time.thread_time() - a)
    return min(t)


def clocked_ops(ctx, key):
    """Operations on containers of 300 and of 40000 (thorough: 200000) statements, by CPU time."""
    what, big = key
    p = NamedNode("http://e/p")

    def build(n):
        if what.startswith("graph"):
            c = Graph()
            for k in range(n):
                c.add(Triple(NamedNode("http://e/s%d" % (k % 1000 if n > 1000 else k)), p, Literal("v%d" % k)))
            return c
        c = Dataset()
        for k in range(n):
            c.add(Quad(NamedNode("http://e/s%d" % k), p, Literal("v%d" % k), NamedNode("http://e/g%d" % (k // 4 if what == "dataset graphs" else 0))))
        return c

    s, o = NamedNode("http://e/mine"), Literal("mine")
    small, large = build(300), build(big)
    gname = NamedNode("http://e/g0")

    def st(s=s, o=o):
        return Triple(s, p, o) if what.startswith("graph") else Quad(s, p, o, gname)

    def ops(c):
        if what == "graph resource":
            r = res.Person(c, s)
            return {"set": lambda: r.__setitem__("http://e/own", "x"), "get": lambda: r["http://e/own"], "str": lambda: str(r), "in": lambda: "http://e/own" in r,
                    "classify": lambda: res.Resource.classify(c, s), "del": lambda: r.__delitem__("http://e/own")}
        g = () if what.startswith("graph") else (gname,)
        return {
            "add and remove": lambda: (c.add(st()), c.remove(st())),
            "add twice and remove": lambda: (c.add(st()), c.add(st()), c.remove(st())),
            "contains": lambda: st() in c,
            "match s": lambda: list(c.match(s, None, None, *g)), "match o": lambda: list(c.match(None, None, o, *g)),
            "match sp": lambda: list(c.match(s, p, None, *g)), "match so": lambda: list(c.match(s, None, o, *g)),
            "match po": lambda: list(c.match(None, p, o, *g)), "match spo": lambda: list(c.match(s, p, o, *g)),
            "match p": lambda: list(c.match(None, s, None, *g)),
            "removeMatches": lambda: (c.add(st()), c.removeMatches(s, p, None, *g)),
            "match in the absent": lambda: list(c.match(s, None, None)) if what.startswith("graph") else list(c.match(s, None, None, s)),
        }

    # no automatic collection while the clock runs: its cost depends on everything in the process
    gc.collect()
    on = gc.isenabled()
    gc.disable()
    try:
        a, b = ops(small), ops(large)
        for name in a:
            def many(f):
                return lambda: [f() for _ in range(40)]
            ta = best(many(a[name]), 12)
            tb = best(many(b[name]), 12)
            ctx.ev("clocked operations")
            ctx.expect(tb <= 30 * ta + 0.0004, lambda: "%s, %s: %.1f us among 300 statements, %.1f us among %d" % (what, name, ta * 25000, tb * 25000, big))
            ctx.sig("clock", what, name, big)
    finally:
        if on:
            gc.enable()


clocked_ops.keys = lambda tier: [(w, 200000 if tier == "thorough" else 40000) for w in ("graph", "graph resource", "dataset", "dataset graphs")]

S = "<http://e/s> <http://e/p> "
LINE = {
    "long literal": lambda n: S + '"' + "a" * n + '" .\n',
    "escapes": lambda n: S + '"' + "\\n" * n + '" .\n',
    "code points": lambda n: S + '"' + "\\u0041" * n + '" .\n',
    "backslashes": lambda n: S + '"' + "\\\\" * n + '" .\n',
    "unterminated literal": lambda n: S + '"' + "a" * n + " .\n",
    "unterminated escapes": lambda n: S + '"' + "\\n" * n + " .\n",
    "unterminated backslashes": lambda n: S + '"' + "\\\\" * n + " .\n",
    "odd escape": lambda n: S + '"' + "\\n" * n + '\\q" .\n',
    "long IRI": lambda n: S + "<http://e/" + "a" * n + "> .\n",
    "escaped IRI": lambda n: S + "<http://e/" + "\\u00e9" * n + "> .\n",
    "IRI of dots": lambda n: S + "<http://e" + "/../a" * n + "> .\n",
    "IRI of percents": lambda n: S + "<http://e/" + "%" * n + "> .\n",
    "unterminated IRI": lambda n: S + "<http://e/" + "a" * n + " .\n",
    "unterminated escaped IRI": lambda n: S + "<http://e/" + "\\u00e9" * n + " .\n",
    "long label": lambda n: S + "_:" + "a" * n + " .\n",
    "dots in label": lambda n: S + "_:a" + "." * n + "a .\n",
    "dots after label": lambda n: S + "_:a" + "." * n + " .\n",
    "label of a.": lambda n: S + "_:a" + "a." * n + " .\n",
    "long language": lambda n: S + '"x"@a' + "-a" * n + " .\n",
    "language letters": lambda n: S + '"x"@' + "a" * n + "-_ .\n",
    "odd code points": lambda n: S + '"' + "\\u0041" * n + '\\u00" .\n',
    "odd label": lambda n: S + "_:" + "a-." * n + "\\ .\n",
    "IRI with a space": lambda n: S + "<http://e/" + "a" * n + " b> .\n",
    "odd IRI": lambda n: S + "<http://e/" + "a" * n + "\\x> .\n",
    "odd language": lambda n: S + '"x"@a' + "-a" * n + "- .\n",
    "comments": lambda n: "# c\n" * n,
    "long comment": lambda n: "#" + "c" * n,
    "empty lines": lambda n: "\n" * n,
    "spaces": lambda n: " " * n,
    "spaces inside": lambda n: S + " " * n + "<http://e/o> .",
    "subjects": lambda n: "".join('<http://e/s%d> <http://e/p> "%d" .\n' % (k, k) for k in range(n // 20)),
    "one subject": lambda n: "".join('<http://e/s> <http://e/p> "%d" .\n' % k for k in range(n // 20)),
    "labels": lambda n: "".join("_:b%d <http://e/p> _:b%d .\n" % (k, k + 1) for k in range(n // 20)),
    "repeated": lambda n: "".join('<http://e/s> <http://e/p> "x" .\n' for k in range(n // 20)),
}
TURTLE = {
    "long string": lambda n: S + '"""' + '"" ' * n + '""" .\n',
    "unterminated long string": lambda n: S + '"""' + '"" ' * n + " .\n",
    "long 'string'": lambda n: S + "'''" + "'' " * n + "''' .\n",
    "'string'": lambda n: S + "'" + "\\n" * n + "' .\n",
    "unterminated long 'string'": lambda n: S + "'''" + "'' " * n + " .\n",
    "unterminated long text": lambda n: S + '"""' + "a" * n + " .\n",
    "unterminated long 'text'": lambda n: S + "'''" + "a" * n + " .\n",
    "unterminated long escapes": lambda n: S + '"""' + "\\n" * n + " .\n",
    "unterminated long 'escapes'": lambda n: S + "'''" + "\\n" * n + " .\n",
    "unterminated 'text'": lambda n: S + "'" + "a" * n + " .\n",
    "unterminated 'escapes'": lambda n: S + "'" + "\\n" * n + " .\n",
    "unterminated bracket": lambda n: S + "[" + " " * n + '"x" .\n',
    "unterminated collection": lambda n: S + "(" + " a" * (n // 10) + " .\n",
    "exponent": lambda n: S + "1e" + "1" * n + " .\n",
    "odd number": lambda n: S + "1" * n + "." + "1" * n + "q .\n",
    "odd name": lambda n: "@prefix a: <http://e/>." + S + "a:" + "b" * n + "\\q .\n",
    "odd prefix": lambda n: S + "a" * n + " .\n",
    "IRI with a space": lambda n: S + "<http://e/" + "a" * n + " b> .\n",
    "language of letters": lambda n: S + '"x"@' + "a" * n + "- .\n",
    "label of dashes": lambda n: S + "_:" + "a-" * n + "\\ .\n",
    "unterminated quotes": lambda n: S + '"""' + 'a"' * n + " .\n",
    "unterminated lines": lambda n: S + '"""' + "\n" * n + " .\n",
    "empty strings": lambda n: S + '""' * n + " .\n",
    "name of dots": lambda n: "@prefix a: <http://e/>." + S + "a:b" + "." * n + " .\n",
    "name of b.": lambda n: "@prefix a: <http://e/>." + S + "a:" + "b." * n + " .\n",
    "name of colons": lambda n: "@prefix a: <http://e/>." + S + "a:" + "b:" * n + " .\n",
    "name of percents": lambda n: "@prefix a: <http://e/>." + S + "a:" + "%41" * n + " .\n",
    "odd percent": lambda n: "@prefix a: <http://e/>." + S + "a:" + "%41" * n + "% .\n",
    "name of escapes": lambda n: "@prefix a: <http://e/>." + S + "a:" + "\\~" * n + " .\n",
    "prefix of dots": lambda n: S + "a" + "." * n + ":b .\n",
    "prefix of .a": lambda n: S + "a" + ".a" * n + " .\n",
    "digits": lambda n: S + "1" * n + " .\n",
    "number": lambda n: S + "1" * n + "." + "1" * n + "e .\n",
    "objects": lambda n: S + ",".join('"%d"' % k for k in range(n // 10)) + " .\n",
    "predicates": lambda n: "<http://e/s> " + ";".join('<http://e/p%d> "%d"' % (k, k) for k in range(n // 20)) + " .\n",
    "collection": lambda n: S + "(" + " ".join('"%d"' % k for k in range(n // 10)) + ") .\n",
    "collections": lambda n: S + ",".join('("%d")' % k for k in range(n // 10)) + " .\n",
    "anonymous nodes": lambda n: S + ",".join('[<http://e/p> "%d"]' % k for k in range(n // 10)) + " .\n",
    "semicolons": lambda n: S + '"x"' + ";" * n + " .\n",
    "upwards": lambda n: "@base <http://e" + "/a" * n + "/> ." + S + "<" + "../" * n + "> .\n",
    "here": lambda n: "@base <http://e/> ." + S + "<" + "./" * n + "> .\n",
    "up and down": lambda n: "@base <http://e/> ." + S + "<" + "a/../" * n + "> .\n",
    "prefixes": lambda n: "".join("@prefix a%d: <http://e/%d/> .\n" % (k, k) for k in range(n // 20)) + "".join("a%d:x a%d:y a%d:z .\n" % (k, k, k) for k in range(n // 20)),
    "redefined": lambda n: "".join("@prefix a: <http://e/%d/> . a:x a:y a:z .\n" % k for k in range(n // 20)),
    "bases": lambda n: "".join("@base <http://e/%d/> . <x> <y> <z> .\n" % k for k in range(n // 20)),
}
GRAPHS = {
    "text": lambda n: [(NamedNode("http://e/s"), NamedNode("http://e/p"), Literal('a"\n\\' * n))],
    "accents": lambda n: [(NamedNode("http://e/s"), NamedNode("http://e/p"), Literal("\u00e9\U0001F600" * n))],
    "quotes": lambda n: [(NamedNode("http://e/s"), NamedNode("http://e/p"), Literal('"' * n))],
    "IRI": lambda n: [(NamedNode("http://e/s"), NamedNode("http://e/p"), NamedNode("http://e/" + "\u00e9" * n))],
    "percents": lambda n: [(NamedNode("http://e/s"), NamedNode("http://e/p"), NamedNode("http://e/" + "%" * n))],
    "dots": lambda n: [(NamedNode("http://e/s"), NamedNode("http://e/p"), NamedNode("http://e/" + "." * n))],
}
for _k in KINDS:
    GRAPHS[_k] = lambda n, _k=_k: statements(None, _k, max(n // 10, 8), NamedNode)


def quiet(fn, *a):
    try:
        fn(*a)
    except Exception:
        pass  # what is accepted is judged elsewhere


def document(key):
    how, name = key[:2]
    if how in ("nt", "nq", "ttl"):
        parse = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser}[how].parse
        make = LINE.get(name) or TURTLE[name]
        return make, lambda x: quiet(parse, x)
    if how == "util":
        return {
            "normalize": (lambda n: "http://e/" + "%c3%A9\u00e9" * n, lambda x: quiet(normalize_iri, x)),
            "join": (lambda n: ("http://e" + "/a" * n + "/", "../" * n), lambda x: quiet(smart_urljoin, *x)),
            "terms": (lambda n: [NamedNode("http://e/%d" % k) for k in range(n)], lambda x: [t.toNT() for t in x]),
        }[name]
    ser = {"write nt": serialize_ntriples, "write ttl": serialize_turtle}[how]

    def make(n):
        g = Graph()
        for s in GRAPHS[name](n):
            g.add(Triple(*s))
        return g
    return make, lambda g: ser(g, io.StringIO())


def clocked_documents(ctx, key):
    """16 times the document takes about 16 times as long; a quadratic step would take 256 times."""
    make, fn = document(key)
    factor = key[2]
    limit = 6 * factor
    n = 400
    gc.collect()
    on = gc.isenabled()
    gc.disable()
    try:
        while True:
            x = make(n)
            a = best(lambda: fn(x), 3)
            if a > 0.004 or n >= 25600:
                break
            n *= 2
        x = make(n * factor)
        b = best(lambda: fn(x), 1)
        if b > limit * a:
            a, b = max(a, best(lambda: fn(make(n)), 3)), min(b, best(lambda: fn(x), 2))
    finally:
        if on:
            gc.enable()
    ctx.ev("clocked documents")
    ctx.expect(b <= limit * max(a, 0.0005), lambda: "%s, %s: %.1f ms for size %d, %.1f ms for size %d" % (key[0], key[1], a * 1000, n, b * 1000, n * factor))
    ctx.sig("clock", key)
    ctx.sample("%s, %s: %.1f ms for size %d, %.1f ms for size %d" % (key[0], key[1], a * 1000, n, b * 1000, n * factor))


def clocked_keys(tier):
    f = 64 if tier == "thorough" else 16
    out = [(h, k, f) for h in ("nt", "nq", "ttl") for k in LINE] + [("ttl", k, f) for k in TURTLE]
    out += [(h, k, f) for h in ("write nt", "write ttl") for k in GRAPHS] + [("util", k, f) for k in ("normalize", "join", "terms")]
    return out


clocked_documents.keys = clocked_keys
SWEEPS = [clocked_ops, clocked_documents]
