"""C21: iterating RDF lists."""
import json

from pymantic.parsers import turtle_parser
from pymantic.parsers.jsonld import jsonld_parser
from pymantic.primitives import BlankNode, Graph, Literal, NamedNode, Triple
from pymantic.rdf import List, Resource

from rv import gen, res
from rv.linegen import spell_text
from rv.model import RDFNS, B, I, L, merge_string
from rv.pm import Maker, Reader

RULE = "distinct (source syntax, length class, kinds of members, nesting) combinations iterated"
ASSUMES = ["well-formed lists: one first and one rest per cell, no cycles", "JSON-LD lower-cases language tags"]
COUNT = {"quick": 9000, "thorough": 80000}
MIN_EVENTS = {"oracle:evaluations": 30000, "members": 15000, "sub-lists": 1000, "empty lists": 300, "from triples": 500, "from turtle": 500, "from jsonld": 300, "is_list": 8000, "repeated members": 500}
F, R, NIL, TYPE = I(RDFNS + "first"), I(RDFNS + "rest"), I(RDFNS + "nil"), I(RDFNS + "type")


class Numbered(List):
    """A user's list class."""


def member(rng, depth, iri=gen.iri):
    r = rng.random()
    if depth > 0 and r < 0.22:
        return [member(rng, depth - 1, iri) for _ in range(rng.choice([0, 1, 2, 3]))]
    if r < 0.6:
        return gen.literal(rng, iri_fn=iri)
    if r < 0.85:
        return rng.choice([I(res.EX + "n0"), I(res.EX + "n1"), I(iri(rng))])
    return B("m%d" % rng.randrange(3))


def spec(rng, iri=gen.iri, n=None):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8]) if n is None else n
    out = [member(rng, rng.choice([0, 1, 2, 3]), iri) for _ in range(n)]
    if out and rng.random() < 0.35:
        out += [rng.choice(out) for _ in range(rng.choice([1, 3]))]
    return out


class Build:
    """Triples for a list, in reference terms."""

    def __init__(self, rng):
        self.rng, self.n, self.out = rng, 0, set()

    def cell(self):
        self.n += 1
        r = self.rng.random()
        return I("http://cells.example/%d" % self.n) if r < 0.1 else B("cell%d" % self.n)

    def add(self, items):
        nxt = NIL
        for x in reversed(items):
            c = self.cell()
            self.out.add((c, F, self.add(x) if isinstance(x, list) else x))
            self.out.add((c, R, nxt))
            if self.rng.random() < 0.05:
                self.out.add((c, TYPE, I(RDFNS + "List")))
            if self.rng.random() < 0.05:
                self.out.add((c, I("http://e/extra"), L("x")))
            nxt = c
        return nxt


def judge(ctx, graph, head, items, rd, labels, cls, path="list"):
    """Iterate head in graph and compare with items; labels: reference bnode -> seen node."""
    rng = ctx.rng
    lst = cls(graph, head)
    seen = []
    it = iter(lst)
    try:
        for x in it:
            seen.append(x)
            if len(seen) > len(items) + 5:
                break
    except RecursionError:
        ctx.fail("iterating a list of %d members exceeded the recursion limit" % len(items))
    ctx.same(len(seen), len(items), "number of members of %s (%s)" % (path, rd.term(head)))
    ctx.ev("members", len(items))
    if not items:
        ctx.ev("empty lists")
    for k, (x, want) in enumerate(zip(seen, items)):
        what = "%s[%d]" % (path, k)
        if isinstance(want, list):
            ctx.ev("sub-lists")
            ctx.expect(isinstance(x, Resource), lambda: "%s is %r, expected a sub-list" % (what, x))
            judge(ctx, graph, x.subject, want, rd, labels, cls, what)
            sub = list(x.as_(List))
            ctx.same(len(sub), len(want), "as_(List) of " + what)
        elif want[0] == "L":
            ctx.expect(isinstance(x, Literal), lambda: "%s is %r, expected the literal %r" % (what, x, want))
            ctx.same(merge_string(rd.term(x)), merge_string(want), what)
        elif want[0] == "I":
            ctx.expect(isinstance(x, Resource) and x.graph is graph, lambda: "%s is %r" % (what, x))
            ctx.same(rd.term(x.subject), want, what)
        else:
            ctx.expect(isinstance(x, Resource) and isinstance(x.subject, BlankNode), lambda: "%s is %r" % (what, x))
            ctx.expect(labels.setdefault(want, x.subject) is x.subject, "%s is another blank node" % what)
    if len({repr(x) for x in items}) < len(items):
        ctx.ev("repeated members")
    # iterating changes nothing and can be repeated
    ctx.same(len(list(lst)), len(items), "number of members on a second iteration")


def shape(items):
    return [shape(x) if isinstance(x, list) else x[0] + ("@" if x[0] == "L" and x[2] else "^" if x[0] == "L" and x[3] else "") for x in items]


def is_lists(ctx, graph):
    nodes = {t for s in graph for t in s[:3] if isinstance(t, (NamedNode, BlankNode))} | {NamedNode("http://nowhere.example/"), NamedNode(RDFNS + "nil")}
    cells = {s.subject for s in graph if s.predicate == RDFNS + "rest"}
    before = len(graph)
    for n in nodes:
        ctx.ev("is_list")
        ctx.same(bool(ctx.call("is_list", List.is_list, n, graph)), n in cells, "is_list of %r" % (n,))
    ctx.same(len(graph), before, "graph size after is_list")


def ttl_item(rng, x):
    if isinstance(x, list):
        return "(" + " ".join(ttl_item(rng, y) for y in x) + ")"
    if x[0] == "I":
        return "<%s>" % x[1]
    if x[0] == "B":
        return "_:" + x[1]
    q = '"' + spell_text(rng, x[1]) + '"'
    return q + ("@" + x[2] if x[2] else "^^<%s>" % x[3] if x[3] else "")


def jld_item(x):
    if isinstance(x, list):
        return {"@list": [jld_item(y) for y in x]}
    if x[0] == "I":
        return {"@id": x[1]}
    if x[0] == "B":
        return {"@id": "_:" + x[1]}
    d = {"@value": x[1]}
    if x[2]:
        d["@language"] = x[2]
    elif x[3]:
        d["@type"] = x[3]
    return d


def case(ctx, i):
    rng = ctx.rng
    src = ("triples", "turtle", "triples", "jsonld")[i % 4]
    cls = rng.choice([List, List, Numbered])
    S, P = NamedNode("http://holder.example/s"), NamedNode("http://holder.example/p")
    if src == "jsonld":
        from rv import jldgen

        def clean(x):
            if isinstance(x, list):
                return [clean(y) for y in x]
            return jldgen.literal(rng) if x[0] == "L" else x
        items = clean(spec(rng, jldgen.iri))
        doc = {"@id": str(S), str(P): {"@list": [jld_item(x) for x in items]}}
        ctx.log("document", doc)
        ds = ctx.call("parse_json", jsonld_parser.parse_json, json.loads(json.dumps(doc)))
        graph = Graph()
        for q in ds:
            graph.add(Triple(q.subject, q.predicate, q.object))
        rd = Reader()
    elif src == "turtle":
        items = spec(rng)
        text = "<%s> <%s> %s ." % (S, P, ttl_item(rng, items))
        ctx.log("document", text)
        graph = ctx.call("turtle", turtle_parser.parse, text)
        rd = Reader()
    else:
        items = spec(rng, n=rng.choice([40, 120]) if i % 100 == 0 else None)
        b = Build(rng)
        head = b.add(items)
        m = Maker()
        graph = Graph()
        st = b.out | {(I(str(S)), I(str(P)), head)} | {(t, TYPE, I(res.EX + "Person")) for t in [I(res.EX + "n0")] if rng.random() < 0.5}
        for s in gen.shuffled(rng, st | gen.graph(rng, n=rng.choice([0, 5]), nb=0, iri_fn=lambda r: "http://noise.example/%d" % r.randrange(5))):
            graph.add(m.triple(s))
        rd = Reader(m)
    ctx.ev("from " + src)
    heads = [t.object for t in graph.match(S, P, None)]
    ctx.same(len(heads), 1, "number of list heads")
    labels = {}
    size = len(graph)
    judge(ctx, graph, heads[0], items, rd, labels, cls)
    ctx.expect(len(set(map(id, labels.values()))) == len(labels), "different blank nodes were merged")
    ctx.same(len(graph), size, "graph size after iterating")
    # the list as the value of a property
    v = list(Resource(graph, S)[str(P)])
    ctx.same(len(v), 1, "values of the property")
    ctx.same([type(x) for x in v[0].as_(cls)], [type(x) for x in cls(graph, heads[0])], "iterating through the property")
    if src == "triples" and rng.random() < 0.5:
        # classified members, and tails as lists of their own
        for k, x in enumerate(cls(graph, heads[0])):
            if isinstance(x, Resource) and x.subject == res.EX + "n0":
                ctx.same(isinstance(x, res.Person), Triple(x.subject, NamedNode(RDFNS + "type"), NamedNode(res.EX + "Person")) in graph, "classification of a member")
        cur, k = heads[0], 0
        while cur != RDFNS + "nil":
            if rng.random() < 0.4:
                judge(ctx, graph, cur, items[k:], rd, labels, cls, "tail %d" % k)
            cur = [t.object for t in graph.match(cur, NamedNode(RDFNS + "rest"), None)][0]
            k += 1
    if len(graph) < 80:
        is_lists(ctx, graph)
    ctx.sig(src, cls is List, shape(items))
    ctx.sample(items)


def long_lists(ctx, key):
    n = int(key)
    m = Maker()
    g = Graph()
    b = Build(ctx.rng)
    items = [L(str(k)) if k % 3 else I("http://e/%d" % k) for k in range(n)]
    head = b.add(items)
    for s in b.out:
        g.add(m.triple(s))
    judge(ctx, g, m.term(head), items, Reader(m), {}, List)
    ctx.sig("long", n)


long_lists.keys = lambda tier: ["500", "3000"] + (["50000"] if tier == "thorough" else [])


def nil(ctx):
    g = Graph()
    N = NamedNode(RDFNS + "nil")
    ctx.same(list(List(g, N)), [], "the empty list")
    ctx.expect(not List.is_list(N, g), "rdf:nil is no list cell")
    # nil as a member is the empty list
    b = BlankNode()
    g.add(Triple(b, NamedNode(RDFNS + "first"), N))
    g.add(Triple(b, NamedNode(RDFNS + "rest"), N))
    r = list(List(g, b))
    ctx.same(len(r), 1, "a list holding the empty list")
    ctx.same(list(r[0].as_(List)), [], "its member")
    ctx.ev("empty lists")
    ctx.sig("nil")


SWEEPS = [long_lists]
FIXED = [nil]
