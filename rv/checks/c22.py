"""C22: creating, copying, erasing, finding and comparing resources."""
from collections import Counter

from pymantic.primitives import BlankNode, Graph, Literal, NamedNode, Triple
from pymantic.rdf import List, Resource

from rv import res
from rv.model import RDFNS, B, I, L
from rv.pm import Maker, Reader

RULE = "distinct (operation, class, kind of node, relation to what the graph held) combinations, whole graph compared each time"
ASSUMES = ["listing instances is judged for classes that have RDF types", "one RDF type per registered class"]
COUNT = {"quick": 24000, "thorough": 100000}
MIN_EVENTS = {"oracle:evaluations": 60000, "new": 2500, "new blank": 800, "erase": 2000, "copy": 2000, "in_graph": 2000, "is_a": 8000, "object_of": 3000, "eq": 8000, "combined": 500, "view": 1000}
TYPE = I(RDFNS + "type")


class Sub(res.Student):
    """Unregistered: has its parent's types."""


TYPES = {res.Thing: set(), res.Person: {res.EX + "Person"}, res.Student: {res.EX + "Student"}, res.Place: {res.EX + "Place"}, Sub: {res.EX + "Student"}, Resource: set(), res.British: {res.EX + "Person"}}


def combined(ctx, cs):
    """The class of nodes typed all those ways."""
    g = Graph()
    n = NamedNode("http://e/n")
    for t in types_of(cs):
        g.add(Triple(n, NamedNode(RDFNS + "type"), NamedNode(t)))
    return type(Resource.classify(g, n))


def types_of(cs):
    return set().union(*(TYPES[c] for c in cs))


COMBINATIONS = [(res.Person, res.Place), (res.Student, res.Place), (res.Person, res.Student, res.Place)]
NODES = res.NODES


class World:
    def __init__(self, ctx):
        rng = ctx.rng
        self.ctx, self.rng = ctx, rng
        self.m = Maker()
        self.g = Graph()
        self.model = set()
        self.nodes = list(NODES) + [I("http://fresh.example/%d" % k) for k in range(2)] + [B("f0")]
        self.preds = [I(p) for p in res.PREDS[3:]] + [TYPE]
        for _ in range(rng.choice([0, 3, 8, 16])):
            self.put(self.stmt())
        if rng.random() < 0.004:
            ctx.ev("large graphs")
            hub = self.node()
            for k in range(rng.choice([140, 400, 1100])):
                s, p, o = self.stmt()
                if rng.random() < 0.4:
                    self.put((hub, p, L("v%d" % k) if p != TYPE else I(res.EX + "T%d" % k)))
                elif rng.random() < 0.5:
                    self.put((I(res.EX + "m%d" % k), p, hub if p != TYPE else o))
                else:
                    self.put((I(res.EX + "m%d" % k), p, o))
        self.classes = dict(TYPES)
        if rng.random() < 0.5:
            for cs in rng.sample(COMBINATIONS, 3):
                self.classes[combined(ctx, cs)] = types_of(cs)

    def stmt(self):
        rng = self.rng
        s = rng.choice(self.nodes)
        p = rng.choice(self.preds)
        if p == TYPE:
            return (s, p, I(rng.choice([res.EX + "Person", res.EX + "Student", res.EX + "Place", res.EX + "Unknown"])))
        if rng.random() < 0.1:  # A class, but not as a type.
            return (s, p, I(res.EX + rng.choice(["Person", "Student", "Place"])))
        return (s, p, res.literal(rng) if rng.random() < 0.4 else rng.choice(self.nodes))

    def put(self, t):
        self.g.add(self.m.triple(t))
        self.model.add(t)

    def node(self):
        return self.rng.choice(self.nodes)

    def see(self, what):
        ctx = self.ctx
        ctx.same(Reader(self.m).stmts(self.g, ctx, "the graph"), self.model, "the graph after " + what)
        ctx.same(len(self.g), len(self.model), "its size after " + what)

    def cls(self):
        return self.rng.choice(sorted(self.classes, key=lambda c: (c.__name__, len(self.classes[c]))))

    def step(self):
        rng, ctx = self.rng, self.ctx
        op = rng.choice([self.new, self.new, self.erase, self.copy, self.listing, self.is_a, self.back, self.eq, self.pairs, self.view])
        op()
        for _ in range(rng.choice([0, 0, 1, 2])):
            self.put(self.stmt())

    def new(self):
        ctx, rng = self.ctx, self.rng
        c = self.cls()
        ctx.ev("new")
        if len(self.classes[c]) > 1:
            ctx.ev("combined")
        r = rng.random()
        if r < 0.35:
            ctx.ev("new blank")
            x = ctx.call("new", c.new, self.g)
            ctx.expect(isinstance(x.subject, BlankNode), lambda: "a new resource without a node has subject %r" % (x.subject,))
            known = {id(v) for v in self.m.b.values()}
            ctx.expect(id(x.subject) not in known, "the new blank node is not fresh")
            n = B(("new", len(self.m.b)))
            self.m.b[n] = x.subject
            self.nodes.append(n)
        else:
            n = self.node()
            arg = self.m.term(n)
            if n[0] == "I" and rng.random() < 0.4:
                arg = n[1]  # plain text
            x = ctx.call("new", c.new, self.g, arg) if rng.random() < 0.5 else ctx.call("new", c.new, self.g, subject=arg)
            ctx.same(Reader(self.m).term(x.subject), n, "subject of the new resource")
        ctx.expect(isinstance(x, c) and x.graph is self.g, "new gave %r" % (x,))
        self.model |= {(n, TYPE, I(t)) for t in self.classes[c]}
        self.see("%s.new for %r" % (c.__name__, n))
        ctx.expect(x.is_a(), "a new resource is not an instance of its class")
        ctx.sig("new", sorted(self.classes[c]), n[0], r < 0.35)

    def erase(self):
        ctx = self.ctx
        n, c = self.node(), self.cls()
        ctx.ev("erase")
        k = sum(1 for t in self.model if t[0] == n)
        ctx.call("erase", c(self.g, self.m.term(n)).erase)
        self.model = {t for t in self.model if t[0] != n}
        self.see("erasing %r" % (n,))
        ctx.sig("erase", n[0], min(k, 4), any(t[2] == n for t in self.model))

    def copy(self):
        ctx, rng = self.ctx, self.rng
        n, c, d = self.node(), self.cls(), self.node()
        ctx.ev("copy")
        arg = d[1] if d[0] == "I" and rng.random() < 0.3 else self.m.term(d)
        r = ctx.call("copy", c(self.g, self.m.term(n)).copy, arg)
        src = {t for t in self.model if t[0] == n}
        self.model |= {(d, p, o) for _, p, o in src}
        self.see("copying %r to %r" % (n, d))
        ctx.expect(isinstance(r, Resource) and r.graph is self.g, lambda: "copy gave %r" % (r,))
        ctx.same(Reader(self.m).term(r.subject), d, "subject of the copy")
        ctx.sig("copy", n[0], d[0], n == d, min(4, len(src)), any(t[2] == n for t in src))

    def view(self):
        """The same node as an instance of another class, related to the first or not."""
        ctx = self.ctx
        n, c = self.node(), self.cls()
        x = start = c(self.g, self.m.term(n))
        ctx.ev("view")
        for _ in range(self.rng.choice([1, 2, 3])):
            c = self.rng.choice([Resource, List, self.cls(), self.cls(), type(x)])
            y = ctx.call("as_", x.as_, c)
            ctx.expect(type(y) is c, lambda: "%r as %s is a %s" % (x, c.__name__, type(y).__name__))
            ctx.expect(y.graph is self.g, "a view of another graph")
            ctx.same(Reader(self.m).term(y.subject), n, "subject of a view")
            ctx.expect(y == start and hash(y) == hash(start), "a view is another resource")
            if c in self.classes:
                ctx.same(bool(y.is_a()), n in self.having(self.classes[c]) if self.classes[c] else bool(y.is_a()), "is_a of a view")
            x = y
        self.see("viewing %r" % (n,))
        ctx.sig("view", n[0], type(x).__name__)

    def having(self, types):
        return {n for n in {t[0] for t in self.model} if all((n, TYPE, I(t)) in self.model for t in types)}

    def listing(self):
        ctx = self.ctx
        c = self.cls()
        if not self.classes[c]:
            return
        ctx.ev("in_graph")
        r = list(ctx.call("in_graph", c.in_graph, self.g))
        got = Counter(Reader(self.m).term(x.subject) for x in r)
        ctx.same(got, Counter(dict.fromkeys(self.having(self.classes[c]), 1)), "instances of %s (types %r)" % (c.__name__, sorted(self.classes[c])))
        for x in r:
            ctx.expect(isinstance(x, c) and x.graph is self.g and x.is_a(), "an instance listed as %r" % (x,))
        self.see("listing instances")
        ctx.sig("in_graph", sorted(self.classes[c]), min(5, len(r)))

    def is_a(self):
        ctx = self.ctx
        for n in self.nodes:
            c = self.cls()
            ctx.ev("is_a")
            ctx.same(bool(ctx.call("is_a", c(self.g, self.m.term(n)).is_a)), all((n, TYPE, I(t)) in self.model for t in self.classes[c]), "is_a of %r as %s" % (n, c.__name__))
        self.see("is_a")

    def back(self):
        ctx, rng = self.ctx, self.rng
        n = self.node()
        c = self.cls()
        x = c(self.g, self.m.term(n))
        ctx.ev("object_of")
        rd = Reader(self.m)
        got = Counter()
        for s, p in ctx.call("object_of", x.object_of):
            ctx.expect(isinstance(s, Resource), "object_of gave %r" % (s,))
            got[(rd.term(s.subject), rd.term(p))] += 1
        ctx.same(got, Counter((t[0], t[1]) for t in self.model if t[2] == n), "references to %r" % (n,))
        for p in self.preds:
            key = p[1]
            if p[1].startswith(res.EX) and c is not Resource and rng.random() < 0.5:
                key = "ex:" + p[1][len(res.EX):]
            elif p == TYPE:
                key = "rdf:type"
            got = Counter(rd.term(s.subject) for s in ctx.call("object_of", x.object_of, key))
            ctx.same(got, Counter(t[0] for t in self.model if t[2] == n and t[1] == p), "references to %r by %r" % (n, p))
        self.see("object_of")
        ctx.sig("object_of", n[0], min(5, sum(1 for t in self.model if t[2] == n)))

    def eq(self):
        ctx = self.ctx
        other = Graph()
        for a in self.nodes:
            b = self.node()
            x = self.cls()(self.g, self.m.term(a))
            y = self.cls()(self.rng.choice([self.g, other]), self.m.term(b))
            ctx.ev("eq")
            ctx.same((x == y, x != y, y == x), (a == b, a != b, a == b), "comparison of resources for %r and %r" % (a, b))
            if a == b:
                ctx.same(hash(x), hash(y), "hashes of equal resources")
            ctx.same(len({x, y}), 1 if a == b else 2, "a set of resources for %r and %r" % (a, b))
            for z in (None, 5, Literal("x"), object()):
                ctx.expect(x != z and not (x == z), lambda: "a resource equals %r" % (z,))
            # another node that looks the same in print
            for text in {str(x.subject), x.subject.toNT(), x.subject.value, x.subject.upper() if a[0] == "I" else "_:b"}:
                z = self.cls()(self.g, NamedNode(text))
                same = a == I(text)
                ctx.same((x == z, z == x, x != z, len({x, z})), (same, same, not same, 2 - same), "comparison of resources for %r and <%s>" % (a, text))
            # a resource stands for its IRI, as a node or as text
            near = ["".join(x.subject) + "/", "".join(x.subject) + "#", "".join(x.subject)[:-1], "".join(x.subject).replace("http:", "HTTP:", 1)] if a[0] == "I" else []
            for iri in (NamedNode("http://c22.example/other"), *near, *map(NamedNode, near)) + ((NamedNode("".join(x.subject)), "".join(x.subject)) if a[0] == "I" else ()):
                same = a == I("".join(iri))
                ctx.ev("compared with an IRI")
                ctx.same((x == iri, iri == x, x != iri, iri != x), (same, same, not same, not same), "comparison of the resource for %r and %r" % (a, iri))
                ctx.same((len({x, iri}), {x: 1}.get(iri)), (1, 1) if same else (2, None), "a set, and a map, of the resource for %r and %r" % (a, iri))
        ctx.sig("eq")

    def pairs(self):
        ctx = self.ctx
        n = self.node()
        rd = Reader(self.m)
        got = Counter((rd.term(p), rd.term(o)) for p, o in ctx.call("iter", iter, Resource(self.g, self.m.term(n))))
        ctx.same(got, Counter((t[1], t[2]) for t in self.model if t[0] == n), "properties of %r" % (n,))
        x = self.cls()(self.g, self.m.term(n))
        c = self.cls()
        y = ctx.call("as_", x.as_, c)
        ctx.expect(isinstance(y, c) and y == x and y.graph is self.g, "as_ gave %r" % (y,))


def case(ctx, i):
    w = World(ctx)
    for _ in range(ctx.rng.choice([3, 6, 12])):
        w.step()
    ctx.sample(sorted(map(repr, w.model))[:5])
