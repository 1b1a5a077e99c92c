"""C20: classification, over histories of registrations, type changes and classifications."""
from pymantic.primitives import BlankNode, Graph, Literal, NamedNode, Triple
from pymantic.rdf import MetaResource, Resource, register_class

from rv.model import RDFNS

RULE = "distinct (hierarchy among the registered classes, classes of the node, position in the history) combinations classified"
ASSUMES = ["base classes listed so that Python can linearise the combination (no contradictory base orders)", "one thread"]
COUNT = {"quick": 24000, "thorough": 100000}
MIN_EVENTS = {"oracle:evaluations": 100000, "classifications": 15000, "combined": 3000, "related classes": 2000, "registrations": 6000, "re-registrations": 400, "plain": 2000, "by property access": 2000}
TYPE = NamedNode(RDFNS + "type")
NS = "http://types.example/"

NAMES = ["K%d", "K%d", "_K%d", "__K%d__", "K%.0s", "Type%d", "\u00c9%d", "Resource%.0s", "k%d", "List%.0s"]


def combinable(classes):
    """Whether Python can derive one class from these: their resolution orders agree (C3)."""
    tops = [c for c in classes if not any(issubclass(d, c) for d in classes if d is not c)]
    rows = [list(c.__mro__) for c in tops] + [tops]
    while True:
        rows = [r for r in rows if r]
        if not rows:
            return True
        head = next((r[0] for r in rows if not any(r[0] in q[1:] for q in rows)), None)
        if head is None:
            return False
        rows = [[c for c in r if c is not head] for r in rows]


class World:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.classes = []
        self.reg = {}  # type IRI -> class, in force
        self.ever = set()  # classes ever registered
        self.graphs = [Graph(), Graph()]
        self.types = [{}, {}]  # node -> set of type IRIs
        self.nodes = [NamedNode("http://nodes.example/%d" % k) for k in range(3)] + [BlankNode() for _ in range(2)]
        # unique per case, so that cases do not meet in the registry
        self.iris = [NS + ctx.label.replace(":", "/") + "/%d" % k for k in range(6)]
        self.unreg = [NS + "never/%d" % k for k in range(3)]

    def new_class(self):
        rng = self.rng
        k = len(self.classes)
        n = rng.choice([0, 0, 1, 1, 2])
        idx = sorted(rng.sample(range(k), min(n, k)), reverse=True)
        # newest first: a consistent global order, so any combination linearises
        bases = [self.classes[j] for j in idx]
        bases = [b for b in bases if not any(issubclass(c, b) for c in bases if c is not b)]
        if not combinable(bases):
            bases = bases[:1]
        dct = {"__module__": rng.choice(["m1", "m2", "pkg.m3", "__main__"])}
        if rng.random() < 0.3:
            dct["prefixes"] = {"k%d" % k: NS + "%d#" % k}
        c = type(Resource)(rng.choice(NAMES) % k, tuple(bases) or (Resource,), dct)
        self.classes.append(c)
        return c

    def register(self):
        rng = self.rng
        if not self.classes or (rng.random() < 0.7 and len(self.classes) < 6):
            c = self.new_class()
        else:
            c = rng.choice(self.classes)
        t = rng.choice(self.iris)
        self.ctx.ev("registrations")
        if t in self.reg and self.reg[t] is not c:
            self.ctx.ev("re-registrations")
        r = self.ctx.call("register_class", register_class(t), c)
        self.ctx.expect(r is c, "register_class did not return the class")
        self.reg[t] = c
        self.ever.add(c)

    def retype(self):
        rng = self.rng
        g = rng.randrange(2)
        n = rng.choice(self.nodes)
        have = self.types[g].setdefault(n, set())
        t = rng.choice(self.iris + self.unreg)
        if t in have and rng.random() < 0.6:
            self.graphs[g].remove(Triple(n, TYPE, NamedNode(t)))
            have.discard(t)
        else:
            self.graphs[g].add(Triple(n, TYPE, NamedNode(t)))
            have.add(t)

    def possible(self, gi, n):
        ok = combinable({self.reg[t] for t in self.types[gi].get(n, ()) if t in self.reg})
        if not ok:
            self.ctx.ev("skipped: no Python class can combine them")
        return ok

    def classify(self):
        ctx, rng = self.ctx, self.rng
        gi = rng.randrange(2)
        g = self.graphs[gi]
        n = rng.choice(self.nodes)
        if not self.possible(gi, n):
            return
        how = rng.random()
        if how < 0.5:
            r = ctx.call("classify", Resource.classify, g, n)
        elif how < 0.65 and self.classes:
            r = ctx.call("classify", rng.choice(self.classes).classify, g, n)
        else:
            # as the value of a property, of either direction
            ctx.ev("by property access")
            p = NamedNode("http://props.example/p")
            holder = NamedNode("http://nodes.example/holder")
            cls = rng.choice(self.classes) if self.classes and rng.random() < 0.5 else Resource
            if rng.random() < 0.5:
                g.add(Triple(holder, p, n))
                vals = list(ctx.call("getitem", lambda: cls(g, holder)[str(p)]))
                g.remove(Triple(holder, p, n))
            else:
                g.add(Triple(n, p, holder))
                vals = list(ctx.call("object_of", cls(g, holder).object_of, str(p)))
                g.remove(Triple(n, p, holder))
            ctx.same(len(vals), 1, "number of values")
            r = vals[0]
        self.judge(r, gi, n)

    def judge(self, r, gi, n):
        ctx = self.ctx
        types = self.types[gi].get(n, set())
        want = {self.reg[t] for t in types if t in self.reg}
        ctx.ev("classifications")
        ctx.expect(isinstance(r, Resource), lambda: "classified as %r" % (r,))
        ctx.expect(r.graph is self.graphs[gi], "the result wraps another graph")
        ctx.expect(r.subject is n if isinstance(n, BlankNode) else r.subject == n and isinstance(r.subject, NamedNode), lambda: "the result wraps %r, not %r" % (r.subject, n))
        desc = lambda: "types %r, registry %r, result %r" % (sorted(types), {t: (c.__name__, [b.__name__ for b in c.__mro__[1:-2]]) for t, c in self.reg.items()}, [b.__name__ for b in type(r).__mro__])
        for c in want:
            ctx.expect(isinstance(r, c), lambda: "not an instance of %s although its type is present: %s" % (c.__name__, desc()))
        allowed = {a for c in want for a in c.__mro__}
        for c in self.ever:
            if c not in allowed:
                ctx.expect(not isinstance(r, c), lambda: "an instance of %s, which is not registered for any of its types: %s" % (c.__name__, desc()))
        if not want:
            ctx.ev("plain")
            ctx.expect(type(r) is Resource, lambda: "no registered type, yet classified as %r" % (type(r),))
        tops = [c for c in want if not any(issubclass(d, c) for d in want if d is not c)]
        if len(tops) > 1:
            ctx.ev("combined")
        if len(tops) < len(want):
            ctx.ev("related classes")
        ctx.sig(sorted((sorted(self.classes.index(b) for b in c.__mro__ if b in self.classes)) for c in want), len(types) - len([t for t in types if t in self.reg]), len(self.reg))
        # usable as a resource
        ctx.same({p for p, o in Resource.__iter__(r)}, {TYPE} if types else set(), "its properties")


def snapshot():
    try:
        return dict(MetaResource._classes)
    except AttributeError:
        return None


def restore(s):
    if s is not None:
        MetaResource._classes.clear()
        MetaResource._classes.update(s)


def case(ctx, i):
    rng = ctx.rng
    snap = snapshot()
    try:
        w = World(ctx)
        for _ in range(rng.choice([1, 3, 5])):
            w.register()
        for _ in range(rng.choice([4, 8, 14])):
            w.retype()
        for _ in range(rng.choice([8, 15, 25])):
            r = rng.random()
            if r < 0.15:
                w.register()
            elif r < 0.4:
                w.retype()
            else:
                w.classify()
        # at the end, everything
        for gi in (0, 1):
            for n in w.nodes:
                if not w.possible(gi, n):
                    continue
                w.judge(ctx.call("classify", Resource.classify, w.graphs[gi], n), gi, n)
        for x in (None, Literal("x"), Literal("x", "en"), Literal(5)):
            ctx.expect(Resource.classify(w.graphs[0], x) is x, lambda: "%r was not left alone" % (x,))
        ctx.sample([c.__name__ for c in w.classes])
    finally:
        restore(snap)


def chains(ctx):
    """Deep and diamond hierarchies, every subset of types."""
    import itertools
    snap = snapshot()
    try:
        A = type(Resource)("A", (Resource,), {})
        Bc = type(Resource)("B", (A,), {})
        C = type(Resource)("C", (A,), {})
        D = type(Resource)("D", (C, Bc), {})
        E = type(Resource)("E", (Resource,), {})
        F = type(Resource)("F", (D, E), {})
        cs = [A, Bc, C, D, E, F]
        iris = [NS + "chain/%d" % k for k in range(6)]
        for c, t in zip(cs, iris):
            register_class(t)(c)
        for order in (1, -1):
            for r in range(0, 7):
                for sub in list(itertools.combinations(range(6), r))[::order]:
                    g = Graph()
                    n = NamedNode("http://nodes.example/x")
                    for k in sub:
                        g.add(Triple(n, TYPE, NamedNode(iris[k])))
                    x = ctx.call("classify", Resource.classify, g, n)
                    allowed = {a for k in sub for a in cs[k].__mro__}
                    for c in cs:
                        ctx.same(isinstance(x, c), c in allowed, "instance of %s for %s" % (c.__name__, [cs[k].__name__ for k in sub]))
                    ctx.sig("chain", sub)
    finally:
        restore(snap)


FIXED = [chains]
