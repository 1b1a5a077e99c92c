"""Histories over Graph / Dataset objects: universes, observers, model sets."""
from pymantic.primitives import Graph, NamedNode, Prefix, Quad, Triple

from . import gen
from .model import XSD, B, I, L
from .pm import Maker, Reader

TRICKY_LITS = [L("a"), L("a", "en"), L("a", "fr"), L("a", None, XSD + "string"), L(""), L("", "en"), L("http://example.org/a"),
               L("1", None, XSD + "integer"), L("1", None, XSD + "decimal"), L("01", None, XSD + "integer"), L("A"), L("a", "en-us"), L("a", "en-US"), L("a", "EN"), L("1"), L("1", None, "http://example.org/a"),
               L("None"), L("\u00e9"), L("e\u0301"), L("0"), L("False")]
TRICKY_IRIS = ["", "http://example.org/a", "http://example.org/b", "http://example.org/A", "http://example.org/a/", "http://example.org/a#", "urn:x", "a", "None", "0", "*", "http://example.org/%41",
               "http://example.org/\u00e9", "http://example.org/e\u0301"]


class Universe:
    """A pool of reference terms, and the pymantic objects standing for them."""

    def __init__(self, rng, small=True, graphs=0):
        self.rng = rng
        nb = rng.randrange(0, 4)
        k = rng.randrange(2, 6) if small else rng.randrange(8, 40)
        iris = [I(x) for x in rng.sample(TRICKY_IRIS, min(k, len(TRICKY_IRIS)))]
        if not small or rng.random() < 0.3:
            iris += [I("http://example.org/n%d" % i) for i in range(k)]
        bn = [B("b%d" % i) for i in range(nb)]
        self.subs = iris + bn
        self.preds = rng.sample(iris, rng.randrange(1, min(len(iris), 4) + 1)) + ([I("http://example.org/p")] if rng.random() < 0.5 else [])
        lits = rng.sample(TRICKY_LITS, rng.randrange(1, len(TRICKY_LITS)))
        lits += [gen.literal(rng) for _ in range(rng.randrange(0, 4))]
        if not small:
            lits += [L("v%d" % i) for i in range(k)]
        self.objs = list(dict.fromkeys(self.subs + lits))
        self.absent = [I("http://absent.example/"), B("absent"), L("absent"), L("absent", "en")]
        self.names = [None] * 0
        if graphs:
            self.names = [None] + rng.sample([I("http://g.example/1"), I("http://g.example/2"), I("http://example.org/a"), B("b0"), B("g"), I("g"), I("None"), I("")][:6 + rng.randrange(3)], graphs)
        self.maker = Maker()
        self.reader = Reader(self.maker)

    def term(self, t):
        """A pymantic object for t; mostly a fresh, equal one."""
        n = self.maker.term(t)
        if t is not None and t[0] == "B":
            self.reader.ids.setdefault(id(n), t)
        elif t is not None and t[0] == "I" and self.rng.random() < 0.1:
            n = Prefix(t[1])
        return n

    def rand_triple(self):
        r = self.rng
        return (r.choice(self.subs), r.choice(self.preds), r.choice(self.objs))

    def absent_triple(self):
        r = self.rng
        t = list(self.rand_triple())
        i = r.choice([0, 1, 2, 2])
        t[i] = self.absent[0] if i == 1 else r.choice(self.absent[:2]) if i == 0 else r.choice(self.absent)
        return tuple(t)

    def triple(self, t):
        return Triple(*[self.term(x) for x in t])

    def quad(self, q):
        return Quad(*[self.term(x) for x in q])

    def probes(self, model, n=12):
        """Triples to test for membership: present and absent ones."""
        r = self.rng
        out = [self.rand_triple() for _ in range(n)] + [self.absent_triple() for _ in range(3)]
        if model:
            ms = sorted(model, key=repr) if len(model) < 60 else list(model)
            for _ in range(n // 2):
                t = r.choice(ms)
                out.append(t)
                i = r.randrange(3)
                out.append(tuple(r.choice(self.preds if j == 1 else self.subs if j == 0 else self.objs) if j == i else t[j] for j in range(3)))
        return out


def new_graph(rng):
    r = rng.random()
    if r < 0.6:
        return Graph()
    if r < 0.8:
        return Graph("http://g.example/x")
    return Graph(NamedNode("http://g.example/y"))


def see_set(ctx, g, model, u, what="graph"):
    """Every set-like view of g equals the model."""
    ctx.same(len(g), len(model), "len(%s)" % what)
    ctx.same(u.reader.stmts(iter(g), ctx, "iterating the %s" % what), model, "iterating the %s" % what)
    arr = g.toArray()
    ctx.same(u.reader.stmts(arr, ctx, "toArray()"), model, "toArray() of the %s" % what)
    for t in u.probes(model):
        ctx.same(u.triple(t) in g, t in model, "membership of %r in the %s" % (t, what))
    ctx.ev("observations:set")
    return arr


def ref_match(model, pat):
    return {t for t in model if all(p is None or p == x for p, x in zip(pat, t))}


def do_match(ctx, g, u, pat):
    args = [u.term(p) for p in pat]
    r = u.rng.random()
    names = ("subject", "predicate", "object", "graph")[: len(pat)]
    if r < 0.5:
        return ctx.call("match", g.match, *args)
    if r < 0.75:
        return ctx.call("match", g.match, **{n: a for n, a in zip(names, args) if a is not None})
    return ctx.call("match", g.match, **dict(zip(names, args)))


def see_match(ctx, g, model, u, pat, what="graph"):
    got = u.reader.stmts(do_match(ctx, g, u, pat), ctx, "match%r" % (pat,))
    ctx.same(got, ref_match(model, pat), "match%r on the %s" % (pat, what))
    ctx.ev("pattern:" + "".join("x" if p is not None else "-" for p in pat))


def patterns(u, model, n):
    """Patterns of all shapes, from present triples, near misses and absent terms."""
    r = u.rng
    ms = list(model) if len(model) > 200 else sorted(model, key=repr)
    for _ in range(n):
        t = r.choice(ms) if ms and r.random() < 0.7 else u.absent_triple() if r.random() < 0.3 else u.rand_triple()
        m = r.randrange(8)
        yield tuple(t[i] if m >> i & 1 else None for i in range(3))


def all_shapes(t):
    for m in range(8):
        yield tuple(t[i] if m >> i & 1 else None for i in range(3))


def see_listings(ctx, g, model, u, what="graph"):
    for name, i in (("subjects", 0), ("predicates", 1), ("objects", 2)):
        got = [u.reader.term(x) for x in getattr(g, name)()]
        ctx.expect(len(got) == len(set(got)), lambda: "%s() lists a term twice: %r" % (name, got))
        ctx.same(set(got), {t[i] for t in model}, "%s() of the %s" % (name, what))
    ctx.ev("observations:listings")


def see_all(ctx, g, model, u, what, npat=10):
    see_set(ctx, g, model, u, what)
    see_listings(ctx, g, model, u, what)
    for p in patterns(u, model, npat):
        see_match(ctx, g, model, u, p, what)
    if model:
        for p in all_shapes(u.rng.choice(sorted(model, key=repr))):
            see_match(ctx, g, model, u, p, what)


def mutate(ctx, g, model, u, p_remove=0.4):
    """One random add/remove step on graph and model; returns the kind."""
    r = u.rng
    x = r.random()
    if x < p_remove and model:
        if r.random() < 0.8:
            t = r.choice(sorted(model, key=repr)) if len(model) < 50 else next(iter(model))
            res = ctx.call("remove", g.remove, u.triple(t))
            model.discard(t)
            ctx.expect(res is g, "remove() does not return the graph")
            return "remove"
        t = u.absent_triple() if r.random() < 0.5 else u.rand_triple()
        if t in model:
            ctx.call("remove", g.remove, u.triple(t))
            model.discard(t)
            return "remove"
        ctx.raises("remove", KeyError, g.remove, u.triple(t))
        return "remove-absent"
    t = u.rand_triple() if r.random() < 0.85 or not model else r.choice(sorted(model, key=repr)) if len(model) < 50 else next(iter(model))
    kind = "add-again" if t in model else "add"
    res = ctx.call("add", g.add, u.triple(t))
    model.add(t)
    ctx.expect(res is g, "add() does not return the graph")
    return kind
