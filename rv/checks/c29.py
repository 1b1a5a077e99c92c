"""C29: what resource classes inherit, override and keep to themselves."""
from pymantic.primitives import Graph, Literal, NamedNode, PrefixMap, Triple
from pymantic.rdf import Resource, register_class

from rv.checks.c20 import combinable, restore, snapshot
from rv.model import RDFNS

RULE = "distinct (shape of hierarchy, overlap of prefixes, overlap of scalars) combinations whose classes were compared with the model"
ASSUMES = ["where two bases bind one prefix differently, either binding is accepted", "scalars are written with prefixes in force in their class"]
COUNT = {"quick": 10000, "thorough": 60000}
MIN_EVENTS = {"oracle:evaluations": 100000, "classes": 8000, "resolutions": 30000, "scalar probes": 10000, "overridden prefixes": 1000, "later changes": 2000, "global profile": 1500}
RDFS = "http://www.w3.org/2000/01/rdf-schema#"
PNAMES = ["ex", "a", "b", "foaf", "rdfs", "q1", ""]
NSS = ["http://one.example/", "http://two.example/ns#", "http://one.example/sub/", "urn:three:", RDFS]
LOCALS = ["x", "y", "label", "name"]


class Model:
    def __init__(self, prefixes, options, scalars):
        self.prefixes, self.options, self.scalars = prefixes, options, scalars


ROOT_P = {"rdf": RDFNS, "rdfs": RDFS}


def inherit(bases):
    """Prefix -> set of acceptable namespaces; union of scalars."""
    opts, sc = {}, set()
    for b in bases:
        for k, v in b.options.items():
            opts.setdefault(k, set()).update(v)
        sc |= b.scalars
    return opts, sc


def case(ctx, i):
    rng = ctx.rng
    snap = snapshot()
    saved = dict(Resource.global_profile.prefixes), dict(Resource.global_profile.terms)
    try:
        history(ctx, rng)
    finally:
        restore(snap)
        Resource.global_profile.prefixes.clear()
        Resource.global_profile.prefixes.update(saved[0])
        Resource.global_profile.terms.clear()
        Resource.global_profile.terms.update(saved[1])


def make(ctx, rng, made, k):
    """One more class."""
    n = rng.choice([0, 1, 1, 2, 3])
    idx = sorted(rng.sample(range(len(made)), min(n, len(made))), reverse=True)
    pick = [made[j] for j in idx]
    pick = [p for p in pick if not any(issubclass(q[0], p[0]) for q in pick if q is not p)]
    bases = tuple(p[0] for p in pick) or (Resource,)
    opts, sc = inherit([p[1] for p in pick] or [ROOT])
    dct, own = {}, {}
    if rng.random() < 0.75:
        own = {rng.choice(PNAMES): rng.choice(NSS) for _ in range(rng.choice([1, 1, 2, 3]))}
        dct["prefixes"] = rng.choice([dict, PrefixMap])(own)
    for p, ns in own.items():
        if p in opts and opts[p] != {ns}:
            ctx.ev("overridden prefixes")
        opts[p] = {ns}
    decl, new = [], set()
    if rng.random() < 0.7:
        for _ in range(rng.choice([1, 2, 3])):
            firm = [p for p, v in opts.items() if len(v) == 1]
            if firm and rng.random() < 0.8:
                p, l = rng.choice(sorted(firm)), rng.choice(LOCALS)
                decl.append("%s:%s" % (p, l))
                new.add(next(iter(opts[p])) + l)
            else:
                u = "http://abs.example/" + rng.choice(LOCALS)
                decl.append(u)
                new.add(u)
        dct["scalars"] = rng.choice([frozenset, set, list, tuple])(decl)
    before_p, before_s = dict(dct.get("prefixes", {})), list(dct.get("scalars", ()))
    src_p, src_s = dct.get("prefixes"), dct.get("scalars")
    c = ctx.call("class", type(Resource), "K%d" % k, bases, dct)
    ctx.ev("classes")
    if src_p is not None:
        ctx.same(dict(src_p), before_p, "the mapping a class was declared with")
    if src_s is not None:
        ctx.same(list(src_s), before_s, "the scalars a class was declared with")
    ctx.sig(len(bases), sorted(own), len(sc), len(new), sorted(k2 for k2, v in opts.items() if len(v) > 1))
    return c, Model(None, opts, sc | new), [b.__name__ for b in bases]


ROOT = Model(None, {k: {v} for k, v in ROOT_P.items()}, {RDFS + "label"})


def check(ctx, made, glob):
    for c, m, _ in [(Resource, ROOT, [])] + made:
        what = "%s (bases %r)" % (c.__name__, [b.__name__ for b in c.__bases__])
        ctx.same(set(c.prefixes), set(m.options), "prefixes of " + what)
        for p, vs in m.options.items():
            ctx.expect(c.prefixes[p] in vs, lambda: "%s binds %r to %r, expected %r" % (what, p, c.prefixes[p], vs))
        ctx.same(set(c.scalars), m.scalars, "scalars of " + what)


def probe(ctx, rng, c, m, glob):
    """Resolution and scalar behaviour of one class."""
    g = Graph()
    r = c(g, "http://subject.example/s")
    for p in rng.sample(PNAMES + ["rdf", "xsd", "nobody", "gp"], 5):
        ctx.ev("resolutions")
        l = rng.choice(LOCALS)
        f = c.resolve if rng.random() < 0.5 else r.resolve
        if p in m.options:
            got = ctx.call("resolve", f, p + ":" + l)
            ctx.expect(got in {ns + l for ns in m.options[p]}, lambda: "%s.resolve(%r) gave %r, expected one of %r" % (c.__name__, p + ":" + l, got, m.options[p]))
        elif p in glob:
            ctx.ev("global profile")
            ctx.same(ctx.call("resolve", f, p + ":" + l), glob[p] + l, "%s.resolve(%r) through the global profile" % (c.__name__, p + ":" + l))
        else:
            ctx.raises("resolve", ValueError, f, p + ":" + l)
    cands = sorted(m.scalars | {"http://abs.example/x", "http://one.example/x", "http://one.example/sub/y", RDFS + "label", RDFS + "comment", "urn:three:name"})
    for u in rng.sample(cands, min(4, len(cands))):
        ctx.ev("scalar probes")
        if u in m.scalars:
            ctx.same(ctx.call("getitem", lambda: r[u]), None, "an empty scalar %s of %s" % (u, c.__name__))
            r[u] = Literal("v", "en")
            ctx.same(ctx.call("getitem", lambda: r[u]), Literal("v", "en"), "scalar %s of %s" % (u, c.__name__))
            ctx.raises("setitem", ValueError, lambda: r.__setitem__(u, ["a", "b"]))
        else:
            got = ctx.call("getitem", lambda: r[u])
            ctx.expect(got is not None and not isinstance(got, (Literal, Resource)) and list(got) == [], "an empty non-scalar %s of %s gave %r" % (u, c.__name__, got))
            r[u] = [Literal("v", "en"), Literal("w", "en")]
            ctx.same(sorted(x.value for x in r[u]), ["v", "w"], "non-scalar %s of %s" % (u, c.__name__))


def history(ctx, rng):
    made = []
    glob = dict(Resource.global_profile.prefixes)
    for k in range(rng.choice([2, 3, 5])):
        made.append(make(ctx, rng, made, k))
        check(ctx, made, glob)
        r = rng.random()
        if r < 0.3:
            # a class's own map changes later
            c, m, _ = rng.choice(made)
            p, ns = rng.choice(PNAMES), rng.choice(NSS)
            c.prefixes[p] = NamedNode(ns)
            m.options[p] = {ns}
            ctx.ev("later changes")
            check(ctx, made, glob)
        elif r < 0.5:
            p, ns = rng.choice(["gp", "foaf", "ex"]), rng.choice(NSS)
            Resource.global_profile.setPrefix(p, ns)
            glob[p] = ns
            ctx.ev("later changes")
            check(ctx, made, glob)
        for c, m, _ in made:
            if rng.random() < 0.6:
                probe(ctx, rng, c, m, glob)
    probe(ctx, rng, Resource, ROOT, glob)
    # combined classes behave like declared ones
    if len(made) >= 2 and rng.random() < 0.5:
        (a, ma, _), (b, mb, _) = rng.sample(made, 2)
        if not combinable([a, b]):
            return
        ta, tb = "http://types.example/c29/a", "http://types.example/c29/b"
        register_class(ta)(a)
        register_class(tb)(b)
        g = Graph()
        n = NamedNode("http://subject.example/s")
        for t in (ta, tb):
            g.add(Triple(n, NamedNode(RDFNS + "type"), NamedNode(t)))
        x = ctx.call("classify", Resource.classify, g, n)
        tops = [q for q in ((a, ma), (b, mb)) if not any(issubclass(o, q[0]) for o in (a, b) if o is not q[0])]
        opts, sc = inherit([q[1] for q in tops])
        if len(tops) == 1:
            opts = tops[0][1].options
        check(ctx, made + [(type(x), Model(None, opts, sc), [])], glob)
        probe(ctx, rng, type(x), Model(None, opts, sc), glob)
    ctx.sample([(c.__name__, sorted(m.options), sorted(m.scalars)) for c, m, _ in made])


def vocab(ctx):
    from pymantic.vocab import skos
    NS = "http://www.w3.org/2004/02/skos/core#"
    T = NamedNode(RDFNS + "type")
    C, S = NamedNode("http://e/c"), NamedNode("http://e/s")
    for node in (C, S):
        for types in ((), ("Concept",), ("ConceptScheme",), ("Concept", "ConceptScheme"), ("Collection",), ("Concept", "Collection")):
            g = Graph()
            for t in types:
                g.add(Triple(node, T, NamedNode(NS + t)))
            r = ctx.call("classify", Resource.classify, g, node)
            ctx.same(isinstance(r, skos.Concept), "Concept" in types, "a node of types %r as Concept" % (types,))
            ctx.same(isinstance(r, skos.ConceptScheme), "ConceptScheme" in types, "a node of types %r as ConceptScheme" % (types,))
            ctx.same(isinstance(r, skos.SKOSResource), bool({"Concept", "ConceptScheme"} & set(types)), "as SKOSResource")
            ctx.sig("skos", types)
    for cls in (skos.SKOSResource, skos.Concept, skos.ConceptScheme):
        ctx.same(cls.resolve("skos:prefLabel"), NS + "prefLabel", "skos:prefLabel")
        ctx.same(set(cls.scalars), {NS + "prefLabel", RDFS + "label"}, "scalars of " + cls.__name__)
        ctx.ev("scalar probes")
        g = Graph()
        c = ctx.call("new", cls.new, g, "http://e/c")
        want = {Triple(C, T, t) for t in cls.rdf_classes}
        ctx.same(set(g), want, "a new " + cls.__name__)
        c["skos:prefLabel"] = "dog"
        c["skos:prefLabel", "fr"] = "chien"
        ctx.same(c["skos:prefLabel"], Literal("dog", "en"), "prefLabel")
        ctx.same(c["skos:prefLabel", "fr"], Literal("chien", "fr"), "French prefLabel")
        c["skos:altLabel"] = ["a", "b"]
        ctx.same(sorted(x.value for x in c["skos:altLabel"]), ["a", "b"], "altLabel")
        c["skos:broader"] = S
        ctx.same([x.subject for x in c["skos:broader"]], [S], "broader")
        ctx.same([x.subject for x in c["skos:broader"].__iter__()], [S], "broader") if hasattr(c["skos:broader"], "__iter__") else None
    ctx.same(set(skos.Concept.rdf_classes), {NS + "Concept"}, "RDF class of Concept")
    ctx.same(set(skos.ConceptScheme.rdf_classes), {NS + "ConceptScheme"}, "RDF class of ConceptScheme")


FIXED = [vocab]
