"""C03: subjects(), predicates(), objects() over graph histories."""
from rv.graphs import Universe, do_match, mutate, new_graph, patterns, see_listings

RULE = "distinct (listing sizes, kinds of operation) sequences with a removal"
ASSUMES = ["one thread uses a graph at a time"]
COUNT = {"quick": 4000, "thorough": 50000}
MIN_EVENTS = {"oracle:evaluations": 5000, "op:remove": 500, "observations:listings": 2000}


def case(ctx, i):
    rng = ctx.rng
    big = i % 40 == 5
    u = Universe(rng, small=not big)
    g, model = new_graph(rng), set()
    other, omodel = new_graph(rng), set()
    n = rng.randrange(300, 1200) if big else rng.randrange(1, 50)
    p = rng.choice([0.3, 0.5, 0.6])
    kinds = []
    for step in range(n):
        k = mutate(ctx, g, model, u, p)
        ctx.ev("op:" + k)
        kinds.append(k[-1])
        if rng.random() < 0.2:
            mutate(ctx, other, omodel, u, p)
        if rng.random() < 0.3:  # lookups, also of terms the graph never saw
            for pat in patterns(u, model, 3):
                list(do_match(ctx, g, u, pat))
            u.triple(u.absent_triple()) in g
        if big and step % 60 and step != n - 1:
            continue
        see_listings(ctx, g, model, u)
    if rng.random() < 0.4:
        pats = next(patterns(u, model, 1))
        ctx.call("removeMatches", g.removeMatches, *[u.term(x) for x in pats])
        model -= {t for t in model if all(q is None or q == x for q, x in zip(pats, t))}
        see_listings(ctx, g, model, u)
        ctx.call("addAll", g.addAll, other)
        model |= omodel
        see_listings(ctx, g, model, u)
    see_listings(ctx, other, omodel, u, "other graph")
    for t in sorted(model, key=repr):  # drain completely
        ctx.call("remove", g.remove, u.triple(t))
        ctx.ev("op:remove")
        model.discard(t)
        if not big:
            see_listings(ctx, g, model, u)
    see_listings(ctx, g, set(), u)
    if "e" in kinds:
        ctx.sig("".join(kinds))
    ctx.sample({"kinds": kinds[:60]})


def many(ctx, key):
    """Listings of graphs with very many terms, some of them very long, as they grow and shrink."""
    from pymantic.primitives import Literal, NamedNode, Triple
    rng, n = ctx.rng, key
    g, model = new_graph(rng), set()
    long = [Literal("x" * k) for k in (4096, 70000, 1 << 20)] + [NamedNode("http://e/" + "y" * k) for k in (300, 5000, 70000)]
    for k in range(n):
        t = Triple(NamedNode("http://e/s%d" % k), NamedNode("http://e/p%d" % (k if rng.random() < 0.5 else k % 7)), Literal(str(k)))
        g.add(t)
        model.add(t)
        if k < len(long):
            t = Triple(NamedNode("http://e/s%d" % k) if k < 3 else long[k], NamedNode("http://e/long"), long[k])
            g.add(t)
            model.add(t)

    def see(when):
        ctx.ev("observations:large listings")
        for name, real, want in (("subjects", g.subjects, {t[0] for t in model}), ("predicates", g.predicates, {t[1] for t in model}), ("objects", g.objects, {t[2] for t in model})):
            got = list(ctx.call(name, real))
            ctx.same(len(got), len(want), "number of %s of %d triples %s" % (name, len(model), when))
            ctx.expect(set(got) == want, lambda: "%s of %d triples %s" % (name, len(model), when))

    see("after adding")
    for keep in (0.9, 0.5, 0.02):
        for t in [t for t in model if rng.random() > keep]:
            g.remove(t)
            model.discard(t)
        see("after removals")
    ctx.sig("many", n)


many.keys = lambda tier: [1000, 6000, 25000] + ([200000] if tier == "thorough" else [])
SWEEPS = [many]
