"""C02: pattern matching over graph histories."""
from rv.model import I, L
from rv.graphs import Universe, all_shapes, do_match, mutate, new_graph, patterns, ref_match, see_match

RULE = "distinct (pattern shape, number of results, history length) with a non-empty graph"
ASSUMES = ["the graph is not modified while a match is being consumed"]
COUNT = {"quick": 1600, "thorough": 40000}
MIN_EVENTS = {"oracle:evaluations": 5000, "pattern:---": 200, "pattern:x--": 200, "pattern:-x-": 200, "pattern:--x": 200, "pattern:xx-": 200, "pattern:x-x": 200, "pattern:-xx": 200, "pattern:xxx": 200}


def case(ctx, i):
    rng = ctx.rng
    big = i % 40 == 3
    u = Universe(rng, small=not big)
    g, model = new_graph(rng), set()
    n = rng.randrange(400, 1500) if big else rng.randrange(1, 50)
    p = rng.choice([0.1, 0.4, 0.5])
    for step in range(n):
        ctx.ev("op:" + mutate(ctx, g, model, u, p))
        if step % (120 if big else 4) == 0 or step == n - 1:
            for pat in patterns(u, model, 6):
                see_match(ctx, g, model, u, pat)
                if model:
                    ctx.sig("".join("x" if x is not None else "-" for x in pat), len(ref_match(model, pat)), step)
            ctx.same((len(g), u.reader.stmts(g)), (len(model), model), "the graph after matching")
            # only the triples themselves are terms' occurrences: looking up does not change the listings
            ctx.same({u.reader.term(x) for x in g.subjects()}, {t[0] for t in model}, "subjects after matching")
    for t in u.probes(model, 3):
        for pat in all_shapes(t):
            see_match(ctx, g, model, u, pat)
    # lazily consumed matches, interleaved with other reads
    pats = list(patterns(u, model, 4))
    its = [iter(do_match(ctx, g, u, q)) for q in pats]
    got = [[] for _ in its]
    live = set(range(len(its)))
    while live:
        j = rng.choice(sorted(live))
        try:
            got[j].append(u.reader.stmt(next(its[j])))
        except StopIteration:
            live.discard(j)
        if rng.random() < 0.2:
            list(do_match(ctx, g, u, rng.choice(pats)))
    for q, o in zip(pats, got):
        ctx.same(sorted(o, key=repr), sorted(ref_match(model, q), key=repr), "interleaved match%r" % (q,))
    ctx.same(u.reader.stmts(g), model, "the graph after interleaved matching")
    ctx.sample({"model": sorted(model, key=repr)[:5], "pattern": pats[0], "results": len(got[0])})


def wide(ctx, key):
    """One term with very many neighbours, of one or of two kinds."""
    pos, n, two = key
    u = Universe(ctx.rng)
    g, model = new_graph(ctx.rng), set()
    hub = I("http://hub.example/")
    a, b = [k for k in range(3) if k != pos]
    for k in range(n):
        t = [None] * 3
        t[pos] = hub
        t[a] = I("http://a.example/%d" % k)
        t[b] = I("http://b.example/%d" % (k % two if two else k))
        if two and ctx.rng.random() < 0.5:
            t[a], t[b] = t[b], t[a]
        model.add(tuple(t))
    model |= {(I("http://x.example/%d" % k), I("http://p.example/%d" % (k % 3)), L("v%d" % k)) for k in range(50)}
    order = sorted(model, key=repr)
    ctx.rng.shuffle(order)
    for t in order:
        g.add(u.triple(t))
    for half in (False, True):
        if half:
            for t in order[::2]:
                g.remove(u.triple(t))
                model.discard(t)
        for t in [x for x in order if x in model and x[pos] == hub][:6]:
            for pat in all_shapes(t):
                see_match(ctx, g, model, u, pat)
    ctx.sig("wide", key)


wide.keys = lambda tier: [(pos, n, two) for pos in range(3) for n in ([90, 700] + ([6000] if tier == "thorough" else [])) for two in (0, 1, 2, 30)]
SWEEPS = [wide]
