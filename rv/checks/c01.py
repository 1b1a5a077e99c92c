"""C01: set semantics of a graph over add/remove histories."""
from rv.graphs import Universe, mutate, new_graph, see_set

RULE = "distinct sequences of (operation kind, size) of a history with at least one removal and one re-addition"
ASSUMES = ["one thread uses a graph at a time", "terms are valid pymantic terms"]
COUNT = {"quick": 1600, "thorough": 60000}
MIN_EVENTS = {"oracle:evaluations": 5000, "op:add": 2000, "op:remove": 1000, "op:remove-absent": 200, "op:add-again": 500}


def case(ctx, i):
    rng = ctx.rng
    big = i % 40 == 7
    u = Universe(rng, small=not big)
    gs = [(new_graph(rng), set()) for _ in range(rng.choice([1, 1, 2, 3]))]
    n = rng.randrange(600, 2500) if big else rng.randrange(1, 70)
    every = 150 if big else rng.choice([1, 2, 5])
    kinds = []
    shots = []
    p = rng.choice([0.2, 0.4, 0.5])
    for step in range(n):
        if big and step == n * 3 // 4:
            p = 0.85  # shrink again
        g, model = gs[rng.randrange(len(gs))]
        k = mutate(ctx, g, model, u, p)
        ctx.ev("op:" + k)
        kinds.append(k[0] if not k.startswith("remove-") else "x")
        if k in ("remove-absent", "add-again") or step % every == 0:
            for h, m in gs:
                arr = see_set(ctx, h, m, u)
            if len(shots) < 5:
                shots.append((arr, u.reader.stmts(arr)))
    for h, m in gs:
        see_set(ctx, h, m, u)
    for arr, was in shots:  # a snapshot stays what it was
        ctx.same(u.reader.stmts(arr), was, "an array taken earlier, after later changes")
    if "r" in kinds:
        ctx.sig("".join(kinds), [len(m) for _, m in gs])
    ctx.sample({"operations": kinds[:80], "final": sorted(gs[0][1], key=repr)[:6]})


def scale(ctx, key):
    """Sizes around powers of two: grow one triple at a time, then drain."""
    from pymantic.primitives import Graph, Literal, NamedNode, Triple
    n = key
    g = Graph()
    ts = [Triple(NamedNode("http://e/s%d" % (i % 7)), NamedNode("http://e/p%d" % (i % 3)), Literal("v%d" % i)) for i in range(n)]
    for j, t in enumerate(ts):
        ctx.call("add", g.add, t)
        if j % 97 == 0 or n < 300:
            ctx.same(len(g), j + 1, "len after %d additions" % (j + 1))
    ctx.same(set(g), set(ts), "iteration at size %d" % n)
    ctx.same(len(list(g)), n, "number of iterated triples")
    ctx.same(set(g.toArray()), set(ts), "toArray at size %d" % n)
    for j, t in enumerate(ts):
        ctx.expect(t in g, "a present triple is not reported present at size %d" % n)
        ctx.call("remove", g.remove, Triple(*t))
        ctx.expect(t not in g, "a removed triple is still present")
        if j % 97 == 0 or n < 300:
            ctx.same(len(g), n - j - 1, "len after removals")
    ctx.same(list(g), [], "iteration of the drained graph")
    ctx.raises("remove", KeyError, g.remove, ts[0])
    ctx.sig("scale", n)


scale.keys = lambda tier: [1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025] + ([2047, 2049, 4097, 5000, 8193, 10001, 20000, 65537, 100001] if tier == "thorough" else [2049, 4097, 10001])
SWEEPS = [scale]
