"""C04: bulk operations and independence of their results."""
from pymantic.primitives import Graph, RDFEnvironment

from rv.graphs import Universe, mutate, new_graph, patterns, ref_match, see_all, see_set

RULE = "distinct sequences of (bulk operation, sizes before and after) with non-empty graphs"
ASSUMES = ["one thread uses a graph at a time"]
COUNT = {"quick": 2700, "thorough": 25000}
MIN_EVENTS = {"oracle:evaluations": 5000, "op:addAll": 300, "op:removeMatches": 300, "op:merge": 300, "op:createGraph": 200}


def rand_model(u, n):
    return {u.rand_triple() for _ in range(n)}


def build(ctx, u, model):
    g = new_graph(u.rng)
    for t in model:
        g.add(u.triple(t))
    return g


def case(ctx, i):
    rng = ctx.rng
    big = i % 40 == 9
    u = Universe(rng, small=not big)
    n = rng.randrange(200, 900) if big else rng.randrange(0, 15)
    env = RDFEnvironment()
    pool = []
    for _ in range(2):
        m = rand_model(u, n)
        pool.append((build(ctx, u, m), m))
    trail = []
    for step in range(rng.randrange(2, 5 if big else 10)):
        op = rng.choice(["addAll", "addAll", "removeMatches", "removeMatches", "merge", "createGraph", "mutate"])
        j, k = rng.randrange(len(pool)), rng.randrange(len(pool))
        (g, m), (h, hm) = pool[j], pool[k]
        before = (len(m), len(hm))
        ctx.ev("op:" + op)
        if op == "addAll":
            form = rng.choice(["graph", "list", "gen", "set", "array", "tuple", "match", "empty"])
            add = set(hm) if form in ("graph", "array") else set() if form == "empty" else rand_model(u, rng.randrange(0, 6)) | set(rng.sample(sorted(m, key=repr), min(len(m), 3)))
            if form == "match":
                h = build(ctx, u, add)
                src = h.match()
                kept = None
            else:
                objs = [u.triple(t) for t in sorted(add, key=repr)]
                if form == "list":
                    objs = objs + objs[:2]
                kept = {"graph": h, "array": h.toArray() if form == "array" else None, "list": objs, "set": set(objs), "tuple": tuple(objs), "empty": []}.get(form)
                src = iter(objs) if form == "gen" else kept
            copy = list(kept) if isinstance(kept, list) else None
            r = ctx.call("addAll", g.addAll, src)
            ctx.expect(r is g, "addAll() does not return the graph")
            if copy is not None:
                ctx.same(kept, copy, "the list given to addAll()")
            m |= add
        elif op == "removeMatches":
            pat = next(patterns(u, m, 1))
            r = ctx.call("removeMatches", g.removeMatches, *[u.term(x) for x in pat])
            ctx.expect(r is g, "removeMatches() does not return the graph")
            m -= ref_match(m, pat)
        elif op == "merge":
            r = ctx.call("merge", g.merge, h)
            ctx.expect(r is not g and r is not h, "merge() returns one of its inputs")
            ctx.expect(isinstance(r, Graph), "merge() does not return a graph")
            pool.append((r, m | hm))
        elif op == "createGraph":
            add = rand_model(u, rng.randrange(0, 8))
            objs = [u.triple(t) for t in add]
            if rng.random() < 0.3:
                r, add = ctx.call("createGraph", env.createGraph, g), set(m)
            elif rng.random() < 0.3:
                r, add = ctx.call("createGraph", env.createGraph, g.toArray()), set(m)
            elif rng.random() < 0.5:
                r = ctx.call("createGraph", env.createGraph, iter(objs))
            elif rng.random() < 0.2:
                r, add = ctx.call("createGraph", env.createGraph), set()
            else:
                r = ctx.call("createGraph", env.createGraph, objs)
            ctx.expect(isinstance(r, Graph) and r is not g, "createGraph() does not return a new graph")
            pool.append((r, set(add)))
        else:
            for _ in range(3):
                mutate(ctx, g, m, u)
        trail.append((op, before, len(m)))
        if big:
            for x, xm in pool:
                see_set(ctx, x, xm, u)
        else:
            for x, xm in pool:
                see_all(ctx, x, xm, u, "graph after %s" % op, npat=3)
    # later changes to any of them stay invisible in all others
    for x, xm in pool[:6]:
        for _ in range(4):
            mutate(ctx, x, xm, u)
    for x, xm in pool:
        if big:
            see_set(ctx, x, xm, u)
        else:
            see_all(ctx, x, xm, u, "graph at the end", npat=4)
    if any(b != (0, 0) for _, b, _ in trail):
        ctx.sig(trail)
    ctx.sample(trail)


def sizes(ctx, key):
    """addAll / merge / removeMatches on sizes around likely thresholds."""
    from pymantic.primitives import Literal, NamedNode, Triple
    n = key
    P = [NamedNode("http://e/p%d" % k) for k in range(4)]
    a = [Triple(NamedNode("http://e/s%d" % (k % 11)), P[k % 4], Literal("v%d" % k)) for k in range(n)]
    b = [Triple(NamedNode("http://e/s%d" % (k % 5)), P[k % 3], Literal("w%d" % (k % max(1, n // 2)))) for k in range(n)]
    g, h = Graph(), Graph()
    ctx.call("addAll", g.addAll, a)
    ctx.call("addAll", h.addAll, iter(b))
    m = ctx.call("merge", g.merge, h)
    ctx.same((set(m), len(m)), (set(a) | set(b), len(set(a) | set(b))), "merge at size %d" % n)
    ctx.same((set(g), set(h)), (set(a), set(b)), "inputs after merge at size %d" % n)
    for x in P:
        ctx.same(sorted(m.match(predicate=x)), sorted(t for t in set(a) | set(b) if t.predicate == x), "match after merge")
    ctx.call("removeMatches", m.removeMatches, None, P[1], None)
    want = {t for t in set(a) | set(b) if t.predicate != P[1]}
    ctx.same((set(m), len(m)), (want, len(want)), "removeMatches at size %d" % n)
    ctx.same(set(m.predicates()), {t.predicate for t in want}, "predicates after removeMatches")
    ctx.call("removeMatches", m.removeMatches, None, None, None)
    ctx.same((list(m), len(m), list(m.subjects())), ([], 0, []), "removeMatches of everything at size %d" % n)
    ctx.same((set(g), set(h)), (set(a), set(b)), "inputs after removals from the merged graph")
    ctx.call("addAll", g.addAll, h)
    ctx.same((set(g), set(h)), (set(a) | set(b), set(b)), "addAll(graph) at size %d" % n)
    ctx.sig("sizes", n)


sizes.keys = lambda tier: [0, 1, 2, 10, 31, 33, 64, 65, 99, 100, 101, 128, 129, 255, 256, 257, 500, 512, 1000, 1001, 1024, 1025] + ([2048, 4097, 10000, 20001, 50000] if tier == "thorough" else [5000])
SWEEPS = [sizes]
