"""C05: datasets over histories of quads and whole graphs."""
from pymantic.primitives import Dataset, Graph, NamedNode

from rv.graphs import Universe, do_match

RULE = "distinct sequences of (operation, number of quads, number of graph names) over at least two graph names"
ASSUMES = ["one thread uses a dataset at a time", "a Graph object is added under one name only", "add_graph under an existing name replaces that graph"]
COUNT = {"quick": 4000, "thorough": 26000}
MIN_EVENTS = {"oracle:evaluations": 5000, "op:add": 500, "op:remove": 200, "op:removeMatches": 200, "op:add_graph": 100, "op:remove_graph": 100, "op:failed-remove": 200, "op:addAll": 200, "op:through-graph": 200}


def ref(model, pat):
    return {q for q in model if all(p is None or p == x for p, x in zip(pat, q))}


def see(ctx, ds, model, u, npat=6):
    rng = u.rng
    before = graph_ids(ds)
    ctx.same(len(ds), len(model), "len(dataset)")
    ctx.same(u.reader.stmts(iter(ds), ctx, "iterating the dataset"), model, "iterating the dataset")
    ctx.same(u.reader.stmts(ds.toArray(), ctx, "toArray()"), model, "toArray() of the dataset")
    ms = sorted(model, key=repr)
    names = u.names + [("I", "http://absent.example/g"), ("B", "absentg")]
    for _ in range(npat):
        q = rng.choice(ms) if ms and rng.random() < 0.6 else u.rand_triple() + (rng.choice(names),)
        if rng.random() < 0.4:
            q = q[:3] + (rng.choice(names),)
        elif rng.random() < 0.1:
            q = u.absent_triple() + (q[3],)
        ctx.same(bool(u.quad(q) in ds), q in model, "membership of quad %r" % (q,))
        ctx.same(bool(u.triple(q[:3]) in ds), any(x[:3] == q[:3] for x in model), "membership of triple %r" % (q[:3],))
        mask = rng.randrange(16)
        pat = tuple(q[k] if mask >> k & 1 else None for k in range(4))
        got = u.reader.stmts(do_match(ctx, ds, u, pat), ctx, "match%r" % (pat,))
        ctx.same(got, ref(model, pat), "match%r" % (pat,))
        ctx.ev("pattern:" + "".join("x" if p is not None else "-" for p in pat))
    # each graph of the dataset holds exactly its quads
    per = {}
    for g in ds.graphs:
        name = u.reader.term(g.uri)
        ctx.expect(name not in per, lambda: "two graphs named %r" % (name,))
        per[name] = u.reader.stmts(g, ctx, "graph %r" % (name,))
    for name in {q[3] for q in model} | set(per):
        ctx.same(per.get(name, set()), {q[:3] for q in model if q[3] == name}, "the graph named %r" % (name,))
    ctx.same(graph_ids(ds), before, "the dataset's graphs after queries only")
    ctx.ev("observations")


def graph_ids(ds):
    return sorted(id(g) for g in ds.graphs)


def case(ctx, i):
    rng = ctx.rng
    u = Universe(rng, graphs=rng.randrange(1, 5))
    pool = [(Dataset(), set()) for _ in range(rng.choice([1, 2]))]
    held = {id(d): {} for d, _ in pool}  # the graph objects of each data set that the program keeps
    trail = []
    n = rng.randrange(150, 400) if i % 50 == 11 else rng.randrange(1, 30)
    for step in range(n):
        ds, model = rng.choice(pool)
        op = rng.choice(["add"] * 6 + ["remove"] * 3 + ["failed-remove", "removeMatches", "addAll", "add_graph", "remove_graph", "add-same-triple", "through-graph", "through-graph", "keep-graph"])
        if op in ("remove",) and not model:
            op = "failed-remove"
        ctx.ev("op:" + op)
        if op == "add":
            q = u.rand_triple() + (rng.choice(u.names),)
            ctx.call("add", ds.add, u.quad(q))
            model.add(q)
        elif op == "add-same-triple":
            t = rng.choice(sorted(model, key=repr))[:3] if model else u.rand_triple()
            q = t + (rng.choice(u.names),)
            ctx.call("add", ds.add, u.quad(q))
            model.add(q)
        elif op == "remove":
            q = rng.choice(sorted(model, key=repr))
            ctx.call("remove", ds.remove, u.quad(q))
            model.discard(q)
        elif op == "keep-graph":
            for g in ds.graphs:
                held[id(ds)].setdefault(u.reader.term(g.uri), g)
        elif op == "through-graph":  # a graph of the data set, changed as a graph
            if not held[id(ds)]:
                continue
            name = rng.choice(sorted(held[id(ds)], key=repr))
            g = held[id(ds)][name]
            mine = sorted((q for q in model if q[3] == name), key=repr)
            if mine and rng.random() < 0.5:
                q = rng.choice(mine)
                ctx.call("remove from its graph", g.remove, u.triple(q[:3]))
                model.discard(q)
            else:
                t = u.rand_triple()
                ctx.call("add to its graph", g.add, u.triple(t))
                model.add(t + (name,))
        elif op == "failed-remove":
            q = (u.absent_triple() if rng.random() < 0.5 else u.rand_triple()) + (rng.choice(u.names + [("I", "http://absent.example/g")]),)
            if q not in model:
                ids = graph_ids(ds)
                ctx.raises("remove", KeyError, ds.remove, u.quad(q))
                ctx.same(graph_ids(ds), ids, "the dataset's graphs after a failed removal")
        elif op == "removeMatches":
            base = rng.choice(sorted(model, key=repr)) if model and rng.random() < 0.8 else u.rand_triple() + (rng.choice(u.names + [("I", "http://absent.example/g")]),)
            mask = rng.randrange(1, 16) if rng.random() < 0.9 else 0
            pat = tuple(base[k] if mask >> k & 1 else None for k in range(4))
            ids = graph_ids(ds)
            r = ctx.call("removeMatches", ds.removeMatches, *[u.term(x) for x in pat])
            ctx.expect(r is ds, "removeMatches() does not return the dataset")
            gone = ref(model, pat)
            model -= gone
            if not gone:
                ctx.same(graph_ids(ds), ids, "the dataset's graphs after removing nothing by pattern")
        elif op == "addAll":
            other, om = rng.choice(pool)
            if rng.random() < 0.5 and other is not ds:
                r = ctx.call("addAll", ds.addAll, other)
                model |= om
            else:
                add = [u.rand_triple() + (rng.choice(u.names),) for _ in range(rng.randrange(0, 6))]
                src = [u.quad(q) for q in add]
                r = ctx.call("addAll", ds.addAll, iter(src) if rng.random() < 0.3 else src)
                model |= set(add)
            ctx.expect(r is ds, "addAll() does not return the dataset")
        elif op == "add_graph":
            name = rng.choice([x for x in u.names if x is not None])
            if name == ("I", ""):
                continue
            ts = {u.rand_triple() for _ in range(rng.randrange(0, 5))}
            x = rng.random()
            if x < 0.1:
                g = Graph()
                ids = graph_ids(ds)
                ctx.raises("add_graph", ValueError, ds.add_graph, g)
                ctx.same(graph_ids(ds), ids, "the dataset's graphs after add_graph() was refused")
                continue
            if x < 0.5 and name[0] == "I":
                g = Graph(u.term(name))
                g.addAll(u.triple(t) for t in ts)
                ctx.call("add_graph", ds.add_graph, g)
            else:
                g = Graph() if rng.random() < 0.5 else Graph("http://other.example/")
                g.addAll(u.triple(t) for t in ts)
                ctx.call("add_graph", ds.add_graph, g, u.term(name)) if rng.random() < 0.5 else ctx.call("add_graph", ds.add_graph, g, named=u.term(name))
            model -= {q for q in model if q[3] == name}
            model |= {t + (name,) for t in ts}
            held[id(ds)].pop(name, None)
            if rng.random() < 0.6:
                held[id(ds)][name] = g
        elif op == "remove_graph":
            have = [u.reader.term(g.uri) for g in ds.graphs]
            name = rng.choice(u.names)
            if name in have:
                if rng.random() < 0.5 or name is None:
                    arg = next(g for g in ds.graphs if u.reader.term(g.uri) == name)
                else:
                    arg = u.term(name)
                ctx.call("remove_graph", ds.remove_graph, arg)
                held[id(ds)].pop(name, None)
                model -= {q for q in model if q[3] == name}
                ctx.expect(name not in [u.reader.term(g.uri) for g in ds.graphs], "a removed graph is still listed")
            else:
                ids = graph_ids(ds)
                try:
                    ds.remove_graph(u.term(name))
                except Exception:
                    pass
                ctx.same(graph_ids(ds), ids, "the dataset's graphs after removing an unknown graph")
        trail.append((op, len(model), len({q[3] for q in model})))
        if n < 100 or step % 40 == 0:
            for d, m in pool:
                see(ctx, d, m, u, 3)
    for d, m in pool:
        see(ctx, d, m, u, 25)
    if any(t[2] > 1 for t in trail):
        ctx.sig(trail)
    ctx.sample(trail[:40])


def scale(ctx, key):
    """Many quads / many graphs."""
    from pymantic.primitives import Literal, Quad
    nq, ng = key
    ds = Dataset()
    qs = [Quad(NamedNode("http://e/s%d" % (k % 13)), NamedNode("http://e/p%d" % (k % 3)), Literal("v%d" % (k // 2)), NamedNode("http://g/%d" % (k % ng)) if k % ng else None) for k in range(nq)]
    for q in qs:
        ctx.call("add", ds.add, q)
    want = set(qs)
    ctx.same((len(ds), set(ds)), (len(want), want), "dataset of %d quads in %d graphs" % key)
    for g in (None, 1, ng - 1):
        if g:
            nm = NamedNode("http://g/%d" % g)
            ctx.same(set(ds.match(graph=nm)), {q for q in want if q.graph == nm}, "match by graph")
    ctx.call("removeMatches", ds.removeMatches, None, NamedNode("http://e/p1"), None, None)
    want = {q for q in want if q.predicate != "http://e/p1"}
    ctx.same((len(ds), set(ds)), (len(want), want), "after removing by pattern")
    other = Dataset()
    ctx.call("addAll", other.addAll, ds)
    ctx.same((len(other), set(other)), (len(want), want), "addAll(dataset)")
    for q in sorted(want, key=repr):
        ctx.call("remove", ds.remove, q)
    ctx.same((len(ds), set(ds)), (0, set()), "the drained dataset")
    ctx.same(set(other), want, "the copy after draining the original")
    ctx.sig("scale", key)


scale.keys = lambda tier: [(1, 1), (10, 3), (100, 2), (129, 17), (257, 64), (1025, 3), (1025, 200)] + ([(5000, 1000), (20000, 7), (70000, 300)] if tier == "thorough" else [])
SWEEPS = [scale]
