"""C37: an operation that raises leaves the data as they were."""
import io

from pymantic.primitives import BlankNode, Dataset, Graph, Literal, NamedNode, PrefixMap, Profile, Quad, RDFEnvironment, TermMap, Triple
from pymantic.rdf import List, Resource
from pymantic.serializers import default_bnode_name_generator, serialize_nquads, serialize_ntriples, serialize_turtle

from rv import gen, res
from rv.graphs import Universe, patterns, see_listings, see_match, see_set
from rv.model import B, I, L

RULE = "distinct (operation, fault, state it met, outcome) steps of histories"
ASSUMES = ["faults: wrong kinds of argument, iterators, writers and label generators that raise, missing and ambiguous names and statements; not: exceptions injected between two bytecodes, or from a term's own hash"]
COUNT = {"quick": 3000, "thorough": 120000}
MIN_EVENTS = {"oracle:evaluations": 30000, "faults": 850, "fault:add": 150, "fault:remove": 150, "fault:addAll": 100, "fault:merge": 50, "fault:writer": 100, "fault:assign": 30, "fault:dataset": 100, "fault:names": 150, "fault:iteration": 100, "healthy operations": 450}


class Boom(Exception):
    pass


class Halt(BaseException):
    """Something like a KeyboardInterrupt."""


class Part:
    """Looks like a statement, up to a point."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def wrong(rng, u, quad):
    """(something that is no statement, what it is)"""
    s = u.rand_triple()
    t = [u.term(x) for x in s]
    k = rng.randrange(11)
    return [
        lambda: (tuple(t), "plain tuple"), lambda: (tuple(t[:2]), "pair"), lambda: (list(t), "list"), lambda: (None, "None"), lambda: (str(t[0]), "text"), lambda: (t[0], "a node"), lambda: (7, "number"),
        lambda: (Part(subject=t[0], predicate=t[1]), "no object"), lambda: (Part(predicate=t[1], object=t[2]), "no subject"), lambda: (Part(subject=t[0], object=t[2], graph=None), "no predicate"),
        lambda: ((Triple(t[0], t[1], [t[2]]) if not quad else Quad(t[0], t[1], [t[2]], None)), "unhashable object"),
    ][k]()


def fails(ctx, what, f):
    """Whether f raised (anything but a harness error)."""
    try:
        f()
    except (Boom, Halt) as e:
        ctx.ev("faults")
        return type(e).__name__
    except Exception as e:
        ctx.ev("faults")
        return type(e).__name__
    return None


def faulty(items, k, exc):
    """Yields k items, then raises."""
    for x in items[:k]:
        yield x
    raise exc("planned")


class BadWriter(io.TextIOBase):
    def __init__(self, k, exc):
        super().__init__()
        self.k, self.exc, self.parts = k, exc, []

    def write(self, s):
        if not self.k:
            raise self.exc("planned")
        self.k -= 1
        self.parts.append(s)
        return len(s)


def see(ctx, g, model, u, what):
    see_set(ctx, g, model, u, what)
    for pat in patterns(u, model, 3):
        see_match(ctx, g, model, u, pat, what)
    see_match(ctx, g, model, u, (None, None, None), what)
    see_listings(ctx, g, model, u, what)


def graphs(ctx, rng):
    u = Universe(rng)
    g, model = Graph() if rng.random() < 0.7 else Graph("http://g.example/x"), set()
    trail = []
    for _ in range(rng.choice([6, 12, 25])):
        r = rng.random()
        if r < 0.35:
            s = u.rand_triple()
            ctx.ev("healthy operations")
            if rng.random() < 0.7:
                g.add(u.triple(s))
                model.add(s)
            elif s in model:
                g.remove(u.triple(s))
                model.discard(s)
            continue
        before = len(model)
        exc = rng.choice([Boom, Boom, Halt])
        if r < 0.5:
            x, kind = wrong(rng, u, False)
            op = "add"
            how = fails(ctx, op, lambda: g.add(x))
            if how is None:  # it was taken for a statement: then it is nobody's business here
                return
        elif r < 0.65:
            op = "remove"
            if rng.random() < 0.4 and model:
                s = rng.choice(sorted(model, key=repr))
                x, kind = tuple(u.term(t) for t in s), "plain tuple of a statement"
            elif rng.random() < 0.5:
                s = u.rand_triple() if rng.random() < 0.5 else u.absent_triple()
                if s in model:
                    continue
                x, kind = u.triple(s), "absent"
            else:
                x, kind = wrong(rng, u, False)
                s = None
            how = fails(ctx, op, lambda: g.remove(x))
            if how is None:
                ctx.expect(kind.startswith("plain tuple"), lambda: "removing %s raised nothing" % kind)
                y = tuple(u.reader.term(t) for t in x)
                ctx.expect(y in model, "removing a statement that is not there raised nothing")
                model.discard(y)
        elif r < 0.75:
            op = rng.choice(["addAll", "addAll", "createGraph"])
            new = [u.rand_triple() for _ in range(rng.choice([1, 3, 6]))]
            k = rng.randrange(len(new) + 1)
            items = [u.triple(s) for s in new]
            if rng.random() < 0.6:
                arg, kind = faulty(items, k, exc), "iterator raises"
            else:
                bad, kind = wrong(rng, u, False)
                arg = items[:k] + [bad] + items[k:]
            if op == "createGraph":
                how = fails(ctx, op, lambda: RDFEnvironment().createGraph(arg))
            else:
                how = fails(ctx, op, lambda: g.addAll(arg))
                ctx.ev("fault:addAll")
                if how is None:
                    return
                model = prefix(ctx, set(u.reader.stmts(g)), model, new[:k], how)
            if how is None:
                return
        elif r < 0.8:
            op, kind = "merge", "iterator raises"
            how = fails(ctx, op, lambda: g.merge(faulty([u.triple(u.rand_triple())] * 3, rng.randrange(4), exc)))
            ctx.expect(how is not None, "the exception of an iterator was swallowed by merge")
        elif r < 0.9:
            op = "writer"
            kind = writer(ctx, rng, g, exc)
            how = "raised"
        else:
            op, kind, how = "iteration", *iteration(ctx, rng, g, model, u)
        ctx.ev("fault:" + op)
        trail.append((op, kind, how))
        ctx.log("after", op, kind, how)
        see(ctx, g, model, u, "graph after %s of %s raised %s" % (op, kind, how))
        ctx.sig(op, kind, how, min(before, 5), min(len(model), 5))
    ctx.sample(trail)


def writer(ctx, rng, g, exc):
    """A write fails somewhere; the next one gives the whole text."""
    f, kw = rng.choice([(serialize_ntriples, {}), (serialize_turtle, {}), (serialize_turtle, {"base": "http://example.org/"})])
    full = io.StringIO()
    try:
        f(g, full, **kw)
    except Exception:  # terms that have no written form are no concern of this check
        return "unwritable"
    full = full.getvalue()
    whole, text = g, full
    if rng.random() < 0.5:  # what fails is the write of another graph, with some of the same terms
        g = Graph()
        for t in sorted(whole, key=repr):
            if rng.random() < 0.4:
                g.add(Triple(t.subject, t.predicate, t.object))
        full = io.StringIO()
        f(g, full, **kw)
        full = full.getvalue()
    if rng.random() < 0.3 and f is serialize_turtle:
        def names():
            yield from [x for x, _ in zip(default_bnode_name_generator(), range(rng.randrange(2)))]
            raise exc("planned")
        fails(ctx, "label generator", lambda: f(g, io.StringIO(), bnode_name_generator=names, **kw))
        kind = "label generator raises"
    else:
        w = BadWriter(rng.randrange(6), exc)
        how = fails(ctx, "writer", lambda: f(g, w, **kw))
        got = "".join(w.parts)
        ctx.expect(full.startswith(got) and (how is not None or got == full), lambda: "text written before the writer failed (%s) is not the beginning of the text\n-- written:\n%s\n-- whole:\n%s" % (how, got[:2000], full[:2000]))
        ctx.expect(how in (None, exc.__name__), lambda: "the writer's exception became %s" % how)
        kind = "writer raises"
    again = io.StringIO()
    f(whole, again, **kw)
    ctx.same(again.getvalue(), text, "the text written after a failed write")
    return kind


def iteration(ctx, rng, g, model, u):
    """The graph changes under a listing; whether or not the listing raises, the graph is exact."""
    it = rng.choice([lambda: iter(g), lambda: iter(g.subjects()), lambda: iter(g.objects()), lambda: iter(g.match(None, None, None)), lambda: iter(g.match(u.term(u.rand_triple()[0]), None, None)), lambda: iter(g.match(None, u.term(u.rand_triple()[1]), None))])()
    how = "nothing"
    try:
        for n, x in enumerate(it):
            if n > 200:
                break
            s = u.rand_triple()
            if rng.random() < 0.7 or s not in model:
                g.add(u.triple(s))
                model.add(s)
            else:
                g.remove(u.triple(s))
                model.discard(s)
            if rng.random() < 0.3:
                how = "abandoned"
                break
    except (RuntimeError, KeyError) as e:
        ctx.ev("faults")
        how = type(e).__name__
    return "changed meanwhile", how


def prefix(ctx, got, before, new, how):
    """What an addition of many may leave behind when it fails: some first part of it."""
    for j in range(len(new) + 1):
        if got == before | set(new[:j]):
            return got
    ctx.fail("addAll raised %s and left %r of %r, which is no first part of it (lost: %r)" % (how, got - before, new, before - got))


def datasets(ctx, rng):
    u = Universe(rng, graphs=3)
    d, model = Dataset(), set()
    rand = lambda: u.rand_triple() + (rng.choice(u.names),)
    look = lambda what: (ctx.same(u.reader.stmts(d, ctx, what), model, what), ctx.same(len(d), len(model), "length: " + what),
                         [ctx.same(bool(u.quad(q) in d), q in model, "membership of %r: %s" % (q, what)) for q in [rand() for _ in range(4)] + sorted(model, key=repr)[:4]],
                         [ctx.same(u.reader.stmts(d.match(graph=u.term(n)), ctx, what), {q for q in model if q[3] == n}, "quads of %r: %s" % (n, what)) for n in u.names if n is not None])
    for _ in range(rng.choice([6, 14])):
        q = rand()
        r = rng.random()
        if r < 0.4:
            ctx.ev("healthy operations")
            if rng.random() < 0.75:
                d.add(u.quad(q))
                model.add(q)
            elif q in model:
                d.remove(u.quad(q))
                model.discard(q)
            continue
        exc = rng.choice([Boom, Halt])
        if r < 0.55:
            op = "add"
            x, kind = (u.triple(u.rand_triple()), "triple") if rng.random() < 0.3 else wrong(rng, u, True)
            how = fails(ctx, op, lambda: d.add(x))
            if how is None:
                return
        elif r < 0.7:
            op = "remove"
            if rng.random() < 0.3 and model:
                q = rng.choice(sorted(model, key=repr))
                x, kind = tuple(u.quad(q)), "plain tuple"
            elif rng.random() < 0.5:
                if q in model:
                    continue
                x, kind = u.quad(q), "absent"
            else:
                x, kind = wrong(rng, u, True)
            how = fails(ctx, op, lambda: d.remove(x))
            if how is None:
                ctx.expect(kind == "plain tuple", lambda: "removing %s raised nothing" % kind)
                y = tuple(None if t is None else u.reader.term(t) for t in x)
                if len(y) != 4 or y not in model:
                    return
                model.discard(y)
        elif r < 0.82:
            op = "addAll"
            new = [rand() for _ in range(rng.choice([1, 3, 6]))]
            k = rng.randrange(len(new) + 1)
            items = [u.quad(s) for s in new]
            if rng.random() < 0.6:
                arg, kind = faulty(items, k, exc), "iterator raises"
            else:
                bad, kind = wrong(rng, u, True)
                arg = items[:k] + [bad] + items[k:]
            how = fails(ctx, op, lambda: d.addAll(arg))
            if how is None:
                return
            model = prefix(ctx, set(u.reader.stmts(d)), model, new[:k], how)
        elif r < 0.9:
            op, kind = "remove_graph", rng.choice(["absent", "graph without name"])
            x = NamedNode("http://nobody.example/") if kind == "absent" else Graph()
            if kind != "absent" and None in u.names:
                continue  # a graph without name names the default graph
            how = fails(ctx, op, lambda: d.remove_graph(x))
            ctx.expect(how, "removing a graph that is not there raised nothing")
        else:
            op, kind = "add_graph", "without name"
            g = Graph()
            g.add(u.triple(u.rand_triple()))
            how = fails(ctx, op, lambda: d.add_graph(g))
            ctx.expect(how, "adding a graph without name raised nothing")
            ctx.expect(len(g) == 1 and g.uri is None, "a graph that was refused has changed")
        ctx.ev("fault:dataset")
        look("data set after %s of %s raised %s" % (op, kind, how))
        ctx.sig("dataset", op, kind, how, min(len(model), 5))
    if rng.random() < 0.3:
        w = BadWriter(rng.randrange(4), Boom)
        try:
            serialize_nquads(d, io.StringIO())
        except Exception:
            return
        fails(ctx, "writer", lambda: serialize_nquads(d, w))
        look("data set after a writer failed")


def resources(ctx, rng):
    room = res.Room(ctx)
    for _ in range(rng.choice([4, 8])):
        p = rng.choice(room.busy)
        flt = room.filter()
        key = room.key(p, flt)
        exc = rng.choice([Boom, Halt])
        bad = rng.choice([[[]], [Literal("x"), {}], ["x", Part()], {"x": 1}, faulty(["a", "b"], 1, exc), [Literal("x", "de"), Literal("x", None, NamedNode("http://nobody.example/dt")), NamedNode("http://nobody.example/n")],
                          ["a", "b", ["c"]], Part(), NamedNode, (x for x in "ab"), b"bytes", [None], Ellipsis, slice(1), {1, "a", None}])
        before = set(room.graph)
        op = rng.choice(["assign", "assign", "assign", "delete", "read", "bad key", "new", "copy"])
        if op == "assign":
            how = fails(ctx, op, lambda: room.res.__setitem__(key, bad))
        elif op == "delete":
            how = fails(ctx, op, lambda: room.res.__delitem__(rng.choice([("http://e/p", 5, 6, 7), (), None, 5, ("nobody:x", "en"), [1]])))
        elif op == "read":
            how = fails(ctx, op, lambda: room.res.get_scalar(key))
        elif op == "bad key":
            how = fails(ctx, op, lambda: room.res.__setitem__(rng.choice([(), None, 5, ("nobody-knows:x", "en"), [1], ("a", "b", "c", "d", "e")]), "v"))
        elif op == "new":
            how = fails(ctx, op, lambda: rng.choice([res.Person, res.Student]).new(room.graph, rng.choice([[], {}, Part(), 5])))
        else:
            how = fails(ctx, op, lambda: room.res.copy(rng.choice([[], {}])))
        ctx.ev("resource steps")
        if how is None:  # accepted: other properties say what it must have done
            return
        ctx.ev("fault:assign")
        ctx.expect(set(room.graph) == before and len(room.graph) == len(before), lambda: "%s of %r by key %r raised %s but changed the graph\n-- lost: %r\n-- new: %r" % (op, bad, key, how, before - set(room.graph), set(room.graph) - before))
        room.see("%s that raised %s" % (op, how))
        ctx.sig("resource", op, flt[0], type(bad).__name__, how)


def names(ctx, rng):
    """Profiles: refused names, refused imports."""
    pr = rng.choice([lambda: Profile(PrefixMap(), TermMap()), lambda: RDFEnvironment(PrefixMap(), TermMap())])()
    for k in range(3):
        pr.setPrefix("p%d" % k, "http://ns.example/%d#" % k)
        pr.setTerm("t%d" % k, "http://ns.example/term%d" % k)
    if rng.random() < 0.5:
        pr.setDefaultVocabulary("http://vocab.example/")
    if rng.random() < 0.5:
        pr.setDefaultPrefix("http://prefix.example/")
    view = lambda: (list(pr.prefixes.items()), sorted(pr.terms.items()), [show(pr, n) for n in ("p0:x", "p1:y", ":z", "t0", "other", "q:x")])
    before = view()

    class BadMap(dict):
        def items(self):
            raise Boom("planned")

        def __iter__(self):
            raise Boom("planned")

        keys = __iter__

    def labels():
        yield from ["_:x"][:rng.randrange(2)]
        raise Boom("planned")

    for _ in range(6):
        base = rng.choice([None, "http://ns.example/", "http://ns.example/0#"])
        bad = gr()
        bad.add(Triple(NamedNode("http://ns.example/0#s"), NamedNode("http://ns.example/0#q"), rng.choice([7, None, Boom])))
        op, f = rng.choice([
            ("resolve", lambda: pr.resolve("nobody-knows:x")), ("prefix resolve", lambda: pr.prefixes.resolve("nobody-knows:x")), ("resolve nothing", lambda: pr.resolve(None)), ("resolve number", lambda: pr.resolve(7)),
            ("import nothing", lambda: pr.importProfile(None)), ("import number", lambda: pr.importProfile(7, True)), ("prefixes from nothing", lambda: pr.prefixes.addAll(None)), ("terms from nothing", lambda: pr.terms.addAll(None, True)),
            ("prefixes from failing", lambda: pr.prefixes.addAll(BadMap(), rng.random() < 0.5)), ("terms from failing", lambda: pr.terms.addAll(BadMap(), rng.random() < 0.5)), ("shrink nothing", lambda: pr.prefixes.shrink(None)), ("unhashable prefix", lambda: pr.setPrefix([], "http://e/")), ("unhashable term", lambda: pr.setTerm([], "http://e/")),
            ("write with it", lambda: serialize_turtle(gr(), BadWriter(rng.randrange(3), Boom), base=base, profile=pr)), ("write with bad labels", lambda: serialize_turtle(gr(), io.StringIO(), base=base, profile=pr, bnode_name_generator=labels)),
            ("write bad graph", lambda: serialize_turtle(bad, io.StringIO(), base=base, profile=pr)), ("write bad graph", lambda: serialize_turtle(None, io.StringIO(), base=base, profile=pr)),
        ])
        how = fails(ctx, op, f)
        if how is None:
            continue
        ctx.ev("fault:names")
        ctx.same(view(), before, "prefixes and terms after %s raised %s" % (op, how))
        ctx.sig("names", op, how)


def gr():
    g = Graph()
    for k in range(3):
        g.add(Triple(NamedNode("http://ns.example/%d#s" % k), NamedNode("http://ns.example/0#p"), BlankNode()))
    return g


def show(pr, n):
    try:
        return str(pr.resolve(n))
    except Exception as e:
        return type(e).__name__


def case(ctx, i):
    rng = ctx.rng
    r = i % 6
    if r < 3:
        graphs(ctx, rng)
    elif r == 3:
        datasets(ctx, rng)
    elif r == 4:
        resources(ctx, rng)
    else:
        names(ctx, rng)


FIXED = []
SWEEPS = []
