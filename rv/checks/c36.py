"""C36: what no thread changes, any number of threads may use."""
import io
import os
from collections import Counter

from pymantic.primitives import BlankNode, Dataset, Graph, Literal, NamedNode, PrefixMap, Profile, Quad, RDFEnvironment, TermMap, Triple
from pymantic.rdf import List, Resource, register_class
from pymantic.serializers import serialize_nquads, serialize_ntriples, serialize_turtle
from pymantic.util import normalize_iri, quote_normalized_iri, smart_urljoin

import pymantic
from rv import gen, res, sched
from rv.model import RDFNS, B, I, L
from rv.pm import Maker

RULE = "distinct thread schedules (sequence of preemption points at source-line granularity) and distinct multisets of operations run at once"
ASSUMES = ["preemption at source lines of pymantic (scheduled runs), anywhere in free-running stress", "the threads' results are judged against the same operations alone on an equal graph built apart"]
COUNT = {"quick": 1000, "thorough": 9000}
MIN_EVENTS = {"oracle:evaluations": 8000, "scheduled runs": 150, "free runs": 25, "switches": 5000, "ops:match": 800, "ops:list": 300, "ops:resource": 600, "ops:classify": 250, "ops:members": 80, "ops:write": 200, "ops:dataset": 200, "ops:names": 200, "ops:own": 250, "ops:copy": 80, "blank nodes made": 1500}
SRC = os.path.dirname(os.path.abspath(pymantic.__file__)) + os.sep
F, R, NIL, TYPE = (I(RDFNS + x) for x in ("first", "rest", "nil", "type"))
ABSENT = [I("http://absent.example/%d" % k) for k in range(6)]


def plan_world(rng, kinds):
    """Statements (ordered) and a shared Maker: typed resources, lists, and anything."""
    subs = [I("http://nodes.example/%d" % k) for k in range(4)] + [B("r%d" % k) for k in range(4)]
    st = set()
    for s in subs:
        for p in rng.sample(res.PREDS, rng.randrange(1, 5)):
            for _ in range(rng.choice([1, 1, 2, 4])):
                r = rng.random()
                o = rng.choice(subs) if r < 0.4 else L("v%d" % rng.randrange(4), rng.choice(res.LANGS)) if r < 0.6 else L(str(rng.randrange(4)), None, rng.choice(res.DTS)) if r < 0.8 else L("t%d" % rng.randrange(3))
                st.add((s, I(p), o))
        for t in rng.sample(kinds, rng.choice([0, 1, 2, 2, 3, 4])):
            st.add((s, TYPE, I(t)))
    heads = []
    for j in range(2):
        n = rng.choice([0, 1, 3])
        cells = [B("c%d.%d" % (j, k)) for k in range(n)] + [NIL]
        for k in range(n):
            st |= {(cells[k], F, rng.choice(subs + [L("m%d" % k)])), (cells[k], R, cells[k + 1])}
        st.add((rng.choice(subs), I(res.EX + "list"), cells[0]))
        heads.append(cells[0])
    st |= gen.graph(rng, n=rng.choice([0, 4, 12]))
    return gen.shuffled(rng, st), subs, heads


class World:
    """One set of shared objects; worlds of one plan are equal and share their terms."""

    def __init__(self, plan, maker, names):
        st, self.subs, self.heads = plan
        self.m = maker
        self.g = Graph("http://e/g")
        self.d = Dataset()
        for k, s in enumerate(st):
            self.g.add(maker.triple(s))
            self.d.add(maker.quad(s + ([None, I("http://e/g1"), I("http://e/g2")][k % 3],)))
        self.profile = Profile(PrefixMap(), TermMap())
        self.env = RDFEnvironment(PrefixMap(), TermMap())
        for p, ns in names:
            self.profile.setPrefix(p, ns)
            self.env.setPrefix(p, ns)
            self.env.setTerm("t" + p, ns + "term")
            self.profile.setTerm("t" + p, ns + "term")


def nodes(back, it):
    return Counter(term(back, x) for x in it)


def term(back, x):
    if isinstance(x, Resource):
        return ("resource", type(x).__name__, term(back, x.subject))
    if isinstance(x, BlankNode):
        return back.get(id(x), ("B?", "unknown"))
    if isinstance(x, Literal):
        return ("L", x.value, x.language, x.datatype and str(x.datatype))
    if x is None:
        return None
    return ("I", str(x))


def stmts(back, it):
    return Counter(tuple(term(back, t) for t in s) for s in it)


def attempt(f):
    try:
        return f()
    except (ValueError, KeyError) as e:
        return ("raised", type(e).__name__)


# every operation: chosen by rng from the plan, then run on a world, giving plain data

def op_match(rng, plan, back):
    st = plan[0]
    s = rng.choice(st) if st and rng.random() < 0.7 else (rng.choice(ABSENT), rng.choice(ABSENT), rng.choice(ABSENT))
    s = tuple(rng.choice(ABSENT) if rng.random() < 0.25 else t for t in s)
    pat = [t if rng.random() < 0.5 else None for t in s]
    lazy = rng.random() < 0.3

    def f(w):
        args = [None if t is None else w.m.term(t) for t in pat]
        it = w.g.match(*args)
        if lazy:  # another look while the first is under way
            it = iter(it)
            head = [x for _, x in zip(range(1), it)]
            inner = stmts(back, w.g.match(*args))
            return inner, stmts(back, head + list(it)), w.m.triple(s) in w.g
        return stmts(back, it), w.m.triple(s) in w.g
    return "match", f


def op_list(rng, plan, back):
    k = rng.randrange(6)
    return "list", lambda w: [lambda: nodes(back, w.g.subjects()), lambda: nodes(back, w.g.predicates()), lambda: nodes(back, w.g.objects()), lambda: stmts(back, w.g), lambda: stmts(back, w.g.toArray()), lambda: len(w.g)][k]()


def op_resource(rng, plan, back):
    s = rng.choice(plan[1])
    cls = rng.choice(res.CLASSES)
    p = rng.choice(res.PREDS + [RDFNS + "type", "http://absent.example/p"])
    key = rng.choice([p, p, (p, None), (p, rng.choice(res.LANGS)), (p, NamedNode(rng.choice(res.DTS))), (p, rng.choice(res.CLASSES))])
    kind = rng.randrange(6)

    def f(w):
        r = cls(w.g, w.m.term(s))

        def get():
            v = r[key]
            return nodes(back, v) if not isinstance(v, (Literal, Resource, type(None))) else term(back, v)
        return [lambda: attempt(get), lambda: attempt(lambda: term(back, r.get_scalar(key))), lambda: key in r, lambda: Counter((str(a), term(back, b)) for a, b in r),
                lambda: attempt(lambda: str(r)), lambda: (nodes(back, r.objects(NamedNode(p))), nodes(back, r.objects_by_lang(NamedNode(p))), nodes(back, r.objects_by_type(NamedNode(p))), r.is_a())][kind]()
    return "resource", f


def op_members(rng, plan, back):
    h = rng.choice(plan[2])
    return "members", lambda w: (Counter(enumerate(term(back, x) for x in List(w.g, w.m.term(h)))), List.is_list(w.m.term(h), w.g))


def op_write(rng, plan, back):
    k = rng.randrange(4)

    def f(w):
        out = io.StringIO()
        if k == 0:
            serialize_ntriples(w.g, out)
        elif k == 1:
            serialize_nquads(w.d, out)
        else:
            serialize_turtle(w.g, out, profile=w.profile if k == 2 else None, base="http://e/" if k == 3 else None)
        return out.getvalue() if k > 1 else Counter(out.getvalue().split("\n"))
    return "write", f


def op_dataset(rng, plan, back):
    s = rng.choice(plan[0])
    pat = [t if rng.random() < 0.4 else None for t in s]
    g = rng.choice([None, "http://e/g1", "http://e/g2", "http://absent.example/g"])

    def f(w):
        args = [None if t is None else w.m.term(t) for t in pat]
        return (stmts(back, w.d.match(*args, graph=None if g is None else NamedNode(g))), len(w.d), stmts(back, w.d), Quad(*map(w.m.term, s), None if g is None else NamedNode(g)) in w.d,
                Counter((str(x.uri), len(x)) for x in w.d.graphs))
    return "dataset", f


def op_names(rng, plan, back):
    names = rng.sample(["p:a", "q:b", "r:c", "tp", "tq", "nobody:x", "nobody", ":z", "http://ns.example/p#local"], 4)
    iris = rng.sample(["http://ns.example/p#x", "http://ns.example/q/y", "http://ns.example/q/term", "http://elsewhere.example/z", "http://ns.example/", "http://caf\u00e9.example/%C3%A9%2f"], 3)

    def f(w):
        out = []
        for pr in (w.profile, w.env, w.env.createProfile()):
            out += [attempt(lambda: pr.resolve(n)) for n in names]
            out += [attempt(lambda: pr.prefixes.resolve(n)) for n in names]
            out += [pr.prefixes.shrink(NamedNode(x)) for x in iris] + [attempt(lambda: pr.terms.shrink(NamedNode(x))) for x in iris]
        out += [sorted(w.env.createPrefixMap().items()), sorted(w.env.createTermMap().items())]
        out += [attempt(lambda: res.Student.resolve(n)) for n in ("ex:a", "rdfs:label", "xsd:integer")]
        out += [(normalize_iri(x), quote_normalized_iri(normalize_iri(x)), smart_urljoin(x, "../b?c#d")) for x in iris]
        return [None if x is None else x if isinstance(x, (tuple, list)) else str(x) for x in out]
    return "names", f


def op_copy(rng, plan, back):
    k = rng.randrange(5)

    def f(w):
        g = Graph()
        if k == 0:
            g.addAll(w.g)
        elif k == 1:
            g = g.merge(w.g)
        elif k == 2:
            g = w.env.createGraph(w.g)
        elif k == 3:
            g.addAll(w.g.match(w.m.term(plan[1][0])))
        else:
            g = Dataset()
            g.addAll(w.d)
        return stmts(back, g)
    return "copy", f


def op_own(rng, plan, back):
    """A graph or data set of the thread's own, about the shared terms."""
    st = plan[0]
    ops = [(rng.random() < 0.6, rng.choice(st)) for _ in range(rng.choice([6, 15]))]
    ds = rng.random() < 0.4
    s0, p0 = rng.choice(plan[1]), res.EX + rng.choice(["many", "mine"])

    def f(w):
        g = Dataset() if ds else Graph()
        have = set()
        seen = []
        for add, s in ops:
            x = w.m.quad(s + (I("http://e/own"),)) if ds else w.m.triple(s)
            if add:
                g.add(x)
                have.add(x)
            elif x in have:
                g.remove(x)
                have.discard(x)
            seen.append((len(g), x in g))
        if not ds:
            r = Resource(g, w.m.term(s0))
            r[p0] = {"one", "two"}
            r[p0] = {"three"}
            seen.append(nodes(back, r.objects(NamedNode(p0))))
            res.Person.new(g, "http://nodes.example/new")
            seen.append(len(res.Person.in_graph(g)))
        return seen, stmts(back, g)
    return "own", f


OPS = [op_match] * 4 + [op_list] * 2 + [op_resource] * 4 + [op_members, op_write, op_write, op_dataset, op_names, op_copy, op_own, op_own]


def fresh_classes(ctx):
    """Registered classes no one has combined yet."""
    ns = "http://types.example/c36/" + ctx.label.replace(":", "/") + "/"
    out = {}
    for k in range(4):
        c = type(Resource)("Fresh%d" % k, (Resource,), {"prefixes": {"fr": ns}})
        register_class("fr:k%d" % k)(c)
        out[ns + "k%d" % k] = c
    return out


def case(ctx, i):
    rng = ctx.rng
    free = i % 6 == 5
    fresh = fresh_classes(ctx)
    kinds = list(fresh) + list(res.REGISTERED)[:1] + ["http://types.example/unregistered"]
    plan = plan_world(rng, kinds)
    m = Maker()
    for s in plan[0]:
        m.triple(s)
    for t in ABSENT + plan[1] + plan[2]:
        m.term(t)
    back = {id(n): t for t, n in m.b.items()}
    names = [("p", "http://ns.example/p#"), ("q", "http://ns.example/q/"), ("r", "http://ns.example/")]
    shared, twin = World(plan, m, names), World(plan, m, names)
    n = rng.choice([2, 2, 3, 4]) if not free else rng.choice([4, 8])
    progs = []
    same = [rng.choice(OPS)(rng, plan, back) for _ in range(3)] if rng.random() < 0.4 else None
    storm = rng.random() < 0.2  # everybody classifies
    for k in range(n):
        prog = []
        for _ in range(rng.choice([2, 4, 6])):
            r = rng.random()
            if r < 0.12 or storm and r < 0.9:
                prog.append(("classify", rng.choice(plan[1])))
            elif r < 0.2:
                prog.append(("blank", None))
            elif same and r < 0.6:
                prog.append(rng.choice(same))
            else:
                prog.append(rng.choice(OPS)(rng, plan, back))
        progs.append(prog * (6 if free else 1))
    want = {}

    def expect(op):
        if op not in want:
            want[op] = op[1](twin)

    early = rng.random() < 0.5
    if early:
        for pr in progs:
            for op in pr:
                if callable(op[1]):
                    expect(op)
    s = None if free else sched.Sched(rng, [SRC], rng.choice([0.005, 0.02, 0.1, 0.4]))

    def make(prog):
        def go():
            out = []
            for kind, arg in prog:
                if kind == "blank":
                    b = [shared.env.createBlankNode() for _ in range(20)]
                    out.append((b, [str(x) for x in b], [x.toNT() for x in b]))
                elif kind == "classify":
                    x = Resource.classify(shared.g, m.term(arg))
                    new = type(x).new(Graph(), "http://nodes.example/new") if hasattr(type(x), "rdf_classes") else None
                    out.append((x, getattr(type(x), "rdf_classes", None), new and {str(t.object) for t in new.graph}))
                else:
                    out.append(arg(shared))
            return out
        return go

    ctx.log("programs", [[k for k, _ in p] for p in progs])
    fns = [make(p) for p in progs]
    out, stuck = sched.free_run(fns) if free else s.run(fns)
    if stuck:
        ctx.stuck("threads %r never finished" % stuck)
    what = "free-running threads" if free else "interleaved threads"
    made, types = [], {}
    for k, (val, exc) in enumerate(out):
        if exc is not None:
            import traceback
            ctx.fail("%s: using shared data raised %s: %s\n%s" % (what, type(exc).__name__, exc, "".join(traceback.format_exception(exc))[-1800:]))
        for (kind, arg), got in zip(progs[k], val):
            ctx.ev("ops:" + kind)
            if kind == "blank":
                made += got[0]
                ctx.ev("blank nodes made", len(got[0]))
                ctx.expect(got[1] == [str(x) for x in got[0]] == got[2], "the label of a blank node changed")
            elif kind == "classify":
                x, rdf_classes, new = got
                mine = {o[1] for a, p, o in plan[0] if a == arg and p == TYPE}
                reg = {t: c for t, c in list(fresh.items()) + list(res.REGISTERED.items()) if t in mine}
                for c in list(fresh.values()) + [res.Person]:
                    ctx.expect(isinstance(x, c) == (c in reg.values()), lambda: "%s: a node of classes %r was instantiated as %r" % (what, sorted(mine), type(x).__mro__))
                ctx.same({str(t) for t in rdf_classes or ()}, set(reg), "%s: classes of the type made for %r" % (what, sorted(mine)))
                if reg:
                    ctx.same(new, set(reg), "%s: types given to a new instance of the type made for %r" % (what, sorted(mine)))
                types.setdefault(frozenset(reg), set()).add(type(x))
            else:
                expect((kind, arg))
                ctx.expect(got == want[(kind, arg)], lambda: "%s: %s gave another result than alone\n-- alone: %r\n-- here:  %r" % (what, kind, str(want[(kind, arg)])[:1500], str(got)[:1500]))
    for reg, ts in types.items():
        ctx.expect(len(ts) == 1, lambda: "%s: nodes of the classes %r were instantiated as different types %r" % (what, sorted(reg), ts))
    ctx.expect(len({id(x) for x in made}) == len(made) == len({str(x) for x in made}), "blank nodes made by several threads coincide")
    ctx.same(stmts(back, shared.g), Counter(plan[0]), "%s: statements of the shared graph afterwards" % what)
    for x in (shared.profile, shared.env):
        ctx.same({k: str(v) for k, v in x.prefixes.items() if k in "pqr"}, dict(names), "prefixes afterwards")
    ctx.same(len(shared.d), len(plan[0]), "quads of the shared data set afterwards")
    if free:
        ctx.ev("free runs")
        ctx.sig("free", n, [[k for k, _ in p] for p in progs])
    else:
        ctx.ev("scheduled runs")
        ctx.ev("switches", s.switches)
        ctx.ev("preemption points", s.steps)
        ctx.ev("stalls", s.stalls)
        ctx.sig("schedule", s.schedule)
    ctx.sample([[k for k, _ in p] for p in progs])


FIXED = []
SWEEPS = []
