"""C28: differences and change sets over rdflib graphs, judged by set algebra over reference statements."""
import datetime

import rdflib

from pymantic.sparql import changeset, differences

from rv import gen, rdfl
from rv.model import I, L, XSD, show

RULE = "distinct (sizes of both one-sided parts and of the shared part, kinds of terms, form of the exclusion list, kind of graph objects) cases"
ASSUMES = ["rdflib graphs hold and list sets of statements; language tags in lower case (rdflib compares them without case)"]
COUNT = {"quick": 16000, "thorough": 120000}
MIN_EVENTS = {"oracle:evaluations": 40000, "differences": 5000, "changesets": 2000, "excluded statements": 500, "one-sided statements": 8000, "shared statements": 5000, "reified statements": 6000, "applied": 3000}
CS = "http://purl.org/vocab/changeset/schema#"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"


def lower(s):
    return tuple(("L", t[1], t[2].lower(), t[3]) if t[0] == "L" and t[2] else t for t in s)


def near(rng, s):
    """A statement easily taken for s."""
    a, p, o = s
    r = rng.random()
    if r < 0.2:
        return (a, rng.choice([I(p[1] + "x"), I(p[1][:-1]), I(p[1] + "#")]), o)
    if r < 0.3 and o[0] != "L":
        return (o, p, a)
    if o[0] == "L":
        v = o[1]
        return (a, p, rng.choice([L(v), L(v, "en"), L(v, "fr"), L(v, "en-us"), L(v, None, XSD + "string"), L(v, None, XSD + "integer"), L(v, None, "http://e/dt"), L(v + " "), L(v.upper()), L("0" + v, None, XSD + "integer"), I("http://e/" + "x" * len(v))]))
    if o[0] == "I":
        return (a, p, rng.choice([L(o[1]), I(o[1] + "/"), L(o[1], None, XSD + "anyURI")]))
    return (a, p, L(o[1]))


def pair(rng):
    base = {lower(s) for s in (gen.graph(rng, rng.choice([0, 1, 3, 6, 12, 25])) if rng.random() < 0.6 else rdfl.tame(rng))}
    extra = {near(rng, s) for s in base if rng.random() < 0.4}
    allst = gen.shuffled(rng, base | extra)
    r = rng.random()
    if r < 0.1:
        a, b = set(allst), set(allst)
    elif r < 0.2:
        a, b = set(), set(allst)
    elif r < 0.3:
        a, b = set(allst), set()
    elif r < 0.4:
        k = rng.randrange(len(allst) + 1)
        a, b = set(allst[:k]), set(allst[k:])
    elif r < 0.5:
        b = {s for s in allst if rng.random() < 0.5}
        a = set(allst) if rng.random() < 0.5 else set(list(b)[: len(b) // 2])
    else:
        a = {s for s in allst if rng.random() < 0.7}
        b = {s for s in allst if rng.random() < 0.7}
    return a, b


def plain(ts):
    return {tuple(rdfl.of(t) for t in s) for s in ts}


def case(ctx, i):
    rng = ctx.rng
    bn = {}
    ra, rb = pair(rng)
    ca, cb = rng.choice([(rdflib.Graph,) * 2, (rdflib.Graph,) * 2, (rdflib.ConjunctiveGraph,) * 2, (rdflib.Graph, rdflib.ConjunctiveGraph)])
    a, b = rdfl.graph(ra, bn, ca), rdfl.graph(rb, bn, cb)
    if rng.random() < 0.05:
        b = a
    A, B = set(a.triples((None, None, None))), set(b.triples((None, None, None)))
    preds = sorted({s[1] for s in A | B})
    for _ in range(2):
        form = rng.choice(["none", "none", "str", "URIRef", "tuple", "empty", "keyword", "set"])
        ex = []
        if form not in ("none", "empty"):
            ex = [p for p in preds if rng.random() < 0.4]
            ex += rng.choice([[], ["http://nobody.example/p"], [RDF + "type"], [str(p)[:-1] for p in preds[:1]], [str(p) + "x" for p in preds[:1]]])
            ex = [str(p) if form == "str" or rng.random() < 0.3 else rdflib.URIRef(p) for p in ex]
        names = {str(x) for x in ex}
        arg = tuple(ex) if form == "tuple" else set(ex) if form == "set" else ex
        ctx.ev("differences")
        if form == "none":
            got = ctx.call("differences", differences, a, b)
        elif form == "keyword":
            got = ctx.call("differences", differences, a, b, exclude=arg)
        else:
            got = ctx.call("differences", differences, a, b, arg)
        rem, add = got
        rem, add = list(rem), list(add)
        for what, lst, want in (("removals", rem, {s for s in A - B if str(s[1]) not in names}), ("additions", add, {s for s in B - A if str(s[1]) not in names})):
            ctx.ev("one-sided statements", len(want))
            ctx.expect(len(lst) == len(set(lst)), lambda: "a statement is listed twice among the %s" % what)
            ctx.expect(all(len(s) == 3 for s in lst), lambda: "%s are not statements" % what)
            ctx.expect(plain(lst) == plain(want) and set(map(tuple, lst)) == want, lambda: "%s (excluding %r)\n-- unexpected:\n%s\n-- missing:\n%s" % (what, sorted(names), show(plain(lst) - plain(want)), show(plain(want) - plain(lst))))
        ctx.ev("excluded statements", len([s for s in A ^ B if str(s[1]) in names]))
        ctx.ev("shared statements", len(A & B))
        ctx.expect(set(a.triples((None, None, None))) == A and set(b.triples((None, None, None))) == B, "differences changed its inputs")
        ctx.expect(arg == (tuple(ex) if form == "tuple" else set(ex) if form == "set" else ex), "the exclusion list was changed")
        if not names:
            ctx.ev("applied")
            c = rdflib.Graph()
            for s in A:
                c.add(s)
            for s in rem:
                c.remove(s)
            for s in add:
                c.add(s)
            ctx.expect(set(c) == B, "removing and adding the differences does not give the second graph")
        ctx.sig(min(len(A - B), 4), min(len(B - A), 4), min(len(A & B), 3), form, len(names), ca.__name__, cb.__name__, len({t[0] for s in ra | rb for t in s}))
    # change set
    uri = rng.choice(["http://example.org/g", "urn:g:1", "http://example.org/caf\u00e9", gen.iri(rng)])
    ctx.ev("changesets")
    slack = datetime.timedelta(seconds=5)
    t0 = datetime.datetime.now(datetime.timezone.utc)
    g = ctx.call("changeset", changeset, a, b, uri if rng.random() < 0.7 else rdflib.URIRef(uri))
    ctx.expect(set(a.triples((None, None, None))) == A and set(b.triples((None, None, None))) == B, "changeset changed its inputs")
    U = rdflib.URIRef
    change = list(g.subjects(U(RDF + "type"), U(CS + "ChangeSet")))
    ctx.same(len(change), 1, "number of change sets described")
    c = change[0]
    ctx.same(list(g.objects(c, U(CS + "subjectOfChange"))), [U(uri)], "subject of the change")
    ctx.same(set(g.subjects(U(CS + "subjectOfChange"), None)), {c}, "things said to have a subject of change")
    when = list(g.objects(c, U(CS + "createdDate")))
    ctx.same(len(when), 1, "dates of the change")
    try:
        d = datetime.datetime.fromisoformat(str(when[0]))
        ctx.expect(d.tzinfo is not None and t0 - slack <= d <= datetime.datetime.now(datetime.timezone.utc) + slack, lambda: "the change is dated %s" % when[0])
    except ValueError:
        ctx.expect(False, lambda: "the change is dated %r" % when[0])
    used = {c}
    told = set()
    for pred, want in ((CS + "removal", A - B), (CS + "addition", B - A)):
        ctx.same(set(g.subjects(U(pred), None)) - {c}, set(), "%s of something else than the change" % pred)
        nodes = list(g.objects(c, U(pred)))
        seen = []
        for n in nodes:
            ctx.ev("reified statements")
            ctx.expect(n not in used, "a statement node is used twice")
            used.add(n)
            parts = []
            for part in ("subject", "predicate", "object"):
                vs = list(g.objects(n, U(RDF + part)))
                ctx.same(len(vs), 1, "values of rdf:%s of a described statement" % part)
                parts.append(vs[0])
            ctx.expect((n, U(RDF + "type"), U(RDF + "Statement")) in g, "a described statement is not an rdf:Statement")
            ctx.same(len(list(g.triples((n, None, None)))), 4, "facts about a described statement")
            seen.append(tuple(parts))
        ctx.expect(len(seen) == len(set(seen)), lambda: "a statement is described twice as %s" % pred)
        ctx.expect(set(seen) == want and plain(seen) == plain(want), lambda: "%s\n-- unexpected:\n%s\n-- missing:\n%s" % (pred, show(plain(seen) - plain(want)), show(plain(want) - plain(seen))))
    for n in g.subjects(None, None):
        ctx.expect(n in used, lambda: "the change set says something about %r" % n)
    data = {t for s in A | B for t in s}
    ctx.expect(not used & data, "the description reuses a node of the data")
    ctx.sample((show(plain(A - B)), show(plain(B - A)), uri))


def twice(ctx):
    """Calls do not remember one another."""
    U = rdflib.URIRef
    a, b = rdflib.Graph(), rdflib.Graph()
    s1, s2 = (U("a:s"), U("a:p"), U("a:o")), (U("a:s"), U("a:q"), rdflib.Literal("1"))
    a.add(s1)
    b.add(s2)
    for _ in range(3):
        ctx.same(tuple(map(list, differences(a, b))), ([s1], [s2]), "differences")
        ctx.same(tuple(map(list, differences(a, b, ["a:p"]))), ([], [s2]), "differences without a:p")
        ctx.same(tuple(map(list, differences(a, b, [U("a:q")]))), ([s1], []), "differences without a:q")
        ctx.same(tuple(map(list, differences(b, a))), ([s2], [s1]), "differences the other way")
    g = [changeset(a, b, "a:g") for _ in range(3)]
    ctx.expect(all(len(x) == len(g[0]) for x in g), "change sets grow")


def bulk(ctx, key):
    """Large graphs and long exclusion lists."""
    na, nb, shared = key
    U = rdflib.URIRef
    a, b = rdflib.Graph(), rdflib.Graph()
    mk = lambda side, k: (U("a:s%d" % (k % 100)), U("a:p%d" % (k % 40)) if k % 7 else U(RDF + "type"), rdflib.Literal("%s%d" % (side, k)) if k % 5 else U("a:%s%d" % (side, k)))
    A = {mk("a", k) for k in range(na)}
    B_ = {mk("b", k) for k in range(nb)}
    S = {mk("s", k) for k in range(shared)}
    for s in A | S:
        a.add(s)
    for s in B_ | S:
        b.add(s)
    for ex in ([], ["a:p%d" % k for k in range(0, 40, 2)], ["a:p%d" % k for k in range(40)]):
        rem, add = ctx.call("differences", differences, a, b, ex)
        ctx.expect(len(rem) == len(set(rem)) and set(rem) == {s for s in A if str(s[1]) not in ex}, "removals between large graphs, %d predicates excluded" % len(ex))
        ctx.expect(len(add) == len(set(add)) and set(add) == {s for s in B_ if str(s[1]) not in ex}, "additions between large graphs, %d predicates excluded" % len(ex))
        ctx.ev("differences")
    g = ctx.call("changeset", changeset, a, b, "a:g")
    for pred, want in ((CS + "removal", A), (CS + "addition", B_)):
        seen = [tuple(g.value(n, U(RDF + x)) for x in ("subject", "predicate", "object")) for n in g.objects(None, U(pred))]
        ctx.expect(len(seen) == len(set(seen)) and set(seen) == want, "%s in a large change set" % pred)
    ctx.ev("changesets")
    ctx.expect(set(a) == A | S and set(b) == B_ | S, "the graphs changed")
    ctx.sig("bulk", key)


bulk.keys = lambda tier: [(k, k + 3, k) for k in (20, 45, 70, 130, 300)] + [(1500, 0, 0), (0, 1500, 10), (1100, 1100, 1100), (5, 5, 3000)] + ([(8000, 7000, 9000)] if tier == "thorough" else [])
SWEEPS = [bulk]
FIXED = [twice]
