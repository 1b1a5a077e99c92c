"""C12: Turtle output parses back, here and elsewhere, to the same graph."""
import io
import itertools
import re

import rdflib

from pymantic.primitives import BlankNode, Graph, Literal, NamedNode, PrefixMap, Profile, TermMap, Triple
from pymantic.serializers import serialize_turtle

from rv import gen, ttl
from rv.checks.c10 import parse
from rv.lines import Sink, alike, features, make
from rv.model import RDFNS, XSD, B, I, L, isomorphic, map_terms, merge_string, show
from rv.pm import Reader

RULE = "distinct (term features, profile shape, base shape, list shapes) combinations serialised and re-read"
ASSUMES = ["legal absolute IRIs (RFC 3987, no DEL), namespaces too", "rdflib as third reader only without a base and with plain IRIs (it resolves references and reads escaped names in ways that depart from the specifications)", "nesting of collections at most 30"]
COUNT = {"quick": 2600, "thorough": 60000}
MIN_EVENTS = {"oracle:evaluations": 4950, "triples": 8000, "read by rdflib": 90, "read by rv.ttl": 850, "lists": 350, "with base": 350, "with profile": 450}
rdflib.NORMALIZE_LITERALS = False
F, R, NIL = I(RDFNS + "first"), I(RDFNS + "rest"), I(RDFNS + "nil")
PREFIXES = ["p", "q", "ex", "", "a", "true", "xsd", "rdf", "x.y", "x-y", "e\u0301", "\u00e9", "b0", "A", "_", "1x", "x.", "base", "prefix", "p:q", "p q", "-"]
NSS = ["http://example.org/", "http://example.org/ns#", "http://example.org/a", "http://example.com/", "http://example.com/ns#l", "urn:", "urn:x:", XSD, RDFNS, "http://", "http://example.org/a/b/", "http://user:pw@h/", "mailto:", "http://e/"]
BASES = ["http://example.org/", "http://example.org/a", "http://example.org/ns#", "http://example.com", "http://example.org/a/b/c", "http://example.org/a#frag", "http://example.org/a?x=1", "http://h//", "urn:x:", "http://e/s", "https://e.x:8080/p/q/"]


def profile(rng, iris):
    pr = Profile(PrefixMap(), TermMap())
    shape = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        p = rng.choice(PREFIXES)
        if iris and rng.random() < 0.6:
            x = rng.choice(iris)
            cut = rng.choice([len(x), len(x), x.rfind("/") + 1, x.rfind("#") + 1, rng.randrange(1, len(x) + 1)])
            ns = x[:cut] or x
            if ":" not in ns or ns.endswith("%") or ns[-2:-1] == "%":
                ns = rng.choice(NSS)
        else:
            ns = rng.choice(NSS)
        pr.setPrefix(p, ns)
        shape.append((p, ns[-1]))
    if rng.random() < 0.3:
        pr.setTerm("term", "http://example.org/term")
    if rng.random() < 0.2:
        pr.setDefaultVocabulary("http://example.org/")
    return pr, sorted(shape)


def conv(g):
    return {tuple(("I", str(t)) if isinstance(t, rdflib.URIRef) else ("B", str(t)) if isinstance(t, rdflib.BNode) else ("L", str(t), t.language, str(t.datatype) if t.datatype is not None else None) for t in s) for s in g}


def low(t):
    """What rdflib keeps of a literal: languages in lower case, numbers by value."""
    if t[0] == "L" and t[3] in (XSD + "integer", XSD + "decimal", XSD + "double"):
        try:
            return ("L", repr(float(t[1])), None, t[3])
        except ValueError:
            return t
    return ("L", t[1], t[2].lower(), t[3]) if t[0] == "L" and t[2] else t


def rdflib_ok(stmts, text):
    """rdflib handles these documents faithfully."""
    if "\x00" in text or "\ufeff" in text:
        return False
    for s in stmts:
        for t in s:
            x = t[1] if t[0] == "I" else t[3] if t[0] == "L" else None
            if x is not None and not re.fullmatch("[A-Za-z0-9:/#_.-]*[A-Za-z0-9/#]", x):
                return False
    return True


def judge(ctx, stmts, base=None, prof=None, rl=True, kw=None):
    g, m = make(ctx, stmts, False)
    before = dict(prof.prefixes) if prof is not None else None
    out = ctx.rng.choice([Sink, io.StringIO])()
    kwargs = dict(kw or {})
    if base is not None:
        kwargs["base"] = base
        ctx.ev("with base")
    if prof is not None:
        kwargs["profile"] = prof
        ctx.ev("with profile")
    ctx.call("serialize_turtle", serialize_turtle, g, out, **kwargs)
    text = out.getvalue()
    ctx.log("output", text)
    want = map_terms(stmts, merge_string)
    note = lambda who, got: "%s reads another graph (base %r, prefixes %r)\n-- output:\n%s\n-- graph:\n%s\n-- read:\n%s" % (who, base, before, text[:3000], show(want)[:3000], show(got)[:3000])
    try:
        got = map_terms(ttl.read(text, ""), merge_string)
    except ttl.TurtleError as e:
        ctx.fail("the output is not valid Turtle: %s\n%s" % (e, text[:3000]), text)
    ctx.ev("read by rv.ttl")
    ctx.expect(isomorphic(got, want), lambda: note("an independent reader", got), text)
    got2 = map_terms(Reader().stmts(parse(ctx, text, form=ctx.rng.choice(["text", "bytes", "text stream"])), ctx, "the parsed graph"), merge_string)
    ctx.expect(isomorphic(got2, want), lambda: note("pymantic", got2), text)
    if rl and base is None and rdflib_ok(stmts, text):
        rg = rdflib.Graph()
        rg.parse(data=text, format="turtle")
        ctx.ev("read by rdflib")
        got3 = map_terms(map_terms(conv(rg), merge_string), low)
        ctx.expect(isomorphic(got3, map_terms(want, low)), lambda: note("rdflib", got3), text)
    # serialising leaves graph and profile alone
    ctx.same(len(g), len(stmts), "length of the graph after serialising")
    ctx.expect(Reader(m).stmts(g) == set(stmts), "serialising changed the graph")
    if prof is not None:
        ctx.same(dict(prof.prefixes), before, "prefixes of the profile after serialising")
    ctx.ev("triples", len(stmts))
    return text


def rand_list(rng, out, tag, head=None, depth=0):
    """Adds a (mostly well-formed) list; returns its head."""
    n = rng.choice([0, 1, 1, 2, 3, 5])
    cells = [B((tag, depth, k)) for k in range(n)]
    nodes = cells + [NIL]
    shape = ["n%d" % min(n, 3)]
    for k, c in enumerate(cells):
        r = rng.random()
        if r < 0.15 and depth < 3:
            o = rand_list(rng, out, (tag, k), None, depth + 1)[0]
        elif r < 0.5:
            o = gen.literal(rng)
        elif r < 0.75:
            o = I(gen.iri(rng))
        elif r < 0.85:
            o = B("b0")
        elif r < 0.9:
            o = NIL
        else:
            o = B((tag, "m", k))
            out.add((o, I("http://e/mp"), gen.literal(rng)))
        out.add((c, F, o))
        out.add((c, R, nodes[k + 1]))
    for c in cells:
        if rng.random() < 0.8:
            continue
        d = rng.choice(["type", "extra", "nofirst", "twofirst", "tworest", "norest", "cycle", "litrest", "shared", "iri rest", "b in pred"])
        shape.append(d)
        if d == "type":
            out.add((c, I(RDFNS + "type"), I(RDFNS + "List")))
        elif d == "extra":
            out.add((c, I("http://e/extra"), gen.literal(rng)))
        elif d == "nofirst":
            out -= {s for s in out if s[0] == c and s[1] == F}
        elif d == "twofirst":
            out.add((c, F, L("second")))
        elif d == "tworest":
            out.add((c, R, rng.choice([NIL, B("other")] + cells)))
        elif d == "norest":
            out -= {s for s in out if s[0] == c and s[1] == R}
        elif d == "cycle":
            out -= {s for s in out if s[0] == cells[-1] and s[1] == R}
            out.add((cells[-1], R, rng.choice(cells)))
        elif d == "litrest":
            out.add((c, R, L("x")))
        elif d == "shared":
            out.add((I("http://e/also"), I("http://e/refers"), c))
        elif d == "iri rest":
            out.add((c, R, I("http://e/rest")))
    return nodes[0], shape


def with_lists(rng, stmts):
    out = set()
    shapes = []
    for j in range(rng.randrange(1, 4)):
        head, sh = rand_list(rng, out, "l%d" % j)
        shapes += sh
        how = rng.choice(["object", "object", "object", "unreferenced", "subject", "twice", "member of cycle", "under bnode"])
        shapes.append(how)
        s = I("http://e/s%d" % j)
        if how == "object":
            out.add((s, I("http://e/list"), head))
        elif how == "subject":
            out.add((head, I("http://e/about"), L("list")))
            if rng.random() < 0.5:
                out.add((s, I("http://e/list"), head))
        elif how == "twice":
            out |= {(s, I("http://e/list"), head), (s, I("http://e/list2"), head)}
        elif how == "under bnode":
            out |= {(B("h%d" % j), I("http://e/list"), head), (s, I("http://e/has"), B("h%d" % j))}
        elif how == "member of cycle" and head != NIL:
            last = [x for x in sorted(out, key=repr) if x[1] == F and x[0][0] == "B" and x[0] != head]
            if last:
                out.add((rng.choice(last)[0], F, head))
            else:
                out = {x for x in out if not (x[0] == head and x[1] == F)} | {(head, F, head)}
    return set(stmts) | out, sorted(set(shapes))


def case(ctx, i):
    rng = ctx.rng
    stmts = gen.graph(rng, n=None if i % 40 else 60, big=i % 20 == 0)
    shapes = []
    if i % 2:
        stmts, shapes = with_lists(rng, stmts if rng.random() < 0.5 else set())
        ctx.ev("lists")
    iris = sorted({t[1] for s in stmts for t in s if t[0] == "I"} | {t[3] for s in stmts for t in s if t[0] == "L" and t[3]})
    prof, pshape, base = None, None, None
    if rng.random() < 0.6:
        prof, pshape = profile(rng, iris)
    if rng.random() < 0.5:
        base = rng.choice(BASES) if rng.random() < 0.6 or not iris else rng.choice(iris)
        if rng.random() < 0.2 and iris:
            x = rng.choice(iris)
            base = x[: rng.randrange(1, len(x) + 1)]
            if "://" not in base[:-1] or base.endswith("%") or base[-2:-1] == "%":
                base = rng.choice(BASES)
    text = judge(ctx, stmts, base, prof)
    if stmts:
        ctx.sig(features(stmts), pshape, base and base[-1], shapes)
    ctx.sample(text)


def locals_(ctx, key):
    """Every ASCII character in first, inner, last and only position of a local name."""
    ns = "http://e/ns#"
    stmts = set()
    for c in range(0x21, 0x7F):
        ch = chr(c)
        if ch in '<>"{}|^`\\':
            continue
        if ch == "%":
            ch = "%41"
        name = {"only": ch, "first": ch + "x", "inner": "x" + ch + "y", "last": "x" + ch, "twice": ch + ch, "inner2": "x" + ch + ch + "y"}[key]
        x = I(ns + name)
        stmts |= {(x, I("http://e/p"), L("s")), (I("http://e/s"), x, L("p")), (I("http://e/s"), I("http://e/p"), x), (I("http://e/s"), I("http://e/p"), L("d", None, x[1]))}
    pr = Profile()
    pr.setPrefix("n", ns)
    judge(ctx, stmts, None, pr)
    pr2 = Profile()
    pr2.setPrefix("", ns)
    judge(ctx, stmts, ns, pr2)
    judge(ctx, stmts, ns, None)
    judge(ctx, stmts, "http://e/", None)
    ctx.sig("locals", key)


locals_.keys = lambda tier: ["only", "first", "inner", "last", "twice", "inner2"]


def codepoints(ctx, key):
    k = int(key, 16)
    chars = [chr(c) for c in range(k, k + 0x400)]
    stmts = {(I("http://e/s"), I("http://e/p"), L("".join(chars))), (I("http://e/s"), I("http://e/p"), L("".join(chars), "en")), (I("http://e/s"), I("http://e/p"), L("".join(reversed(chars)), None, "http://e/dt"))}
    step = 1 if k < 0x400 or ctx.thorough else 53
    for c in chars[::step]:
        stmts.add((I("http://e/s"), I("http://e/q"), L(c)))
        if c not in '<>"{}|^`\\%' and c > " " and c != "\x7f":
            stmts.add((I("http://e/" + c), I("http://e/x" + c + "y"), I("http://e/z" + c)))
    pr = Profile()
    pr.setPrefix("n", "http://e/")
    judge(ctx, stmts, None, pr, rl=False)
    judge(ctx, stmts, "http://e/", None, rl=False)
    ctx.ev("codepoints", 0x400)
    ctx.sig("codepoints", key)


codepoints.keys = lambda tier: ["%x" % k for k in range(0, 0x110000, 0x400) if not 0xD800 <= k <= 0xDFFF and (tier == "thorough" or k < 0x3000 or k % 0x2000 == 0 or k in (0xFC00, 0xF800, 0x10FC00))]


def shorthands(ctx):
    lex = ["0", "1", "-1", "+1", "007", "1.5", "-.5", "+0.0", ".5", "1.", "1e5", "1E-5", "1.e5", ".5e1", "e5", "true", "false", "TRUE", "True", "1 ", " 1", "1\n", "", "INF", "-INF", "NaN", "+", "-", ".", "1_0", "\u0661", "\uff11", "1e", "0x1", "--1", "1.2.3", "1;", "1 .", "truefalse", "true\n", "\ntrue", "1,2", "9" * 400]
    stmts = {(I("http://e/s"), I("http://e/%s" % k), L(x, None, XSD + k)) for k in ("integer", "decimal", "double", "boolean", "string", "int", "float", "date", "long", "nonNegativeInteger") for x in lex}
    judge(ctx, stmts)
    pr = Profile()
    pr.setPrefix("xsd", "http://elsewhere/")
    pr.setPrefix("x", XSD)
    judge(ctx, stmts, None, pr)
    judge(ctx, stmts, XSD, None)
    ctx.sig("shorthands")


def numerals(ctx, key):
    """Every short string of the characters that numbers are made of, under one datatype and first character."""
    k, first = key.split(" ")
    more = 4 if ctx.w.tier == "quick" else 5
    lex = [first + "".join(x) for n in range(more) for x in itertools.product("+-.1eE" if ctx.w.tier == "thorough" or n < 3 else "+.1e", repeat=n)]
    judge(ctx, {(I("http://e/s"), I("http://e/p%d" % (j % 40)), L(x, None, XSD + k)) for j, x in enumerate(lex)}, None, None, rl=False)
    ctx.ev("numerals", len(lex))
    ctx.sig("numerals", key)


numerals.keys = lambda tier: ["%s %s" % (k, c) for k in ("integer", "decimal", "double", "boolean") for c in "+-.1eE"]


def base_relations(ctx):
    """IRIs equal to, extending, and truncating each base."""
    for b in BASES:
        if b.startswith("urn"):
            continue
        xs = [b, b + "x", b + "/x", b + "#x", b + "?x", b + "//x", b + ":x", b + "a:b", b + "..", b + "../x", b + ".", b + "./x", b + "x/../y", b[:-1], b + "#", b + "?", b + "%41", b + "\u00e9", b + ":", b + "x:y/z", b + "//", b + "/./", b.rstrip("/"), b.split("#")[0], b.split("?")[0], b.upper(), "urn:a"]
        stmts = set()
        for x in xs:
            if "#" in x and "#" in x[x.index("#") + 1:]:
                continue
            stmts |= {(I(x), I("http://e/p"), L("1")), (I("http://e/s"), I(x), L("2")), (I("http://e/s"), I("http://e/p"), I(x)), (I("http://e/s"), I("http://e/p"), L("3", None, x))}
        judge(ctx, stmts, b)
        for ns in (b, b + "x", b[:-1]):
            pr = Profile()
            pr.setPrefix("p", ns)
            pr.setPrefix("", b)
            judge(ctx, stmts, b, pr)
            judge(ctx, stmts, None, pr)
            judge(ctx, stmts, "http://other/", pr)
        ctx.sig("base", b)


def list_shapes(ctx):
    """Lists by hand: each irregularity on each cell of a three-cell list."""
    c = [B("c0"), B("c1"), B("c2")]
    base = {(c[0], F, L("x")), (c[0], R, c[1]), (c[1], F, I("http://e/y")), (c[1], R, c[2]), (c[2], F, B("z")), (c[2], R, NIL), (I("http://e/s"), I("http://e/p"), c[0])}
    judge(ctx, base)
    for k in range(3):
        for extra in ((c[k], I("http://e/q"), L("v")), (c[k], I(RDFNS + "type"), I(RDFNS + "List")), (I("http://e/t"), I("http://e/p"), c[k]), (I("http://e/s"), I("http://e/p"), c[k]), (c[k], F, L("w")), (c[k], R, NIL), (c[k], R, c[0]), (c[k], F, c[0]), (c[k], F, c[k]), (B("z"), I("http://e/in"), c[k]), (I("http://e/t"), R, c[k]), (B("u"), R, c[k]), (B("u"), F, c[k]), (c[k], R, L("lit")), (c[k], I("http://e/s"), c[k])):
            for drop in (None, (I("http://e/s"), I("http://e/p"), c[0]), (c[k], R, c[k + 1] if k < 2 else NIL)) + tuple(s for s in base if s[0] == c[k] and s[1] == F):
                st = (base | {extra}) - ({drop} if drop else set())
                judge(ctx, st, rl=False)
                ctx.sig("list", k, extra, drop)
                ctx.ev("lists")
    # deep and long lists
    for n in (1, 10, 30):
        st, prev = set(), NIL
        for k in range(n):
            st |= {(B(k), F, prev if prev != NIL else L("in")), (B(k), R, NIL)}
            prev = B(k)
        judge(ctx, st | {(I("http://e/s"), I("http://e/p"), prev)})
    for n in (100, 400):
        st = {(B(k), F, L(str(k))) for k in range(n)} | {(B(k), R, B(k + 1) if k + 1 < n else NIL) for k in range(n)} | {(I("http://e/s"), I("http://e/p"), B(0))}
        judge(ctx, st)


def list_forests(ctx, key):
    """Lists that are members of each other in every possible way, each referred to once: trees, rings, and lists hanging from rings."""
    k, step = key
    for n, parents in enumerate(itertools.product(range(-1, k), repeat=k)):
        if n % step:
            continue
        st = set()
        for a in range(k):
            inside = [b for b in range(k) if parents[b] == a] or [None]
            if (a + n) % 3 == 0:
                inside.insert(n % 2, None)
            cells = [B((a, j)) for j in range(len(inside))] + [NIL]
            for j, b in enumerate(inside):
                st |= {(cells[j], F, L("m%d" % a) if b is None else B((b, 0))), (cells[j], R, cells[j + 1])}
            if parents[a] == -1:
                st.add((I("http://e/s") if n % 2 else B("holder"), I("http://e/p%d" % (a % 2)), cells[0]))
        judge(ctx, st, rl=False)
        ctx.ev("list forests")
        ctx.sig("forest", parents)


list_forests.keys = lambda tier: [(1, 1), (2, 1), (3, 1), (4, 1 if tier == "thorough" else 3)] + ([(5, 11)] if tier == "thorough" else [])


def bnode_names(ctx):
    """A caller's own label generator is used consistently."""
    from itertools import count

    def mine():
        for k in count():
            yield "_:node-%d" % k

    st = {(B(k), I("http://e/p"), B((k * 3) % 11)) for k in range(11)} | {(B(k), I("http://e/i"), L(str(k))) for k in range(11)}
    for _ in range(3):
        judge(ctx, st, kw={"bnode_name_generator": mine})
    judge(ctx, st)
    ctx.sig("bnode_names")


def alike_nodes(ctx):
    """The nodes whose names resemble each other most among very many stay distinct."""
    nodes = [BlankNode() for _ in range(600000)]
    g = Graph()
    p = NamedNode("http://e/p")
    for k, n in enumerate(alike(nodes) + nodes[:: 40000]):
        g.add(Triple(n, p, Literal(str(k))))
        g.add(Triple(nodes[-1], p, n))
    out = io.StringIO()
    ctx.call("serialize_turtle", serialize_turtle, g, out)
    want = map_terms(Reader().stmts(g), merge_string)
    back = map_terms(Reader().stmts(parse(ctx, out.getvalue())), merge_string)
    ctx.expect(isomorphic(back, want), lambda: "distinct blank nodes were confused\n%s\n%s" % (out.getvalue(), show(back)))
    ctx.ev("live blank nodes", len(nodes))
    ctx.sig("alike")


def bulk(ctx, key):
    """Large in one dimension."""
    kind, n = key
    P, S = I("http://e/p"), I("http://e/s")
    if kind == "objects":
        st = {(S, P, L("v%d" % k)) for k in range(n)} | {(S, P, I("http://e/o%d" % k)) for k in range(n)} | {(S, P, B(k)) for k in range(n // 10)}
    elif kind == "predicates":
        st = {(S, I("http://e/ns#p%d" % k), L(str(k % 10))) for k in range(n)}
    elif kind == "subjects":
        st = {(I("http://e/ns#s%d" % k), P, I("http://e/ns#s%d" % (k * 7 % n))) for k in range(n)} | {(B(k), P, L("b%d" % k)) for k in range(n)}
    elif kind == "list":
        st = {(B(k), F, L(str(k % 50))) for k in range(n)} | {(B(k), R, B(k + 1) if k + 1 < n else NIL) for k in range(n)} | {(S, P, B(0))}
    elif kind == "lists":
        st = set()
        for j in range(n):
            cells = [B((j, k)) for k in range(j % 4)] + [NIL]
            st.add((I("http://e/s%d" % j), P, cells[0]))
            st |= {(c, F, L("%d" % (j % 7))) for c in cells[:-1]} | {(cells[k], R, cells[k + 1]) for k in range(len(cells) - 1)}
    elif kind == "string":
        st = {(S, P, L(("x\u00e9\"'\\ \n\t" * n)[:n])), (S, P, L("'" * n)), (S, P, L('"' * n)), (S, P, L("\\" * n)), (S, P, L("a" * n, "en"))}
    elif kind == "iri":
        x = "http://e/" + "ab%20/\u00e9" * (n // 7)
        st = {(I(x), I(x), I(x)), (I("http://e/ns#" + "q" * n), P, L("1", None, "http://e/ns#" + "r" * n))}
    pr = Profile()
    pr.setPrefix("n", "http://e/ns#")
    for j in range(300 if kind == "subjects" else 0):
        pr.setPrefix("p%d" % j, "http://e/%d/" % j)
    judge(ctx, st, None, pr, rl=False)
    judge(ctx, st, "http://e/ns", None, rl=kind == "list" and n < 1000)
    ctx.ev("bulk")
    ctx.sig("bulk", key)


bulk.keys = lambda tier: [("objects", 1100), ("predicates", 1100), ("subjects", 1100), ("list", 1030), ("list", 2600), ("lists", 700), ("string", 70000), ("iri", 5000)] + ([("objects", 5000), ("subjects", 4000), ("list", 6000), ("lists", 3000)] if tier == "thorough" else [])
SWEEPS = [numerals, list_forests, locals_, codepoints, bulk]
FIXED = [shorthands, base_relations, list_shapes, bnode_names, alike_nodes]
