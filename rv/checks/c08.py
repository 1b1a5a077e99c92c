"""C08: what the line serialisers write, judged by readers that are not pymantic's."""

import rdflib

from rv import gen
from rv.lines import Sink, cp_chunks, features, make, quads_of, singles, write
from rv.model import I, L, ascii_term, isomorphic, map_terms, read_statement, show

RULE = "distinct sets of term features in a serialised graph or dataset whose every line was re-read independently"
ASSUMES = ["no lone surrogates; what no IRI may hold must come out percent-encoded"]
COUNT = {"quick": 2400, "thorough": 50000}
MIN_EVENTS = {"oracle:evaluations": 5000, "lines": 10000, "read by rdflib": 300}
rdflib.NORMALIZE_LITERALS = False


def judge(ctx, stmts, quads, with_rdflib=False):
    g, m = make(ctx, stmts, quads)
    text = write(ctx, g, quads)
    ctx.expect(isinstance(text, str), "output is not text")
    ctx.expect(text == "" or text.endswith("\n"), "output does not end with a newline", text)
    lines = text.split("\n")[:-1]
    ctx.same(len(lines), len(stmts), "number of lines", text[:3000])
    got = set()
    for ln in lines:
        ctx.ev("lines")
        ctx.expect(all(" " <= c <= "~" for c in ln), lambda: "line is not printable ASCII: %r" % ln)
        ctx.expect(ln.endswith(" ."), lambda: "line does not end in ' .': %r" % ln)
        try:
            st = read_statement(ln, 4 if quads else 3)
        except ValueError as e:
            ctx.fail("line violates the grammar: %s" % e, ln)
        ctx.expect(st not in got, lambda: "a statement is written twice: %r" % ln)
        got.add(st)
    # labels: the line reader names blank nodes by label, so isomorphism decides both directions
    want = map_terms(stmts, ascii_term)
    ctx.expect(isomorphic(map_terms(got, ascii_term), want), lambda: "an independent reader sees other statements\n-- output:\n%s\n-- data:\n%s" % (text[:3000], show(want)[:3000]), text)
    labels = {t[1] for s in got for t in s if t is not None and t[0] == "B"}
    nodes = {t for s in stmts for t in s if t is not None and t[0] == "B"}
    ctx.same(len(labels), len(nodes), "number of distinct blank-node labels")
    # a second serialisation says the same (labels may differ)
    try:
        again = [read_statement(ln, 4 if quads else 3) for ln in write(ctx, g, quads).split("\n")[:-1]]
    except ValueError as e:
        ctx.fail("second serialisation violates the grammar: %s" % e)
    ctx.same(len(again), len(stmts), "number of lines of a second serialisation")
    ctx.expect(isomorphic(map_terms(set(again), ascii_term), want), "a second serialisation says something else")
    if with_rdflib and not quads:
        rg = rdflib.Graph()
        rg.parse(data=text, format="nt")
        ctx.ev("read by rdflib")
        conv = set()
        for s in rg:
            conv.add(tuple(("I", str(t)) if isinstance(t, rdflib.URIRef) else ("B", str(t)) if isinstance(t, rdflib.BNode) else ("L", str(t), t.language, str(t.datatype) if t.datatype is not None else None) for t in s))
        low = lambda t: ("L", t[1], t[2].lower(), t[3]) if t[0] == "L" and t[2] else t
        ctx.expect(isomorphic(map_terms(conv, low), map_terms(want, low)), lambda: "rdflib reads other statements from\n%s" % text[:3000], text)
    return text


def case(ctx, i):
    rng = ctx.rng
    if i % 60 == 4:
        stmts = gen.graph(rng, n=rng.choice([100, 300, 1000]), nb=rng.choice([5, 60, 300]))
    else:
        stmts = gen.graph(rng, big=i % 10 == 0)
    quads = i % 2 == 1
    if quads:
        stmts = quads_of(rng, stmts)
    text = judge(ctx, stmts, quads, with_rdflib=True)
    if stmts:
        ctx.sig(quads, features(stmts))
    ctx.sample(text)


def codepoints(ctx, key):
    k = int(key, 16)
    stmts = {(I("http://e/all"), I("http://e/p"), L("".join(map(chr, range(k, k + 0x400))), "en"))}
    for c in singles(key, ctx.w.tier):
        stmts.add((I("http://e/one"), I("http://e/p"), L("a" + chr(c) + "b")))
        if chr(c) not in '<>"{}|^`\\' and c > 0x20 and c != 0x7F:
            stmts.add((I("http://e/x" + (chr(c) if chr(c) != "%" else "%25") + "y"), I("http://e/p"), L("iri")))
    judge(ctx, stmts, False)
    judge(ctx, {s + (None if len(s[2][1]) > 3 else I("http://g/1"),) for s in stmts}, True)
    ctx.ev("codepoints", 0x400)
    ctx.sig("codepoints", key)


codepoints.keys = cp_chunks


def labels(ctx, key):
    """Distinct blank nodes keep distinct labels at any number, across churn."""
    from pymantic.primitives import BlankNode, Graph, Literal, NamedNode, Triple
    from pymantic.serializers import serialize_ntriples
    n = key
    g = Graph()
    keep, junk = [], []
    for k in range(n):
        b = BlankNode()
        keep.append(b)
        junk.append(BlankNode())
        if len(junk) > 50:
            del junk[::2]
        g.add(Triple(b, NamedNode("http://e/p"), Literal(str(k))))
    f = Sink()
    ctx.call("serialize", serialize_ntriples, g, f)
    seen = {}
    for ln in f.getvalue().split("\n")[:-1]:
        s, p, o = read_statement(ln, 3)
        seen.setdefault(s[1], set()).add(o[1])
    ctx.same(len(seen), n, "distinct labels for %d blank nodes" % n)
    ctx.same(len({b.toNT() for b in keep}), n, "distinct toNT() forms")
    ctx.sig("labels", n)


labels.keys = lambda tier: [1, 10, 100, 1000, 5000] + ([100000] if tier == "thorough" else [])
UNSAFE = [chr(c) for c in range(0x21)] + list('<>"{}|^`\\\x7f')


def escaped(s):
    """What of a string can stand in an IRI of ASCII characters, and the rest percent-encoded."""
    return "".join("".join("%%%02X" % b for b in c.encode("utf-8")) if c in UNSAFE or ord(c) > 127 else c for c in s)


def unsafe(ctx, key):
    """Named nodes that hold what no IRI may: written encoded, so the line is valid all the same."""
    from pymantic.primitives import Literal, NamedNode, Quad, Triple
    rng = ctx.rng
    for n in range(20 if ctx.w.tier == "quick" else 200):
        iris = []
        for k in range(5):
            part = lambda: "".join(rng.choice(UNSAFE) if rng.random() < 0.3 else rng.choice(["a", "b", "%41", "\u00e9", "\U00010400", "/", "#", "~", "'", "*", "[", "]"]) for j in range(rng.randrange(0, 12)))
            iris.append("http://e/" + part() + (UNSAFE[(key * 20 + n) % len(UNSAFE)] if k == n % 5 else "") + part())
        a, b, c, d, e = map(NamedNode, iris)
        lit = ("L", "x", None, escaped(iris[3]))
        for thing, want in [(Triple(a, b, c), (0, 1, 2)), (Triple(a, b, Literal("x", None, d)), (0, 1, lit)), (Quad(a, b, c, e), (0, 1, 2, 4)), (Quad(a, b, Literal("x", None, d), e), (0, 1, lit, 4))]:
            line = ctx.call("str", str, thing)
            ctx.ev("lines")
            ctx.expect(line.endswith(" .\n") and all(" " <= ch <= "~" for ch in line[:-1]), lambda: "line is not printable ASCII: %r" % line)
            try:
                got = read_statement(line[:-1], len(want))
            except ValueError as err:
                ctx.fail("line violates the grammar: %s" % err, line)
            ctx.same(got, tuple(("I", escaped(iris[x])) if isinstance(x, int) else x for x in want), "statement with IRIs that need encoding")
    ctx.ev("unsafe")
    ctx.sig("unsafe", key)


unsafe.keys = lambda tier: list(range(8 if tier == "quick" else 40))
SWEEPS = [codepoints, labels, unsafe]
