"""C10: Turtle documents parse to exactly the triples they denote."""
import glob
import io
import os
import tempfile

from pymantic.parsers import turtle_parser

from rv import gen, ttl, ttlgen
from rv.core import REPO
from rv.lines import LineStream
from rv.model import HarnessError, RDFNS, XSD, B, I, L, isomorphic, map_terms, merge_string, show
from rv.pm import Reader

RULE = "distinct sets of Turtle constructs combined in one document, per supply form"
ASSUMES = ["nesting depth at most 40 (quick) / 60", "no comment inside an anonymous node '[ ]'", "the Turtle 1.1 grammar; IRIs legal"]
COUNT = {"quick": 3200, "thorough": 40000}
MIN_EVENTS = {"oracle:evaluations": 2000, "triples": 8000, "form:text": 100, "form:bytes": 100, "form:text stream": 100, "form:byte stream": 100, "spellings": 500}
FORMS = ["text", "parse_string text", "bytes", "text stream", "minimal stream", "byte stream", "text file", "byte file"]


def parse(ctx, text, base="", form=None, graph=None):
    form = form or ctx.rng.choice(FORMS)
    ctx.ev("form:" + form)
    p = turtle_parser
    kw = {"base": base} if base or ctx.rng.random() < 0.5 else {}
    if graph is not None:
        kw["graph"] = graph
    if form == "text":
        return ctx.call("turtle.parse", p.parse, text, **kw)
    if form == "parse_string text":
        return ctx.call("turtle.parse_string", p.parse_string, text, **kw)
    if form == "bytes":
        return ctx.call("turtle.parse_string", p.parse_string, text.encode("utf-8"), **kw)
    if form == "text stream":
        return ctx.call("turtle.parse", p.parse, io.StringIO(text, newline=""), **kw)
    if form == "minimal stream":
        return ctx.call("turtle.parse", p.parse, LineStream(text), **kw)
    if form == "byte stream":
        return ctx.call("turtle.parse", p.parse, io.BytesIO(text.encode("utf-8")), **kw)
    with tempfile.TemporaryDirectory(prefix="rv_") as d:
        path = os.path.join(d, "x.ttl")
        with open(path, "wb") as f:
            f.write(text.encode("utf-8"))
        with (open(path, "rb") if form == "byte file" else open(path, encoding="utf-8", newline="")) as f:
            return ctx.call("turtle.parse", p.parse, f, **kw)


def triples(ctx, g):
    return map_terms(Reader().stmts(g, ctx, "the parsed graph"), merge_string)


def judge(ctx, text, want, base="", form=None):
    ctx.log("document", text)
    got = triples(ctx, parse(ctx, text, base, form))
    want = map_terms(want, merge_string)
    ctx.expect(isomorphic(got, want), lambda: "parsed triples differ (base %r)\n-- document:\n%s\n-- denotes:\n%s\n-- parsed:\n%s" % (base, text[:3000], show(want)[:3000], show(got)[:3000]), text)
    ctx.ev("triples", len(want))


def sane(doc_triples, text, base):
    """Two independent accounts of what the document denotes must agree."""
    other = map_terms(ttl.read(text, base), merge_string)
    if not isomorphic(other, map_terms(doc_triples, merge_string)):
        raise HarnessError("generator and reference reader disagree on\n" + text)


def case(ctx, i):
    rng = ctx.rng
    if i % 3 != 2:
        doc = ttlgen.random_doc(rng, depth=rng.choice([0, 1, 2, 3, 5]) if i % 5 else 2)
        text = doc.text()
        sane(doc.triples, text, doc.start_base)
        form = rng.choice(FORMS)
        judge(ctx, text, doc.triples, doc.start_base, form)
        ctx.sig(form, sorted(doc.features))
        ctx.sample(text)
        return
    stmts = gen.graph(rng, big=i % 12 == 0)
    if rng.random() < 0.5:
        stmts |= lists(rng)
    for _ in range(3):
        doc = ttlgen.spell_graph(rng, stmts)
        text = doc.text()
        sane(stmts, text, "")
        judge(ctx, text, stmts, "")
        ctx.ev("spellings")
        ctx.sig("graph", sorted(doc.features))


def lists(rng):
    out = set()
    F, R, NIL = I(RDFNS + "first"), I(RDFNS + "rest"), I(RDFNS + "nil")
    for j in range(rng.randrange(1, 3)):
        node = NIL
        for k in range(rng.randrange(0, 5)):
            c = B(("l", j, k))
            o = gen.literal(rng) if rng.random() < 0.5 else I(gen.iri(rng)) if rng.random() < 0.7 else B("b0")
            out |= {(c, F, o), (c, R, node)}
            node = c
        out.add((I("http://e/s%d" % j), I("http://e/list"), node))
    return out


def corpus(ctx, key):
    """The W3C positive tests among the repository's test data."""
    f = os.path.join(REPO, key)
    text = open(f, encoding="utf-8", newline="").read()
    base = "http://www.w3.org/2013/TurtleTests/" + os.path.basename(f)
    try:
        want = ttl.read(text, base)
    except ttl.TurtleError:
        return
    for form in FORMS:
        judge(ctx, text, want, base, form)
    ctx.sig("corpus", key)


corpus.keys = lambda tier: [os.path.relpath(f, REPO) for f in sorted(glob.glob(os.path.join(REPO, "tests", "**", "*.ttl"), recursive=True)) if os.path.getsize(f) < 100000]


def deep(ctx, key):
    kind, d = key.split("-")
    d = int(d)
    p = "<http://e/p>"
    P, S, E = I("http://e/p"), I("http://e/s"), L("end")
    F, R, NIL = I(RDFNS + "first"), I(RDFNS + "rest"), I(RDFNS + "nil")
    want = set()
    if kind == "bnpl":
        text = "<http://e/s> " + p + " " + ("[ %s " % p) * d + '"end"' + " ]" * d + " ."
        prev = S
        for k in range(d):
            want.add((prev, P, B(k)))
            prev = B(k)
        want.add((prev, P, E))
    elif kind == "coll":
        text = "<http://e/s> " + p + " " + "( " * d + '"end"' + " )" * d + " ."
        prev, via = S, P
        for k in range(d):
            want |= {(prev, via, B(k)), (B(k), R, NIL)}
            prev, via = B(k), F
        want.add((prev, via, E))
    elif kind == "mixed":
        text = "<http://e/s> " + p + " " + ("( [ %s " % p) * d + '"end"' + " ] )" * d + " ."
        prev, via = S, P
        for k in range(d):
            want |= {(prev, via, B(("c", k))), (B(("c", k)), R, NIL), (B(("c", k)), F, B(("n", k)))}
            prev, via = B(("n", k)), P
        want.add((prev, via, E))
    elif kind == "subject":
        text = "[ " + p + " " + ("( [ %s " % p) * d + '"end"' + " ] )" * d + " ] " + p + ' "top" .'
        want.add((B("top"), P, L("top")))
        prev, via = B("top"), P
        for k in range(d):
            want |= {(prev, via, B(("c", k))), (B(("c", k)), R, NIL), (B(("c", k)), F, B(("n", k)))}
            prev, via = B(("n", k)), P
        want.add((prev, via, E))
    elif kind == "width":
        text = "<http://e/s> " + p + " " + ", ".join('"%d"' % k for k in range(d)) + " ; <http://e/l> ( " + " ".join('"%d"' % k for k in range(d)) + " ) ; <http://e/l2> ( " + " ".join('"%d"' % k for k in range(d)) + " ) ; " + " ; ".join("<http://e/q%d> [ <http://e/r> %d ]" % (k, k) for k in range(d)) + " ."
        for k in range(d):
            want |= {(S, P, L(str(k))), (B(k), F, L(str(k))), (B(k), R, B(k + 1) if k + 1 < d else NIL), (B(("m", k)), F, L(str(k))), (B(("m", k)), R, B(("m", k + 1)) if k + 1 < d else NIL), (S, I("http://e/q%d" % k), B(("q", k))), (B(("q", k)), I("http://e/r"), L(str(k), None, XSD + "integer"))}
        want |= {(S, I("http://e/l"), B(0)), (S, I("http://e/l2"), B(("m", 0)))}
    else:
        text = "".join('<http://e/s%d> %s "v%d" , _:x%d .\n' % (k, p, k, k % 7) for k in range(d))
        for k in range(d):
            want |= {(I("http://e/s%d" % k), P, L("v%d" % k)), (I("http://e/s%d" % k), P, B(k % 7))}
    judge(ctx, text, want)
    ctx.sig("deep", key)


deep.keys = lambda tier: ["%s-%d" % (k, d) for k in ("bnpl", "coll", "mixed", "subject") for d in [1, 2, 3, 4, 5, 8, 13, 20, 30] + ([40] if k in ("bnpl", "coll") else []) + ([60] if tier == "thorough" and k in ("bnpl", "coll") else [])] + ["width-%d" % d for d in (1, 2, 7, 40, 150, 1030, 2600)] + ["many-%d" % d for d in (1, 10, 300, 1500, 8200)]


def bulk(ctx, key):
    """Large in one dimension: one term, one kind of separator, one table."""
    kind, n = key.split("-")
    n = int(n)
    S, P = I("http://e/s"), I("http://e/p")
    sp = "<http://e/s> <http://e/p> "
    chunk = "0123456789 abcdef \u00e9\u4e2d\U0001f600 '' \"\" x"
    if kind == "string":
        for q in ('"', "'", '"""', "'''"):
            body = chunk.replace('"', "") if '"' in q else chunk.replace("'", "")
            body = body * (n // len(body))
            if len(q) == 3:
                body = body.replace("9", "\n", 50)
            judge(ctx, sp + q + body + q + "@en .", {(S, P, L(body, "en"))})
            judge(ctx, sp + q + body.replace("a", "\\u0061").replace("\n", "\\n") + q + " .", {(S, P, L(body))})
    elif kind == "iri":
        iri = "http://e/" + "ab%20/\u00e9?&" * (n // 9)
        judge(ctx, "<%s> <%s> <%s> ." % (iri, iri, iri), {(I(iri), I(iri), I(iri))})
        name = "x\u00e9." * (n // 3) + "z"
        judge(ctx, "@prefix %s: <%s> . %s:%s %s:p _:%s ." % (name, iri, name, name, name, name), {(I(iri + name), I(iri + "p"), B(0))})
    elif kind == "comment":
        c = "# <a> \"b\" . \u00e9 " * (n // 12)
        judge(ctx, c + "\n" + sp + c + "\n" + "1" + c + "\r" + "." + c, {(S, P, L("1", None, XSD + "integer"))})
        judge(ctx, " \t\r\n" * n + sp + " \n" * n + "1" + "\t" * n + "." + "\r\n" * n, {(S, P, L("1", None, XSD + "integer"))})
    elif kind == "prefixes":
        text = "".join("@prefix p%d: <http://e/%d/> .\n" % (k, k) for k in range(n)) + "".join("p%d:s p%d:p p%d:o .\n" % (k, (k * 7) % n, (k * 13) % n) for k in range(n))
        judge(ctx, text, {(I("http://e/%d/s" % k), I("http://e/%d/p" % (k * 7 % n)), I("http://e/%d/o" % (k * 13 % n))) for k in range(n)})
    elif kind == "labels":
        text = "".join("_:l%d <http://e/p> _:l%d , %d .\n" % (k, k * k % n, k) for k in range(n))
        want = {(B(k), P, B(k * k % n)) for k in range(n)} | {(B(k), P, L(str(k), None, XSD + "integer")) for k in range(n)}
        judge(ctx, text, want)
    elif kind == "semicolons":
        judge(ctx, sp + "1 " + ";" * n + " .", {(S, P, L("1", None, XSD + "integer"))})
        judge(ctx, "[ <http://e/p> 1 " + " ;" * n + "] .", {(B(0), P, L("1", None, XSD + "integer"))})
    elif kind == "same":
        judge(ctx, (sp + '"v" , "v" ; <http://e/p> "v" .\n') * n, {(S, P, L("v"))})
    elif kind == "empties":
        R = I(RDFNS + "nil")
        judge(ctx, sp + ", ".join(["[]", "()"] * n) + " .", {(S, P, B(k)) for k in range(n)} | {(S, P, R)})
    ctx.ev("bulk")
    ctx.sig("bulk", key)


bulk.keys = lambda tier: ["%s-%d" % (k, n) for k, ns in (("string", (70000, 300000)), ("iri", (3000, 70000)), ("comment", (50000,)), ("prefixes", (300, 1100)), ("labels", (700, 2100)), ("semicolons", (2000,)), ("same", (1200,)), ("empties", (600,))) for n in ns + ((ns[-1] * 3,) if tier == "thorough" else ())]


def objects_everywhere(ctx, key):
    """Every pair of object constructs, in every context that takes objects."""
    cons = {"iri": "<http://e/i>", "pname": "p:l", "label": "_:b", "anon": "[]", "bnpl": '[ p:in "x" ]', "bnpl2": '[ p:in "x" , p:y ; p:out [ p:z 1 ] ]', "coll": '( "m" p:n )', "empty": "()", "coll2": "( ( 1 ) [ p:in ( ) ] )",
            "str": '"s"', "long": "'''l'\n'''", "lang": '"s"@en-gb', "dt": '"s"^^p:dt', "int": "-5", "dec": "+.5", "dbl": "1.e3", "bool": "true"}
    ctxs = {"object": "p:s p:p %s .", "list": "p:s p:p %s, %s .", "then": "p:s p:p %s ; p:q %s .", "inner": "p:s p:p [ p:a %s ; p:b %s ] .", "member": "p:s p:p ( %s %s ) .", "subjlist": "( %s %s ) p:p %s .", "bn": "[ p:p %s , %s ] p:q %s .", "bnonly": "[ p:p %s ; p:q %s ; ] .", "trail": "p:s p:p %s , %s ; ; p:q %s ; .", "subj-coll": "( %s ) p:p ( %s ) , %s ."}
    frame = ctxs[key]
    n = frame.count("%s")
    names = sorted(cons)
    if n == 1:
        combos = [(a,) for a in names]
    elif n == 2:
        combos = [(a, b) for a in names for b in names]
    else:
        combos = [(a, b, c) for a in names for b in names for c in (names if ctx.thorough else [ctx.rng.choice(names)])]
    for combo in combos:
        text = "@prefix p: <http://e/> .\n" + frame % tuple(cons[c] for c in combo)
        judge(ctx, text, ttl.read(text), form="text")
        ctx.sig("combo", key, combo)


objects_everywhere.keys = lambda tier: ["object", "list", "then", "inner", "member", "subjlist", "bn", "bnonly", "trail", "subj-coll"]


def codepoints(ctx, key):
    """Every character raw and escaped in strings of each quoting; as PN_LOCAL where legal."""
    k = int(key, 16)
    chars = [chr(c) for c in range(k, k + 0x400)]
    parts, want = ["@prefix p: <http://e/> .\n"], set()
    S, P = I("http://e/s"), I("http://e/p")
    for q in ('"', "'", '"""', "'''"):
        body = "".join(c for c in chars if c not in "\\\n\r" and c != q[0]) if len(q) == 1 else "".join(c for c in chars if c != "\\" and c != q[0])
        parts.append("p:s p:p %s%s%s .\n" % (q, body, q))
        want.add((S, P, L(body)))
    esc = "".join("\\u%04X" % ord(c) if ord(c) < 0x10000 else "\\U%08X" % ord(c) for c in chars)
    parts.append('p:s p:p "%s" .\n' % esc)
    want.add((S, P, L("".join(chars))))
    names = [c for c in chars if ttlgen.CHR.match(c)]
    for c in names[:: 1 if k < 0x400 else 60]:
        parts.append("p:x%s p:p p:y%sz .\n" % (c, c))
        want.add((I("http://e/x" + c), P, I("http://e/y" + c + "z")))
    if names:
        parts.append("p:_%s p:p p:z .\n" % "".join(names))
        want.add((I("http://e/_" + "".join(names)), P, I("http://e/z")))
    judge(ctx, "".join(parts), want, form=ctx.rng.choice(["text", "bytes", "byte stream"]))
    ctx.ev("codepoints", 0x400)
    ctx.sig("codepoints", key)


codepoints.keys = lambda tier: ["%x" % k for k in range(0, 0x110000, 0x400) if not 0xD800 <= k <= 0xDFFF and (tier == "thorough" or k < 0x3000 or k % 0x2000 == 0 or k in (0xFC00, 0xF800, 0x10FC00, 0xEFC00, 0xF0000))]


def local_escapes(ctx):
    parts, want = ["PREFIX : <http://e/>\n"], set()
    P = I("http://e/p")
    for c in "_~.-!$&'()*+,;=/?#@%":
        for form, val in (("\\" + c, c), ("a\\" + c, "a" + c), ("\\" + c + "b", c + "b"), ("a\\" + c + "b", "a" + c + "b"), ("\\" + c + "\\" + c, c + c), ("a.\\" + c, "a." + c), ("%41\\" + c, "%41" + c), (":\\" + c + ":", ":" + c + ":")):
            parts.append(":%s :p :%s .\n" % (form, form))
            want.add((I("http://e/" + val), P, I("http://e/" + val)))
    for form in ("%00", "%aF", "a%2Fb", "a:b", "::", "0", "0a", "1.5", "a.b", "a..b", "a-b", "_", "a_", "a%20", "\u00e9.\u00e9", "a\u00b7", "a\u0300\u203f"):
        parts.append(":%s :p :%s.\n" % (form, form))
        want.add((I("http://e/" + form), P, I("http://e/" + form)))
    judge(ctx, "".join(parts), want)
    ctx.sig("local_escapes")


def numbers(ctx):
    parts, want = [], set()
    S, P = I("http://e/s"), I("http://e/p")
    nums = {"integer": ["0", "1", "+1", "-1", "007", "-0", "+00", "9" * 40], "decimal": ["1.0", ".5", "+.5", "-.5", "0.10", "-12.000", "00.1", "9" * 30 + ".1"], "double": ["1e0", "1E5", "1e+5", "1E-5", "1.e1", "1.5e1", ".5e1", "-.5E-1", "+1.0e+0", "-1e1", "0e0", "00e00"], "boolean": ["true", "false"]}
    for k, v in nums.items():
        for x in v:
            for tail in (" .\n", ".\n", ",%s.\n" % x, ";.\n", " , ( %s ) .\n" % x):
                text = "<http://e/s> <http://e/p> " + x + tail
                w = {(S, P, L(x, None, XSD + k))}
                if "(" in tail:
                    w |= {(S, P, B("c")), (B("c"), I(RDFNS + "first"), L(x, None, XSD + k)), (B("c"), I(RDFNS + "rest"), I(RDFNS + "nil"))}
                judge(ctx, text, w)
    ctx.sig("numbers")


def keywords(ctx):
    """Names that look like keywords, and keywords next to names."""
    for pre in ("a", "true", "false", "prefix", "base", "PREFIX", "BASE", "e", "E", "aa", "trueish", "a.b", "a-b", "basex", "prefixx"):
        for loc in ("a", "true", "b", "", "prefix", "1", "e5"):
            text = "@prefix %s: <http://e/> .\n%s:%s a %s:%s , %s:a ; %s:p true , false , %s:true .\n<http://e/z>a<http://e/a>." % (pre, pre, loc, pre, loc, pre, pre, pre)
            judge(ctx, text, ttl.read(text), form="text")
    for kw in ("@prefix p: <http://e/> .", "PREFIX p: <http://e/>", "prefix p:<http://e/>", "PrEfIx p: <http://e/>", "@prefix p:<http://e/>."):
        for b in ("@base <http://b/c> .", "BASE <http://b/c>", "base<http://b/c>", "bAsE <http://b/c>", "@base<http://b/c>."):
            for text in (kw + "\n" + b + "\np:a p:b <d> .", b + " " + kw + " p:a p:b <d>.", kw + kw + b + b + "<d> <e> p:f . " + kw + " p:a p:b <d> ." + b):
                judge(ctx, text, ttl.read(text), form="text")
    ctx.sig("keywords")


SWEEPS = [corpus, deep, bulk, objects_everywhere, codepoints]
FIXED = [local_escapes, numbers, keywords]
