"""C15: JSON-LD documents load as exactly the quads they denote."""
import copy

from pyld import jsonld

from pymantic.parsers import nquads_parser
from pymantic.parsers.jsonld import PyLDLoader, jsonld_parser
from pymantic.primitives import BlankNode, Dataset, Literal

from rv import gen, jldgen, linegen
from rv.lines import make
from rv.model import RDFNS, XSD, B, I, L, isomorphic, map_terms, merge_string, show
from rv.pm import Reader

RULE = "distinct sets of JSON-LD constructs in a loaded document whose quads were compared with the reference"
ASSUMES = ["PyLD's JSON-LD algorithms (to_rdf) are trusted; PyLD lower-cases language tags and canonicalises doubles", "embedded contexts only, no @json; rdfDirection i18n-datatype"]
COUNT = {"quick": 9600, "thorough": 40000}
MIN_EVENTS = {"oracle:evaluations": 8000, "quads": 8000, "named-graph quads": 1000, "bnode-graph quads": 100, "lists": 100, "compared with N-Quads": 500}


def load(ctx, doc, options=None, sink=None):
    p = jsonld_parser if ctx.rng.random() < 0.8 else PyLDLoader()
    kw = {}
    if sink is not None:
        kw["sink"] = sink
    if options is not None or ctx.rng.random() < 0.2:
        kw["options"] = dict(options or {})
    return ctx.call("parse_json", p.parse_json, doc, **kw)


def judge(ctx, doc, options, want):
    keep = copy.deepcopy(doc)
    ctx.log("document", doc)
    r = load(ctx, doc, options)
    got = Reader().stmts(r, ctx, "the loaded dataset")
    w = map_terms(want, merge_string)
    ctx.expect(isomorphic(map_terms(got, merge_string), w), lambda: "loaded quads differ\n-- document:\n%s\n-- denotes:\n%s\n-- loaded:\n%s" % (repr(doc)[:3000], show(w)[:3000], show(got)[:3000]), repr(doc))
    ctx.same(len(r), len(w), "number of quads")
    ctx.expect(isinstance(r, Dataset), "the result is not a dataset")
    for q in r:
        if isinstance(q.object, Literal):
            ctx.expect(not (q.object.language and q.object.datatype), lambda: "a literal carries a language and a datatype: %r" % (q.object,))
    ctx.expect(doc == keep, "the document was modified by loading it")
    ctx.ev("quads", len(want))
    ctx.ev("named-graph quads", sum(1 for s in want if s[3] is not None))
    ctx.ev("bnode-graph quads", sum(1 for s in want if s[3] is not None and s[3][0] == "B"))
    return r


def case(ctx, i):
    rng = ctx.rng
    st = jldgen.quads(rng, n=rng.choice([40, 80]) if i % 50 == 9 else None)
    doc, opts, want, feats = jldgen.document(rng, st, plain=i % 7 == 0)
    r = judge(ctx, doc, opts, want)
    if "list" in feats:
        ctx.ev("lists")
    ctx.sig(sorted(feats), len(st).bit_length())
    ctx.sample(doc)
    how = i % 4
    if how == 0:
        # on top of what the target held
        old = jldgen.quads(rng)
        g, m = make(ctx, old, True)
        r2 = load(ctx, doc, opts, g)
        ctx.expect(r2 is g, "the given target was not used")
        rd = Reader(m)
        ctx.expect(isomorphic(map_terms(rd.stmts(g), merge_string), map_terms(old | {tuple(("B", ("new", t[1])) if t is not None and t[0] == "B" else t for t in s) for s in want}, merge_string)), lambda: "loading into a dataset that held data\n-- held:\n%s\n-- document:\n%r\n-- after:\n%s" % (show(old), doc, show(rd.stmts(g))))
    elif how == 1:
        nq = linegen.document(rng, gen.shuffled(rng, want))
        r2 = ctx.call("nquads", nquads_parser.parse, nq, Dataset())
        ctx.ev("compared with N-Quads")
        a, b = (map_terms(Reader().stmts(x), merge_string) for x in (r, r2))
        ctx.expect(isomorphic(a, b), lambda: "JSON-LD and N-Quads give different datasets\n%s\n--\n%s" % (show(a), show(b)))
    elif how == 2:
        # another spelling of the same quads
        doc2, opts2, want2, f2 = jldgen.document(rng, st)
        judge(ctx, doc2, opts2, want2)
        ctx.sig(sorted(f2))
    else:
        # a second load shares no node with the first
        r2 = load(ctx, doc, opts)
        n1 = {id(t) for q in r for t in q if isinstance(t, BlankNode)}
        n2 = {id(t) for q in r2 for t in q if isinstance(t, BlankNode)}
        ctx.expect(not n1 & n2, "two loads share blank nodes")
        ctx.expect(isomorphic(Reader().stmts(r), Reader().stmts(r2)), "a second load differs from the first")


def natives(ctx):
    I1, P = I("http://e/s"), I("http://e/p")
    for v, lex, dt in ((True, "true", "boolean"), (False, "false", "boolean"), (0, "0", "integer"), (5, "5", "integer"), (-7, "-7", "integer"), (1.5, "1.5E0", "double"), (0.1, "1.0E-1", "double"), (5.0, "5", "integer"), (123456789, "123456789", "integer")):
        r = ctx.call("parse_json", jsonld_parser.parse_json, {"@id": "http://e/s", "http://e/p": v})
        got = Reader().stmts(r)
        if v == 5.0 and isinstance(v, float):
            ctx.expect(len(got) == 1, "a number was lost")
            continue
        ctx.same(got, {(I1, P, L(lex, None, XSD + dt), None)}, "native %r" % (v,))
        ctx.sig("native", repr(v))
    for v, dt, lex in ((5, "http://e/dt", "5"), (True, "http://e/dt", "true")):
        r = ctx.call("parse_json", jsonld_parser.parse_json, {"@id": "http://e/s", "http://e/p": {"@value": v, "@type": dt}})
        ctx.same(Reader().stmts(r), {(I1, P, L(lex, None, dt), None)}, "typed native")


def shapes(ctx):
    """Hand-made documents with known quads."""
    e = "http://e/"
    S, P, Q, O = (I(e + x) for x in "spqo")
    cases = [
        ({}, set()), ([], set()), ({"@id": e + "s"}, set()), ({"@graph": []}, set()),
        ({"@context": {"p": {"@id": e + "p", "@type": "@id"}}, "@id": e + "s", "p": e + "o"}, {(S, P, O, None)}),
        ({"@context": {"p": {"@id": e + "p", "@type": XSD + "date"}}, "@id": e + "s", "p": "2020-01-01"}, {(S, P, L("2020-01-01", None, XSD + "date"), None)}),
        ({"@context": {"p": {"@id": e + "p", "@container": "@language"}}, "@id": e + "s", "p": {"en": "x", "fr": ["y", "z"]}}, {(S, P, L("x", "en"), None), (S, P, L("y", "fr"), None), (S, P, L("z", "fr"), None)}),
        ({"@context": {"p": {"@id": e + "p", "@container": "@list"}}, "@id": e + "s", "p": []}, {(S, P, I(RDFNS + "nil"), None)}),
        ({"@id": e + "s", e + "p": {"@id": "_:x"}, e + "q": {"@id": "_:x"}}, {(S, P, B(1), None), (S, Q, B(1), None)}),
        ({"@id": e + "s", e + "p": {"@id": "_:x"}, e + "q": {"@id": "_:y"}}, {(S, P, B(1), None), (S, Q, B(2), None)}),
        ({"@id": e + "s", e + "p": [{}, {}]}, {(S, P, B(1), None), (S, P, B(2), None)}),
        ({"@id": "_:g", "@graph": {"@id": "_:g", e + "p": {"@id": "_:g"}}}, {(B(1), P, B(1), B(1))}),
        ({"@id": "_:g", e + "q": "x", "@graph": {"@id": e + "s", e + "p": {"@id": e + "o"}}}, {(S, P, O, B(1)), (B(1), Q, L("x"), None)}),
        ([{"@id": "_:g", "@graph": {"@id": e + "s", e + "p": {"@id": "_:h"}}}, {"@id": "_:h", "@graph": {"@id": e + "s", e + "p": {"@id": "_:g"}}}], {(S, P, B(2), B(1)), (S, P, B(1), B(2))}),
        ({"@graph": [{"@id": e + "g", "@graph": {"@id": e + "s", e + "p": "x"}}, {"@id": e + "s", e + "p": "x"}]}, {(S, P, L("x"), I(e + "g")), (S, P, L("x"), None)}),
        ({"@id": e + "s", e + "p": {"@value": "", "@language": "en"}}, {(S, P, L("", "en"), None)}),
        ({"@id": e + "s", e + "p": {"@value": ""}}, {(S, P, L(""), None)}),
        ({"@id": e + "s", e + "p": {"@value": "", "@type": e + "dt"}}, {(S, P, L("", None, e + "dt"), None)}),
        ({"@id": e + "s", e + "p": {"@list": [{"@list": ["x"]}, {"@id": "_:x"}, {"@id": "_:x"}]}}, None),
        ({"@context": {"@language": "en"}, "@id": e + "s", e + "p": ["x", {"@value": "y", "@language": "fr"}, {"@value": "z"}, 1]}, {(S, P, L("x", "en"), None), (S, P, L("y", "fr"), None), (S, P, L("z"), None), (S, P, L("1", None, XSD + "integer"), None)}),
        ({"@id": e + "s", "@type": [e + "o", "_:t"], e + "p": {"@id": "_:t"}}, {(S, I(RDFNS + "type"), O, None), (S, I(RDFNS + "type"), B(1), None), (S, P, B(1), None)}),
    ]
    for doc, want in cases:
        if want is None:
            f, r, nil = I(RDFNS + "first"), I(RDFNS + "rest"), I(RDFNS + "nil")
            want = {(S, P, B(1), None), (B(1), f, B(4), None), (B(4), f, L("x"), None), (B(4), r, nil, None), (B(1), r, B(2), None), (B(2), f, B(9), None), (B(2), r, B(3), None), (B(3), f, B(9), None), (B(3), r, nil, None)}
        judge(ctx, doc, None, want)
        ctx.sig("shape", repr(doc)[:200])


def bulk(ctx, key):
    """Many nodes, values, list members and graphs in one document."""
    kind, n = key
    e = "http://e/"
    P = I(e + "p")
    if kind == "nodes":
        doc = [{"@id": "_:n%d" % k, e + "p": [{"@id": "_:n%d" % (k * 7 % n)}, {"@id": e + "i%d" % k}]} for k in range(n)]
        want = {(B(k), P, B(k * 7 % n), None) for k in range(n)} | {(B(k), P, I(e + "i%d" % k), None) for k in range(n)}
    elif kind == "values":
        doc = {"@id": e + "s", e + "p": [{"@value": "v%d" % k} for k in range(n)] + [{"@value": "v%d" % k, "@language": "en"} for k in range(n)] + list(range(n))}
        want = {(I(e + "s"), P, t, None) for k in range(n) for t in (L("v%d" % k), L("v%d" % k, "en"), L(str(k), None, XSD + "integer"))}
    elif kind == "list":
        doc = {"@id": e + "s", e + "p": {"@list": ["m%d" % (k % 40) for k in range(n)]}}
        f, r, nil = I(RDFNS + "first"), I(RDFNS + "rest"), I(RDFNS + "nil")
        want = {(I(e + "s"), P, B(0), None)} | {(B(k), f, L("m%d" % (k % 40)), None) for k in range(n)} | {(B(k), r, B(k + 1) if k + 1 < n else nil, None) for k in range(n)}
    else:
        doc = [{"@id": (e + "g%d" if k % 2 else "_:g%d") % k, "@graph": [{"@id": e + "s", e + "p": {"@id": "_:x%d" % (k % 5)}}]} for k in range(n)]
        want = {(I(e + "s"), P, B(("x", k % 5)), I(e + "g%d" % k) if k % 2 else B(("g", k))) for k in range(n)}
    judge(ctx, doc, None, want)
    ctx.sig("bulk", key)


bulk.keys = lambda tier: [("nodes", 1050), ("values", 600), ("list", 300), ("graphs", 1050)] + ([("nodes", 4000), ("values", 4000), ("list", 800), ("graphs", 3000)] if tier == "thorough" else [])
def options(ctx):
    """Every option of the JSON-LD algorithms is in force, and left alone."""
    docs = [
        {"@id": "a", "p": {"@value": "x", "@language": "ar", "@direction": "rtl"}, "http://e/q": {"@id": "../b"}},
        {"@id": "http://e/s", "_:p": "x", "http://e/q": [{"@id": "_:n"}, 1, 1.5, True, {"@list": [1, {"@id": "c"}]}]},
        {"@graph": [{"@id": "s", "p": "x"}, {"@id": "_:g", "@graph": {"@id": "t", "_:p": {"@id": "u"}, "http://e/p": "v"}}]},
        {"@context": {"@base": "http://own.example/x/", "q": "http://q.example/"}, "@id": "s", "q": "x", "p": "y"},
    ]
    opts = [{}, {"base": "http://base.example/d/e"}, {"expandContext": {"p": "http://via.example/p"}}, {"expandContext": {"@vocab": "http://v.example/"}, "base": "http://base.example/"},
            {"produceGeneralizedRdf": True}, {"produceGeneralizedRdf": True, "base": "http://base.example/", "expandContext": {"p": "_:pp"}}, {"rdfDirection": "i18n-datatype", "base": "http://base.example/", "expandContext": {"@vocab": "http://v.example/"}}, {"processingMode": "json-ld-1.1"}]
    for doc in docs:
        for o in opts:
            keep, odoc = copy.deepcopy(o), copy.deepcopy(doc)
            sets = jsonld.to_rdf(copy.deepcopy(doc), options=copy.deepcopy(o))
            want = set()
            for name, ts in sets.items():
                n = None if name == "@default" else B(name) if name.startswith("_:") else I(name)
                want |= {tuple(said(t[k]) for k in ("subject", "predicate", "object")) + (n,) for t in ts}
            got = Reader().stmts(ctx.call("parse_json", jsonld_parser.parse_json, doc, options=o))
            ctx.ev("options")
            ctx.expect(isomorphic(map_terms(got, merge_string), map_terms(want, merge_string)), lambda: "with options %r the document %r was loaded as\n%s\n-- it denotes\n%s" % (keep, odoc, show(got), show(want)))
            ctx.same((o, doc), (keep, odoc), "options and document")
            ctx.sig("options", sorted(o), len(want))


def said(t):
    """A term as PyLD gives it."""
    if t["type"] == "IRI":
        return I(t["value"])
    if t["type"] == "blank node":
        return B(t["value"])
    return L(t["value"], t["language"]) if "language" in t else L(t["value"], None, t["datatype"])


SWEEPS = [bulk]
FIXED = [natives, shapes, options]
