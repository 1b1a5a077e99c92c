"""C30: one graph in every syntax, and chains of loading and re-serialising."""
import io

from pymantic.parsers.jsonld import jsonld_parser
from pymantic.primitives import Dataset, Graph, Quad, Triple
from pymantic.serializers import serialize_nquads, serialize_ntriples, serialize_turtle

from rv import gen, jldgen, linegen, ttlgen
from rv.checks import c10
from rv.checks.c12 import BASES, profile
from rv.lines import Sink, features, make, read
from rv.model import B, I, L, ascii_term, isomorphic, map_terms, merge_string, show
from rv.pm import Reader

RULE = "distinct sequences of syntaxes a graph went through (origin, serialiser, parser at every step), with the features of its terms"
ASSUMES = ["JSON-LD through PyLD with embedded contexts; JSON-LD keeps language tags in lower case", "N-Triples and N-Quads output may write IRIs in percent-encoded URI form"]
COUNT = {"quick": 6000, "thorough": 40000}
MIN_EVENTS = {"oracle:evaluations": 10000, "loads:nt": 1500, "loads:nq": 1500, "loads:ttl": 1500, "loads:jld": 500, "writes:nt": 1000, "writes:nq": 1000, "writes:ttl": 1000, "cross reads": 500, "pairs of loads": 3000, "triples": 10000}


def flat(ctx, g):
    """Reference triples of a graph, or of a dataset whose quads are all in the default graph."""
    st = Reader().stmts(g, ctx, "the loaded graph")
    if isinstance(g, Dataset):
        for s in st:
            ctx.expect(len(s) == 4 and s[3] is None, lambda: "a statement without graph name came back as %r" % (s,))
        st = {s[:3] for s in st}
    return st


def agree(ctx, got, want, what, text, ascii=False):
    f = (lambda t: ascii_term(merge_string(t))) if ascii else merge_string
    a, b = map_terms(got, f), map_terms(want, f)
    ctx.expect(isomorphic(a, b), lambda: "%s\n-- document:\n%s\n-- expected:\n%s\n-- got:\n%s" % (what, text if isinstance(text, str) else repr(text), show(b)[:3000], show(a)[:3000]), text)


def load(ctx, fmt, text, base="", opts=None):
    ctx.ev("loads:" + fmt)
    if fmt == "nt":
        return read(ctx, text, False)
    if fmt == "nq":
        return read(ctx, text, True)
    if fmt == "ttl":
        return c10.parse(ctx, text, base=base)
    d = Dataset()
    ctx.call("parse_json", jsonld_parser.parse_json, text, sink=d, options=opts)
    return d


def spell(rng, fmt, st):
    """(text, base, the triples it denotes)."""
    if fmt == "ttl":
        d = ttlgen.spell_graph(rng, st)
        return d.text(), d.start_base, d.triples
    if fmt == "cross":  # an N-Triples document is a Turtle document too
        return linegen.document(rng, gen.shuffled(rng, st), eol="\n", labels=linegen.Labels(rng, colon=False)), "", st
    return linegen.document(rng, gen.shuffled(rng, st), eol="\n"), "", st


def same_everywhere(ctx, rng):
    """The same data, spelled in each syntax."""
    if rng.random() < 0.6:
        qs = {q[:3] + (None,) for q in jldgen.quads(rng)}
        doc, opts, want, _ = jldgen.document(rng, qs)
        st = {q[:3] for q in want}
        loads = [("jld", flat(ctx, load(ctx, "jld", doc, opts=opts)), doc)]
        agree(ctx, loads[0][1], st, "JSON-LD", doc)
    else:
        st = gen.graph(rng)
        loads = []
    ctx.ev("triples", len(st))
    for fmt in ("nt", "nq", "ttl"):
        text, base, means = spell(rng, fmt, st)
        got = flat(ctx, load(ctx, fmt, text, base))
        agree(ctx, got, means, fmt, text)
        loads.append((fmt, got, text))
    text, _, _ = spell(rng, "cross", st)
    for fmt in ("nt", "nq", "ttl"):
        ctx.ev("cross reads")
        got = flat(ctx, load(ctx, fmt, text))
        agree(ctx, got, st, "%s reading N-Triples" % fmt, text)
        loads.append((fmt + "<nt", got, text))
    for k, (fa, a, ta) in enumerate(loads):
        for fb, b, tb in loads[k + 1:]:
            ctx.ev("pairs of loads")
            ctx.expect(isomorphic(map_terms(a, merge_string), map_terms(b, merge_string)), lambda: "%s and %s load different graphs\n-- %s\n-- %s" % (fa, fb, ta, tb))
    ctx.sig("spelled", features(st), len(loads))
    return st, loads


def quads_everywhere(ctx, rng):
    """Named graphs: N-Quads and JSON-LD."""
    qs = jldgen.quads(rng)
    doc, opts, want, _ = jldgen.document(rng, qs)
    d = load(ctx, "jld", doc, opts=opts)
    agree(ctx, Reader().stmts(d, ctx, "JSON-LD"), want, "JSON-LD", doc)
    text = linegen.document(rng, gen.shuffled(rng, want), eol="\n")
    e = load(ctx, "nq", text)
    agree(ctx, Reader().stmts(e, ctx, "N-Quads"), want, "N-Quads", text)
    ctx.ev("pairs of loads")
    trail = ["quads"]
    for k in range(rng.choice([1, 2, 4])):
        ctx.ev("writes:nq")
        src = rng.choice([d, e])
        out = rng.choice([Sink, io.StringIO])()
        ctx.call("serialize_nquads", serialize_nquads, src, out)
        e = load(ctx, "nq", out.getvalue())
        agree(ctx, Reader().stmts(e, ctx, "N-Quads"), want, "N-Quads after %d steps" % (k + 1), out.getvalue(), ascii=True)
    ctx.ev("triples", len(want))
    ctx.sig("quads", features({q[:3] for q in want}), len({q[3] for q in want}))


def chain(ctx, rng):
    """Load, then re-serialise through any syntaxes."""
    r = rng.random()
    if r < 0.3:
        st, loads = same_everywhere(ctx, rng)
        origin = rng.choice(["jld", "ttl", "nt"]) if loads[0][0] == "jld" else "ttl"
    else:
        st, origin = gen.graph(rng, big=r < 0.4), rng.choice(["nt", "nq", "ttl", "made"])
    if origin == "made":
        g, _ = make(ctx, st, False)
    elif origin == "jld":
        doc, opts, st4, _ = jldgen.document(rng, {q[:3] + (None,) for q in jldgen.quads(rng)})
        g, st = load(ctx, "jld", doc, opts=opts), {q[:3] for q in st4}
    else:
        text, base, st = spell(rng, origin, st)
        g = load(ctx, origin, text, base)
    trail = [origin]
    asc = False
    agree(ctx, flat(ctx, g), st, "first load", trail)
    for step in range(rng.choice([1, 2, 3, 5, 8])):
        fmt = rng.choice(["nt", "nq", "ttl"])
        reader = rng.choice({"nt": ["nt", "nq", "ttl"], "nq": ["nt", "nq", "ttl"], "ttl": ["ttl"]}[fmt])
        ctx.ev("writes:" + fmt)
        out = rng.choice([Sink, io.StringIO])()
        kw = {}
        if fmt == "ttl":
            if isinstance(g, Dataset):
                h = Graph()
                for q in g:
                    h.add(Triple(q.subject, q.predicate, q.object))
                g = h
            iris = [t[1] for s in st for t in s if t[0] == "I"]
            if rng.random() < 0.4:
                kw["profile"] = profile(rng, sorted(iris))[0]
            if rng.random() < 0.4:
                kw["base"] = rng.choice(BASES)
            ctx.call("serialize_turtle", serialize_turtle, g, out, **kw)
        elif fmt == "nt":
            asc = True
            if isinstance(g, Dataset):
                h = Graph()
                h.addAll(Triple(q.subject, q.predicate, q.object) for q in g)
                g = h
            ctx.call("serialize_ntriples", serialize_ntriples, g, out)
        else:
            asc = True
            if isinstance(g, Graph):
                h = Dataset()
                h.addAll(Quad(t.subject, t.predicate, t.object, None) for t in g)
                g = h
            ctx.call("serialize_nquads", serialize_nquads, g, out)
        text = out.getvalue()
        ctx.log("step", step, fmt, reader, text)
        if reader != fmt:
            ctx.ev("cross reads")
        g = load(ctx, reader, text)
        trail.append((fmt, reader, sorted(kw)))
        agree(ctx, flat(ctx, g), st, "after %r" % (trail,), text, ascii=asc)
        ctx.ev("triples", len(st))
    ctx.sample((trail, text))
    ctx.sig("chain", str(trail), features(st))


def case(ctx, i):
    rng = ctx.rng
    r = rng.random()
    if r < 0.3:
        same_everywhere(ctx, rng)
    elif r < 0.45:
        quads_everywhere(ctx, rng)
    else:
        chain(ctx, rng)


def bulk(ctx, key):
    """One large graph through every syntax in turn."""
    n = key
    P = I("http://e/ns#p")
    st = {(I("http://e/ns#s%d" % (k % 50)), P, L("v%d" % k, "en" if k % 3 else None)) for k in range(n)} | {(B(k), P, B(k * 7 % n)) for k in range(n)} | {(B(k), I("http://e/in"), I("http://e/ns#s%d" % k)) for k in range(0, n, 2)}
    doc = linegen.document(ctx.rng, gen.shuffled(ctx.rng, st), eol="\n")
    g = load(ctx, "nt", doc)
    for fmt, reader in (("ttl", "ttl"), ("nt", "ttl"), ("nq", "nq"), ("nt", "nt")):
        out = io.StringIO()
        if isinstance(g, Dataset):
            h = Graph()
            h.addAll(Triple(q.subject, q.predicate, q.object) for q in g)
            g = h
        if fmt == "nq":
            h = Dataset()
            h.addAll(Quad(t.subject, t.predicate, t.object, None) for t in g)
            g = h
        ctx.ev("writes:" + fmt)
        ctx.call(fmt, {"ttl": serialize_turtle, "nt": serialize_ntriples, "nq": serialize_nquads}[fmt], g, out)
        g = load(ctx, reader, out.getvalue())
        ctx.same(len(g), len(st), "statements after %s" % fmt)
        agree(ctx, flat(ctx, g), st, "a graph of %d statements through %s" % (len(st), fmt), out.getvalue()[:2000], ascii=True)
    ctx.sig("bulk", key)


bulk.keys = lambda tier: [60, 550, 1100] + ([5000] if tier == "thorough" else [])
SWEEPS = [bulk]
