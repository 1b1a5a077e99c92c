"""Shared parts of the N-Triples / N-Quads checks."""
import io
import os
import tempfile

from pymantic.parsers import nquads_parser, ntriples_parser
from pymantic.primitives import BlankNode, Dataset, Graph, Literal, NamedNode, Quad, Triple
from pymantic.serializers import serialize_nquads, serialize_ntriples

from . import gen
from .model import B, I, ascii_term, isomorphic, map_terms, show
from .pm import Maker, Reader


class Sink(io.TextIOBase):
    """A text stream that keeps what is written to it, and nothing more."""

    def __init__(self):
        super().__init__()
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def getvalue(self):
        return "".join(self.parts)


class LineStream(io.TextIOBase):
    """A minimal readable text stream, without a position to seek."""

    def __init__(self, text):
        super().__init__()
        self.f = io.StringIO(text)

    def readable(self):
        return True

    def readline(self, size=-1):  # iteration goes through it
        return self.f.readline(size)

    def read(self, n=-1):
        return self.f.read(n)


def make(ctx, stmts, quads):
    """(container, maker) for reference statements, added in random order."""
    m = Maker()
    g = Dataset() if quads else Graph()
    for s in gen.shuffled(ctx.rng, stmts):
        g.add(m.quad(s) if quads else m.triple(s))
    return g, m


def write(ctx, g, quads):
    out = ctx.rng.choice([Sink, io.StringIO])()
    ctx.call("serialize", serialize_nquads if quads else serialize_ntriples, g, out)
    return out.getvalue()


FORMS = ["parse-str", "parse_string-str", "parse_string-bytes", "parse-stream", "parse-minimal-stream", "parse-file"]


def read(ctx, text, quads, form=None, sink=None):
    p = nquads_parser if quads else ntriples_parser
    form = form or ctx.rng.choice(FORMS)
    ctx.ev("form:" + form)
    if sink is None:
        sink = ctx.rng.choice([None, Dataset() if quads else Graph()])
    if form == "parse-str":
        return ctx.call("parse", p.parse, text, sink)
    if form == "parse_string-str":
        return ctx.call("parse", p.parse_string, text, sink)
    if form == "parse_string-bytes":
        return ctx.call("parse", p.parse_string, text.encode("utf-8"), sink)
    if form == "parse-stream":
        return ctx.call("parse", p.parse, io.StringIO(text), sink)
    if form == "parse-minimal-stream":
        return ctx.call("parse", p.parse, LineStream(text), sink)
    with tempfile.TemporaryDirectory(prefix="rv_") as d:
        path = os.path.join(d, "x")
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        with open(path, encoding="utf-8") as f:
            return ctx.call("parse", p.parse, f, sink)


def stmts_of(ctx, g):
    return Reader().stmts(g, ctx, "the parsed result")


def roundtrip(ctx, stmts, quads, form=None):
    g, m = make(ctx, stmts, quads)
    text = write(ctx, g, quads)
    back = read(ctx, text, quads, form)
    got = map_terms(stmts_of(ctx, back), ascii_term)
    want = map_terms(stmts, ascii_term)
    ctx.expect(isomorphic(got, want), lambda: "round trip changed the data\n-- written:\n%s\n-- original:\n%s\n-- read back:\n%s" % (text[:3000], show(want)[:3000], show(got)[:3000]), text)
    # every original IRI that is plain ASCII comes back unchanged
    iris = {t[1] for s in stmts for t in s if t is not None and t[0] == "I"} | {t[3] for s in stmts for t in s if t is not None and t[0] == "L" and t[3]}
    back_iris = {t[1] for s in stmts_of(ctx, back) for t in s if t is not None and t[0] == "I"} | {t[3] for s in stmts_of(ctx, back) for t in s if t is not None and t[0] == "L" and t[3]}
    for x in iris:
        if x.isascii():
            ctx.expect(x in back_iris, "ASCII IRI %r did not come back" % x)
    ctx.same(stmts_of(ctx, g) and len(g), len(stmts) or set(), "the original after serialising")
    ctx.ev("statements", len(stmts))
    return text, back


def quads_of(rng, triples, names=None):
    names = names or [None] + [I("http://g.example/%d" % k) for k in range(rng.randrange(0, 3))] + ([B("b0")] if rng.random() < 0.3 else []) + ([I(gen.iri(rng))] if rng.random() < 0.3 else []) + ([B("g")] if rng.random() < 0.2 else [])
    out = set()
    for t in triples:
        for _ in range(rng.choice([1, 1, 1, 2])):
            out.add(t + (rng.choice(names),))
    return out


def features(stmts):
    """Shape of a statement set, for the distinct count."""
    f = set()
    for s in stmts:
        for t in s:
            if t is None:
                f.add("default")
            elif t[0] == "L":
                x = t[1]
                f.add(("L", bool(t[2]), t[3], any(ord(c) < 32 for c in x), any(ord(c) > 127 for c in x), any(ord(c) > 0xFFFF for c in x), '"' in x, "\\" in x, "\n" in x, len(x).bit_length()))
            elif t[0] == "I":
                f.add(("I", t[1].isascii(), "%" in t[1]))
            else:
                f.add("B")
    return sorted(map(repr, f)), len(stmts)


def cp_chunks(tier):
    """Every Unicode scalar value, in blocks of 0x400."""
    return ["%x" % k for k in range(0, 0x110000, 0x400) if not 0xD800 <= k <= 0xDFFF]


def singles(key, tier):
    """Characters of the block to test one by one."""
    k = int(key, 16)
    if tier == "thorough" or k < 0x1000 or 0x2000 <= k < 0x2400 or k in (0xF800, 0xFC00, 0xE000):
        return range(k, k + 0x400)
    return [k, k + 1, k + 0x3FE, k + 0x3FF]


def alike(nodes):
    """Nodes among these whose names are as alike as can be: equal ones if any,
    else the two that share the longest end, and the two that share the longest start."""
    out = []
    for key in (str, lambda n: str(n)[::-1]):
        names = sorted((key(n), k) for k, n in enumerate(nodes))
        best = (-1, 0, 0)
        for (a, j), (b, k) in zip(names, names[1:]):
            n = len(os.path.commonprefix((a, b))) - abs(len(a) - len(b)) * 0.5
            if n > best[0]:
                best = (n, j, k)
        out += [nodes[best[1]], nodes[best[2]]]
    seen = {id(n): n for n in out}
    return list(seen.values())


def scattered(ctx, quads):
    """Blank nodes spread over a large stretch of memory, written in one document."""
    nodes = [BlankNode() for _ in range(1000000)]
    by = {}
    twins = next(((by[x], n) for n in nodes for x in [n.toNT()] if by.setdefault(x, n) is not n), None)
    del by
    picked = list(twins or ()) + nodes[:: 50000] + nodes[-3:]
    picked = list({id(n): n for n in picked + alike(nodes)}.values())
    p = NamedNode("http://e/p")
    g = Dataset() if quads else Graph()
    for k, n in enumerate(picked):
        t = (n, p, Literal(str(k)))
        g.add(Quad(*t, None) if quads else Triple(*t))
    text = write(ctx, g, quads)
    back = stmts_of(ctx, read(ctx, text, quads))
    want = stmts_of(ctx, g)
    ctx.expect(isomorphic(back, want), lambda: "blank nodes far apart in memory were confused\n-- written:\n%s\n-- read back:\n%s" % (text, show(back)))
    ctx.ev("live blank nodes", len(nodes))
    ctx.sig("scattered")
