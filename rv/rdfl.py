"""Reference terms <-> rdflib (used for the SPARQL client checks)."""
import rdflib

from .model import XSD, B, I, L

rdflib.NORMALIZE_LITERALS = False


def to(t, bn):
    if t[0] == "I":
        return rdflib.URIRef(t[1])
    if t[0] == "B":
        if t not in bn:
            bn[t] = rdflib.BNode()
        return bn[t]
    return rdflib.Literal(t[1], lang=t[2], datatype=rdflib.URIRef(t[3]) if t[3] else None, normalize=False)


def of(t):
    if isinstance(t, rdflib.URIRef):
        return I(str(t))
    if isinstance(t, rdflib.BNode):
        return B(str(t))
    return L(str(t), t.language, str(t.datatype) if t.datatype is not None else None)


def graph(stmts, bn=None, cls=None):
    bn = {} if bn is None else bn
    g = (cls or rdflib.Graph)()
    for s in stmts:
        g.add(tuple(to(t, bn) for t in s))
    return g


def stmts(g):
    return {tuple(of(t) for t in s) for s in g.triples((None, None, None))}


PRED = ["http://example.org/ns#p", "http://example.org/ns#q", "http://example.org/ns#label", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "http://purl.org/dc/terms/title"]
NODES = ["http://example.org/a", "http://example.org/b", "http://example.org/c#d", "urn:x:1", "http://example.org/a?x=1&y=2", "http://example.org/%C3%A9", "http://example.org/\u00e9"]
WORDS = ["", "a", "b c", "caf\u00e9", "\u4e2d\u6587 \U0001F600", "<&>\"'", "line\nbreak", "tab\t", "back\\slash", " spaced ", "100%", "]]>", "{x}", "'''", "\\n"]


def tame(rng, n=None, nb=None):
    """Statements every rdflib syntax can carry."""
    n = rng.choice([0, 1, 2, 4, 8]) if n is None else n
    nb = rng.choice([0, 0, 1, 3]) if nb is None else nb
    subs = [I(rng.choice(NODES)) for _ in range(3)] + [B("b%d" % k) for k in range(nb)]
    out = set()
    for _ in range(n):
        r = rng.random()
        w = rng.choice(WORDS)
        o = rng.choice(subs) if r < 0.4 else L(w) if r < 0.6 else L(w, rng.choice(["en", "fr", "de-at"])) if r < 0.8 else rng.choice([L("5", None, XSD + "integer"), L("2020-01-01", None, XSD + "date"), L(w, None, "http://example.org/dt"), L("true", None, XSD + "boolean")])
        out.add((rng.choice(subs), I(rng.choice(PRED)), o))
    return out
