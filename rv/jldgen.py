"""JSON-LD spellings of a set of quads (embedded contexts only)."""
import json
import re

from . import gen
from .model import RDFNS, XSD, B, I, L

ABS = re.compile(r"^[A-Za-z][A-Za-z0-9+.-]*:[^\s]*$")
TYPE = I(RDFNS + "type")
# lexical forms that JSON numbers and booleans denote
NATIVE = {("true", XSD + "boolean"): True, ("false", XSD + "boolean"): False}
for _n in (0, 1, -1, 42, 10 ** 15):
    NATIVE[(str(_n), XSD + "integer")] = _n
for _s, _v in (("1.5E0", 1.5), ("-2.5E-1", -0.25), ("5.0E-1", 0.5), ("1.25E2", 125.25 - 0.25)):
    pass
NATIVE[("1.5E0", XSD + "double")] = 1.5
NATIVE[("-2.5E-1", XSD + "double")] = -0.25
NATIVE[("5.0E-1", XSD + "double")] = 0.5


def iri(rng):
    """IRIs that JSON-LD keeps as they are."""
    while True:
        x = gen.iri(rng)
        if ABS.match(x) and not re.search(r"\s", x) and x not in (RDFNS + "first", RDFNS + "rest", RDFNS + "nil"):
            return x


def literal(rng):
    r = rng.random()
    if r < 0.15:
        (lex, dt), _ = rng.choice(sorted(NATIVE.items()))
        return L(lex, None, dt)
    t = gen.literal(rng, iri_fn=iri)
    if t[2]:
        lang = t[2].lower()
        if not re.match(r"^[a-z]{1,8}(-[a-z0-9]{1,8})*$", lang):
            lang = "en"
        return L(t[1], lang)
    if t[3] == XSD + "double":  # JSON-LD processors may canonicalise doubles
        return L("1.5E0", None, t[3])
    if t[3] in (RDFNS + "JSON", RDFNS + "langString"):
        return L(t[1])
    return t


def quads(rng, n=None):
    """Reference quads expressible in JSON-LD."""
    n = rng.choice([1, 1, 2, 3, 5, 8, 13]) if n is None else n
    subs = [I(iri(rng)) for _ in range(rng.randrange(1, 4))] + [B("b%d" % k) for k in range(rng.choice([0, 1, 2, 4]))]
    preds = [I(iri(rng)) for _ in range(rng.randrange(1, 4))] + ([TYPE] if rng.random() < 0.5 else [])
    objs = subs + [I(iri(rng))]
    names = [None, None] + [I("http://g.example/%d" % k) for k in range(rng.randrange(0, 3))]
    if rng.random() < 0.35:
        names.append(B(rng.choice(["g", "b0"])))
    if rng.random() < 0.3:
        names.append(rng.choice([s for s in subs if s[0] == "I"]))
    out = set()
    for _ in range(n):
        p = rng.choice(preds)
        o = rng.choice(objs) if rng.random() < 0.5 else literal(rng)
        out.add((rng.choice(subs), p, o, rng.choice(names)))
    return out


class Spell:
    """One JSON-LD document denoting the quads (plus the lists it invents)."""

    def __init__(self, rng, stmts, plain=False):
        self.rng = rng
        self.stmts = set(stmts)
        self.features = set()
        self.ctx = {}
        self.nfresh = 0
        self.plain = plain
        self.labels = {}
        self.options = None
        preds = sorted({s[1][1] for s in stmts})
        self.terms = {}
        self.prefixes = {}
        self.vocab = None
        self.deflang = None
        self.base = None
        if plain:
            return
        if rng.random() < 0.35:
            for p in preds:
                if rng.random() < 0.5:
                    self.terms[p] = "t%d" % len(self.terms)
                    self.ctx[self.terms[p]] = p if rng.random() < 0.5 else {"@id": p}
                    self.features.add("term")
        if rng.random() < 0.3:
            self.prefixes["ex"] = "http://example.org/"
            self.ctx["ex"] = "http://example.org/"
            self.features.add("prefix")
        if rng.random() < 0.2:
            self.vocab = "http://example.com/"
            self.ctx["@vocab"] = self.vocab
            self.features.add("vocab")
        if rng.random() < 0.2:
            self.deflang = rng.choice(["en", "fr", "de-de"])
            self.ctx["@language"] = self.deflang
            self.features.add("default language")
        if rng.random() < 0.25:
            self.base = "http://example.org/"
            if rng.random() < 0.5:
                self.ctx["@base"] = self.base
            else:
                self.options = {"base": "http://example.org/doc"}
            self.features.add("base")

    def label(self, b):
        if b not in self.labels:
            self.labels[b] = "_:" + self.rng.choice(["b%d", "x%d", "g%d", "a.b%d", "n-%d", "_%d"]) % len(self.labels)
            if self.rng.random() < 0.3:
                self.labels[b] = "_:b%d" % len(self.labels)
            while list(self.labels.values()).count(self.labels[b]) > 1:
                self.labels[b] += "z"
        return self.labels[b]

    def compact(self, x):
        ns = self.prefixes.get("ex")
        if ns and x.startswith(ns) and x != ns and not x[len(ns):].startswith("/") and self.rng.random() < 0.7:
            self.features.add("compact IRI")
            return "ex:" + x[len(ns):]
        return x

    def ident(self, t):
        """@id value."""
        if t[0] == "B":
            return self.label(t)
        x = t[1]
        if self.base and x.startswith(self.base) and re.match(r"^[A-Za-z][A-Za-z0-9/]*$", x[len(self.base):]) and self.rng.random() < 0.7:
            self.features.add("relative @id")
            return x[len(self.base):]
        return self.compact(x)

    def key(self, p):
        if p in self.terms and self.rng.random() < 0.8:
            return self.terms[p]
        if self.vocab and p.startswith(self.vocab) and re.match(r"^[A-Za-z]+$", p[len(self.vocab):]) and p[len(self.vocab):] not in self.ctx:
            self.features.add("vocab term")
            return p[len(self.vocab):]
        return self.compact(p)

    def value(self, o, graph):
        """A JSON value for an object term."""
        rng = self.rng
        if o[0] != "L":
            return {"@id": self.ident(o)}
        _, text, lang, dt = o
        if (text, dt) in NATIVE and rng.random() < 0.8:
            self.features.add("native")
            v = NATIVE[(text, dt)]
            return v if rng.random() < 0.6 else {"@value": v}
        if lang:
            if self.deflang == lang and rng.random() < 0.7:
                self.features.add("uses default language")
                return text
            self.features.add("language")
            return {"@value": text, "@language": lang if rng.random() < 0.7 else lang.upper()}
        if dt is None or dt == XSD + "string":
            if self.deflang is None and rng.random() < 0.6:
                return text
            if dt is None and rng.random() < 0.7:
                return {"@value": text} if self.deflang is None or rng.random() < 0.5 else {"@value": text, "@language": None} if False else {"@value": text}
            return {"@value": text, "@type": XSD + "string"}
        self.features.add("typed")
        return {"@value": text, "@type": self.compact(dt)}

    def fresh(self):
        self.nfresh += 1
        return B(("list", self.nfresh))

    def maybe_list(self, s, p, graph):
        """Invent a list value for s p: extends self.stmts."""
        rng = self.rng
        members = [rng.choice([literal(rng), I(iri(rng)), B("b0")]) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        if rng.random() < 0.3 and len(members) > 1:
            members.append(members[0])
        cells = [self.fresh() for _ in members]
        nil = I(RDFNS + "nil")
        self.stmts.add((s, p, cells[0] if cells else nil, graph))
        for k, c in enumerate(cells):
            self.stmts.add((c, I(RDFNS + "first"), members[k], graph))
            self.stmts.add((c, I(RDFNS + "rest"), cells[k + 1] if k + 1 < len(cells) else nil, graph))
        self.features.add("list")
        return {"@list": [self.value(m, graph) for m in members]}

    def nodes(self, graph, todo):
        """Node objects for the statements of one graph."""
        rng = self.rng
        out = []
        todo = gen.shuffled(rng, todo)
        while todo:
            s = todo[0][0]
            mine = [t for t in todo if t[0] == s]
            if rng.random() < 0.3:
                mine = mine[:rng.randrange(1, len(mine) + 1)]
            todo = [t for t in todo if t not in mine]
            node = {"@id": self.ident(s)}
            pairs = []
            for _, p, o, _g in mine:
                if p == TYPE and o[0] != "L" and rng.random() < 0.7:
                    node.setdefault("@type", []).append(self.typ(o))
                    self.features.add("@type")
                elif o[0] != "L" and rng.random() < 0.15:
                    # said from the other side
                    out.append({"@id": self.ident(o), "@reverse": {self.key(p[1]): [{"@id": node["@id"]}]}})
                    self.features.add("reverse")
                else:
                    pairs.append((p, o))
            if rng.random() < 0.12 and not self.plain:
                pairs.append((I("http://example.org/members"), "LIST"))
            for p, o in pairs:
                v = self.maybe_list(s, p, graph) if o == "LIST" else self.value(o, graph)
                if isinstance(o, tuple) and o[0] != "L" and rng.random() < 0.3:
                    # embed the object's own statements
                    sub = [t for t in todo if t[0] == o and t[2][0] == "L"]
                    if sub:
                        todo = [t for t in todo if t not in sub]
                        for _, p2, o2, _g in sub:
                            v.setdefault(self.key(p2[1]), []).append(self.value(o2, graph))
                        self.features.add("embedded")
                if rng.random() < 0.15:
                    v = {"@set": [v]}
                    self.features.add("set")
                k = self.key(p[1])
                if k in node:
                    if not isinstance(node[k], list):
                        node[k] = [node[k]]
                    node[k].append(v)
                else:
                    node[k] = v if rng.random() < 0.5 else [v]
            if isinstance(node.get("@type"), list) and len(node["@type"]) == 1 and rng.random() < 0.5:
                node["@type"] = node["@type"][0]
            out.append(node)
        return out

    def typ(self, o):
        return self.label(o) if o[0] == "B" else self.compact(o[1])

    def doc(self):
        rng = self.rng
        by = {}
        for s in self.stmts:
            by.setdefault(s[3], []).append(s)
        items = []
        for g in gen.shuffled(rng, by):
            nodes = self.nodes(g, by[g])
            if g is None:
                items += nodes
            else:
                self.features.add("named graph " + g[0])
                if rng.random() < 0.3 and len(nodes) > 1:
                    k = rng.randrange(1, len(nodes))
                    items.append({"@id": self.ident(g), "@graph": nodes[:k]})
                    nodes = nodes[k:]
                items.append({"@id": self.ident(g), "@graph": nodes})
        rng.shuffle(items)
        if self.ctx or rng.random() < 0.3:
            d = {"@context": self.ctx, "@graph": items}
        elif rng.random() < 0.3:
            d = {"@graph": items}
        else:
            d = items
        # through text, as a user would have it
        return json.loads(json.dumps(d))


def document(rng, stmts, plain=False):
    """(json document, options, quads it denotes, features)"""
    s = Spell(rng, stmts, plain)
    d = s.doc()
    return d, s.options, s.stmts, s.features
