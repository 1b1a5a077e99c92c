"""Generates Turtle documents together with the triples they denote.

random_doc: grammar driven (random constructs, directives and redefinitions).
spell_graph: graph driven (a given set of triples in a random spelling).
Targets are absolute IRIs; each occurrence is spelled absolutely, relative to the
base in force, or as a prefixed name, whichever the current directives allow.
"""
import re

from . import gen
from .linegen import Labels, spell_iri, spell_text
from .model import RDFNS, XSD, B, I, resolve
from .ttl import CH as _CH
from .ttl import U as _U

CHR = re.compile("[%s:]" % _CH)
FIRST_OK = re.compile("[%s:0-9]" % _U)
ESC = set("_~.-!$&'()*+,;=/?#@%")
PREFIXES = ["", "p", "q", "ex", "a", "true", "false", "prefix", "base", "PREFIX", "rdf", "xsd", "x.y", "x-y", "x_1", "\u00e9", "A", "aa", "e", "E1", "zh\u4e2d", "b0", "x..y", "p\u00b7"]
NSS = ["http://example.org/", "http://example.org/ns#", "http://example.com/a/b/", "http://example.com/a/b/c?d=", "urn:x:", "http://example.org/a", "http://e.x/", "http://example.org/%20/"]
BASES = ["http://example.org/", "http://example.org/a/b/c", "http://example.org/a/b/c?q=1", "http://example.com/x/y/z#frag", "http://e.x", "https://h:8080/p/q/", "http://example.org/ns#", "file:///d/e/f"]
LOCALS = ["x", "y1", "z-z", "a.b", "a", "0", "12", "1.5", "", "_u", "a:b", ":", "%41", "a%20b", "a,b", "~t", "q?x=1", "n#f", "a/b", "-x", ".x", "x.", "a'b", "(c)", "x*", "!", "$1", "@", "a;b", "x+y", "a&b", "a=b", "\u00e9", "\u4e2d", "x\u00b7", "\U00010000", "true", "e5", "1e5", "prefix", "..", "a..b", "_", "__"]


def local(rng, s):
    """Spell s as PN_LOCAL, or None."""
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == "%" and re.match("%[0-9A-Fa-f]{2}", s[i:i + 3]) and rng.random() < 0.6:
            out.append(s[i:i + 3])
            i += 3
            continue
        first, last = i == 0, i == n - 1
        raw = CHR.match(c) or c == "."
        if raw and first and not FIRST_OK.match(c):
            raw = False
        if raw and last and c == ".":
            raw = False
        if raw and not (c in ESC and rng.random() < 0.15):
            out.append(c)
        elif c in ESC:
            out.append("\\" + c)
        else:
            return None
        i += 1
    return "".join(out)


def relative(rng, base, iri):
    """A reference that resolves to iri, if an easy one exists."""
    cands = []
    for k in range(len(iri) + 1):
        if k == 0 or iri[k - 1] in "/?#:" or iri[k:k + 1] in ("?", "#", "/", ""):
            cands.append(iri[k:])
    cands += ["./" + c for c in cands[:]] + ["../" + c for c in cands[:]] + ["../../" + c for c in cands[:]]
    ok = [c for c in cands if c != iri and not re.match("[^/?#]*:", c) and resolve(base, c) == iri]
    return rng.choice(ok) if ok else None


class Doc:
    def __init__(self, rng, base="", colon_labels=False, escapes=True):
        self.rng = rng
        self.base = base
        self.prefixes = {}
        self.toks = []
        self.triples = set()
        self.n = 0
        self.labels = Labels(rng, colon=False)
        self.features = set()
        self.escapes = escapes

    def t(self, *toks):
        self.toks += toks

    def fresh(self):
        self.n += 1
        return B(("anon", self.n))

    def add(self, s, p, o):
        self.triples.add((s, p, o))

    # -- directives -------------------------------------------------------------
    def prefix(self, name, ns):
        r = self.rng
        ref = self.iriref(ns)
        if r.random() < 0.5:
            self.t("@prefix", name + ":", ref, ".")
            self.features.add("@prefix")
        else:
            self.t(r.choice(["PREFIX", "prefix", "Prefix", "pReFiX"]), name + ":", ref)
            self.features.add("PREFIX")
        if name in self.prefixes:
            self.features.add("rebind")
        self.prefixes[name] = ns

    def set_base(self, b):
        r = self.rng
        ref = self.iriref(b)
        if r.random() < 0.5:
            self.t("@base", ref, ".")
            self.features.add("@base")
        else:
            self.t(r.choice(["BASE", "base", "Base"]), ref)
            self.features.add("BASE")
        self.base = b

    # -- terms ----------------------------------------------------------------------
    def iriref(self, iri):
        if self.base and self.rng.random() < 0.5:
            x = relative(self.rng, self.base, iri)
            if x is not None:
                self.features.add("relative")
                return spell_iri(self.rng, x, 0.05 if self.escapes else 0)
        return spell_iri(self.rng, iri, 0.05 if self.escapes else 0)

    def iri(self, iri, verb=False):
        r = self.rng
        if verb and iri == RDFNS + "type" and r.random() < 0.6:
            self.features.add("a")
            return "a"
        if r.random() < 0.65:
            fits = [(p, ns) for p, ns in self.prefixes.items() if iri.startswith(ns)]
            r.shuffle(fits)
            for p, ns in fits:
                l = local(r, iri[len(ns):])
                if l is not None:
                    self.features.add("pname")
                    if "\\" in l:
                        self.features.add("pname-escape")
                    return p + ":" + l
        return self.iriref(iri)

    def string(self, x):
        r = self.rng
        q = r.choice(['"', "'", '"""', "'''"])
        self.features.add(q)
        if len(q) == 1:
            return q + spell_text(r, x, q, p_esc=0.1) + q
        c = q[0]
        out, run = [], 0
        for j, ch in enumerate(x):
            if ch == c:
                # up to two raw quotes in a row, none at the end
                if run < 2 and j < len(x) - 1 and r.random() < 0.7:
                    out.append(ch)
                    run += 1
                    continue
                out.append("\\" + ch)
            elif ch == "\\":
                out.append("\\\\")
            else:
                out.append(spell_text(r, ch, c, raw_newlines=True, p_esc=0.08))
            run = 0
        return q + "".join(out) + q

    def literal(self, t):
        r = self.rng
        dt = t[3]
        short = {XSD + "integer": r"[+-]?[0-9]+", XSD + "decimal": r"[+-]?[0-9]*\.[0-9]+", XSD + "double": r"[+-]?([0-9]+\.[0-9]*|\.[0-9]+|[0-9]+)[eE][+-]?[0-9]+", XSD + "boolean": "true|false"}
        if dt in short and re.fullmatch(short[dt], t[1], re.A) and r.random() < 0.7:
            self.t(t[1])
            self.features.add("short:" + dt.rpartition("#")[2])
            return
        s = self.string(t[1])
        if t[2]:
            self.t(s)
            self.t(("glue" if r.random() < 0.9 else "", "@" + t[2]))
            self.features.add("lang")
        elif dt is None or (dt == XSD + "string" and r.random() < 0.7):
            self.t(s)
        else:
            self.t(s)
            self.t(("glue" if r.random() < 0.9 else "", "^^"))
            self.t(("glue" if r.random() < 0.9 else "", self.iri(dt)))
            self.features.add("dt")

    def text(self):
        return join(self.rng, self.toks)


def blanks(rng):
    return rng.choice(["", " ", "\n", " \t\r\n", " " * rng.randrange(2, 40), "\r\n    " * rng.randrange(1, 9)])


def ws(rng):
    r = rng.random()
    if r < 0.6:
        return " "
    if r < 0.8:
        return rng.choice(["\n", "\r\n", "\r", "\t", "\n\n  ", " \t "])
    if r < 0.88:
        return "  "
    if r < 0.9:
        return "".join(rng.choice(" \t\r\n") for k in range(rng.randrange(3, 60)))
    return rng.choice(["", " "]) + "#" + rng.choice(["", " c", "<a> <b> .", ' "', "'''", " \\", " [ ( ", "@prefix x: <y> .", " \u00e9\u2028\x0b"]) + rng.choice(["\n", "\r\n", "\r"]) + rng.choice(["", " "])


def join(rng, toks):
    """Join tokens with whitespace and comments, omitted only where that is safe."""
    style = rng.random()
    out = [ws(rng) if rng.random() < 0.2 else ""]
    prev = None
    must = False
    for tok in toks:
        glue = False
        if isinstance(tok, tuple):
            glue = tok[0] == "glue"
            tok = tok[1]
        if prev is not None and not glue:
            closed = prev in tuple("([,;)]") or prev[0] in "<[\"'"
            safe = not must and (closed or tok[0] in "<\"'([)],;") and not (prev[0] in "\"'" and tok[0] in "\"'")
            if prev.startswith(("@", "BASE", "base", "Base")) and tok[0] == "<":
                safe = not must
            must = False
            if tok == "." and not safe and rng.random() < 0.4:
                must = True
            elif safe and rng.random() < style:
                pass
            else:
                s = ws(rng)
                out.append(s)
        out.append(tok)
        prev = tok
    if must or rng.random() < 0.5:
        out.append(ws(rng))
    return "".join(out)


# -- grammar driven -----------------------------------------------------------------

def target(rng, doc):
    r = rng.random()
    if doc.prefixes and r < 0.55:
        return rng.choice(sorted(doc.prefixes.values())) + rng.choice(LOCALS)
    if doc.base and r < 0.7:
        return resolve(doc.base, rng.choice(["x", "../y", "/z", "#f", "?q=1", "", "a/b", "./c"]))
    return gen.iri(rng)


def node_obj(doc, depth):
    """Emit an object; returns its term."""
    rng = doc.rng
    r = rng.random()
    if r < 0.3:
        x = target(rng, doc)
        doc.t(doc.iri(x))
        return I(x)
    if r < 0.4:
        b = B(rng.randrange(4))
        doc.t("_:" + doc.labels(b))
        doc.features.add("label")
        return b
    if r < 0.45:
        doc.t("[" + blanks(rng) + "]")
        doc.features.add("anon")
        return doc.fresh()
    if r < 0.6 and depth > 0:
        doc.features.add("bnpl%d" % min(depth, 3))
        return bnpl(doc, depth - 1)
    if r < 0.72 and depth > 0:
        doc.features.add("coll%d" % min(depth, 3))
        return coll(doc, depth - 1)
    t = gen.literal(rng, iri_fn=lambda q: target(q, doc))
    doc.literal(t)
    return t


def bnpl(doc, depth):
    doc.t("[")
    s = doc.fresh()
    pol(doc, s, depth)
    doc.t("]")
    return s


def coll(doc, depth):
    doc.t("(")
    items = [node_obj(doc, depth) for _ in range(doc.rng.choice([0, 1, 1, 2, 3, 4] if doc.rng.random() < 0.97 else [5, 8, 8, 11, 17]))]
    doc.t(")")
    node = I(RDFNS + "nil")
    for it in reversed(items):
        c = doc.fresh()
        doc.add(c, I(RDFNS + "first"), it)
        doc.add(c, I(RDFNS + "rest"), node)
        node = c
    return node


def pol(doc, s, depth):
    rng = doc.rng
    for k in range(rng.choice([1, 1, 2, 3])):
        if k:
            doc.t(*[";"] * rng.choice([1, 1, 1, 2]))
        p = RDFNS + "type" if rng.random() < 0.2 else target(rng, doc)
        doc.t(doc.iri(p, verb=True))
        for j in range(rng.choice([1, 1, 1, 2, 3])):
            if j:
                doc.t(",")
                doc.features.add("objlist")
            doc.add(s, I(p), node_obj(doc, depth))
    if rng.random() < 0.15:
        doc.t(*[";"] * rng.choice([1, 1, 2]))
        doc.features.add("trailing;")


def statement(doc, depth):
    rng = doc.rng
    r = rng.random()
    if r < 0.5:
        x = target(rng, doc)
        doc.t(doc.iri(x))
        s = I(x)
    elif r < 0.65:
        s = B(rng.randrange(4))
        doc.t("_:" + doc.labels(s))
    elif r < 0.72:
        doc.t("[" + blanks(rng) + "]")
        s = doc.fresh()
        doc.features.add("anon-subject")
    elif r < 0.85:
        s = bnpl(doc, depth)
        doc.features.add("bnpl-subject")
        if rng.random() < 0.5:
            doc.t(".")
            return
    else:
        s = coll(doc, depth)
        doc.features.add("coll-subject")
    pol(doc, s, depth)
    doc.t(".")


def directive(doc):
    rng = doc.rng
    if rng.random() < 0.7:
        x = rng.choice(NSS) if rng.random() < 0.7 else gen.iri(rng)
        if doc.base and rng.random() < 0.4:
            x = resolve(doc.base, rng.choice(["ns#", "", "../", "/n/", "#", "?x=", "?u=http://h.org/", "#http://h.org/"]))
        doc.prefix(rng.choice(PREFIXES), x)
    else:
        b = rng.choice(BASES)
        if doc.base and rng.random() < 0.4:
            b = resolve(doc.base, rng.choice(["d/", "../e/f", "/r", "?b", "g"]))
        doc.set_base(b)


def random_doc(rng, n=None, depth=None, base=None):
    doc = Doc(rng, base if base is not None else rng.choice(["", "", rng.choice(BASES)]))
    doc.start_base = doc.base
    n = n if n is not None else rng.choice([1, 2, 3, 5, 8])
    depth = depth if depth is not None else rng.choice([0, 1, 2, 3])
    for _ in range(rng.randrange(0, 4)):
        directive(doc)
    for _ in range(n):
        if rng.random() < 0.25:
            directive(doc)
        statement(doc, depth)
    return doc


# -- graph driven ----------------------------------------------------------------------

def spell_graph(rng, stmts, base="", directives=True):
    doc = Doc(rng, base)
    doc.start_base = base
    doc.triples = set(stmts)
    if directives:
        for _ in range(rng.randrange(0, 5)):
            if rng.random() < 0.8:
                iris = [t[1] for s in stmts for t in s if t[0] == "I"] or ["http://example.org/"]
                x = rng.choice(sorted(iris))
                k = max(x.rfind(c) for c in "/#:?")
                doc.prefix(rng.choice(PREFIXES), x[: k + 1] if rng.random() < 0.8 else x)
            else:
                doc.set_base(rng.choice(BASES))
    by_s = {}
    refs = {}
    for s, p, o in stmts:
        by_s.setdefault(s, {}).setdefault(p, []).append(o)
        if o[0] == "B":
            refs[o] = refs.get(o, 0) + 1
    inl = {b for b, k in refs.items() if k == 1 and b in by_s and rng.random() < 0.7}
    reach, todo = set(), [s for s in by_s if s not in inl]
    while todo:
        x = todo.pop()
        if x in reach:
            continue
        reach.add(x)
        for os in by_s.get(x, {}).values():
            todo += [o for o in os if o in inl]
    inl &= reach
    F, R, NIL = I(RDFNS + "first"), I(RDFNS + "rest"), I(RDFNS + "nil")

    def as_list(c):
        items, seen = [], set()
        while c != NIL:
            d = by_s.get(c, {})
            if c in seen or c not in inl or set(d) != {F, R} or len(d[F]) != 1 or len(d[R]) != 1:
                return None
            seen.add(c)
            items.append(d[F][0])
            c = d[R][0]
        return items

    def obj(o):
        if o == NIL and rng.random() < 0.4:
            doc.t("(", ")")
        elif o[0] == "I":
            doc.t(doc.iri(o[1]))
        elif o[0] == "L":
            doc.literal(o)
        elif o in inl:
            items = as_list(o)
            if items is not None and rng.random() < 0.8:
                doc.t("(")
                for x in items:
                    obj(x)
                doc.t(")")
                doc.features.add("collection")
            else:
                doc.t("[")
                body(o)
                doc.t("]")
                doc.features.add("bnpl")
        elif o not in by_s and refs.get(o) == 1 and rng.random() < 0.5:
            doc.t("[" + blanks(rng) + "]")
        else:
            doc.t("_:" + doc.labels(o))

    def body(s):
        ps = gen.shuffled(rng, by_s[s])
        for k, p in enumerate(ps):
            if k:
                doc.t(";")
            doc.t(doc.iri(p[1], verb=True))
            for j, o in enumerate(gen.shuffled(rng, by_s[s][p])):
                if j:
                    doc.t(",")
                obj(o)

    for s in gen.shuffled(rng, [s for s in by_s if s not in inl]):
        if s[0] == "B" and s not in refs and rng.random() < 0.4:
            doc.t("[")
            body(s)
            doc.t("]", ".")
            continue
        doc.t(doc.iri(s[1]) if s[0] == "I" else "_:" + doc.labels(s))
        body(s)
        doc.t(".")
    return doc
