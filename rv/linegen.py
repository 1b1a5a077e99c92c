"""Spells reference statements as N-Triples / N-Quads documents, in every legal way."""
from . import gen

ECH = {"\t": "\\t", "\b": "\\b", "\n": "\\n", "\r": "\\r", "\f": "\\f", '"': '\\"', "'": "\\'", "\\": "\\\\"}


def uesc(rng, c):
    n = ord(c)
    if n > 0xFFFF or rng.random() < 0.3:
        h = "%08x" % n
        k = "\\U"
    else:
        h = "%04x" % n
        k = "\\u"
    return k + "".join(x.upper() if rng.random() < 0.5 else x for x in h)


def spell_text(rng, text, quote='"', raw_newlines=False, p_esc=0.1):
    out = []
    for c in text:
        must = c == "\\" or c == quote or (c in "\n\r" and not raw_newlines)
        r = rng.random()
        if must or r < p_esc:
            if c in ECH and rng.random() < 0.7:
                out.append(ECH[c])
            else:
                out.append(uesc(rng, c))
        else:
            out.append(c)
    return "".join(out)


def spell_iri(rng, iri, p_esc=0.05):
    return "<" + "".join(uesc(rng, c) if rng.random() < p_esc else c for c in iri) + ">"


# blank node labels: first, inner and last character classes of the grammar
FIRST = list("abzAZ_09") + ["\u00c0", "\u00d6", "\u00d8", "\u00f6", "\u00f8", "\u02ff", "\u0370", "\u037d", "\u037f", "\u1fff", "\u200c", "\u200d", "\u2070", "\u218f", "\u2c00", "\u2fef", "\u3001", "\ud7ff", "\uf900", "\ufdcf", "\ufdf0", "\ufffd", "\U00010000", "\U000effff"]
LAST = FIRST + ["-", "\u00b7", "\u0300", "\u036f", "\u203f", "\u2040"]
INNER = LAST + ["."]
COLON = [":"]


def label(rng, colon=True):
    extra = COLON if colon else []
    n = rng.choice([1, 1, 2, 2, 3, 5, 9, 30])
    first = rng.choice(FIRST + extra)
    if n == 1:
        return first
    inner = "".join(rng.choice(INNER + extra) for _ in range(n - 2))
    if rng.random() < 0.15:
        inner += "." * rng.randrange(1, 4)
    return first + inner + rng.choice(LAST + extra)


class Labels:
    def __init__(self, rng, colon=True, simple=False):
        self.rng, self.colon, self.simple = rng, colon, simple
        self.m = {}

    def __call__(self, t):
        if t not in self.m:
            used = set(self.m.values())
            while True:
                if self.simple:
                    x = "b%d" % len(used)
                elif used and self.rng.random() < 0.3:  # near-collisions
                    b = self.rng.choice(sorted(used))
                    x = self.rng.choice([b + "0", b.swapcase(), b + "_", "_" + b, b[:-1] or "x", b + "-", b + ".a"])
                    if x[0] in "-.\u00b7\u0300\u036f\u203f\u2040" or x[-1] == ".":
                        continue
                else:
                    x = label(self.rng, self.colon)
                if x not in used:
                    break
            self.m[t] = x
        return self.m[t]


def term(rng, t, labels):
    if t[0] == "I":
        return spell_iri(rng, t[1])
    if t[0] == "B":
        return "_:" + labels(t)
    s = '"' + spell_text(rng, t[1]) + '"'
    if t[2]:
        return s + "@" + t[2]
    if t[3]:
        return s + "^^" + spell_iri(rng, t[3])
    return s


def ws(rng, must=False):
    r = rng.random()
    if r < 0.35 and not must:
        return ""
    if r < 0.8:
        return " "
    return "".join(rng.choice(" \t") for _ in range(rng.randrange(1, 5)))


def comment(rng):
    body = rng.choice(["", " comment", "<a> <b> <c> .", ' "', " \\u12", " .", "#", " caf\u00e9 \u2028 \x0b \x00 \ufeff", "@prefix", gen.text(rng).replace("\n", "").replace("\r", "")])
    return "#" + body


def document(rng, stmts, eol=None, labels=None):
    """stmts: ordered statements (3 or 4 terms, None graph omitted)."""
    labels = labels or Labels(rng)
    style = rng.choice(["plain", "tight", "messy", "messy"])
    eols = [eol] if eol else rng.choice([["\n"], ["\n"], ["\r\n"], ["\r"], ["\n", "\r\n", "\r", "\n\n", "\n\r\n \n"]])
    out = []

    def junk():
        while style == "messy" and rng.random() < 0.3:
            out.append(rng.choice(["", " ", "\t ", ws(rng) + comment(rng)]) + rng.choice(eols))

    junk()
    for k, s in enumerate(stmts):
        parts = [term(rng, t, labels) for t in s if t is not None]
        line = ws(rng) if style == "messy" else ""
        for j, p in enumerate(parts):
            nxt = parts[j + 1] if j + 1 < len(parts) else None
            # a label (or language tag) must not run into what follows
            need = nxt is not None and (p.startswith("_:") or (p[0] == '"' and p[-1] not in '">')) and not nxt.startswith(("<", '"'))
            line += p
            if style == "plain":
                line += " "
            elif style == "tight":
                line += " " if need else ""
            else:
                line += ws(rng, need)
        line += "."
        if style == "messy":
            line += ws(rng)
            if rng.random() < 0.3:
                line += comment(rng)
        out.append(line + (rng.choice(eols) if k < len(stmts) - 1 or rng.random() < 0.7 else ""))
        if out[-1][-1:] in "\r\n" and out[-1]:
            junk()
    return "".join(out)
