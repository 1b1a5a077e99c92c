"""Reference side: terms as plain tuples, isomorphism, strict line reader, RFC 3986.

Terms:  ("I", iri)   ("B", key)   ("L", text, lang|None, datatype-iri|None)
Nothing here imports pymantic; conversion from/to pymantic terms is in `pm.py`.
"""
import re


class HarnessError(Exception):
    """The check itself is at fault: no verdict."""


XSD = "http://www.w3.org/2001/XMLSchema#"
RDFNS = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
XSD_STRING = XSD + "string"
ILLEGAL_IRI = set(chr(c) for c in range(0x21)) | set('<>"{}|^`\\')


def I(x):
    return ("I", x)


def B(x):
    return ("B", x)


def L(text, lang=None, dt=None):
    return ("L", text, lang, dt)


def merge_string(t):
    """plain literal == xsd:string literal"""
    if t is not None and t[0] == "L" and t[2] is None and t[3] == XSD_STRING:
        return ("L", t[1], None, None)
    return t


_SAFE = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~%:/?#[]@!$&'()*+,;=")


def pct_ascii(iri):
    """The ASCII form in which an IRI may be written: non-ASCII percent-encoded."""
    return "".join(c if ord(c) < 128 else "".join("%%%02X" % b for b in c.encode("utf-8")) for c in iri)


def map_terms(stmts, f):
    return {tuple(f(t) if t is not None else None for t in s) for s in stmts}


def ascii_term(t):
    if t[0] == "I":
        return ("I", pct_ascii(t[1]))
    if t[0] == "L" and t[3] is not None:
        return ("L", t[1], t[2], pct_ascii(t[3]))
    return t


# -- isomorphism -------------------------------------------------------------

def bnodes(stmts):
    return {t for s in stmts for t in s if t is not None and t[0] == "B"}


def _refine(stmts_a, stmts_b):
    """Joint colour refinement; returns two dicts bnode -> colour.

    Both graphs are refined as one disjoint union, and after a class splits only
    the neighbours of the nodes that changed class are looked at again."""
    index, keys, inc = {}, [], []
    shapes = {}
    for side, stmts in ((0, stmts_a), (1, stmts_b)):
        for s in stmts:
            bs = []
            for t in s:
                if t is not None and t[0] == "B":
                    k = index.get((side, t))
                    if k is None:
                        k = index[side, t] = len(keys)
                        keys.append((side, t))
                        inc.append([])
                    bs.append(k)
                else:
                    bs.append(None)
            for k in set(x for x in bs if x is not None):
                shape = tuple(t if x is None else 1 if x == k else 2 for t, x in zip(s, bs))
                inc[k].append((shapes.setdefault(shape, len(shapes)), tuple(x for x in bs if x is not None and x != k)))
    n = len(keys)
    near = [sorted({o for _, os in row for o in os}) for row in inc]
    color = [0] * n
    members = {0: set(range(n))}
    fresh = 1
    dirty = set(range(n))
    while dirty:
        by_class = {}
        for k in dirty:
            by_class.setdefault(color[k], []).append(k)
        changed = []
        for c, ks in by_class.items():
            groups = {}
            for k in ks:
                sig = tuple(sorted((sh,) + tuple(color[o] for o in os) for sh, os in inc[k]))
                groups.setdefault(sig, []).append(k)
            parts = list(groups.values())
            rest = len(members[c]) - len(ks)
            parts.sort(key=len)
            if rest:
                if len(parts[-1]) > rest:  # the untouched members move instead
                    parts[-1] = list(members[c].difference(ks))
            else:
                parts.pop()
            changed.append((c, parts))
        dirty = set()
        for c, parts in changed:
            for part in parts:
                for k in part:
                    color[k] = fresh
                    dirty.update(near[k])
                members[c].difference_update(part)
                members[fresh] = set(part)
                fresh += 1
    ca, cb = {}, {}
    for k, (side, t) in enumerate(keys):
        (cb if side else ca)[t] = color[k]
    return ca, cb


def isomorphic(a, b):
    """a, b: sets of statements (tuples of terms, None allowed in 4th place).

    Individualisation and refinement, one connected component at a time."""
    return _iso(set(a), set(b), [200000], 0)


def _ground(s):
    for t in s:
        if t is not None and t[0] == "B":
            return False
    return True


def _subst(stmts, m):
    return {tuple(m.get(t, t) if t is not None else None for t in s) for s in stmts}


def _components(stmts):
    parent = {}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    for s in stmts:
        bs = [t for t in s if t is not None and t[0] == "B"]
        for t in bs:
            parent.setdefault(t, t)
        for t in bs[1:]:
            parent[find(t)] = find(bs[0])
    out = {}
    for s in stmts:
        for t in s:
            if t is not None and t[0] == "B":
                out.setdefault(find(t), set()).add(s)
                break
    return list(out.values())


def _iso(a, b, budget, depth):
    if len(a) != len(b):
        return False
    if {s for s in a if _ground(s)} != {s for s in b if _ground(s)}:
        return False
    a = {s for s in a if not _ground(s)}
    b = {s for s in b if not _ground(s)}
    if not a:
        return True
    ca, cb = _refine(a, b)
    if sorted(ca.values()) != sorted(cb.values()):
        return False
    count = {}
    for c in ca.values():
        count[c] = count.get(c, 0) + 1
    a = _subst(a, {x: ("S", depth, c) for x, c in ca.items() if count[c] == 1})
    b = _subst(b, {x: ("S", depth, c) for x, c in cb.items() if count[c] == 1})
    if {s for s in a if _ground(s)} != {s for s in b if _ground(s)}:
        return False

    def keyed(stmts, col):
        out = {}
        for comp in _components(stmts):
            k = (len(comp), tuple(sorted(col[x] for x in bnodes(comp))))
            out.setdefault(k, []).append(comp)
        return out

    ka = keyed({s for s in a if not _ground(s)}, ca)
    kb = keyed({s for s in b if not _ground(s)}, cb)
    if {k: len(v) for k, v in ka.items()} != {k: len(v) for k, v in kb.items()}:
        return False
    for k, comps in ka.items():
        rest = list(kb[k])
        for comp in comps:
            for n, other in enumerate(rest):
                if _comp_iso(comp, other, ca, cb, budget, depth):
                    del rest[n]
                    break
            else:
                return False
    return True


def _comp_iso(a, b, ca, cb, budget, depth):
    xs, ys = sorted(bnodes(a), key=repr), sorted(bnodes(b), key=repr)
    size = {}
    for x in xs:
        size[ca[x]] = size.get(ca[x], 0) + 1
    x = min(xs, key=lambda v: size[ca[v]])
    for y in ys:
        if cb[y] != ca[x]:
            continue
        budget[0] -= 1
        if budget[0] < 0:
            raise HarnessError("isomorphism budget exhausted")
        mark = ("S", depth, "x")
        if _iso(_subst(a, {x: mark}), _subst(b, {y: mark}), budget, depth + 1):
            return True
    return False


def show(stmts):
    out = []
    for s in stmts:
        out.append(" ".join("-" if t is None else "<%s>" % t[1] if t[0] == "I" else "_:%s" % (t[1],) if t[0] == "B" else
                            repr(t[1]) + ("@" + t[2] if t[2] else "") + ("^^" + t[3] if t[3] else "") if t[0] == "L" else repr(t) for t in s))
    return "\n".join(sorted(out))


# -- strict N-Triples / N-Quads line reader (W3C grammar, output subset) --------

_PN_BASE = (r"A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D"
            r"\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF")
_PN_U = _PN_BASE + "_:"
_PN = _PN_U + r"\-0-9\u00B7\u0300-\u036F\u203F-\u2040"
_UCHAR = r"\\u[0-9A-Fa-f]{4}|\\U[0-9A-Fa-f]{8}"
_IRI = r"<((?:[^\x00-\x20<>\"{}|^`\\]|" + _UCHAR + r")*)>"
_BN = r"_:([" + _PN_U + r"0-9](?:[" + _PN + r".]*[" + _PN + r"])?)"
_LIT = (r"\"((?:[^\"\\\x0A\x0D]|\\[tbnrf\"'\\]|" + _UCHAR + r")*)\""
        r"(?:\^\^<((?:[^\x00-\x20<>\"{}|^`\\]|" + _UCHAR + r")*)>|@([a-zA-Z]+(?:-[a-zA-Z0-9]+)*))?")
_WS = r"[ \t]*"
_TOK = re.compile("(?:%s|%s|%s)" % (_IRI, _BN, _LIT))
_ECH = {"t": "\t", "b": "\b", "n": "\n", "r": "\r", "f": "\f", '"': '"', "'": "'", "\\": "\\"}


def unescape(s):
    def f(m):
        x = m.group(0)
        if x[1] in "uU":
            return chr(int(x[2:], 16))
        return _ECH[x[1]]

    return re.sub(r"\\u[0-9A-Fa-f]{4}|\\U[0-9A-Fa-f]{8}|\\.", f, s, flags=re.S)


def read_statement(line, width):
    """One statement line (without newline) -> tuple of terms. width: 3 or 4."""
    pos, terms = 0, []
    while True:
        while pos < len(line) and line[pos] in " \t":
            pos += 1
        if line[pos:pos + 1] == ".":
            rest = line[pos + 1:].strip(" \t")
            if rest:
                raise ValueError("trailing text %r" % rest)
            break
        m = _TOK.match(line, pos)
        if not m:
            raise ValueError("no term at %d: %r" % (pos, line[pos:pos + 60]))
        if m.group(1) is not None:
            terms.append(("I", unescape(m.group(1))))
        elif m.group(2) is not None:
            terms.append(("B", m.group(2)))
        else:
            dt = m.group(4)
            terms.append(("L", unescape(m.group(3)), m.group(5), unescape(dt) if dt is not None else None))
        pos = m.end()
    if len(terms) == 3 and width == 4:
        terms.append(None)
    if len(terms) != width:
        raise ValueError("%d terms in %r" % (len(terms), line))
    s, p, o = terms[:3]
    if s[0] == "L" or p[0] != "I":
        raise ValueError("misplaced term in %r" % line)
    if width == 4 and terms[3] is not None and terms[3][0] == "L":
        raise ValueError("literal graph name in %r" % line)
    return tuple(terms)


# -- RFC 3986 section 5.2 ------------------------------------------------------

_URI = re.compile(r"^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?", re.S)


def split_uri(u):
    m = _URI.match(u)
    return m.group(2), m.group(4), m.group(5), m.group(7), m.group(9)


def remove_dots(path):
    out = []
    inp = path
    while inp:
        if inp.startswith("../"):
            inp = inp[3:]
        elif inp.startswith("./"):
            inp = inp[2:]
        elif inp.startswith("/./"):
            inp = inp[2:]
        elif inp == "/.":
            inp = "/"
        elif inp.startswith("/../"):
            inp = inp[3:]
            if out:
                out.pop()
        elif inp == "/..":
            inp = "/"
            if out:
                out.pop()
        elif inp in (".", ".."):
            inp = ""
        else:
            i = inp.find("/", 1) if inp.startswith("/") else inp.find("/")
            if i < 0:
                i = len(inp)
            out.append(inp[:i])
            inp = inp[i:]
    return "".join(out)


def resolve(base, ref):
    """RFC 3986 5.2.2 (strict); absolute references are taken verbatim."""
    rs, ra, rp, rq, rf = split_uri(ref)
    if rs is not None:
        return ref
    if not base:
        return ref
    bs, ba, bp, bq, bf = split_uri(base)
    if ra is not None:
        s, a, p, q = bs, ra, remove_dots(rp), rq
    else:
        if rp == "":
            p = bp
            q = rq if rq is not None else bq
        else:
            if rp.startswith("/"):
                p = remove_dots(rp)
            else:
                if ba is not None and bp == "":
                    mp = "/" + rp
                else:
                    mp = bp[: bp.rfind("/") + 1] + rp
                p = remove_dots(mp)
            q = rq
        s, a = bs, ba
    out = ""
    if s is not None:
        out += s + ":"
    if a is not None:
        out += "//" + a
    out += p
    if q is not None:
        out += "?" + q
    if rf is not None:
        out += "#" + rf
    return out


# -- strict N-Triples / N-Quads document reader --------------------------------

_TOKD = re.compile("(?:%s|%s|%s)" % (_IRI, _BN, _LIT.replace("(?:\\^\\^<", "[ \\t]*(?:\\^\\^[ \\t]*<")))


def _scalar_ok(s):
    for m in re.finditer(r"\\u([0-9A-Fa-f]{4})|\\U([0-9A-Fa-f]{8})|\\.", s, re.S):
        h = m.group(1) or m.group(2)
        if h and (int(h, 16) > 0x10FFFF or 0xD800 <= int(h, 16) <= 0xDFFF):
            return False
    return True


def read_lines(text, width):
    """Set of statements of a document, or ValueError if it violates the grammar.

    Lenient exactly where the grammar leaves room: relative IRIs, and white space
    between a literal and its datatype or language.
    """
    out = set()
    for line in re.split("[\r\n]+", text):
        pos, terms = 0, []
        n = len(line)

        def skip(pos):
            while pos < n and line[pos] in " \t":
                pos += 1
            return pos

        pos = skip(pos)
        if pos == n or line[pos] == "#":
            continue
        while True:
            pos = skip(pos)
            if line[pos:pos + 1] == ".":
                pos = skip(pos + 1)
                if pos < n and line[pos] != "#":
                    raise ValueError("trailing text")
                break
            m = _TOKD.match(line, pos)
            if not m or not _scalar_ok(m.group(0)):
                raise ValueError("no term at %d in %r" % (pos, line))
            if m.group(1) is not None:
                t = ("I", unescape(m.group(1)))
            elif m.group(2) is not None:
                t = ("B", m.group(2))
            else:
                dt = m.group(4)
                t = ("L", unescape(m.group(3)), m.group(5), unescape(dt) if dt is not None else None)
            for x in (t[1] if t[0] == "I" else None, t[3] if t[0] == "L" else None):
                if x is not None and any(c in ILLEGAL_IRI for c in x):
                    raise ValueError("illegal character in IRI")
            terms.append(t)
            pos = m.end()
        if len(terms) == 3 and width == 4:
            terms.append(None)
        if len(terms) != width:
            raise ValueError("%d terms" % len(terms))
        if terms[0][0] == "L" or terms[1][0] != "I" or (width == 4 and terms[3] is not None and terms[3][0] == "L"):
            raise ValueError("misplaced term")
        out.add(tuple(terms))
    return out
