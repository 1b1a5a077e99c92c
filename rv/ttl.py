"""An independent Turtle 1.1 reader: strict recursive descent over the W3C grammar.

read(text, base) -> set of reference statements, or raises TurtleError.
"""
import re

from .model import RDFNS, XSD, resolve

BASE = (r"A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D"
        r"\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF")
U = BASE + "_"
CH = U + r"0-9\u00B7\u0300-\u036F\u203F-\u2040\-"
HEX = "[0-9A-Fa-f]"
UCHAR = r"\\u%s{4}|\\U%s{8}" % (HEX, HEX)
ECHAR = r"\\[tbnrf\"'\\]"
PLX = r"%%%s%s|\\[_~.\-!$&'()*+,;=/?#@%%]" % (HEX, HEX)
PREFIX = "[%s](?:[%s.]*[%s])?" % (BASE, CH, CH)
LOCAL = "(?:[%s:0-9]|%s)(?:(?:[%s.:]|%s)*(?:[%s:]|%s))?" % (U, PLX, CH, PLX, CH, PLX)

WS = re.compile(r"(?:[\x20\x09\x0D\x0A]|#[^\x0D\x0A]*)*")
TOKENS = [(k, re.compile(p)) for k, p in (
    ("IRIREF", r"<(?:[^\x00-\x20<>\"{}|^`\\]|%s)*>" % UCHAR),
    ("LONG", r"'''(?:(?:''|')?(?:[^'\\]|%s|%s))*'''|\"\"\"(?:(?:\"\"|\")?(?:[^\"\\]|%s|%s))*\"\"\"" % (ECHAR, UCHAR, ECHAR, UCHAR)),
    ("SHORT", r"'(?:[^\x27\x5C\x0A\x0D]|%s|%s)*'|\"(?:[^\x22\x5C\x0A\x0D]|%s|%s)*\"" % (ECHAR, UCHAR, ECHAR, UCHAR)),
    ("BNODE", "_:[%s0-9](?:[%s.]*[%s])?" % (U, CH, CH)),
    ("PNAME", "(?:%s)?:(?:%s)?" % (PREFIX, LOCAL)),
    ("AT", r"@[a-zA-Z]+(?:-[a-zA-Z0-9]+)*"),
    ("DOUBLE", r"[+-]?(?:[0-9]+\.[0-9]*|\.[0-9]+|[0-9]+)[eE][+-]?[0-9]+"),
    ("DECIMAL", r"[+-]?[0-9]*\.[0-9]+"),
    ("INTEGER", r"[+-]?[0-9]+"),
    ("ANON", r"\[[\x20\x09\x0D\x0A]*\]"),
    ("WORD", r"(?i:prefix|base)|true|false|a"),
    ("DT", r"\^\^"),
    ("P", r"[.;,\[\]()]"),
)]
ECH = {"t": "\t", "b": "\b", "n": "\n", "r": "\r", "f": "\f", '"': '"', "'": "'", "\\": "\\"}


class TurtleError(Exception):
    pass


def unesc(s):
    def f(m):
        x = m.group(0)[1:]
        if x[0] in "uU":
            n = int(x[1:], 16)
            if n > 0x10FFFF or 0xD800 <= n <= 0xDFFF:
                raise TurtleError("not a character: %r" % x)
            return chr(n)
        return ECH[x]

    return re.sub(r"\\(?:u[0-9A-Fa-f]{4}|U[0-9A-Fa-f]{8}|.)", f, s, flags=re.S)


def lex(text):
    pos, out = 0, []
    n = len(text)
    while True:
        pos = WS.match(text, pos).end()
        if pos >= n:
            break
        for kind, rx in TOKENS:
            m = rx.match(text, pos)
            if m:
                out.append((kind, m.group(0), pos))
                pos = m.end()
                break
        else:
            raise TurtleError("no token at %d: %r" % (pos, text[pos:pos + 40]))
    out.append(("END", "", pos))
    return out


class _Reader:
    def __init__(self, text, base):
        self.toks = lex(text)
        self.i = 0
        self.base = base
        self.prefixes = {}
        self.out = set()
        self.n = 0

    def peek(self):
        return self.toks[self.i]

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def isp(self, c):
        k, v, _ = self.peek()
        return k == "P" and v == c

    def need(self, c):
        k, v, p = self.next()
        if k != "P" or v != c:
            raise TurtleError("expected %r, found %r at %d" % (c, v, p))

    def fresh(self):
        self.n += 1
        return ("B", ("anon", self.n))

    def add(self, s, p, o):
        self.out.add((s, p, o))

    def iriref(self):
        k, v, p = self.next()
        if k != "IRIREF":
            raise TurtleError("expected IRI, found %r at %d" % (v, p))
        return self.do_iri(v)

    def do_iri(self, v):
        x = unesc(v[1:-1])
        if re.search(r"[\x00-\x20<>\"{}|^`\\]", x):
            raise TurtleError("illegal character in IRI %r" % x)
        return resolve(self.base, x)

    def pname(self, v):
        ns, _, ln = v.partition(":")
        if ns not in self.prefixes:
            raise TurtleError("undeclared prefix %r" % ns)
        return self.prefixes[ns] + re.sub(r"\\(.)", r"\1", ln)

    def doc(self):
        while self.peek()[0] != "END":
            k, v, p = self.peek()
            if k == "AT" and v in ("@prefix", "@base"):
                self.next()
                self.directive(v[1:])
                self.need(".")
            elif k == "WORD" and v.lower() in ("prefix", "base"):
                self.next()
                self.directive(v.lower())
            else:
                self.triples()
                self.need(".")
        return self.out

    def directive(self, what):
        if what == "prefix":
            k, v, p = self.next()
            if k != "PNAME" or v[-1] != ":" or v.count(":") != 1:
                raise TurtleError("bad prefix name %r" % v)
            self.prefixes[v[:-1]] = self.iriref()
        else:
            self.base = self.iriref()

    def triples(self):
        if self.isp("["):
            s = self.bnpl()
            if not self.isp("."):
                self.pol(s)
            return
        self.pol(self.subject())

    def subject(self):
        k, v, p = self.peek()
        if k == "IRIREF" or k == "PNAME" or k == "BNODE" or k == "ANON":
            return self.node()
        if self.isp("("):
            return self.collection()
        raise TurtleError("no subject at %d: %r" % (p, v))

    def node(self):
        k, v, p = self.next()
        if k == "IRIREF":
            return ("I", self.do_iri(v))
        if k == "PNAME":
            return ("I", self.pname(v))
        if k == "BNODE":
            return ("B", ("label", v))
        if k == "ANON":
            return self.fresh()
        raise TurtleError("no node at %d: %r" % (p, v))

    def verb(self):
        k, v, p = self.peek()
        if k == "WORD" and v == "a":
            self.next()
            return ("I", RDFNS + "type")
        if k in ("IRIREF", "PNAME"):
            return self.node()
        raise TurtleError("no verb at %d: %r" % (p, v))

    def pol(self, s):
        p = self.verb()
        self.objs(s, p)
        while self.isp(";"):
            self.next()
            k, v, _ = self.peek()
            if k in ("IRIREF", "PNAME") or (k == "WORD" and v == "a"):
                p = self.verb()
                self.objs(s, p)

    def objs(self, s, p):
        self.add(s, p, self.object())
        while self.isp(","):
            self.next()
            self.add(s, p, self.object())

    def bnpl(self):
        self.need("[")
        s = self.fresh()
        self.pol(s)
        self.need("]")
        return s

    def collection(self):
        self.need("(")
        items = []
        while not self.isp(")"):
            items.append(self.object())
        self.need(")")
        node = ("I", RDFNS + "nil")
        for it in reversed(items):
            c = self.fresh()
            self.add(c, ("I", RDFNS + "first"), it)
            self.add(c, ("I", RDFNS + "rest"), node)
            node = c
        return node

    def object(self):
        k, v, p = self.peek()
        if k in ("IRIREF", "PNAME", "BNODE", "ANON"):
            return self.node()
        if self.isp("("):
            return self.collection()
        if self.isp("["):
            return self.bnpl()
        self.next()
        if k in ("SHORT", "LONG"):
            x = unesc(v[1:-1] if k == "SHORT" else v[3:-3])
            k2, v2, p2 = self.peek()
            if k2 == "AT":
                self.next()
                return ("L", x, v2[1:], None)
            if k2 == "DT":
                self.next()
                k3, v3, p3 = self.peek()
                if k3 not in ("IRIREF", "PNAME"):
                    raise TurtleError("no datatype at %d" % p3)
                return ("L", x, None, self.node()[1])
            return ("L", x, None, XSD + "string")
        if k in ("INTEGER", "DECIMAL", "DOUBLE"):
            return ("L", v, None, XSD + k.lower())
        if k == "WORD" and v in ("true", "false"):
            return ("L", v, None, XSD + "boolean")
        raise TurtleError("no object at %d: %r" % (p, v))


def read(text, base=""):
    return _Reader(text, base).doc()
