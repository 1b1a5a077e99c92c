"""Conversion between reference terms and pymantic objects."""
from pymantic.primitives import BlankNode, Literal, NamedNode, Quad, Triple


class Maker:
    """Reference term -> pymantic term; one BlankNode per reference bnode."""

    def __init__(self):
        self.b = {}

    def term(self, t):
        if t is None:
            return None
        if t[0] == "I":
            return NamedNode(t[1])
        if t[0] == "B":
            if t not in self.b:
                self.b[t] = BlankNode()
            return self.b[t]
        return Literal(t[1], t[2], NamedNode(t[3]) if t[3] is not None else None)

    def triple(self, s):
        return Triple(*map(self.term, s))

    def quad(self, s):
        return Quad(*map(self.term, s))


class Reader:
    """pymantic term -> reference term; blank nodes named by identity."""

    def __init__(self, maker=None):
        self.ids = {}
        self.keep = []
        if maker:
            for t, n in maker.b.items():
                self.ids[id(n)] = t
                self.keep.append(n)

    def term(self, n):
        if n is None:
            return None
        if isinstance(n, BlankNode):
            if id(n) not in self.ids:
                self.ids[id(n)] = ("B", "n%d" % len(self.ids))
                self.keep.append(n)
            return self.ids[id(n)]
        if isinstance(n, Literal):
            v, l, d = n.value, n.language, n.datatype
            if not isinstance(v, str) or not (l is None or isinstance(l, str)) or not (d is None or isinstance(d, NamedNode)):
                return ("?", type(n).__name__, repr(tuple(n)))
            return ("L", str(v), None if l is None else "".join(l), None if d is None else "".join(d))
        if isinstance(n, NamedNode):
            return ("I", "".join(n))
        return ("?", type(n).__name__, repr(n))

    def stmt(self, s):
        if isinstance(s, Quad):
            return (self.term(s.subject), self.term(s.predicate), self.term(s.object), self.term(s.graph))
        if isinstance(s, Triple):
            return (self.term(s.subject), self.term(s.predicate), self.term(s.object))
        return (("?", type(s).__name__, repr(s)),)

    def stmts(self, it, ctx=None, what="iteration"):
        """Set of statements; duplicates in the iteration are a violation."""
        out = [self.stmt(s) for s in it]
        ss = set(out)
        if ctx is not None:
            ctx.expect(len(ss) == len(out), lambda: "%s reports a statement more than once: %r" % (what, [s for s in ss if out.count(s) > 1][:3]))
        return ss
