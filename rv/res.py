"""Shared parts of the Resource checks: classes, values, and the selection rules as a specification."""

from pymantic.primitives import Graph, NamedNode
from pymantic.rdf import Resource, register_class

from . import gen
from .model import RDFNS, XSD, B, I, L
from .pm import Maker, Reader

EX = "http://example.org/ns#"
RDFS = "http://www.w3.org/2000/01/rdf-schema#"
TYPE = I(RDFNS + "type")


class Thing(Resource):
    prefixes = {"ex": EX}
    scalars = frozenset(("ex:one", "http://example.org/ns#two"))


@register_class("ex:Person")
class Person(Thing):
    pass


@register_class("ex:Student")
class Student(Person):
    scalars = frozenset(("ex:three",))


@register_class("ex:Place")
class Place(Thing):
    pass


class French(Thing):
    lang = "fr"


class British(Person):
    lang = "en-gb"


class Unregistered(Thing):
    pass


REGISTERED = {EX + "Person": Person, EX + "Student": Student, EX + "Place": Place}
CLASSES = [Thing, Person, Student, Place, French, British, Unregistered, Resource]
SCALARS = {Thing: {EX + "one", EX + "two", RDFS + "label"}}
for _c in (Person, Place, French, British, Unregistered):
    SCALARS[_c] = SCALARS[Thing]
SCALARS[Student] = SCALARS[Thing] | {EX + "three"}
SCALARS[Resource] = {RDFS + "label"}
LANG = {French: "fr", British: "en-gb"}
PREDS = [EX + "one", EX + "two", EX + "three", EX + "many", EX + "other", RDFS + "label", "http://elsewhere.example/p"]
LANGS = ["en", "en-us", "en-gb", "fr", "fr-ca", "de", "en-latn-us", "en-latn", "zh-hant", "e", "eng"]
DTS = [XSD + "integer", XSD + "dateTime", XSD + "string", XSD + "date", XSD + "int", EX + "date", XSD + "Date", EX + "dt", "http://example.org/dt", "http://www.w3.org/2001/XMLSchema-datatypes#integer"]


def lang_match(a, b):
    """Equal, or one is the bare primary language of the other."""
    return a == b or a == b.split("-")[0] or b == a.split("-")[0]


def literal(rng):
    r = rng.random()
    t = rng.choice(["", "a", "b", "x y", "5", "\u00e9"]) if rng.random() < 0.8 else gen.text(rng)
    if r < 0.45:
        return L(t, rng.choice(LANGS))
    if r < 0.75:
        return L(t, None, rng.choice(DTS))
    return L(t)


NODES = [I(EX + "n%d" % k) for k in range(4)] + [B("n%d" % k) for k in range(3)]


def node(rng):
    return rng.choice(NODES)


class Room:
    """A graph around a resource, with its model."""

    def __init__(self, ctx, cls=None):
        rng = ctx.rng
        self.ctx, self.rng = ctx, rng
        self.m = Maker()
        self.model = set()
        self.graph = Graph()
        self.cls = cls or rng.choice(CLASSES)
        self.subject = rng.choice(NODES)
        self.busy = rng.sample(PREDS, rng.choice([1, 2, 3]))
        for n in NODES:
            for t in list(REGISTERED) + [EX + "Unknown"]:
                if rng.random() < 0.18:
                    self.put((n, TYPE, I(t)))
        for _ in range(rng.choice([0, 1, 2, 4, 8, 14])):
            self.put(self.random_triple())
        if rng.random() < 0.004:
            ctx.ev("large resources")
            for k in range(rng.choice([140, 400, 1100])):
                _, p, o = self.random_triple()
                self.put((self.subject, p, ("L", "%s%d" % (o[1], k), o[2], o[3]) if o[0] == "L" else I(EX + "m%d" % k)))
        for _ in range(rng.choice([0, 3, 6])):
            self.put((node(rng), I(rng.choice(PREDS)), literal(rng) if rng.random() < 0.5 else node(rng)))
        self.res = self.cls(self.graph, self.m.term(self.subject))
        self.lang = LANG.get(self.cls, "en")
        if rng.random() < 0.1:
            self.lang = self.res.lang = rng.choice(["fr", "de", "en-us"])

    def random_triple(self):
        rng = self.rng
        return (self.subject, I(rng.choice(self.busy)), literal(rng) if rng.random() < 0.65 else node(rng))

    def put(self, t):
        self.graph.add(self.m.triple(t))
        self.model.add(t)

    def drop(self, t):
        self.graph.remove(self.m.triple(t))
        self.model.discard(t)

    # -- what the properties say ---------------------------------------------------
    def values(self, p):
        return {o for s, q, o in self.model if s == self.subject and q == I(p)}

    def scalar(self, p):
        return p in SCALARS[self.cls]

    def types(self, n):
        return {o[1] for s, q, o in self.model if s == n and q == TYPE and o[0] == "I"}

    def is_instance(self, n, cls):
        """Is n, classified, an instance of cls?"""
        if cls is Resource:
            return True
        return any(issubclass(REGISTERED[t], cls) for t in self.types(n) if t in REGISTERED)

    def by(self, p, kind, x=None):
        v = self.values(p)
        if kind == "lang":
            return {o for o in v if o[0] == "L" and o[2] and lang_match(o[2], x)}
        if kind == "dt":
            return {o for o in v if o[0] == "L" and o[3] == x}
        if kind == "typed":
            return {o for o in v if o[0] == "L" and o[3] is not None}
        if kind == "bare":
            return {o for o in v if o[0] == "L" and o[2] is None and o[3] is None}
        if kind == "refs":
            return {o for o in v if o[0] != "L"}
        if kind == "class":
            return {o for o in v if o[0] != "L" and self.is_instance(o, x)}
        raise KeyError(kind)

    def selected(self, p, flt):
        """flt: ("plain",) ("all",) ("lang", x) ("dt", x) ("bare",) ("class", c)"""
        k = flt[0]
        if k == "plain":
            if not self.scalar(p):
                return self.values(p)
            return self.by(p, "lang", self.lang) or self.by(p, "refs") or self.by(p, "typed") or self.by(p, "bare")
        if k == "all":
            return self.values(p)
        if k in ("lang", "dt"):
            return self.by(p, k, flt[1]) | (set() if self.scalar(p) else self.by(p, "refs"))
        if k == "bare":
            return self.by(p, "bare")
        return self.by(p, "class", flt[1])

    # -- keys --------------------------------------------------------------------------
    def key(self, p, flt):
        rng = self.rng
        forms = [p, NamedNode(p)]
        if p.startswith(EX) and self.cls is not Resource:
            forms += ["ex:" + p[len(EX):], "[ex:%s]" % p[len(EX):]] * 2
        if p.startswith(RDFS):
            forms += ["rdfs:" + p[len(RDFS):]] * 2
        f = rng.choice(forms)
        k = flt[0]
        if k == "plain":
            return f
        if k == "all":
            return (f, None)
        if k == "lang":
            return (f, flt[1])
        if k == "dt":
            return (f, NamedNode(flt[1]))
        if k == "bare":
            return (f, rng.choice(["", NamedNode(XSD + "string"), NamedNode("")]))
        return (f, flt[1])

    def filter(self):
        rng = self.rng
        r = rng.random()
        if r < 0.35:
            return ("plain",)
        if r < 0.42:
            return ("all",)
        if r < 0.62:
            return ("lang", rng.choice(LANGS))
        if r < 0.78:
            return ("dt", rng.choice([d for d in DTS if d != XSD + "string"]))
        if r < 0.86:
            return ("bare",)
        return ("class", rng.choice(CLASSES))

    # -- observations --------------------------------------------------------------------
    def term(self, x):
        """Reference term of a returned value (Resource or literal)."""
        if isinstance(x, Resource):
            return Reader(self.m).term(x.subject)
        return Reader(self.m).term(x)

    def see(self, what):
        ctx = self.ctx
        got = Reader(self.m).stmts(self.graph, ctx, "the graph")
        ctx.same(got, self.model, "the graph after %s" % what)
        ctx.same(len(self.graph), len(self.model), "its length after %s" % what)
