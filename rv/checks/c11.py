"""C11: base and prefix scoping and IRI resolution in Turtle."""
from pymantic.parsers import turtle_parser

from rv import linegen, ttlgen
from rv.checks.c10 import parse, triples
from rv.model import RDFNS, B, I, L, isomorphic, map_terms, merge_string, resolve, show, split_uri

RULE = "distinct (base components, reference components) pairs resolved, and distinct directive/use interleavings"
ASSUMES = ["references without a base are outside the property except that documents do not influence one another"]
COUNT = {"quick": 4800, "thorough": 60000}
MIN_EVENTS = {"oracle:evaluations": 3000, "references": 20000, "pnames": 3000, "rebinds": 400, "documents in series": 500}

SEGS = ["a", "b", "g", "", ".", "..", "...", ".g", "g.", "..g", "x;y=1", "d=e", "%7E", "%2e", "\u00e9", "a:b", "a@b", "~u", "a+b", "c,d", "(e)", "!", "*"]
AUTH = ["a", "e.org", "e.org:80", "u:p@h", "[::1]", "", "x-y.z:8080"]
Q = ["", "q", "a=b&c=d", "x/y", "../z", "?", "a:b", "\u00e9", "u=http://h.org/x", "//"]
F = ["", "f", "s/../x", "?q", "a:b", "/", "%23", "http://h.org/", "//x"]
BASES = ["http://a/b/c/d;p?q", "http://a", "http://a/", "http://a/b", "http://a/b/", "http://a/b/c", "http://a/b/c#f", "http://a/b?x=/y/z", "http://a?q", "http://a#f", "http://a/b/../c/./d", "http://a//b//c", "https://u:p@h:1/x/y/", "file:///a/b", "ftp://f/a/b/c/d/e", "http://e.org/ns#", "http://a/b/c/..", "http://a/b/.", "http://\u00e9/\u00e8/x", "HTTP://A/B", "urn:", "urn:a", "urn:a:b/c/d", "mailto:x@y", "tag:e,2020:d/e/f?q", "x:?q", "file:a/b", "x:a/../b/..", "urn:a/..#f"]


def path(rng, lead=None):
    segs = [rng.choice(SEGS) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6]))]
    p = "/".join(segs)
    if lead is not None:
        return lead + p if p or lead else ""
    return p


def reference(rng):
    """(reference, is it relative)"""
    r = rng.random()
    if r < 0.1:
        s = rng.choice(["http", "https", "urn", "mailto", "g", "x-1.y+z", "HTTP"])
        return s + ":" + rng.choice(["", "//" + rng.choice(AUTH)]) + rng.choice(["", "/"]) + path(rng).lstrip("/") + (("?" + rng.choice(Q)) if rng.random() < 0.2 else "") + (("#" + rng.choice(F)) if rng.random() < 0.2 else "")
    out = ""
    if r < 0.2:
        out = "//" + rng.choice(AUTH)
        p = path(rng, "/") if rng.random() < 0.8 else ""
    elif r < 0.4:
        p = path(rng, "/")
        if p.startswith("//"):
            p = "/x" + p
    elif r < 0.5:
        p = ""
    else:
        p = path(rng)
        if p.startswith("/"):
            p = "y" + p
        if ":" in p.split("/")[0]:
            p = "./" + p
    out += p
    if rng.random() < 0.25:
        out += "?" + rng.choice(Q)
    if rng.random() < 0.25:
        out += "#" + rng.choice(F)
    return out


def base_iri(rng):
    if rng.random() < 0.5:
        return rng.choice(BASES)
    return rng.choice(["http", "https", "ftp"]) + "://" + rng.choice([a for a in AUTH if a]) + (path(rng, "/") if rng.random() < 0.9 else "") + ("?" + rng.choice(Q) if rng.random() < 0.2 else "") + ("#" + rng.choice(F) if rng.random() < 0.15 else "")


class State:
    def __init__(self, ctx, base):
        self.ctx, self.rng, self.base = ctx, ctx.rng, base
        self.prefixes = {}
        self.toks, self.want = [], set()
        self.n = 0

    def iri(self):
        """Emit an IRI; returns what it denotes."""
        rng = self.rng
        if self.prefixes and rng.random() < 0.45:
            p = rng.choice(sorted(self.prefixes))
            loc = rng.choice(["x", "y1", "", "a.b", "z-1"])
            self.toks.append(p + ":" + loc)
            self.ctx.ev("pnames")
            return self.prefixes[p] + loc
        ref = reference(rng)
        x = resolve(self.base, ref)
        self.toks.append(linegen.spell_iri(rng, ref))
        self.ctx.ev("references")
        self.ctx.sig(tuple(k is not None and (k == "" or ".." in k or "." in k.split("/")) for k in split_uri(self.base)), tuple(k is not None and (k == "" or ".." in k.split("/"), "." in k.split("/")) for k in split_uri(ref)))
        return x

    def directive(self):
        rng = self.rng
        if rng.random() < 0.45:
            ref = base_iri(rng) if rng.random() < 0.4 else reference(rng)
            new = resolve(self.base, ref)
            if split_uri(new)[0] is None or split_uri(new)[1] is None or not new.lower().startswith(("http", "ftp", "file")):
                ref = new = base_iri(rng)
            if rng.random() < 0.5:
                self.toks += ["@base", linegen.spell_iri(rng, ref), "."]
            else:
                self.toks += [rng.choice(["BASE", "base", "Base"]), linegen.spell_iri(rng, ref)]
            self.base = new
            return "b"
        p = rng.choice(["p", "q", "", "ex", "a", "x.y"])
        ref = reference(rng) if rng.random() < 0.6 else rng.choice(["http://ns/", "http://ns/a#", "urn:n:"])
        if p in self.prefixes:
            self.ctx.ev("rebinds")
        if rng.random() < 0.5:
            self.toks += ["@prefix", p + ":", linegen.spell_iri(rng, ref), "."]
        else:
            self.toks += [rng.choice(["PREFIX", "prefix"]), p + ":", linegen.spell_iri(rng, ref)]
        self.prefixes[p] = resolve(self.base, ref)
        return "p"

    def statement(self):
        rng = self.rng
        s = I(self.iri())
        p = I(self.iri())
        r = rng.random()
        if r < 0.5:
            self.want.add((s, p, I(self.iri())))
        elif r < 0.65:
            self.toks += ['"v%d"' % self.n, ("glue", "^^")]
            self.want.add((s, p, L("v%d" % self.n, None, self.iri())))
        elif r < 0.8:
            b = B(self.n)
            self.toks.append("[")
            p2 = I(self.iri())
            self.want |= {(s, p, b), (b, p2, I(self.iri()))}
            self.toks.append("]")
        else:
            b = B(self.n)
            self.toks.append("(")
            self.want |= {(s, p, b), (b, I(RDFNS + "first"), I(self.iri())), (b, I(RDFNS + "rest"), I(RDFNS + "nil"))}
            self.toks.append(")")
        self.toks.append(".")
        self.n += 1


def make(ctx, base):
    st = State(ctx, base)
    shape = ""
    for _ in range(ctx.rng.choice([1, 2, 4, 8, 12])):
        if ctx.rng.random() < 0.5:
            shape += st.directive()
        else:
            shape += "s"
            st.statement()
    st.statement()
    ctx.sig("shape", shape)
    return ttlgen.join(ctx.rng, st.toks), st


def judge(ctx, text, base, want):
    got = triples(ctx, parse(ctx, text, base))
    ctx.expect(isomorphic(got, map_terms(want, merge_string)), lambda: "names resolve differently (base %r)\n-- document:\n%s\n-- denotes:\n%s\n-- parsed:\n%s" % (base, text[:3000], show(want)[:3000], show(got)[:3000]), text)


def case(ctx, i):
    rng = ctx.rng
    if i % 4 == 3:
        # a series of documents: none may influence the others
        loose = "PREFIX q: <http://loose/>\n<x> <http://e/p> q:y, <../z>, <#f> ."
        first = triples(ctx, parse(ctx, loose, form="text"))
        docs = []
        for _ in range(rng.randrange(2, 5)):
            b = base_iri(rng)
            docs.append((make(ctx, b), b))
        rng.shuffle(docs)
        for (text, st), b in docs + docs[:1]:
            judge(ctx, text, b, st.want)
            ctx.ev("documents in series")
            ctx.same(triples(ctx, parse(ctx, loose, form=rng.choice(["text", "parse_string text", "bytes", "text stream", "byte stream"]))), first, "a document without a base, parsed after others")
            ctx.raises("turtle.parse", Exception, turtle_parser.parse, "ex:a ex:b ex:c .")
            ctx.raises("turtle.parse", Exception, turtle_parser.parse, ":a :b :c .")
        return
    b = base_iri(rng)
    text, st = make(ctx, b)
    judge(ctx, text, b, st.want)
    ctx.sample("base %s\n%s" % (b, text))


RFC = """g:h g:h|g http://a/b/c/g|./g http://a/b/c/g|g/ http://a/b/c/g/|/g http://a/g|//g http://g|?y http://a/b/c/d;p?y|g?y http://a/b/c/g?y|#s http://a/b/c/d;p?q#s|g#s http://a/b/c/g#s|g?y#s http://a/b/c/g?y#s|;x http://a/b/c/;x|g;x http://a/b/c/g;x|g;x?y#s http://a/b/c/g;x?y#s| http://a/b/c/d;p?q|. http://a/b/c/|./ http://a/b/c/|.. http://a/b/|../ http://a/b/|../g http://a/b/g|../.. http://a/|../../ http://a/|../../g http://a/g|../../../g http://a/g|../../../../g http://a/g|/./g http://a/g|/../g http://a/g|g. http://a/b/c/g.|.g http://a/b/c/.g|g.. http://a/b/c/g..|..g http://a/b/c/..g|./../g http://a/b/g|./g/. http://a/b/c/g/|g/./h http://a/b/c/g/h|g/../h http://a/b/c/h|g;x=1/./y http://a/b/c/g;x=1/y|g;x=1/../y http://a/b/c/y|g?y/./x http://a/b/c/g?y/./x|g?y/../x http://a/b/c/g?y/../x|g#s/./x http://a/b/c/g#s/./x|g#s/../x http://a/b/c/g#s/../x|http:g http:g"""


def rfc_examples(ctx):
    """RFC 3986 section 5.4, via caller base, @base, BASE, prefix and relative base."""
    for row in RFC.split("|"):
        ref, want = row.split(" ")
        assert resolve("http://a/b/c/d;p?q", ref) == want
        for text, base in (("<%s> <http://e/p> 1 ." % ref, "http://a/b/c/d;p?q"),
                           ("@base <http://a/b/c/d;p?q> . <%s> <http://e/p> 1 ." % ref, ""),
                           ("BASE <http://a/b/c/d;p?q> <%s> <http://e/p> 1 ." % ref, "http://other/x"),
                           ("@prefix p: <%s> . @base <http://other/> . p: <http://e/p> 1 ." % ref, "http://a/b/c/d;p?q"),
                           ("BASE <http://a/b/x> BASE <c/d;p?q> PREFIX p: <%s> BASE <zzz> p: <http://e/p> 1 ." % ref, "")):
            judge(ctx, text, base, {(I(want), I("http://e/p"), L("1", None, "http://www.w3.org/2001/XMLSchema#integer"))})
        ctx.sig("rfc", ref)


def redefinition(ctx):
    for text, want in (
        ("@prefix p: <http://1/> . p:a p:b p:c . @prefix p: <http://2/> . p:a p:b p:c .", [("http://1/", "http://1/", "http://1/"), ("http://2/", "http://2/", "http://2/")]),
        ("PREFIX p: <http://1/> p:a p:b p:c . PREFIX q: <http://1/> PREFIX p: <http://2/> q:a p:b q:c .", [("http://1/", "http://1/", "http://1/"), ("http://1/", "http://2/", "http://1/")]),
        ("@base <http://1/x> . @prefix p: <y/> . @base <http://2/> . p:a <b> p:c . @prefix p: <y/> . p:a <b> p:c .", [("http://1/y/", "http://2/", "http://1/y/"), ("http://2/y/", "http://2/", "http://2/y/")]),
    ):
        judge(ctx, text, "http://caller/z", {(I(a + "a"), I(b + "b"), I(c + "c")) for a, b, c in want})
    for text in ("p:a p:b p:c . @prefix p: <http://1/> .", "@prefix p: <http://1/> . p:a p:b q:c . PREFIX q: <http://2/>", "@prefix P: <http://1/> . p:a p:b p:c .", "@prefix p: <http://1/> . :a :b :c ."):
        ctx.raises("turtle.parse", Exception, turtle_parser.parse, text)
    ctx.sig("redefinition")


def grid(ctx, key):
    """Every base of the table with every combination of reference parts."""
    base = BASES[key]
    refs = []
    for a in ("", "//g", "//g:1", "//"):
        for p in ["", "/", "g", "/g", ".", "..", "./", "../", "../..", "../../", "../../../g", "./g", "g/", "g/.", "g/..", "g/../h", "g/./h", "./.", "/..", "/.", "/./g", "/../g", "//" if a else "/x//", "g//h", "..//g", ".../g", "g/...", "%2e%2e/g"]:
            if a and p and not p.startswith("/"):
                p = "/" + p
            for q in ("", "?", "?y", "?a/../b", "?u=http://h/x"):
                for f in ("", "#", "#s", "#a/../b", "#http://h/x"):
                    refs.append(a + p + q + f)
    refs = list(dict.fromkeys(refs))
    text = "".join("<http://e/s%d> <http://e/p> <%s> .\n" % (k, r) for k, r in enumerate(refs))
    want = {(I("http://e/s%d" % k), I("http://e/p"), I(resolve(base, r))) for k, r in enumerate(refs)}
    judge(ctx, text, base, want)
    judge(ctx, "@base <%s> .\n%s" % (base, text), "http://other.example/x/y", want)
    ctx.ev("references", len(refs))
    ctx.sig("grid", key)


def many(ctx, key):
    """Hundreds of bases, prefixes and rebindings in one document."""
    n = key
    text, want, base = [], set(), "http://start.example/d/e"
    P = I("http://e/p")
    pre = {}
    for k in range(n):
        kind = k % 5
        if kind == 0:
            ref = ["../b%d/x" % k, "c%d/" % k, "http://h%d/a/b" % k, "/r%d/s/t" % k, "?q%d" % k][k // 5 % 5]
            text.append(("@base <%s> ." if k % 2 else "BASE <%s>") % ref)
            base = resolve(base, ref)
        elif kind in (1, 2):
            name = "p%d" % (k % 37)
            ref = ["n%d#" % k, "../n%d/" % k, "http://n%d/" % k, "#f%d-" % k][k // 5 % 4]
            text.append(("@prefix %s: <%s> ." if k % 2 else "PREFIX %s: <%s>") % (name, ref))
            pre[name] = resolve(base, ref)
        s = I("http://e/s%d" % k)
        text.append("<http://e/s%d> <http://e/p> <../o%d> , <> , <#x> ." % (k, k))
        want |= {(s, P, I(resolve(base, r))) for r in ("../o%d" % k, "", "#x")}
        for name in sorted(pre)[k % 3 :: 11]:
            text.append("<http://e/s%d> <http://e/q> %s:l%d ." % (k, name, k))
            want.add((s, I("http://e/q"), I(pre[name] + "l%d" % k)))
    judge(ctx, "\n".join(text), "http://start.example/d/e", want)
    ctx.ev("references", 3 * n)
    ctx.sig("many", key)


many.keys = lambda tier: [60, 400, 1500] + ([6000] if tier == "thorough" else [])
grid.keys = lambda tier: list(range(len(BASES)))
SWEEPS = [grid, many]
FIXED = [rfc_examples, redefinition]
