"""C13: malformed documents raise, leave the target alone and the parser usable."""
import glob
import io
import os
import re

from pymantic.parsers import nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import BlankNode, Dataset, Graph

from rv import gen, linegen, ttl, ttlgen
from rv.core import REPO
from rv.lines import LineStream, make, quads_of
from rv.model import HarnessError, B, I, L, isomorphic, map_terms, merge_string, read_lines, show
from rv.pm import Reader

RULE = "distinct (format, kind of damage, way of supplying) combinations refused by the parser, judged invalid by the reference readers"
ASSUMES = ["grammar = RDF 1.1 N-Triples/N-Quads/Turtle; relative IRIs in line formats and surrogate escapes are not tested", "rdf: and xsd: are predeclared", "streams: only that an exception is raised and the parser stays usable"]
COUNT = {"quick": 4800, "thorough": 60000}
MIN_EVENTS = {"oracle:evaluations": 6000, "refused": 3700, "refused:nt": 600, "refused:nq": 600, "refused:ttl": 900, "later parses": 2000, "faulty streams": 50}
PARSERS = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser}

# "@prefixp:" without a space: parsers differ, the property does not depend on it
GLUED = re.compile(r"@(prefix|base)[A-Za-z0-9_-]")
PRE = "@prefix p: <http://e/> .\n"
T = "<http://e/s> <http://e/p> "
BAD_NT = [
    "<http://e/s>", T, T + "<http://e/o>", T + "<http://e/o> . x", T + "<http://e/o> <http://e/g> <http://e/h> .", ".", "<http://e/s> .", "<http://e/s> <http://e/p> .",
    '"s" <http://e/p> <http://e/o> .', '<http://e/s> "p" <http://e/o> .', "<http://e/s> _:p <http://e/o> .", "_:s _:p _:o .", T + "<http://e/a b> .", T + "<http://e/a\tb> .", T + "<http://e/a\\u0020b> .", T + "<http://e/\\u003c> .", T + '<http://e/"> .', T + "<http://e/{}> .", T + "<http://e/|> .", T + "<http://e/^> .", T + "<http://e/`> .", T + "<http://e/\\> .", T + "<http://e/\\n> .", T + "<http://e/\\u00> .", T + "<http://e/\\U0000004> .", T + "<http://e/\\U00110000> .", T + "<http://e/\\u000A> .", T + "<http://e/o\\u000a> .", T + "<http://e/\\u0000> .", T + "<http://e/\\u007b> .", T + "<http://e/\\u005C> .", T + "<http://e/\\U00000022> .",
    T + '"a .', T + 'a" .', T + '"a\nb" .', T + '"a\rb" .', T + '"a"b" .', T + '"\\x" .', T + '"\\u00G0" .', T + '"\\U0000004" .', T + '"\\u12" .', T + '"\\a" .', T + '"\\" .', T + "'a' .", T + '"""a""" .', T + '"a"@ .', T + '"a"@1 .', T + '"a"@en- .', T + '"a"@en_us .', T + '"a"@-en .', T + '"a"@en--us .', T + '"a"^^ .', T + '"a"^<http://e/d> .', T + '"a"^^^<http://e/d> .', T + '"a"^^xsd:int .', T + '"a"@en^^<http://e/d> .', T + '"a"^^"b" .', T + '"a"^^_:b .', T + '"\\U00110000" .', T + '"a"@en@fr .',
    T + "_: .", T + "_:- .", T + "_:.a .", T + "_:a> .", T + "_ :a .", T + "_:a@b .", T + "_:\u00b7 .", T + "_:a; .", T + "_:a. .", "_:.a <http://e/p> <http://e/o> .",
    T + "<http://e/o> , <http://e/o2> .", T + "<http://e/o> ; <http://e/p> <http://e/o> .", T + "1 .", T + "true .", T + "[] .", T + "() .", "@prefix p: <http://e/> .", "<http://e/s> a <http://e/o> .", T + "p:o .", T + "<http://e/o> . " + T + "<http://e/o> .", T + "<http://e/o> ..", T + "\n<http://e/o> .", T + "<http://e/o>\n.", T + "# c\n<http://e/o> .", T + "<<http://e/o>> .", T + "<http://e/o>> .", "\ufeff" + T + "<http://e/o> .", T + "<http://e/o> .\x0b", T + "<http://e/o> .\x0c", T + "\u00a0<http://e/o> .", "// c", "-- c", "x", "<a", "{ }", "GRAPH", '""', T + "_:a\u2028 .", T + "\"a\"@\u00e9n .",
]
BAD_NQ_ONLY = [T + '<http://e/o> "g" .', T + "<http://e/o> <http://e/g> <http://e/h> .", T + "<http://e/o> _:g _:h .", T + '"a" "b" .', T + "<http://e/o> <http://e/g>", T + '<http://e/o> <http://e/g b> .', T + "<http://e/o> <http://e/\\u003e> .", T + "<http://e/o> <http://e/g> .\n.", '"s" <http://e/p> <http://e/o> <http://e/g> .', "<http://e/s> _:p <http://e/o> <http://e/g> .", T + "<http://e/o> _: .", T + "<http://e/o> 1 ."]
BAD_TTL = [PRE + x for x in (
    "p:s", "p:s p:p", "p:s p:p p:o", "p:s p:p .", "p:s .", ".", "p:s p:p p:o ..", "p:s p:p p:o . .", "p:s p:p p:o p:q .", "p:s p:p , p:o .", "p:s p:p p:o , .", "p:s p:p p:o ,, p:q .", "p:s ; p:p p:o .", "p:s p:p ; p:o .", "p:s p:p p:o ; p:q .", "; p:s p:p p:o .", "p:s p:p p:o ;",
    '"s" p:p p:o .', 'p:s "p" p:o .', "p:s _:p p:o .", "p:s [] p:o .", "p:s () p:o .", "1 p:p p:o .", "true p:p p:o .", "p:s true p:o .", "p:s 1 p:o .", "a p:p p:o .", "p:s p:p a .", "p:s a a .", "a a p:o .", "p:s A p:o .", "p:s p:p True .", "p:s p:p TRUE .", "p:s p:p tru .", "p:s p:p trues .", "p:s p:p nil .", "p:s p:p null .",
    "q:s p:p p:o .", "p:s q:p p:o .", "p:s p:p q:o .", ":s p:p p:o .", 'p:s p:p "x"^^q:d .', "p:s p:p ( q:o ) .", "p:s p:p [ q:p p:o ] .", "P:s p:p p:o .", "p:s p:p q: .", "p.:s p:p p:o .",
    "p:s p:p [ .", "p:s p:p [ p:q p:o .", "p:s p:p ] .", "p:s p:p [ p:q ] .", "p:s p:p [ ; ] .", "p:s p:p [ p:q p:o , ] .", "[ p:q p:o ] p:p .", "[ ] .", "[] .", "[ p:q p:o ]", "p:s p:p ( .", "p:s p:p ) .", "p:s p:p ( p:o .", "( ) .", "( p:o ) .", "p:s p:p ( p:a , p:b ) .", "p:s p:p ( p:a ; p:b ) .", "p:s p:p (( p:a ) .", "p:s p:p [[ p:a p:b ]] .", "p:s [ p:a p:b ] p:o .", "p:s ( p:a ) p:o .",
    'p:s p:p "a .', "p:s p:p 'a\" .", 'p:s p:p "a\nb" .', "p:s p:p 'a\rb' .", 'p:s p:p """a"" .', "p:s p:p '''a'' .", 'p:s p:p """a"""" .', 'p:s p:p "\\x" .', 'p:s p:p "\\u12" .', 'p:s p:p "\\U0011000" .', 'p:s p:p "\\U00110000" .', 'p:s p:p """\\q""" .', 'p:s p:p "a"@ .', 'p:s p:p "a"@1x .', 'p:s p:p "a"@en- .', 'p:s p:p "a"@en_us .', 'p:s p:p "a"^^ .', 'p:s p:p "a"^p:d .', 'p:s p:p "a"^^"d" .', 'p:s p:p "a"^^_:d .', 'p:s p:p "a"@en^^p:d .', "p:s p:p 1^^p:d .", "p:s p:p 1@en .", "p:s p:p true@en .", 'p:s p:p "a"^^a .', 'p:s p:p "a" "b" .', 'p:s "a" .',
    "p:s p:p 1.2.3 .", "p:s p:p 1e .", "p:s p:p 1.e .", "p:s p:p e5 .", "p:s p:p +-1 .", "p:s p:p + .", "p:s p:p 1,,2 .", "p:s p:p 1 2 .", "p:s p:p 0x1 .", "p:s p:p .e5 .", "p:s p:p 1a .", "p:s p:p 1e5e5 .", "p:s p:p 1+1 .", "p:s p:p -.", "p:s p:p INF .",
    "p:s p:p <http://e/a b> .", "p:s p:p <http://e/\\u0020> .", "p:s p:p <http://e/{> .", "p:s p:p <http://e/\\u003E> .", "p:s p:p <http://e/\\n> .", "p:s p:p <http://e/\\u00> .", "p:s p:p <http://e/\\U00110000> .", "p:s p:p <http://e/o .", "p:s p:p http://e/o> .", "p:s p:p <http://e/\\u000a> .", "p:s p:p <http://e/o\\u000a> .", "<http://e/s\\u0020> p:p p:o .", 'p:s p:p "a"^^<http://e/ d> .', 'p:s p:p "a"^^<http://e/\\u0022d> .',
    "p:s p:p p:a\\b .", "p:s p:p p:a\\ .", "p:s p:p p:%4 .", "p:s p:p p:%GG .", "p:s p:p p:a%4 .", "p:s p:p p:-a .", "p:s p:p p:~ .", "p:s p:p p:a~b .", "p:s p:p p:a/b .", "p:s p:p p:a\\u0041 .", "p:s p:p p:a! .", "p:s p:p p:\u00b7 .", "p:s p:p p:\u0300a .", "p:s p:p p:a\\\u00e9 .", "p:s p:p p:a?b .", "p:s p:p p:a&b .", "p:s p:p p:a=b .", "p:s p:p p:a+b .", "p:s p:p p:a*b .",
    "p:s p:p _: .", "p:s p:p _:- .", "p:s p:p _:.a .", "p:s p:p _:a:b .", "p:s p:p _:a~ .", "p:s p:p _ :a .", "_:a:b p:p p:o .", "p:s p:p _:\u00b7 .",
    "{ p:s p:p p:o } .", "{ p:s p:p p:o . }", "p:g { p:s p:p p:o }", "p:s = p:o .", "p:s => p:o .", "p:s <= p:o .", "@forAll p:x .", "p:s!p:p p:q p:o .", "p:s is p:p of p:o .", "p:s has p:p p:o .", "@keywords a .", "p:s p:p ?x .", "p:s p:p $x .", "p:s p:p p:o # no dot", "p:s p:p << p:a p:b p:c >> .", "p:s p:p p:o {| p:a p:b |} .", "/* c */ p:s p:p p:o .", "// c\np:s p:p p:o .", "p:s p:p p:o .\x0b", "p:s\x0cp:p p:o .", "p:s\u00a0p:p p:o .", "p:s p:p p:o .\x00", "\ufeffp:s p:p p:o .", "p:s p:p p:o .\n\u2028",
    "[ # c\n ] p:p p:o .",
)] + ["@prefix p <http://e/> .", "@prefix p: .", "@prefix <http://e/> .", "@prefix p: <http://e/>", "@prefix p:a <http://e/> .", "@prefix p: p:a .", '@prefix p: "http://e/" .', "@prefix 1: <http://e/> .", "@prefix _: <http://e/> .", "@prefix p. : <http://e/> .", "@prefix p.: <http://e/> .", "@prefix -p: <http://e/> .", "PREFIX p: <http://e/> .", "PREFIX p <http://e/>", "@PREFIX p: <http://e/> .", "@Prefix p: <http://e/> .", "@prefi p: <http://e/> .", "@prefixx p: <http://e/> .", "prefixx p: <http://e/>", "@prefix p: <http://e/ x> .", "@prefix p: <http://e/\\u0020x> .", "PREFIX p: <http://e/{}>", "@base .", "@base <http://e/>", "@base p: .", "BASE <http://e/> .", "@BASE <http://e/> .", "@bases <http://e/> .", "@base <http://e/ x> .", "@base <http://e/\\u0020x> .", "BASE <http://e/\\u003c>", "BASE p:", "@base <a> <b> .", "@en", "<http://e/s> <http://e/p> <http://e/o>", "x", "\\", "<", "<>", "_:a", "@", "p:", "[", "(", '"', "'''", "1", "true", ";", ",", "."]
BAD_BYTES = [b"\xff", b"<http://e/s> <http://e/p> \"\xff\" .\n", b"<http://e/s> <http://e/p> \"\xc3\" .\n", b"<http://e/\xe9> <http://e/p> \"a\" .\n", b"# \xff\n", b"<http://e/s> <http://e/p> \"\xed\xa0\x80\" .\n", b"<http://e/s> <http://e/p> \"a\" .\n\xf5\x80\x80\x80"]
GOOD = {"nt": '_:x <http://e/p> "v"@en .\n_:x <http://e/q> _:y .\n', "nq": '_:x <http://e/p> "v"@en <http://e/g> .\n_:x <http://e/q> _:y .\n', "ttl": '@prefix z: <http://e/> .\n_:x z:p "v"@en ; z:q _:y .'}
GOODW = {"nt": {(B("x"), I("http://e/p"), L("v", "en")), (B("x"), I("http://e/q"), B("y"))}}
GOODW["ttl"] = GOODW["nt"]
GOODW["nq"] = {(B("x"), I("http://e/p"), L("v", "en"), I("http://e/g")), (B("x"), I("http://e/q"), B("y"), None)}


def reference(fmt, text):
    """True if the reference reader accepts the document."""
    try:
        if fmt == "ttl":
            ttl.read(text, "http://base.example/d/")
        else:
            read_lines(text, 4 if fmt == "nq" else 3)
        return True
    except (ttl.TurtleError, ValueError):
        return False


def target(ctx, fmt):
    st = gen.graph(ctx.rng, n=ctx.rng.choice([0, 1, 4]))
    if fmt == "nq":
        st = quads_of(ctx.rng, st)
    g, m = make(ctx, st, fmt == "nq")
    return g, m, st


def refused(ctx, fmt, text, kind):
    """text (str or bytes) must be refused, in whole and as a stream."""
    p = PARSERS[fmt]
    g, m, st = target(ctx, fmt)
    how = ctx.rng.choice(["parse", "parse_string", "bytes"]) if isinstance(text, str) else "bytes"
    if how == "bytes" and isinstance(text, str):
        try:
            data = text.encode("utf-8")
        except UnicodeEncodeError:
            how, data = "parse", text
    else:
        data = text
    ctx.log("document", data)
    kw = {}
    if fmt == "ttl" and ctx.rng.random() < 0.5:
        kw["base"] = "http://base.example/d/"
    fn = p.parse if how == "parse" else p.parse_string
    try:
        r = ctx.call(fmt, fn, data, g, **kw)
    except Exception:
        ctx.ev("refused")
        ctx.ev("refused:" + fmt)
    else:
        ctx.fail("a malformed %s document (%s) was accepted\n-- document:\n%r\n-- result:\n%s" % (fmt, kind, data[:3000], show(Reader().stmts(r))[:2000]), data)
    ctx.expect(Reader(m).stmts(g) == st and len(g) == len(st), lambda: "a refused document changed the target graph\n-- document:\n%r\n-- before:\n%s\n-- after:\n%s" % (data, show(st), show(Reader(m).stmts(g))), data)
    if fmt == "nq":
        ctx.same({Reader(m).term(x.uri) for x in g.graphs}, {s[3] for s in st}, "graph names after a refused document")
    # without a target, and as a stream
    if isinstance(text, str) and ctx.rng.random() < 0.5:
        s = ctx.rng.choice([lambda: io.StringIO(text, newline=""), lambda: LineStream(text)])()
        ctx.raises(fmt + " stream", Exception, p.parse, s)
    else:
        ctx.raises(fmt, Exception, fn, data)
    ctx.sig(fmt, kind, how)
    later(ctx, fmt)


def later(ctx, fmt):
    """The parser works as if nothing had happened."""
    p = PARSERS[fmt]
    f = ctx.rng.choice([p.parse, p.parse_string, lambda t, g=None: p.parse(io.StringIO(t), g)])
    got = ctx.call(fmt + " later", f, GOOD[fmt], Dataset() if fmt == "nq" else None)
    ctx.ev("later parses")
    ctx.expect(isomorphic(map_terms(Reader().stmts(got), merge_string), GOODW[fmt]), lambda: "after a refused document, a good one parses wrongly:\n" + show(Reader().stmts(got)))


def mutate(rng, text):
    r = rng.random()
    n = len(text)
    if n == 0:
        return "x", "insert"
    k = rng.randrange(n)
    if r < 0.3:
        return text[:k] + text[k + 1:], "delete"
    if r < 0.6:
        c = rng.choice(list("<>\"'.;,[]()@^:_\\#%&{}| \n\r\tabe0179+-~`=/?!*$") + ["\u00b7", "\x00", "\u00e9", "^^", "@en", "\\u12", "_:", "<>", "\"\"\"", "@prefix ", "a ", "true"])
        return text[:k] + c + text[k:], "insert"
    if r < 0.8:
        c = rng.choice("<>\"'.;,[]()@^:_\\#% \nae01-")
        return text[:k] + c + text[k + 1:], "replace"
    if r < 0.9:
        j = rng.randrange(n)
        a, b = min(j, k), max(j, k)
        return text[:a] + text[min(b, a + 12):], "cut"
    if r < 0.95:
        return text[:k], "truncate"
    j = rng.randrange(n)
    return text[:k] + text[j:j + 8] + text[k:], "copy"


def case(ctx, i):
    rng = ctx.rng
    fmt = ("nt", "nq", "ttl", "ttl")[i % 4]
    if i % 24 == 7:
        return faulty(ctx, rng.choice(["nt", "nq", "ttl"]))
    if fmt == "ttl":
        doc = ttlgen.random_doc(rng, n=rng.choice([1, 2, 3]), depth=rng.choice([0, 1, 2]))
        text = doc.text()
    else:
        st = gen.graph(rng, n=rng.choice([1, 2, 4]))
        if fmt == "nq":
            st = quads_of(rng, st)
        text = linegen.document(rng, gen.shuffled(rng, st))
    for _ in range(4):
        kinds = []
        t = text
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            t, k = mutate(rng, t)
            kinds.append(k)
        if "\\u" in t.lower() and any(0xD800 <= int(x, 16) <= 0xDFFF for x in surrogates(t)):
            continue
        if fmt == "ttl" and uses_predeclared(t):
            continue
        if not reference(fmt, t):
            if fmt == "ttl" and GLUED.search(t):
                ctx.ev("not judged: missing space after a directive keyword")
                continue
            refused(ctx, fmt, t, "+".join(kinds))
            ctx.sample(t)
        else:
            ctx.ev("still valid")


def surrogates(t):
    return re.findall(r"\\u([0-9A-Fa-f]{4})", t) + re.findall(r"\\U([0-9A-Fa-f]{8})", t)


def uses_predeclared(t):
    return "rdf:" in t or "xsd:" in t


class Faulty(io.TextIOBase):
    """A stream that fails after a number of lines."""

    def __init__(self, lines, k):
        super().__init__()
        self.lines, self.k, self.n = lines, k, 0

    def readline(self, size=-1):
        if self.n == self.k:
            raise OSError("injected")
        self.n += 1
        return self.lines[self.n - 1] if self.n <= len(self.lines) else ""

    def read(self, n=-1):
        return "".join(self)


def faulty(ctx, fmt):
    """Errors in mid-stream: raised, and no label or state survives them."""
    rng = ctx.rng
    p = PARSERS[fmt]
    tail = " <http://e/g>" if fmt == "nq" else ""
    good = ["_:x <http://e/p> \"%d\"%s .\n" % (k, tail) for k in range(rng.randrange(1, 6))]
    g = Dataset() if fmt == "nq" else Graph()
    k = rng.randrange(0, len(good) + 1)
    # what the target held before stays, whatever becomes of the parse
    held = ["<http://e/held> <http://e/p> \"%d\"%s .\n" % (j, tail) for j in range(rng.randrange(0, 4))]
    if held:
        ctx.call(fmt + " held", p.parse, "".join(held), g)
    before = list(g)
    ctx.ev("faulty streams")
    if rng.random() < 0.5:
        ctx.raises(fmt + " faulty stream", OSError, p.parse, Faulty(good, k), g)
    else:
        bad = good[:k] + ["<http://e/s> <http://e/p> oops .\n"] + good[k:]
        ctx.raises(fmt + " bad stream", Exception, p.parse, io.StringIO("".join(bad)), g)
    after = list(g)
    ctx.expect(all(t in after for t in before), "a failing parse lost statements the target held before it")
    ctx.expect(len(after) <= len(before) + k, "a failing parse added more than the document had before the defect")
    old = {id(t.subject): t.subject for t in g if isinstance(t.subject, BlankNode)}
    ctx.expect(len(old) <= 1, "one label gave several nodes within a document")
    ctx.expect(all(t.predicate == "http://e/p" for t in g), "statements from elsewhere")
    r = ctx.call(fmt + " later", p.parse, "_:x <http://e/later> \"y\"%s .\n" % tail, g)
    new = [t.subject for t in r if t.predicate == "http://e/later"]
    ctx.expect(len(new) == 1 and isinstance(new[0], BlankNode), "the later document was not read")
    ctx.expect(id(new[0]) not in old, "a label from a failed parse is still bound in the next one")
    ctx.ev("later parses")
    ctx.sig("faulty", fmt, k, len(good))
    later(ctx, fmt)


def curated(ctx, key):
    fmt, k = key.split(":")
    bad = {"nt": BAD_NT, "nq": [x for x in BAD_NT if read_ok(x)] + BAD_NQ_ONLY, "ttl": BAD_TTL}[fmt]
    for j, t in enumerate(bad):
        if j % 8 != int(k):
            continue
        if reference(fmt, t):
            raise HarnessError("the reference reader accepts %r" % t)
        refused(ctx, fmt, t, "curated %d" % j)
        # in the middle of good text, too
        if fmt != "ttl" and "\n" not in t and t.strip(" ."):
            refused(ctx, fmt, GOOD[fmt] + t + "\n" + GOOD[fmt], "embedded %d" % j)
        elif fmt == "ttl":
            if not reference(fmt, GOOD[fmt] + "\n" + t):
                refused(ctx, fmt, GOOD[fmt] + "\n" + t, "after good %d" % j)


def read_ok(x):
    try:
        read_lines(x, 4)
        return False
    except ValueError:
        return True


curated.keys = lambda tier: ["%s:%d" % (f, k) for f in ("nt", "nq", "ttl") for k in range(8)]


def w3c(ctx, key):
    text = open(os.path.join(REPO, key), encoding="utf-8", newline="").read()
    fmt = "ttl" if key.endswith(".ttl") else "nt"
    if reference(fmt, text) or uses_predeclared(text):
        return
    refused(ctx, fmt, text, key)


w3c.keys = lambda tier: [os.path.relpath(f, REPO) for f in sorted(glob.glob(os.path.join(REPO, "tests", "**", "*bad*"), recursive=True)) if f.endswith((".ttl", ".nt"))]


def bad_bytes(ctx):
    for b in BAD_BYTES:
        for fmt in ("nt", "nq", "ttl"):
            refused(ctx, fmt, b, "bytes")


def illegal_iri(ctx, key):
    """Every character an IRI must not contain, raw and escaped, in every position."""
    fmt = key
    bad = [chr(c) for c in range(0x21)] + list('<>"{}|^`\\')
    spots = ["<%s> <http://e/p> <http://e/o> .", "<http://e/s> <%s> <http://e/o> .", "<http://e/s> <http://e/p> <%s> .", '<http://e/s> <http://e/p> "x"^^<%s> .']
    if fmt == "nq":
        spots.append("<http://e/s> <http://e/p> <http://e/o> <%s> .")
    if fmt == "ttl":
        spots += ["@prefix p: <%s> .", "PREFIX p: <%s>", "@base <%s> .", "BASE <%s>", "<http://e/s> <http://e/p> ( <%s> ) .", "<http://e/s> <http://e/p> [ <%s> 1 ] ."]
    for spot in spots:
        for c in bad:
            for f in (["\\u%04X" % ord(c), "\\U%08x" % ord(c)] if ctx.thorough else [ctx.rng.choice(["\\u%04X" % ord(c), "\\U%08x" % ord(c), "\\u%04x" % ord(c)])]) + [c]:
                for x in ("http://e/a" + f + "b", "http://e/" + f, f):
                    t = spot % x
                    if not reference(fmt, t):
                        if x != f and not ctx.thorough and ctx.rng.random() < 0.5:
                            continue
                        refused(ctx, fmt, t, "iri char %02x" % ord(c))


illegal_iri.keys = lambda tier: ["nt", "nq", "ttl"]
SWEEPS = [curated, w3c, illegal_iri]
FIXED = [bad_bytes]
