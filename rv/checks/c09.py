"""C09: documents in N-Triples / N-Quads, spelled in every legal way, parse to what they say."""
import glob
import os


from rv import gen, linegen
from rv.core import REPO
from rv.lines import FORMS, features, make, quads_of, read
from rv.model import B, I, L, isomorphic, map_terms, merge_string, read_statement, show
from rv.pm import Reader

RULE = "distinct (document layout features, statement features, supply form) combinations parsed and compared with the intended statements"
ASSUMES = ["documents valid under the RDF 1.1 N-Triples/N-Quads grammars, with absolute IRIs"]
COUNT = {"quick": 6400, "thorough": 90000}
MIN_EVENTS = {"oracle:evaluations": 3000, "statements": 10000, "form:parse-str": 100, "form:parse-stream": 100, "form:parse_string-bytes": 100, "form:parse-file": 100, "prefilled": 300, "comments": 300}


def see(ctx, text, quads, want, form=None, sink=None, before=frozenset(), reader=None):
    back = read(ctx, text, quads, form, sink)
    reader = reader or Reader()
    for g in [back] + ([sink] if sink is not None else []):
        got = map_terms(reader.stmts(g, ctx, "the parsed result"), merge_string)
        w = map_terms(set(want) | set(before), merge_string)
        ctx.expect(isomorphic(got, w), lambda: "parsed statements differ\n-- document:\n%r\n-- intended:\n%s\n-- parsed:\n%s" % (text[:3000], show(w)[:3000], show(got)[:3000]), text)


def case(ctx, i):
    rng = ctx.rng
    quads = i % 2 == 1
    stmts = gen.graph(rng, n=rng.choice([0, 1, 1, 2, 3, 5, 8, 12]) if i % 41 else 120, big=i % 20 == 0)
    if quads:
        stmts = quads_of(rng, stmts)
    order = gen.shuffled(rng, stmts)
    if order and rng.random() < 0.3:
        order.insert(rng.randrange(len(order) + 1), rng.choice(order))
    text = linegen.document(rng, order)
    ctx.ev("statements", len(order))
    ctx.ev("comments", text.count("#"))
    ctx.log("document", text)
    before, sink, reader = set(), None, None
    if rng.random() < 0.3:
        before = {(s[0] if s[0][0] == "I" else B(("old", s[0][1])), s[1], s[2] if s[2][0] != "B" else B(("old", s[2][1]))) + tuple(s[3:]) for s in gen.shuffled(rng, stmts)[:3]}
        if quads:
            before = {s[:3] + (None if s[3] is None else s[3] if s[3][0] == "I" else B(("old", s[3][1])),) for s in before}
        sink, m = make(ctx, before, quads)
        ctx.ev("prefilled")
    forms = FORMS if i % 10 == 0 and sink is None else [rng.choice(FORMS)]
    for form in forms:
        see(ctx, text, quads, stmts, form, sink, before)
        ctx.sig(quads, form, features(stmts), "\r" in text, "#" in text, "\t" in text, text[-1:] == "\n", "\\u" in text, "\\U" in text)
    ctx.sample(text)


def labels(ctx, key):
    """Every label character class in first, inner and last position."""
    pos, tight, quads = key.split("-")
    quads = quads == "q"
    F, Ls, IN = linegen.FIRST + [":"], linegen.LAST + [":"], linegen.INNER + [":"]
    if pos == "first":
        ls = [c for c in F] + [c + "x" for c in F]
    elif pos == "last":
        ls = ["x" + c for c in Ls]
    else:
        ls = ["x" + c + "y" for c in IN] + ["x" + c + ".." + "y" for c in IN] + ["0.0", "a.b.c", "1.2-3", "__", "a:b:c", "::", "a._"]
    sp = "" if tight == "t" else " "
    out, want = [], set()
    for k, l in enumerate(ls):
        o = I("http://e/%d" % k)
        out.append("_:%s%s<http://e/p>%s_:%s%s%s." % (l, sp, sp, l, " " if quads else sp, "_:%s%s" % (l, sp) if quads else ""))
        want.add((B(l), I("http://e/p"), B(l)) + ((B(l),) if quads else ()))
        out.append("_:%s%s<http://e/p>%s<%s>%s." % (l, sp, sp, o[1], sp))
        want.add((B(l), I("http://e/p"), o) + ((None,) if quads else ()))
    see(ctx, "\n".join(out), quads, want, "parse-str")
    see(ctx, "\n".join(out), quads, want, "parse-stream")
    ctx.sig("labels", key)


labels.keys = lambda tier: ["%s-%s-%s" % (a, b, c) for a in ("first", "last", "inner") for b in "ts" for c in "tq"]


def escapes(ctx, key):
    """\\u and \\U escapes of a block of characters, in literals and IRIs."""
    k = int(key, 16)
    out, want = [], set()
    from rv.model import ILLEGAL_IRI
    for c in range(k, k + 0x400, 1 if k < 0x800 or ctx.thorough else 37):
        forms = ["\\U%08X" % c, "\\U%08x" % c]
        if c <= 0xFFFF:
            forms += ["\\u%04X" % c, "\\u%04x" % c]
        for f in forms[: 4 if k < 0x400 else None]:
            out.append('<http://e/s> <http://e/p> "a%sb" .' % f)
            out.append('<http://e/s> <http://e/q> "%s\\\\%s" .' % (f, f))
        want.add((I("http://e/s"), I("http://e/p"), L("a" + chr(c) + "b")))
        want.add((I("http://e/s"), I("http://e/q"), L(chr(c) + "\\" + chr(c))))
        if chr(c) not in ILLEGAL_IRI and c != 0x7F:
            out.append('<http://e/%sx> <http://e/%s> "v"^^<http://e/%s> .' % (forms[0], forms[-1], forms[-1]))
            want.add((I("http://e/" + chr(c) + "x"), I("http://e/" + chr(c)), L("v", None, "http://e/" + chr(c))))
    see(ctx, "\n".join(out) + "\n", False, want, "parse-str")
    see(ctx, "\n".join(out) + "\n", False, want, "parse-stream")
    ctx.sig("escapes", key)


escapes.keys = lambda tier: ["%x" % k for k in range(0, 0x110000, 0x400) if not 0xD800 <= k <= 0xDFFF and (tier == "thorough" or k < 0x3000 or k % 0x8000 == 0)]


def raw(ctx, key):
    """Every character, unescaped, inside literals."""
    k = int(key, 16)
    chars = [chr(c) for c in range(k, k + 0x400) if chr(c) not in '"\\\n\r']
    text = "".join('<http://e/s> <http://e/p> "%s"@en .\n' % ("".join(chars[j:j + 64])) for j in range(0, len(chars), 64))
    want = {(I("http://e/s"), I("http://e/p"), L("".join(chars[j:j + 64]), "en")) for j in range(0, len(chars), 64)}
    if k == 0:
        for c in chars:
            text += '<http://e/s> <http://e/q> "%s" .\n' % c
            want.add((I("http://e/s"), I("http://e/q"), L(c)))
    for f in ("parse-str", "parse-stream", "parse_string-bytes"):
        see(ctx, text, False, want, f)
    ctx.ev("codepoints", 0x400)
    ctx.sig("raw", key)


raw.keys = lambda tier: ["%x" % k for k in range(0, 0x110000, 0x400) if not 0xD800 <= k <= 0xDFFF]


def corpus(ctx):
    """The N-Triples files among the repository's test data."""
    files = sorted(glob.glob(os.path.join(REPO, "tests", "**", "*.nt"), recursive=True))
    for f in files:
        text = open(f, encoding="utf-8", newline="").read()
        try:
            want = {read_statement(ln.split(" #")[0] if " #" in ln and '"' not in ln else ln, 3) for ln in text.replace("\r\n", "\n").replace("\r", "\n").split("\n") if ln.strip() and not ln.strip().startswith("#")}
        except ValueError:
            continue
        see(ctx, text, False, want)
        ctx.ev("corpus files")
    ctx.sig("corpus", len(files))


def order_and_bulk(ctx):
    """Many statements; line and document boundaries at every size."""
    for n in (1, 2, 63, 64, 65, 500, 2000):
        want = {(I("http://e/%d" % k), I("http://e/p"), L("v%d" % k)) for k in range(n)}
        text = "".join('<http://e/%d> <http://e/p> "v%d" .\n' % (k, k) for k in range(n))
        for f in FORMS:
            see(ctx, text, False, want, f)
            see(ctx, text, True, {s + (None,) for s in want}, f)
    ctx.sig("bulk")


def empties(ctx):
    for text in ("", "\n", "\r", "\r\n", " ", "\t\n", "#", "#c\n", "# c\r# d", "\n\n# x\n\n"):
        for f in FORMS:
            for q in (False, True):
                see(ctx, text, q, set(), f)
    ctx.sig("empties")


SWEEPS = [labels, escapes, raw]
FIXED = [corpus, order_and_bulk, empties]
