"""C07: N-Quads round trip."""
from rv import gen
from rv.lines import cp_chunks, features, quads_of, read, roundtrip, scattered, singles
from rv.model import B, I, L

RULE = "distinct sets of term features, graph-name kinds included, in a round-tripped dataset"
ASSUMES = ["no lone surrogates, no literal with both language and datatype, IRIs legal (RFC 3987, no DEL)"]
COUNT = {"quick": 2400, "thorough": 60000}
MIN_EVENTS = {"oracle:evaluations": 3000, "statements": 8750, "form:parse-str": 100, "form:parse-stream": 100}


def case(ctx, i):
    rng = ctx.rng
    if i % 60 == 4:
        ts = gen.graph(rng, n=rng.choice([100, 300, 800]), nb=rng.choice([0, 20, 100]))
        stmts = quads_of(rng, ts, [None] + [I("http://g.example/%d" % k) for k in range(rng.choice([1, 5, 60]))])
    else:
        stmts = quads_of(rng, gen.graph(rng, big=i % 10 == 0))
    text, back = roundtrip(ctx, stmts, True)
    if stmts:
        ctx.sig(features(stmts), len({s[3] for s in stmts}))
        # the same data read without a given sink keeps its graphs apart
        again = read(ctx, text, True, "parse-str")
        ctx.same(len(again), len(back), "size of a second reading")
    ctx.sample(text)


def codepoints(ctx, key):
    k = int(key, 16)
    p = I("http://e/p")
    stmts = {(I("http://e/all"), p, L("".join(map(chr, range(k, k + 0x400))), "en"), I("http://g/1"))}
    for c in singles(key, ctx.w.tier)[:: 1 if ctx.thorough else 3]:
        stmts.add((I("http://e/one"), p, L("a" + chr(c) + "b"), None if c % 2 else I("http://g/2")))
    roundtrip(ctx, stmts, True)
    ctx.ev("codepoints", 0x400)
    ctx.sig("codepoints", key)


codepoints.keys = cp_chunks


def names(ctx):
    legal = [chr(c) for c in range(0x21, 0x7F) if chr(c) not in '<>"{}|^`\\']
    stmts = set()
    for c in legal + ["%%%02X" % b for b in range(0, 256, 5)] + ["\u00e9", "\U0001F600"]:
        for x in ("http://g/" + c, "http://g/x" + c + "y"):
            stmts.add((I("http://e/s"), I("http://e/p"), L(c), I(x)))
    stmts.add((I("http://e/s"), I("http://e/p"), L("v"), None))
    for form in ("parse-str", "parse-stream", "parse_string-bytes"):
        roundtrip(ctx, stmts, True, form)
    ctx.sig("names")


def shared_nodes(ctx):
    p = I("http://e/p")
    for n in (2, 5, 40):
        stmts = set()
        for k in range(n):
            stmts |= {(B("x"), p, L(str(k)), I("http://g/%d" % k)), (B(k), p, B("x"), I("http://g/%d" % k)), (B("x"), p, B(k), None), (B(k), p, L("in its own graph"), B(k))}
        roundtrip(ctx, stmts, True)
        ctx.sig("shared", n)


def same_triple(ctx):
    """One triple in many graphs at once."""
    for n in (1, 2, 3, 17, 64, 300):
        stmts = {(I("http://e/s"), I("http://e/p"), L("v"), I("http://g/%d" % k)) for k in range(n)} | {(I("http://e/s"), I("http://e/p"), L("v"), None), (I("http://e/s"), I("http://e/p"), L("v"), B("g"))}
        roundtrip(ctx, stmts, True)
        ctx.sig("same", n)


def far_apart(ctx):
    scattered(ctx, True)


SWEEPS = [codepoints]
FIXED = [names, shared_nodes, same_triple, far_apart]
