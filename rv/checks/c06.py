"""C06: N-Triples round trip."""
from rv import gen
from rv.lines import cp_chunks, features, roundtrip, scattered, singles
from rv.model import B, I, L

RULE = "distinct sets of term features (kind, language, datatype, character classes, length class) in a round-tripped graph"
ASSUMES = ["no lone surrogates, no literal with both language and datatype, IRIs legal (RFC 3987, no DEL)", "serialise and parse run in one process without concurrent modification of the graph"]
COUNT = {"quick": 2600, "thorough": 60000}
MIN_EVENTS = {"oracle:evaluations": 3000, "statements": 10000, "form:parse-str": 100, "form:parse-stream": 100, "form:parse_string-bytes": 100}


def case(ctx, i):
    rng = ctx.rng
    if i % 60 == 4:
        stmts = gen.graph(rng, n=rng.choice([100, 300, 1000]), nb=rng.choice([0, 20, 150]))
    elif i % 10 == 3:
        stmts = gen.graph(rng, nb=6, big=True)
    else:
        stmts = gen.graph(rng, big=i % 20 == 0)
    text, _ = roundtrip(ctx, stmts, False)
    if stmts:
        ctx.sig(features(stmts))
    ctx.sample(text)


def codepoints(ctx, key):
    k = int(key, 16)
    p = I("http://e/p")
    stmts = {(I("http://e/all"), p, L("".join(map(chr, range(k, k + 0x400))), "en"))}
    for c in singles(key, ctx.w.tier):
        stmts.add((I("http://e/one"), p, L("a" + chr(c) + "b")))
        if c % 16 == 0 or ctx.thorough:
            stmts.add((I("http://e/alone"), p, L(chr(c), None, "http://e/dt")))
    roundtrip(ctx, stmts, False)
    ctx.ev("codepoints", 0x400)
    ctx.sig("codepoints", key)


codepoints.keys = cp_chunks


def iri_chars(ctx, key):
    """Every legal ASCII IRI character and every escape, in each position."""
    legal = [chr(c) for c in range(0x21, 0x7F) if chr(c) not in '<>"{}|^`\\']
    stmts = set()
    for j, c in enumerate(legal + ["%%%02X" % b for b in range(256)] + ["%%%02x" % b for b in range(0x9A, 0x100, 9)]):
        x = I("http://e/" + (c + "x" if key == "start" else "x" + c + "y" if key == "middle" else "x" + c))
        stmts |= {(x, I("http://e/p"), L("v")), (I("http://e/s"), x, L("v")), (I("http://e/s"), I("http://e/p"), x), (I("http://e/s"), I("http://e/p"), L("v", None, x[1]))}
    roundtrip(ctx, stmts, False)
    ctx.sig("iri_chars", key)


iri_chars.keys = lambda tier: ["start", "middle", "end"]


def long_text(ctx, key):
    n = key
    stmts = {(I("http://e/s"), I("http://e/p"), L(c * n)) for c in ("a", "\\", '"', "\n", "\u00e9", "\U0001F600", "ab\r")}
    roundtrip(ctx, stmts, False)
    ctx.sig("long", n)


long_text.keys = lambda tier: [1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 20000] + ([65535, 65536, 100000, 300000] if tier == "thorough" else [65537])


def many_nodes(ctx, key):
    """Blank-node structure at scale: chains, stars, cliques."""
    n = key
    p = I("http://e/p")
    stmts = {(B(i), p, B(i + 1)) for i in range(n)} | {(B(0), I("http://e/q"), L("start"))}
    stmts |= {(B(i), I("http://e/i"), L(str(i))) for i in range(n + 1)}
    stmts |= {(B(i % 7), I("http://e/r"), B((i * i) % (n + 1))) for i in range(n)}
    roundtrip(ctx, stmts, False)
    ctx.sig("nodes", n)


many_nodes.keys = lambda tier: [1, 2, 10, 33, 100, 257, 700] + ([3000] if tier == "thorough" else [])
SWEEPS = [codepoints, iri_chars, long_text, many_nodes]


def langs(ctx):
    stmts = {(I("http://e/s"), I("http://e/p"), L(x, t)) for t in gen.LANGS + ["a1"[:1], "abcdefgh-abcdefgh-12345678", "en-a-b-c-d-e", "EN-us", "x-1", "a-0-0"] for x in ("", "v", "@en", "\n")}
    for _ in range(3):
        roundtrip(ctx, stmts, False)
    ctx.sig("langs")


def far_apart(ctx):
    scattered(ctx, False)


FIXED = [langs, far_apart]
