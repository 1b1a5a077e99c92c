"""C23: IRI normalisation and quoting against a byte-level reference."""
from pymantic.primitives import NamedNode
from pymantic.util import normalize_iri, quote_normalized_iri

from rv import gen
from rv.model import ILLEGAL_IRI

RULE = "distinct (kinds of escapes and characters combined) IRIs normalised, quoted and normalised again"
ASSUMES = ["valid IRIs: every '%' starts an escape, no DEL, no lone surrogates", "normal form: unreserved and non-ASCII characters unescaped (RFC 3987 5.3.2.3), escapes in upper case"]
COUNT = {"quick": 40000, "thorough": 400000}
MIN_EVENTS = {"oracle:evaluations": 150000, "escapes": 50000, "invalid UTF-8": 3000, "variants": 13900, "code points": 100000}
RESERVED = set("%:/?#[]@!$&'()*+,;=")


def keep_escaped(c):
    return c in RESERVED or c in ILLEGAL_IRI or c == "\x7f"


def pct(b):
    return "".join("%%%02X" % x for x in b)


def normal_bytes(bs):
    """Normal form of a run of escaped bytes."""
    out, k = [], 0
    while k < len(bs):
        for n in (1, 2, 3, 4):
            try:
                c = bytes(bs[k:k + n]).decode("utf-8")
            except UnicodeDecodeError:
                continue
            if len(c) == 1:
                out.append(pct(bs[k:k + n]) if keep_escaped(c) else c)
                k += n
                break
        else:
            out.append(pct(bs[k:k + 1]))
            k += 1
    return "".join(out)


def normal(iri):
    out, k, run = [], 0, []
    while k < len(iri):
        if iri[k] == "%":
            run.append(int(iri[k + 1:k + 3], 16))
            k += 3
        else:
            out.append(normal_bytes(run))
            run = []
            out.append(iri[k])
            k += 1
    out.append(normal_bytes(run))
    return "".join(out)


def legal(iri):
    k = 0
    while k < len(iri):
        if iri[k] in ILLEGAL_IRI or iri[k] == "\x7f" or 0xD800 <= ord(iri[k]) <= 0xDFFF:
            return False
        if iri[k] == "%":
            try:
                int(iri[k + 1:k + 3], 16)
            except ValueError:
                return False
            if len(iri[k + 1:k + 3]) != 2:
                return False
            k += 2
        k += 1
    return True


def judge(ctx, iri):
    want = normal(iri)
    arg = NamedNode(iri) if ctx.rng.random() < 0.2 else iri
    got = ctx.call("normalize_iri", normalize_iri, arg)
    ctx.same("".join(got), want, "normal form of %r" % iri)
    ctx.expect(legal(got), lambda: "the normal form %r of %r is not a legal IRI" % (got, iri))
    ctx.same(normalize_iri(got), got, "normalising %r again" % got)
    q = ctx.call("quote_normalized_iri", quote_normalized_iri, got)
    ctx.expect(q.isascii() and legal(q), lambda: "quoting %r gave %r" % (got, q))
    ctx.same(normalize_iri(q), got, "normalising the quoted form %r" % q)
    ctx.ev("escapes", iri.count("%"))
    return got


def spell(rng, iri):
    """The same IRI with other escapes: hex case, escaping of unreserved or non-ASCII characters."""
    out, k = [], 0
    while k < len(iri):
        c = iri[k]
        if c == "%":
            h = iri[k + 1:k + 3]
            out.append("%" + rng.choice([h.upper(), h.lower(), h[0].upper() + h[1].lower(), h[0].lower() + h[1].upper()]))
            k += 3
            continue
        if (c.isascii() and (c.isalnum() or c in "-._~")) or not c.isascii():
            if rng.random() < 0.35:
                out.append("".join("%" + rng.choice(["%02X", "%02x"]) % b for b in c.encode("utf-8")))
                k += 1
                continue
        out.append(c)
        k += 1
    return "".join(out)


def separable(iri):
    """No invalid escape next to something whose escaping could complete it."""
    return normal(iri).encode("utf-8") == iri.encode("utf-8") or "%" not in iri


PIECES = ["%C3%A9", "%c3%a9", "%E4%B8%AD", "%F0%9F%98%80", "%41", "%7e", "%7E", "%2D", "%20", "%2F", "%2f", "%25", "%2525", "%3C", "%00", "%0a", "%7F", "%80", "%C3", "%E4%B8", "%ff", "%C0%80", "%ED%A0%80", "%F4%90%80%80", "%A9", "%C2%A0", "%C2%80", "%EF%BF%BF", "%EF%BB%BF", "%5B", "%5b", "%22", "%7B", "%5C", "%60", "%5E", "%7C",
          "\u00e9", "\u4e2d", "\U0001F600", "a", "b", "1", "-", "~", "/", "?", "#", "&", "=", "[", "]", ":", "@", "!", "$", "'", "(", ")", "*", "+", ",", ";", ".", "_", "%41%C3%A9%2F", "%C3%A9%80%C3%A9"]


def case(ctx, i):
    rng = ctx.rng
    if i % 3 == 0:
        iri = gen.iri(rng)
    else:
        iri = rng.choice(gen.SCHEMES) + "".join(rng.choice(PIECES) for _ in range(rng.randrange(1, 9)))
    if not legal(iri):
        return
    got = judge(ctx, iri)
    kinds = set()
    for c in got:
        kinds.add("non-ascii" if ord(c) > 127 else "reserved" if c in RESERVED else "plain")
    bad = any(int(got[k + 1:k + 3], 16) > 127 for k, c in enumerate(got) if c == "%")
    if bad:
        ctx.ev("invalid UTF-8")
    ctx.sig(sorted(kinds), bad, iri.count("%"), len(iri) - len(got))
    # variants are made of the normal form where no stray byte can be completed
    if not bad:
        for _ in range(2):
            v = spell(rng, got)
            ctx.ev("variants")
            ctx.same(normalize_iri(v), got, "normal form of the variant %r of %r" % (v, got))
    else:
        v = "".join(x.lower() if k % 2 else x.upper() for k, x in enumerate([iri]))
        h = re_case(rng, iri)
        ctx.same(normalize_iri(h), got, "normal form of %r, which differs from %r in hex case" % (h, iri))
    ctx.sample(iri)


def re_case(rng, iri):
    import re
    return re.sub("%([0-9A-Fa-f]{2})", lambda m: "%" + "".join(rng.choice([x.upper(), x.lower()]) for x in m.group(1)), iri)


def code_points(ctx, key):
    k = int(key, 16)
    for c in range(k, k + 0x1000):
        if 0xD800 <= c <= 0xDFFF:
            continue
        ch = chr(c)
        ctx.ev("code points")
        e = "http://e/x" + pct(ch.encode("utf-8")) + "y"
        want = e if keep_escaped(ch) else "http://e/x" + ch + "y"
        got = normalize_iri(e)
        if got != want:
            ctx.fail("normal form of %r: got %r, expected %r" % (e, got, want))
        if ch not in ILLEGAL_IRI and ch not in "%\x7f":
            raw = "http://e/x" + ch + "y"
            if normalize_iri(raw) != raw:
                ctx.fail("normalising %r changed it" % raw)
            q = quote_normalized_iri(raw)
            if not q.isascii() or normalize_iri(q) != raw or (ch.isascii() and q != raw):
                ctx.fail("quoting %r gave %r" % (raw, q))
    ctx.ev("oracle:evaluations", 0x1000)
    ctx.sig("code points", key)


code_points.keys = lambda tier: ["%x" % k for k in range(0, 0x110000, 0x1000)]


def byte_pairs(ctx, key):
    """Every pair of escaped bytes."""
    a = int(key, 16)
    for b in range(256):
        iri = "http://e/%%%02X%%%02x" % (a, b)
        judge(ctx, iri)
    ctx.sig("pairs", key)


byte_pairs.keys = lambda tier: ["%02x" % k for k in range(256)]


def triples(ctx, key):
    """Escaped byte sequences around the UTF-8 boundaries."""
    edge = [0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF]
    a = edge[int(key)]
    for b in edge:
        for c in edge:
            judge(ctx, "http://e/%%%02x%%%02X%%%02X" % (a, b, c))
            if ctx.thorough or c in (0x80, 0xBF, 0x41):
                for d in edge:
                    judge(ctx, "http://e/%%%02x%%%02X%%%02X%%%02x" % (a, b, c, d))
    ctx.sig("triples", key)


triples.keys = lambda tier: [str(k) for k in range(19)]
SWEEPS = [code_points, byte_pairs, triples]
