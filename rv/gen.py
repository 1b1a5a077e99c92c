"""Hostile but valid RDF data."""
from .model import ILLEGAL_IRI, RDFNS, XSD, B, I, L

EDGE_CHARS = [chr(c) for c in list(range(0x21)) + [0x22, 0x27, 0x5C, 0x7E, 0x7F, 0x80, 0x85, 0x9F, 0xA0, 0xAD, 0xC0, 0xD7, 0xDF, 0xE9,
              0xF7, 0xFF, 0x100, 0x130, 0x131, 0x1FF, 0x2FF, 0x300, 0x37E, 0x3A9, 0x7FF, 0x800, 0xFFF, 0x1000, 0x1E9E, 0x200B, 0x200C, 0x200D, 0x200E,
              0x2028, 0x2029, 0x203F, 0x20AC, 0x3000, 0x4E2D, 0x9FFF, 0xD7FF, 0xE000, 0xEFFF, 0xF8FF, 0xF900, 0xFDD0, 0xFEFF, 0xFFF0, 0xFFFD, 0xFFFE, 0xFFFF,
              0x10000, 0x10001, 0x1F600, 0x1FFFF, 0x2F800, 0xE0001, 0xEFFFF, 0xF0000, 0x100000, 0x10FFFD, 0x10FFFF]]
FRAGS = ["\\", "\\\\", "\\n", "\\t", "\\u0041", "\\U00000041", "\\\"", "\"", "'", "''", "'''", "\"\"", "\"\"\"", "\n", "\r", "\r\n", "\t", "\b", "\f", "\x00",
         " ", "  ", ".", " .", " .\n", "<", ">", "<http://x/>", "@en", "^^", "_:b", "#", "# c", "%41", "%", "&amp;", "{}", "|", "`", "^", ";", ",", "(", ")", "[", "]",
         "a", "b", "true", "1", "1.5", "\u00e9", "e\u0301", "\u4e2d\u6587", "\U0001F600", "@prefix", "\\'", "\\x", "\\N", "/", "//", "?", "=", "+", "-", "_", "~", ":", "::", "\ufeff", "\x7f", "\x1f", "\u2028"]
WORDS = ["alpha", "beta", "Gamma", "delta", "x", "the quick brown fox", "0", "42", "caf\u00e9", ""]


def rand_char(rng):
    r = rng.random()
    if r < 0.45:
        return chr(rng.randrange(0x20, 0x7F))
    if r < 0.65:
        return rng.choice(EDGE_CHARS)
    if r < 0.8:
        return chr(rng.randrange(0, 0x800))
    c = rng.randrange(0, 0x110000 if r > 0.93 else 0x10000)
    if 0xD800 <= c <= 0xDFFF:
        c = 0xE000
    return chr(c)


def text(rng, big=False):
    r = rng.random()
    if r < 0.2:
        return rng.choice(WORDS)
    if r < 0.55:
        return "".join(rng.choice(FRAGS) for _ in range(rng.randrange(0, 7)))
    if r < 0.9 or not big:
        return "".join(rand_char(rng) if rng.random() < 0.7 else rng.choice(FRAGS) for _ in range(rng.randrange(0, 18)))
    n = rng.choice([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025, 2000, 4097])
    unit = [rand_char(rng) if rng.random() < 0.3 else rng.choice("abc \\\"\n'") for _ in range(min(n, 60))]
    return "".join(rng.choice(unit) for _ in range(n))


LANGS = ["en", "fr", "de", "en-us", "en-US", "en-gb", "en-GB", "fr-CA", "de-DE-1996", "es-419", "zh-Hant-TW", "sl-rozaj-biske-1994", "x-klingon", "EN", "i-default", "a", "en-0", "aa-9z", "tlh"]


def lang(rng):
    if rng.random() < 0.8:
        return rng.choice(LANGS)
    al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    most = 9 if rng.random() < 0.8 else 20
    t = "".join(rng.choice(al) for _ in range(rng.randrange(1, most)))
    for _ in range(rng.choice([0, 1, 2, 2, 9])):
        t += "-" + "".join(rng.choice(al + "0123456789") for _ in range(rng.randrange(1, most)))
    return t


DATATYPES = [XSD + x for x in ("string", "integer", "decimal", "double", "boolean", "dateTime", "date", "float", "int", "anyURI", "gYear", "hexBinary")] + [
    RDFNS + "XMLLiteral", RDFNS + "HTML", "http://example.org/dt#custom", "http://example.org/dt", "urn:dt:1", "http://example.org/dt?a=b&c=d"]


def iri_char(rng):
    while True:
        r = rng.random()
        if r < 0.5:
            c = rng.choice("abcXYZ019/:#?&=;,.-_~!$'()*+@[]%")
        elif r < 0.8:
            c = chr(rng.randrange(0x21, 0x7F))
        else:
            c = rand_char(rng)
        if c in ILLEGAL_IRI or c == "\x7f":
            continue
        if c == "%":
            return "%" + "%02X" % rng.randrange(256)
        return c


SCHEMES = ["http://example.org/", "http://example.com/ns#", "https://e.x:8080/p/q/", "urn:x:", "mailto:", "tag:e.org,2020:", "ftp://f/", "http://user:pw@h/", "http://[::1]/", "file:///", "x-odd+s.1:", "http://a"]
POOL = ["http://example.org/%s" % x for x in ("a", "b", "c", "p", "q", "type", "")] + [
    "http://example.org/a#frag", "http://example.org/ns#x", "http://example.org/a/b/c", "http://example.org/a?x=1&y=2", "http://example.com/",
    "http://example.com/ns#", "http://example.com/ns#label", "urn:isbn:123", RDFNS + "type", RDFNS + "value", XSD + "integer"]


def iri(rng, ascii_only=False):
    r = rng.random()
    if r < 0.6:
        return rng.choice(POOL)
    s = rng.choice(SCHEMES) + "".join(iri_char(rng) for _ in range(rng.randrange(0, 12)))
    if rng.random() < 0.15:  # what has a meaning elsewhere
        s += rng.choice(["_:b0", "_:", "@default", "@en", "http://example.org/a", "%25", "%2F", "//", "::", "a."])
    if rng.random() < 0.02:
        s += "x" * rng.choice([100, 255, 256, 1000])
    if ascii_only:
        s = "".join(c if ord(c) < 127 else "e" for c in s)
    return s


NUM = {"integer": ["0", "1", "-1", "+5", "007", "42", "123456789012345678901234567890", "+12345678901234567890", "-000000000000000000001"],
       "decimal": ["1.5", "-0.5", "+3.0", ".5", "0.10", "100.00", "+00000000001.50000000000000000000", "-.000000000000000001"],
       "double": ["1e5", "1.5E-3", "-2.0e+10", ".5e1", "1.e7", "+0E0", "+1234567890.12345678901234567890e-0000400", "1E999"],
       "boolean": ["true", "false"]}


def literal(rng, big=False, iri_fn=iri):
    r = rng.random()
    if r < 0.35:
        return L(text(rng, big))
    if r < 0.6:
        return L(text(rng, big), lang(rng))
    if r < 0.7:
        k = rng.choice(list(NUM))
        return L(rng.choice(NUM[k]), None, XSD + k)
    if r < 0.78:  # typed, but not the shorthand lexical form
        k = rng.choice(list(NUM))
        return L(rng.choice(["1", "abc", "", "1.", "1e", "INF", "NaN", "TRUE", "0", "true ", " 1", "1\n", "--1", "1.5", "1e5", "+", ".", "e5", "1 2", "1.5.", "\u0661", "1_0", "true", ".e5", "1.e", "+.", "-.5.", "1e5.0"]), None, XSD + k)
    if r < 0.93:
        return L(text(rng, big), None, rng.choice(DATATYPES))
    return L(text(rng, big), None, iri_fn(rng))


def graph(rng, n=None, nb=None, big=False, iri_fn=iri, pool=None):
    """A set of valid triples with heavy sharing of terms."""
    if n is None:
        n = rng.choice([0, 1, 1, 2, 3, 5, 8, 13, 20])
    if nb is None:
        nb = rng.choice([0, 0, 1, 2, 3, 5])
    subs = [I(iri_fn(rng)) for _ in range(rng.randrange(1, 5))] + [B("b%d" % i) for i in range(nb)]
    preds = [I(iri_fn(rng)) for _ in range(rng.randrange(1, 4))]
    objs = subs + [I(iri_fn(rng)) for _ in range(2)] + [literal(rng, big, iri_fn) for _ in range(rng.randrange(1, 7))]
    out = set()
    for _ in range(n):
        o = rng.choice(objs) if rng.random() < 0.7 else literal(rng, big, iri_fn)
        out.add((rng.choice(subs), rng.choice(preds), o))
    return out


def shuffled(rng, it):
    x = sorted(it, key=repr)
    rng.shuffle(x)
    return x
