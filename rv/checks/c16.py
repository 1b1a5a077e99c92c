"""C16: CURIE resolution and shrinking, judged by string arithmetic."""
import json
import os

from pymantic.primitives import NamedNode, PrefixMap, Profile, parse_curie, parse_curies, to_curie

from rv import gen

RULE = "distinct (operation, kind of prefix, kind of reference, relation of the IRI to the bound namespaces) combinations"
ASSUMES = ["registered URI schemes: the list the library ships (copied)", "prefix names without ':', '[' or ']'; no empty CURIE; a colon-less name that is itself a bound prefix is only judged when there is a default prefix"]
COUNT = {"quick": 60000, "thorough": 600000}
MIN_EVENTS = {"oracle:evaluations": 40000, "resolved": 10000, "shrunk": 10000, "unchanged": 1500, "unknown prefix": 2000, "inverse": 10000, "nested namespaces": 1500}
SCHEMES = set(json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "data", "schemes.json"))))
NAMES = ["ex", "e", "a", "b", "x1", "foaf", "rdfs", "owl2", "Ex", "EX", "a.b", "a-b", "_x", "\u00e9", "\u4e2d", "0", "p%20", "httpx", "ex ample"]
NS = ["http://example.org/", "http://example.org/a/", "http://example.org/a/b#", "http://example.org", "http://example.com/ns#", "urn:x:", "urn:x:y:", "http://e/?q=", "tag:e,2020:", "mailto:", "http://\u00e9.x/", "a", "x", "http://example.org/a", "", "nonscheme:", "http://h/a.b/", "http://h/(x)/", "http://h/\\1/", "http://h/a+b*[c]^$"]
REFS = ["", "a", "b", "label", "a/b", "a#b", ":", "a:b", "::", "//x", "/", "#", "?x=1", "[x]", "x]", " ", "\u00e9", "%20", "a b", "http://example.org/", "http", "b#c", "a/b#x", "\\1", "\\g<0>", "a.b", "A", "{}", "%s", "\U0001F600", "\n"]


def rand_map(rng):
    m = {}
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        name = rng.choice(NAMES) if rng.random() < 0.85 else rng.choice(["http", "urn", "mailto", "tel", "data", "news"])
        ns = rng.choice(NS) if rng.random() < 0.7 else gen.iri(rng)
        if m and rng.random() < 0.25:
            base = rng.choice(sorted(m.values()))
            ns = rng.choice([base, base + rng.choice(REFS), base[:-1], base + base, base[: len(base) // 2]])
        m[name] = ns
    if rng.random() < 0.4:
        m[""] = rng.choice(NS)
    return m


def as_map(rng, m):
    items = gen.shuffled(rng, m.items())
    r = rng.random()
    if r < 0.4:
        return dict(items), None
    pm = PrefixMap()
    if r < 0.7:
        for k, v in items:
            pm[k] = v
        return pm, pm
    p = Profile(prefixes=pm)
    pm.clear()
    for k, v in items:
        if k == "" and rng.random() < 0.5:
            p.setDefaultPrefix(v)
        else:
            p.setPrefix(k, v if rng.random() < 0.5 else NamedNode(v))
    return pm, pm


def text(x):
    return "".join(x) if isinstance(x, str) else x


def do_resolve(ctx, curie, pmap, pm):
    if pm is not None and ctx.rng.random() < 0.6:
        return ctx.call("PrefixMap.resolve", pm.resolve, curie)
    if ctx.rng.random() < 0.2:
        r = list(ctx.call("parse_curies", parse_curies, [curie, curie], pmap))
        ctx.expect(len(r) == 2 and r[0] == r[1], "parse_curies gave %r" % (r,))
        return r[0]
    return ctx.call("parse_curie", parse_curie, curie, pmap)


def expected(curie, m):
    """IRI, ValueError, or None if the case is not judged."""
    body, explicit = (curie[1:-1], True) if curie[0] == "[" and curie[-1] == "]" else (curie, False)
    prefix, sep, ref = body.partition(":")
    if sep and not explicit and prefix in SCHEMES:
        return body
    if not sep:
        if not explicit and prefix in SCHEMES:
            return None
        if "" in m:
            return m[""] + body
        return None if prefix in m else ValueError
    return m[prefix] + ref if prefix in m else ValueError


def check_resolve(ctx, curie, m, pmap, pm, kind):
    want = expected(curie, m)
    if want is None:
        return
    if want is ValueError:
        f = pm.resolve if pm is not None and ctx.rng.random() < 0.5 else (lambda c: parse_curie(c, pmap))
        ctx.raises("resolve", ValueError, f, curie)
        ctx.ev("unknown prefix")
    else:
        ctx.same(text(do_resolve(ctx, curie, pmap, pm)), want, "resolving %r with %r" % (curie, m))
        ctx.ev("resolved")
    ctx.sig("resolve", kind, want is ValueError, "" in m)


def case(ctx, i):
    rng = ctx.rng
    m = rand_map(rng)
    pmap, pm = as_map(rng, m)
    known = sorted(k for k in m if k)
    for _ in range(6):
        ref = rng.choice(REFS) if rng.random() < 0.7 else "".join(gen.rand_char(rng) for _ in range(rng.randrange(1, 6)))
        r = rng.random()
        if r < 0.45 and known:
            pre, kind = rng.choice(known), "known"
        elif r < 0.6:
            pre, kind = "", "default"
        elif r < 0.75:
            pre, kind = rng.choice(NAMES + ["unknown"]), "any"
        else:
            pre, kind = rng.choice(sorted(SCHEMES)) if rng.random() < 0.6 else rng.choice(["http", "https", "urn", "mailto", "ftp"]), "scheme"
        c = pre + ":" + ref if rng.random() < 0.85 else ref
        if rng.random() < 0.35:
            c, kind = "[" + c + "]", kind + " explicit"
        if not c or c == "[]":
            continue
        check_resolve(ctx, c, m, pmap, pm, kind)
    # shrinking
    for _ in range(6):
        if m and rng.random() < 0.75:
            ns = rng.choice(sorted(m.values()))
            uri = ns + rng.choice(REFS + [ns, ns + ns, "x" + ns])
            if rng.random() < 0.15:
                uri = uri[:-1]
        else:
            uri = rng.choice(NS) + rng.choice(REFS) if rng.random() < 0.5 else gen.iri(rng)
        if rng.random() < 0.5:
            uri = NamedNode(uri)
        check_shrink(ctx, uri, m, pmap, pm)
    ctx.expect(dict(pmap) == m, "resolving or shrinking changed the prefix map")
    ctx.sample((m,))


def check_shrink(ctx, uri, m, pmap, pm):
    rng = ctx.rng
    best = max((len(ns) for ns in m.values() if uri.startswith(ns)), default=None)
    ok = {k for k, ns in m.items() if uri.startswith(ns) and len(ns) == best}
    if sum(1 for ns in m.values() if uri.startswith(ns)) > 1:
        ctx.ev("nested namespaces")
    how = rng.random()
    if how < 0.4 and pm is not None:
        got, sep, explicit = ctx.call("PrefixMap.shrink", pm.shrink, uri), ":", False
    elif how < 0.7:
        got, sep, explicit = ctx.call("to_curie", to_curie, uri, pmap), ":", False
    elif how < 0.9:
        got, sep, explicit = ctx.call("to_curie", to_curie, uri, pmap, explicit=True), ":", True
    else:
        sep, explicit = rng.choice([".", "_", "::", "|"]), rng.random() < 0.5
        got = ctx.call("to_curie", to_curie, uri, pmap, sep, explicit)
    got = text(got)
    if best is None:
        ctx.same(got, text(uri), "shrinking an IRI no namespace starts, with %r" % m)
        ctx.ev("unchanged")
        ctx.sig("shrink none", explicit)
        return
    ctx.ev("shrunk")
    forms = {p: p + sep + uri[best:] for p in ok}
    if explicit:
        forms = {p: "[" + c + "]" for p, c in forms.items()}
    ctx.expect(got in forms.values(), lambda: "shrinking %r with %r gave %r, expected %s" % (uri, m, got, sorted(forms.values())))
    ctx.sig("shrink", explicit, sep, len(ok), best == len(uri), uri.count(uri[:best]) > 1 if best else "empty ns")
    if sep == ":":
        pre = (got[1:] if explicit else got).partition(":")[0]
        if explicit or (pre not in SCHEMES and not (got[0] == "[" and got[-1] == "]")):
            ctx.same(text(do_resolve(ctx, got, pmap, pm)), text(uri), "resolving the shrunk form %r with %r" % (got, m))
            ctx.ev("inverse")
        if not explicit:
            ctx.same(text(do_resolve(ctx, "[" + got + "]", pmap, pm)), text(uri), "resolving the bracketed form of %r with %r" % (got, m))
            ctx.ev("inverse")


def schemes(ctx):
    """Every registered scheme: plain form is an IRI, bracketed form a CURIE."""
    for s in sorted(SCHEMES):
        for m in ({}, {s: "http://example.org/"}, {"": "http://d/"}):
            ctx.same(text(parse_curie(s + ":rest", m)), s + ":rest", "an IRI with registered scheme %r and prefixes %r" % (s, m))
            ctx.ev("resolved")
            if s in m:
                ctx.same(text(parse_curie("[%s:rest]" % s, m)), "http://example.org/rest", "the bracketed form")
            else:
                ctx.raises("parse_curie", ValueError, parse_curie, "[%s:rest]" % s, m)
                ctx.ev("unknown prefix")
        ctx.sig("scheme", s)


FIXED = [schemes]
