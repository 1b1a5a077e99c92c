"""C19: assignments replace exactly the documented values."""
import datetime


from rv import res
from rv.checks.c18 import kinds, read
from rv.model import XSD, I, L
from rv.pm import Reader

RULE = "distinct (filter, scalar or not, kind of value, kinds of prior values, accepted or refused) combinations"
ASSUMES = ["literals carry a language or a datatype, never both", "languages in lower case", "values: text, int, datetime, Literal, node, Resource, and collections of them", "with an empty-string or xsd:string filter, what happens to references and, on scalars, to other literals is not judged"]
COUNT = {"quick": 36000, "thorough": 150000}
MIN_EVENTS = {"oracle:evaluations": 40000, "assignments": 9000, "refused": 2500, "scalar assignments": 3000, "collections": 1500, "with filter": 6000, "references under filters": 500}


def value(ctx, room, flt):
    """(python value, how it is described)"""
    rng = ctx.rng
    r = rng.random()
    if r < 0.22:
        t = rng.choice(["v", "", "w w", "\u00e9", "5"])
        return t, ("text", t)
    if r < 0.3:
        v = rng.choice([0, 1, -5, 10 ** 20])
        return v, ("term", L(str(v), None, XSD + "integer"))
    if r < 0.36:
        v = datetime.datetime(2020, 1, 2, 3, 4, 5, rng.choice([0, 120]))
        return v, ("term", L(v.isoformat(), None, XSD + "dateTime"))
    if r < 0.65:
        t = res.literal(rng)
        if flt[0] == "lang" and rng.random() < 0.5:
            t = L(t[1], flt[1])
        elif flt[0] == "dt" and rng.random() < 0.5:
            t = L(t[1], None, flt[1])
        elif flt[0] == "bare" and rng.random() < 0.6:
            t = L(t[1])
        return room.m.term(t), ("term", t)
    n = res.node(rng)
    if flt[0] == "class" and rng.random() < 0.6:
        ok = [x for x in res.NODES if room.is_instance(x, flt[1])]
        n = rng.choice(ok) if ok else n
    x = room.m.term(n)
    if rng.random() < 0.5:
        return x, ("ref", n, None)
    c = rng.choice(res.CLASSES)
    return c(room.graph, x), ("ref", n, c)


def as_term(room, d, p, flt):
    """The term an element becomes."""
    if d[0] == "text":
        if flt[0] == "plain":
            return L(d[1], room.lang) if room.scalar(p) else L(d[1])
        if flt[0] == "lang":
            return L(d[1], flt[1])
        if flt[0] == "dt":
            return L(d[1], None, flt[1])
        return L(d[1])
    return d[1]


def fits(room, d, t, flt):
    if flt[0] in ("plain", "all"):
        return True
    if t[0] != "L":
        if flt[0] == "class":
            return issubclass(d[2], flt[1]) if d[2] else room.is_instance(t, flt[1])
        return True
    if flt[0] == "lang":
        return bool(t[2]) and res.lang_match(t[2], flt[1])
    if flt[0] == "dt":
        return t[3] == flt[1]
    if flt[0] == "bare":
        return t[2] is None and t[3] is None
    return False


def replaced(room, p, flt, term):
    """Prior values an accepted assignment removes (term: the value, if single)."""
    v = room.values(p)
    if flt[0] == "plain":
        if room.scalar(p) and term[0] == "L" and term[2]:
            return {o for o in v if not (o[0] == "L" and o[2] and not res.lang_match(o[2], term[2]))}
        return v
    if flt[0] == "all":
        return v
    if room.scalar(p):
        if flt[0] == "lang" and term[0] == "L":
            return room.by(p, "lang", flt[1]) | room.by(p, "typed") | room.by(p, "refs")
        return v
    if flt[0] in ("lang", "dt"):
        return room.by(p, flt[0], flt[1]) | room.by(p, "refs")
    if flt[0] == "class":
        return room.by(p, "class", flt[1])
    return room.by(p, "bare")


def assign(ctx, room, p, flt):
    rng = ctx.rng
    key = room.key(p, flt)
    multi = rng.random() < (0.15 if room.scalar(p) else 0.4)
    if multi:
        parts = [value(ctx, room, flt) for _ in range(rng.choice([0, 1, 2, 3]))]
        if flt[0] not in ("plain", "all") and rng.random() < 0.6:
            parts = [x for x in parts if fits(room, x[1], as_term(room, x[1], p, flt), flt)]
        # one node under two classes in one collection is the caller's contradiction
        seen = set()
        parts = [x for x in parts if x[1][0] != "ref" or not (x[1][1] in seen or seen.add(x[1][1]))]
        val = rng.choice([list, tuple, set, frozenset])([x for x, _ in parts])
        descs = [d for _, d in parts]
        ctx.ev("collections")
    else:
        val, d = value(ctx, room, flt)
        descs = [d]
    terms = [as_term(room, d, p, flt) for d in descs]
    ok = all(fits(room, d, t, flt) for d, t in zip(descs, terms)) and not (multi and room.scalar(p))
    prior = room.values(p)
    what = "resource[%r] = %r on %s with %r (scalar %s, lang %s)" % (key, val, room.cls.__name__, sorted(map(repr, prior)), room.scalar(p), room.lang)
    ctx.log(what)
    ctx.ev("assignments")
    if room.scalar(p):
        ctx.ev("scalar assignments")
    if flt[0] != "plain":
        ctx.ev("with filter")

    def put(k, v):
        room.res[k] = v

    ctx.sig(flt[0], room.scalar(p), multi, kinds(terms), kinds(prior), ok)
    if not ok:
        ctx.ev("refused")
        ctx.raises("setitem", ValueError, put, key, val)
        room.see("the refused " + what)
        return
    if flt[0] in ("lang", "dt") and any(t[0] != "L" for t in terms):
        ctx.ev("references under filters")
    gone = replaced(room, p, flt, terms[0] if not multi else ("?",))
    ctx.call("setitem", put, key, val)
    P = I(p)
    if flt[0] == "bare":
        # judged: plain literals replaced, the value stored, nothing else but
        # references (any property) and other literals of a scalar may go
        got = Reader(room.m).stmts(room.graph, ctx, "the graph")
        others = {t for t in room.model if not (t[0] == room.subject and t[1] == P)}
        ctx.same({t for t in got if not (t[0] == room.subject and t[1] == P)}, others, "other statements after " + what)
        mine = {t[2] for t in got if t[0] == room.subject and t[1] == P}
        ctx.expect(set(terms) <= mine, what + ": the value is missing")
        ctx.same({o for o in mine if o[0] == "L" and o[2] is None and o[3] is None}, {t for t in terms if t[0] == "L"}, "plain literals after " + what)
        if not room.scalar(p):
            keep = {o for o in prior if o[0] == "L" and (o[2] or o[3])}
            ctx.same({o for o in mine if o[0] == "L" and (o[2] or o[3])}, keep, "other literals after " + what)
        ctx.expect(mine <= prior | set(terms), what + ": values appeared from nowhere")
        room.model = got
        return
    room.model -= {(room.subject, P, o) for o in gone}
    room.model |= {(room.subject, P, t) for t in terms}
    room.see(what)


def case(ctx, i):
    rng = ctx.rng
    room = res.Room(ctx)
    for _ in range(rng.choice([1, 2, 4, 8])):
        p = rng.choice(room.busy) if rng.random() < 0.9 else rng.choice(res.PREDS)
        assign(ctx, room, p, room.filter())
        if rng.random() < 0.3:
            flt = room.filter()
            read(ctx, room, p, flt, room.key(p, flt))
        for _ in range(rng.choice([0, 0, 1, 3])):
            room.put(room.random_triple())
    ctx.sample((room.cls.__name__, room.busy))
