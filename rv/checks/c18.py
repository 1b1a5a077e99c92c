"""C18: reading, testing and deleting properties select what the rules say."""
from collections import Counter

from pymantic.primitives import Literal, NamedNode
from pymantic.rdf import Resource

from rv import res
from rv.model import I

RULE = "distinct (operation, filter, scalar or not, kinds of values present, number selected) combinations"
ASSUMES = ["literals carry a language or a datatype, never both", "languages in lower case", "predicates with registered URI schemes or declared prefixes"]
COUNT = {"quick": 20000, "thorough": 120000}
MIN_EVENTS = {"oracle:evaluations": 60000, "reads": 8000, "scalar reads": 3000, "ambiguous scalar reads": 200, "containment tests": 6000, "deletions": 2000, "get_scalar": 1500, "shown": 4000, "selections with several kinds": 500}


def kinds(vals):
    return tuple(sorted({"lang" if o[0] == "L" and o[2] else "typed" if o[0] == "L" and o[3] else "bare" if o[0] == "L" else "ref" for o in vals}))


def listed(ctx, room, it, want, what):
    got = Counter(room.term(x) for x in it)
    ctx.same(got, Counter(dict.fromkeys(want, 1)), what)


def checked_value(ctx, room, x, what):
    t = room.term(x)
    if t[0] == "L":
        ctx.expect(isinstance(x, Literal), "%s: a literal came back as %r" % (what, x))
    else:
        ctx.expect(isinstance(x, Resource) and x.graph is room.graph, lambda: "%s: a reference came back as %r" % (what, x))
        for c in res.REGISTERED.values():
            ctx.expect(isinstance(x, c) == room.is_instance(t, c), lambda: "%s: %r was instantiated as %r" % (what, t, type(x).__mro__))
    return t


def read(ctx, room, p, flt, key):
    want = room.selected(p, flt)
    what = "resource[%r] of %s (values %r, scalar %s, lang %s)" % (key, room.cls.__name__, sorted(map(repr, room.values(p))), room.scalar(p), room.lang)
    ctx.ev("reads")
    if room.scalar(p) and flt[0] != "all":
        ctx.ev("scalar reads")
        one(ctx, room, lambda k: room.res[k], key, want, what)
    else:
        r = list(ctx.call("getitem", lambda k: room.res[k], key))
        listed(ctx, room, r, want, what)
        for x in r:
            checked_value(ctx, room, x, what)


def one(ctx, room, f, key, want, what):
    if len(want) > 1:
        ctx.ev("ambiguous scalar reads")
        ctx.raises("scalar read", ValueError, f, key)
        return
    r = ctx.call("scalar read", f, key)
    if not want:
        ctx.same(r, None, what)
        return
    ctx.expect(r is not None, "%s gave None, expected %r" % (what, want))
    ctx.same({checked_value(ctx, room, r, what)}, want, what)


def apis(ctx, room, p):
    r = room.res
    P = NamedNode(p)
    rng = ctx.rng
    ln, dt, c = rng.choice(res.LANGS), rng.choice(res.DTS), rng.choice(res.CLASSES)
    v = room.values(p)
    for name, got, want in (
        ("objects", r.objects(P), v),
        ("bare_literals", r.bare_literals(P), room.by(p, "bare")),
        ("objects_by_lang(%r)" % ln, r.objects_by_lang(P, ln), room.by(p, "lang", ln)),
        ("objects_by_lang()", r.objects_by_lang(P), {o for o in v if o[0] == "L" and o[2]}),
        ("objects_by_lang('')", r.objects_by_lang(P, ""), room.by(p, "bare")),
        ("objects_by_datatype(%r)" % dt, r.objects_by_datatype(P, NamedNode(dt)), room.by(p, "dt", dt)),
        ("objects_by_datatype()", r.objects_by_datatype(P), room.by(p, "typed")),
        ("objects_by_datatype('')", r.objects_by_datatype(P, ""), room.by(p, "bare")),
        ("objects_by_type()", r.objects_by_type(P), room.by(p, "refs")),
        ("objects_by_type(%s)" % c.__name__, r.objects_by_type(P, c), room.by(p, "class", c)),
    ):
        listed(ctx, room, got, want, "%s for %r with values %r" % (name, p, sorted(map(repr, v))))


def shown(ctx, room):
    """str() shows the label in the resource's language, or the node."""
    label = room.selected(res.RDFS + "label", ("plain",))
    if len(label) > 1:
        return
    ctx.ev("shown")
    texts = [o[1] for o in label if o[0] == "L"] or [str(room.res.subject)]
    ctx.same(ctx.call("str", str, room.res), texts[0], "text of a resource labelled %r" % (sorted(map(repr, label)),))
    room.see("showing")


def case(ctx, i):
    rng = ctx.rng
    room = res.Room(ctx)
    for _ in range(rng.choice([3, 6, 10])):
        p = rng.choice(room.busy) if rng.random() < 0.85 else rng.choice(res.PREDS)
        flt = room.filter()
        key = room.key(p, flt)
        want = room.selected(p, flt)
        if len(kinds(want)) > 1:
            ctx.ev("selections with several kinds")
        ctx.log("key", key, "values", sorted(map(repr, room.values(p))))
        op = rng.random()
        ctx.sig(("read", "test", "delete", "scalar")[min(3, int(op * 4))], flt[0], room.scalar(p), kinds(room.values(p)), len(want))
        if op < 0.45:
            read(ctx, room, p, flt, key)
        elif op < 0.6:
            ctx.ev("get_scalar")
            one(ctx, room, room.res.get_scalar, key, want, "get_scalar(%r) with values %r" % (key, sorted(map(repr, room.values(p)))))
        elif op < 0.72:
            apis(ctx, room, p)
        ctx.ev("containment tests")
        ctx.same(ctx.call("contains", lambda k: k in room.res, key), bool(want), "%r in resource with values %r" % (key, sorted(map(repr, room.values(p)))))
        if op >= 0.72:
            ctx.ev("deletions")

            def rm(k):
                del room.res[k]

            ctx.call("delete", rm, key)
            room.model -= {(room.subject, I(p), o) for o in want}
            room.see("deleting %r" % (key,))
            ctx.same(ctx.call("contains", lambda k: k in room.res, key), bool(room.selected(p, flt)), "%r in resource after deletion" % (key,))
        else:
            room.see("reading %r" % (key,))
        # the graph changes behind the resource's back
        for _ in range(rng.choice([0, 1, 3])):
            room.put(room.random_triple())
        if rng.random() < 0.3:
            mine = sorted((t for t in room.model if t[0] == room.subject), key=repr)
            if mine:
                room.drop(rng.choice(mine))
        if rng.random() < 0.3:
            shown(ctx, room)
    ctx.sample((room.cls.__name__, room.busy))
