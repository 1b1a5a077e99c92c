"""C17: profiles, prefix maps and term maps against a model, over histories."""
from pymantic.primitives import PrefixMap, Profile, RDFEnvironment, TermMap


RULE = "distinct (operation, kinds of objects, what changed) steps in histories after which every live object was compared with its model"
ASSUMES = ["a TermMap's default vocabulary is not an entry: importing does not transfer it", "a profile takes what has a ':' for a CURIE, whatever its terms", "Profile(prefixes, terms) uses the maps it is given"]
COUNT = {"quick": 18000, "thorough": 60000}
MIN_EVENTS = {"oracle:evaluations": 60000, "imports": 2000, "imports with override": 800, "created": 2000, "resolutions": 10000, "shrinks": 2000}
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
XSD = "http://www.w3.org/2001/XMLSchema#"
PN = ["ex", "a", "b", "rdf", "xsd", "foaf", "", "z1"]
TN = ["member", "label", "a", "b", "type", "x-y", "\u00e9", "", "/x", "#y", "Label", "ex:x", "a:", ":x", "rdf:"]
IRIS = ["http://example.org/", "http://example.org/a#", "urn:x:", "http://e/member", "http://e/label", "http://e/", RDF, XSD, "http://\u00e9/"]


class PM:
    """Model of a prefix map."""

    def __init__(self, d=None):
        self.d = dict(d or {})


class TM:
    def __init__(self, d=None, default=None):
        self.d, self.default = dict(d or {}), default


def addall(dst, src, override):
    for k, v in list(src.d.items()):
        if override or k not in dst.d:
            dst.d[k] = v


class World:
    """Live objects with their models; profiles are (real, PM, TM)."""

    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.maps = []   # (name, real, PM)
        self.terms = []  # (name, real, TM)
        self.profiles = []  # (name, real, PM, TM, is_env)
        self.n = 0

    def name(self, k):
        self.n += 1
        return "%s%d" % (k, self.n)

    def add_profile(self, real, pm, tm, env=False):
        n = self.name("env" if env else "profile")
        self.profiles.append((n, real, pm, tm, env))
        self.maps.append((n + ".prefixes", real.prefixes, pm))
        self.terms.append((n + ".terms", real.terms, tm))

    def check(self, after):
        ctx = self.ctx
        for n, real, m in self.maps:
            ctx.same(dict(real), m.d, "%s after %s" % (n, after))
        for n, real, m in self.terms:
            ctx.same(dict(real), m.d, "%s after %s" % (n, after))
            got = ctx.call("TermMap.resolve", real.resolve, "no-such-term")
            ctx.same(got, None if m.default is None else m.default + "no-such-term", "the default vocabulary of %s after %s" % (n, after))
        for n, real, pm, tm, _ in self.profiles:
            ctx.same((dict(real.prefixes), dict(real.terms)), (pm.d, tm.d), "%s after %s" % (n, after))


def case(ctx, i):
    rng = ctx.rng
    w = World(ctx)
    for _ in range(rng.choice([1, 1, 2])):
        w.add_profile(RDFEnvironment(), PM({"rdf": RDF, "xsd": XSD}), TM(), True)
    for _ in range(rng.randrange(4, 16)):
        step(ctx, w)
    ctx.sample([n for n, *_ in w.profiles])


def step(ctx, w):
    rng = ctx.rng
    r = rng.random()
    if r < 0.25:
        what = create(ctx, w)
    elif r < 0.6:
        what = change(ctx, w)
    elif r < 0.8:
        what = do_import(ctx, w)
    else:
        what = ask(ctx, w)
    ctx.log(what)
    w.check(what)
    ctx.sig(what.split(" ")[0], what)


def create(ctx, w):
    rng = ctx.rng
    ctx.ev("created")
    envs = [p for p in w.profiles if p[4]]
    n, env, pm, tm, _ = rng.choice(envs)
    r = rng.random()
    empty = rng.random() < 0.35
    kw = {"empty": True} if empty else rng.choice([{}, {"empty": False}])
    if r < 0.4:
        p = ctx.call("createProfile", env.createProfile, **kw)
        ctx.expect(isinstance(p, Profile), "createProfile gave %r" % (p,))
        w.add_profile(p, PM({"rdf": RDF, "xsd": XSD}) if empty else PM({"rdf": RDF, "xsd": XSD, **pm.d}), TM() if empty else TM(tm.d, tm.default))
        return "createProfile(empty=%s)" % empty
    if r < 0.6:
        m = ctx.call("createPrefixMap", env.createPrefixMap, **kw)
        ctx.expect(isinstance(m, PrefixMap), "createPrefixMap gave %r" % (m,))
        if not empty:
            for x in IRIS:
                ctx.same(m.shrink(x + "q"), env.prefixes.shrink(x + "q"), "what <%sq> shrinks to in a copy of the environment's prefixes %r" % (x, pm.d))
        w.maps.append((w.name("prefixmap"), m, PM() if empty else PM(pm.d)))
        return "createPrefixMap(empty=%s)" % empty
    if r < 0.8:
        m = ctx.call("createTermMap", env.createTermMap, **kw)
        ctx.expect(isinstance(m, TermMap), "createTermMap gave %r" % (m,))
        w.terms.append((w.name("termmap"), m, TM() if empty else TM(tm.d, tm.default)))
        return "createTermMap(empty=%s)" % empty
    if r < 0.87:
        w.add_profile(Profile(), PM({"rdf": RDF, "xsd": XSD}), TM())
        return "Profile()"
    if r < 0.94:
        w.terms.append((w.name("termmap"), TermMap(), TM()))
        return "TermMap()"
    w.maps.append((w.name("prefixmap"), PrefixMap(), PM()))
    return "PrefixMap()"


def change(ctx, w):
    rng = ctx.rng
    r = rng.random()
    iri = rng.choice(IRIS)
    if r < 0.5:
        n, p, pm, tm, env = rng.choice(w.profiles)
        k = rng.randrange(4)
        if k == 0:
            x = rng.choice(PN)
            ctx.call("setPrefix", p.setPrefix, x, iri)
            pm.d[x] = iri
        elif k == 1:
            x = rng.choice(TN)
            ctx.call("setTerm", p.setTerm, x, iri)
            tm.d[x] = iri
        elif k == 2:
            ctx.call("setDefaultPrefix", p.setDefaultPrefix, iri)
            pm.d[""] = iri
        else:
            ctx.call("setDefaultVocabulary", p.setDefaultVocabulary, iri)
            tm.default = iri
        return "%s on a %s" % (["setPrefix", "setTerm", "setDefaultPrefix", "setDefaultVocabulary"][k], "env" if env else "profile")
    if r < 0.75:
        n, m, pm = rng.choice(w.maps)
        if rng.random() < 0.3:
            ctx.call("PrefixMap.setDefault", m.setDefault, iri)
            pm.d[""] = iri
            return "PrefixMap.setDefault"
        if pm.d and rng.random() < 0.25:
            x = rng.choice(sorted(pm.d))
            del m[x]
            del pm.d[x]
            return "del prefix"
        x = rng.choice(PN)
        m[x] = iri
        pm.d[x] = iri
        return "set prefix"
    n, m, tm = rng.choice(w.terms)
    if rng.random() < 0.35:
        iri = rng.choice(IRIS + [""])
        ctx.call("TermMap.setDefault", m.setDefault, iri)
        tm.default = iri
        return "TermMap.setDefault"
    if tm.d and rng.random() < 0.25:
        x = rng.choice(sorted(tm.d))
        del m[x]
        del tm.d[x]
        return "del term"
    x = rng.choice(TN)
    if rng.random() < 0.15:
        iri = ""  # nothing follows, yet it is what the term is set to
    m[x] = iri
    tm.d[x] = iri
    return "set term"


def do_import(ctx, w):
    rng = ctx.rng
    ctx.ev("imports")
    over = rng.choice([None, False, True])
    if over:
        ctx.ev("imports with override")
    kw = {} if over is None else {"override": over}
    r = rng.random()
    if r < 0.4:
        a, b = rng.choice(w.profiles), rng.choice(w.profiles)
        res = ctx.call("importProfile", a[1].importProfile, b[1], **kw)
        ctx.expect(res is a[1], "importProfile did not return its profile")
        addall(a[2], b[2], bool(over))
        addall(a[3], b[3], bool(over))
        return "importProfile(override=%s) %s" % (over, "same" if a is b else "other")
    k = rng.random() < 0.5
    pool = w.maps if k else w.terms
    a, b = rng.choice(pool), rng.choice(pool)
    src, srcm = b[1], b[2]
    if rng.random() < 0.3:  # any mapping will do
        srcm = type(srcm)({rng.choice(PN if k else TN): rng.choice(IRIS) for _ in range(3)})
        src = dict(srcm.d)
    res = ctx.call("addAll", a[1].addAll, src, **kw)
    ctx.expect(res is a[1], "addAll did not return its map")
    addall(a[2], srcm, bool(over))
    ctx.same(dict(src), srcm.d, "the source of an import")
    return "%s.addAll(override=%s)" % ("PrefixMap" if k else "TermMap", over)


SCHEMES = ("http", "urn")


def ask(ctx, w):
    rng = ctx.rng
    r = rng.random()
    if r < 0.35:
        n, m, tm = rng.choice(w.terms)
        for t in TN + ["nope", "x" * 3]:
            ctx.ev("resolutions")
            ctx.same(ctx.call("TermMap.resolve", m.resolve, t), tm.d.get(t, None if tm.default is None else tm.default + t), "term %r in %s" % (t, n))
        for iri in IRIS + ["http://nowhere/"]:
            ctx.ev("shrinks")
            got = ctx.call("TermMap.shrink", m.shrink, iri)
            if iri in tm.d.values():
                ctx.expect(tm.d.get(got) == iri, lambda: "shrinking %r in %r gave %r" % (iri, tm.d, got))
            else:
                ctx.expect(got == iri or (got in tm.d and tm.d[got] == iri) or (tm.default is not None and tm.default + got == iri and got not in tm.d), lambda: "shrinking %r in %r gave %r" % (iri, tm.d, got))
        return "terms asked"
    if r < 0.75:
        n, p, pm, tm, _ = rng.choice(w.profiles)
        for t in TN + ["nope"]:
            if ":" in t:
                continue
            ctx.ev("resolutions")
            ctx.same(ctx.call("Profile.resolve", p.resolve, t), tm.d.get(t, None if tm.default is None else tm.default + t), "term %r in %s" % (t, n))
        for x in PN + ["unk"]:
            ctx.ev("resolutions")
            ref = rng.choice(["", "x", "a:b"])
            if x in pm.d:
                ctx.same(str(ctx.call("Profile.resolve", p.resolve, x + ":" + ref)), pm.d[x] + ref, "%s:%s in %s" % (x, ref, n))
            else:
                ctx.raises("Profile.resolve", ValueError, p.resolve, x + ":" + ref)
        return "profile asked"
    n, m, pm = rng.choice(w.maps)
    for x in PN:
        if x in pm.d:
            ctx.ev("resolutions")
            ctx.same(str(ctx.call("PrefixMap.resolve", m.resolve, x + ":q")), pm.d[x] + "q", "%s:q in %s" % (x, n))
            ctx.ev("shrinks")
            got = ctx.call("PrefixMap.shrink", m.shrink, pm.d[x] + "q")
            pre, _, ref = got.partition(":")
            ctx.expect(pre in pm.d and pm.d[pre] + ref == pm.d[x] + "q", lambda: "shrinking %r in %r gave %r" % (pm.d[x] + "q", pm.d, got))
    return "prefixes asked"


def independence(ctx):
    """Environment-made objects and the environment do not see each other's changes."""
    for default in (None, "http://v/"):
        for dp in (None, "http://dp/"):
            env = RDFEnvironment()
            env.setTerm("t", "http://t/")
            env.setPrefix("p", "http://p/")
            if default:
                env.setDefaultVocabulary(default)
            if dp:
                env.setDefaultPrefix(dp)
            p, t, m = env.createProfile(), env.createTermMap(), env.createPrefixMap()
            for who, real in (("profile", p), ("term map", t), ("profile terms", p.terms)):
                ctx.same(real.resolve("t"), "http://t/", "a term set before creating the " + who)
                ctx.same(real.resolve("u"), default + "u" if default else None, "the default vocabulary of the " + who)
            for who, real in (("profile", p), ("prefix map", m)):
                ctx.same(str(real.resolve("p:x")), "http://p/x", "a prefix set before creating the " + who)
                if dp:
                    ctx.same(str(real.resolve(":x")), dp + "x", "the default prefix of the " + who)
            env.setDefaultVocabulary("http://later/")
            env.setTerm("t", "http://changed/")
            env.setPrefix("p", "http://changed/")
            for real in (p, t):
                ctx.same(real.resolve("t"), "http://t/", "a term after changing the environment")
                ctx.same(real.resolve("u"), default + "u" if default else None, "the default vocabulary after changing the environment's")
            p.setTerm("only", "http://only/")
            p.setPrefix("only", "http://only/")
            p.setDefaultVocabulary("http://p-only/")
            ctx.same(env.resolve("only"), "http://later/only", "the environment after changing a profile")
            ctx.raises("resolve", ValueError, env.resolve, "only:x")
            ctx.sig("independence", default, dp)


FIXED = [independence]
