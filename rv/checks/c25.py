"""C25: what SPARQL calls put on the wire, as recovered by a recording server."""
import copy
import json
import os

from pymantic.sparql import SPARQLServer, UpdateableGraphStore

from rv import gen, sched
from rv.core import REPO
from rv.httpd import Reply, decode_form, server
from rv.model import HarnessError

RULE = "distinct (kind of call, client configuration, graphs given, features of the text) combinations, plus distinct thread schedules"
ASSUMES = ["loopback HTTP server; no proxies, redirects or authentication", "SPARQL text without lone surrogates"]
COUNT = {"quick": 1600, "thorough": 40000}
MIN_EVENTS = {"oracle:evaluations": 15000, "requests": 1650, "GET queries": 250, "form queries": 200, "direct queries": 300, "form updates": 300, "direct updates": 300, "concurrent calls": 450, "graph parameters": 1000, "calls answered by an error": 250, "compared with a fresh client": 450}
FAULTS = [201, 202, 204, 206, 300, 304, 400, 401, 403, 404, 408, 409, 410, 413, 414, 421, 425, 429, 500, 501, 502, 503, 504, 507]
SRC = os.path.join(REPO, "src", "pymantic") + os.sep
QUERIES = ["SELECT * WHERE { ?s ?p ?o }", "ASK { ?s ?p \"caf\u00e9 & co = 100%\" }", "CONSTRUCT { ?s ?p ?o } WHERE { ?s ?p ?o . FILTER(?o > 5 && ?o < 10) }", "# comment\nSELECT ?x\r\n\tWHERE { ?x a <http://e/#y?z=1&w=2;v+u> }\n", "SELECT (\"%20+%41\" AS ?x) {}", "INSERT DATA { <a:a> <a:b> \"\U0001F600 \u4e2d\" }", "SELECT \"\\u0041\" 'x''y' \"\"\"z\"\"\"", "+", "&", "=", "%", "#", "?", ";", " ", "\n", "\x00", "\u2028", "query=x&update=y"]


def text(rng):
    r = rng.random()
    if r < 0.35:
        return rng.choice(QUERIES)
    if r < 0.7:
        return "SELECT * WHERE { ?s ?p \"" + gen.text(rng) + "\" }"
    if r < 0.97:
        return gen.text(rng, big=True)
    return "SELECT " + "x" * rng.choice([1000, 5000, 40000 if rng.random() < 0.3 else 2000])


def graphs(rng):
    r = rng.random()
    if r < 0.4:
        return None, []
    if r < 0.6:
        g = gen.iri(rng)
        return g, [g]
    if r < 0.65:
        return [], []
    n = rng.choice([1, 2, 3, 6])
    gs = [gen.iri(rng) for _ in range(n)]
    return rng.choice([list, tuple])(gs), gs


class Client:
    def __init__(self, rng, srv, cfg=None):
        self.cfg = cfg or rng.choice([(False, False), (True, False), (False, True), (True, True)])
        self.own = rng.choice([[], [], [("key", "v")], [("a", "1"), ("b", "x y&z")]])
        self.path = rng.choice(["/sparql", "/a/b/query", "/sparql/", "/s%20q"])
        url = srv.url + self.path
        if self.own:
            import urllib.parse
            url += "?" + urllib.parse.urlencode(self.own)
        kw = dict(post_queries=self.cfg[0], post_directly=self.cfg[1])
        if rng.random() < 0.2:
            kw["verify"] = rng.choice([True, False])
        self.kw = kw
        self.make = rng.choice([lambda: SPARQLServer(url, **kw)] * 4 + [lambda: UpdateableGraphStore(url, srv.url + "/data", **kw)])
        self.c = self.make()

    def twin(self):
        t = copy.copy(self)
        t.c = self.make()
        return t

    def describe(self):
        return "post_queries=%s post_directly=%s" % self.cfg


def judge(ctx, cl, kind, sparql, dg, ng, out, req):
    """One recorded request against what the call was given."""
    what = "%s(%r) with %s" % (kind, sparql[:200], cl.describe())
    post_q, direct = cl.cfg
    ctx.same(req.path, cl.path, "request path of " + what)
    try:
        url = req.params()
    except ValueError as e:
        ctx.fail("%s: malformed query string %r: %s" % (what, req.query[:300], e))
    ctype = (req.header("Content-Type") or "")
    mtype = ctype.split(";")[0].strip().lower()
    if direct:
        ctx.ev("direct queries" if kind == "query" else "direct updates")
        ctx.same(req.method, "POST", "method of " + what)
        ctx.same(mtype, "application/sparql-query" if kind == "query" else "application/sparql-update", "content type of " + what)
        cs = ctype.partition(";")[2].strip().lower().replace(" ", "")
        ctx.expect(cs in ("", "charset=utf-8", 'charset="utf-8"'), lambda: "charset of %s: %r" % (what, ctype))
        try:
            got = req.body.decode("utf-8")
        except UnicodeDecodeError as e:
            ctx.fail("%s: body is not UTF-8: %s" % (what, e))
        form = None
    elif kind == "query" and not post_q:
        ctx.ev("GET queries")
        ctx.same(req.method, "GET", "method of " + what)
        ctx.same(req.body, b"", "body of a GET")
        form, got = url, None
    else:
        ctx.ev("form queries" if kind == "query" else "form updates")
        ctx.same(req.method, "POST", "method of " + what)
        ctx.same(mtype, "application/x-www-form-urlencoded", "content type of " + what)
        try:
            form = decode_form(req.body.decode("ascii"))
        except (ValueError, UnicodeDecodeError) as e:
            ctx.fail("%s: malformed form body %r: %s" % (what, req.body[:300], e))
        got = None
    own = list(cl.own)
    params = list(url)
    for p in own:
        ctx.expect(p in params, lambda: "%s lost the endpoint's own parameter %r" % (what, p))
        params.remove(p)
    if form is not None and form is not url:
        ctx.same(params, [], "parameters in the URL of a form POST")
        params = list(form)
    if got is None:
        name = "query" if kind == "query" else "update"
        mine = [v for k, v in params if k == name]
        ctx.same(len(mine), 1, "number of %r parameters of %s" % (name, what))
        got = mine[0]
        params = [p for p in params if p[0] != name]
    ctx.same(got, sparql, "the SPARQL text a server recovers from " + what)
    d, n = ("default-graph-uri", "named-graph-uri") if kind == "query" else ("using-graph-uri", "using-named-graph-uri")
    ctx.same([v for k, v in params if k == d], dg, "default graphs of " + what)
    ctx.same([v for k, v in params if k == n], ng, "named graphs of " + what)
    ctx.same([p for p in params if p[0] not in (d, n)], [], "further parameters of " + what)
    ctx.ev("graph parameters", len(dg) + len(ng))
    if kind == "query":
        acc = [a.split(";")[0].strip() for a in (req.header("Accept") or "").split(",")]
        want, other = ("application/sparql-results+xml", "application/sparql-results+json") if out == "xml" else ("application/sparql-results+json", "application/sparql-results+xml")
        ctx.expect(want in acc and other not in acc and "*/*" not in acc, lambda: "Accept of a query for %s: %r" % (out, acc))
        rdf = {"application/rdf+xml", "text/turtle"} & set(acc)
        ctx.expect(rdf, lambda: "an endpoint that honours Accept %r cannot answer a CONSTRUCT query" % (acc,))
        odd = sorted(set(acc) - {want} - rdf)
        ctx.expect(not odd, lambda: "Accept of a query invites %r, which the client does not read" % (odd,))
    ctx.ev("requests")
    return what


def echo(req):
    """Answers with the text it received, so that callers see whose answer they got."""
    b = req.body.decode("utf-8", "replace")
    ct = (req.header("Content-Type") or "")
    if "sparql-" in ct:
        t = b
    else:
        ps = dict(decode_form(b if req.method == "POST" else req.query))
        t = ps.get("query", ps.get("update"))
    if "sparql-results+xml" in (req.header("Accept") or ""):
        return Reply(200, "application/sparql-results+xml", b"<r/>")
    return Reply(200, "application/sparql-results+json", json.dumps({"echo": t}).encode())


def args(rng, kind):
    dv, dg = graphs(rng)
    nv, ng = graphs(rng)
    kw = {}
    if dv is not None or rng.random() < 0.2:
        kw["default_graph"] = dv
    if nv is not None or rng.random() < 0.2:
        kw["named_graph"] = nv
    out = "json"
    if kind == "query":
        r = rng.random()
        if r < 0.25:
            kw["output"], out = "xml", "xml"
        elif r < 0.4:
            kw["output"] = "json"
    return kw, dg, ng, out


def case(ctx, i):
    rng = ctx.rng
    srv = server()
    srv.handler = echo
    if i % 8 == 7:
        return concurrent(ctx, i, srv)
    clients = [Client(rng, srv) for _ in range(rng.choice([1, 1, 2]))]
    for _ in range(rng.choice([1, 2, 4, 6])):
        cl = rng.choice(clients)
        kind = rng.choice(["query", "query", "update"])
        sparql = text(rng)
        kw, dg, ng, out = args(rng, kind)
        keep = {k: list(v) if isinstance(v, (list, tuple)) else v for k, v in kw.items()}
        fault = rng.random() < 0.25
        if fault:
            # however the server answers, the call is one request
            reply = rng.choice([Reply(drop="before"), Reply(200, "application/sparql-results+json", b'{"x": 1}', drop="middle")]) if rng.random() < 0.2 else Reply(rng.choice(FAULTS), rng.choice([None, "text/plain", "application/sparql-results+json"]), rng.choice([b"", b"x", b"{}"]), rng.choice([[], [("Retry-After", "0")]]))
            srv.handler = lambda req: reply
            ctx.ev("calls answered by an error")
            try:
                r = getattr(cl.c, kind)(sparql, **kw)
            except Exception:
                r = None
            srv.handler = echo
        else:
            r = ctx.call(kind, getattr(cl.c, kind), sparql, **kw)
        log = srv.take()
        ctx.same(len(log), 1, "number of requests for one call, %r" % (log,))
        what = judge(ctx, cl, kind, sparql, dg, ng, out, log[0])
        ctx.same({k: list(v) if isinstance(v, (list, tuple)) else v for k, v in kw.items()}, keep, "the arguments after the call")
        if kind == "query" and out == "json" and not fault:
            ctx.same(r, {"echo": sparql}, "the answer to " + what)
        if rng.random() < 0.4:
            # a client that has made no call before sends the same
            first = {k: v for k, v in log[0].headers.items()}
            getattr(cl.twin().c, kind)(sparql, **kw)
            log2 = srv.take()
            ctx.same(len(log2), 1, "number of requests of a fresh client")
            ctx.ev("compared with a fresh client")
            ctx.same((log[0].method, log[0].target, first, log[0].body), (log2[0].method, log2[0].target, {k: v for k, v in log2[0].headers.items()}, log2[0].body), "%s on a used client, against a fresh one" % what)
        ctx.sig(kind, cl.cfg, len(dg), len(ng), out, sparql.isascii(), len(sparql).bit_length(), bool(cl.own), any(c in sparql for c in "&=+%#"))
    if srv.errors:
        raise HarnessError(srv.errors.pop())
    ctx.sample(repr(log[0]))


def concurrent(ctx, i, srv):
    """Threads share a client; every call is answered once, with its own answer."""
    rng = ctx.rng
    n = rng.choice([2, 3, 4, 6])
    cl = Client(rng, srv)
    import random
    delays = random.Random(rng.random())
    import time

    def slow(req):
        if delays.random() < 0.3:
            time.sleep(delays.choice([0.0005, 0.002, 0.004]))
        return echo(req)

    srv.handler = slow
    plans = []
    for k in range(n):
        plan = []
        for j in range(rng.choice([1, 2, 4])):
            kind = rng.choice(["query", "update"])
            kw, dg, ng, out = args(rng, kind)
            plan.append((kind, "# %d.%d.%d\n" % (i, k, j) + rng.choice(QUERIES), kw, dg, ng, out))
        plans.append(plan)
    scheduled = rng.random() < 0.5
    fns = [lambda plan=plan: [getattr(cl.c, kind)(q, **kw) for kind, q, kw, *_ in plan] for plan in plans]
    if scheduled:
        s = sched.Sched(rng, [SRC], rng.choice([0.05, 0.2, 0.6]))
        out, stuck = s.run(fns)
        ctx.ev("switches", s.switches)
        ctx.sig("schedule", s.schedule)
    else:
        out, stuck = sched.free_run(fns)
        ctx.sig("free", n, [len(p) for p in plans], cl.cfg)
    if stuck:
        ctx.stuck("threads %r never finished" % stuck)
    log = srv.take()
    total = sum(map(len, plans))
    ctx.same(len(log), total, "number of requests for %d concurrent calls" % total)
    ctx.ev("concurrent calls", total)
    by = {}
    for r in log:
        by.setdefault(marker(r), []).append(r)
    for plan, (vals, exc) in zip(plans, out):
        if exc is not None:
            import traceback
            ctx.fail("a call failed among concurrent ones: %s" % "".join(traceback.format_exception(exc))[-1500:])
        for (kind, q, kw, dg, ng, o), val in zip(plan, vals):
            rs = by.get(q.split("\n")[0], [])
            ctx.same(len(rs), 1, "requests carrying %r" % q[:40])
            judge(ctx, cl, kind, q, dg, ng, o, rs[0])
            if kind == "query" and o == "json":
                ctx.same(val, {"echo": q}, "the answer given to the caller of %r" % q[:40])


def marker(req):
    import re
    import urllib.parse
    t = urllib.parse.unquote_plus(req.query) + "\n" + (req.body.decode() if "sparql-" in (req.header("Content-Type") or "") else urllib.parse.unquote_plus(req.body.decode()))
    m = re.search(r"# \d+\.\d+\.\d+", t)
    return m.group(0) if m else None


def code_points(ctx, key):
    """Every Unicode character survives the trip, in each way of sending it."""
    rng = ctx.rng
    srv = server()
    srv.handler = echo
    k = int(key, 16)
    t = "".join(chr(c) for c in range(k, k + 0x800) if not 0xD800 <= c <= 0xDFFF)
    for cfg in ((False, False), (True, False), (False, True)):
        for kind in ("query", "update"):
            cl = Client(rng, srv, cfg)
            chunks = [t] if kind == "update" or cfg != (False, False) else [t[j:j + 0x200] for j in range(0, len(t), 0x200)]
            for c in chunks:
                getattr(cl.c, kind)(c)
                log = srv.take()
                ctx.same(len(log), 1, "number of requests")
                judge(ctx, cl, kind, c, [], [], "json", log[0])
    ctx.ev("code points", 0x800)
    ctx.sig("code points", key)


code_points.keys = lambda tier: ["%x" % k for k in range(0, 0x110000, 0x800) if not 0xD800 <= k <= 0xDFFF and (tier == "thorough" or k < 0x4000 or k % 0x10000 == 0 or k in (0xD000, 0xE000, 0xF800, 0x1F000))]
SWEEPS = [code_points]
