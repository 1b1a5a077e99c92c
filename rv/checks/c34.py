"""C34: which servers a client trusts is what its `verify` option says."""
import os
import threading

import rdflib
import urllib3

from pymantic.sparql import PatchableGraphStore, SPARQLServer, UpdateableGraphStore, changeset

from rv import httpd

RULE = "distinct (operation, verify option, trust in the environment, certificate, direct or redirected) combinations"
ASSUMES = ["requests' certificate checking", "certificates under rv/data/tls, none of which a public authority signed", "the CA variables of the environment count only for clients built without an option of their own or with verify=True, as requests documents"]
COUNT = {"quick": 700, "thorough": 6000}
MIN_EVENTS = {"oracle:evaluations": 3000, "calls:accepted": 450, "calls:refused": 800, "handshakes seen refused": 800, "redirects": 100, "calls:query": 200, "calls:update": 100, "calls:get": 100, "calls:put": 100, "calls:post": 100, "calls:post new": 100, "calls:delete": 100, "calls:patch": 60}

TLS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "tls")
F = lambda n: os.path.join(TLS, n)
CERTS = ["one", "two", "alone", "elsewhere", "stale", None]
# what a trust store makes of the servers' certificates
TRUST = {"ca1.pem": {"one"}, "ca2.pem": {"two"}, "both.pem": {"one", "two"}, "dir1": {"one"}, "aloneca.pem": {"alone"}}
ENV = ["REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE"]

_servers = {}


def servers():
    if not _servers:
        urllib3.disable_warnings()
        for c in CERTS:
            _servers[c] = httpd.Server(F(c + ".pem") if c else None)
    for s in _servers.values():
        s.take()
        s.errors.clear()
        s.handler = good
    return _servers


NT = b"<http://e/s> <http://e/p> <http://e/o> .\n"


def good(req):
    if req.path == "/sparql":
        if b"INSERT" in req.body or "INSERT" in req.query:
            return httpd.Reply(204)
        return httpd.Reply(200, "application/sparql-results+json", b'{"head": {}, "boolean": true}')
    if req.method == "GET":
        return httpd.Reply(200, "text/plain", NT)
    return httpd.Reply(204 if req.method == "DELETE" else 201)


def small(n=1):
    g = rdflib.Graph()
    U = rdflib.URIRef
    for k in range(n):
        g.add((U("http://e/s"), U("http://e/p"), U("http://e/o%d" % k)))
    return g


OPS = {
    "query": lambda c: c.query("ASK {}"),
    "query xml": lambda c: c.query("ASK {}", output="xml"),
    "update": lambda c: c.update("INSERT DATA {}"),
    "get": lambda c: c.get("http://e/g"),
    "put": lambda c: c.put("http://e/g", small()),
    "post": lambda c: c.post("http://e/g", small()),
    "post new": lambda c: c.post(None, small()),
    "delete": lambda c: c.delete("http://e/g"),
    "patch": lambda c: c.patch("http://e/g", changeset(small(), small(2), "http://e/g")),
}
SPARQL_OPS = ["query", "query xml", "update"]
STORE_OPS = SPARQL_OPS + ["get", "put", "post", "post new", "delete"]


class Client:
    def __init__(self, rng, cert, url):
        self.cert = cert
        self.cls = rng.choice([SPARQLServer, UpdateableGraphStore, PatchableGraphStore, PatchableGraphStore])
        self.ops = SPARQL_OPS if self.cls is SPARQLServer else STORE_OPS + (["patch"] * 2 if self.cls is PatchableGraphStore else [])
        self.opt = rng.choice(["unsaid", "None", "True", "False", "False"] + sorted(TRUST) * 2)
        kw = {}
        if self.opt != "unsaid":
            kw["verify"] = {"None": None, "True": True, "False": False}.get(self.opt, F(self.opt))
        if rng.random() < 0.4:
            kw["post_queries"] = rng.random() < 0.5
        if rng.random() < 0.4:
            kw["post_directly"] = rng.random() < 0.5
        a = [url + "/sparql"]
        if self.cls is not SPARQLServer:
            a.append(url + "/data/")
            if rng.random() < 0.5:
                kw["param_style"] = rng.random() < 0.5
        if self.cls is SPARQLServer and rng.random() < 0.3:  # positional
            a += [kw.pop("post_queries", False), kw.pop("post_directly", False), kw.pop("verify", None)]
        self.make = lambda: self.cls(*a, **kw)
        self.c = self.make()
        self.what = "%s(%s)" % (self.cls.__name__, ", ".join([repr(x) for x in a] + ["%s=%r" % x for x in sorted(kw.items())]))

    def trusts(self, env):
        """The certificates this client accepts; None (no TLS) always goes."""
        if self.opt == "False":
            return set(CERTS)
        if self.opt in TRUST:
            return TRUST[self.opt] | {None}
        return (TRUST[env] if env in TRUST else set()) | {None}


def case(ctx, i):
    rng = ctx.rng
    srv = servers()
    env = rng.choice([None, None, None] + sorted(TRUST))
    saved = {k: os.environ.pop(k, None) for k in ENV}
    try:
        if env is not None:
            os.environ[rng.choice(ENV)] = F(env)
        clients = []
        certs = [rng.choice(CERTS[:5] if rng.random() < 0.95 else CERTS) for _ in range(rng.choice([1, 1, 2]))]
        for _ in range(rng.choice([1, 2, 3, 4])):
            cert = rng.choice(certs)
            clients.append(Client(rng, cert, srv[cert].url))
        if rng.random() < 0.2:
            together(ctx, rng, clients, env)
            return
        for _ in range(rng.choice([4, 8, 12])):
            cl = rng.choice(clients)
            one(ctx, cl, rng.choice(cl.ops), env, rng.choice(CERTS) if rng.random() < 0.2 else "direct")
    finally:
        for k, v in saved.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


def attempt(cl, op):
    try:
        return OPS[op](cl.c), None
    except Exception as e:
        return None, e


def one(ctx, cl, op, env, hop):
    """One call; with a hop, its server sends the client on to another server."""
    srv = servers()
    first = srv[cl.cert]
    trusts = cl.trusts(env)
    path = [cl.cert]
    if hop != "direct" and hop != cl.cert:
        ctx.ev("redirects")
        path.append(hop)
        first.handler = lambda req: httpd.Reply(307, headers=[("Location", srv[hop].url + req.target)])
    ok = all(c in trusts for c in path)
    res, exc = attempt(cl, op)
    ctx.ev("calls:" + op.replace(" xml", ""))
    ctx.ev("calls:accepted" if ok else "calls:refused")
    seen = {c: s.take() for c, s in srv.items()}
    for s in srv.values():
        ctx.expect(not s.errors, lambda: "harness: %s" % s.errors)
    say = lambda: "%s of %s; servers on the way %s; %s in the environment; accepted certificates %s; outcome %r; requests received %s" % (
        op, cl.what, path, env, sorted(map(str, trusts)), exc or res, {c: [r.method for r in v] for c, v in seen.items() if v})
    ctx.log(say())
    allowed = []
    for c in path:
        if c not in trusts:
            break
        allowed.append(c)
    for c, reqs in seen.items():
        if c not in allowed:
            if c in path:
                ctx.ev("handshakes seen refused")
            ctx.expect(not reqs, lambda: "a server whose certificate the client must not accept got a request: " + say())
        else:
            ctx.expect(reqs, lambda: "a server whose certificate the client accepts got no request: " + say())
    ctx.expect((exc is None) == ok, lambda: ("refused although every certificate is acceptable: " if ok else "no error although a certificate must be refused: ") + say())
    ctx.sig(op, cl.opt, env, *path)
    ctx.sample(say())


def together(ctx, rng, clients, env):
    """Clients with different options work at once."""
    srv = servers()
    plans = [(cl, [rng.choice(cl.ops) for _ in range(4)]) for cl in clients]
    got = {}

    def work(k):
        cl, ops = plans[k]
        got[k] = [attempt(cl, op)[1] for op in ops]

    ts = [threading.Thread(target=work, args=(k,)) for k in range(len(plans))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    want = {}
    for k, (cl, ops) in enumerate(plans):
        ok = cl.cert in cl.trusts(env)
        for op, exc in zip(ops, got[k]):
            ctx.ev("calls:" + op.replace(" xml", ""))
            ctx.ev("calls:accepted" if ok else "calls:refused")
            ctx.expect((exc is None) == ok, lambda: "%s of %s on %s with %s in the environment, beside other clients: %r" % (op, cl.what, cl.cert, env, exc))
            want[cl.cert] = want.get(cl.cert, 0) + ok
            ctx.sig("together", op, cl.opt, env, cl.cert)
    for c, s in srv.items():
        ctx.same(len(s.take()), want.get(c, 0), "requests received by the server with certificate %s" % c)


def every(ctx, key):
    """Every operation against every certificate under one option."""
    import random
    env = None
    saved = {k: os.environ.pop(k, None) for k in ENV}
    try:
        srv = servers()
        for cert in CERTS:
            rng = random.Random(0)
            while True:
                cl = Client(rng, cert, srv[cert].url)
                if cl.cls is PatchableGraphStore and cl.opt == key:
                    break
            for op in OPS:
                one(ctx, cl, op, env, "direct")
    finally:
        for k, v in saved.items():
            if v is not None:
                os.environ[k] = v


every.keys = lambda tier: ["unsaid", "None", "True", "False"] + sorted(TRUST)
SWEEPS = [every]
FIXED = []
