"""C27: the graph-store client against a conforming graph store that logs everything."""
import urllib.parse

import rdflib

from pymantic.sparql import PatchableGraphStore, UpdateableGraphStore, changeset

from rv import gen, linegen, rdfl
from rv.httpd import Reply, server
from rv.model import B, HarnessError, I, L, bnodes, isomorphic, read_lines, resolve, show

RULE = "distinct (operation, addressing style, state of the graph, kind of content, response format or status) steps of histories"
ASSUMES = ["a conforming store reads the graph IRI from ?graph= strictly decoded as UTF-8, or from the percent-decoded rest of the path under the dataset URL (which ends in a slash)",
           "rdflib trusted to read and write Turtle, RDF/XML and N3; every body the store sends is checked against rdflib first", "loopback only, no redirects"]
COUNT = {"quick": 3000, "thorough": 20000}
MIN_EVENTS = {"oracle:evaluations": 12000, "put": 700, "post": 500, "post to the dataset": 60, "delete": 200, "patch": 150, "get": 900, "got nt": 100, "got xml": 100, "got turtle": 100, "got n3": 80, "refused": 300, "get of nothing": 60, "path style": 500, "parameter style": 500, "relative": 15, "dropped": 30, "non-ASCII graph IRIs": 200}
TRICKY = ["http://example.org/a", "http://example.org/a/", "http://example.org/a#", "http://example.org/a?graph=b", "http://example.org/a&graph=b", "http://example.org/a+b", "http://example.org/a%20b", "http://example.org/a%2Bb",
          "http://example.org/caf\u00e9", "http://example.org/caf%C3%A9", "http://example.org/caf%E9", "http://example.org/cafe\u0301", "urn:x:y", "urn:x:y%25", "http://example.org/a=b;c", "http://example.org/../x", "http://example.org/./", "http://example.org//",
          "http://example.org/\u4e2d\u6587?q=\u00fc#\U0001F600", "http://example.org/%", "http://example.org/%zz", "http://example.org/~x", "http://example.org/%7Ex", "tag:e.org,2020:a/b", "mailto:a@b.c", "http://[::1]/", "http://example.org/a'b(c)*!",
          "http://example.org/a%2Fb", "http://example.org/a/b", "HTTP://EXAMPLE.org/a", "http://EXAMPLE.org/a"]
FMT = {"nt": "text/plain", "xml": "application/rdf+xml", "turtle": "text/turtle", "n3": "text/rdf+n3"}
BAD = [400, 401, 403, 404, 405, 406, 409, 410, 412, 415, 418, 422, 429, 500, 501, 502, 503, 504, 507, 599]


def reads_as(body, fmt, st, base="http://base.example/"):
    try:
        g = rdflib.Graph()
        g.parse(data=body, format=fmt, publicID=base)
    except Exception:
        return False
    return isomorphic(rdfl.stmts(g), st)


class Store:
    """The server side: what has arrived, per graph IRI."""

    def __init__(self, rng, srv, param):
        self.rng, self.srv, self.param = rng, srv, param
        self.g = {}
        self.bad = []
        self.speaks = rng.sample(sorted(FMT), rng.choice([1, 2, 4, 4, 4]))
        self.fresh = 0
        self.force = None  # status to refuse the next request with
        self.drop = None
        self.path = rng.choice(["/data/", "/rdf-graphs/service/", "/"]) if not param else rng.choice(["/data", "/rdf-graph-store", "/a/b", "/data/"])
        self.prefix = ""
        self.sent = None
        self.reply_with = None
        srv.handler = self.handle

    def client(self, cls):
        kw = {}
        if self.rng.random() < 0.2:
            kw["verify"] = self.rng.choice([True, False])
        if not self.param or self.rng.random() < 0.5:
            kw["param_style"] = self.param
        return cls(self.srv.url + "/sparql", self.srv.url + self.path, **kw)

    def graph_of(self, req):
        """The graph a request addresses: an IRI, or None for the dataset itself."""
        if self.param:
            if req.path != self.path:
                self.bad.append("request path %r instead of %r" % (req.path, self.path))
                return None
            ps = req.params()
            if not ps:
                return None
            if len(ps) != 1 or ps[0][0] != "graph":
                self.bad.append("query parameters %r" % (ps,))
                return None
            return ps[0][1]
        if req.query or "?" in req.target:
            self.bad.append("path style request with a query: %r" % req.target)
        if not req.path.startswith(self.path):
            self.bad.append("request path %r is not under %r" % (req.path, self.path))
            return None
        rest = req.path[len(self.path):]
        if not rest:
            return None
        if "/" in rest:
            self.bad.append("the graph IRI is not one path segment: %r" % rest)
        for i, c in enumerate(rest):
            if c == "%" and len(rest[i + 1:i + 3]) != 2:
                self.bad.append("malformed escape in %r" % rest)
        return urllib.parse.unquote(rest, "utf-8", "strict")

    def read(self, req):
        ct = (req.header("Content-Type") or "").split(";")[0].strip().lower()
        text = req.body
        try:
            if ct in ("text/plain", "application/n-triples"):
                return read_lines(text.decode("utf-8"), 3)
            if ct in ("text/turtle", "application/rdf+xml"):
                g = rdflib.Graph()
                g.parse(data=text, format="turtle" if ct == "text/turtle" else "xml")
                return rdfl.stmts(g)
        except Exception as e:
            self.bad.append("the body (%s) cannot be read: %s: %r" % (ct, e, text[:300]))
            return None
        self.bad.append("content type %r" % req.header("Content-Type"))

    def rename(self, st):
        m = {}
        for b in sorted(bnodes(st)):
            self.fresh += 1
            m[b] = B("s%d" % self.fresh)
        return {tuple(m.get(t, t) for t in s) for s in st}

    def handle(self, req):
        try:
            iri = self.graph_of(req)
        except ValueError as e:
            self.bad.append("undecodable request target %r: %s" % (req.target, e))
            return Reply(400)
        self.iri = iri
        if self.bad:
            return Reply(400)
        if self.force:
            return Reply(self.force, self.rng.choice(["text/plain", "text/html", "text/turtle", None]), self.rng.choice([b"", b"no", b"<a:a> <a:b> <a:c> ."]))
        if self.drop == "before":
            return Reply(200, drop="before")
        new = iri not in self.g
        if req.method == "GET":
            if iri is None or new:
                return Reply(404, "text/plain", b"no such graph")
            return self.render(req, iri)
        if req.method == "DELETE":
            if iri is None or new:
                return Reply(404, "text/html", b"<p>no such graph</p>")
            del self.g[iri]
            s = self.rng.choice([200, 202, 204])
            return Reply(s, self.rng.choice([None, "text/plain", "text/html"]), b"deleted" if s == 200 else b"")
        if req.method == "PATCH":
            return self.patch(req, iri)
        if req.method not in ("PUT", "POST"):
            self.bad.append("method %s" % req.method)
            return Reply(405)
        st = self.read(req)
        if st is None:
            return Reply(400)
        st = self.rename(st)
        if iri is None:
            if req.method == "PUT":
                self.bad.append("PUT to the dataset itself")
                return Reply(400)
            self.fresh += 1
            iri = "http://store.example/new/%d" % self.fresh
            self.g[iri] = st
            self.created = iri
            return Reply(201, None, b"", [("Location", iri)])
        self.g[iri] = st if req.method == "PUT" or new else self.g[iri] | st
        s = 201 if new and self.rng.random() < 0.8 else self.rng.choice([200, 204])
        return Reply(s, self.rng.choice([None, "text/plain"]), b"ok" if s != 204 else b"")

    def render(self, req, iri):
        st = self.g[iri]
        accept = [a.split(";")[0].strip() for a in (req.header("Accept") or "").split(",")]
        odd = sorted(set(accept) - set(FMT.values()) - {"application/n-triples", "text/n3", "*/*"})
        if odd:
            self.bad.append("the client invites %r, which it does not read" % (odd,))
        offers = [(f, c) for f, c in FMT.items() if (c in accept or "*/*" in accept) and f in self.speaks]
        if not offers:
            self.bad.append("no format of %r is acceptable to the client (%r)" % ([FMT[f] for f in self.speaks], req.header("Accept")))
            return Reply(406)
        rng = self.rng
        if self.reply_with and self.reply_with[1] in dict(offers):
            body, f = self.reply_with
            return Reply(200, FMT[f], body)
        rng.shuffle(offers)
        # rdflib cannot write every graph in every format: then the others have to do
        offers += [(f, c) for f, c in FMT.items() if c in accept and f not in self.speaks]
        for f, c in offers:
            if f == "nt":
                body = linegen.document(rng, gen.shuffled(rng, st), eol="\n") if rng.random() < 0.5 else "".join(map(self.line, sorted(st, key=repr)))
                body = body.encode("utf-8")
                if not reads_as(body, "nt", st):
                    body = "".join(map(self.line, sorted(st, key=repr))).encode("utf-8")
            else:
                try:
                    if f == "n3" and rng.random() < 0.6:
                        body = self.n3(st).encode("utf-8")
                    else:
                        body = rdfl.graph(st).serialize(format=f).encode("utf-8")
                except Exception:
                    continue
            if reads_as(body, f, st, iri):
                self.sent = f
                return Reply(200, c + rng.choice(["", "", ";charset=utf-8", "; charset=UTF-8"]), body, drop=self.drop)
        raise HarnessError("no format can carry\n%s" % show(st))

    def n3(self, st):
        """N3 that is not Turtle: statements the other way round, has, =."""
        out = []
        for s in gen.shuffled(self.rng, st):
            a, p, o = (self.line((x,))[:-3] for x in s)
            if s[1][1] == "http://www.w3.org/2002/07/owl#sameAs":
                p = "="
            if s[2][0] != "L" and p != "=" and self.rng.random() < 0.7:
                out.append("%s is %s of %s .\n" % (o, p, a))
            else:
                out.append("%s %s%s %s .\n" % (a, "has " if p != "=" and self.rng.random() < 0.5 else "", p, o))
        return "".join(out)

    @staticmethod
    def line(s):
        def t(x):
            if x[0] == "I":
                return "<%s>" % x[1]
            if x[0] == "B":
                return "_:" + x[1]
            v = "".join("\\u%04X" % ord(c) if ord(c) < 32 or c in '"\\\x7f' else c for c in x[1])
            return '"%s"' % v + ("@" + x[2] if x[2] else "^^<%s>" % x[3] if x[3] else "")
        return " ".join(map(t, s)) + " .\n"

    def patch(self, req, iri):
        ct = (req.header("Content-Type") or "").split(";")[0].strip().lower()
        if ct != "application/vnd.talis.changeset+xml":
            self.bad.append("PATCH content type %r" % ct)
            return Reply(415)
        g = rdflib.Graph()
        try:
            g.parse(data=req.body, format="xml")
        except Exception as e:
            self.bad.append("the change set cannot be read as RDF/XML: %s" % e)
            return Reply(400)
        self.change = rdfl.stmts(g)
        if iri not in self.g:
            return Reply(404)
        rem, add = apply_of(self.change)
        self.g[iri] = (self.g[iri] - rem) | add
        return Reply(self.rng.choice([200, 204]), None, b"")


CS = "http://purl.org/vocab/changeset/schema#"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"


def apply_of(change):
    def st(n):
        d = {p[1]: o for s, p, o in change if s == n}
        return (d.get(RDF + "subject"), d.get(RDF + "predicate"), d.get(RDF + "object"))
    return ({st(o) for s, p, o in change if p[1] == CS + "removal"}, {st(o) for s, p, o in change if p[1] == CS + "addition"})


def content(rng):
    """An rdflib graph and its statements, faithful in N-Triples."""
    for hostile in (rng.random() < 0.5, False):
        st = gen.graph(rng, rng.choice([0, 1, 2, 3, 5, 8])) if hostile else rdfl.tame(rng)
        try:
            cls = rng.choice([rdflib.Graph, rdflib.Graph, rdflib.ConjunctiveGraph])
            g = rdfl.graph(st, cls=cls)
            st = rdfl.stmts(g)
            nt = g.serialize(format="nt")
            if isomorphic(read_lines(nt, 3), st) and reads_as(nt, "nt", st) and reads_as("".join(Store.line(s) for s in st), "nt", st):
                return "hostile" if hostile else "tame", g, st
        except Exception:
            continue
    raise HarnessError("no content")


def gname(rng):
    if rng.random() < 0.7:
        return rng.choice(TRICKY)
    while True:
        n = gen.iri(rng)
        h = n.replace("http://[::1]/", "", 1)
        if "[" in h or "]" in h:
            continue  # not legal there
        try:
            urllib.parse.urlsplit(n).port  # rdflib uses the name as a base
        except ValueError:
            continue
        return n


def case(ctx, i):
    rng = ctx.rng
    srv = server()
    param = rng.random() < 0.5
    store = Store(rng, srv, param)
    ctx.ev("parameter style" if param else "path style", 0)
    c = store.client(PatchableGraphStore if rng.random() < 0.7 else UpdateableGraphStore)
    names = []
    while len(names) < rng.choice([1, 2, 3, 4]):
        n = gname(rng)
        if n not in names:
            names.append(n)
    model = {}
    for step in range(rng.choice([3, 6, 10, 16])):
        try:
            one(ctx, rng, srv, store, c, names, model)
        finally:
            if srv.errors:
                raise HarnessError(srv.errors.pop())
        if srv.errors:
            raise HarnessError(srv.errors.pop())
        if set(store.g) != set(model):
            ctx.fail("the store holds the graphs %r, expected %r" % (sorted(store.g), sorted(model)))
        for k in model:
            ctx.expect(isomorphic(store.g[k], model[k]), lambda: "graph <%s> in the store differs\n-- expected:\n%s\n-- stored:\n%s" % (k, show(model[k]), show(store.g[k])))


def one(ctx, rng, srv, store, c, names, model):
    op = rng.choice(["put", "put", "post", "post", "get", "get", "get", "delete", "patch", "post to the dataset"][: None if rng.random() < 0.5 else 9])
    if op == "patch" and not hasattr(c, "patch"):
        op = "get"
    n = rng.choice(names)
    uri = rdflib.URIRef(n) if rng.random() < 0.3 else n
    if not n.isascii():
        ctx.ev("non-ASCII graph IRIs")
    was = "absent" if n not in model else "empty" if not model[n] else "there"
    store.bad, store.sent, store.force, store.drop, store.reply_with = [], None, None, None, None
    r = rng.random()
    if r < 0.15:
        store.force = rng.choice(BAD)
    elif r < 0.17:
        store.drop = "before"
    kind = ""

    def run(name, f, *a):
        ctx.ev(name)
        ctx.ev("parameter style" if store.param else "path style")
        if store.force or store.drop:
            ctx.ev("refused" if store.force else "dropped")
            ctx.raises("%s answered with %s" % (name, store.force or store.drop), Exception, f, *a)
            return False
        if name in ("get", "delete", "patch") and was == "absent":
            ctx.ev("get of nothing" if name == "get" else "%s of nothing" % name)
            ctx.raises("%s of a graph the store has not got" % name, Exception, f, *a)
            return False
        run.value = ctx.call(name, f, *a)
        return True

    if op in ("put", "post"):
        kind, g, st = content(rng)
        before = set(g)
        if run(op, getattr(c, op), uri, g):
            new = store.rename(st)
            model[n] = new if op == "put" or n not in model else model[n] | new
        ctx.expect(set(g) == before, "the graph given was changed")
    elif op == "post to the dataset":
        kind, g, st = content(rng)
        store.created = None
        if run(op, c.post, None, g):
            ctx.expect(store.created is not None, "posting to the dataset did not create a graph")
            model[store.created] = st
            if len(names) < 6:
                names.append(store.created)
    elif op == "delete":
        if run(op, c.delete, uri):
            del model[n]
    elif op == "patch":
        a = {s for s in model.get(n, set()) if not bnodes([s])}
        b = {s for s in a if rng.random() < 0.6} | {s for s in rdfl.tame(rng, nb=0) if not bnodes([s])}
        cs = changeset(rdfl.graph(a), rdfl.graph(b), n)
        st = rdfl.stmts(cs)
        if not reads_as(cs.serialize(format="xml", encoding="utf-8"), "xml", st):
            return
        store.change = None
        if run(op, c.patch, uri, cs):
            ctx.expect(store.change is not None and isomorphic(store.change, st), lambda: "the change set that arrived differs\n-- sent:\n%s\n-- arrived:\n%s" % (show(st), show(store.change or ())))
            rem, add = apply_of(st)
            model[n] = (model[n] - rem) | add
    else:
        want = model.get(n)
        if n in model and rng.random() < 0.4 and n.startswith("http://example.org/a") and "." not in n[19:]:
            # a relative reference is relative to the graph's IRI
            rel = {(I(n.split("#")[0]), I(resolve(n, "#p")), L("x")), (I(resolve(n, "?z")), I("http://example.org/p"), I(resolve(n, "/r")))}
            f = rng.choice(sorted(set(store.speaks) - {"nt"}) or ["nt"])
            body = ('<?xml version="1.0"?><rdf:RDF xmlns:rdf="%s" xmlns:e="http://example.org/" xmlns:m="%s"><rdf:Description rdf:about=""><m:p>x</m:p></rdf:Description>'
                    '<rdf:Description rdf:about="?z"><e:p rdf:resource="/r"/></rdf:Description></rdf:RDF>' % (RDF, resolve(n, "#").replace("&", "&amp;"))) if f == "xml" else '<> <#p> "x" . <?z> <http://example.org/p> </r> .'
            if f != "nt" and reads_as(body, f, rel, n):
                want, store.reply_with = rel, (body.encode("utf-8"), f)
        ok = run(op, c.get, uri)
        if ok:
            if store.reply_with:
                ctx.ev("relative")
            got = run.value
            ctx.expect(isinstance(got, rdflib.Graph), lambda: "get returned %r" % type(got))
            st = rdfl.stmts(got)
            if store.sent:
                ctx.ev("got " + store.sent)
            ctx.expect(isomorphic(st, want), lambda: "get of <%s> (as %s)\n-- expected:\n%s\n-- got:\n%s" % (n, store.sent, show(want), show(st)))
            if not store.reply_with and rng.random() < 0.3:  # what was read can be written elsewhere
                m = rng.choice(names)
                log = srv.take()
                ctx.same(len(log), 1, "number of requests for one get")
                store.sent = None
                if isomorphic(read_lines(got.serialize(format="nt"), 3), want):
                    run("put", c.put, m, got)
                    model[m] = store.rename(want)
                    n, op = m, "put"
    ctx.expect(not store.bad, lambda: "%s of <%s>: %s" % (op, n, "; ".join(store.bad)))
    log = srv.take()
    ctx.same([q.method for q in log], [{"post to the dataset": "POST"}.get(op, op.upper())], "requests for one call")
    ctx.same(store.iri, None if op == "post to the dataset" else n, "graph addressed by %s" % op)
    ctx.sample((op, n, store.sent, log))
    ctx.sig(op, store.param, was, kind, store.sent, store.force or store.drop)


def every_iri(ctx, key):
    """Every tricky graph IRI in both styles: put, get back, delete; a similar graph stays."""
    rng = ctx.rng
    n = TRICKY[int(key)]
    for param in (True, False):
        srv = server()
        store = Store(rng, srv, param)
        c = store.client(UpdateableGraphStore)
        for other in TRICKY:
            store.g[other] = {(I(other), I("a:b"), L("was"))}
        _, g, st = content(rng)
        ctx.ev("put")
        ctx.ev("parameter style" if param else "path style", 3)
        ctx.call("put", c.put, n, g)
        ctx.same(store.bad, [], "put of <%s>" % n)
        ctx.expect(isomorphic(store.g.get(n, set()), st), lambda: "put of <%s> did not arrive" % n)
        ctx.ev("get")
        ctx.expect(isomorphic(rdfl.stmts(ctx.call("get", c.get, n)), st), lambda: "get of <%s>" % n)
        ctx.ev("delete")
        ctx.call("delete", c.delete, n)
        ctx.same(store.bad, [], "requests about <%s>" % n)
        if srv.errors:
            raise HarnessError(srv.errors.pop())
        ctx.same(store.g, {o: {(I(o), I("a:b"), L("was"))} for o in TRICKY if o != n}, "the other graphs after working on <%s>" % n)
        srv.take()
    ctx.sig("iri", n)


every_iri.keys = lambda tier: [str(k) for k in range(len(TRICKY))]
def bulk(ctx, key):
    """Graphs of thousands of statements; many graphs; many calls on one client."""
    n = key
    rng = ctx.rng
    srv = server()
    for param in (True, False):
        store = Store(rng, srv, param)
        c = store.client(UpdateableGraphStore)
        big = {(I("http://e/s%d" % k), I("http://e/p"), L("\u00e9 %d" % k, "en" if k % 2 else None)) for k in range(n)} | {(B("b%d" % k), I("http://e/q"), L("%d" % k)) for k in range(n // 4)}
        small = {(I("http://e/s"), I("http://e/p"), L("x"))}
        model = {}
        names = ["http://e/g%d" % k for k in range(min(n // 40, 60))]
        for k, name in enumerate(names):
            st = big if k == 0 else small | {(I(name), I("http://e/k"), L(str(k)))}
            ctx.call("put", c.put, name, rdfl.graph(st))
            model[name] = st
            ctx.ev("put")
        for k, name in enumerate(names[:3]):
            add = {(I("http://e/more%d" % j), I("http://e/p"), L("m")) for j in range(n)}
            ctx.call("post", c.post, name, rdfl.graph(add))
            model[name] = model[name] | add
            ctx.ev("post")
        for name in names[::3]:
            if name != names[0]:
                ctx.call("delete", c.delete, name)
                del model[name]
                ctx.ev("delete")
        ctx.same(store.bad, [], "requests")
        if srv.errors:
            raise HarnessError(srv.errors.pop())
        ctx.same(set(store.g), set(model), "graphs in the store")
        for name, st in model.items():
            ctx.expect(isomorphic(store.g[name], st), lambda: "graph <%s> of %d statements differs in the store" % (name, len(st)))
            ctx.ev("get")
            ctx.expect(isomorphic(rdfl.stmts(ctx.call("get", c.get, name)), st), lambda: "graph <%s> of %d statements came back different" % (name, len(st)))
        if srv.errors:
            raise HarnessError(srv.errors.pop())
        srv.take()
    ctx.sig("bulk", key)


bulk.keys = lambda tier: [200, 2400] + ([9000] if tier == "thorough" else [])
SWEEPS = [every_iri, bulk]
