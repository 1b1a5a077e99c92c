"""C26: SPARQL responses of every kind, from a loopback server that says what it is told to."""
import gzip
import json

import rdflib
from lxml import etree, objectify

from pymantic.sparql import SPARQLQueryException, UnknownSPARQLReturnTypeException

from rv import gen, rdfl
from rv.checks.c25 import Client, text
from rv.httpd import Reply, server
from rv.model import HarnessError, I, L, isomorphic, show

RULE = "distinct (call, status, content type with parameters, kind of body) responses whose outcome was compared with the rule"
ASSUMES = ["bodies well formed for their content type; media types in lower case", "rdflib and lxml trusted to read RDF and XML"]
COUNT = {"quick": 6000, "thorough": 50000}
MIN_EVENTS = {"oracle:evaluations": 8000, "json": 500, "xml": 300, "rdf": 500, "no content": 200, "error statuses": 800, "unknown types": 300, "updates": 800, "dropped connections": 60}
ERRORS = [201, 202, 203, 205, 206, 300, 304, 400, 401, 403, 404, 405, 406, 408, 409, 410, 415, 418, 422, 429, 451, 500, 501, 502, 503, 504, 505, 507, 599, 299, 499]
UNKNOWN = ["text/html", "text/html; charset=utf-8", "text/plain", "application/json", "application/xml", "text/xml", "application/octet-stream", "text/csv", "application/n-triples", None, "", "image/png", "application/ld+json", "x", "json", "application/sparql-results", "turtle", "xml"]


def json_value(rng, depth=3):
    r = rng.random()
    if depth == 0 or r < 0.4:
        return rng.choice([None, True, False, 0, -1, 1.5, 10 ** 20, "", gen.text(rng), "\u2028", "a"])
    if r < 0.7:
        return [json_value(rng, depth - 1) for _ in range(rng.randrange(4))]
    return {gen.text(rng): json_value(rng, depth - 1) for _ in range(rng.randrange(4))}


def results_json(rng):
    if rng.random() < 0.3:
        return {"head": {}, "boolean": rng.choice([True, False])}
    vs = ["s", "p", "o"][: rng.randrange(1, 4)]
    rows = []
    for _ in range(rng.choice([0, 1, 2, 10])):
        rows.append({v: rng.choice([{"type": "uri", "value": gen.iri(rng)}, {"type": "literal", "value": gen.text(rng)}, {"type": "literal", "value": gen.text(rng), "xml:lang": "en"}, {"type": "bnode", "value": "b0"}]) for v in vs if rng.random() < 0.9})
    return {"head": {"vars": vs}, "results": {"bindings": rows}}


NS = "http://www.w3.org/2005/sparql-results#"


def results_xml(rng):
    root = etree.Element("{%s}sparql" % NS, nsmap={None: NS})
    head = etree.SubElement(root, "{%s}head" % NS)
    for v in ("s", "o"):
        etree.SubElement(head, "{%s}variable" % NS, name=v)
    res = etree.SubElement(root, "{%s}results" % NS)
    rows = []
    for _ in range(rng.choice([0, 1, 2, 6])):
        r = etree.SubElement(res, "{%s}result" % NS)
        row = []
        for v in ("s", "o"):
            b = etree.SubElement(r, "{%s}binding" % NS, name=v)
            k = etree.SubElement(b, "{%s}%s" % (NS, rng.choice(["uri", "literal", "bnode"])))
            k.text = rng.choice(["x", "caf\u00e9", "1 < 2 & 3", "\u4e2d", "two words"])
            row.append((v, k.tag, k.text))
        rows.append(row)
    return root, rows


def answer(rng, ctx):
    """(Reply, judge(ctx, value)) for a 200 response in a known type."""
    par = rng.choice(["", "", ";charset=utf-8", "; charset=UTF-8", "; charset=utf-8; profile=\"x\""])
    r = rng.random()
    if r < 0.35:
        v = results_json(rng) if rng.random() < 0.7 else json_value(rng)
        body = json.dumps(v, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 2])).encode("utf-8")

        def judge(ctx, got):
            ctx.ev("json")
            ctx.same(got, v, "decoded JSON results")

        return "json", Reply(200, "application/sparql-results+json" + par, body), judge
    if r < 0.55:
        root, rows = results_xml(rng)
        enc = rng.choice(["utf-8", "us-ascii"] if par or rng.random() < 0.5 else ["iso-8859-1", "utf-16", "utf-8"])
        body = etree.tostring(root, encoding=enc, xml_declaration=True, pretty_print=rng.random() < 0.5)

        def judge(ctx, got):
            ctx.ev("xml")
            top = got.getroot() if hasattr(got, "getroot") else got
            ctx.same(top.tag, "{%s}sparql" % NS, "root of the XML results")
            seen = [[(b.get("name"),) + [(c.tag, c.text) for c in b.iterchildren()][0] for b in res.iter("{%s}binding" % NS)] for res in top.iter("{%s}result" % NS)]
            ctx.same(seen, rows, "bindings in the XML results")
            strip = lambda e: etree.tostring(etree.fromstring(etree.tostring(e), etree.XMLParser(remove_blank_text=True)), method="c14n")
            clean = etree.fromstring(etree.tostring(top))
            objectify.deannotate(clean, cleanup_namespaces=True)
            ctx.same(strip(clean), strip(root), "the XML results as a whole")

        return "xml", Reply(200, "application/sparql-results+xml" + par, body), judge
    st = rdfl.tame(rng)
    fmt, ct = rng.choice([("xml", "application/rdf+xml"), ("turtle", "text/turtle")])
    body = rdfl.graph(st).serialize(format=fmt).encode("utf-8")
    if fmt == "turtle" and rng.random() < 0.1:
        st, body = set(), rng.choice([b"", b"\n", b"# nothing\n", b"@prefix a: <http://a/> .\n"])
        ctx.ev("empty answers")
    chk = rdflib.Graph()
    chk.parse(data=body, format=fmt)
    if not isomorphic(rdfl.stmts(chk), st):
        st = rdfl.stmts(chk)  # what the document really says

    def judge(ctx, got):
        ctx.ev("rdf")
        ctx.expect(isinstance(got, rdflib.Graph), lambda: "RDF came back as %r" % type(got))
        ctx.expect(isomorphic(rdfl.stmts(got), st), lambda: "the RDF graph differs\n-- sent:\n%s\n-- got:\n%s" % (show(st), show(rdfl.stmts(got))))

    return "rdf " + fmt, Reply(200, ct + par, body), judge


def junk(rng):
    return rng.choice([b"", b"oops", b"<html><body>error</body></html>", b"{}", b"\xff\xfe\x00", "caf\u00e9".encode(), b"{\"head\": {}, \"boolean\": true}", b"x" * 5000])


def case(ctx, i):
    rng = ctx.rng
    srv = server()
    cl = Client(rng, srv)
    for _ in range(rng.choice([1, 2, 4, 8])):
        one(ctx, rng, srv, cl)
        if srv.errors:
            raise HarnessError(srv.errors.pop())


def one(ctx, rng, srv, cl):
    kind = rng.choice(["query", "query", "query", "update"])
    kw = {"output": rng.choice(["json", "xml"])} if kind == "query" and rng.random() < 0.5 else {}
    q = text(rng)
    if len(q) > 3000:
        q = q[:3000]
    f = getattr(cl.c, kind)
    if kind == "update":
        ctx.ev("updates")
    r = rng.random()
    if r < 0.45:
        what, reply, judge = answer(rng, ctx)
        if rng.random() < 0.1:
            reply.body = gzip.compress(reply.body)
            reply.headers.append(("Content-Encoding", "gzip"))
        if rng.random() < 0.2:
            reply.headers += [("X-Content-Type", "text/html"), ("Vary", "Accept")]
        if rng.random() < 0.1:
            reply.drop = "after"
        srv.handler = lambda req: reply
        got = ctx.call(kind, f, q, **kw)
        if kind == "query":
            judge(ctx, got)
        else:
            ctx.expect(True, "an update that succeeded returned")
        ctx.sig(kind, what, reply.ctype, cl.cfg, tuple(kw.items()))
        ctx.sample((reply.ctype, reply.body[:200]))
    elif r < 0.55:
        srv.handler = lambda req: Reply(204, rng.choice([None, "text/plain", "application/sparql-results+json"]))
        ctx.ev("no content")
        ctx.expect(ctx.call(kind, f, q, **kw) is True, "a 204 response did not give True")
        ctx.sig(kind, 204, cl.cfg)
    elif r < 0.8:
        status = rng.choice(ERRORS) if rng.random() < 0.7 else rng.choice([x for x in range(206, 600) if x not in (301, 302, 303, 307, 308, 304)])
        ct = rng.choice(UNKNOWN + ["application/sparql-results+json", "application/rdf+xml", "text/turtle", "application/sparql-results+xml"])
        srv.handler = lambda req: Reply(status, ct, junk(rng))
        ctx.ev("error statuses")
        e = ctx.raises("%s answered %d" % (kind, status), SPARQLQueryException, f, q, **kw)
        ctx.expect(q in str(e) or repr(q)[1:-1] in str(e), lambda: "the error for status %d does not name the query %r: %s" % (status, q, str(e)[:500]))
        ctx.sig(kind, status)
    elif r < 0.95 or kind == "update":
        ct = rng.choice(UNKNOWN)
        srv.handler = lambda req: Reply(200, ct, junk(rng))
        if kind == "query":
            ctx.ev("unknown types")
            ctx.raises("query answered with %r" % ct, UnknownSPARQLReturnTypeException, f, q, **kw)
        else:
            ctx.call(kind, f, q, **kw)
            ctx.expect(True, "an update does not depend on the content type")
        ctx.sig(kind, "unknown", ct)
    else:
        mode = rng.choice(["before", "middle"])
        srv.handler = lambda req: Reply(200, "application/sparql-results+json", b'{"head": {}, "boolean": true}', drop=mode)
        ctx.ev("dropped connections")
        ctx.raises("query with a dropped connection", Exception, f, q, **kw)
        ctx.sig(kind, "dropped", mode)
    log = srv.take()
    ctx.same(len(log), 1, "number of requests for one call")


def statuses(ctx, key):
    """Every status code, with a body that would be fine for 200."""
    rng = ctx.rng
    srv = server()
    lo = int(key)
    for status in range(lo, lo + 25):
        if status in (200, 301, 302, 303, 307, 308):
            continue
        for kind in ("query", "update"):
            cl = Client(rng, srv)
            body = rng.choice([b'{"head": {}, "boolean": true}', b""])
            srv.handler = lambda req: Reply(status, "application/sparql-results+json", body)
            if status == 204:
                ctx.expect(getattr(cl.c, kind)("ASK {}") is True, "204")
            else:
                ctx.ev("error statuses")
                e = ctx.raises("%s answered %d" % (kind, status), SPARQLQueryException, getattr(cl.c, kind), "ASK {}")
                ctx.expect("ASK {}" in str(e), "the error does not name the query")
            srv.take()
    # an error with a redirect status but nowhere to go
    ctx.sig("statuses", key)


statuses.keys = lambda tier: [str(k) for k in range(200, 600, 25)]
def bulk(ctx, key):
    """Results of megabytes."""
    n = key
    rng = ctx.rng
    srv = server()
    rows = [{"s": {"type": "uri", "value": "http://e/%d" % k}, "o": {"type": "literal", "value": "\u00e9\u4e2d%d" % k}} for k in range(n)]
    v = {"head": {"vars": ["s", "o"]}, "results": {"bindings": rows}}
    st = {(I("http://e/s%d" % k), I("http://e/p"), L("\u00e9%d" % k)) for k in range(n // 10)}
    for chunked in (False, True):
        cl = Client(rng, srv)
        body = json.dumps(v, ensure_ascii=False).encode("utf-8")
        rep = Reply(200, "application/sparql-results+json", gzip.compress(body) if chunked else body)
        if chunked:
            rep.headers.append(("Content-Encoding", "gzip"))
        srv.handler = lambda req: rep
        got = ctx.call("query", cl.c.query, "SELECT")
        ctx.expect(got == v, "large JSON results (%d bytes) differ" % len(body))
        ctx.ev("json")
        root = etree.Element("{%s}sparql" % NS, nsmap={None: NS})
        res = etree.SubElement(root, "{%s}results" % NS)
        for k in range(n):
            b = etree.SubElement(etree.SubElement(res, "{%s}result" % NS), "{%s}binding" % NS, name="s")
            etree.SubElement(b, "{%s}literal" % NS).text = "\u00e9%d" % k
        rep2 = Reply(200, "application/sparql-results+xml", etree.tostring(root, encoding="utf-8", xml_declaration=True))
        srv.handler = lambda req: rep2
        got = ctx.call("query", cl.c.query, "SELECT")
        top = got.getroot() if hasattr(got, "getroot") else got
        ctx.same([x.text for x in top.iter("{%s}literal" % NS)] == ["\u00e9%d" % k for k in range(n)], True, "large XML results")
        ctx.ev("xml")
        for fmt, ct in (("turtle", "text/turtle"), ("xml", "application/rdf+xml")):
            rep3 = Reply(200, ct, rdfl.graph(st).serialize(format=fmt).encode("utf-8"))
            srv.handler = lambda req: rep3
            got = ctx.call("query", cl.c.query, "CONSTRUCT")
            ctx.expect(rdfl.stmts(got) == st, "a large RDF answer differs")
            ctx.ev("rdf")
        srv.take()
    if srv.errors:
        raise HarnessError(srv.errors.pop())
    ctx.sig("bulk", key)


bulk.keys = lambda tier: [1000, 12000] + ([60000] if tier == "thorough" else [])
SWEEPS = [statuses, bulk]
