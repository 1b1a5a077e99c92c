"""C38: a call's effects are its result, its target, and requests to the given server."""
import copy
import gc
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings

import rdflib
from pymantic import util
from pymantic.parsers import jsonld_parser, nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import BlankNode, Dataset, Graph, Literal, NamedNode, PrefixMap, Profile, Quad, RDFEnvironment, TermMap, Triple, parse_curie, to_curie
from pymantic.rdf import List, Resource
from pymantic.serializers import default_bnode_name_generator, serialize_nquads, serialize_ntriples, serialize_turtle
from pymantic.sparql import PatchableGraphStore, SPARQLServer, changeset, differences

from rv import gen, jldgen, linegen, rdfl, res, ttlgen, watch
from rv.core import REPO
from rv.httpd import Reply, server
from rv.model import B, I, L, HarnessError
from rv.pm import Maker, Reader

RULE = "distinct (operation, form of its arguments, outcome) watched for events, output, settings, open files and changed arguments"
ASSUMES = ["audit events of CPython 3.12 show every file, process and socket the interpreter opens; C code of lxml is watched by its results only", "importing modules and logging are no effects; what the HTTP library reads for itself (certificates, netrc) is its own", "JSON-LD without remote contexts"]
COUNT = {"quick": 2400, "thorough": 120000}
MIN_EVENTS = {"oracle:evaluations": 30000, "watched calls": 8000, "raised": 500, "arguments compared": 4000, "streams left open": 500, "settings compared": 2000, "requests": 500, "hostile answers": 100, "imports watched": 2, "files compared": 2000}


def prepare():
    """Whatever loads on first use has been loaded."""
    global ready
    g = Graph()
    g.add(Triple(NamedNode("http://e/s"), NamedNode("http://e/p"), Literal("x", "en")))
    serialize_turtle(g, io.StringIO())
    turtle_parser.parse("<http://e/s> <http://e/p> 1, 'x'@en .")
    jsonld_parser.parse_json({"@id": "http://e/s", "http://e/p": "x"})
    for f in ("nt", "xml", "turtle", "n3"):
        rdflib.ConjunctiveGraph().parse(data="" if f != "xml" else "<r:RDF xmlns:r='http://www.w3.org/1999/02/22-rdf-syntax-ns#'/>", format=f)
    changeset(rdflib.Graph(), rdflib.Graph(), "http://e/g").serialize(format="xml")
    rdflib.Graph().serialize(format="nt")
    ready = True


ready = False


class Trap:
    """A directory of files nobody has any business with, and their names."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="rv38-")
        self.secret = "s3cr3t-%d" % os.getpid()
        self.files = {}
        for n in ("secret.txt", "secret.ttl", "secret.jsonld", "secret.dtd", "secret.xml"):
            with open(os.path.join(self.dir, n), "w") as f:
                f.write({"ttl": "<http://e/x> <http://e/y> '%s' .\n", "jsonld": '{"@context": {"z": "http://%s/"}}', "dtd": "<!ENTITY e '%s'>", "xml": "<x>%s</x>"}.get(n.split(".")[1], "%s") % self.secret)
        self.stamp = self.look()

    def look(self):
        out = {}
        for top, dirs, files in os.walk(self.dir):
            for f in files + dirs:
                p = os.path.join(top, f)
                st = os.lstat(p)
                out[p] = (st.st_size, st.st_mtime_ns, st.st_mode)
        return out

    def iri(self, rng):
        return rng.choice(["file://", "file:", "file://localhost"]) + os.path.join(self.dir, rng.choice(["secret.txt", "secret.ttl", "secret.jsonld", "new.txt"]))


_trap = None


def trap():
    global _trap
    if _trap is None:
        _trap = Trap()
        import atexit
        d = _trap.dir
        if not d.startswith(tempfile.gettempdir() + "/rv38-"):
            raise HarnessError("scratch directory %r" % d)
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return _trap


def evil(rng, port):
    """Texts that ask to be opened, fetched, run or formatted."""
    t = trap()
    return rng.choice([
        t.iri(rng), "http://127.0.0.1:%d/fetch-me" % port, "http://127.0.0.1:%d/ctx.jsonld" % port, "jar:" + t.iri(rng), "data:text/plain,x", "javascript:alert(1)", "urn:x:%s%n{0}{self.__class__}", "http://e/$(touch " + os.path.join(t.dir, "new") + ")",
        "http://e/';drop", "http://e/%73%%7", "ldap://127.0.0.1:%d/a" % port, "http://e/__import__('os').system('touch%%20%s/new')" % t.dir, "\\\\127.0.0.1\\share", "ftp://127.0.0.1:%d/x" % port])


def evil_text(rng, port):
    return rng.choice([evil(rng, port), "%s %(x)s {0} {x} ${x} `id` $(id)", "__import__('os').getcwd()", "cos\nsystem\n(S'id'\ntR.", "!!python/object/apply:os.system ['id']", "\x00", "\x1b[2J", "A" * 3000, "${jndi:ldap://127.0.0.1/x}", "1" * 5000])


def iri_ok(x):
    return not any(c in '<>"{}|^`\\' or c <= " " for c in x)


def statements(rng, port, width=3, bn=True):
    st = set(gen.graph(rng, n=rng.choice([0, 1, 4, 9])))
    for _ in range(rng.choice([0, 1, 3])):
        x = [e for e in (evil(rng, port) for _ in range(8)) if iri_ok(e)][:1] or ["http://e/"]
        s, p = I(x[0]), I("http://e/p")
        st.add(rng.choice([(s, p, L(evil_text(rng, port))), (I("http://e/s"), s, s), (I("http://e/s"), p, L(evil_text(rng, port), None, x[0])), (s, p, I(x[0]))]))
    st = {s for s in st if all("\x00" not in t[1] and not any(0xD800 <= ord(c) < 0xE000 for c in t[1]) for t in s)}
    if width == 4:
        st = {s + (rng.choice([None, I("http://e/g"), B("g")]),) for s in st}
    return st


class Seen:
    """One watched call: what it did besides."""

    def __init__(self, ctx, http=None):
        self.ctx, self.http = ctx, http

    def __call__(self, what, form, f, args=(), **kw):
        """f(*args); args are compared with what they were. Returns (result, exception)."""
        ctx = self.ctx
        before = [keep(a) for a in args] + [keep(a) for a in kw.values()]
        out = exc = None
        w = watch.Watch()
        ctx.log("call", what, form)
        with w:
            try:
                out = f(*args, **kw)
                if hasattr(out, "__next__"):
                    out = list(out)
            except Exception as e:
                exc = e
        ctx.ev("watched calls")
        if exc is not None:
            ctx.ev("raised")
        for event, a in w.events:
            ctx.expect(self.allowed(event, a), lambda: "%s (%s) caused %s%r" % (what, form, event, a))
        ctx.expect(not w.events or self.http is not None, lambda: "%s caused %r" % (what, w.events[:5]))
        ctx.expect(not w.printed or self.http is not None, lambda: "%s (%s) printed %r" % (what, form, w.printed[:300]))
        for old, a in zip(before, list(args) + list(kw.values())):
            if old is None:
                continue
            ctx.ev("arguments compared")
            new = keep(a)
            if new != old:
                ctx.fail("%s (%s) changed its argument\n-- was: %.1500r\n-- is: %.1500r" % (what, form, old, new))
            if isinstance(a, io.IOBase):
                ctx.ev("streams left open")
        ctx.sample((what, form, type(exc).__name__, w.events[:4]))
        ctx.sig(what, form, type(exc).__name__)
        return out, exc

    def allowed(self, event, a):
        if self.http is None:
            return False
        if event == "open":  # reading, by the libraries
            return isinstance(a[1], (str, type(None))) and not set(a[1] or "r") & set("wax+") and not (isinstance(a[2], int) and a[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)) and not str(a[0]).startswith(trap().dir)
        if event in ("socket.connect", "socket.connect_ex"):
            return a[1] == ("127.0.0.1", self.http)
        if event == "http.client.connect":
            return a[1:3] == ("127.0.0.1", self.http)
        if event == "socket.getaddrinfo":
            return a[0] in ("127.0.0.1", b"127.0.0.1") and a[1] == self.http
        return event in ("socket.__new__", "http.client.send", "os.listdir", "os.scandir", "socket.gethostname", "socket.bind") or event.startswith(("ssl.", "socket.getservby"))


def keep(a):
    """Something to compare an argument by, or None."""
    if isinstance(a, (Graph, Dataset)):
        return ("stmts", frozenset(a), len(a), getattr(a, "uri", None))
    if isinstance(a, rdflib.Graph):
        return ("rdflib", frozenset(a), sorted(map(str, a.namespaces())))
    if isinstance(a, (Profile,)):
        return ("profile", list(a.prefixes.items()), sorted(a.terms.items()), getattr(a.terms, "default", None))
    if isinstance(a, PrefixMap):
        return ("prefixes", list(a.items()))
    if isinstance(a, TermMap):
        return ("terms", sorted(a.items()), getattr(a, "default", None))
    if isinstance(a, io.IOBase):
        return ("stream", a.closed)
    if isinstance(a, (list, dict)):
        return clone(a)
    if isinstance(a, (set, frozenset, bytearray, tuple)) and not hasattr(a, "_fields"):
        return (type(a), repr(sorted(map(repr, a))) if not isinstance(a, bytearray) else bytes(a))
    return None


def clone(a):
    """A copy of the containers, holding the same things; types told apart."""
    if isinstance(a, dict):
        return {k: clone(v) for k, v in a.items()}
    if isinstance(a, list):
        return [clone(v) for v in a]
    return (type(a).__name__, a) if isinstance(a, (bool, int, float)) else a


def settings(ctx, before, files, what):
    after = watch.state()
    for k in before:
        ctx.expect(after[k] == before[k], lambda: "%s: changed by %s\n-- was: %.500r\n-- is: %.500r" % (k, what, before[k], after[k]))
    ctx.ev("settings compared")
    now = watch.fds()
    if now - files:  # sockets and files of dropped objects
        gc.collect()
        now = watch.fds()
    ctx.expect(not now - files, lambda: "left open after %s: %r" % (what, now - files))
    ctx.expect(not files - now, lambda: "closed by %s: %r" % (what, files - now))
    ctx.ev("files compared")
    t = trap()
    ctx.same(t.look(), t.stamp, "the files in a directory named in the data, after " + what)


# -- what is called ---------------------------------------------------------------------

def damaged(rng, text):
    k = rng.randrange(len(text) + 1)
    return rng.choice([text[:k], text[:k] + rng.choice(["\\", '"', "<", ".", "\x00", "@", "^^"]) + text[k:], text + "<", text + " oops"])


def parse(ctx, rng, see, port):
    fmt = rng.choice(["nt", "nq", "ttl", "ttl", "jsonld"])
    t = trap()
    target = rng.choice([None, None, "own"])
    if fmt == "jsonld":
        doc, opts, _, feats = jldgen.document(rng, jldgen.quads(rng))
        if rng.random() < 0.4:
            x = {"@id": evil(rng, port), "@type": [evil(rng, port)], "http://e/p": [evil_text(rng, port), {"@id": evil(rng, port)}, {"@value": evil_text(rng, port), "@type": evil(rng, port)}]}
            doc = {"@graph": [doc, x]} if isinstance(doc, dict) and "@context" not in doc else x
        opts = dict(opts or {})
        if rng.random() < 0.2:
            doc = {"@context": {"a": {"@id": 5}}, "a": "b"}  # refused
        kw = {}
        if opts or rng.random() < 0.3:
            kw["options"] = opts
        if target:
            kw["sink"] = None
        f = lambda doc, options=None, sink=None: jsonld_parser.parse_json(doc, Dataset() if target else None, options)
        numbers = random.getstate()
        see("parse jsonld", (target, sorted(kw)), f, (doc,), **kw)
        random.setstate(numbers)  # PyLD draws numbers of its own
        return
    if fmt == "ttl":
        if rng.random() < 0.5:
            doc = ttlgen.random_doc(rng)
            text = doc.text() if hasattr(doc, "text") else ttlgen.join(rng, doc.toks)
            base = doc.start_base
        else:
            st = statements(rng, port)
            doc = ttlgen.spell_graph(rng, st)
            text, base = doc.text() if hasattr(doc, "text") else ttlgen.join(rng, doc.toks), ""
        if rng.random() < 0.2:
            x = evil(rng, port)
            if iri_ok(x):
                text = "@base <%s> .\n@prefix owl: <http://www.w3.org/2002/07/owl#> .\n<> owl:imports <%s>, <secret.ttl> .\n" % (x, x) + text
    else:
        st = statements(rng, port, 4 if fmt == "nq" else 3)
        text, base = linegen.document(rng, st), ""
    kind = "whole"
    if rng.random() < 0.1:
        k = rng.choice([12, 40, 90])
        kind, text = "large", text + {"ttl": "\n<http://e/s> <http://e/p> %s.\n" % rng.choice(["[ <http://e/p> " * k + "1 " + "] " * k, "( " * k + ") " * k, ", ".join(map(str, range(k * 5)))]), "nt": "\n", "nq": "\n"}[fmt]
        if fmt != "ttl":
            text += "".join('<http://e/s> <http://e/p> "%d %s" .\n' % (j, "x" * k) for j in range(k * 3))
        if rng.random() < 0.4:
            ctx.ev("long documents")
            text += "# %s\n" % ("x" * 60) * rng.choice([400, 1200, 20000])
    elif rng.random() < 0.3:
        text, kind = damaged(rng, text), "damaged"
    form = rng.choice(["text", "bytes", "StringIO", "StringIO", "file", "BytesIO"])
    if form == "BytesIO" and fmt != "ttl" or form == "bytes" and fmt != "ttl":
        p = {"nt": ntriples_parser, "nq": nquads_parser}[fmt]
        form, f, arg = "bytes", p.parse_string, text.encode("utf-8", "surrogatepass")
    elif fmt == "ttl":
        f = lambda x, target=None: turtle_parser.parse(x, target, base)
        arg = {"text": text, "bytes": text.encode("utf-8", "surrogatepass")}.get(form)
    else:
        f, arg = {"nt": ntriples_parser, "nq": nquads_parser}[fmt].parse, text
    closing = None
    if form in ("StringIO", "BytesIO"):
        arg = io.StringIO(text, newline="") if form == "StringIO" else io.BytesIO(text.encode("utf-8", "surrogatepass"))
    elif form == "file":
        fd, path = tempfile.mkstemp(prefix="rv38f-")
        with os.fdopen(fd, "wb") as h:
            h.write(text.encode("utf-8", "surrogatepass"))
        closing = arg = open(path, encoding="utf-8", newline="")
        os.unlink(path)
    d = Dataset() if fmt == "nq" else Graph()
    g = (lambda x: f(x, d)) if target else f
    try:
        out, exc = see("parse " + fmt, (kind, form, target), g, (arg,))
        if exc is None and hasattr(arg, "readline"):
            with watch.pause():
                ctx.same(arg.read(), "" if form != "BytesIO" else b"", "what is left of the stream")
    finally:
        if closing:
            closing.close()


class Out(io.TextIOBase):
    """A writer that can do nothing but write."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def no(self, *a):
        raise AssertionError("only writing was asked for")

    seek = tell = truncate = read = readline = no


def write(ctx, rng, see, port):
    m = Maker()
    kind = rng.choice(["nt", "nq", "ttl", "ttl"])
    st = statements(rng, port, 4 if kind == "nq" else 3)
    g = Dataset() if kind == "nq" else Graph()
    for s in st:
        g.add((m.quad if kind == "nq" else m.triple)(s))
    out = rng.choice([io.StringIO, Out])()
    if kind == "ttl":
        pr = None
        kw = {}
        if rng.random() < 0.6:
            kw["profile"] = pr = Profile(PrefixMap({"e": "http://e/", "f": "file:///"}), TermMap())
            if rng.random() < 0.3:
                pr.setDefaultPrefix("http://e/x/")
        if rng.random() < 0.4:
            kw["base"] = rng.choice(["http://e/", "file:///tmp/"])
        see("write ttl", (sorted(kw), type(out).__name__), serialize_turtle, (g, out), **kw)
    else:
        see("write " + kind, type(out).__name__, serialize_nquads if kind == "nq" else serialize_ntriples, (g, out))


def graphs(ctx, rng, see, port):
    m = Maker()
    two = []
    for _ in range(2):
        g = Graph(rng.choice([None, NamedNode("http://e/g")]))
        for s in statements(rng, port):
            g.add(m.triple(s))
        two.append(g)
    a, b = two
    t = rng.choice(sorted(a, key=str) or [Triple(NamedNode("http://e/s"), NamedNode("http://e/p"), Literal("x"))])
    see("merge", "graph", lambda x: a.merge(x), (b,))
    see("merge", "self", b.merge, (a,))
    for pat in ((t.subject, None, None), (None, t.predicate, t.object), (None, None, None)):
        see("match", [x is None for x in pat], lambda g: list(g.match(*pat)), (a,))
    see("listing", "", lambda g: [list(g.subjects()), list(g.predicates()), list(g.objects()), g.toArray(), len(g), t in g], (a,))
    l = sorted(b, key=str)
    see("addAll", "list", Graph().addAll, (l,))
    see("addAll", "graph", Graph().addAll, (b,))
    see("addAll", "set", Graph().addAll, (set(l),))
    see("createGraph", "list", RDFEnvironment().createGraph, (l,))
    qs = [Quad(*x, rng.choice([None, NamedNode("http://e/g")])) for x in l]
    see("createDataset", "list", RDFEnvironment().createDataset, (qs,))
    see("dataset addAll", "list", Dataset().addAll, (qs,))
    d = Dataset().addAll(qs)
    see("dataset match", "", lambda d: [list(d.match()), list(d.match(graph=NamedNode("http://e/h"))), len(d), t in d, list(d)], (d,))
    see("terms", "", lambda xs: [(str(x), repr(x), hash(x), x == y, copy.copy(x), [z.toNT() for z in x if hasattr(z, "toNT")]) for x in xs for y in xs[:3]], (l[:6],))
    see("changes", "", lambda: a.removeMatches(t.subject, None, None) if t in a else None)
    see("list", "", lambda g: [Resource(g, n).as_(List) for n in list(g.subjects())[:3]], (a,))


def resources(ctx, rng, see, port):
    room = res.Room(ctx)
    r = room.res
    for _ in range(5):
        p = rng.choice(room.busy)
        key = room.key(p, room.filter())
        see("read", type(key).__name__, lambda g: [x for x in [r[key]] if not hasattr(x, "__next__") or list(x)], (room.graph,))
        see("test", type(key).__name__, lambda g: [key in r, list(r), str(r), repr(r), hash(r), r == r, list(r.object_of()), list(type(r).in_graph(g))], (room.graph,))
        v = rng.choice([["a", "b"], [Literal("x", "de")], {"a", "b"}, ["a", Literal(evil_text(rng, port))], [], "x", ["a", NamedNode("http://e/n")], Literal("x", "en"), {"a": 1}])
        see("assign", (type(key).__name__, type(v).__name__), r.__setitem__, (key, v))
    see("copy", "", lambda: r.copy("http://e/copied"))
    see("classify", "", lambda g: [Resource.classify(g, n) for n in list(g.subjects()) + [None, Literal("x")]], (room.graph,))
    see("erase", "", lambda: [r.erase() if hasattr(r, "erase") else None])
    see("new", "", lambda g: (res.Person.new(Graph()), res.Student.new(Graph(), "http://e/new")), (Graph(),))


def names(ctx, rng, see, port):
    for _ in range(8):
        x = rng.choice([evil(rng, port), evil_text(rng, port), gen.iri(rng), gen.text(rng)])
        y = rng.choice([evil(rng, port), gen.iri(rng), "../x", "?q", "", "//h"])
        m = PrefixMap({"e": "http://e/", "": "http://d/", "p": y})
        k = PrefixMap(m)
        see("names", "curie", lambda m: [parse_curie(c, m) for c in ("e:a", "p:" + x)] + [to_curie(x, m), m.shrink(x), m.resolve("e:" + x)], (m,))
        pr, other = Profile(PrefixMap({"e": "http://e/"}), TermMap({"t": y})), Profile(PrefixMap({"e": "http://f/", "q": x}), TermMap({"t": x, "u": x}))
        see("names", "import", lambda o: pr.importProfile(o, rng.random() < 0.5), (other,))
        see("names", "environment", lambda o: [RDFEnvironment().createProfile(), o.resolve("t"), o.resolve("q:x"), o.resolve("nothing")], (other,))
        see("iri", "normalise", util.normalize_iri, (x,))
        see("iri", "quote", util.quote_normalized_iri, (x,))
        see("iri", "join", util.smart_urljoin, (x, y))
        see("iri", "check", util.validate_iri, (x,))
        see("iri", "escapes", util.decode_literal, (rng.choice([x, "\\u0041" + x, x + "\\"]),))
        see("values", "group", lambda v: list(util.grouper(v, 2)), ([1, 2, 3],))
        see("values", "one", util.one_or_none, (rng.choice([[], [1], [1, 2]]),))


HOSTILE_XML = ["<!DOCTYPE sparql [<!ENTITY e SYSTEM 'file://%(dir)s/secret.txt'>]><sparql xmlns='http://www.w3.org/2005/sparql-results#'><head/><results><result><binding name='s'><literal>&e;</literal></binding></result></results></sparql>",
               "<!DOCTYPE sparql SYSTEM 'file://%(dir)s/secret.dtd'><sparql xmlns='http://www.w3.org/2005/sparql-results#'><head/><boolean>&e;</boolean></sparql>",
               "<!DOCTYPE sparql SYSTEM 'http://127.0.0.1:%(port)d/fetch-me'><sparql xmlns='http://www.w3.org/2005/sparql-results#'><head/><boolean>true</boolean></sparql>",
               "<!DOCTYPE sparql [<!ENTITY %% p SYSTEM 'http://127.0.0.1:%(port)d/fetch-me'> %%p;]><sparql xmlns='http://www.w3.org/2005/sparql-results#'><head/><boolean>true</boolean></sparql>",
               "<?xml-stylesheet href='http://127.0.0.1:%(port)d/fetch-me'?><sparql xmlns='http://www.w3.org/2005/sparql-results#' xmlns:xi='http://www.w3.org/2001/XInclude'><xi:include href='file://%(dir)s/secret.xml'/></sparql>"]
HOSTILE_RDF = ["<!DOCTYPE r:RDF [<!ENTITY e SYSTEM 'file://%(dir)s/secret.txt'>]><r:RDF xmlns:r='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:e='http://e/'><r:Description r:about='http://e/s'><e:p>&e;</e:p></r:Description></r:RDF>",
               "<!DOCTYPE r:RDF SYSTEM 'http://127.0.0.1:%(port)d/fetch-me'><r:RDF xmlns:r='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:e='http://e/'><r:Description r:about='http://e/s'><e:p>x</e:p></r:Description></r:RDF>",
               "<r:RDF xmlns:r='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:owl='http://www.w3.org/2002/07/owl#'><owl:Ontology r:about='http://e/s'><owl:imports r:resource='http://127.0.0.1:%(port)d/fetch-me'/></owl:Ontology></r:RDF>"]


def requests_(ctx, rng, see, srv):
    t, n = trap(), {"dir": trap().dir, "port": srv.port}
    post = rng.choice([{}, {"post_queries": True}, {"post_directly": True}])
    c = PatchableGraphStore(srv.url + "/sparql", srv.url + "/data", param_style=rng.random() < 0.8, **post)
    good = rdfl.graph(rdfl.tame(rng))
    for _ in range(rng.choice([1, 3])):
        op = rng.choice(["query", "query", "query", "update", "get", "get", "put", "post", "patch", "delete"])
        r = rng.random()
        hostile = False
        if r < 0.3:
            reply = Reply(rng.choice([400, 404, 500, 503]), "text/plain", b"no")
        elif op in ("query", "get"):
            k = rng.randrange(4)
            if r < 0.7:
                hostile = True
                doc, ct = (rng.choice(HOSTILE_XML), "application/sparql-results+xml") if op == "query" and rng.random() < 0.6 else (rng.choice(HOSTILE_RDF), "application/rdf+xml")
                reply = Reply(200, ct, (doc % n).encode())
                if rng.random() < 0.2:
                    reply = Reply(200, "text/turtle", ("@base <http://127.0.0.1:%(port)d/fetch-me> . <> <http://www.w3.org/2002/07/owl#imports> <file://%(dir)s/secret.ttl> ." % n).encode())
            else:
                reply = [Reply(200, "application/sparql-results+json" if op == "query" else "text/turtle", b'{"head": {}, "boolean": true}' if op == "query" else b""), Reply(200, "text/turtle", good.serialize(format="turtle").encode()), Reply(200, "application/rdf+xml", good.serialize(format="xml").encode()), Reply(200, "text/html", b"x") if op == "query" else Reply(200, "text/plain", good.serialize(format="nt").encode())][k]
        else:
            reply = Reply(rng.choice([200, 201, 204]), None, b"")
        srv.handler = lambda req: reply
        srv.take()
        g = rdfl.graph(rdfl.tame(rng))
        name = rng.choice(["http://e/g", "http://e/?a=b&c", t.iri(rng)])
        kw, out = {}, None
        if op in ("query", "update"):
            if rng.random() < 0.6:
                kw["default_graph"] = rng.choice([["http://e/g"], ["http://e/g", "http://e/h"], [], "http://e/g"])
            if rng.random() < 0.4:
                kw["named_graph"] = rng.choice([["http://e/n"], ["http://e/n", "http://e/m"]])
            out, exc = see(op, (sorted(kw), reply.status, reply.ctype), getattr(c, op), ("SELECT * {?s ?p ?o}",), **kw)
        elif op in ("put", "post"):
            out, exc = see(op, (reply.status,), getattr(c, op), (name, g))
        elif op == "patch":
            cs, _ = see("changeset", "", changeset, (g, good, name))
            out, exc = see(op, (reply.status,), c.patch, (name, cs))
            see("differences", "", differences, (g, good), exclude=["http://e/p"])
        else:
            out, exc = see(op, (reply.status, reply.ctype), getattr(c, op), (name,))
        got = srv.take()
        ctx.ev("requests", len(got))
        stray = [q.path for q in got if "fetch-me" in q.path]
        ctx.expect(not stray, lambda: "the data made the client fetch %r" % stray)
        if hostile:
            ctx.ev("hostile answers")
            from lxml import etree
            text = repr(out) + (out.serialize(format="nt") if isinstance(out, rdflib.Graph) else "") + (etree.tostring(out, encoding="unicode") if hasattr(out, "getroot") else "")
            if hasattr(out, "getroot"):
                text += "".join(e.text or "" for e in out.getroot().iter() if isinstance(e.tag, str))
            ctx.expect(t.secret not in text, lambda: "an answer made the client read a file: %.500r" % text)
    c.s.close()


KINDS = [parse, parse, write, graphs, resources, names]


def case(ctx, i):
    rng = ctx.rng
    srv = server()
    watch.install()
    if not ready:
        prepare()
        trap()
    srv.handler = lambda req: Reply(404, "text/plain", b"")
    srv.take()
    kind = KINDS[i % 7] if i % 7 < 6 else requests_
    quiet = kind is not requests_
    files = watch.fds()
    before = watch.state()
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always", ResourceWarning)
        if quiet:
            for _ in range(3 if kind is parse else 1):
                kind(ctx, rng, Seen(ctx), srv.port)
        else:
            kind(ctx, rng, Seen(ctx, srv.port), srv)
    for w in caught:
        ctx.expect(not issubclass(w.category, ResourceWarning), lambda: "%s: %s" % (kind.__name__, w.message))
    if quiet:
        settings(ctx, before, files, kind.__name__)
        ctx.expect(not srv.take(), "a request was sent by " + kind.__name__)
    else:
        gc.collect()
        import time
        for _ in range(200):  # the server's side of a connection closes a moment later
            if not watch.fds() - files:
                break
            time.sleep(0.01)
        settings(ctx, before, watch.fds() if files - watch.fds() else files, kind.__name__)
    if srv.errors:
        raise HarnessError(srv.errors.pop())


# -- importing --------------------------------------------------------------------------

IMPORT = r'''
import sys, os, io, json, signal, locale
sys.path.insert(0, sys.argv[1])
seen = []
def state():
    return [dict(os.environ), os.getcwd(), sys.getrecursionlimit(), sys.getswitchinterval(), locale.setlocale(locale.LC_ALL), repr(signal.getsignal(signal.SIGINT)), repr(sys.excepthook), repr(sys.gettrace())]
on = True
def hook(e, a):
    if on and (e in ("socket.connect", "subprocess.Popen", "os.system", "os.exec", "os.fork", "os.remove", "os.rename", "os.mkdir", "os.chdir", "socket.getaddrinfo") or e == "open" and isinstance(a[1], str) and set(a[1]) & set("wax+")):
        seen.append([e, repr(a)[:200]])
sys.addaudithook(hook)
before = state()
out, err = sys.stdout, sys.stderr
sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
fds = sorted(os.listdir("/proc/self/fd"))
import importlib, threading, logging
threads = threading.active_count()
importlib.import_module(sys.argv[2])
printed = sys.stdout.getvalue() + sys.stderr.getvalue()
sys.stdout, sys.stderr = out, err
on = False
after = state()
print(json.dumps({"seen": seen, "printed": printed, "state": [[str(x)[:200], str(y)[:200]] for x, y in zip(before, after) if x != y], "fds": [fds, sorted(os.listdir("/proc/self/fd"))], "threads": [threads, threading.active_count()], "handlers": [repr(h) for h in logging.getLogger().handlers]}))
'''
MODULES = ["pymantic", "pymantic.primitives", "pymantic.rdf", "pymantic.serializers", "pymantic.sparql", "pymantic.util", "pymantic.parsers", "pymantic.parsers.jsonld", "pymantic.parsers.lark", "pymantic.vocab.skos", "pymantic.uri_schemes"]


def imports(ctx, key):
    d = tempfile.mkdtemp(prefix="rv38i-")
    try:
        r = subprocess.run([sys.executable, "-B", "-c", IMPORT, os.path.join(REPO, "src"), key], capture_output=True, text=True, timeout=120, cwd=d)
        if r.returncode:
            raise HarnessError("importing %s: %s" % (key, r.stderr[-1500:]))
        o = json.loads(r.stdout.splitlines()[-1])
        ctx.ev("imports watched")
        ctx.expect(not o["seen"], lambda: "importing %s caused %r" % (key, o["seen"][:5]))
        ctx.expect(not o["printed"], lambda: "importing %s printed %r" % (key, o["printed"][:300]))
        ctx.expect(not o["state"], lambda: "importing %s changed %r" % (key, o["state"]))
        ctx.same(o["threads"][1], o["threads"][0], "threads after importing " + key)
        ctx.same(o["fds"][1], o["fds"][0], "open files after importing " + key)
        ctx.same(o["handlers"], [], "handlers of the root logger after importing " + key)
        ctx.same(os.listdir(d), [], "files written by importing " + key)
        ctx.sig("import", key)
    finally:
        shutil.rmtree(d, ignore_errors=True)


imports.keys = lambda tier: MODULES
SWEEPS = [imports]
FIXED = []
