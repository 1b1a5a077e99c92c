"""C14: blank-node scope, over series of parses and under thread interleavings."""
import io
import os

from pymantic.parsers import nquads_parser, ntriples_parser, turtle_parser
from pymantic.parsers.jsonld import jsonld_parser
from pymantic.primitives import BlankNode, Dataset, Graph

from rv import gen, jldgen, linegen, sched, ttlgen
from rv.core import REPO
from rv.lines import LineStream, quads_of
from rv.model import bnodes, isomorphic, map_terms, merge_string, show
from rv.pm import Reader

RULE = "distinct thread schedules (sequence of preemption points at source-line granularity) and distinct series of parses"
ASSUMES = ["each concurrent parse has its own target graph", "preemption at source lines of pymantic and at stream reads (scheduled runs), anywhere in free-running stress"]
COUNT = {"quick": 700, "thorough": 16000}
MIN_EVENTS = {"oracle:evaluations": 6000, "parses": 1250, "blank nodes": 6000, "switches": 3000, "scheduled runs": 70, "free runs": 17, "parses that failed half-way": 60, "parses:nt": 300, "parses:nq": 250, "parses:ttl": 300, "parses:jld": 150}
SRC = os.path.join(REPO, "src", "pymantic") + os.sep
FMTS = ["nt", "nt", "nq", "ttl", "ttl", "jld"]


class Job:
    """One document, the statements it denotes, and a way to parse it."""

    def __init__(self, rng, fmt=None, plain_json=False):
        self.fmt = fmt = fmt or rng.choice(FMTS)
        self.opts = None
        self.base = ""
        simple = rng.random() < 0.6
        n, nb = rng.choice([2, 4, 8, 15]), rng.choice([1, 2, 3, 5, 9])
        if fmt in ("nt", "nq"):
            st = gen.graph(rng, n=n, nb=nb)
            if fmt == "nq":
                st = quads_of(rng, st)
            self.want = st
            self.doc = linegen.document(rng, gen.shuffled(rng, st), eol="\n", labels=linegen.Labels(rng, simple=simple))
        elif fmt == "ttl":
            if rng.random() < 0.5:
                d = ttlgen.random_doc(rng, n=rng.choice([1, 2, 4]), depth=rng.choice([1, 2]))
            else:
                d = ttlgen.spell_graph(rng, gen.graph(rng, n=n, nb=nb))
            self.doc, self.want, self.base = d.text(), d.triples, d.start_base
        else:
            self.doc, self.opts, self.want, _ = jldgen.document(rng, jldgen.quads(rng, n=n), plain=plain_json)
        self.want = map_terms(self.want, merge_string)
        self.how = rng.choice(["text", "bytes", "stream", "lines"])

    def target(self):
        return Dataset() if self.fmt in ("nq", "jld") else Graph()

    def parse(self, g, hook=None):
        p = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser}.get(self.fmt)
        if self.fmt == "jld":
            return jsonld_parser.parse_json(self.doc, sink=g, options=self.opts)
        kw = {"base": self.base} if self.fmt == "ttl" else {}
        if hook:
            return p.parse(Hooked(self.doc, hook), g, **kw)
        if self.how == "bytes":
            return p.parse_string(self.doc.encode("utf-8"), g, **kw)
        if self.how == "stream":
            return p.parse(io.StringIO(self.doc, newline="\n"), g, **kw)
        if self.how == "lines":
            return p.parse(LineStream(self.doc), g, **kw)
        return p.parse(self.doc, g, **kw)


class Hooked(io.TextIOBase):
    """A stream that is a preemption point at every read."""

    def __init__(self, text, hook):
        super().__init__()
        self.f, self.hook = io.StringIO(text, newline="\n"), hook

    def readline(self, size=-1):
        self.hook()
        return self.f.readline(size)

    def read(self, n=-1):
        self.hook()
        return self.f.read(n)


def nodes(g):
    return {id(t): t for s in g for t in s if isinstance(t, BlankNode)}


def check(ctx, job, g, what):
    got = map_terms(Reader().stmts(g, ctx, what), merge_string)
    ctx.expect(isomorphic(got, job.want), lambda: "%s: a %s document gave other statements than it denotes\n-- document:\n%s\n-- denotes:\n%s\n-- got:\n%s" % (what, job.fmt, str(job.doc)[:3000], show(job.want)[:2500], show(got)[:2500]), str(job.doc))
    ctx.ev("parses")
    ctx.ev("parses:" + job.fmt)
    ctx.ev("blank nodes", len(bnodes(job.want)))


def disjoint(ctx, graphs, what):
    """Nodes of different parses are different, by identity, equality and label."""
    seen, labels = {}, {}
    for k, ns in enumerate(graphs):
        for i, n in ns.items():
            ctx.expect(i not in seen, lambda: "%s: parses %d and %d share a blank node" % (what, seen[i], k))
            ctx.expect(n.toNT() not in labels, lambda: "%s: nodes of parses %d and %d have the same label" % (what, labels[n.toNT()], k))
        for i, n in ns.items():
            seen[i] = k
            labels[n.toNT()] = k
    every = [n for ns in graphs for n in ns.values()]
    ctx.expect(len(set(every)) == len(every), "%s: nodes of different parses are equal" % what)


class Full:
    """A target that refuses statements after the first few."""

    def __init__(self, g, room):
        self.seen = []
        base = type(g)

        class Limited(base):
            def add(me, s):
                if len(self.seen) >= room:
                    raise MemoryError("the target is full")
                self.seen.append(s)
                return base.add(me, s)

        self.g = Limited()

    def taken(self):
        return self.seen


BAD = {"nt": "_:a <http://e/p> _:b .\n_:a <http://e/p> oops .\n", "nq": "_:a <http://e/p> _:b <http://e/g> .\n_:a <http://e/p> oops .\n", "ttl": "_:a <http://e/p> _:b, [ <http://e/p> nope:x ] ."}
BADP = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser}


def series(ctx, i):
    """A series of parses in one thread; same documents and targets recur."""
    rng = ctx.rng
    pool = [Job(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    shared = {w: (Dataset() if w == 4 else Graph()) for w in (3, 4)}
    seen = {3: {}, 4: {}}
    counts = {3: 0, 4: 0}
    done, names, keep = [], [], []
    for _ in range(rng.randrange(2, 9)):
        if rng.random() < 0.1:
            f = rng.choice(list(BAD))
            doc = BAD[f] if rng.random() < 0.5 else io.StringIO(BAD[f])
            ctx.raises(f, Exception, BADP[f].parse, doc, Graph() if f != "nq" else Dataset())
            names.append("bad " + f)
            continue
        job = rng.choice(pool)
        if rng.random() < 0.2:
            # this document again, but the parse fails half-way
            broken = Full(job.target(), rng.randrange(0, len(job.want) + 2))
            tail = rng.random() < 0.6 and job.fmt in ("nt", "nq", "ttl")
            try:
                if tail:
                    p = BADP[job.fmt]
                    doc = job.doc + ("" if job.doc.endswith("\n") or not job.doc else "\n") + "oops oops\n"
                    kw = {"base": job.base} if job.fmt == "ttl" else {}
                    p.parse(rng.choice([io.StringIO(doc, newline="\n"), LineStream(doc), doc]), broken.g, **kw)
                else:
                    job.parse(broken.g)
            except Exception:
                ctx.ev("parses that failed half-way")
            names.append("half " + job.fmt)
            done.append(nodes(broken.taken()))
            keep.append(broken)
            continue
        names.append(job.fmt + job.how)
        w = 4 if job.fmt in ("nq", "jld") else 3
        if rng.random() < 0.4:
            # into a target that holds the nodes of earlier parses
            g = shared[w]
            before = set(g)
            ctx.call(job.fmt, job.parse, g)
            new = set(g) - before
            ctx.expect(before <= set(g), "parsing removed statements of the target")
            # ground statements may have been there already
            got = map_terms(Reader().stmts(new), merge_string)
            old = map_terms(Reader().stmts(before), merge_string)
            fresh = {s for s in job.want if bnodes([s])}
            ctx.expect(isomorphic({s for s in got if bnodes([s])}, fresh), lambda: "a second parse into one graph did not add its own blank nodes\n-- document:\n%s\n-- added:\n%s" % (job.doc, show(got)))
            ctx.expect({s for s in job.want if not bnodes([s])} <= got | old, "statements missing from the target")
            mine = {id(t): t for s in new for t in s if isinstance(t, BlankNode)}
            ctx.ev("parses")
            ctx.ev("parses:" + job.fmt)
            ctx.ev("blank nodes", len(mine))
        else:
            r = ctx.call(job.fmt, job.parse, job.target() if rng.random() < 0.5 or job.fmt == "nq" else None)
            check(ctx, job, r, "parse %d of a series" % len(done))
            mine = nodes(r)
        done.append(mine)
    disjoint(ctx, done, "series")
    ctx.sig("series", names, [len(d) for d in done])


def threads(ctx, i, free):
    rng = ctx.rng
    n = rng.choice([2, 2, 3, 4]) if not free else rng.choice([3, 4, 8])
    r = rng.random()
    if r < 0.35:  # everybody parses the same document
        job = Job(rng, plain_json=free)
        plans = [[job] * rng.choice([1, 2]) for _ in range(n)]
    elif r < 0.6:  # one parser, different documents
        f = rng.choice(["nt", "nq", "ttl", "jld"])
        plans = [[Job(rng, f, plain_json=free) for _ in range(rng.choice([1, 2]))] for _ in range(n)]
    else:
        plans = [[Job(rng, plain_json=free) for _ in range(rng.choice([1, 2, 3]))] for _ in range(n)]
    if free:
        plans = [pl * 4 for pl in plans]
    s = None if free else sched.Sched(rng, [SRC], rng.choice([0.01, 0.05, 0.2, 0.6]))

    def make(k, plan):
        def go():
            out = []
            for job in plan:
                g = job.target()
                hook = (lambda: s.step(k, "read")) if s and job.how in ("stream", "lines") else None
                out.append(job.parse(g, hook))
            return out
        return go

    fns = [make(k, pl) for k, pl in enumerate(plans)]
    ctx.log("threads", [[(j.fmt, j.how) for j in pl] for pl in plans])
    for pl in plans:
        for j in pl:
            ctx.log("document", j.doc)
    out, stuck = sched.free_run(fns) if free else s.run(fns)
    if stuck:
        ctx.stuck("threads %r never finished" % stuck)
    what = "free-running threads" if free else "interleaved threads"
    for k, (val, exc) in enumerate(out):
        if exc is not None:
            import traceback
            ctx.fail("%s: a parse that succeeds alone raised %s: %s\n%s" % (what, type(exc).__name__, exc, "".join(traceback.format_exception(exc))[-1500:]))
    all_nodes = []
    for pl, (val, _) in zip(plans, out):
        for job, g in zip(pl, val):
            check(ctx, job, g, what)
            all_nodes.append(nodes(g))
    disjoint(ctx, all_nodes, what)
    if free:
        ctx.ev("free runs")
        ctx.sig("free", n, [[j.fmt for j in pl] for pl in plans])
    else:
        ctx.ev("scheduled runs")
        ctx.ev("switches", s.switches)
        ctx.ev("preemption points", s.steps)
        ctx.ev("stalls", s.stalls)
        ctx.sig("schedule", s.schedule)


def many_labels(ctx, key):
    """Thousands of labels in one document; the same labels in the next parses."""
    fmt, n = key
    p = "http://e/p"
    if fmt == "jld":
        doc = [{"@id": "_:l%d" % k, p: {"@id": "_:l%d" % (k * 7 % n)}} for k in range(n)]
    else:
        doc = "".join("_:l%d <%s> _:l%d %s.\n" % (k, p, k * 7 % n, "_:g%d " % (k % 13) if fmt == "nq" else "") for k in range(n))
    done = []
    for how in ("text", "stream", "lines", "text"):
        job = Job.__new__(Job)
        job.fmt, job.doc, job.opts, job.base, job.how = fmt, doc, None, "", how
        g = job.target()
        ctx.call(fmt, job.parse, g)
        ctx.same(len(g), n, "statements of a document with %d labels" % n)
        own = {t.subject for t in g}
        ctx.same(len(own), n, "nodes of a document with %d labels" % n)
        graphs = len({q.graph for q in g}) if fmt == "nq" else 0
        ctx.same(graphs, min(n, 13) if fmt == "nq" else 0, "nodes that name graphs")
        after = {t.subject: t.object for t in g}
        ctx.same(set(after.values()), own if n % 7 else set(after.values()), "nodes used as objects")
        # the step k -> 7k is a permutation with the cycles of multiplication by 7
        lengths = []
        rest = set(own)
        while rest:
            x = first = rest.pop()
            k = 1
            while after[x] is not first:
                x = after[x]
                rest.discard(x)
                k += 1
            lengths.append(k)
        want, rest = [], set(range(n))
        while rest:
            x = first = rest.pop()
            k = 1
            while x * 7 % n != first:
                x = x * 7 % n
                rest.discard(x)
                k += 1
            want.append(k)
        ctx.same(sorted(lengths), sorted(want), "cycles of nodes")
        done.append(nodes(g))
        ctx.ev("blank nodes", n)
        ctx.ev("parses")
        ctx.ev("parses:" + fmt)
    disjoint(ctx, done, "documents with many labels")
    ctx.sig("many labels", key)


many_labels.keys = lambda tier: [(f, n) for f in ("nt", "nq", "ttl", "jld") for n in ((11, 520, 2050) if tier == "quick" else (11, 520, 2050, 20002)) if f != "jld" or n < 5000]
SWEEPS = [many_labels]


def case(ctx, i):
    if i % 10 == 9:
        threads(ctx, i, True)
    elif i % 2:
        threads(ctx, i, False)
    else:
        series(ctx, i)


def generators_interleaved(ctx):
    """A parse started while another thread's parse is half-way through its stream."""
    import threading
    for f, p, tail in (("nt", ntriples_parser, ""), ("nq", nquads_parser, " <http://e/g>")):
        for cut in range(0, 4):
            a_at, b_done = threading.Event(), threading.Event()

            class S(io.TextIOBase):
                n = 0

                def readline(self, size=-1):
                    if self.n == cut:
                        a_at.set()
                        b_done.wait(3)
                    self.n += 1
                    return "_:x <http://e/p> \"%d\"%s .\n" % (self.n, tail) if self.n <= 4 else ""

                def read(self, n=-1):
                    return "".join(self)

            res = {}
            mk = Dataset if f == "nq" else Graph

            def run_a():
                try:
                    res["a"] = p.parse(S(), mk())
                except BaseException as e:
                    res["a"] = e

            t = threading.Thread(target=run_a, daemon=True)
            t.start()
            ctx.expect(a_at.wait(60), "the stream was never read")
            res["b"] = p.parse("_:x <http://e/p> \"b\"%s .\n_:y <http://e/p> \"b\"%s .\n" % (tail, tail), mk())
            b_done.set()
            t.join(60)
            ctx.expect(not isinstance(res.get("a"), BaseException), lambda: "a parse failed because another ran meanwhile: %r" % (res.get("a"),))
            a, b = nodes(res["a"]), nodes(res["b"])
            ctx.same((len(a), len(res["a"]), len(b), len(res["b"])), (1, 4, 2, 2), "nodes and statements of two overlapping parses")
            disjoint(ctx, [a, b], "overlapping parses")
            ctx.sig("overlap", f, cut)


ALIKE = ["a", "A", "a1", "a01", "a001", "1", "01", "001", "10", "0", "00", "fi", "\ufb01", "FI", "\u00e9", "e\u0301", "\u00c9", "k", "K", "\u212a", "s", "\u017f", "ss", "\u00df", "SS", "\uff41", "\uff21", "\u0430", "\u0410", "i", "I", "\u0131", "\u0130", "a\u200d", "a\u200c", "a\u00b7", "a-", "a_", "_a", "a.b", "a..b", "ab", "a-b", "a_b", "b0", "b1", "b00", "B0", "genid1", "o\u03c3", "o\u03c2", "O\u03a3", "\u03a9", "\u2126", "\u00c5", "\u212b", "A\u030a", "\U00010400", "\U00010428", "x" * 40, "x" * 41, "x" * 300, "x" * 301, "x" * 300 + "y", "y" + "x" * 300, "nil", "None", "true", "a\u0387", "null"]


def alike_labels(ctx):
    """Labels that differ in case, zeros, composition, punctuation or length name different nodes."""
    P = "http://e/p"
    for fmt in ("nt", "nq", "ttl", "jld"):
        labels = ALIKE
        if fmt == "jld":
            doc = [{"@id": "_:" + x, P: [str(k), str(k) + "again"]} for k, x in enumerate(labels)]
            got = [(q.subject, q.object) for q in ctx.call("parse_json", jsonld_parser.parse_json, doc)]
        else:
            lines = ["_:%s <%s> \"%d%s\" .\n" % (x, P, k, again) for again in ("", "again") for k, x in enumerate(labels)]
            text = "".join(lines)
            real = {"nt": ntriples_parser.parse, "nq": nquads_parser.parse, "ttl": turtle_parser.parse}[fmt]
            got = [(t.subject, t.object) for t in ctx.call("parse", real, text)]
        ctx.same(len(got), 2 * len(labels), "statements in %s" % fmt)
        by = {}
        for node, value in got:
            by.setdefault(value.value.replace("again", ""), set()).add(node)
        ctx.expect(all(len(v) == 1 for v in by.values()), lambda: "one label names several nodes in %s: %r" % (fmt, [labels[int(k)] for k, v in by.items() if len(v) > 1]))
        seen = {}
        for k, v in by.items():
            n = next(iter(v))
            ctx.expect(n not in seen, lambda: "%s: labels %r and %r name one node" % (fmt, labels[int(k)], labels[int(seen[n])]))
            seen[n] = k
        ctx.ev("labels that are alike", len(labels))
    ctx.sig("alike labels")


FIXED = [generators_interleaved, alike_labels]
