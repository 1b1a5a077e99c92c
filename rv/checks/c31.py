"""C31: N-Triples and N-Quads streams are parsed as they are read."""
import gc
import io
import tracemalloc

from pymantic.parsers import nquads_parser, ntriples_parser
from pymantic.primitives import Dataset, Graph


RULE = "distinct (format, kind of stream, size, ending, how far the target lagged) combinations"
ASSUMES = ["how many lines a parser may read ahead is not fixed: at most 1000 are accepted", "statements with blank nodes need their labels kept, so the memory runs use IRIs and literals only"]
COUNT = {"quick": 240, "thorough": 1600}
MIN_EVENTS = {"oracle:evaluations": 40000, "reads observed": 40000, "streams": 60, "endless streams": 12, "failing streams": 20, "memory runs": 1}
AHEAD = 1000


class Boom(Exception):
    pass


class Stream(io.TextIOBase):
    """A readable text stream made line by line, which looks at the target at every read."""

    def __init__(self, ctx, lines, sink, style):
        super().__init__()
        self.ctx, self.lines, self.sink, self.style = ctx, lines, sink, style
        self.given = 0   # statements handed out so far
        self.lag = 0     # the most that were handed out and not yet in the target

    def readline(self, size=-1):
        self.look()
        x = next(self.lines, None)
        if x is None:
            return ""
        self.given += x[1]
        return x[0]

    def look(self):
        self.ctx.ev("reads observed")
        self.ctx.w.counters["oracle:evaluations"] = self.ctx.w.counters.get("oracle:evaluations", 0) + 1
        lag = self.given - len(self.sink)
        self.lag = max(self.lag, lag)
        if lag > AHEAD:
            self.ctx.fail("%d statements were read from the stream and only %d of them are in the target when more is read" % (self.given, len(self.sink)))

    def read(self, n=-1):
        out = []
        while True:
            x = self.readline()
            if not x:
                return "".join(out)
            out.append(x)
            if 0 <= n <= sum(map(len, out)):
                return "".join(out)


class TextIO(io.TextIOBase):
    """The same as a proper io object."""

    def __init__(self, inner):
        self.inner = inner

    def readable(self):
        return True

    def readline(self, size=-1):
        return self.inner.readline()

    def read(self, n=-1):
        return self.inner.read(n)


class Counting(Graph):
    """A target that keeps nothing."""

    def __init__(self):
        Graph.__init__(self)
        self.n = 0

    def add(self, t):
        self.n += 1
        return self

    def addAll(self, ts):
        for t in ts:
            self.n += 1
        return self

    def __len__(self):
        return self.n


def numbered(rng, quads, n, blank=True):
    """Lines with the number of statements each adds; all statements are different."""
    k = 0
    while n is None or k < n:
        r = rng.random()
        if r < 0.05:
            yield rng.choice(["\n", "   \n", "# comment\n", "\t# <a> <b> <c> .\n", "\r\n"]), 0
            continue
        g = rng.choice(["", " <http://e/g%d>" % (k % 3), " _:g" if blank else ""]) if quads else ""
        s = "_:b%d" % (k % 7) if blank and k % 5 == 0 else "<http://e/s%d>" % (k % 11)
        yield "%s <http://e/p%d> %s%s .%s" % (s, k % 3, '"%d\\n"@en' % k if k % 2 else "<http://e/o%d>" % k, g, rng.choice(["\n", "\n", " # c\n", "\r\n"])), 1
        k += 1


def case(ctx, i):
    rng = ctx.rng
    quads = bool(i % 2)
    p = nquads_parser if quads else ntriples_parser
    sink = Dataset() if quads else Graph()
    style = rng.choice(["plain", "textio"])
    how = ("whole", "whole", "endless", "fails", "malformed")[i // 2 % 5]
    n = rng.choice([1, 3, 50, 400, 1300, 2500])
    lines = numbered(rng, quads, None if how == "endless" else n)
    ctx.ev("streams")
    if how == "endless":
        ctx.ev("endless streams")
        n = rng.choice([10, 200, 1500])

        def until(lines):
            for x in lines:
                if len(sink) >= n:
                    raise Boom  # enough has arrived; the stream itself would go on for ever
                yield x

        lines = until(lines)
    elif how == "fails":
        ctx.ev("failing streams")

        def then(lines):
            yield from lines
            raise Boom

        lines = then(lines)
    elif how == "malformed":
        ctx.ev("failing streams")

        def broken(lines):
            yield from lines
            yield "<http://e/s> <http://e/p> nonsense .\n", 0

        lines = broken(lines)
    st = Stream(ctx, lines, sink, style)
    f = st if style == "plain" else TextIO(st)
    if how == "whole":
        r = ctx.call("parse", p.parse, f, sink)
        ctx.expect(r is sink, "parse gave %r" % (r,))
        ctx.same(len(sink), n, "statements parsed from a stream of %d" % n)
    elif how == "malformed":
        ctx.raises("parse", Exception, p.parse, f, sink)
    else:
        ctx.raises("parse", Boom, p.parse, f, sink)
        if how == "endless":
            ctx.expect(len(sink) >= n, "only %d statements arrived" % len(sink))
        else:
            ctx.expect(st.given - len(sink) <= AHEAD, lambda: "%d statements were read before the stream failed, %d are in the target" % (st.given, len(sink)))
    st.look()
    # the next stream on the same parser is not affected
    later = ctx.call("parse", p.parse, io.StringIO("<http://e/z> <http://e/z> <http://e/z> .\n"), Dataset() if quads else Graph())
    ctx.same(len(later), 1, "a later parse")
    ctx.sig(quads, style, how, n, st.lag)
    ctx.sample("%s %s %s: %d statements, at most %d read but not yet in the target" % ("nq" if quads else "nt", style, how, st.given, st.lag))


def memory(ctx, key):
    """A long stream into a target that keeps nothing takes no more memory than a short one."""
    quads, size = key
    p = nquads_parser if quads else ntriples_parser
    text = "x" * 300

    def lines(n):
        for k in range(n):
            yield "<http://e/s%d> <http://e/p> \"%d%s\"%s .\n" % (k, k, text, " <http://e/g>" if quads else ""), 1

    def peak(n):
        sink = Counting()
        st = Stream(ctx, lines(n), sink, "plain")
        gc.collect()
        tracemalloc.start()
        try:
            ctx.call("parse", p.parse, st, sink)
            return tracemalloc.get_traced_memory()[1]
        finally:
            tracemalloc.stop()
            ctx.same(sink.n, n, "statements parsed")

    peak(50)
    short, long = peak(AHEAD), peak(AHEAD + size)
    ctx.ev("memory runs")
    # keeping the lines alone would take 340 bytes each
    ctx.expect(long - short < 170 * size, lambda: "parsing a stream of %d lines took %d bytes, one of %d lines %d bytes, with a target that keeps nothing" % (AHEAD, short, AHEAD + size, long))
    ctx.sig("memory", key)


memory.keys = lambda tier: [(False, 4000), (True, 4000), (False, 9000), (True, 9000)] + ([(False, 60000), (True, 60000)] if tier == "thorough" else [])
SWEEPS = [memory]
