#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks there are."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": ("online monitor comparing every observation of a graph with a reference set along random and exhaustive small histories", "Every add/remove history explored is compared in full (membership, length, iteration, array) after each step; histories are sampled, plus all histories up to a small length over a small universe."),
    "C02": ("online monitor comparing match results, as multisets, with a filter over the reference set", "All wildcard shapes over terms that are equal, similar or easily confused, also while the graph is mutated; sampled graphs and histories."),
    "C03": ("online monitor comparing listings with the reference set along add/remove histories", "Sampled and small exhaustive histories."),
    "C04": ("differential monitor: bulk operation against its triple-by-triple meaning on a twin", "Sampled graphs, sources (lists, generators, graphs, the graph itself) and patterns."),
    "C05": ("online monitor comparing datasets with a reference map from name to set along histories", "Sampled histories of quads, graphs, removals and queries, including failed operations."),
    "C06": ("round-trip oracle: isomorphism of what was written and what is read back", "Sweeps every code point in literals; hostile graphs sampled; all input forms of the parser."),
    "C07": ("round-trip oracle: isomorphism of datasets written and read back", "As C06, with default, IRI-named and blank-node-named graphs."),
    "C08": ("monitor on the output stream: an independent strict reader must accept it and read the same data", "The strict readers follow the N-Triples/N-Quads grammars; line-level, character-level and label checks on sampled output."),
    "C09": ("reference speller: documents generated from known statements, the parse result compared up to blank-node renaming", "Every construct and escape form of the grammar is generated, in every input form; sampled documents."),
    "C10": ("two independent oracles: a generator that knows what its document denotes, and a strict reference Turtle reader", "Sampled documents over every production of the grammar, nested to bounded depth."),
    "C11": ("trace oracle over directive/use sequences, with a reference RFC 3986 resolver", "Every reference shape against every base shape is swept; interleavings of directives sampled."),
    "C12": ("round-trip oracle with three readers: a strict reference reader, pymantic, rdflib", "Sampled graphs, profiles and bases; lists of every regular and irregular shape."),
    "C13": ("fault injection into documents, monitor on result and side effects", "Documents with one injected defect must be refused with the parser usable afterwards and the target holding nothing from after the defect; classification by strict reference grammars."),
    "C14": ("concurrency monitor: token scheduler preempting at source lines, free-running stress, and serial series; blank-node identity checked against the reference documents", "Distinct schedules are counted in the evidence; preemption only at source lines of pymantic and at stream reads under the scheduler."),
    "C15": ("reference speller for JSON-LD: result compared with the quads a document was generated to denote", "Embedded contexts only; PyLD's expansion is part of what is run."),
    "C16": ("algebraic oracle (inverse laws, longest match) over prefix maps and IRIs", "Sampled prefix maps with nested and recurring namespaces; every registered scheme swept."),
    "C17": ("online monitor comparing profiles and maps with reference dictionaries along histories", "Sampled histories of merges, copies and changes, including aliasing."),
    "C18": ("online monitor comparing reads, tests and deletions with reference selection over the same graph", "Sampled prior contents, filters and keys; graph elsewhere compared after each operation."),
    "C19": ("state monitor: graph before and after every assignment compared with the documented replacement rule", "Sampled prior contents, filters and values; refused assignments must leave the graph untouched."),
    "C20": ("online monitor over histories of class registration and classification", "Sampled class hierarchies and type sets; registrations after first use included."),
    "C21": ("online monitor over list traversals, including lists changed between steps and ill-formed lists", "Sampled list contents, all member kinds."),
    "C22": ("state monitor: graph before and after create/copy/erase/find compared with the exact triple change", "Sampled graphs and resources."),
    "C23": ("algebraic oracle (idempotence, decoding to the same octets) with a reference percent-decoder", "Sweeps every code point and octet; sampled IRIs."),
    "C24": ("algebraic oracle over pairs and copies of terms, across hash seeds and processes", "All pairs in pools of confusable terms; pickled in other processes too."),
    "C25": ("trace monitor on a recording HTTP server, with scheduled and free-running concurrent calls", "Every configuration and call form; sampled texts; loopback only."),
    "C26": ("fault injection by a scripted HTTP server, outcome compared with the documented rule", "Every status code 200-599 except redirects; sampled bodies and types; dropped connections."),
    "C27": ("history monitor on a conforming in-memory graph store, with injected errors", "Store state compared with the model after every call; sampled graph IRIs and contents, loopback only."),
    "C28": ("algebraic oracle: set difference and application over reference statements", "Sampled pairs of graphs, with confusable statements, and exclusion lists."),
    "C29": ("online monitor over declared class hierarchies, compared with a reference combination rule", "Sampled hierarchies; declared classes are re-observed after each later declaration."),
    "C30": ("differential and round-trip oracle over chains of syntaxes", "Sampled data and chains up to 8 steps."),
    "C31": ("online monitor inside the input stream: compares what was read with what is in the target at every read; memory observed with tracemalloc", "Streams up to 2500 statements with endings of every kind; memory runs up to 10000 lines (thorough 61000)."),
    "C32": ("liveness monitor: weak references to every object involved, checked after full collections; growth measured over repeated rounds", "Sampled histories and documents; CPython's collector; one long-lived parser thread."),
    "C33": ("work counter on executed events (sys.monitoring) and term comparisons, compared between sizes; CPU clock with wide margins for C code", "Sizes 30 against 1500 (events), 300 against 40000 (clock), documents n against 16 n."),
    "C34": ("loopback HTTPS servers with trusted, untrusted, expired and misnamed certificates as request monitors, against a trust table per option and environment", "Six server certificates, nine option values, up to four clients at once, one redirection."),
    "C35": ("order checker on the tokens of the output, and differential monitor of texts between repeated writes, rebuilt graphs and processes with other hash seeds", "Graphs of up to 80 statements; 12 hash seeds (quick), 28 (thorough)."),
    "C36": ("controlled line-level scheduler and free-running stress, each thread's results judged against the same operations alone on an equal graph (classification against the rules)", "2 to 4 scheduled or 4 to 8 free threads; preemption at source lines of pymantic."),
    "C37": ("fault injection (wrong arguments, failing iterators, writers and label generators) with a model monitor over every pattern and listing after each exception", "Histories of up to 25 operations; faults at any item of an iterator and any of the first writes."),
    "C38": ("interpreter audit hook around every call, and snapshot monitors of arguments, streams, output, open files and process settings", "Calls through the public API with hostile data; lxml's own file access is observed by its results and by a server only."),
    "C39": ("the other monitors' oracles run in processes under 36 settings, a failure being compared with the ordinary setting", "36 settings; per setting 14 (or 3) cases of each of 32 checks, thorough 12 times as many."),
    "C40": ("fault injection at source lines (sys.settrace), exhausted recursion, failing sources and abandoned iterators, each followed by differential comparison with results computed in a forked process where nothing was interrupted", "every line (up to 60 places, thorough 400) of 34 operations and of each kind of request, 24 first uses in a process, about 450 histories of 1 to 5 interruptions; thorough: 60 times as many."),
    "C41": ("operations run from within the callbacks and iterations of others, both compared with the same operations apart and with the documents' known contents", "about 4000 nestings of depth 1 or 2, up to 6 inner operations each; thorough 120000."),
    "C42": ("histories over originals, deep copies and pickled copies (unpickled here, or by an interpreter with another hash seed that observes, changes and returns them), each tracked by a reference model of its own; sizes in sweeps", "about 12000 histories with chains of up to 3 copies; graphs up to 400 nodes in a ring (thorough 200000, 5000)."),
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "rv", "checks", p.lower() + ".py")):
        t, n = NOTES[p]
        checks.append({
            "property": p,
            "quick_cmd": "/opt/venv/bin/python rv/run.py %s quick" % p,
            "thorough_cmd": "/opt/venv/bin/python rv/run.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "runtime monitoring: " + t,
            "level": "exploration",
            "level_note": n + " Trusts the reference models under rv/ and CPython.",
        })
    else:
        na.append({"property": p, "reason": "no check"})
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -m compileall -q rv",
    "hooks": {"guard": "none (no instrumentation was added to /repo; monitors observe the public API, sys.settrace/sys.monitoring and the wire)", "enable": "nothing to enable", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Pure Python library: every check imports pymantic from /repo/src as it is in the working tree; there is nothing to build.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
