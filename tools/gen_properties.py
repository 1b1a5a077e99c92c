"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os

PR = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    PR.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


PRIM = "src/pymantic/primitives.py"
SER = "src/pymantic/serializers.py"
UTIL = "src/pymantic/util.py"
RDF = "src/pymantic/rdf.py"
SPARQL = "src/pymantic/sparql.py"
PBASE = "src/pymantic/parsers/base.py"
LBASE = "src/pymantic/parsers/lark/base.py"
NT = "src/pymantic/parsers/lark/ntriples.py"
NQ = "src/pymantic/parsers/lark/nquads.py"
TTL = "src/pymantic/parsers/lark/turtle.py"
JLD = "src/pymantic/parsers/jsonld.py"
SKOS = "src/pymantic/vocab/skos.py"

p("C01", "A graph is exactly the set of triples its history added and not removed",
  "After any sequence of additions and removals of single triples, a graph contains exactly the triples added and not since removed: membership, length, iteration and the array form all agree, and no triple is ever reported twice. Adding a triple that is already present changes nothing; removing one that is absent raises KeyError and changes nothing. Add and remove return the graph itself.",
  ["histories", "inputs"], "every finite history of add/remove over triples with IRI, blank-node and literal terms, including re-adding after removal and failed removals",
  "The tests add or remove one triple, or bulk-add random ones; no test interleaves removals, re-additions and failing removals.",
  [PRIM], [("triple set plus three nested indexes updated together", PRIM + ":Graph.add/remove")],
  [("_triples/_spo/_pos/_osp", "the set and its three indexes", PRIM + ":Graph.__init__")],
  ["Graph.add, remove, __contains__, __len__, __iter__, toArray"])

p("C02", "Pattern matching returns exactly the matching triples, once each",
  "For each of the eight combinations of given and omitted subject, predicate and object, matching a graph returns exactly the triples currently in the graph whose given positions equal the given terms, each exactly once, at every point of the graph's history. Only an omitted (None) position is a wildcard: every actual term, including the empty relative IRI, is compared by equality. Matching never changes the graph.",
  ["histories", "inputs"], "every graph reachable by adds and removes, every pattern over present and absent terms in every position",
  "Each pattern is tested against a one-triple graph, once, with a term that is present; no test checks absence, multiplicity, or matching after removals.",
  [PRIM], [("index chosen per pattern shape", PRIM + ":Graph.match")], [],
  ["Graph.match"])

p("C03", "Subject, predicate and object listings reflect the current triples only",
  "The subjects, predicates and objects a graph lists are exactly the distinct terms occurring in that position in the triples it currently holds, without duplicates. A term whose last triple was removed is no longer listed, and looking something up never makes a term appear.",
  ["histories"], "every history of additions, removals and look-ups",
  "No test calls subjects(), predicates() or objects() directly, and none after a removal.",
  [PRIM, SER], [("index keys are the listings", PRIM + ":Graph.subjects/predicates/objects"), ("index pruning on removal", PRIM + ":Graph.remove")], [],
  ["Graph.subjects, predicates, objects"])

p("C04", "Bulk graph operations equal their triple-by-triple meaning",
  "Importing triples or another graph into a graph yields the union; removing by pattern removes exactly the triples that match the pattern and no others; merging two graphs, or creating a graph from triples, yields a new graph holding exactly the union. The inputs of a bulk operation are left unchanged, and the result shares no state with them: later changes to one are invisible in the other.",
  ["histories", "inputs"], "every pair of graphs, every pattern, and every later mutation of operands or result",
  "Bulk removal, merge and createGraph are not called by any test.",
  [PRIM], [("loops over add/remove", PRIM + ":Graph.addAll/removeMatches/merge, RDFEnvironment.createGraph")], [],
  ["Graph.addAll, removeMatches, merge; RDFEnvironment.createGraph"])

p("C05", "A dataset is exactly a set of quads partitioned by graph name",
  "After any sequence of adding and removing quads (singly, in bulk, by pattern) and of adding and removing whole named graphs, a dataset contains exactly the resulting quads: membership of quads and of triples, length, iteration, and matching by any combination of subject, predicate, object and graph name agree with that set, each quad reported once with its own graph name. Identical triples in different graphs stay independent; a Graph object added to it, or listed by it, stays its graph of that name until it is removed or replaced, also when emptied, so that changing the graph changes the dataset. Queries, and failed removals, change nothing: in particular they create no graph.",
  ["histories", "inputs"], "every history of dataset operations, including default-graph (None) quads, unknown graph names and removal of absent quads (KeyError)",
  "Dataset tests add quads and probe one pattern; remove-by-pattern, remove_graph, unknown graphs and shared triples across graphs are not exercised.",
  [PRIM], [("one graph per name", PRIM + ":Dataset")], [("_graphs", "graph name to graph", PRIM + ":Dataset.__init__")],
  ["Dataset.add, remove, addAll, removeMatches, add_graph, remove_graph, match, graphs, __contains__, __iter__, __len__"])

p("C06", "Writing a graph as N-Triples and parsing it back preserves the graph",
  "For every graph of valid RDF triples, serialising it as N-Triples and parsing the result gives an isomorphic graph: the same IRIs, literals with identical text (any Unicode, including control characters, quotes, backslashes and line breaks), language and datatype, and the same blank-node structure. ASCII IRIs come back character for character; non-ASCII characters in IRIs come back at most percent-encoded (UTF-8).",
  ["inputs"], "every graph whose IRIs contain only characters legal in an IRI reference, with arbitrary literal text, language tags and datatypes",
  "One two-triple all-IRI graph is round-tripped.",
  [SER, PRIM, NT, UTIL, LBASE], [("escaping on output", SER + ":nt_escape"), ("term rendering", PRIM + ":Literal.toNT/NamedNode.toNT/BlankNode.toNT"), ("unescaping on input", UTIL + ":decode_literal"), ("grammar and transformer", NT)], [],
  ["serialize_ntriples, ntriples_parser.parse/parse_string"])

p("C07", "Writing a dataset as N-Quads and parsing it back preserves the dataset",
  "For every dataset of valid RDF quads, serialising it as N-Quads and parsing the result into a dataset gives an isomorphic dataset: the same triples, with the same literal text, language and datatype, each in the graph with the same name, default-graph quads staying in the default graph, and blank nodes shared across graphs staying shared.",
  ["inputs"], "every dataset of quads in named graphs and the default graph; IRIs as in C06",
  "No test serialises N-Quads at all.",
  [SER, PRIM, NQ, NT], [("quad rendering", PRIM + ":Quad.__str__"), ("writer", SER + ":serialize_nquads"), ("grammar and transformer", NQ)], [],
  ["serialize_nquads, nquads_parser.parse"])

p("C08", "N-Triples and N-Quads output is valid for any conforming reader",
  "Every statement is written as exactly one line of printable ASCII ending in ' .' and a newline, with one line per distinct statement and nothing else in the output. Each line conforms to the W3C N-Triples (N-Quads) grammar, and an independent reader recovers the same statements. Distinct blank nodes get distinct labels and one blank node keeps one label throughout a document. Characters that no IRI may hold (spaces, controls, <>\"{}|^`\\) are percent-encoded, so that a line stays valid whatever a named node holds.",
  ["inputs"], "every graph and dataset as in C06/C07, and named nodes of any characters but lone surrogates",
  "The tests only read output back with the same library on two IRIs-only triples, which hides any matching pair of writer and reader errors.",
  [SER, PRIM, UTIL], [("escaping", SER + ":nt_escape"), ("IRI quoting", UTIL + ":quote_normalized_iri"), ("labels", PRIM + ":BlankNode.value")], [],
  ["serialize_ntriples, serialize_nquads, Triple/Quad stringification, toNT"])

p("C09", "N-Triples and N-Quads documents parse to exactly the statements written",
  "For every valid N-Triples or N-Quads document, whatever its spacing, blank lines, comments, line endings, escapes, language tags and blank-node labels, parsing yields exactly the statements it denotes, with escapes decoded. The result is the same whether the document is given as text, as bytes or as a readable stream. Statements are added to the target graph on top of what it already held.",
  ["inputs"], "every valid document (RDF 1.1 grammar) and each of the three ways of supplying it",
  "Seven short, uniformly formatted documents are parsed, from streams only, without comments, escapes or blank lines.",
  [NT, NQ, LBASE, UTIL], [("grammars", NT + " grammar"), ("line-by-line reader", LBASE + ":LarkParser.line_by_line_parser"), ("unescaping", UTIL + ":decode_literal")], [],
  ["ntriples_parser, nquads_parser: parse, parse_string"])

p("C10", "Turtle documents parse to exactly the triples they denote",
  "For every valid Turtle document, parsing yields exactly the triples it denotes under the Turtle specification: prefixed names with escapes, all four string quotings, numeric and boolean shorthand, language and datatype annotations, predicate and object lists, nested blank-node property lists and collections in any position, 'a', and comments and whitespace anywhere. Two spellings of the same graph give isomorphic graphs. The result is the same from text, bytes or a readable stream.",
  ["inputs"], "every valid Turtle document",
  "The W3C suite exercises each construct once, mostly in isolation, and compares blank nodes only by dropping them; combinations and nesting are hardly sampled.",
  [TTL, UTIL, PBASE], [("grammar", TTL + " grammar"), ("tree to triples", TTL + ":TurtleTransformer, unpack_predicate_object_list"), ("unescaping", UTIL + ":decode_literal")], [],
  ["turtle_parser.parse, parse_string"])

p("C11", "Turtle names resolve against the base and prefixes in force where they occur",
  "Each relative IRI reference denotes its RFC 3986 resolution against the base in force at that point (the caller's base, then each base directive in turn, itself resolved against the previous base); an absolute IRI denotes itself unchanged. Each prefixed name denotes the namespace most recently bound to its prefix before that point, with prefix namespaces themselves resolved when declared. Redefinitions affect only what follows, and nothing declared in one document affects another.",
  ["inputs", "histories"], "every base with a hierarchical http-like scheme, every relative reference, every interleaving of base/prefix declarations (both spellings) and uses, over any series of documents",
  "The W3C suite uses a handful of fixed bases and references; redefinition interleavings and leakage between parses are not sampled.",
  [TTL, UTIL, PBASE], [("resolution", UTIL + ":smart_urljoin"), ("directives", TTL + ":TurtleTransformer.base/prefix_id/sparql_prefix/sparql_base")],
  [("base_iri, prefixes", "base and prefix map in force", TTL + ":TurtleTransformer.__init__")],
  ["turtle_parser.parse(..., base=...)"])

p("C12", "Writing a graph as Turtle and parsing it back preserves the graph",
  "For every graph, and every prefix profile and base IRI given to the serialiser, the Turtle output is a valid document that parses (here and in an independent parser) to an isomorphic graph, a plain literal and an xsd:string literal counting as equal. This includes blank nodes anywhere, literals with any text, language or datatype, local names needing escapes or not expressible as prefixed names, IRIs equal to or extending the base, and RDF lists, whether well-formed, nested, shared, malformed or carrying extra properties.",
  ["inputs", "configurations"], "every graph of valid RDF triples with legal absolute IRIs; every profile with legal prefix names; every absolute base",
  "Five small graphs of IRIs and simple strings are compared with fixed text; blank nodes, escapes, typed literals and non-literal list members never reach the serialiser.",
  [SER, PRIM, RDF], [("term rendering", SER + ":turtle_repr/turtle_string_escape/escape_prefix_local"), ("document layout and lists", SER + ":serialize_turtle"), ("prefix shrinking", PRIM + ":to_curie")], [],
  ["serialize_turtle"])

p("C13", "Malformed input is refused without side effects",
  "A document that violates the grammar of its format (N-Triples, N-Quads or Turtle), or uses an undeclared prefix (rdf and xsd come predeclared) or an IRI with illegal characters, makes parsing raise an exception rather than return a graph. When such a document is supplied as a whole (text or bytes), the target graph is left exactly as it was. Read from a stream, it may have put in statements from before the defect, but nothing the target held is lost. After a failed parse the same parser parses later documents as if the failure had not happened.",
  ["inputs", "fault_sequences"], "every malformed document and every sequence of failing and succeeding parses on the shared parsers",
  "Negative tests cover one-construct Turtle documents only, check only that something is raised, and never look at the target graph or at the parser afterwards.",
  [NT, NQ, TTL, LBASE, PBASE], [("grammars", NT), ("IRI validation", TTL + ":validate_iri"), ("parse before add; cleanup of per-call state", LBASE + ":LarkParser.parse")],
  [("_call_state", "per-call blank-node table", PBASE + ":BaseParser")],
  ["parse, parse_string of every parser"])

p("C14", "Blank-node labels are scoped to one parse, also under concurrency",
  "Within one document every occurrence of a blank-node label denotes the same node, distinct labels denote distinct nodes, and every anonymous node is a fresh one. Nodes from different parses are always different, even for the same document, label, parser or target graph. This holds when several threads use the shared parsers at the same time: each parse yields exactly what it would yield alone.",
  ["inputs", "schedules"], "every document and every interleaving of concurrent parses (N-Triples, N-Quads, Turtle, JSON-LD) in different threads",
  "One test parses one labelled blank node; no test parses twice or uses threads.",
  [PBASE, LBASE, JLD, TTL, PRIM], [("thread-local call state", PBASE + ":BaseParser._call_state/_prepare_parse/_cleanup_parse"), ("identity-based nodes", PRIM + ":BlankNode")],
  [("_call_state.bnodes", "label to node, per thread and call", PBASE)],
  ["ntriples_parser, nquads_parser, turtle_parser, jsonld_parser"])

p("C15", "JSON-LD documents load as exactly the RDF dataset they denote",
  "For every JSON-LD document, loading yields exactly the quads of its JSON-LD to RDF conversion: IRIs, blank nodes (one node per label, in subject, object or graph-name position), typed, language-tagged and native-valued literals, each in its named or the default graph. A literal never carries both a language and a datatype. The same data written in N-Quads loads as an isomorphic dataset, a plain literal and an xsd:string literal counting as equal.",
  ["inputs"], "every JSON-LD document processable offline (embedded contexts only)",
  "One document is loaded and only the number of statements is checked.",
  [JLD, PBASE], [("fragment conversion", JLD + ":PyLDLoader.process_triple_fragment/process_jobj")], [],
  ["jsonld_parser.parse_json"])

p("C16", "CURIEs and IRIs convert into each other without loss",
  "Resolving prefix:reference gives the namespace bound to the prefix followed by the reference (a name without a colon uses the default prefix if there is one); an IRI starting with a registered URI scheme is returned unchanged unless bracketed; an unknown prefix raises ValueError. Shrinking an IRI uses the longest bound namespace that starts it, replaces only that leading part, leaves the IRI unchanged if none matches, and resolving the shrunk form gives back the original IRI. The bracketed form is always treated as a CURIE.",
  ["inputs", "configurations"], "every prefix map and IRI; the inverse law for prefixes that are not themselves registered URI schemes",
  "A dozen literal examples; no test composes shrink with resolve, or has a namespace recur inside an IRI or an empty local part.",
  [PRIM], [("expansion", PRIM + ":parse_curie"), ("shrinking", PRIM + ":to_curie")], [],
  ["parse_curie, parse_curies, to_curie, PrefixMap.resolve/shrink, Resource.resolve"])

p("C17", "Profiles and prefix/term maps merge, resolve and copy predictably",
  "A term resolves to the IRI set for it, else to default vocabulary plus term, else to nothing; shrinking a term's IRI gives a term that resolves to it; a profile resolves names with a colon as CURIEs and others as terms. Importing maps or profiles adds missing entries and replaces existing ones only when override is asked for, leaving the source unchanged. Profiles and maps created from an environment start with its entries (including defaults) and are independent of it: changes on either side are invisible on the other.",
  ["histories", "inputs"], "every history of set/import/create operations over profiles, maps and environments",
  "No test uses TermMap, Profile merging or environment-created profiles beyond setPrefix.",
  [PRIM], [("maps", PRIM + ":PrefixMap/TermMap"), ("profile", PRIM + ":Profile"), ("environment factories", PRIM + ":RDFEnvironment")], [],
  ["PrefixMap, TermMap, Profile, RDFEnvironment"])

p("C18", "Reading, testing and deleting resource properties select the same values",
  "Reading a property selects: without filter all values (for a scalar property, the value in the resource's language, else a resource, else a typed literal, else a plain literal); with a language all literals whose language matches (equal, or one is just the primary subtag of the other, as en and en-us) and, unless scalar, resource references; with a datatype all literals of that datatype and, unless scalar, resource references; with the empty string or xsd:string plain literals without datatype; with a resource class the references classified as it; with None everything. Scalar reads give the one selected value or None (ValueError if several); the containment test holds exactly when something is selected; deletion removes exactly the selected values and nothing else. As text, a resource shows the label so selected, if it is a literal, and otherwise its node.",
  ["inputs", "histories"], "every graph content around the resource, every key and filter, scalar and non-scalar properties",
  "Each filter kind is read on one or two hand-picked value sets; containment and deletion are checked for a few keys.",
  [RDF, PRIM], [("selection", RDF + ":Resource._objects_for_key and objects_by_*"), ("language matching", PRIM + ":lang_match")], [],
  ["Resource.__getitem__, get_scalar, __contains__, __delitem__, objects_by_lang/datatype/type, bare_literals"])

p("C19", "Assigning a resource property replaces exactly the documented values",
  "Assigning without a filter replaces all values of the property; assigning a language-tagged literal to a scalar property keeps only literals in non-matching languages. Assigning with a language, datatype or class filter replaces only the values matching the filter (for language and datatype filters also all resource references), except that on scalar properties a typed literal or resource replaces everything and a language literal replaces the literals matching the filter, typed literals and resources; resource references are acceptable under language and datatype filters. A value that does not fit the filter, or a sequence assigned to a scalar, raises ValueError and leaves the graph unchanged; no other subject or property is ever touched.",
  ["inputs", "histories"], "every prior content, key, filter and value (single or collection; text, numbers, datetimes, literals, nodes, resources)",
  "A few fixed assignment sequences; combinations of prior content, filter and value kind are not sampled, nor is the graph elsewhere compared.",
  [RDF], [("replacement sets", RDF + ":Resource._objects_for_implicit_set/_objects_for_explicit_set"), ("value conversion and checks", RDF + ":literalize/objectify_value/check_objects")], [],
  ["Resource.__setitem__"])

p("C20", "Resources are instantiated as all, and only, their registered classes",
  "Classifying a node gives an object that wraps that graph and node and is an instance of the Python class registered for each of the node's RDF types; with no registered type it is a plain resource; literals and None come back unchanged. It is an instance of no registered class other than those and their Python ancestors. This holds whatever unregistered types are also present, whatever the inheritance among the registered classes (as long as Python can combine them in one class), in any order of registration and classification, and for any earlier classifications.",
  ["histories", "configurations"], "every set of registered classes (with inheritance and one class registered for several types), every type combination, every order of registrations and classifications, every hash seed",
  "At most two unrelated classes and one classification after registration are tested.",
  [RDF], [("registry", RDF + ":MetaResource._classes, register_class"), ("combined classes", RDF + ":Resource.classify")],
  [("MetaResource._classes", "RDF type (or type set) to Python class", RDF)],
  ["Resource.classify, register_class, Resource property access"])

p("C21", "Iterating an RDF list yields its members in order",
  "Iterating over an RDF list resource yields exactly its members, in list order and with repetitions: literals as they are whatever their language or datatype, nodes as classified resources, sub-lists as resources that can be iterated in turn. The empty list yields nothing. A node is recognised as a list cell exactly when it has a rest link.",
  ["inputs"], "every well-formed list (any length and member kinds), built from triples or parsed from any collection syntax",
  "Lists are only iterated in the Turtle manifest loader, whose members are all IRIs.",
  [RDF, TTL], [("iteration", RDF + ":List.__iter__/is_list"), ("collections", TTL + ":TurtleTransformer.collection")], [],
  ["List.__iter__, List.is_list, Resource.as_"])

p("C22", "Creating, copying, erasing and finding resources touch exactly their triples",
  "Creating a resource adds exactly its class's type triples for the given node (a fresh blank node if none is given); erasing removes exactly the triples with that subject; copying adds, for the target subject, one triple per triple of the source and changes nothing else. Viewing a resource as a class gives an instance of exactly that class for the same node and graph and changes nothing. Listing a class's instances in a graph gives exactly the nodes carrying all of the class's types, and the instance test agrees; following a property backwards gives exactly the subjects that refer to the resource. Resources are equal exactly when their subjects are, with consistent hashes, and the resource for an IRI equals that IRI as a node or as text.",
  ["histories", "inputs"], "every graph, node (IRI or blank), class (including combined classes) and history",
  "new, erase, in_graph and object_of are each called on one fixed graph; copy and blank nodes never.",
  [RDF], [("lifecycle", RDF + ":Resource.new/erase/copy/is_a/in_graph/object_of/__eq__/__hash__")], [],
  ["Resource.new, erase, copy, is_a, in_graph, object_of, __iter__, __eq__, __hash__"])

p("C23", "IRI normalisation and quoting are stable and meaning-preserving",
  "Normalising a valid IRI never fails, is idempotent, and gives the same result for IRIs that differ only in hex-digit case of percent-escapes or in whether unreserved or non-ASCII characters are percent-encoded; escaped reserved or illegal characters stay escaped, and escapes that are not valid UTF-8 stay as they are, so the result is still a legal IRI. Quoting a normalised IRI gives an ASCII URI that normalises back to it.",
  ["inputs"], "every IRI whose percent signs start well-formed escapes",
  "Four example IRIs.",
  [UTIL], [("decoding", UTIL + ":normalize_iri/percent_decode"), ("encoding", UTIL + ":quote_normalized_iri/percent_encode")], [],
  ["normalize_iri, quote_normalized_iri"])

p("C24", "RDF terms and statements are values: equality, hash, copies and text agree",
  "Literals, IRIs, triples and quads are equal exactly when their components are, with equal hashes; distinct blank nodes are never equal and have distinct labels while alive. Field access, replacement of fields, conversion to a dictionary, construction from a sequence, copying and pickling preserve components and type; converting between quads and triples keeps subject, predicate, object and the given graph. Integers and datetimes become literals with the matching XSD datatype and lexical form that reads back as the same value, and the environment's factory methods build the same terms as the constructors.",
  ["inputs"], "every combination of components, including equal text in different term kinds",
  "Terms are only built and compared incidentally.",
  [PRIM], [("tuple-based terms", PRIM + ":Triple/Quad/Literal"), ("nodes", PRIM + ":NamedNode/BlankNode"), ("factories", PRIM + ":RDFEnvironment.create*")], [],
  ["Triple, Quad, Literal, NamedNode, BlankNode, q_as_t, t_as_q, RDFEnvironment"])

p("C25", "Each SPARQL call sends exactly one faithful request",
  "Every query or update call results in exactly one HTTP request to the endpoint, from which a conforming server recovers exactly the given SPARQL text (any Unicode) and the given default and named graphs, under the SPARQL 1.1 protocol's parameter names for queries and updates, by GET, form POST or direct POST as configured, with matching Content-Type and an Accept header that admits the requested result kind and an RDF format, and nothing the client does not read. Calls do not influence one another, also when threads share a client.",
  ["inputs", "configurations", "schedules"], "every SPARQL text, graph lists, client configuration, and interleaving of calls",
  "Two recorded exchanges with one ASCII query in one configuration.",
  [SPARQL], [("request construction", SPARQL + ":_SelectOrUpdate.execute, _Select, _Update")], [],
  ["SPARQLServer.query, update; bytes received by a loopback HTTP server"])

p("C26", "SPARQL responses are returned in the documented form or raise",
  "For a 200 response, JSON results come back as the decoded JSON, XML results as a parsed XML tree, and RDF (RDF/XML or Turtle) as an RDF graph equal to the one sent; any other content type raises the unknown-return-type error. A 204 response gives True. Any other status raises the query error naming the query, whatever the body.",
  ["inputs", "fault_sequences"], "every status code, content type (with parameters) and well-formed body, for queries and updates, in any sequence",
  "One JSON success and one error status are replayed; RDF, XML, 204 and unknown types never.",
  [SPARQL], [("dispatch on status and content type", SPARQL + ":_SelectOrUpdate.execute/_Select.execute")], [],
  ["SPARQLServer.query, update"])

p("C27", "The graph-store client reads and writes exactly the named graph",
  "Against a conforming graph store, a graph that was put is read back equal, posting adds to it, deleting removes it, patching sends the change set, and every request addresses exactly the given graph IRI, in the query-parameter or the path style as configured, for any legal IRI and any graph content in any of the response formats (N-Triples, RDF/XML, Turtle, N3), each of which is offered to the store. Other graphs are never affected, and an error status raises an exception.",
  ["histories", "inputs", "fault_sequences"], "every history of get/put/post/delete/patch on any graph IRIs, with injected error statuses",
  "The graph-store client has no test.",
  [SPARQL], [("addressing", SPARQL + ":UpdateableGraphStore.request_url"), ("verbs", SPARQL + ":UpdateableGraphStore.get/put/post/delete, PatchableGraphStore.patch")], [],
  ["UpdateableGraphStore, PatchableGraphStore; store-side request log"])

p("C28", "Graph differences and change sets turn one graph into the other",
  "The differences of two graphs are exactly the statements only in the first and only in the second, each once; removing the former from the first and adding the latter gives the second. Excluded predicates never appear. A change set describes exactly those removals and additions as reified statements of one change about the given graph, dated with the present time, and leaves both inputs unchanged.",
  ["inputs"], "every pair of graphs and exclusion list",
  "No test calls these functions.",
  [SPARQL], [("difference", SPARQL + ":differences"), ("reification", SPARQL + ":changeset/reify")], [],
  ["differences, changeset"])

p("C29", "Resource classes combine inherited prefixes and scalars without leaking",
  "A resource class knows the prefixes and scalar properties of all its base classes plus its own, its own prefix bindings overriding inherited ones; declaring or changing a subclass never changes its bases or siblings. Names resolve through the class's prefixes first and the global profile otherwise, and scalar behaviour applies to exactly the declared predicates. The bundled vocabulary classes load and classify.",
  ["configurations", "histories"], "every hierarchy of resource classes with overlapping prefixes and scalars",
  "Two two-level hierarchies without scalars; the bundled vocabulary is not importable and untested.",
  [RDF, SKOS], [("metaclass aggregation", RDF + ":MetaResource.__new__"), ("resolution", RDF + ":Resource.resolve")], [],
  ["Resource subclasses, prefixes, scalars, resolve; pymantic.vocab.skos"])

p("C30", "The same data in any supported syntax loads as the same graph",
  "Data expressed in N-Triples, N-Quads, Turtle and JSON-LD loads as isomorphic graphs, with equal IRIs, literal text, languages and datatypes, a plain literal and an xsd:string literal counting as equal. Re-serialising what was loaded, in any supported syntax and through any chain of them, keeps the graph isomorphic to the original (N-Triples and N-Quads output may put IRIs in percent-encoded URI form).",
  ["inputs", "histories"], "every graph and every chain of parse and serialise steps",
  "Tests compare Turtle with N-Triples on single-construct files with blank nodes erased; no chain is run.",
  [NT, NQ, TTL, JLD, SER], [("all parsers and serialisers", "src/pymantic/parsers, " + SER)], [],
  ["all parsers and serialisers"])

p("C31", "N-Triples and N-Quads streams are parsed as they are read",
  "An N-Triples or N-Quads document given as an open text stream is parsed line by line while it is read: statements arrive in the target as their lines are read (at no read are more than 1000 statements already read still missing from the target), so a stream that never ends can be consumed, what was read before the stream or the document fails is in the target, and parsing needs memory for what the target keeps, not for the document.",
  ["inputs", "schedules", "fault_sequences"], "every stream, however long, and every point at which it stalls, fails or ends",
  "Tests parse short in-memory streams to their end and look only at the final graph.",
  [LBASE, NT, NQ], [("line-by-line parsing", LBASE + ":LarkParser.line_by_line_parser"), ("lazy consumption", LBASE + ":LarkParser.parse")], ["target graph or data set while parsing"],
  ["parse of a readable stream; the target at each read"])

p("C32", "Data the program has dropped is released",
  "pymantic keeps nothing of the program's data alive by itself. Once a parse has returned or failed, in any thread, the parser refers neither to the target, the document, the stream nor the blank nodes. A term or statement removed from a graph or data set, looked up in it or replaced as a property value is freed when the program holds it no more and no remaining statement or graph name mentions it; graphs, data sets, resources, environments and serialised output are freed when dropped. A long-running program that parses, adds and removes over and over does not grow.",
  ["histories", "inputs", "schedules"], "every history of parses, edits, lookups and serialisations, successful or failing, in every thread",
  "No test looks at object lifetime; a leak changes no result.",
  [PRIM, PBASE, LBASE, JLD, TTL, RDF, SER], [("parser call state", PBASE + ":BaseParser._cleanup_parse"), ("index pruning", PRIM + ":Graph.remove/prune_index"), ("lookups that create nothing", PRIM + ":Graph.match, Dataset.match")],
  ["per-thread parser state", "graph indexes"],
  ["weak references to targets, terms, streams, resources; process memory"])

p("C33", "The cost of an operation follows what it is about, not what else is stored",
  "Graphs are indexed in every direction: adding, removing and testing a statement, and matching or removing with at least one term given, take work in proportion to the statements concerned, independent of how many unrelated statements the graph holds (data sets: and of how many other graphs there are, when the graph is given). Reading, writing, testing and classifying a resource follows its own statements; resolving a name is independent of the number of other names. Parsing and serialising take time in proportion to the document or graph, apart from sorting, also for malformed documents.",
  ["inputs", "histories", "configurations"], "every size of graph, data set and document, and every kind of unrelated data",
  "Tests use graphs of a few statements; a scan in place of an index lookup passes all of them.",
  [PRIM, RDF, SER, UTIL, TTL, NT, NQ], [("indexes", PRIM + ":Graph._spo/_pos/_osp"), ("named graphs", PRIM + ":Dataset"), ("list detection", SER + ":turtle_collections"), ("terminal expressions", NT + ", " + TTL)],
  ["graph indexes"],
  ["executed work and CPU time of graph, data set, resource, parser and serialiser calls"])

p("C34", "A client talks only to servers its verify option accepts",
  "Over HTTPS, every query, update, get, put, post, delete and patch of a SPARQL server or graph store object checks the server's certificate as the object's verify option says: nothing said, None or True accept what the installed or environment-configured authorities vouch for, False accepts any certificate, a path accepts exactly what the authorities found there vouch for, whatever the environment says. A server that is not accepted gets no request, neither directly nor by redirection, and the call raises; an accepted one is reached. Objects with different options do not influence each other.",
  ["configurations", "histories", "schedules"], "every option value, environment, server certificate, kind of call and redirection, with several clients at work",
  "No test uses HTTPS or the verify option.",
  [SPARQL], [("option", SPARQL + ":SPARQLServer.__init__"), ("use at every call", SPARQL + ":_SelectOrUpdate.execute, UpdateableGraphStore.get/put/post/delete, PatchableGraphStore.patch")], [],
  ["verify option; TLS handshakes and requests seen by loopback HTTPS servers"])

p("C35", "Turtle output is ordered and reproducible",
  "Writing a graph as Turtle writes each subject in one place, in the order of the written names, each predicate of a subject once, in order, and prefixes in the profile's order. The text depends on the graph, base, profile and label generator given, and on nothing else: writing again gives the same text whatever was written in between, in any process with any hash seed, and for other blank nodes in the same places; without blank nodes it does not depend on the order or history in which the statements were added, except for the order of the objects of one subject and predicate. Blank nodes take their labels from the given generator.",
  ["inputs", "histories", "configurations"], "every graph, history, profile, base and hash seed",
  "Tests compare a few small outputs in one process; output that follows set or identity order passes them.",
  [SER], [("ordering", SER + ":turtle_sorted_names"), ("blocks", SER + ":serialize_turtle"), ("labels", SER + ":default_bnode_name_generator")], [],
  ["text written by serialize_turtle, within and across processes"])

p("C36", "Threads that change nothing shared do not disturb each other",
  "Any number of threads may at once use the same graph, data set, profile, environment, vocabulary and resource classes as long as none of them changes these: every match, listing, test, list, property read, classification, name resolution, copy and serialisation gives what it gives alone, and the shared data stay as they were. Nodes with the same registered classes are instantiated as one complete class, whichever threads classify them first. Graphs, data sets and resources of a thread's own behave as if it were alone, even when they share terms with others; blank nodes made by different threads are different.",
  ["schedules", "programs", "inputs"], "every interleaving of any number of threads running any such operations on any data",
  "No test starts a thread.",
  [PRIM, RDF, SER, UTIL], [("reading graphs", PRIM + ":Graph.match/subjects/predicates/objects"), ("combined classes", RDF + ":Resource.classify, MetaResource.__new__"), ("call state of writers", SER + ":serialize_turtle"), ("names", PRIM + ":PrefixMap, TermMap, Profile")],
  ["combined-class registry", "graph indexes", "module state of serialisers"],
  ["results of all reading operations, per thread; shared data afterwards"])

p("C37", "An operation that raises leaves the data as they were",
  "When adding, removing, merging, listing, writing, assigning, deleting, resolving or importing raises - because of an argument of the wrong kind, a statement that is absent, an unknown or ambiguous name, a value that cannot be stored, or an iterator, writer or label generator of the caller's that raises - the exception reaches the caller and the graph, data set, resource, profile and environment hold exactly what they held before: the same statements by every pattern, listing and membership test, the same names. Only addAll and importProfile may keep a first part of what they were given. Afterwards everything works as if the failed operation had not been tried: in particular the next write gives the whole text.",
  ["fault_sequences", "histories", "inputs"], "every history of operations on graphs, data sets, resources and profiles in which any of them fails anywhere",
  "Tests check that errors are raised, hardly ever what is left behind.",
  [PRIM, RDF, SER], [("statements", PRIM + ":Graph.add/remove/addAll, Dataset.add/remove"), ("values", RDF + ":Resource.__setitem__/__delitem__"), ("names", PRIM + ":PrefixMap, TermMap, Profile"), ("writers", SER + ":serialize_turtle")],
  ["graph indexes", "prefix and term maps", "state of serialisers"],
  ["contents after an exception", "the next write"])

p("C38", "Calls have no effects besides their result, their target and their requests",
  "Parsing, writing, matching, merging, assigning, resolving names and comparing change nothing but the graph, data set, resource, profile or stream they are documented to write to: every other argument - lists, dictionaries, graphs, profiles, options, documents - is afterwards what it was, streams stay open, nothing is printed, no file is opened, no process started, nothing executed and no connection made, whatever the data say and whether or not the call raises. SPARQL clients connect to the given server only; no answer makes them read a local file or fetch another address. No call leaves files or sockets open or changes settings of the process (environment, working directory, locale, recursion limit, warning filters, signal handlers, loggers, random numbers and such); importing pymantic's modules does none of this either.",
  ["inputs", "programs", "configurations"], "every call with any argument, hostile data included",
  "Tests look at results; nobody watches what else happens, least of all for hostile data.",
  [PRIM, RDF, SER, UTIL, SPARQL, LBASE, JLD], [("streams", LBASE + ":LarkParser.parse"), ("documents and options", JLD + ":PyLDLoader.process_jobj"), ("answers", SPARQL + ":_Select.execute"), ("arguments", SPARQL + ":differences, _SelectOrUpdate.execute")],
  ["process settings", "open files", "callers' arguments"],
  ["audit events, output, settings, open files, arguments"])

p("C39", "Results do not depend on the settings of interpreter and process",
  "Parsing, writing, graph, data set, profile and resource operations, IRI normalisation, change sets, and SPARQL and graph-store requests give the same results and raise the same errors whatever the interpreter's options (optimised -O or -OO, -bb, development mode), hash seed, locale, time zone, working directory, environment variables, warning filters, logging level, garbage collection, memory allocator, decimal context, missing standard streams and random seed are, whichever of pymantic's modules is imported first, in whichever thread they run and with or without a trace function.",
  ["configurations", "inputs", "programs"], "every setting of the interpreter and process, for every operation and input",
  "The test suite runs under one setting.",
  [PRIM, RDF, SER, UTIL, SPARQL, LBASE, NT, TTL, JLD], [("validation", UTIL + ":validate_iri; " + RDF + ":check_objects"), ("dates", SPARQL + ":changeset"), ("error texts", SPARQL + ":_SelectOrUpdate.execute"), ("imports", PRIM + ", " + SER)],
  ["interpreter flags, environment, global contexts"],
  ["results and errors of all operations under each setting"])

p("C40", "An interrupted operation leaves nothing behind that later ones meet",
  "If an operation that only reads shared data or fills a new object (a parse, a serialisation, matching, listing, reading and classifying resources, making classes, copying graphs, converting names, a SPARQL or graph-store request) is ended at any point by a KeyboardInterrupt, lack of memory, exhausted recursion, another exception, an abandoned iterator or a failing source, then that reaches the caller (an interrupt as itself), what was only read is unchanged, and the same and every other operation afterwards gives the result it gives in a process where nothing was interrupted, including on the first use of anything in the process.",
  ["crash_points", "inputs", "histories"], "every point at which an operation can be ended",
  "Tests end no operation half-way; which line is being executed when an interrupt or a lack of memory arrives is a matter of time.",
  [RDF, SER, PRIM, SPARQL, PBASE, LBASE, JLD, UTIL], [("parser state", PBASE + ":BaseParser._prepare_parse, _cleanup_parse"), ("class registry", RDF + ":Resource.classify, register_class"), ("client session", SPARQL + ":_SelectOrUpdate.execute")],
  ["shared parsers, class registry, sessions, anything remembered between calls"],
  ["exception that reaches the caller, later results of all operations"])

p("C41", "Calls made from within other calls and iterations disturb neither",
  "While pymantic runs code of the program (reads from a source, fills a graph or data set, writes to a writer, asks a label generator, an environment or an iterable, constructs a registered class) or lets the program continue (between two items of an iteration), that code may call any operation that does not change what the outer one works on, the same one with the same parser included, nested to any depth: the inner calls and the outer one give the results they give apart.",
  ["programs", "inputs"], "every operation called from within every other at every point where the program's code runs",
  "Tests call one operation after another.",
  [PBASE, LBASE, JLD, SER, RDF, PRIM], [("parser state", PBASE + ":BaseParser._prepare_parse, _cleanup_parse"), ("writers", SER + ":serialize_turtle"), ("constructors", RDF + ":Resource.classify")],
  ["shared parsers, class registry, indexes under iteration"],
  ["results of outer and inner operations"])

p("C42", "Deep copies and pickles are equal and independent",
  "A deep copy of a Graph, Dataset, PrefixMap, TermMap, Profile, RDFEnvironment or Resource, and what unpickling its pickle gives, with any protocol, in the same process or in another one with another hash seed, answers every query (iteration, length, membership, matching through any pattern, listings, graph names, resolution, property access, class) as the original does, with blank nodes corresponding one to one, distinct from live others and carrying distinct labels; objects copied in one call keep sharing what they shared; later changes of the original, of the copy or of a copy of the copy show in that one alone, each of which keeps all its other guarantees.",
  ["histories", "inputs"], "every object and every history before and after every chain of copies",
  "Tests copy no container; what is lost shows in other processes, in queries through one index only, or in later changes.",
  [PRIM, RDF], [("graph state", PRIM + ":Graph.__init__, add, remove"), ("data set state", PRIM + ":Dataset.__init__, add_graph"), ("blank node identity and labels", PRIM + ":BlankNode.value"), ("default vocabulary", PRIM + ":TermMap.setDefault"), ("resource state", RDF + ":Resource.__init__")],
  ["triple set and the three indexes of a graph, graphs of a data set, maps"],
  ["results of all queries on original and copies, in this process and another"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in PR:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(PR))
