From f9d68f685d2f5155ead3abcbedcfdcd4c4a80e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:08 +0000
Subject: [PATCH 01/56] fix: Graph.remove left terms without triples in
 subjects(), predicates() and objects()

---
 src/pymantic/primitives.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 27ca35c..ecb7e8b 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -357,6 +357,14 @@ def Index():
     return defaultdict(Index)
 
 
+def prune_index(index, first, second):
+    """Drop the entries of an index that no longer lead to any triple."""
+    if not index[first][second]:
+        del index[first][second]
+    if not index[first]:
+        del index[first]
+
+
 class Graph:
     """A `Graph` holds a set of one or more `Triple`. Implements the Python
     set/sequence API for `in`, `for`, and `len`"""
@@ -396,6 +404,9 @@ class Graph:
         del self._spo[triple.subject][triple.predicate][triple.object]
         del self._pos[triple.predicate][triple.object][triple.subject]
         del self._osp[triple.object][triple.subject][triple.predicate]
+        prune_index(self._spo, triple.subject, triple.predicate)
+        prune_index(self._pos, triple.predicate, triple.object)
+        prune_index(self._osp, triple.object, triple.subject)
         return self
 
     def match(self, subject=None, predicate=None, object=None):
-- 
2.43.0


From 25e8af38c60c7615f2066a0428209d6a69cfd087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:11 +0000
Subject: [PATCH 02/56] fix: removeMatches modified the index it was iterating
 over

---
 src/pymantic/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index ecb7e8b..d4ff325 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -468,7 +468,7 @@ class Graph:
     def removeMatches(self, subject, predicate, object):
         """This method removes those triples in the current graph which match
         the given arguments."""
-        for triple in self.match(subject, predicate, object):
+        for triple in list(self.match(subject, predicate, object)):
             self.remove(triple)
         return self
 
@@ -554,7 +554,7 @@ class Dataset:
     def removeMatches(self, subject=None, predicate=None, object=None, graph=None):
         """This method removes those triples in the current graph which match
         the given arguments."""
-        for quad in self.match(subject, predicate, object, graph):
+        for quad in list(self.match(subject, predicate, object, graph)):
             self.remove(quad)
         return self
 
-- 
2.43.0


From 40f3b317e424c599c41ddbca0ef23e0ac0a95ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 03/56] fix: an unnamed Graph claimed the name <None>

---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index d4ff325..bdf162e 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -370,7 +370,7 @@ class Graph:
     set/sequence API for `in`, `for`, and `len`"""
 
     def __init__(self, graph_uri=None):
-        if not isinstance(graph_uri, NamedNode):
+        if graph_uri is not None and not isinstance(graph_uri, NamedNode):
             graph_uri = NamedNode(graph_uri)
         self._uri = graph_uri
         self._triples = set()
-- 
2.43.0


From 2e0ee24963a655bdd6cca823697090b0e7d90991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 04/56] fix: match() took the empty IRI for a wildcard

---
 src/pymantic/primitives.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index bdf162e..057db8b 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -427,9 +427,9 @@ class Graph:
         This method implements AND functionality, so only triples matching all
         of the given non-null arguments will be included in the result.
         """
-        if subject:
-            if predicate:  # s, p, ???
-                if object:  # s, p, o
+        if subject is not None:
+            if predicate is not None:  # s, p, ???
+                if object is not None:  # s, p, o
                     if Triple(subject, predicate, object) in self:
                         yield Triple(subject, predicate, object)
                 else:  # s, p, ?var
@@ -437,7 +437,7 @@ class Graph:
                         for triple in self._spo[subject][predicate].values():
                             yield triple
             else:  # s, ?var, ???
-                if object:  # s, ?var, o
+                if object is not None:  # s, ?var, o
                     if object in self._osp and subject in self._osp[object]:
                         for triple in self._osp[object][subject].values():
                             yield triple
@@ -446,8 +446,8 @@ class Graph:
                         for predicate in self._spo[subject]:
                             for triple in self._spo[subject][predicate].values():
                                 yield triple
-        elif predicate:  # ?var, p, ???
-            if object:  # ?var, p, o
+        elif predicate is not None:  # ?var, p, ???
+            if object is not None:  # ?var, p, o
                 if predicate in self._pos and object in self._pos[predicate]:
                     for triple in self._pos[predicate][object].values():
                         yield triple
@@ -456,7 +456,7 @@ class Graph:
                     for object in self._pos[predicate]:
                         for triple in self._pos[predicate][object].values():
                             yield triple
-        elif object:  # ?var, ?var, o
+        elif object is not None:  # ?var, ?var, o
             if object in self._osp:
                 for subject in self._osp[object]:
                     for triple in self._osp[object][subject].values():
@@ -542,7 +542,7 @@ class Dataset:
         return self._graphs.values()
 
     def match(self, subject=None, predicate=None, object=None, graph=None):
-        if graph:
+        if graph is not None:
             matches = self._graphs[graph].match(subject, predicate, object)
             for match in matches:
                 yield t_as_q(graph, match)
-- 
2.43.0


From 89b90aba4188f98bd1763b93ceb543c6b1e1ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:47 +0000
Subject: [PATCH 05/56] fix: looking up or removing a quad created an empty
 graph in the Dataset

---
 src/pymantic/primitives.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 057db8b..549ee7e 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -524,6 +524,8 @@ class Dataset:
         self._graphs[quad.graph].add(q_as_t(quad))
 
     def remove(self, quad):
+        if quad.graph not in self._graphs:
+            raise KeyError(quad)
         self._graphs[quad.graph].remove(q_as_t(quad))
 
     def add_graph(self, graph, named=None):
@@ -543,9 +545,10 @@ class Dataset:
 
     def match(self, subject=None, predicate=None, object=None, graph=None):
         if graph is not None:
-            matches = self._graphs[graph].match(subject, predicate, object)
-            for match in matches:
-                yield t_as_q(graph, match)
+            if graph in self._graphs:
+                matches = self._graphs[graph].match(subject, predicate, object)
+                for match in matches:
+                    yield t_as_q(graph, match)
         else:
             for graph_uri, graph in self._graphs.items():
                 for match in graph.match(subject, predicate, object):
-- 
2.43.0


From 53c73d5dffb40f14fa3992c141f90d26cf1ef3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 06/56] fix: Dataset.remove_graph did nothing

---
 src/pymantic/primitives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 549ee7e..4a152e4 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -537,7 +537,9 @@ class Dataset:
             raise ValueError("Graph must be named")
 
     def remove_graph(self, graph_or_uri):
-        pass
+        if isinstance(graph_or_uri, Graph):
+            graph_or_uri = graph_or_uri.uri
+        del self._graphs[graph_or_uri]
 
     @property
     def graphs(self):
-- 
2.43.0


From 0063ea6fbec080ebe4149488cbdaa6b37d845818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:54 +0000
Subject: [PATCH 07/56] fix: Dataset iteration misnamed the quads of a Graph
 added under two names

---
 src/pymantic/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 4a152e4..7131700 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -584,9 +584,9 @@ class Dataset:
                     return True
 
     def __iter__(self):
-        for graph in self._graphs.values():
+        for graph_uri, graph in self._graphs.items():
             for triple in graph:
-                yield t_as_q(graph.uri, triple)
+                yield t_as_q(graph_uri, triple)
 
     def toArray(self):
         return frozenset(self)
-- 
2.43.0


From 74307f8876931ec9735bc42db9890b1cfa6c50aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:58 +0000
Subject: [PATCH 08/56] fix: nt_escape dropped control characters

---
 src/pymantic/serializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index dffe7fe..95cff5b 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -24,7 +24,7 @@ def nt_escape(node_string):
             and char <= "\u007E"
         ):
             output_string += char
-        elif char >= "\u007F" and char <= "\uFFFF":
+        elif char < "\u0020" or char >= "\u007F" and char <= "\uFFFF":
             output_string += "\\u%04X" % ord(char)
         elif char >= "\U00010000" and char <= "\U0010FFFF":
             output_string += "\\U%08X" % ord(char)
-- 
2.43.0


From 47ab29830579dc860882720e5e235082908b665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:02 +0000
Subject: [PATCH 09/56] fix: Quads were not stringified as N-Quads

---
 src/pymantic/primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 7131700..e086e7e 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -211,7 +211,8 @@ class Quad(tuple):
     graph = property(itemgetter(3))
 
     def __str__(self):
-        return f"{str(self.subject)} {str(self.predicate)} {str(self.object)} {str(self.graph)} .\n"
+        graph = "" if self.graph is None else f"{self.graph.toNT()} "
+        return f"{self.subject.toNT()} {self.predicate.toNT()} {self.object.toNT()} {graph}.\n"
 
 
 def q_as_t(quad):
-- 
2.43.0


From 8174d4f9c9a9cf1264e6bef4d121b90bf511a35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:57 +0000
Subject: [PATCH 10/56] fix: N-Triples language tags with digits were rejected,
 with underscores accepted

---
 src/pymantic/parsers/lark/ntriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 533cb4e..51aad40 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -33,7 +33,7 @@ quad: subject predicate object graph "."
 ?graph: iriref
 literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
-LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0_9]/+)*
+LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
 EOL: /[\r\n]/+
 iriref: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
 STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
-- 
2.43.0


From e81c2b4f1d1e07e4e570c44449c8f4ddd407afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:00 +0000
Subject: [PATCH 11/56] fix: N-Triples blank node labels swallowed '>', ';',
 '@' and the like

---
 src/pymantic/parsers/lark/ntriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 51aad40..a76f6a7 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -40,7 +40,7 @@ STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
 BLANK_NODE_LABEL: "_:" (PN_CHARS_U | "0".."9") ((PN_CHARS | ".")* PN_CHARS)?
 UCHAR: "\\u" HEX~4 | "\\U" HEX~8
 ECHAR: "\\" /[tbnrf"'\\]/
-PN_CHARS_BASE: /[A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\u10000-\uEFFFF]/
+PN_CHARS_BASE: /[A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]/
 PN_CHARS_U: PN_CHARS_BASE | "_" | ":"
 PN_CHARS: PN_CHARS_U | /[\-0-9\u00B7\u0300-\u036F\u203F-\u2040]/
 HEX: /[0-9A-Fa-f]/
-- 
2.43.0


From 516570e24a36091f395d8793d42c28c978a44eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 12/56] fix: spaces inside N-Triples IRIs were silently dropped

---
 src/pymantic/parsers/lark/ntriples.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index a76f6a7..bcb5a78 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -35,7 +35,8 @@ literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
 LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
 EOL: /[\r\n]/+
-iriref: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
+iriref: IRIREF
+IRIREF: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
 STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
 BLANK_NODE_LABEL: "_:" (PN_CHARS_U | "0".."9") ((PN_CHARS | ".")* PN_CHARS)?
 UCHAR: "\\u" HEX~4 | "\\U" HEX~8
@@ -57,8 +58,8 @@ class NTriplesTransformer(BaseParser, Transformer):
         return self.make_blank_node(bn_label.value)
 
     def iriref(self, children):
-        iri = "".join(children)
-        iri = decode_literal(iri)
+        (iri,) = children
+        iri = decode_literal(iri[1:-1])  # Remove <>
         return self.make_named_node(iri)
 
     def literal(self, children):
-- 
2.43.0


From e7e2546da4bf4ccf42ddd5ae1cd8bcf3a9e05797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:05 +0000
Subject: [PATCH 13/56] fix: N-Triples and N-Quads documents with comments or
 blank lines failed to parse

---
 src/pymantic/parsers/lark/base.py     | 2 +-
 src/pymantic/parsers/lark/ntriples.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/parsers/lark/base.py b/src/pymantic/parsers/lark/base.py
index 06425cf..f5f262f 100644
--- a/src/pymantic/parsers/lark/base.py
+++ b/src/pymantic/parsers/lark/base.py
@@ -9,7 +9,7 @@ class LarkParser:
     def line_by_line_parser(self, stream):
         for line in stream:  # Equivalent to readline
             if line:
-                yield next(self.lark.parse(line))
+                yield from self.lark.parse(line)
 
     def parse(self, string_or_stream, graph=None):
         """Parse a string or file-like object into RDF primitives and add
diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index bcb5a78..003a2f0 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -18,10 +18,10 @@ from pymantic.util import decode_literal
 
 from .base import LarkParser
 
-grammar = r"""triples_start: triple? (EOL triple)* EOL?
+grammar = r"""triples_start: triple? (EOL triple?)*
 triple: subject predicate object "."
 
-quads_start: quad? (EOL quad)* EOL?
+quads_start: quad? (EOL quad?)*
 quad: subject predicate object graph "."
 
 ?subject: iriref
@@ -47,6 +47,8 @@ PN_CHARS: PN_CHARS_U | /[\-0-9\u00B7\u0300-\u036F\u203F-\u2040]/
 HEX: /[0-9A-Fa-f]/
 
 %ignore /[ \t]/+
+COMMENT: "#" /[^\r\n]/*
+%ignore COMMENT
 """
 
 
-- 
2.43.0


From c1e36789c80b7b40f16dc3c270ce0111fbf9f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 14/56] fix: N-Quads in the default graph or in graphs named by
 blank nodes failed to parse

---
 src/pymantic/parsers/lark/nquads.py   | 3 ++-
 src/pymantic/parsers/lark/ntriples.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/parsers/lark/nquads.py b/src/pymantic/parsers/lark/nquads.py
index 1041663..da35146 100644
--- a/src/pymantic/parsers/lark/nquads.py
+++ b/src/pymantic/parsers/lark/nquads.py
@@ -22,7 +22,8 @@ class NQuadsTransformer(NTriplesTransformer):
     """Transform the tokenized nquads into RDF primitives."""
 
     def quad(self, children):
-        subject, predicate, object_, graph = children
+        subject, predicate, object_ = children[:3]
+        graph = children[3] if len(children) == 4 else None
         return self.make_quad(subject, predicate, object_, graph)
 
     def quads_start(self, children):
diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 003a2f0..4730ab0 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -22,7 +22,7 @@ grammar = r"""triples_start: triple? (EOL triple?)*
 triple: subject predicate object "."
 
 quads_start: quad? (EOL quad?)*
-quad: subject predicate object graph "."
+quad: subject predicate object graph? "."
 
 ?subject: iriref
         | BLANK_NODE_LABEL -> blank_node_label
@@ -31,6 +31,7 @@ quad: subject predicate object graph "."
        | BLANK_NODE_LABEL -> blank_node_label
        | literal
 ?graph: iriref
+      | BLANK_NODE_LABEL -> blank_node_label
 literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
 LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
-- 
2.43.0


From 7ed390008d62aac5739536e1ae3c14034fbc2805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:33 +0000
Subject: [PATCH 15/56] fix: nquads_parser put quads into a Graph, which cannot
 tell their graphs apart

---
 src/pymantic/parsers/lark/nquads.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymantic/parsers/lark/nquads.py b/src/pymantic/parsers/lark/nquads.py
index da35146..4b457b5 100644
--- a/src/pymantic/parsers/lark/nquads.py
+++ b/src/pymantic/parsers/lark/nquads.py
@@ -21,6 +21,9 @@ from .ntriples import NTriplesTransformer, grammar
 class NQuadsTransformer(NTriplesTransformer):
     """Transform the tokenized nquads into RDF primitives."""
 
+    def _make_graph(self):
+        return self.env.createDataset()
+
     def quad(self, children):
         subject, predicate, object_ = children[:3]
         graph = children[3] if len(children) == 4 else None
-- 
2.43.0


From 0820392b30a6c052bdfdf6078e1ddd99f0f8f8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:37 +0000
Subject: [PATCH 16/56] fix: IRIs ending in an escaped line break passed
 validation

---
 src/pymantic/parsers/lark/turtle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index cde16f6..55b85ae 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -102,7 +102,7 @@ LEGAL_IRI = re.compile(r'^[^\x00-\x20<>"{}|^`\\]*$')
 
 
 def validate_iri(iri):
-    if not LEGAL_IRI.match(iri):
+    if not LEGAL_IRI.fullmatch(iri):
         raise ValueError("Illegal characters in IRI: " + iri)
     return iri
 
-- 
2.43.0


From 24240e65c792c486ac4c8dd5182855f531903dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:55 +0000
Subject: [PATCH 17/56] fix: N-Triples accepted IRIs with escaped illegal
 characters

---
 src/pymantic/parsers/lark/ntriples.py |  4 ++--
 src/pymantic/parsers/lark/turtle.py   | 12 +-----------
 src/pymantic/util.py                  |  9 +++++++++
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 4730ab0..bfa5f32 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -14,7 +14,7 @@ from lark import Lark, Transformer
 
 from pymantic.parsers.base import BaseParser
 from pymantic.primitives import NamedNode, Triple
-from pymantic.util import decode_literal
+from pymantic.util import decode_literal, validate_iri
 
 from .base import LarkParser
 
@@ -62,7 +62,7 @@ class NTriplesTransformer(BaseParser, Transformer):
 
     def iriref(self, children):
         (iri,) = children
-        iri = decode_literal(iri[1:-1])  # Remove <>
+        iri = validate_iri(decode_literal(iri[1:-1]))  # Remove <>
         return self.make_named_node(iri)
 
     def literal(self, children):
diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index 55b85ae..1245bd8 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -14,11 +14,10 @@ will be read into memory and parsed there.
 
 from lark import Lark, Transformer, Tree
 from lark.lexer import Token
-import re
 
 from pymantic.parsers.base import BaseParser
 from pymantic.primitives import BlankNode, Literal, NamedNode, Triple
-from pymantic.util import decode_literal, grouper, smart_urljoin
+from pymantic.util import decode_literal, grouper, smart_urljoin, validate_iri
 
 RDF_TYPE = NamedNode("http://www.w3.org/1999/02/22-rdf-syntax-ns#type")
 RDF_NIL = NamedNode("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil")
@@ -98,15 +97,6 @@ COMMENT: "#" /[^\n]/*
 turtle_lark = Lark(grammar, start="turtle_doc", parser="lalr")
 
 
-LEGAL_IRI = re.compile(r'^[^\x00-\x20<>"{}|^`\\]*$')
-
-
-def validate_iri(iri):
-    if not LEGAL_IRI.fullmatch(iri):
-        raise ValueError("Illegal characters in IRI: " + iri)
-    return iri
-
-
 def unpack_predicate_object_list(subject, pol):
     if not isinstance(subject, (NamedNode, BlankNode)):
         for triple_or_node in subject:
diff --git a/src/pymantic/util.py b/src/pymantic/util.py
index 47cb589..715ea90 100644
--- a/src/pymantic/util.py
+++ b/src/pymantic/util.py
@@ -101,6 +101,15 @@ def smart_urljoin(base, url):
     return joined
 
 
+LEGAL_IRI = re.compile(r'^[^\x00-\x20<>"{}|^`\\]*$')
+
+
+def validate_iri(iri):
+    if not LEGAL_IRI.fullmatch(iri):
+        raise ValueError("Illegal characters in IRI: " + iri)
+    return iri
+
+
 def grouper(iterable, n, fillvalue=None):
     "Collect data into fixed-length chunks or blocks"
     # grouper('ABCDEFG', 3, 'x') --> ABC DEF Gxx"
-- 
2.43.0


From c0178a3ee52cda0310ce03ce87dbc2cd4ca3a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:58 +0000
Subject: [PATCH 18/56] fix: turtle_parser.parse failed on streams

---
 src/pymantic/parsers/lark/turtle.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index 1245bd8..48240e7 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -279,10 +279,8 @@ def parse(string_or_stream, graph=None, base=""):
         # Presume string.
         string = string_or_stream
 
-    if isinstance(string_or_stream, bytes):
-        string = string_or_stream.decode("utf-8")
-    else:
-        string = string_or_stream
+    if isinstance(string, bytes):
+        string = string.decode("utf-8")
 
     tree = turtle_lark.parse(string)
     tr = TurtleTransformer(base_iri=base)
-- 
2.43.0


From 32c806253bed05c0acdf47704b9413b964afa021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:01 +0000
Subject: [PATCH 19/56] fix: Turtle comments did not end at a carriage return

---
 src/pymantic/parsers/lark/turtle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index 48240e7..ba8f129 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -90,7 +90,7 @@ HEX: /[0-9A-Fa-f]/
 PN_LOCAL_ESC: "\\" /[_~\.\-!$&'()*+,;=\/?#@%]/
 
 %ignore WS
-COMMENT: "#" /[^\n]/*
+COMMENT: "#" /[^\r\n]/*
 %ignore COMMENT
 """
 
-- 
2.43.0


From 89c9759fdf627211ab277eb3b2d1251af4485701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:25 +0000
Subject: [PATCH 20/56] fix: collections and property lists among several
 Turtle objects were not expanded

---
 src/pymantic/parsers/lark/turtle.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index ba8f129..179f02d 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -112,17 +112,17 @@ def unpack_predicate_object_list(subject, pol):
                 raise ValueError(predicate)
             predicate = RDF_TYPE
 
-        if not isinstance(object_, (NamedNode, Literal, BlankNode)):
-            if isinstance(object_, Tree):
-                object_ = object_.children
-            for triple_or_node in object_:
-                if isinstance(triple_or_node, Triple):
-                    yield triple_or_node
-                else:
-                    object_ = triple_or_node
-                    yield Triple(subject, predicate, object_)
-        else:
-            yield Triple(subject, predicate, object_)
+        objects = object_.children if isinstance(object_, Tree) else [object_]
+        for object_ in objects:
+            if not isinstance(object_, (NamedNode, Literal, BlankNode)):
+                for triple_or_node in object_:
+                    if isinstance(triple_or_node, Triple):
+                        yield triple_or_node
+                    else:
+                        object_ = triple_or_node
+                        yield Triple(subject, predicate, object_)
+            else:
+                yield Triple(subject, predicate, object_)
 
 
 class TurtleTransformer(BaseParser, Transformer):
-- 
2.43.0


From 97d5c55886c77bb7247fb252346e413b16f20a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:52 +0000
Subject: [PATCH 21/56] fix: IRI references were resolved by urljoin, which
 departs from RFC 3986

---
 src/pymantic/util.py | 59 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 8 deletions(-)

diff --git a/src/pymantic/util.py b/src/pymantic/util.py
index 715ea90..cf0b769 100644
--- a/src/pymantic/util.py
+++ b/src/pymantic/util.py
@@ -89,16 +89,59 @@ def quote_normalized_iri(normalized_iri):
     return quote(normalized_uri, safe="".join(reserved_in_iri))
 
 
+# Scheme, authority, path, query and fragment, each with its delimiters.
+iri_reference_re = re.compile(
+    r"([^:/?#]+:)?(//[^/?#]*)?([^?#]*)(\?[^#]*)?(#.*)?", re.DOTALL
+)
+
+
+def remove_dot_segments(path):
+    """Remove the . and .. segments of a path (RFC 3986, 5.2.4)."""
+    output = []
+    while path:
+        if path.startswith(("./", "../")):
+            path = path.partition("/")[2]
+        elif path in (".", ".."):
+            path = ""
+        elif path.startswith("/./") or path == "/.":
+            path = "/" + path[3:]
+        elif path.startswith("/../") or path == "/..":
+            path = "/" + path[4:]
+            del output[-1:]
+        else:
+            end = path.find("/", 1)
+            if end == -1:
+                end = len(path)
+            output.append(path[:end])
+            path = path[end:]
+    return "".join(output)
+
+
 def smart_urljoin(base, url):
-    """urljoin, only an empty fragment from the relative(?) URL will be
-    preserved.
+    """Resolve an IRI reference against a base IRI (RFC 3986, 5.2.2). An IRI
+    that is already absolute is returned unchanged, and so is an empty query or
+    fragment, which urljoin would drop.
     """
-    from urllib.parse import urljoin
-
-    joined = urljoin(base, url)
-    if url.endswith("#") and not joined.endswith("#"):
-        joined += "#"
-    return joined
+    scheme, authority, path, query, fragment = iri_reference_re.match(url).groups("")
+    if scheme or not base:
+        return url
+    scheme, base_authority, base_path, base_query, _ = iri_reference_re.match(
+        base
+    ).groups("")
+    if authority:
+        path = remove_dot_segments(path)
+    else:
+        authority = base_authority
+        if not path:
+            path = base_path
+            query = query or base_query
+        else:
+            if not path.startswith("/"):
+                if authority and not base_path:
+                    base_path = "/"
+                path = base_path[: base_path.rfind("/") + 1] + path
+            path = remove_dot_segments(path)
+    return scheme + authority + path + query + fragment
 
 
 LEGAL_IRI = re.compile(r'^[^\x00-\x20<>"{}|^`\\]*$')
-- 
2.43.0


From b9b84f50ad38679e498fee10c3f08319201e482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:45 +0000
Subject: [PATCH 22/56] fix: turtle_string_escape garbled quotes, backslashes
 and line breaks

---
 src/pymantic/serializers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 95cff5b..07ac412 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -61,9 +61,7 @@ def turtle_string_escape(string):
     """Escape a string appropriately for output in turtle form."""
     from pymantic.util import ECHAR_MAP
 
-    for escaped, value in ECHAR_MAP.items():
-        string = string.replace(value, "\\" + escaped)
-    return '"' + string + '"'
+    return '"' + "".join(ECHAR_MAP.get(char, char) for char in string) + '"'
 
 
 def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
-- 
2.43.0


From 10e0a713f7d6f570bbbb9cabde76e80ef8b264c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:47 +0000
Subject: [PATCH 23/56] fix: serialize_turtle could not write blank nodes

---
 src/pymantic/serializers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 07ac412..0dfc33c 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -46,7 +46,7 @@ def serialize_nquads(dataset, f):
 def default_bnode_name_generator():
     i = 0
     while True:
-        yield "_b" + str(i)
+        yield "_:b" + str(i)
         i += 1
 
 
@@ -81,7 +81,7 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
         if node in name_map:
             name = name_map[node]
         else:
-            name = bnode_name_maker.next()
+            name = next(bnode_name_maker)
             name_map[node] = name
     elif node.interfaceName == "Literal":
         if node.datatype == profile.resolve("xsd:string"):
-- 
2.43.0


From 7243561b64015e9021e4217628648bd257a28ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 24/56] fix: serialize_turtle left literals unquoted that
 turtle does not read back as their datatype

---
 src/pymantic/serializers.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 0dfc33c..9b12305 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -1,4 +1,16 @@
 from collections import OrderedDict
+import re
+
+XSD_NS = "http://www.w3.org/2001/XMLSchema#"
+
+# Lexical forms that turtle reads as a literal of the datatype when unquoted.
+TURTLE_SHORTHAND = {
+    XSD_NS + "integer": re.compile(r"[+-]?[0-9]+"),
+    XSD_NS + "decimal": re.compile(r"[+-]?[0-9]*\.[0-9]+"),
+    XSD_NS
+    + "double": re.compile(r"[+-]?([0-9]+\.[0-9]*|\.[0-9]+|[0-9]+)[eE][+-]?[0-9]+"),
+    XSD_NS + "boolean": re.compile(r"true|false"),
+}
 
 
 def nt_escape(node_string):
@@ -84,7 +96,8 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
             name = next(bnode_name_maker)
             name_map[node] = name
     elif node.interfaceName == "Literal":
-        if node.datatype == profile.resolve("xsd:string"):
+        shorthand = TURTLE_SHORTHAND.get(node.datatype)
+        if node.datatype == XSD_NS + "string":
             # Simple string.
             name = turtle_string_escape(node.value)
         elif node.datatype is None:
@@ -92,13 +105,7 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
             name = turtle_string_escape(node.value)
             if node.language:
                 name += "@" + node.language
-        elif node.datatype == profile.resolve("xsd:integer"):
-            name = node.value
-        elif node.datatype == profile.resolve("xsd:decimal"):
-            name = node.value
-        elif node.datatype == profile.resolve("xsd:double"):
-            name = node.value
-        elif node.datatype == profile.resolve("xsd:boolean"):
+        elif shorthand and shorthand.fullmatch(node.value):
             name = node.value
         else:
             # Unrecognized data-type.
-- 
2.43.0


From 1a25e4b846fd64cb25051d77a131e86ee23a4191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:53 +0000
Subject: [PATCH 25/56] fix: serialize_turtle wrote datatypes with a single ^

---
 src/pymantic/serializers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 9b12305..df27e3e 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -76,7 +76,9 @@ def turtle_string_escape(string):
     return '"' + "".join(ECHAR_MAP.get(char, char) for char in string) + '"'
 
 
-def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
+def turtle_repr(
+    node, profile, name_map, bnode_name_maker, base=None, datatype_separator="^"
+):
     """Turn a node in an RDF graph into its turtle representation."""
     if node.interfaceName == "NamedNode":
         name = profile.prefixes.shrink(node)
@@ -110,7 +112,9 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
         else:
             # Unrecognized data-type.
             name = turtle_string_escape(node.value)
-            name += "^" + turtle_repr(node.datatype, profile, None, None)
+            name += datatype_separator + turtle_repr(
+                node.datatype, profile, None, None, base
+            )
     return name
 
 
@@ -140,7 +144,7 @@ def serialize_turtle(
     bnode_name_maker = bnode_name_generator()
 
     def name_maker(n):
-        return turtle_repr(n, profile, name_map, bnode_name_maker, base)
+        return turtle_repr(n, profile, name_map, bnode_name_maker, base, "^^")
 
     from pymantic.rdf import List
 
-- 
2.43.0


From fc568b2c1a955498b8e89b67f7057fbdb5ccf895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:00 +0000
Subject: [PATCH 26/56] fix: serialize_turtle wrote prefixed and relative names
 that denote other IRIs

---
 src/pymantic/serializers.py | 53 ++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index df27e3e..7bd1d15 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -62,10 +62,30 @@ def default_bnode_name_generator():
         i += 1
 
 
+PN_CHARS_BASE = (
+    "A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF"
+    "\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF"
+    "\uFDF0-\uFFFD\U00010000-\U000EFFFF"
+)
+PN_CHARS = PN_CHARS_BASE + "_0-9\u00B7\u0300-\u036F\u203F-\u2040-"
+PN_PREFIX = re.compile(f"([{PN_CHARS_BASE}]([{PN_CHARS}.]*[{PN_CHARS}])?)?")
+PN_LOCAL = re.compile(
+    rf"((?:[{PN_CHARS_BASE}_:0-9]|\\.)(?:(?:[{PN_CHARS}:.]|\\.)*(?:[{PN_CHARS}:]|\\.))?)?"
+)
+
+
 def escape_prefix_local(prefix):
+    """Escape the local part of a CURIE for turtle. Returns None if turtle has no
+    prefixed name for it."""
     prefix, colon, local = prefix.partition(":")
-    for esc_char in "~.-!$&'()*+,;=:/?#@%_":
+    for esc_char in "~!$&'()*+,;=/?#@%":
         local = local.replace(esc_char, "\\" + esc_char)
+    if local[:1] in (".", "-"):
+        local = "\\" + local
+    if local.endswith(".") and not local.endswith("\\."):
+        local = local[:-1] + "\\."
+    if not PN_PREFIX.fullmatch(prefix) or not PN_LOCAL.fullmatch(local):
+        return None
     return "".join((prefix, colon, local))
 
 
@@ -80,17 +100,30 @@ def turtle_repr(
     node, profile, name_map, bnode_name_maker, base=None, datatype_separator="^"
 ):
     """Turn a node in an RDF graph into its turtle representation."""
+    from pymantic.util import smart_urljoin
+
     if node.interfaceName == "NamedNode":
         name = profile.prefixes.shrink(node)
-        if base and name.startswith(base):
-            if base.endswith("#"):
-                name = f"<{str(name.replace(base, '#'))}>"
-            else:
-                name = f"<{str(name.replace(base, ''))}>"
-        if name == node:
-            name = f"<{str(name)}>"
+        prefix, _, local = name.partition(":")
+        namespace = profile.prefixes.get(prefix)
+        if (
+            name == node
+            or namespace is None
+            or smart_urljoin(base, namespace) + local != node
+        ):
+            name = None
         else:
-            escape_prefix_local(name)
+            name = escape_prefix_local(name)
+        if name is None:
+            name = str(node)
+            if base and name.startswith(base):
+                if base.endswith("#"):
+                    relative = name.replace(base, "#", 1)
+                else:
+                    relative = name.replace(base, "", 1)
+                if smart_urljoin(base, relative) == name:
+                    name = relative
+            name = f"<{name}>"
     elif node.interfaceName == "BlankNode":
         if node in name_map:
             name = name_map[node]
@@ -137,7 +170,7 @@ def serialize_turtle(
 
         profile = Profile()
     for prefix, iri in profile.prefixes.items():
-        if prefix != "rdf":
+        if prefix != "rdf" and PN_PREFIX.fullmatch(prefix):
             f.write("@prefix " + prefix + ": <" + iri + "> .\n")
 
     name_map = OrderedDict()
-- 
2.43.0


From d350f91999b8c134f525ea9e82a6dcbc0ab4f7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:03 +0000
Subject: [PATCH 27/56] fix: serialize_turtle lost or failed on lists of nodes
 and irregular lists

---
 src/pymantic/serializers.py | 69 +++++++++++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 11 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 7bd1d15..1968dfe 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -1,6 +1,7 @@
 from collections import OrderedDict
 import re
 
+RDF_NS = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
 XSD_NS = "http://www.w3.org/2001/XMLSchema#"
 
 # Lexical forms that turtle reads as a literal of the datatype when unquoted.
@@ -156,6 +157,55 @@ def turtle_sorted_names(nodes, name_maker):
     return sorted((name_maker(node), node) for node in nodes)
 
 
+def turtle_collections(graph):
+    """Find the lists of a graph that turtle collections can express: those made
+    of blank nodes with nothing but a first and a rest, each referred to once.
+    Returns the members of each list by its first cell, and the set of all cells.
+    """
+
+    def is_cell(node):
+        return (
+            node.interfaceName == "BlankNode"
+            and sorted(t.predicate for t in graph.match(subject=node))
+            == [RDF_NS + "first", RDF_NS + "rest"]
+            and len(list(graph.match(object=node))) == 1
+        )
+
+    collections = {}
+    references = {}
+    list_of_cell = {}
+    for end in graph.match(predicate=RDF_NS + "rest", object=RDF_NS + "nil"):
+        cells = []
+        cell = end.subject
+        while is_cell(cell):
+            cells.append(cell)
+            (reference,) = graph.match(object=cell)
+            cell = reference.subject
+            if reference.predicate != RDF_NS + "rest":
+                break
+        if cells:
+            head = cells[-1]
+            references[head] = reference.subject
+            list_of_cell.update((cell, head) for cell in cells)
+            collections[head] = [
+                t.object
+                for cell in reversed(cells)
+                for t in graph.match(subject=cell, predicate=RDF_NS + "first")
+            ]
+
+    # A list that is only referred to from within itself would never be written.
+    for head in list(collections):
+        seen = {head}
+        node = references[head]
+        while node in list_of_cell and list_of_cell[node] not in seen:
+            seen.add(list_of_cell[node])
+            node = references[list_of_cell[node]]
+        if node in list_of_cell:
+            del collections[head]
+
+    return collections, {c for c, head in list_of_cell.items() if head in collections}
+
+
 def serialize_turtle(
     graph, f, base=None, profile=None, bnode_name_generator=default_bnode_name_generator
 ):
@@ -179,9 +229,14 @@ def serialize_turtle(
     def name_maker(n):
         return turtle_repr(n, profile, name_map, bnode_name_maker, base, "^^")
 
-    from pymantic.rdf import List
+    collections, cells = turtle_collections(graph)
 
-    subjects = [subj for subj in graph.subjects() if not List.is_list(subj, graph)]
+    def object_maker(n):
+        if n in collections:
+            return "(" + " ".join(object_maker(m) for m in collections[n]) + ")"
+        return name_maker(n)
+
+    subjects = [subj for subj in graph.subjects() if subj not in cells]
 
     for subject_name, subject in turtle_sorted_names(subjects, name_maker):
         subj_indent_size = len(subject_name) + 1
@@ -198,14 +253,6 @@ def serialize_turtle(
             ):
                 if j != 0:
                     f.write(",\n" + " " * pred_indent_size)
-                if List.is_list(triple.object, graph):
-                    f.write("(")
-                    for k, o in enumerate(List(graph, triple.object)):
-                        if k != 0:
-                            f.write(" ")
-                        f.write(name_maker(o))
-                    f.write(")")
-                else:
-                    f.write(name_maker(triple.object))
+                f.write(object_maker(triple.object))
             f.write(" ;\n")
         f.write(" " * subj_indent_size + ".\n\n")
-- 
2.43.0


From 2bd438f54737d80d72c0aa8ec045d85729adc544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 28/56] fix: serialize_turtle used the rdf: prefix without
 declaring it

---
 src/pymantic/serializers.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 1968dfe..802609e 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -1,4 +1,5 @@
 from collections import OrderedDict
+from io import StringIO
 import re
 
 RDF_NS = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
@@ -213,21 +214,20 @@ def serialize_turtle(
     and prefix map from profile. If provided, subject_key will be used to order
     subjects, and predicate_key predicates within a subject."""
 
-    if base is not None:
-        f.write("@base <" + base + "> .\n")
     if profile is None:
         from pymantic.primitives import Profile
 
         profile = Profile()
-    for prefix, iri in profile.prefixes.items():
-        if prefix != "rdf" and PN_PREFIX.fullmatch(prefix):
-            f.write("@prefix " + prefix + ": <" + iri + "> .\n")
 
     name_map = OrderedDict()
     bnode_name_maker = bnode_name_generator()
 
+    names = set()
+
     def name_maker(n):
-        return turtle_repr(n, profile, name_map, bnode_name_maker, base, "^^")
+        name = turtle_repr(n, profile, name_map, bnode_name_maker, base, "^^")
+        names.add(name)
+        return name
 
     collections, cells = turtle_collections(graph)
 
@@ -238,6 +238,9 @@ def serialize_turtle(
 
     subjects = [subj for subj in graph.subjects() if subj not in cells]
 
+    output = f
+    f = StringIO()  # The prefixes needed are only known once the body is written.
+
     for subject_name, subject in turtle_sorted_names(subjects, name_maker):
         subj_indent_size = len(subject_name) + 1
         f.write(subject_name + " ")
@@ -256,3 +259,14 @@ def serialize_turtle(
                 f.write(object_maker(triple.object))
             f.write(" ;\n")
         f.write(" " * subj_indent_size + ".\n\n")
+
+    if base is not None:
+        output.write("@base <" + base + "> .\n")
+    for prefix, iri in profile.prefixes.items():
+        if prefix == "rdf" and not any(
+            name.startswith("rdf:") or "^^rdf:" in name for name in names
+        ):
+            continue
+        if PN_PREFIX.fullmatch(prefix):
+            output.write("@prefix " + prefix + ": <" + iri + "> .\n")
+    output.write(f.getvalue())
-- 
2.43.0


From c83a3ba122343c14846b566df73199d56264b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:44 +0000
Subject: [PATCH 29/56] fix: to_curie replaced every occurrence of the
 namespace, not only the leading one

---
 src/pymantic/primitives.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index e086e7e..f01d10f 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -106,10 +106,11 @@ def to_curie(uri, namespaces, seperator=":", explicit=False):
             matches.append((prefix, namespace))
     if len(matches) > 0:
         prefix, namespace = sorted(matches, key=lambda pair: -len(pair[1]))[0]
+        curie = uri.replace(namespace, prefix + seperator, 1)
         if explicit:
-            return f"[{uri.replace(namespace, prefix + seperator)}]"
+            return f"[{curie}]"
         else:
-            return uri.replace(namespace, prefix + seperator)
+            return curie
     return uri
 
 
-- 
2.43.0


From dccf4282e4dc4d1ac0ce0e0e8debba64a9f66cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:48 +0000
Subject: [PATCH 30/56] fix: parse_curie resolved 'prefix:' in the default
 namespace

---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index f01d10f..71c2d4d 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -72,7 +72,7 @@ def parse_curie(curie, prefixes):
     if not definitely_curie:
         if prefix in uri_schemes.schemes:
             return NamedNode(curie)
-    if not reference and "" in prefixes:
+    if not sep and "" in prefixes:
         reference = prefix
         return Prefix(prefixes[""])(reference)
     if prefix in prefixes:
-- 
2.43.0


From c0512c1ec4a39f3767cba400b7a89bb5ae2c7df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:50 +0000
Subject: [PATCH 31/56] fix: profiles created from an RDFEnvironment shared its
 maps and lost its default vocabulary

---
 src/pymantic/primitives.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 71c2d4d..e9a65f9 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -739,8 +739,8 @@ class Profile:
     Terms and IRIs."""
 
     def __init__(self, prefixes=None, terms=None):
-        self.prefixes = prefixes or PrefixMap()
-        self.terms = terms or TermMap()
+        self.prefixes = PrefixMap() if prefixes is None else prefixes
+        self.terms = TermMap() if terms is None else terms
         if "rdf" not in self.prefixes:
             self.prefixes["rdf"] = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
         if "xsd" not in self.prefixes:
@@ -833,13 +833,16 @@ class RDFEnvironment(Profile):
         if empty:
             return Profile()
         else:
-            return Profile(self.prefixes, self.terms)
+            return Profile(self.createPrefixMap(), self.createTermMap())
 
     def createTermMap(self, empty=False):
         if empty:
             return TermMap()
         else:
-            return TermMap(self.terms)
+            terms = TermMap(self.terms)
+            if hasattr(self.terms, "default"):
+                terms.setDefault(self.terms.default)
+            return terms
 
     def createPrefixMap(self, empty=False):
         if empty:
-- 
2.43.0


From 959295de2ab5c1f1f8da91662bed05fb65c6eed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:09 +0000
Subject: [PATCH 32/56] fix: Resource.new turned blank nodes into IRIs

---
 src/pymantic/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 5c0a48d..d0ff7d3 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -129,7 +129,7 @@ class Resource(metaclass=MetaResource):
         # graph.bind(prefix, Prefix)
         if subject is None:
             subject = BlankNode()
-        if not isinstance(subject, NamedNode):
+        if not isinstance(subject, NamedNode) and not isinstance(subject, BlankNode):
             subject = NamedNode(subject)
         for rdf_class in cls.rdf_classes:
             graph.add(Triple(subject, cls.resolve("rdf:type"), rdf_class))
-- 
2.43.0


From bd75e19d7110c89f8c818e909a22cd1a0ef3d078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:11 +0000
Subject: [PATCH 33/56] fix: Resource.copy failed, leaving a stray tuple in the
 graph

---
 src/pymantic/rdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index d0ff7d3..dc6d0f8 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -540,8 +540,8 @@ class Resource(metaclass=MetaResource):
             target_subject, BlankNode
         ):
             target_subject = NamedNode(target_subject)
-        for t in self.graph.match(self.subject, None, None):
-            self.graph.add((target_subject, t.predicate, t.object))
+        for t in list(self.graph.match(self.subject, None, None)):
+            self.graph.add(Triple(target_subject, t.predicate, t.object))
         return self.classify(self.graph, target_subject)
 
     def as_(self, target_class):
-- 
2.43.0


From e4431aed9d1a9339ebb4671a8d5ce4ffb3b22e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:14 +0000
Subject: [PATCH 34/56] fix: Resource.in_graph reported nodes that lack some of
 the class's types

---
 src/pymantic/rdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index dc6d0f8..00b353e 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -363,8 +363,8 @@ class Resource(metaclass=MetaResource):
     def in_graph(cls, graph):
         """Iterate through all instances of this Resource in the graph."""
         subjects = set()
-        for rdf_class in cls.rdf_classes:
-            if not subjects:
+        for i, rdf_class in enumerate(cls.rdf_classes):
+            if i == 0:
                 subjects.update(
                     [
                         t.subject
-- 
2.43.0


From 319806bccfe4b5c0915a191ca83cbc1d9489063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:16 +0000
Subject: [PATCH 35/56] fix: iterating a List dropped literals in languages
 other than English

---
 src/pymantic/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 00b353e..e34cad7 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -560,7 +560,7 @@ class List(Resource):
         """Iterating over lists works differently from normal Resources."""
         current = self
         while current.subject != self.resolve("rdf:nil"):
-            yield current["rdf:first"]
+            yield current.get_scalar(("rdf:first", None))
             current = current["rdf:rest"]
             if current.subject != self.resolve("rdf:nil"):
                 current = current.as_(type(self))
-- 
2.43.0


From 25368c81ef5fb6ac53860f65a28fe02d4304504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:18 +0000
Subject: [PATCH 36/56] fix: pymantic.vocab.skos could not be imported

---
 src/pymantic/vocab/skos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/vocab/skos.py b/src/pymantic/vocab/skos.py
index 36c23a7..b34e2b4 100644
--- a/src/pymantic/vocab/skos.py
+++ b/src/pymantic/vocab/skos.py
@@ -5,9 +5,9 @@ NS_DICT = dict(skos=SKOS_NS)
 
 
 class SKOSResource(Resource):
-    namespaces = NS_DICT
+    prefixes = NS_DICT
 
-    scaler = ["skos:prefLabel"]
+    scalars = ["skos:prefLabel"]
 
 
 @register_class("skos:Concept")
-- 
2.43.0


From 84f405854dfbc2af7a74e470483e207c44f5d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:48 +0000
Subject: [PATCH 37/56] fix: Resource.classify failed on related classes and
 forgot later registrations

---
 src/pymantic/rdf.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index e34cad7..50c3061 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -406,26 +406,37 @@ class Resource(metaclass=MetaResource):
         types = frozenset(
             [t.object for t in graph.match(obj, cls.resolve("rdf:type"), None)]
         )
-        python_classes = tuple(
-            cls._meta_resource._classes[t]
+        registered = {
+            t: cls._meta_resource._classes[t]
             for t in types
             if t in cls._meta_resource._classes
+        }
+        # Classes that another one already extends would conflict with it.
+        python_classes = tuple(
+            python_class
+            for python_class in dict.fromkeys(registered.values())
+            if not any(
+                issubclass(other, python_class)
+                for other in registered.values()
+                if other is not python_class
+            )
         )
         if len(python_classes) == 0:
             return Resource(graph, obj)
         elif len(python_classes) == 1:
             return python_classes[0](graph, obj)
         else:
-            if types not in cls._meta_resource._classes:
+            key = frozenset(registered.items())
+            if key not in cls._meta_resource._classes:
                 the_class = cls._meta_resource.__new__(
                     cls._meta_resource,
                     "".join(python_class.__name__ for python_class in python_classes),
                     python_classes,
                     {"_autocreate": True},
                 )
-                cls._meta_resource._classes[types] = the_class
-                the_class.rdf_classes = frozenset(types)
-            return cls._meta_resource._classes[types](graph, obj)
+                cls._meta_resource._classes[key] = the_class
+                the_class.rdf_classes = frozenset(registered)
+            return cls._meta_resource._classes[key](graph, obj)
 
     def _interpret_key(self, key):
         """Break up a key into a predicate name and optional language or
-- 
2.43.0


From 18e43ead196bed2c2244bc48cc12f74ef9b0ed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 38/56] fix: resource references were refused when setting with
 a language or datatype filter

---
 src/pymantic/rdf.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 50c3061..b98d1fc 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -524,7 +524,7 @@ class Resource(metaclass=MetaResource):
         dictionary-style set with explicit type information."""
         if not check_objects(self.graph, value, lang, datatype, rdf_class):
             raise ValueError("Improper value provided.")
-        if lang and predicate in self.scalars:
+        if lang and predicate in self.scalars and not isinstance(value, Resource):
             return (
                 self.objects_by_lang(predicate, lang)
                 + self.objects_by_datatype(predicate)
@@ -614,17 +614,9 @@ def check_objects(graph, value, lang, datatype, rdf_class):
     if isinstance(value, frozenset) or (
         isinstance(value, tuple) and not isinstance(value, Literal)
     ):
-        for v in value:
-            if (
-                (
-                    lang
-                    and (not hasattr(v, "language") or not lang_match(v.language, lang))
-                )
-                or (datatype and v.datatype != datatype)
-                or (rdf_class and not isinstance(v, rdf_class))
-            ):
-                return False
-        return True
+        return all(check_objects(graph, v, lang, datatype, rdf_class) for v in value)
+    elif isinstance(value, Resource):
+        return not rdf_class or isinstance(value, rdf_class)
     else:
         return (
             (lang and lang_match(value.language, lang))
-- 
2.43.0


From e91c5dda72b1bc4e11ac62d55c60a7310128b8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:53 +0000
Subject: [PATCH 39/56] fix: setting with an empty, xsd:string or None filter
 failed

---
 src/pymantic/rdf.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index b98d1fc..7528346 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -542,6 +542,10 @@ class Resource(metaclass=MetaResource):
             )
         elif rdf_class:
             return self.objects_by_type(predicate, rdf_class)
+        elif lang == "" or datatype == "":
+            return self.bare_literals(predicate) + self.objects_by_type(predicate)
+        else:
+            return self.objects(predicate)
 
     def copy(self, target_subject):
         """Create copies of all triples with this resource as their subject
@@ -603,7 +607,7 @@ def objectify_value(graph, value, lang=None, datatype=None):
     elif isinstance(value, Literal) or isinstance(value, Resource):
         return value
     elif isinstance(value, str):
-        return Literal(value, language=lang, datatype=datatype)
+        return Literal(value, language=lang or None, datatype=datatype or None)
     else:
         return Literal(value)
 
@@ -622,4 +626,10 @@ def check_objects(graph, value, lang, datatype, rdf_class):
             (lang and lang_match(value.language, lang))
             or (datatype and value.datatype == datatype)
             or (rdf_class and isinstance(value, rdf_class))
+            or (
+                (lang == "" or datatype == "")
+                and value.language is None
+                and value.datatype is None
+            )
+            or (lang is None and datatype is None and rdf_class is None)
         )
-- 
2.43.0


From 8e5bf1bc761a06969407803d33ca43b7ae99a41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:56 +0000
Subject: [PATCH 40/56] fix: sequences could be stored in scalars by setting
 with a filter

---
 src/pymantic/rdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 7528346..862ebca 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -524,6 +524,8 @@ class Resource(metaclass=MetaResource):
         dictionary-style set with explicit type information."""
         if not check_objects(self.graph, value, lang, datatype, rdf_class):
             raise ValueError("Improper value provided.")
+        if isinstance(value, frozenset) and predicate in self.scalars:
+            raise ValueError("Cannot store sequences in scalars")
         if lang and predicate in self.scalars and not isinstance(value, Resource):
             return (
                 self.objects_by_lang(predicate, lang)
-- 
2.43.0


From a0ee22fa8709c0a61fb78fa0f9fbdfa0baea8dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:54 +0000
Subject: [PATCH 41/56] fix: normalize_iri failed on escapes that are not UTF-8
 and unescaped illegal characters

---
 src/pymantic/util.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/pymantic/util.py b/src/pymantic/util.py
index cf0b769..7983805 100644
--- a/src/pymantic/util.py
+++ b/src/pymantic/util.py
@@ -30,9 +30,7 @@ def one_or_none(values):
     return values[0]
 
 
-percent_encoding_re = re.compile(
-    r"(?:%(?![01][0-9a-fA-F])(?!20)[a-fA-F0-9][a-fA-F0-9])+"
-)
+percent_encoding_re = re.compile(r"(?:%[a-fA-F0-9][a-fA-F0-9])+")
 
 reserved_in_iri = [
     "%",
@@ -61,10 +59,18 @@ def percent_decode(regmatch):
     encoded = b""
     for group in regmatch.group(0)[1:].split("%"):
         encoded += int(group, 16).to_bytes(1, "big")
-    uni = encoded.decode("utf-8")
-    for res in reserved_in_iri:
-        uni = uni.replace(res, "%%%02X" % ord(res))
-    return uni
+    # Bytes that are not UTF-8 become surrogates, which must stay encoded too.
+    uni = encoded.decode("utf-8", "surrogateescape")
+    return "".join(
+        percent_encode(char)
+        if char in reserved_in_iri
+        or char in '<>"{}|^`\\'
+        or char <= " "
+        or char == "\x7f"
+        or "\udc80" <= char <= "\udcff"
+        else char
+        for char in uni
+    )
 
 
 def normalize_iri(iri):
@@ -76,7 +82,9 @@ def normalize_iri(iri):
 
 
 def percent_encode(char):
-    return "".join("%%%02X" % char for char in char.encode("utf-8"))
+    return "".join(
+        "%%%02X" % char for char in char.encode("utf-8", "surrogateescape")
+    )
 
 
 def quote_normalized_iri(normalized_iri):
-- 
2.43.0


From 53d0ab7deacf67d45df4d2c8829bd953a8ed0665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:57 +0000
Subject: [PATCH 42/56] fix: JSON-LD language literals carried a datatype as
 well

---
 src/pymantic/parsers/jsonld.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 29541fa..073b848 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -54,6 +54,7 @@ class PyLDLoader(BaseParser):
             language = None
             if "language" in triple_fragment:
                 language = triple_fragment["language"]
+                return self.make_language_literal(triple_fragment["value"], language)
             return self.env.createLiteral(
                 value=triple_fragment["value"],
                 datatype=self.env.createNamedNode(triple_fragment["datatype"]),
-- 
2.43.0


From dea14f2eb6eda706ed5e836449d8817a64c63301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:00 +0000
Subject: [PATCH 43/56] fix: JSON-LD graphs named by blank nodes were named by
 IRIs

---
 src/pymantic/parsers/jsonld.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 073b848..dec17ce 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -66,11 +66,12 @@ class PyLDLoader(BaseParser):
 
         dataset = to_rdf(jobj, options=options)
         for graph_name, triples in dataset.items():
-            graph_iri = (
-                self.env.createNamedNode(graph_name)
-                if graph_name != "@default"
-                else None
-            )
+            if graph_name == "@default":
+                graph_iri = None
+            elif graph_name.startswith("_:"):
+                graph_iri = self._call_state.bnodes[graph_name]
+            else:
+                graph_iri = self.env.createNamedNode(graph_name)
             for triple in triples:
                 self.make_quad(
                     (
-- 
2.43.0


From 3064c19969adca379a3c39bed827d72d15b1d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:39 +0000
Subject: [PATCH 44/56] fix: a query answered with 204 No Content failed

---
 src/pymantic/sparql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 848625c..ad17771 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -137,6 +137,8 @@ class _Select(_SelectOrUpdate):
 
     def execute(self):
         response = super(_Select, self).execute()
+        if response is True:
+            return response
         format = None
         if response.headers["content-type"].startswith("application/rdf+xml"):
             format = "xml"
-- 
2.43.0


From f92b00108adb4ca348132d864f63a9a079d74d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:41 +0000
Subject: [PATCH 45/56] fix: SPARQL responses in RDF/XML, Turtle or XML results
 could not be read

---
 src/pymantic/sparql.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index ad17771..b809680 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -1,7 +1,7 @@
 """Provide an interface to SPARQL query endpoints."""
 
 import datetime
-from io import StringIO
+from io import BytesIO, StringIO
 import json
 import logging
 from lxml import objectify
@@ -147,7 +147,9 @@ class _Select(_SelectOrUpdate):
 
         if format:
             graph = rdflib.ConjunctiveGraph()
-            graph.parse(StringIO(response.content), self.query_url, format=format)
+            graph.parse(
+                BytesIO(response.content), self.server.query_url, format=format
+            )
             return graph
         elif response.headers["content-type"].startswith(
             "application/sparql-results+json"
@@ -156,7 +158,7 @@ class _Select(_SelectOrUpdate):
         elif response.headers["content-type"].startswith(
             "application/sparql-results+xml"
         ):
-            return objectify.parse(StringIO(response.content))
+            return objectify.parse(BytesIO(response.content))
         else:
             raise UnknownSPARQLReturnTypeException(
                 "Got content of type: %s" % response.headers["content-type"]
-- 
2.43.0


From 4cc45f5aa1b67826ad8b8ea2efb8d57de30bc3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:45 +0000
Subject: [PATCH 46/56] fix: a SPARQL response without a content type raised
 KeyError

---
 src/pymantic/sparql.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index b809680..c6f7dde 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -139,10 +139,11 @@ class _Select(_SelectOrUpdate):
         response = super(_Select, self).execute()
         if response is True:
             return response
+        content_type = response.headers.get("content-type", "")
         format = None
-        if response.headers["content-type"].startswith("application/rdf+xml"):
+        if content_type.startswith("application/rdf+xml"):
             format = "xml"
-        elif response.headers["content-type"].startswith("text/turtle"):
+        elif content_type.startswith("text/turtle"):
             format = "turtle"
 
         if format:
@@ -151,17 +152,13 @@ class _Select(_SelectOrUpdate):
                 BytesIO(response.content), self.server.query_url, format=format
             )
             return graph
-        elif response.headers["content-type"].startswith(
-            "application/sparql-results+json"
-        ):
+        elif content_type.startswith("application/sparql-results+json"):
             return json.loads(response.content.decode("utf-8"))
-        elif response.headers["content-type"].startswith(
-            "application/sparql-results+xml"
-        ):
+        elif content_type.startswith("application/sparql-results+xml"):
             return objectify.parse(BytesIO(response.content))
         else:
             raise UnknownSPARQLReturnTypeException(
-                "Got content of type: %s" % response.headers["content-type"]
+                "Got content of type: %s" % content_type
             )
 
 
-- 
2.43.0


From 029ae70ff23e0f08c0bb1e976582f797eb851db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:58 +0000
Subject: [PATCH 47/56] fix: the graph store client referred to names that do
 not exist in Python 3

---
 src/pymantic/sparql.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index c6f7dde..a671a36 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -1,15 +1,14 @@
 """Provide an interface to SPARQL query endpoints."""
 
 import datetime
-from io import BytesIO, StringIO
+from io import BytesIO
 import json
 import logging
 from lxml import objectify
 import pytz
 import rdflib
 import requests
-import urllib
-from urllib.parse import urlparse
+from urllib.parse import quote_plus, urlencode, urljoin
 
 log = logging.getLogger(__name__)
 
@@ -239,15 +238,15 @@ class UpdateableGraphStore(SPARQLServer):
 
     def request_url(self, graph_uri):
         if self.param_style:
-            return self.dataset_url + "?" + urllib.urlencode({"graph": graph_uri})
+            return self.dataset_url + "?" + urlencode({"graph": graph_uri})
         else:
-            return urlparse.urljoin(self.dataset_url, urllib.quote_plus(graph_uri))
+            return urljoin(self.dataset_url, quote_plus(graph_uri))
 
     def get(self, graph_uri):
         response = self.s.get(
             self.request_url(graph_uri),
             headers={"Accept": ",".join(self.acceptable_graph_responses)},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code != 200:
             raise Exception(
@@ -256,19 +255,17 @@ class UpdateableGraphStore(SPARQLServer):
             )
         graph = rdflib.ConjunctiveGraph()
         if response.headers["content-type"].startswith("text/plain"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="nt")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="nt")
         elif response.headers["content-type"].startswith("application/rdf+xml"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="xml")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="xml")
         elif response.headers["content-type"].startswith("text/turtle"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="turtle")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="turtle")
         elif response.headers["content-type"].startswith("text/rdf+n3"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="n3")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="n3")
         return graph
 
     def delete(self, graph_uri):
-        response = self.s.delete(
-            self.request_url(graph_uri), **self.server.request_kwargs
-        )
+        response = self.s.delete(self.request_url(graph_uri), **self.requests_kwargs)
         if response.status_code not in (200, 202):
             raise Exception(
                 "Error from Graph Store (%s): %s"
@@ -281,7 +278,7 @@ class UpdateableGraphStore(SPARQLServer):
             self.request_url(graph_uri),
             data=graph_triples,
             headers={"content-type": "text/plain"},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code not in (200, 201, 204):
             raise Exception(
@@ -296,7 +293,7 @@ class UpdateableGraphStore(SPARQLServer):
                 self.request_url(graph_uri),
                 data=graph_triples,
                 headers={"content-type": "text/plain"},
-                **self.server.requests_kwargs
+                **self.requests_kwargs
             )
             if response.status_code not in (200, 201, 204):
                 raise Exception(
@@ -308,7 +305,7 @@ class UpdateableGraphStore(SPARQLServer):
                 self.dataset_url,
                 data=graph_triples,
                 headers={"content-type": "text/plain"},
-                **self.server.requests_kwargs
+                **self.requests_kwargs
             )
             if response.status_code != 201:
                 raise Exception(
@@ -327,7 +324,7 @@ class PatchableGraphStore(UpdateableGraphStore):
             self.request_url(graph_uri),
             data=graph_xml,
             headers={"content-type": "application/vnd.talis.changeset+xml"},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code not in (200, 201, 204):
             raise Exception(
-- 
2.43.0


From 062ae127c7dd7b1494ce70731bb8d533e5819807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:00 +0000
Subject: [PATCH 48/56] fix: deleting a graph failed when the store answered
 204 No Content

---
 src/pymantic/sparql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index a671a36..33355ca 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -266,7 +266,7 @@ class UpdateableGraphStore(SPARQLServer):
 
     def delete(self, graph_uri):
         response = self.s.delete(self.request_url(graph_uri), **self.requests_kwargs)
-        if response.status_code not in (200, 202):
+        if response.status_code not in (200, 202, 204):
             raise Exception(
                 "Error from Graph Store (%s): %s"
                 % (response.status_code, response.content)
-- 
2.43.0


From 1128374e28eb3f30d51192f4441218310b9d9d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:06 +0000
Subject: [PATCH 49/56] fix: NamedNodes could not be pickled with protocols 0
 and 1

str() of a NamedNode gave the NamedNode itself, so the legacy pickle
protocols recursed without end. Give a plain string.
---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index e9a65f9..83953c3 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -313,7 +313,7 @@ class NamedNode(str):
         return f"NamedNode({self.toNT()})"
 
     def __str__(self):
-        return self.value
+        return super().__str__()
 
     def toNT(self):
         return f"<{nt_escape(quote_normalized_iri(self.value))}>"
-- 
2.43.0


From d7ac346182c59fa047a43d92601d44c8c82651d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:48 +0000
Subject: [PATCH 50/56] fix: show a resource whose label is not a literal by
 its node

---
 src/pymantic/rdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 862ebca..c026bc6 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -384,8 +384,9 @@ class Resource(metaclass=MetaResource):
         return "<%r: %s>" % (type(self), self.subject)
 
     def __str__(self):
-        if self["rdfs:label"]:
-            return self["rdfs:label"].value
+        label = self["rdfs:label"]
+        if isinstance(label, Literal):
+            return label.value
         else:
             return str(self.subject)
 
-- 
2.43.0


From 97e4adcaa794e968107bf7b869c94c2ee9c47744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:40 +0000
Subject: [PATCH 51/56] fix: let go of the target graph when a JSON-LD document
 cannot be parsed

---
 src/pymantic/parsers/jsonld.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index dec17ce..c2f9ba1 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -28,8 +28,10 @@ class PyLDLoader(BaseParser):
         if sink is None:
             sink = self._make_graph()
         self._prepare_parse(sink)
-        self.process_jobj(jobj, options)
-        self._cleanup_parse()
+        try:
+            self.process_jobj(jobj, options)
+        finally:
+            self._cleanup_parse()
 
         return sink
 
-- 
2.43.0


From 0c376d0444113db4c0db606151f85300fb195855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:21 +0000
Subject: [PATCH 52/56] fix: resolve references with many dot segments in
 linear time

---
 src/pymantic/util.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/pymantic/util.py b/src/pymantic/util.py
index 7983805..e15f9cf 100644
--- a/src/pymantic/util.py
+++ b/src/pymantic/util.py
@@ -103,25 +103,21 @@ iri_reference_re = re.compile(
 )
 
 
+leading_dots_re = re.compile(r"(\.{1,2}/)*(\.{1,2}\Z)?")
+
+
 def remove_dot_segments(path):
     """Remove the . and .. segments of a path (RFC 3986, 5.2.4)."""
-    output = []
-    while path:
-        if path.startswith(("./", "../")):
-            path = path.partition("/")[2]
-        elif path in (".", ".."):
-            path = ""
-        elif path.startswith("/./") or path == "/.":
-            path = "/" + path[3:]
-        elif path.startswith("/../") or path == "/..":
-            path = "/" + path[4:]
+    path = path[leading_dots_re.match(path).end() :]
+    first, *segments = path.split("/")
+    output = [first] if first else []
+    for segment in segments:
+        if segment == "..":
             del output[-1:]
-        else:
-            end = path.find("/", 1)
-            if end == -1:
-                end = len(path)
-            output.append(path[:end])
-            path = path[end:]
+        elif segment != ".":
+            output.append("/" + segment)
+    if segments and segments[-1] in (".", ".."):
+        output.append("/")
     return "".join(output)
 
 
-- 
2.43.0


From 0f524bf9176ffc1d48e1799ea497df00f8c752fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:50 +0000
Subject: [PATCH 53/56] fix: complete a combined resource class before other
 threads can use it

Resource.classify published the class it makes for a combination of registered
classes before setting its rdf_classes, and two threads could each make one.
---
 src/pymantic/rdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index c026bc6..dfcf589 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -435,8 +435,9 @@ class Resource(metaclass=MetaResource):
                     python_classes,
                     {"_autocreate": True},
                 )
-                cls._meta_resource._classes[key] = the_class
+                # Complete before other threads can find it.
                 the_class.rdf_classes = frozenset(registered)
+                cls._meta_resource._classes.setdefault(key, the_class)
             return cls._meta_resource._classes[key](graph, obj)
 
     def _interpret_key(self, key):
-- 
2.43.0


From 6d544b532c48f50c89a81082fbf50a8b4141f471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:51 +0000
Subject: [PATCH 54/56] fix: leave a graph intact when adding or removing
 something that is no triple

Graph.add put its argument into the set of triples before finding that it has
no subject, predicate or object, and raised with the set and the indexes out of
step; Graph.remove likewise for a plain tuple equal to a triple.
---
 src/pymantic/primitives.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 83953c3..1b11d26 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -393,22 +393,24 @@ class Graph:
     def add(self, triple):
         """Adds the specified Triple to the graph. This method returns the
         graph instance it was called on."""
+        subject, predicate, object = triple.subject, triple.predicate, triple.object
         self._triples.add(triple)
-        self._spo[triple.subject][triple.predicate][triple.object] = triple
-        self._pos[triple.predicate][triple.object][triple.subject] = triple
-        self._osp[triple.object][triple.subject][triple.predicate] = triple
+        self._spo[subject][predicate][object] = triple
+        self._pos[predicate][object][subject] = triple
+        self._osp[object][subject][predicate] = triple
         return self
 
     def remove(self, triple):
         """Removes the specified Triple from the graph. This method returns the
         graph instance it was called on."""
+        subject, predicate, object = triple.subject, triple.predicate, triple.object
         self._triples.remove(triple)
-        del self._spo[triple.subject][triple.predicate][triple.object]
-        del self._pos[triple.predicate][triple.object][triple.subject]
-        del self._osp[triple.object][triple.subject][triple.predicate]
-        prune_index(self._spo, triple.subject, triple.predicate)
-        prune_index(self._pos, triple.predicate, triple.object)
-        prune_index(self._osp, triple.object, triple.subject)
+        del self._spo[subject][predicate][object]
+        del self._pos[predicate][object][subject]
+        del self._osp[object][subject][predicate]
+        prune_index(self._spo, subject, predicate)
+        prune_index(self._pos, predicate, object)
+        prune_index(self._osp, object, subject)
         return self
 
     def match(self, subject=None, predicate=None, object=None):
-- 
2.43.0


From dc13078dfce760e33d604956e51271707c86216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 55/56] fix: raise the documented error also where bytes may
 not be formatted as text

Error messages formatted the body of a response with %s, which is an error of
its own under python -bb; %r gives the same text.
---
 src/pymantic/sparql.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 33355ca..2f70752 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -96,7 +96,7 @@ class _SelectOrUpdate:
             return True
         if response.status_code != 200:
             raise SPARQLQueryException(
-                "%s: %s\nQuery: %s" % (response.headers, response.content, self.sparql)
+                "%s: %r\nQuery: %s" % (response.headers, response.content, self.sparql)
             )
         return response
 
@@ -250,7 +250,7 @@ class UpdateableGraphStore(SPARQLServer):
         )
         if response.status_code != 200:
             raise Exception(
-                "Error from Graph Store (%s): %s"
+                "Error from Graph Store (%s): %r"
                 % (response.status_code, response.content)
             )
         graph = rdflib.ConjunctiveGraph()
@@ -268,7 +268,7 @@ class UpdateableGraphStore(SPARQLServer):
         response = self.s.delete(self.request_url(graph_uri), **self.requests_kwargs)
         if response.status_code not in (200, 202, 204):
             raise Exception(
-                "Error from Graph Store (%s): %s"
+                "Error from Graph Store (%s): %r"
                 % (response.status_code, response.content)
             )
 
@@ -282,7 +282,7 @@ class UpdateableGraphStore(SPARQLServer):
         )
         if response.status_code not in (200, 201, 204):
             raise Exception(
-                "Error from Graph Store (%s): %s"
+                "Error from Graph Store (%s): %r"
                 % (response.status_code, response.content)
             )
 
@@ -297,7 +297,7 @@ class UpdateableGraphStore(SPARQLServer):
             )
             if response.status_code not in (200, 201, 204):
                 raise Exception(
-                    "Error from Graph Store (%s): %s"
+                    "Error from Graph Store (%s): %r"
                     % (response.status_code, response.content)
                 )
         else:
@@ -309,7 +309,7 @@ class UpdateableGraphStore(SPARQLServer):
             )
             if response.status_code != 201:
                 raise Exception(
-                    "Error from Graph Store (%s): %s"
+                    "Error from Graph Store (%s): %r"
                     % (response.status_code, response.content)
                 )
 
@@ -328,7 +328,7 @@ class PatchableGraphStore(UpdateableGraphStore):
         )
         if response.status_code not in (200, 201, 204):
             raise Exception(
-                "Error from Graph Store (%s): %s"
+                "Error from Graph Store (%s): %r"
                 % (response.status_code, response.content)
             )
         return True
-- 
2.43.0


From 04acae2e0c5335b03b258da8b6830551fbf4407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 56/56] fix: a parse may run within another of the same parser

Reading the source or filling the graph can run the program's own code, which
may use the same parser in the same thread. The inner parse took the blank node
labels and the graph of the outer one with it, which then failed with an
AttributeError. The clean-up also hid whatever was raised before the state was
set up, a KeyboardInterrupt for instance, behind such an AttributeError.
---
 src/pymantic/parsers/base.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/parsers/base.py b/src/pymantic/parsers/base.py
index 6c130fe..3e4f6f0 100644
--- a/src/pymantic/parsers/base.py
+++ b/src/pymantic/parsers/base.py
@@ -42,12 +42,17 @@ class BaseParser:
         return self.env.createQuad(subject, predicate, object, graph)
 
     def _prepare_parse(self, graph):
-        self._call_state.bnodes = defaultdict(self.env.createBlankNode)
-        self._call_state.graph = graph
+        state = vars(self._call_state)
+        # Reading the source or filling the graph may itself parse something.
+        state["outer"] = dict(state)
+        state["bnodes"] = defaultdict(self.env.createBlankNode)
+        state["graph"] = graph
 
     def _cleanup_parse(self):
-        del self._call_state.bnodes
-        del self._call_state.graph
+        state = vars(self._call_state)
+        outer = state.get("outer", {})
+        state.clear()
+        state.update(outer)
 
     def _make_graph(self):
         return self.env.createGraph()
-- 
2.43.0

