From 65db773c4f331f942689a64a17268d1f6fd7cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 01/40] fix: tokens without digits, such as '-' and '.', are
 strings and not numbers

Querying an edge with a '-' or '.' symbol raised ValueError.
---
 gb/hypergraph/edge.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 5edb25d..16d40f2 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -53,6 +53,7 @@ def token_type(token):
     s = token
     pos = 0
     point = False
+    digit = False
 
     while len(s) > 0:
         c = s[0]
@@ -66,10 +67,14 @@ def token_type(token):
                 point = True
         elif c < '0' or c > '9':
             return TokenType.STRING
+        else:
+            digit = True
         s = s[1:]
         pos += 1
 
-    if point:
+    if not digit:
+        return TokenType.STRING
+    elif point:
         return TokenType.DOUBLE
     else:
         return TokenType.INTEGER
-- 
2.43.0


From 91afe47213fa1298a54843a029f4f2b0034f059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 02/40] fix: very small and very large floats keep their value
 in the string form of an edge

str() gives these the exponent notation, which was read back as a symbol, so
that an edge such as ('is', 1e-07) could be added but never found or removed.
---
 gb/hypergraph/edge.py | 14 ++++++++++++--
 gb/hypergraph/sql.py  |  5 +----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 16d40f2..a45b6d5 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -19,6 +19,7 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+import numpy as np
 import gb.hypergraph.symbol as sym
 
 
@@ -133,6 +134,15 @@ def str2edge(edge_str):
         return elements[0]
 
 
+def atom2str(atom):
+    """Convert an atomic node to its string representation.
+    Floats never use the exponent notation, which str2edge does not recognise as a number."""
+    atom_str = str(atom)
+    if isinstance(atom, float) and 'e' in atom_str:
+        atom_str = np.format_float_positional(atom, trim='0')
+    return atom_str
+
+
 def nodes2str(edge):
     """Convert a collection of nodes to a string representation (no outer parenthesis)."""
     node_strings = []
@@ -140,7 +150,7 @@ def nodes2str(edge):
         if sym.sym_type(node) == sym.SymbolType.EDGE:
             node_strings.append(edge2str(node))
         else:
-            node_strings.append(str(node))
+            node_strings.append(atom2str(node))
     return ' '.join(node_strings)
 
 
@@ -149,7 +159,7 @@ def edge2str(edge):
     if sym.sym_type(edge) == sym.SymbolType.EDGE:
         return '(%s)' % nodes2str(edge)
     else:
-        return str(edge)
+        return atom2str(edge)
 
 
 def is_negative(edge):
diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 612f387..3b8e1fa 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -265,10 +265,7 @@ class SQL(Backend):
     def star(self, center):
         """Return all the edges that contain a given entity.
         Entity can be atomic or an edge."""
-        center_id = center
-        if isinstance(center, (list, tuple)):
-            center_id = ed.edge2str(center)
-        return self.str2perms(center_id)
+        return self.str2perms(ed.edge2str(center))
 
     def symbols_with_root(self, root):
         """Find all symbols with the given root."""
-- 
2.43.0


From 9ccdf91ec1900af4cdd76b58009f94cc72b52a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 03/40] fix: symbols with balanced parentheses, such as
 Wikipedia URLs, do not break edge parsing

Only the parentheses that end a token were counted, so http://x.org/a_(b) seemed
to close one that was never open.
---
 gb/hypergraph/edge.py | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index a45b6d5..34710b0 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -32,22 +32,6 @@ class TokenType(object):
     STRING = 2
 
 
-def open_pars(s):
-    """Number of consecutive open parenthesis at the beginning of the string."""
-    pos = 0
-    while s[pos] == '(':
-        pos += 1
-    return pos
-
-
-def close_pars(s):
-    """Number of consecutive close parenthesis at the end of the string."""
-    pos = -1
-    while s[pos] == ')':
-        pos -= 1
-    return -pos - 1
-
-
 def token_type(token):
     """Determine the type of a string token: STRING, INTEGER or DOUBLE."""
 
@@ -109,7 +93,7 @@ def split_edge_str(edge_str):
     depth = 0
     while len(stoks) > 0:
         tok = stoks[0]
-        depth = depth + open_pars(tok) - close_pars(tok)
+        depth = depth + tok.count('(') - tok.count(')')
         bottom = depth == 0
         if curtok is None:
             curtok = tok
-- 
2.43.0


From 6bd9921a3b60f942c3032f9178c0525bb85eed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 04/40] fix: queries work for edges that have an edge as their
 first or last element

A string that begins with the parenthesis of its first element lost its first
and last characters, so star(edge) and patterns starting with an edge raised
ValueError, and edges such as (('is', 'of'), 'a', ('b', 'c')) came back garbled.
---
 gb/hypergraph/edge.py | 17 ++++++++++++++++-
 gb/hypergraph/sql.py  |  2 +-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 34710b0..085f007 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -79,12 +79,27 @@ def parsed_token(token):
             return float(token)
 
 
+def has_outer_pars(edge_str):
+    """Check if the string is fully enclosed by one pair of parenthesis."""
+    if edge_str[0] != '(':
+        return False
+    depth = 0
+    for pos in range(len(edge_str)):
+        if edge_str[pos] == '(':
+            depth += 1
+        elif edge_str[pos] == ')':
+            depth -= 1
+            if depth == 0:
+                return pos == len(edge_str) - 1
+    return False
+
+
 def split_edge_str(edge_str):
     """Shallow split into tokens of a string representation of an edge,
     with or without outer parenthesis."""
 
     edge_inner_str = edge_str
-    if edge_str[0] == '(':
+    if has_outer_pars(edge_str):
         edge_inner_str = edge_str[1:-1]
     stoks = edge_inner_str.split()
 
diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 3b8e1fa..ccc0d1c 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -71,7 +71,7 @@ def cur2edges(cur):
         nper = int(tokens[-1])
         tokens = tokens[:-1]
         tokens = unpermutate(tokens, nper)
-        edge = ed.str2edge(' '.join(tokens))
+        edge = tuple(ed.parsed_token(token) for token in tokens)
         edges.append(edge)
     return set(edges)
 
-- 
2.43.0


From 7aa630a008dd4984ad777d2d57756da280f4ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 05/40] fix: edges with a single element are read back as edges
 and not as their element

---
 gb/hypergraph/edge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 085f007..656b89d 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -127,7 +127,7 @@ def str2edge(edge_str):
     """Convert a string representation of an edge to an edge."""
     tokens = split_edge_str(edge_str)
     elements = tuple(parsed_token(token) for token in tokens)
-    if len(elements) > 1:
+    if len(elements) > 1 or has_outer_pars(edge_str):
         return elements
     else:
         return elements[0]
-- 
2.43.0


From 39eb0016ae404803e42886a06ef3fe047138d209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 06/40] fix: str2symbol replaces every whitespace character,
 not just the space

Tabs, line breaks and non-breaking spaces separate the elements of an edge in
its string form, so the result was not a valid symbol.
---
 gb/hypergraph/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gb/hypergraph/symbol.py b/gb/hypergraph/symbol.py
index 24df140..7f643b7 100644
--- a/gb/hypergraph/symbol.py
+++ b/gb/hypergraph/symbol.py
@@ -110,7 +110,7 @@ def str2symbol(s):
     """Converts a string into a valid symbol"""
     sym = s.lower()
     sym = sym.replace("/", "_")
-    sym = sym.replace(" ", "_")
+    sym = ''.join('_' if c.isspace() else c for c in sym)
     sym = sym.replace("(", "_")
     sym = sym.replace(")", "_")
     return sym
-- 
2.43.0


From 0ab390c1c5de9b56c8c607cbf1eaf463f9e19366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 07/40] fix: patterns tell 7 from 7.0 and match lists with
 tuples

Vertices are identified by their string form, but were compared as Python values:
removing ('is', 'g/1', 7) when the hypergraph had ('is', 'g/1', 7.0) changed the
degrees and left the edge, and an edge with an inner list was never found to
exist, and so was added again and again.
---
 gb/hypergraph/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index ccc0d1c..5e9f0f0 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -89,7 +89,7 @@ def edge_matches_pattern(edge, pattern):
     if n != len(pattern):
         return False
     for i in range(n):
-        if (pattern[i] is not None) and (pattern[i] != edge[i]):
+        if (pattern[i] is not None) and (ed.edge2str(pattern[i]) != ed.edge2str(edge[i])):
             return False
     return True
 
-- 
2.43.0


From 0f354965bfd01c7f2eaf48ad74d3a2bed4329f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 08/40] fix: a pattern that only has wildcards matches all the
 edges of its size

It raised IndexError.
---
 gb/hypergraph/sql.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 5e9f0f0..0e83df1 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -193,10 +193,13 @@ class SQL(Backend):
         """Return all the edges that match a pattern.
         A pattern is a collection of entity ids and wildcards (None)."""
         nodes = [node for node in pattern if node is not None]
-        start_str = ed.nodes2str(nodes)
-        end_str = str_plus_1(start_str)
         cur = self.open_cursor()
-        cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
+        if len(nodes) == 0:
+            cur.execute('SELECT id FROM perms')
+        else:
+            start_str = ed.nodes2str(nodes)
+            end_str = str_plus_1(start_str)
+            cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
         edges = cur2edges(cur)
         self.close_cursor(cur, local=True, commit=False)
         return set([edge for edge in edges if edge_matches_pattern(edge, pattern)])
-- 
2.43.0


From 968f4f8eefeac2d8918c0e7d4fb0a5890ff54357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 09/40] fix: degree and timestamp do not close the cursor of an
 ongoing batch

Everything that came after them in the same batch raised ProgrammingError.
---
 gb/hypergraph/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 0e83df1..5c6a62c 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -298,7 +298,7 @@ class SQL(Backend):
         cur.execute('SELECT degree FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         for row in cur:
             deg = row[0]
-            cur.close()
+            self.close_cursor(cur, local=True, commit=False)
             return deg
         self.close_cursor(cur, local=True, commit=False)
         return 0
@@ -310,7 +310,7 @@ class SQL(Backend):
         cur.execute('SELECT timestamp FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         for row in cur:
             ts = row[0]
-            cur.close()
+            self.close_cursor(cur, local=True, commit=False)
             return ts
         self.close_cursor(cur, local=True, commit=False)
         return -1
-- 
2.43.0


From 162ad0396b311b94b7631af10db2b45c0408e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 10/40] fix: f_all visits every vertex even if f queries the
 hypergraph during a batch

The query replaced the results that f_all was going through.
---
 gb/hypergraph/sql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 5c6a62c..b42bb87 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -326,9 +326,10 @@ class SQL(Backend):
         """Returns a lazy sequence resulting from applying f to every
            vertex map (including non-atomic) in the hypergraph.
            A vertex map contains the keys vertex and degree."""
-        cur = self.open_cursor()
+        # not the cursor of a batch, because f can also use that one
+        cur = self.conn.cursor()
         cur.execute('SELECT id, degree FROM vertices')
         for row in cur:
             vmap = {'vertex': ed.str2edge(row[0]), 'degree': row[1]}
             yield f(vmap)
-        self.close_cursor(cur, local=True, commit=False)
+        cur.close()
-- 
2.43.0


From 8aa3bc1e933533c8990b2f00604d909644937ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 11/40] fix: the degree of an edge counts the edges it is part
 of, whatever the order

Adding an edge that was already part of another reset its degree to 0, and
removing it lost the degree, so that it could become negative afterwards.
---
 gb/hypergraph/sql.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index b42bb87..4a4f73f 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -231,7 +231,9 @@ class SQL(Backend):
                 vert_str = ed.edge2str(vert)
                 if not self.inc_degree(vert_str):
                     self.add_str(vert_str, 1, timestamp)
-            self.add_str(ed.edge2str(edge), 0, timestamp)
+            # the edge may already have a degree, from being part of other edges
+            edge_str = ed.edge2str(edge)
+            self.update_or_insert('vertices', {'id': edge_str, 'timestamp': timestamp}, edge_str)
             self.write_edge_permutations(edge)
         return edge
 
@@ -253,7 +255,9 @@ class SQL(Backend):
             for vert in edge:
                 self.dec_degree(ed.edge2str(vert))
             self.remove_edge_permutations(edge)
-            self.remove_str(ed.edge2str(edge))
+            # an edge that is still part of other edges remains as a vertex
+            if self.degree(edge) == 0:
+                self.remove_str(ed.edge2str(edge))
 
     def remove(self, edges):
         """Removes one or multiple edges from the hypergraph
-- 
2.43.0


From 1be49b3d90e2347f472fa80af09cf5f67e2aec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 12/40] fix: each add, remove and batch is one transaction

A process that stopped half way through left edges that some queries could find
and others could not. An exception inside a batch left the batch open, and
everything done afterwards was never committed. Adding multiple edges inside a
batch closed the cursor of the batch and raised AttributeError.
---
 gb/hypergraph/sql.py | 55 ++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 4a4f73f..c038c8d 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -21,6 +21,7 @@
 
 import math
 import itertools
+from contextlib import contextmanager
 import gb.hypergraph.edge as ed
 from gb.hypergraph.backend import Backend
 
@@ -130,6 +131,23 @@ class SQL(Backend):
             self.cur.close()
             self.cur = None
 
+    @contextmanager
+    def transaction(self):
+        """Everything done inside this context is committed at the end, or undone in case of an exception.
+        Inside of another transaction, it simply becomes a part of it."""
+        if self.cur is not None:
+            yield
+        else:
+            cur = self.open_cursor(local=False)
+            try:
+                yield
+                self.conn.commit()
+            except BaseException:
+                self.conn.rollback()
+                raise
+            finally:
+                self.close_cursor(cur, local=False)
+
     def update_or_insert(self, table, row, vid):
         """Updates columns or inserts a new row in the vertices table"""
         cur = self.open_cursor()
@@ -162,10 +180,9 @@ class SQL(Backend):
 
     def remove_edge_permutation(self, perm):
         eid = ed.edge2str(perm)
-        cur = self.conn.cursor()
+        cur = self.open_cursor()
         cur.execute('DELETE FROM perms WHERE id=%s' % (self.ph,), (eid,))
-        self.conn.commit()
-        cur.close()
+        self.close_cursor(cur, local=True, commit=True)
 
     def remove_edge_permutations(self, edge):
         """Removes all permutations of the given edge."""
@@ -240,13 +257,12 @@ class SQL(Backend):
     def add(self, edges, timestamp=-1):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
         Adding multiple edges at the same time might be faster."""
-        if isinstance(edges[0], (list, tuple)):
-            cur = self.open_cursor(local=False)
-            for edge in edges:
-                self.add_raw(edge, timestamp)
-            self.close_cursor(cur, local=False, commit=True)
-        else:
-            self.add_raw(edges, timestamp)
+        with self.transaction():
+            if isinstance(edges[0], (list, tuple)):
+                for edge in edges:
+                    self.add_raw(edge, timestamp)
+            else:
+                self.add_raw(edges, timestamp)
         return edges
 
     def remove_raw(self, edge):
@@ -262,12 +278,12 @@ class SQL(Backend):
     def remove(self, edges):
         """Removes one or multiple edges from the hypergraph
         Removing multiple edges at the same time might be faster."""
-        if isinstance(edges[0], (list, tuple)):
-            # TODO: use transaction?
-            for edge in edges:
-                self.remove_raw(edge)
-        else:
-            self.remove_raw(edges)
+        with self.transaction():
+            if isinstance(edges[0], (list, tuple)):
+                for edge in edges:
+                    self.remove_raw(edge)
+            else:
+                self.remove_raw(edges)
 
     def star(self, center):
         """Return all the edges that contain a given entity.
@@ -321,10 +337,9 @@ class SQL(Backend):
 
     def batch_exec(self, funs):
         """Auxiliary function to implement ops.batch_exec in SQL environments."""
-        cur = self.open_cursor(local=False)
-        for f in funs:
-            f(self)
-        self.close_cursor(cur, local=False, commit=True)
+        with self.transaction():
+            for f in funs:
+                f(self)
 
     def f_all(self, f):
         """Returns a lazy sequence resulting from applying f to every
-- 
2.43.0


From b261ee4a224a5fb0cbf8bb363f7ae898acc675d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 13/40] fix: ego returns the edges around an entity

It raised TypeError for any depth above 0.
---
 gb/hypergraph/hypergraph.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 92588c6..1168e3b 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -102,13 +102,14 @@ class HyperGraph(object):
 
     # TODO: this can be optimized
     def ego(self, center, depth):
-        if depth > 0:
-            edges = self.star(center)
-            edges = edges[1:]
-            ids = [item for sublist in edges for item in sublist]
-            ids = set(ids)
-            next_edges = [self.ego(vid, depth - 1) for vid in ids]
-            return ids.union(next_edges)
+        """Return all the edges found by following edges from a given entity, up to a depth.
+        The first element of an edge (its type) is not followed."""
+        if depth <= 0:
+            return set()
+        edges = self.star(center)
+        ids = set([item for edge in edges for item in edge[1:]])
+        next_edges = [self.ego(vid, depth - 1) for vid in ids]
+        return edges.union(*next_edges)
 
     def add_belief(self, source, edges, timestamp=-1):
         """A belif is a fact with a source. The fact is created as a normal edge
-- 
2.43.0


From e0eb9d8f9457b051324e39b0c1af0deb69e7c796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 14/40] fix: intersect works

It raised KeyError (the builtin id instead of vid), TypeError (a list added to
a set) and KeyError again for a seed without edges.
---
 gb/hypergraph/queries.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/queries.py b/gb/hypergraph/queries.py
index de75daf..399f856 100644
--- a/gb/hypergraph/queries.py
+++ b/gb/hypergraph/queries.py
@@ -38,7 +38,7 @@ def vemap_assoc_id_edge(vemap, vid, edge):
     if vid not in vemap:
         vemap[vid] = {'edges': [], 'neighbours': set()}
     vemap[vid]['edges'].append(edge)
-    vemap[vid]['neighbours'] = add_neighbours(vemap[id]['neighbours'], edge)
+    vemap[vid]['neighbours'] = add_neighbours(vemap[vid]['neighbours'], edge)
     return vemap
 
 
@@ -74,9 +74,10 @@ def walks(vemap, nodes, walk, all_walks):
             valid = False
 
     if valid:
-        all_walks.add(walk)
+        all_walks.add(tuple(walk))
     else:
-        neighbours = vemap[walk[-1]]['neighbours']
+        # a seed without edges is not in the map
+        neighbours = vemap[walk[-1]]['neighbours'] if walk[-1] in vemap else set()
         next_steps = [node for node in neighbours if node not in walk]
         if len(next_steps) > 0:
             for step in next_steps:
-- 
2.43.0


From c9dabbeed50c313c1f58a48b351f86aeed75ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 15/40] fix: batch_exec passes the hypergraph to the functions,
 as it says

They received the backend, which lacks add_belief, sources and others.
---
 gb/hypergraph/hypergraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 1168e3b..eb48940 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -86,7 +86,7 @@ class HyperGraph(object):
         The functions are passed hg as a parameters and are evaluated
         as a batch.
         Evaluating function as a batch might be faster."""
-        self.backend.batch_exec(funs)
+        self.backend.batch_exec([lambda backend, f=f: f(self) for f in funs])
 
     def f_all(self, f):
         """Returns a lazy sequence resulting from applying f to every
-- 
2.43.0


From d4159488a7e08f25c943d306ff5eb9e1960f87d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 16/40] fix: remove_belief removes the link and the fact
 together

A process that stopped in between left a fact without sources, and a fact that
begins with an edge was taken for multiple edges.
---
 gb/hypergraph/hypergraph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index eb48940..14265f3 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -137,6 +137,9 @@ class HyperGraph(object):
         """A belif is a fact with a source. The link from the source to the fact
            is removed. If no more sources support the fact, then the fact is also
            removed."""
-        self.remove((const.source, edge, source))
-        if len(self.sources(edge)) == 0:
-            self.remove(edge)
+        def remove_link_and_fact(hg):
+            hg.remove((const.source, edge, source))
+            if len(hg.sources(edge)) == 0:
+                hg.remove([edge])
+
+        self.batch_exec([remove_link_and_fact])
-- 
2.43.0


From 2cfdb9a4ab488d455fa797c80a954b276b8ea291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 17/40] fix: remove_by_pattern removes edges that begin with an
 edge

They were taken for multiple edges.
---
 gb/hypergraph/hypergraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 14265f3..4152bd3 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -98,7 +98,8 @@ class HyperGraph(object):
         """Removes from the hypergraph all edges that match the pattern."""
         edges = self.pattern2edges(pattern)
         for edge in edges:
-            self.remove(edge)
+            # in a list, because the first element of the edge can also be an edge
+            self.remove([edge])
 
     # TODO: this can be optimized
     def ego(self, center, depth):
-- 
2.43.0


From cde79c02c5bb40ff925b16ddbcf6b8e1fcc3e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 18/40] fix: BatchHyperGraph keeps timestamps, and flushes when
 there is nothing to flush

All the buffered edges got the timestamp of the last add, or -1 with an explicit
flush. Flushing an empty buffer raised IndexError.
---
 gb/hypergraph/batch_hypergraph.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index dd8b305..2fb76d5 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -19,6 +19,7 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+import itertools
 import gb.hypergraph.hypergraph as hypergraph
 
 
@@ -33,18 +34,22 @@ class BatchHyperGraph(hypergraph.HyperGraph):
         self.buffer_max = buffer_max
 
     def flush(self, timestamp=-1):
-        self.backend.add(self.buffer, timestamp)
+        """Adds the buffered edges to the hypergraph.
+        Edges that were added without a timestamp get the one given here."""
+        for edge_timestamp, group in itertools.groupby(self.buffer, key=lambda item: item[1]):
+            edges = [edge for edge, _ in group]
+            self.backend.add(edges, timestamp if edge_timestamp == -1 else edge_timestamp)
         self.buffer = []
 
     def add(self, edges, timestamp=-1):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
                 Adding multiple edges at the same time might be faster."""
         if isinstance(edges[0], (list, tuple)):
-            self.buffer += edges
+            self.buffer += [(edge, timestamp) for edge in edges]
         else:
-            self.buffer.append(edges)
+            self.buffer.append((edges, timestamp))
 
         if len(self.buffer) > self.buffer_max:
-            self.flush(timestamp)
+            self.flush()
 
         return edges
-- 
2.43.0


From 0c54042e8ed7e4c18d574e2edf7d693bd4027a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 19/40] fix: processes that write to the same SQLite database
 do not corrupt each other's edges

Whether an edge exists was checked before the write lock was taken, so that two
processes adding or removing the same edge could both count it in the degrees.
---
 gb/hypergraph/sql.py    | 5 +++++
 gb/hypergraph/sqlite.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index c038c8d..c573f1e 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -131,6 +131,10 @@ class SQL(Backend):
             self.cur.close()
             self.cur = None
 
+    def begin(self, cur):
+        """Prepares the start of a transaction. By default, it is started by the first write."""
+        pass
+
     @contextmanager
     def transaction(self):
         """Everything done inside this context is committed at the end, or undone in case of an exception.
@@ -140,6 +144,7 @@ class SQL(Backend):
         else:
             cur = self.open_cursor(local=False)
             try:
+                self.begin(cur)
                 yield
                 self.conn.commit()
             except BaseException:
diff --git a/gb/hypergraph/sqlite.py b/gb/hypergraph/sqlite.py
index fd65ee1..7bdfc69 100644
--- a/gb/hypergraph/sqlite.py
+++ b/gb/hypergraph/sqlite.py
@@ -37,6 +37,11 @@ class SQLite(SQL):
         file_path = params['db']
         SQL.__init__(self, sqlite3.connect(file_path))
 
+    def begin(self, cur):
+        """Locks the database before reading what the transaction depends on."""
+        if not self.conn.in_transaction:
+            cur.execute('BEGIN IMMEDIATE')
+
     def create_tables(self):
         """Created the tables necessary to store the hypergraph."""
         cur = self.conn.cursor()
-- 
2.43.0


From da15008cc86944fc52551b8db9f83c59b020b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 20/40] fix: WordNet names with a slash do not break the root
 and namespace of symbols

The root of the symbol for 24/7 was 24, and its namespace was 7.
---
 gb/readers/wordnet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gb/readers/wordnet.py b/gb/readers/wordnet.py
index 4ade3cc..f1bf598 100644
--- a/gb/readers/wordnet.py
+++ b/gb/readers/wordnet.py
@@ -25,8 +25,10 @@ import gb.hypergraph.batch_hypergraph as batchhg
 
 
 def lemma2symbol(lemma):
-    lemma_id = 'wn.%s' % lemma.synset().name()
-    return sym.build([lemma.name(), lemma_id])
+    # names such as 24/7 would otherwise be taken for a root and a namespace
+    lemma_name = lemma.name().replace('/', '_')
+    lemma_id = 'wn.%s' % lemma.synset().name().replace('/', '_')
+    return sym.build([lemma_name, lemma_id])
 
 
 def pos2symbol(pos):
-- 
2.43.0


From 140e492100adad72e7358e9e822a6a513268d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 21/40] fix: the parent of a token is a token and not the
 parser

---
 gb/nlp/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/nlp/parser.py b/gb/nlp/parser.py
index b506333..cce30e9 100644
--- a/gb/nlp/parser.py
+++ b/gb/nlp/parser.py
@@ -45,9 +45,9 @@ class Parser:
             token.left_children = [self.__spacy2token(t) for t in stoken.lefts]
             token.right_children = [self.__spacy2token(t) for t in stoken.rights]
             for t in token.left_children:
-                t.parent = self
+                t.parent = token
             for t in token.right_children:
-                t.parent = self
+                t.parent = token
             token.entity_type = stoken.ent_type_
             self.token_table[stoken] = token
 
-- 
2.43.0


From de728749d8786282ffcebafac0395bae1c5c926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 22/40] fix: the MySQL backend can be used from the command
 line

Its parameters were passed under other names, and without a host, so every
command with --backend mysql raised KeyError.
---
 gb/gbrain.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gb/gbrain.py b/gb/gbrain.py
index 9a9771f..9727c5a 100644
--- a/gb/gbrain.py
+++ b/gb/gbrain.py
@@ -29,15 +29,17 @@ from gb.tools.shell import Shell
 @click.group()
 @click.option('--backend', help='Hypergraph Backend (sqlite, mysql, null).', default='sqlite')
 @click.option('--db', help='Database name.', default='gb.db')
+@click.option('--dbhost', help='Database host.', default='localhost')
 @click.option('--dbuser', help='Database user.', default='gb')
 @click.option('--dbpass', help='Database password.', default='gb')
 @click.pass_context
-def cli(ctx, backend, db, dbuser, dbpass):
+def cli(ctx, backend, db, dbhost, dbuser, dbpass):
     ctx.obj = {
         'backend': backend,
         'db': db,
-        'dbuser': dbuser,
-        'dbpass': dbpass
+        'host': dbhost,
+        'user': dbuser,
+        'password': dbpass
     }
 
 
-- 
2.43.0


From ddc78e7cb2649d9cbcaf92f3c030f9f7922c3c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 23/40] fix: writing a row that is already there, with the same
 values, works on MySQL

MySQL reports 0 updated rows for it, and the row was then inserted a second time.
---
 gb/hypergraph/sql.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index c573f1e..bd51861 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -157,12 +157,14 @@ class SQL(Backend):
         """Updates columns or inserts a new row in the vertices table"""
         cur = self.open_cursor()
 
-        row_str = ','.join(['%s=%s' % (k, self.ph) for k in row.keys()])
         values = [v for v in row.values()]
-        values.append(vid)
-        cur.execute('UPDATE %s SET %s WHERE id=%s' % (table, row_str, self.ph), values)
-        if cur.rowcount == 0:
-            values = values[:-1]
+        # not relying on the row count of the update: MySQL does not count rows that remain the same
+        cur.execute('SELECT id FROM %s WHERE id=%s' % (table, self.ph), (vid,))
+        if cur.fetchone() is not None:
+            row_str = ','.join(['%s=%s' % (k, self.ph) for k in row.keys()])
+            values.append(vid)
+            cur.execute('UPDATE %s SET %s WHERE id=%s' % (table, row_str, self.ph), values)
+        else:
             key_str = ','.join([k for k in row.keys()])
             placeholder_str = ','.join([self.ph] * len(row.keys()))
             cur.execute('INSERT INTO %s (%s) values (%s)' % (table, key_str, placeholder_str), values)
-- 
2.43.0


From e150a173c9efa7688d4d4847878a45ae6dc8ddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 24/40] fix: on MySQL, each add, remove and batch is one
 transaction too

---
 gb/hypergraph/mysql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gb/hypergraph/mysql.py b/gb/hypergraph/mysql.py
index a670737..781890a 100644
--- a/gb/hypergraph/mysql.py
+++ b/gb/hypergraph/mysql.py
@@ -42,6 +42,10 @@ class MySQL(SQL):
         conn.autocommit(True)
         SQL.__init__(self, conn, '%s')
 
+    def begin(self, cur):
+        """Suspends the autocommit until the end of the transaction."""
+        cur.execute('START TRANSACTION')
+
     def create_tables(self):
         """Created the tables necessary to store the hypergraph."""
         cur = self.conn.cursor()
-- 
2.43.0


From 8b965f6f37ee988269f32d83134f90495f5333cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 25/40] fix: symbols that end with the last character of a
 Unicode plane can be queried

---
 gb/hypergraph/sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index bd51861..cbbda05 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -221,7 +221,8 @@ class SQL(Backend):
         if len(nodes) == 0:
             cur.execute('SELECT id FROM perms')
         else:
-            start_str = ed.nodes2str(nodes)
+            # something always follows the nodes: other nodes, or the number of the permutation
+            start_str = '%s ' % ed.nodes2str(nodes)
             end_str = str_plus_1(start_str)
             cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
         edges = cur2edges(cur)
-- 
2.43.0


From d270c35b580627a192356a66600f8aedd003205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 26/40] fix: destroy is one transaction, so that it cannot be
 left half done

---
 gb/hypergraph/sql.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index cbbda05..92da9cb 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -314,10 +314,11 @@ class SQL(Backend):
 
     def destroy(self):
         """Erase the hypergraph."""
-        cur = self.open_cursor()
-        cur.execute('DELETE FROM vertices')
-        cur.execute('DELETE FROM perms')
-        self.close_cursor(cur, local=True, commit=True)
+        with self.transaction():
+            cur = self.open_cursor()
+            cur.execute('DELETE FROM vertices')
+            cur.execute('DELETE FROM perms')
+            self.close_cursor(cur, local=True, commit=True)
 
     def degree(self, vertex):
         """Returns the degree of a vertex."""
-- 
2.43.0


From a4b7cbda247f4b00769d7dacc0f6910219b0b09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 27/40] fix: candidate relationships that are discarded do not
 turn other parts of the tree into compounds

---
 gb/knowledge/stages/delta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gb/knowledge/stages/delta.py b/gb/knowledge/stages/delta.py
index 1b31252..945ca45 100644
--- a/gb/knowledge/stages/delta.py
+++ b/gb/knowledge/stages/delta.py
@@ -154,7 +154,9 @@ class DeltaStage(object):
                             rel_right_a = rel_right.children_ids[0]
                             rel_right_b = rel_right.children_ids[1:]
 
-                        center_rel_node = self.tree.create_node([rel_left_b, rel_right_a])
+                        # cloned, because they are still part of the tree and of other candidates
+                        center_rel_node = self.tree.create_node([self.tree.clone_id(rel_left_b),
+                                                                 self.tree.clone_id(rel_right_a)])
                         center_rel_node.compound = True
 
                         rel_ids = rel_left_a + [center_rel_node.id] + rel_right_b
-- 
2.43.0


From 0bfadba935003b4c4f880e34142c66b531351b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 28/40] fix: words with slashes or parentheses become valid
 symbols

---
 gb/knowledge/stages/epsilon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/knowledge/stages/epsilon.py b/gb/knowledge/stages/epsilon.py
index 75a3933..9cad09d 100644
--- a/gb/knowledge/stages/epsilon.py
+++ b/gb/knowledge/stages/epsilon.py
@@ -28,7 +28,7 @@ class EpsilonStage(object):
         self.tree = tree
 
     def leaf_to_hyperedges(self, leaf):
-        main_edge = sym.build((leaf.token.word, leaf.namespace))
+        main_edge = sym.build((sym.str2symbol(leaf.token.word), leaf.namespace))
         return {'main_edge': main_edge}
 
     def node_to_hyperedges(self, node):
@@ -47,7 +47,7 @@ class EpsilonStage(object):
     def compound_node_to_hyperedges(self, node):
         leafs = self.compound_entity_to_leafs(node)
         words = [leaf.token.word for leaf in leafs]
-        symbol = sym.build(('_'.join(words), '?'))
+        symbol = sym.build((sym.str2symbol('_'.join(words)), '?'))
         return {'main_edge': symbol}
 
     def build_hyperedges(self, entity):
-- 
2.43.0


From 956e140e1d79e0800e20f4edebf29bb036118929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 29/40] fix: the buffer stored what the lists it was given
 became until it was flushed

---
 gb/hypergraph/batch_hypergraph.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index 2fb76d5..b5e461b 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -23,6 +23,13 @@ import itertools
 import gb.hypergraph.hypergraph as hypergraph
 
 
+def frozen(item):
+    """Copy of an edge (or of one of its elements) that does not change with the lists it was made of."""
+    if isinstance(item, (list, tuple)):
+        return tuple(frozen(i) for i in item)
+    return item
+
+
 class BatchHyperGraph(hypergraph.HyperGraph):
     """Hypergraph operations."""
 
@@ -45,9 +52,9 @@ class BatchHyperGraph(hypergraph.HyperGraph):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
                 Adding multiple edges at the same time might be faster."""
         if isinstance(edges[0], (list, tuple)):
-            self.buffer += [(edge, timestamp) for edge in edges]
+            self.buffer += [(frozen(edge), timestamp) for edge in edges]
         else:
-            self.buffer.append((edges, timestamp))
+            self.buffer.append((frozen(edges), timestamp))
 
         if len(self.buffer) > self.buffer_max:
             self.flush()
-- 
2.43.0


From bb9ef386a0b27ea0811e2ba5bd963a4f02a3b741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 30/40] fix: printed sentence trees lost tokens that look like
 another one under the same head

---
 gb/nlp/sentence.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/gb/nlp/sentence.py b/gb/nlp/sentence.py
index 0c4a1ee..723753b 100644
--- a/gb/nlp/sentence.py
+++ b/gb/nlp/sentence.py
@@ -20,7 +20,17 @@
 
 
 from asciitree import LeftAligned
-from collections import OrderedDict
+from asciitree.traversal import Traversal
+
+
+class LabelTraversal(Traversal):
+    """Traverses pairs of a label and a list of children: labels can be repeated, so they can not be keys."""
+
+    def get_children(self, node):
+        return node[1]
+
+    def get_text(self, node):
+        return node[0]
 
 
 def node_label(token, prefix):
@@ -31,7 +41,7 @@ def token2label_tree(token, prefix='*'):
     children = [token2label_tree(leaf, 'L') for leaf in token.left_children] +\
                [token2label_tree(leaf, 'R') for leaf in token.right_children]
 
-    return node_label(token, prefix), OrderedDict(children)
+    return node_label(token, prefix), children
 
 
 class Sentence:
@@ -47,13 +57,14 @@ class Sentence:
     def label_tree(self):
         r = self.root()
         if r is None:
-            return {}
-        label, children = token2label_tree(r)
-        return {label: children}
+            return None
+        return token2label_tree(r)
 
     def print_tree(self):
-        tr = LeftAligned()
-        print(tr(self.label_tree()))
+        tree = self.label_tree()
+        if tree is not None:
+            tr = LeftAligned(traverse=LabelTraversal())
+            print(tr(tree))
 
     def __str__(self):
         return ' '.join([token.word.strip() for token in self.tokens])
-- 
2.43.0


From 8cfe7e75741d88cf248a9b44e8f8ee96651df7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 31/40] fix: an operation that fails inside of a batch leaves
 no trace

Operations inside of a batch (or batches inside of batches) were part of its
transaction and nothing else: if one of them failed half way, and the function
caught the exception, the first half was committed with the rest of the batch,
with degrees that did not go with the edges. They are savepoints now.
---
 gb/hypergraph/sql.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 92da9cb..5df08e4 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -104,6 +104,7 @@ class SQL(Backend):
         self.create_tables()
         self.cur = None
         self.ph = ph
+        self.level = 0
 
     def create_tables(self):
         raise NotImplementedError()
@@ -138,9 +139,10 @@ class SQL(Backend):
     @contextmanager
     def transaction(self):
         """Everything done inside this context is committed at the end, or undone in case of an exception.
-        Inside of another transaction, it simply becomes a part of it."""
+        Inside of another transaction it becomes a part of it, but it can still be undone by itself."""
         if self.cur is not None:
-            yield
+            with self.savepoint():
+                yield
         else:
             cur = self.open_cursor(local=False)
             try:
@@ -153,6 +155,22 @@ class SQL(Backend):
             finally:
                 self.close_cursor(cur, local=False)
 
+    @contextmanager
+    def savepoint(self):
+        """A part of a transaction: it is undone in case of an exception, even if the transaction goes on."""
+        self.level += 1
+        name = 'level%d' % self.level
+        try:
+            self.cur.execute('SAVEPOINT %s' % name)
+            try:
+                yield
+                self.cur.execute('RELEASE SAVEPOINT %s' % name)
+            except BaseException:
+                self.cur.execute('ROLLBACK TO SAVEPOINT %s' % name)
+                raise
+        finally:
+            self.level -= 1
+
     def update_or_insert(self, table, row, vid):
         """Updates columns or inserts a new row in the vertices table"""
         cur = self.open_cursor()
-- 
2.43.0


From 1f8994036b3ab6b31eeca97abc497bb50c033ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:34 +0000
Subject: [PATCH 32/40] fix: removing by pattern left edges that are equal to
 others, as (a 7) and (a 7.0)

---
 gb/hypergraph/hypergraph.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 4152bd3..3c4a9be 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -23,6 +23,7 @@ from gb.hypergraph.null import Null
 from gb.hypergraph.sqlite import SQLite
 from gb.hypergraph.mysql import MySQL
 import gb.hypergraph.constants as const
+import gb.hypergraph.edge as ed
 
 
 class HyperGraph(object):
@@ -96,10 +97,17 @@ class HyperGraph(object):
 
     def remove_by_pattern(self, pattern):
         """Removes from the hypergraph all edges that match the pattern."""
-        edges = self.pattern2edges(pattern)
-        for edge in edges:
-            # in a list, because the first element of the edge can also be an edge
-            self.remove([edge])
+        removed = set()
+        while True:
+            edges = self.pattern2edges(pattern)
+            # edges with numbers that are equal but not the same (7 and 7.0) come one after the other
+            edges = [edge for edge in edges if ed.edge2str(edge) not in removed]
+            if len(edges) == 0:
+                break
+            for edge in edges:
+                # in a list, because the first element of the edge can also be an edge
+                self.remove([edge])
+                removed.add(ed.edge2str(edge))
 
     # TODO: this can be optimized
     def ego(self, center, depth):
-- 
2.43.0


From a6efb35a7ff44907053b3302dc7b9371fa30ce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:34 +0000
Subject: [PATCH 33/40] fix: the filter of Wikipedia dumps changed the line
 ends of what it keeps

---
 python/filter_wikidump.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/filter_wikidump.py b/python/filter_wikidump.py
index e5de021..b87a7e5 100755
--- a/python/filter_wikidump.py
+++ b/python/filter_wikidump.py
@@ -49,7 +49,8 @@ def main(argv):
     state = 'page_search'
     buffer = ''
     
-    with open(argv[0]) as infile:
+    # line ends remain what they are
+    with open(argv[0], newline='\n') as infile:
         for line in infile:
             if state == 'page_search':
                 m = page.search(line)
-- 
2.43.0


From 8136aef28e47197e77a185108ad8b736f27a8a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 34/40] fix: the parser kept every text it had parsed in memory

---
 gb/nlp/parser.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/gb/nlp/parser.py b/gb/nlp/parser.py
index cce30e9..dc25486 100644
--- a/gb/nlp/parser.py
+++ b/gb/nlp/parser.py
@@ -28,13 +28,12 @@ class Parser:
     """Generic NLP parser."""
 
     def __init__(self):
-        self.token_table = {}
         self.parser = spacy.load('en')
 
-    def __spacy2token(self, stoken):
+    def __spacy2token(self, stoken, token_table):
         if stoken is None:
             return None
-        elif stoken not in self.token_table:
+        elif stoken not in token_table:
             token = Token()
             token.word = stoken.orth_.lower().strip()
             token.lemma = stoken.lemma_
@@ -42,23 +41,25 @@ class Parser:
             token.logprob = stoken.prob
             token.pos = stoken.pos_
             token.dep = stoken.dep_
-            token.left_children = [self.__spacy2token(t) for t in stoken.lefts]
-            token.right_children = [self.__spacy2token(t) for t in stoken.rights]
+            token.left_children = [self.__spacy2token(t, token_table) for t in stoken.lefts]
+            token.right_children = [self.__spacy2token(t, token_table) for t in stoken.rights]
             for t in token.left_children:
                 t.parent = token
             for t in token.right_children:
                 t.parent = token
             token.entity_type = stoken.ent_type_
-            self.token_table[stoken] = token
+            token_table[stoken] = token
 
-        return self.token_table[stoken]
+        return token_table[stoken]
 
     def parse_text(self, text):
         parsed_data = self.parser(text)
 
+        # only for this text: what is kept in the parser would never be released
+        token_table = {}
         sents = []
         for span in parsed_data.sents:
-            sent = [self.__spacy2token(parsed_data[i]) for i in range(span.start, span.end)]
+            sent = [self.__spacy2token(parsed_data[i], token_table) for i in range(span.start, span.end)]
             sents.append(sent)
 
         return sents
-- 
2.43.0


From 1e453bdd59678625a62a161e6f5671755e1e3548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:32 +0000
Subject: [PATCH 35/40] fix: queries lost edges that are equal to others that
 do not match, as (7 7) and (7 7.0)

---
 gb/hypergraph/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 5df08e4..9fe88cd 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -64,7 +64,7 @@ def unpermutate(tokens, nper):
 
 
 def cur2edges(cur):
-    """Transforms a cursor from a database query into a set of edges."""
+    """Transforms a cursor from a database query into a list of edges (a set would take 7 and 7.0 for the same)."""
     edges = []
     for row in cur:
         res = row[0]
@@ -74,7 +74,7 @@ def cur2edges(cur):
         tokens = unpermutate(tokens, nper)
         edge = tuple(ed.parsed_token(token) for token in tokens)
         edges.append(edge)
-    return set(edges)
+    return edges
 
 
 def str_plus_1(s):
-- 
2.43.0


From 926ff0ed6511ecb7d457092dd29f6babc9e2adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:33 +0000
Subject: [PATCH 36/40] fix: the filter of Wikipedia dumps keeps what was read
 of a last page without a title

---
 python/filter_wikidump.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/filter_wikidump.py b/python/filter_wikidump.py
index b87a7e5..8c0f7d3 100755
--- a/python/filter_wikidump.py
+++ b/python/filter_wikidump.py
@@ -78,6 +78,9 @@ def main(argv):
                 else:
                     state = 'page_search'
 
+    # a page whose title was not reached, in a dump that is not complete
+    output(buffer)
+
 
 if __name__ == "__main__":
     main(sys.argv[1:])
-- 
2.43.0


From 0df52204b230b726132e2b50184a054f8f99345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:33 +0000
Subject: [PATCH 37/40] fix: a batch of a buffered hypergraph that fails loses
 nothing that waited, and takes back what it added

---
 gb/hypergraph/batch_hypergraph.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index b5e461b..7a18861 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -60,3 +60,13 @@ class BatchHyperGraph(hypergraph.HyperGraph):
             self.flush()
 
         return edges
+
+    def batch_exec(self, funs):
+        """Evaluates all the functions 'funs' as a batch. If it fails, what was waiting before still waits
+        (it may have been flushed, and undone, meanwhile), and what the functions added does not."""
+        waiting = list(self.buffer)
+        try:
+            hypergraph.HyperGraph.batch_exec(self, funs)
+        except BaseException:
+            self.buffer = waiting
+            raise
-- 
2.43.0


From 7eae0a4213eafef9212c46b27816658246b03629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:33 +0000
Subject: [PATCH 38/40] fix: what is removed through a buffered hypergraph
 stays removed, also if it was waiting

---
 gb/hypergraph/batch_hypergraph.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index 7a18861..f41fe1e 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -61,6 +61,21 @@ class BatchHyperGraph(hypergraph.HyperGraph):
 
         return edges
 
+    def remove(self, edges):
+        """Removes one or multiple edges from the hypergraph, also if they were waiting."""
+        self.flush()
+        hypergraph.HyperGraph.remove(self, edges)
+
+    def remove_by_pattern(self, pattern):
+        """Removes from the hypergraph all edges that match the pattern, also if they were waiting."""
+        self.flush()
+        hypergraph.HyperGraph.remove_by_pattern(self, pattern)
+
+    def destroy(self):
+        """Erase the hypergraph, and what was waiting to be added to it."""
+        hypergraph.HyperGraph.destroy(self)
+        self.buffer = []
+
     def batch_exec(self, funs):
         """Evaluates all the functions 'funs' as a batch. If it fails, what was waiting before still waits
         (it may have been flushed, and undone, meanwhile), and what the functions added does not."""
-- 
2.43.0


From f1b9bc922fcf873f44ec5b84d4ee81a7f9fdec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:52 +0000
Subject: [PATCH 39/40] fix: removing by pattern removes all the matching
 edges, or none if it fails

---
 gb/hypergraph/hypergraph.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 3c4a9be..50aa5f4 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -97,17 +97,21 @@ class HyperGraph(object):
 
     def remove_by_pattern(self, pattern):
         """Removes from the hypergraph all edges that match the pattern."""
-        removed = set()
-        while True:
-            edges = self.pattern2edges(pattern)
-            # edges with numbers that are equal but not the same (7 and 7.0) come one after the other
-            edges = [edge for edge in edges if ed.edge2str(edge) not in removed]
-            if len(edges) == 0:
-                break
-            for edge in edges:
-                # in a list, because the first element of the edge can also be an edge
-                self.remove([edge])
-                removed.add(ed.edge2str(edge))
+        def remove_matching(hg):
+            removed = set()
+            while True:
+                edges = hg.pattern2edges(pattern)
+                # edges with numbers that are equal but not the same (7 and 7.0) come one after the other
+                edges = [edge for edge in edges if ed.edge2str(edge) not in removed]
+                if len(edges) == 0:
+                    break
+                for edge in edges:
+                    # in a list, because the first element of the edge can also be an edge
+                    hg.remove([edge])
+                    removed.add(ed.edge2str(edge))
+
+        # all of them, or none
+        self.batch_exec([remove_matching])
 
     # TODO: this can be optimized
     def ego(self, center, depth):
-- 
2.43.0


From 5e3d77222690b3c45e149a316ac38bdf2c00be07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:10 +0000
Subject: [PATCH 40/40] fix: edges that begin with an edge, and lists, can be
 negated

---
 gb/hypergraph/edge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 656b89d..957866e 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -163,9 +163,13 @@ def edge2str(edge):
 
 def is_negative(edge):
     """Check if edge is negative."""
+    if sym.sym_type(edge[0]) == sym.SymbolType.EDGE:
+        return is_negative(edge[0])
     return sym.is_negative(edge[0])
 
 
 def negative(edge):
     """Produces the negative of the given edge."""
-    return (sym.negative(edge[0]),) + edge[1:]
+    if sym.sym_type(edge[0]) == sym.SymbolType.EDGE:
+        return (negative(edge[0]),) + tuple(edge[1:])
+    return (sym.negative(edge[0]),) + tuple(edge[1:])
-- 
2.43.0

