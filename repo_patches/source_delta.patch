From cae0b4f90ae01aee9a5b1f7977ec4bcce40d79ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:18 +0000
Subject: [PATCH 01/44] fix: remove_edge/has_edge with overlapping=False match
 the exact interval, self-loops can be removed

---
 dynetworkx/classes/intervaldigraph.py | 20 ++++++--------------
 dynetworkx/classes/intervalgraph.py   | 20 ++++++--------------
 2 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 2749aa1..8822014 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -257,7 +257,7 @@ class IntervalDiGraph(IntervalGraph):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            return self.edges(u, v, begin, end) is not None
+            return any(iv[2] == begin and iv[3] == end for iv in self._pred[u][v])
 
         if begin and end and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
@@ -575,24 +575,21 @@ class IntervalDiGraph(IntervalGraph):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            iedge = self.edges(u, v, begin, end)
-            if iedge is not None:
-                self.__remove_iedge(iedge)
-            return
-
-        iedges_to_remove = []
+            iedges_to_remove = [iv for iv in self._pred[u][v] if iv[2] == begin and iv[3] == end]
 
         # remove every edge between u and v
-        if begin is None and end is None:
+        elif begin is None and end is None:
+            iedges_to_remove = []
             for iv in self._pred[u][v]:
                 iedges_to_remove.append(iv)
 
         # remove edge between u and v with overlapping interval with the given interval
         else:
-            if begin and end and begin > end:
+            if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
+            iedges_to_remove = []
             for iv in self._pred[u][v]:
                 if IntervalDiGraph.__overlaps_or_contains(iv, begin, end):
                     iedges_to_remove.append(iv)
@@ -604,12 +601,7 @@ class IntervalDiGraph(IntervalGraph):
         # clean up empty dictionaries
         if len(self._pred[u][v]) == 0:
             self._pred[u].pop(v, None)
-        if len(self._succ[v][u]) == 0:
             self._succ[v].pop(u, None)
-        if len(self._pred[u]) == 0:
-            self._pred.pop(u, None)
-        if len(self._succ[v]) == 0:
-            self._succ.pop(v, None)
 
     def degree(self, node=None, begin=None, end=None, delta=False):
         """Return the degree of a specified node between time begin and end.
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 391f434..8be5375 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -798,7 +798,7 @@ class IntervalGraph(object):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            return self.edges(u, v, begin, end) is not None
+            return any(iv[2] == begin and iv[3] == end for iv in self._adj[u][v])
 
         if begin and end and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
@@ -1061,24 +1061,21 @@ class IntervalGraph(object):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            iedge = self.edges(u, v, begin, end)
-            if iedge is not None:
-                self.__remove_iedge(iedge)
-            return
-
-        iedges_to_remove = []
+            iedges_to_remove = [iv for iv in self._adj[u][v] if iv[2] == begin and iv[3] == end]
 
         # remove every edge between u and v
-        if begin is None and end is None:
+        elif begin is None and end is None:
+            iedges_to_remove = []
             for iv in self._adj[u][v]:
                 iedges_to_remove.append(iv)
 
         # remove edge between u and v with overlapping interval with the given interval
         else:
-            if begin and end and begin > end:
+            if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                     "begin: {}, end: {}.".format(begin, end))
 
+            iedges_to_remove = []
             for iv in self._adj[u][v]:
                 if IntervalGraph.__overlaps_or_contains(iv, begin, end):
                     iedges_to_remove.append(iv)
@@ -1090,12 +1087,7 @@ class IntervalGraph(object):
         # clean up empty dictionaries
         if len(self._adj[u][v]) == 0:
             self._adj[u].pop(v, None)
-        if len(self._adj[v][u]) == 0:
             self._adj[v].pop(u, None)
-        if len(self._adj[u]) == 0:
-            self._adj.pop(u, None)
-        if len(self._adj[v]) == 0:
-            self._adj.pop(v, None)
 
     def degree(self, node=None, begin=None, end=None, delta=False):
         """Return the degree of a specified node between time begin and end.
-- 
2.43.0


From 3ceaf0b5ba5441f160767dce9de9bfe01a7e3ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:40 +0000
Subject: [PATCH 02/44] fix: remove_node removes the node's edges from the time
 index, and works on IntervalDiGraph

---
 dynetworkx/classes/intervaldigraph.py | 50 +++++++++++++++++++++++++++
 dynetworkx/classes/intervalgraph.py   | 15 +++-----
 2 files changed, 54 insertions(+), 11 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 8822014..c58af0a 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -603,6 +603,56 @@ class IntervalDiGraph(IntervalGraph):
             self._pred[u].pop(v, None)
             self._succ[v].pop(u, None)
 
+    def remove_node(self, n, begin=None, end=None):
+        """Remove the presence of a node n within the given interval.
+
+        Removes the presence node n and all adjacent edges within the given interval.
+
+        If interval is specified, all the edges of n will be removed within that interval.
+
+        Quiet if n is not in the interval graph.
+
+        Parameters
+        ----------
+        n : node
+           A node in the graph
+        begin: int or float, optional  (default= beginning of the entire interval graph)
+            Inclusive beginning time of the node appearing in the interval graph.
+        end: int or float, optional  (default= end of the entire interval graph + 1)
+            Non-inclusive ending time of the node appearing in the interval graph.
+            Must be bigger than or equal to begin.
+            Note that the default value is shifted up by 1 to make it an inclusive end.
+
+        Examples
+        --------
+        >>> G.add_edges_from([(1, 2, 3, 10), (2, 4, 1, 11), (6, 4, 12, 19), (2, 4, 8, 15)])
+        >>> G.add_nodes_from([(1, {'time': '1pm'}), (2, {'time': '2pm'}), (4, {'time': '4pm'})])
+        >>> G.nodes(begin=4, end=6)
+        [1, 2, 4, 6]
+        >>> G.remove_node(2, begin=4, end=6)
+        >>> G.nodes(begin=4, end=6)
+        [4, 6]
+        >>> G.nodes(data=True)
+        [(1, {'time': '1pm'}), (2, {'time': '2pm'}), (4, {'time': '4pm'}), (6, {})]
+        >>> G.remove_node(2)
+        >>> G.nodes(data=True)
+        [(1, {'time': '1pm'}), (4, {'time': '4pm'}), (6, {})]
+        """
+
+        if n not in self._node:
+            return
+
+        # collect first: removing an edge restructures the tree
+        iedges = [iedge for iedge in self.tree[begin:end] if iedge[0] == n or iedge[1] == n]
+        for iedge in iedges:
+            self.remove_edge(*iedge, overlapping=False)
+
+        # delete the node and its attributes if no edge left
+        if not self._pred.get(n) and not self._succ.get(n):
+            self._pred.pop(n, None)
+            self._succ.pop(n, None)
+            self._node.pop(n, None)
+
     def degree(self, node=None, begin=None, end=None, delta=False):
         """Return the degree of a specified node between time begin and end.
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 8be5375..0cc434f 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -609,17 +609,10 @@ class IntervalGraph(object):
         if n not in self._node:
             return
 
-        if begin is None and end is None:
-            self._adj.pop(n, None)
-            for v in self._adj:
-                if n in self._adj[v]:
-                    self._adj[v].pop(n, None)
-
-        else:
-            iedges = self.tree[begin:end]
-            for iedge in iedges:
-                if iedge[0] == n or iedge[1] == n:
-                    self.__remove_iedge(iedge)
+        # collect first: removing an edge restructures the tree
+        iedges = [iedge for iedge in self.tree[begin:end] if iedge[0] == n or iedge[1] == n]
+        for iedge in iedges:
+            self.remove_edge(*iedge, overlapping=False)
 
         # delete the node and its attributes if no edge left
         if n not in self._adj or len(self._adj[n]) == 0:
-- 
2.43.0


From edbcca64eb25ad5d8ede421f73deb9c035bf1e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:56 +0000
Subject: [PATCH 03/44] fix: removing an interval from the interval tree keeps
 every other interval and the graph bounds

---
 dynetworkx/classes/intervaltree.py | 39 ++++++++++++++++++------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index ff9e366..dc12f8f 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -76,13 +76,19 @@ class IntervalTree:
 
     def discard(self, root, node):
         if root is node:
-            if root.left:
-                return root.left
-            if root.right:
+            if root.left is None:
                 return root.right
-            return None
+            if root.right is None:
+                return root.left
 
-        if node.low < root.low or (node.low == root.low and node.high < root.high):
+            # Two children: the in-order successor takes the place of the node
+            successor = root.right
+            while successor.left is not None:
+                successor = successor.left
+            successor.right = self.discard(root.right, successor)
+            successor.left = root.left
+            root = successor
+        elif node.low < root.low or (node.low == root.low and node.high < root.high):
             root.left = self.discard(root.left, node)
         else:
             root.right = self.discard(root.right, node)
@@ -92,12 +98,12 @@ class IntervalTree:
         balance = self.getBalance(root)
 
         if balance > 1:
-            if root.left.right == node:
+            if self.getBalance(root.left) < 0:
                 root.left = self.leftRotate(root.left)
             return self.rightRotate(root)
 
         elif balance < -1:
-            if root.right.left == node:
+            if self.getBalance(root.right) > 0:
                 root.right = self.rightRotate(root.right)
             return self.leftRotate(root)
 
@@ -196,17 +202,20 @@ class IntervalTree:
         node.edges.remove(edge)
         self.number_of_edges -= 1
         if len(node.edges) == 0:
-            self.discard(self.root, node)
+            del self.nodes[(start, end)]
+            self.root = self.discard(self.root, node)
+
+        if self.root is None:
+            self.begin = float("inf")
+            self.end = float("-inf")
+            return
+
         if self.begin == start:
             traversal_node = self.root
-            while traversal_node.left != None:
-                self.begin = traversal_node.left.low
+            while traversal_node.left is not None:
                 traversal_node = traversal_node.left
-        if self.end == end:
-            traversal_node = self.root
-            while traversal_node.right != None:
-                self.end = traversal_node.right.high
-                traversal_node = traversal_node.right
+            self.begin = traversal_node.low
+        self.end = self.root.max
 
         return
 
-- 
2.43.0


From 62232df960b3ee5d330dc6af78008ebeca54e88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:17 +0000
Subject: [PATCH 04/44] fix: an omitted or zero interval bound is not replaced
 by the graph's own bounds

---
 dynetworkx/classes/intervaldigraph.py | 2 +-
 dynetworkx/classes/intervalgraph.py   | 2 +-
 dynetworkx/classes/intervaltree.py    | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index c58af0a..6837993 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -1028,5 +1028,5 @@ class IntervalDiGraph(IntervalGraph):
         if begin is None:
             return iv[2] < end
         if end is None:
-            return iv[3] > begin
+            return iv[3] > begin or iv[2] == begin
         return (iv[2] < end and iv[3] > begin) or iv[2] == begin
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 0cc434f..15ff20c 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1261,7 +1261,7 @@ class IntervalGraph(object):
         if begin is None:
             return iv[2] < end
         if end is None:
-            return iv[3] > begin
+            return iv[3] > begin or iv[2] == begin
         return (iv[2] < end and iv[3] > begin) or iv[2] == begin
 
     def to_networkx_graph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False,
diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index dc12f8f..d94e3ea 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -224,10 +224,10 @@ class IntervalTree:
             root = self.root
             if not root:
                 return []
-        if not interval_start:
-            interval_start = self.begin
-        if not interval_end:
-            interval_end = self.end
+        if interval_start is None:
+            interval_start = float("-inf")
+        if interval_end is None:
+            interval_end = float("inf")
 
         for node in self.query(root, interval_start, interval_end):
             yield from node.edges
-- 
2.43.0


From 007b48e2a3bdf05aafb496797578e87a66d1e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 05/44] fix: unique timestamps include the window's inclusive
 bounds, zero bounds and empty graphs

---
 dynetworkx/classes/intervaldigraph.py |  4 ++--
 dynetworkx/classes/intervalgraph.py   |  4 ++--
 dynetworkx/classes/intervaltree.py    | 18 +++++++++---------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 6837993..e3ee5fb 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -259,7 +259,7 @@ class IntervalDiGraph(IntervalGraph):
 
             return any(iv[2] == begin and iv[3] == end for iv in self._pred[u][v])
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -959,7 +959,7 @@ class IntervalDiGraph(IntervalGraph):
         >>> list(M.edges(data=True))
         [(1, 2, {'end': 10, 'begin': 3}), (2, 4, {'end': 11, 'begin': 1}), (2, 4, {'end': 15, 'begin': 8})]
         """
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
         iedges = self.tree[begin:end]
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 15ff20c..bfe512e 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -491,7 +491,7 @@ class IntervalGraph(object):
         if begin is not None and end is not None and end < begin:
             return False
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -793,7 +793,7 @@ class IntervalGraph(object):
 
             return any(iv[2] == begin and iv[3] == end for iv in self._adj[u][v])
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index d94e3ea..a8b5efe 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -235,9 +235,9 @@ class IntervalTree:
     def unique_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -249,7 +249,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.inOrder(self.root):
             if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):
                 timestamps.add(n.low)
             if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):
@@ -260,9 +260,9 @@ class IntervalTree:
     def unique_begin_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -274,7 +274,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.inOrder(self.root):
             if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):
                 timestamps.add(n.low)
 
@@ -283,9 +283,9 @@ class IntervalTree:
     def unique_end_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -297,7 +297,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.inOrder(self.root):
             if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):
                 timestamps.add(n.high)
 
-- 
2.43.0


From c14b2277867161a9cdaf03beac948e4da072e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:46 +0000
Subject: [PATCH 06/44] fix: add_edge refuses negative durations and treats (v,
 u) as the same undirected interval edge

---
 dynetworkx/classes/intervaldigraph.py | 4 ++++
 dynetworkx/classes/intervalgraph.py   | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index e3ee5fb..1d82a55 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -137,6 +137,10 @@ class IntervalDiGraph(IntervalGraph):
             self._succ[v][u][(u, v, begin, end)].update(attr)
             return
 
+        if end < begin:
+            raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
+
         iedge = (u, v, begin, end)
 
         # add nodes
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index bfe512e..2d7b605 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -677,6 +677,15 @@ class IntervalGraph(object):
             self._adj[v][u][(u, v, begin, end)].update(attr)
             return
 
+        # the edge is undirected: it may have been added as (v, u)
+        if u in self._adj and v in self._adj[u] and (v, u, begin, end) in self._adj[u][v]:
+            self._adj[u][v][(v, u, begin, end)].update(attr)
+            return
+
+        if end < begin:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
+
         iedge = (u, v, begin, end)
 
         # add nodes
-- 
2.43.0


From f2c5ebb8144fd233e498633c2621fd12b406efde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:18 +0000
Subject: [PATCH 07/44] fix: edges() with a list of nodes and no interval
 returns the edges of every listed node

---
 dynetworkx/classes/impulsedigraph.py  | 8 ++++----
 dynetworkx/classes/impulsegraph.py    | 8 ++++----
 dynetworkx/classes/intervaldigraph.py | 8 ++++----
 dynetworkx/classes/intervalgraph.py   | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 81690c0..9c8f691 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -358,15 +358,15 @@ class ImpulseDiGraph(ImpulseGraph):
                     continue
                 iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
-
             # Interval filtering
             if begin is not None and end is not None and begin > end:
                 raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
                                     "begin: {}, end: {}.".format(begin, end))
 
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
+
         return [iv for iv in iedges if ImpulseDiGraph.__overlaps_or_contains(iv, begin, end)]
 
     def __edges_interval_first(self, begin, end):
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 91427f9..17f33b4 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -736,15 +736,15 @@ class ImpulseGraph(object):
                     continue
                 iedges.update([iv for u in self._adj[v] for iv in self._adj[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
-
             # Interval filtering
             if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                     "begin: {}, end: {}.".format(begin, end))
 
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
+
         return [iv for iv in iedges if ImpulseGraph.__overlaps_or_contains(iv, begin, end)]
 
     def __edges_interval_first(self, begin, end):
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 1d82a55..8e7547a 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -293,15 +293,15 @@ class IntervalDiGraph(IntervalGraph):
                     continue
                 iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
-
             # Interval filtering
             if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                     "begin: {}, end: {}.".format(begin, end))
 
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
+
         return [iv for iv in iedges if IntervalDiGraph.__overlaps_or_contains(iv, begin, end)]
 
     def __edges_interval_first(self, begin, end):
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 2d7b605..5464351 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -832,15 +832,15 @@ class IntervalGraph(object):
                     continue
                 iedges.update([iv for u in self._adj[v] for iv in self._adj[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
-
             # Interval filtering
             if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                     "begin: {}, end: {}.".format(begin, end))
 
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
+
         return [iv for iv in iedges if IntervalGraph.__overlaps_or_contains(iv, begin, end)]
 
     def __edges_interval_first(self, begin, end):
-- 
2.43.0


From 21f7bccb17fecd40c1cf0b7dd7cbec4020e2090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:44 +0000
Subject: [PATCH 08/44] fix: a string or iterable node given to edges() is a
 single node

---
 dynetworkx/classes/impulsedigraph.py  | 11 ++---------
 dynetworkx/classes/impulsegraph.py    | 25 +++++++++++++++----------
 dynetworkx/classes/intervaldigraph.py | 11 ++---------
 dynetworkx/classes/intervalgraph.py   | 20 +++++++++++---------
 4 files changed, 30 insertions(+), 37 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 9c8f691..fee4f82 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -458,15 +458,8 @@ class ImpulseDiGraph(ImpulseGraph):
         [((1, 3, 4), 8)]
         """
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._pack_nodes(u)
+        v = self._pack_nodes(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 17f33b4..dc04483 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -196,7 +196,10 @@ class ImpulseGraph(object):
         True
         """
 
-        return n in self._node
+        try:
+            return n in self._node
+        except TypeError:
+            return False
 
     def interval(self):
         """Return a 2-tuple as (begin, end) interval of the entire
@@ -715,6 +718,15 @@ class ImpulseGraph(object):
 
         self._model = model
 
+    def _pack_nodes(self, nodes):
+        # A node of the graph (which may be iterable itself) or a string is a single node
+        if nodes is None or isinstance(nodes, str) or nodes in self:
+            return [nodes]
+        try:
+            return list(nodes)
+        except TypeError:
+            return [nodes]
+
     def __edges_node_first(self, u_list, v_list, begin, end):
         # Node filtering
         iedges = set()
@@ -836,15 +848,8 @@ class ImpulseGraph(object):
         [((1, 3, 4), 8)]
         """
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._pack_nodes(u)
+        v = self._pack_nodes(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 8e7547a..5f1b4e8 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -397,15 +397,8 @@ class IntervalDiGraph(IntervalGraph):
         # If non of the nodes are defined the interval tree is queried for the list of edges,
         # otherwise the edges are returned based on the nodes in the self._adj.o
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._pack_nodes(u)
+        v = self._pack_nodes(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 5464351..5ac241e 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -811,6 +811,15 @@ class IntervalGraph(object):
                 return True
         return False
 
+    def _pack_nodes(self, nodes):
+        # A node of the graph (which may be iterable itself) or a string is a single node
+        if nodes is None or isinstance(nodes, str) or nodes in self:
+            return [nodes]
+        try:
+            return list(nodes)
+        except TypeError:
+            return [nodes]
+
     def __edges_node_first(self, u_list, v_list, begin, end):
         # Node filtering
         iedges = set()
@@ -943,15 +952,8 @@ class IntervalGraph(object):
         # otherwise the edges are returned based on the nodes in the self._adj.
 
         # Pack u and v if necessary
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._pack_nodes(u)
+        v = self._pack_nodes(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-- 
2.43.0


From 50cf7e389babe039dc38aff04234df51dce963b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:34 +0000
Subject: [PATCH 09/44] fix: a predictive model can be trained on any graph and
 never changes the edges a query returns

---
 dynetworkx/classes/impulsedigraph.py  | 31 ++++-------------
 dynetworkx/classes/impulsegraph.py    | 48 +++++++++++++-------------
 dynetworkx/classes/intervaldigraph.py | 32 ++++-------------
 dynetworkx/classes/intervalgraph.py   | 49 +++++++++++++--------------
 4 files changed, 61 insertions(+), 99 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index fee4f82..940e227 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -471,29 +471,11 @@ class ImpulseDiGraph(ImpulseGraph):
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
-            if u == [None]:
-                nodes = v
-            elif v == [None]:
-                nodes = u
-            else:
-                nodes = set(*u).union(set(*v))
-
-            node_percent = len(nodes) / self.number_of_nodes()
-
-            graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
-
-            interval_percent = (end - begin) / (graph_end - graph_begin)
-
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
-
-            if node_time < interval_time:
+            if self._node_first_is_faster(u, v, begin, end):
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end)
+                          if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
@@ -526,9 +508,8 @@ class ImpulseDiGraph(ImpulseGraph):
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = graph_begin + (graph_end - graph_begin) * random.randint(0, 100 - interval_percent) / 100
+            nodes = set(random.choices(node_list, k=math.ceil(node_percent / 100 * len(node_list))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
@@ -546,7 +527,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
             interval_edges = []
             start_timer = timer()
-            for edge in self.tree.irange(begin, end, inclusive=(True, False)):
+            for edge in [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]:
                 if edge[0] in nodes or edge[1] in nodes:
                     interval_edges.append(edge)
             interval_time = timer() - start_timer
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index dc04483..baa1759 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -674,9 +674,8 @@ class ImpulseGraph(object):
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = graph_begin + (graph_end - graph_begin) * random.randint(0, 100 - interval_percent) / 100
+            nodes = set(random.choices(node_list, k=math.ceil(node_percent / 100 * len(node_list))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
@@ -727,6 +726,24 @@ class ImpulseGraph(object):
         except TypeError:
             return [nodes]
 
+    def _node_first_is_faster(self, u, v, begin, end):
+        # Ask the predictive model, which is trained on graphs with a nonzero duration
+        if len(self.tree) == 0:
+            return True
+        graph_begin, graph_end = self.interval()
+        if graph_begin >= graph_end:
+            return True
+
+        nodes = set(u).union(v).difference([None])
+        node_percent = len(nodes) / self.number_of_nodes()
+
+        begin = graph_begin if begin is None else begin
+        end = graph_end if end is None else end
+        interval_percent = (end - begin) / (graph_end - graph_begin)
+
+        node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
+        return node_time < interval_time
+
     def __edges_node_first(self, u_list, v_list, begin, end):
         # Node filtering
         iedges = set()
@@ -861,29 +878,12 @@ class ImpulseGraph(object):
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
-            if u == [None]:
-                nodes = v
-            elif v == [None]:
-                nodes = u
-            else:
-                nodes = set(*u).union(set(*v))
-
-            node_percent = len(nodes) / self.number_of_nodes()
-
-            graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
-
-            interval_percent = (end - begin) / (graph_end - graph_begin)
-
-            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
-
-            if node_time < interval_time:
+            if self._node_first_is_faster(u, v, begin, end):
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end)
+                          if ((u == [None] or e[0] in u) and (v == [None] or e[1] in v))
+                          or ((u == [None] or e[1] in u) and (v == [None] or e[0] in v))]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 5f1b4e8..63def1e 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -410,29 +410,11 @@ class IntervalDiGraph(IntervalGraph):
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
-            if u == [None]:
-                nodes = v
-            elif v == [None]:
-                nodes = u
-            else:
-                nodes = set(*u).union(set(*v))
-
-            node_percent = len(nodes) / self.number_of_nodes()
-
-            graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
-
-            interval_percent = (end - begin) / (graph_end - graph_begin)
-
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
-
-            if node_time < interval_time:
+            if self._node_first_is_faster(u, v, begin, end):
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end)
+                          if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
@@ -465,9 +447,8 @@ class IntervalDiGraph(IntervalGraph):
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = graph_begin + (graph_end - graph_begin) * random.randint(0, 100 - interval_percent) / 100
+            nodes = set(random.choices(node_list, k=math.ceil(node_percent / 100 * len(node_list))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
@@ -476,7 +457,8 @@ class IntervalDiGraph(IntervalGraph):
                 if u in self._pred:
                     for v in self._pred[u]:
                         for edge in self._pred[u][v]:
-                            if edge not in node_edges and (edge[2] == begin or (edge[2] > begin and edge[3] < end)):
+                            if edge not in node_edges and \
+                                IntervalDiGraph.__overlaps_or_contains(edge, begin, end):
                                 node_edges.add(edge)
             node_time = timer() - start_timer
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 5ac241e..aee3f0e 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -820,6 +820,22 @@ class IntervalGraph(object):
         except TypeError:
             return [nodes]
 
+    def _node_first_is_faster(self, u, v, begin, end):
+        # Ask the predictive model, which is trained on graphs with a nonzero duration
+        graph_begin, graph_end = self.interval()
+        if graph_begin >= graph_end:
+            return True
+
+        nodes = set(u).union(v).difference([None])
+        node_percent = len(nodes) / self.number_of_nodes()
+
+        begin = graph_begin if begin is None else begin
+        end = graph_end if end is None else end
+        interval_percent = (end - begin) / (graph_end - graph_begin)
+
+        node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
+        return node_time < interval_time
+
     def __edges_node_first(self, u_list, v_list, begin, end):
         # Node filtering
         iedges = set()
@@ -965,29 +981,12 @@ class IntervalGraph(object):
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
-            if u == [None]:
-                nodes = v
-            elif v == [None]:
-                nodes = u
-            else:
-                nodes = set(*u).union(set(*v))
-
-            node_percent = len(nodes) / self.number_of_nodes()
-
-            graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
-
-            interval_percent = (end - begin) / (graph_end - graph_begin)
-
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
-
-            if node_time < interval_time:
+            if self._node_first_is_faster(u, v, begin, end):
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end)
+                          if ((u == [None] or e[0] in u) and (v == [None] or e[1] in v))
+                          or ((u == [None] or e[1] in u) and (v == [None] or e[0] in v))]
 
         # Node First
         else:
@@ -1210,9 +1209,8 @@ class IntervalGraph(object):
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = graph_begin + (graph_end - graph_begin) * random.randint(0, 100 - interval_percent) / 100
+            nodes = set(random.choices(node_list, k=math.ceil(node_percent / 100 * len(node_list))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
@@ -1220,7 +1218,8 @@ class IntervalGraph(object):
             for u in nodes:
                 for v in self._adj[u]:
                     for edge in self._adj[u][v]:
-                        if edge not in node_edges and (edge[2] == begin or (edge[2] > begin and edge[3] < end)):
+                        if edge not in node_edges and \
+                                IntervalGraph.__overlaps_or_contains(edge, begin, end):
                             node_edges.add(edge)
             node_time = timer() - start_timer
 
-- 
2.43.0


From d914e8e2c366e84ae331fc843f03addd07f0e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:51 +0000
Subject: [PATCH 10/44] fix: impulse queries honour their window's inclusivity
 and agree on point windows

---
 dynetworkx/classes/impulsedigraph.py | 75 ++++++++++------------------
 dynetworkx/classes/impulsegraph.py   | 47 ++++++-----------
 2 files changed, 42 insertions(+), 80 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 940e227..d721569 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -277,7 +277,7 @@ class ImpulseDiGraph(ImpulseGraph):
                 raise NetworkXError("Edge tuple {0} must be a 3-tuple.".format(e))
             self.add_edge(e[0], e[1], e[2], **attr)
 
-    def has_edge(self, u, v, begin=None, end=None, inclusive=(True, True)):
+    def has_edge(self, u, v, begin=None, end=None, inclusive=(True, False)):
         """Return True if there exists an edge between u and v
         in the impulse graph, during the given interval.
 
@@ -309,7 +309,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -333,7 +333,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         self._model = model
 
-    def __edges_node_first(self, u_list, v_list, begin, end):
+    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
         if not isinstance(u_list, list):
             u_list = [u_list]
         if not isinstance(v_list, list):
@@ -367,15 +367,15 @@ class ImpulseDiGraph(ImpulseGraph):
         if begin is None and end is None:
             return iedges
 
-        return [iv for iv in iedges if ImpulseDiGraph.__overlaps_or_contains(iv, begin, end)]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive=inclusive)]
 
-    def __edges_interval_first(self, begin, end):
+    def __edges_interval_first(self, begin, end, inclusive):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False))for u, v in self.tree[t]]
+        return list(self.__search_tree(begin, end, inclusive=inclusive))
 
-    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, True), data=False, default=None):
+    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of tuples of the ImpulseDiGraph edges.
 
         All edges which are present within the given interval.
@@ -463,23 +463,23 @@ class ImpulseDiGraph(ImpulseGraph):
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Interval First
         elif u == [None] and v == [None]:
-            iedges = self.__edges_interval_first(begin, end)
+            iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
             if self._node_first_is_faster(u, v, begin, end):
-                iedges = self.__edges_node_first(u, v, begin, end)
+                iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end)
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive)
                           if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Appending attribute data if needed
         if data is False:
@@ -553,7 +553,7 @@ class ImpulseDiGraph(ImpulseGraph):
         self._model = model
 
 
-    def remove_edge(self, u, v, begin=None, end=None, inclusive=(True, True)):
+    def remove_edge(self, u, v, begin=None, end=None, inclusive=(True, False)):
         """Remove the edge between u and v in the impulse graph,
         during the given interval.
 
@@ -598,7 +598,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         else:
             for iv in self._pred[u][v]:
-                if self.__in_interval(iv[2], begin, end):
+                if self.__in_interval(iv[2], begin, end, inclusive=inclusive):
                     iedges_to_remove.append(iv)
 
         # removing found iedges
@@ -615,7 +615,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if len(self._succ[v]) == 0:
             self._succ.pop(v, None)
 
-    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the sum of in and out degree of a specified node between time begin and end.
 
         Parameters
@@ -669,9 +669,9 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(u=node, begin=begin, end=end, inclusive=(True, False)):
+        for edge in self.edges(u=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
-        for edge in self.edges(v=node, begin=begin, end=end, inclusive=(True, False)):
+        for edge in self.edges(v=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -680,7 +680,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return sorted(output)
 
-    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the in-degree of a specified node between time begin and end.
 
         Parameters
@@ -729,16 +729,12 @@ class ImpulseDiGraph(ImpulseGraph):
             return len(self.edges(v=node, begin=begin, end=end, inclusive=inclusive))
 
         # delta == True, return list of changes
-        if begin == None:
-            begin = list(self.tree.keys())[0]
-        if end == None:
-            end = list(self.tree.keys())[-1]
 
         d = {}
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(v=node, begin=begin, end=end, inclusive=(True, True)):
+        for edge in self.edges(v=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -747,7 +743,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return output
 
-    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the out-degree of a specified node between time begin and end.
 
         Parameters
@@ -800,7 +796,7 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(u=node, begin=begin, end=end, inclusive=(True, True)):
+        for edge in self.edges(u=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -933,7 +929,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return begin, end
 
-    def __search_tree(self, begin=None, end=None, inclusive=(True, True)):
+    def __search_tree(self, begin=None, end=None, inclusive=(True, False)):
         """if begin and end are equal performs a point search on the tree,
         otherwise an interval search is performed.
 
@@ -949,12 +945,13 @@ class ImpulseDiGraph(ImpulseGraph):
         if begin is not None and begin == end and begin in self.tree:
             for edge in self.tree[begin]:
                 yield (*edge, begin)
+            return
 
         for t in self.tree.irange(begin, end, inclusive=inclusive):
             for edge in self.tree[t]:
                 yield (*edge, t)
 
-    def __in_interval(self, t, begin, end, inclusive=(True, True)):
+    def __in_interval(self, t, begin, end, inclusive=(True, False)):
         """
         Parameters
         ----------
@@ -970,6 +967,9 @@ class ImpulseDiGraph(ImpulseGraph):
         -------
         Returns True if t is in the interval (begin,end). Otherwise False.
         """
+        if begin is not None and begin == end:
+            return t == begin
+
         if begin is None:
             begin = float('-inf')
         if end is None:
@@ -984,27 +984,6 @@ class ImpulseDiGraph(ImpulseGraph):
         if inclusive == (False, False):
             return begin < t < end
 
-    @staticmethod
-    def __overlaps_or_contains(iv, begin, end):
-        """Returns True if interval `iv` overlaps with begin and end.
-
-       Parameters
-       ----------
-       iv: Interval
-       begin: int or float
-            Inclusive beginning time of the node appearing in the interval graph.
-        end: int or float
-            Non-inclusive ending time of the node appearing in the interval graph.
-            Must be bigger than or equal begin.
-       """
-        if begin is None and end is None:
-            return True
-        if begin is None:
-            return iv[2] < end
-        if end is None:
-            return iv[2] >= begin
-        return (begin < iv[2] < end and iv[2]) or iv[2] == begin
-
     @staticmethod
     def load_from_txt(path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
         """Read impulse graph in from path.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index baa1759..a9116db 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -648,7 +648,7 @@ class ImpulseGraph(object):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -744,7 +744,7 @@ class ImpulseGraph(object):
         node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
         return node_time < interval_time
 
-    def __edges_node_first(self, u_list, v_list, begin, end):
+    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
         # Node filtering
         iedges = set()
         for u, v in product(u_list, v_list):
@@ -774,13 +774,13 @@ class ImpulseGraph(object):
         if begin is None and end is None:
             return iedges
 
-        return [iv for iv in iedges if ImpulseGraph.__overlaps_or_contains(iv, begin, end)]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive=inclusive)]
 
-    def __edges_interval_first(self, begin, end):
+    def __edges_interval_first(self, begin, end, inclusive):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]
+        return list(self.__search_tree(begin, end, inclusive=inclusive))
 
     def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of Interval objects of the ImpulseGraph edges.
@@ -870,24 +870,24 @@ class ImpulseGraph(object):
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Interval First
         elif u == [None] and v == [None]:
-            iedges = self.__edges_interval_first(begin, end)
+            iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
             if self._node_first_is_faster(u, v, begin, end):
-                iedges = self.__edges_node_first(u, v, begin, end)
+                iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end)
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive)
                           if ((u == [None] or e[0] in u) and (v == [None] or e[1] in v))
                           or ((u == [None] or e[1] in u) and (v == [None] or e[0] in v))]
 
         # Node First
         else:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Appending attribute data if needed
         if data is False:
@@ -944,7 +944,7 @@ class ImpulseGraph(object):
 
         else:
             for iv in self._adj[u][v]:
-                if self.__in_interval(iv[2], begin, end):
+                if self.__in_interval(iv[2], begin, end, inclusive=inclusive):
                     iedges_to_remove.append(iv)
 
         # removing found iedges
@@ -1075,6 +1075,7 @@ class ImpulseGraph(object):
         if begin is not None and begin == end and begin in self.tree:
             for edge in self.tree[begin]:
                 yield (*edge, begin)
+            return
 
         for t in self.tree.irange(begin, end, inclusive=inclusive):
             for u, v in self.tree[t]:
@@ -1096,6 +1097,9 @@ class ImpulseGraph(object):
         -------
         Returns True if t is in the interval (begin,end). Otherwise False.
         """
+        if begin is not None and begin == end:
+            return t == begin
+
         if begin is None:
             begin = float('-inf')
         if end is None:
@@ -1368,27 +1372,6 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def __overlaps_or_contains(iv, begin, end):
-        """Returns True if interval `iv` overlaps with begin and end.
-
-       Parameters
-       ----------
-       iv: Interval
-       begin: int or float
-            Inclusive beginning time of the node appearing in the interval graph.
-        end: int or float
-            Non-inclusive ending time of the node appearing in the interval graph.
-            Must be bigger than or equal begin.
-       """
-        if begin is None and end is None:
-            return True
-        if begin is None:
-            return iv[2] < end
-        if end is None:
-            return iv[2] >= begin
-        return (begin < iv[2] < end and iv[2]) or iv[2] == begin
-
     @staticmethod
     def from_networkx_graph(graph, timestamp='timestamp'):
         """Convert a NetworkX Graph to a ImpulseGraph.
-- 
2.43.0


From 9affb0509ed88ec9c069ecf31d3fe834c2836c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:07 +0000
Subject: [PATCH 11/44] fix: adding an impulse edge that already exists updates
 its data instead of replacing it

---
 dynetworkx/classes/impulsedigraph.py | 5 +++--
 dynetworkx/classes/impulsegraph.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index d721569..64a5875 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -236,8 +236,9 @@ class ImpulseDiGraph(ImpulseGraph):
 
         self._node.setdefault(u, {})
         self._node.setdefault(v, {})
-        self._pred.setdefault(u, {}).setdefault(v, {})[(u, v, t)] = attr
-        self._succ.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = attr
+        data = self._pred.setdefault(u, {}).setdefault(v, {}).setdefault((u, v, t), {})
+        data.update(attr)
+        self._succ.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = data
 
     def add_edges_from(self, ebunch_to_add, **attr):
         """Add all the edges in ebunch_to_add.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index a9116db..91ae0c1 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -576,8 +576,9 @@ class ImpulseGraph(object):
 
         self._node.setdefault(u, {})
         self._node.setdefault(v, {})
-        self._adj.setdefault(u, {}).setdefault(v, {})[(u, v, t)] = attr
-        self._adj.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = attr
+        data = self._adj.setdefault(u, {}).setdefault(v, {}).setdefault((u, v, t), {})
+        data.update(attr)
+        self._adj.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = data
 
     def add_edges_from(self, ebunch_to_add, **attr):
         """Add all the edges in ebunch_to_add.
-- 
2.43.0


From c602208fb2c9d2364afc381a091f76cebe290004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:58 +0000
Subject: [PATCH 12/44] fix: removing impulse nodes and edges leaves no trace
 in the time index, and works on ImpulseDiGraph

---
 dynetworkx/classes/impulsedigraph.py | 64 +++++++++++++++++++++++-----
 dynetworkx/classes/impulsegraph.py   | 34 ++++-----------
 2 files changed, 62 insertions(+), 36 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 64a5875..d4cc4df 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -609,12 +609,55 @@ class ImpulseDiGraph(ImpulseGraph):
         # clean up empty dictionaries
         if len(self._pred[u][v]) == 0:
             self._pred[u].pop(v, None)
-        if len(self._succ[v][u]) == 0:
             self._succ[v].pop(u, None)
-        if len(self._pred[u]) == 0:
-            self._pred.pop(u, None)
-        if len(self._succ[v]) == 0:
-            self._succ.pop(v, None)
+
+    def remove_node(self, n, begin=None, end=None, inclusive=(True, False)):
+        """Remove the presence of a node n within the given interval.
+
+        Removes the presence node n and all adjacent edges within the given interval.
+
+        If interval is specified, all the edges of n will be removed within that interval.
+
+        Quiet if n is not in the impulse graph.
+
+        Parameters
+        ----------
+        n : node
+           A node in the graph
+        begin: int or float, optional  (default= beginning of the entire impulse graph)
+        end: int or float, optional  (default= end of the entire impulse graph)
+            Must be bigger than or equal to begin.
+        inclusive: 2-tuple boolean that determines inclusivity of begin and end
+
+        Examples
+        --------
+        >>> G.add_edges_from([(1, 2, 10), (2, 4, 11), (6, 4, 19), (2, 4, 15)])
+        >>> G.add_nodes_from([(1, {'time': '1pm'}), (2, {'time': '2pm'}), (4, {'time': '4pm'})])
+        >>> G.nodes(begin=10, end=19)
+        [1, 2, 4, 6]
+        >>> G.remove_node(6, begin=10, end=20)
+        >>> G.nodes()
+        [1, 2, 4]
+        >>> G.nodes(data=True)
+        [(1, {'time': '1pm'}), (2, {'time': '2pm'}), (4, {'time': '4pm'})]
+        >>> G.remove_node(2)
+        >>> G.nodes(data=True)
+        [(1, {'time': '1pm'}), (4, {'time': '4pm'})]
+        """
+
+        if n not in self._node:
+            return
+
+        # collect first: removing an edge changes the tree
+        iedges = [iedge for iedge in self.__search_tree(begin, end, inclusive) if iedge[0] == n or iedge[1] == n]
+        for u, v, t in iedges:
+            self.remove_edge(u, v, t, t)
+
+        # delete the node and its attributes if no edge left
+        if not self._pred.get(n) and not self._succ.get(n):
+            self._pred.pop(n, None)
+            self._succ.pop(n, None)
+            self._node.pop(n, None)
 
     def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the sum of in and out degree of a specified node between time begin and end.
@@ -907,12 +950,11 @@ class ImpulseDiGraph(ImpulseGraph):
             Edge to be removed.
         """
 
-        try:
-            self.tree[iedge[2]].remove((iedge[0], iedge[1]))
-            del self._pred[iedge[0]][iedge[1]][iedge]
-            del self._succ[iedge[1]][iedge[0]][iedge]
-        except:
-            return
+        self.tree[iedge[2]].discard((iedge[0], iedge[1]))
+        if len(self.tree[iedge[2]]) == 0:
+            del self.tree[iedge[2]]
+        self._pred[iedge[0]][iedge[1]].pop(iedge, None)
+        self._succ[iedge[1]][iedge[0]].pop(iedge, None)
 
     def __validate_interval(self, begin=None, end=None):
         """Returns validated begin and end.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 91ae0c1..06b1d51 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -502,19 +502,10 @@ class ImpulseGraph(object):
         if n not in self._node:
             return
 
-        if begin is None and end is None:
-            self._adj.pop(n, None)
-            for v in self._adj:
-                if n in self._adj[v]:
-                    self._adj[v].pop(n, None)
-
-        else:
-            remove_edges = []
-            for edge in self.__search_tree(begin, end, inclusive):
-                if edge[0] == n or edge[1] == n:
-                    remove_edges.append(edge)
-            for edge in remove_edges:
-                self.__remove_iedge(edge)
+        # collect first: removing an edge changes the tree
+        iedges = [iedge for iedge in self.__search_tree(begin, end, inclusive) if iedge[0] == n or iedge[1] == n]
+        for u, v, t in iedges:
+            self.remove_edge(u, v, t, t)
 
         # delete the node and its attributes if no edge left
         if n not in self._adj or len(self._adj[n]) == 0:
@@ -955,12 +946,7 @@ class ImpulseGraph(object):
         # clean up empty dictionaries
         if len(self._adj[u][v]) == 0:
             self._adj[u].pop(v, None)
-        if len(self._adj[v][u]) == 0:
             self._adj[v].pop(u, None)
-        if len(self._adj[u]) == 0:
-            self._adj.pop(u, None)
-        if len(self._adj[v]) == 0:
-            self._adj.pop(v, None)
 
     def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the degree of a specified node between time begin and end.
@@ -1036,13 +1022,11 @@ class ImpulseGraph(object):
         iedge : Edge Tuple (u,v,eid,t)
             Edge to be removed.
         """
-        try:
-            self.tree[iedge[2]].remove((iedge[0], iedge[1]))
-            del self._adj[iedge[0]][iedge[1]][iedge]
-            del self._adj[iedge[1]][iedge[0]][iedge]
-        except:
-            return
-        print(self._adj)
+        self.tree[iedge[2]].discard((iedge[0], iedge[1]))
+        if len(self.tree[iedge[2]]) == 0:
+            del self.tree[iedge[2]]
+        self._adj[iedge[0]][iedge[1]].pop(iedge, None)
+        self._adj[iedge[1]][iedge[0]].pop(iedge, None)
 
     def __validate_interval(self, begin=None, end=None):
         """Returns validated begin and end.
-- 
2.43.0


From 69d8687b8635365326b3654f74207894b962e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:24 +0000
Subject: [PATCH 13/44] fix: to_subgraph works on IntervalDiGraph, and on
 ImpulseGraph with edge data and timestamps

---
 dynetworkx/classes/impulsegraph.py    |  2 +-
 dynetworkx/classes/intervaldigraph.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 06b1d51..2a7adfc 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1172,7 +1172,7 @@ class ImpulseGraph(object):
             G = Graph()
 
         if edge_data and edge_timestamp_data:
-            G.add_edges_from((iedge[0], iedge[1], dict(self._adj[iedge[0]][iedge], timestamp=iedge[2]))
+            G.add_edges_from((iedge[0], iedge[1], dict(self._adj[iedge[0]][iedge[1]][iedge], timestamp=iedge[2]))
                              for iedge in iedges)
         elif edge_data:
             G.add_edges_from((iedge[0], iedge[1], self._adj[iedge[0]][iedge[1]][iedge])
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 63def1e..03952a8 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -949,17 +949,17 @@ class IntervalDiGraph(IntervalGraph):
             G = DiGraph()
 
         if edge_data and edge_interval_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1],
-                              dict(self._pred[iedge.data[0]][iedge], begin=iedge.begin, end=iedge.end))
+            G.add_edges_from((iedge[0], iedge[1],
+                              dict(self._pred[iedge[0]][iedge[1]][iedge], begin=iedge[2], end=iedge[3]))
                              for iedge in iedges)
         elif edge_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1], self._pred[iedge.data[0]][iedge].copy())
+            G.add_edges_from((iedge[0], iedge[1], self._pred[iedge[0]][iedge[1]][iedge].copy())
                              for iedge in iedges)
         elif edge_interval_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1], {'begin': iedge.begin, 'end': iedge.end})
+            G.add_edges_from((iedge[0], iedge[1], {'begin': iedge[2], 'end': iedge[3]})
                              for iedge in iedges)
         else:
-            G.add_edges_from((iedge.data[0], iedge.data[1]) for iedge in iedges)
+            G.add_edges_from((iedge[0], iedge[1]) for iedge in iedges)
 
         # include node attributes
         if node_data:
-- 
2.43.0


From d9629b18e040c29a9cea4d7e8d36e9b71a924e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:02 +0000
Subject: [PATCH 14/44] fix: degree changes are listed in order, silently, and
 end edges that last an instant

---
 dynetworkx/classes/intervaldigraph.py | 13 ++++++-------
 dynetworkx/classes/intervalgraph.py   |  2 +-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 03952a8..2972e05 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -712,11 +712,11 @@ class IntervalDiGraph(IntervalGraph):
         for time in sd:
             for edge in sd[time]:
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
-                if time[0] != begin:
+                if time[0] != begin or time[1] < 0:
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def in_degree(self, node=None, begin=None, end=None, delta=False):
         """Return the in-degree of a specified node between time begin and end.
@@ -790,11 +790,11 @@ class IntervalDiGraph(IntervalGraph):
         for time in sd:
             for edge in sd[time]:
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
-                if time[0] != begin:
+                if time[0] != begin or time[1] < 0:
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def out_degree(self, node=None, begin=None, end=None, delta=False):
         """Return the out-degree of a specified node between time begin and end.
@@ -868,12 +868,11 @@ class IntervalDiGraph(IntervalGraph):
         for time in sd:
             for edge in sd[time]:
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
-                if time[0] != begin:
+                if time[0] != begin or time[1] < 0:
                     current_degree += time[1]
-                    print(time, begin, edge, current_degree)
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def to_networkx_graph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False, node_data=False):
         """Return a networkx DiGraph or MultiDiGraph which includes all the nodes and
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index aee3f0e..17d90e5 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1164,7 +1164,7 @@ class IntervalGraph(object):
         for time in sd:
             for edge in sd[time]:
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
-                if time[0] != begin:
+                if time[0] != begin or time[1] < 0:
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-- 
2.43.0


From cec9bc4eac37e026c8745cacd8368f02f9251d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:48 +0000
Subject: [PATCH 15/44] fix: to_snapshot_graph creates one snapshot per pair of
 consecutive timestamps

---
 dynetworkx/classes/intervalgraph.py | 63 +++++------------------------
 1 file changed, 9 insertions(+), 54 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 17d90e5..9b2a778 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -4,7 +4,7 @@ from networkx.exception import NetworkXError
 from dynetworkx.classes.intervaltree import IntervalTree
 from networkx.classes.multigraph import MultiGraph
 from networkx.classes.reportviews import NodeDataView
-from sortedcontainers import SortedList, SortedDict
+from sortedcontainers import SortedDict, SortedSet
 import random
 import math
 from timeit import default_timer as timer
@@ -1531,67 +1531,22 @@ class IntervalGraph(object):
 
         G = dnx.SnapshotGraph()
 
-        # This algorithm slices the interval graph into different non-overlapped, consecutive snapshots and insert them
-        # into a snapshot graph. Snapshots' lengths are variable and each snapshot represents a change in a series edges
-        # E.g: 2 edges with time intervals [(2,5), (3,7)] will be split into 3 snapshots [(2,3), (3,5), (5, 7)]
+        # every instant at which an edge with a duration begins or ends
+        times = SortedSet()
 
-        time = SortedList()  # this contains a list of sorted unique time stamp which will be used as "end" timestamp
-        # for each slice in following iterations
-        # We use a moving window specified by "begin" and "end" to slice each snapshots.
-        begin = None
         for node in self.tree.inOrder(self.tree.root):
-            if node.low == node.high:  # this handles the case when someone uses interval graph as impulse graph
-                G.insert(graph=self.to_subgraph(begin=node.low, end=node.low, multigraph=multigraph, edge_data=edge_data
-                                                , edge_interval_data=edge_interval_data, node_data=node_data),
+            if node.low == node.high:
+                G.insert(graph=self.to_subgraph(begin=node.low, end=node.low, multigraph=multigraph,
+                                                edge_data=edge_data, edge_interval_data=edge_interval_data,
+                                                node_data=node_data),
                          time=node.low)
             else:
-                if begin is None:
-                    begin = node.low
-                    time.add(node.high)
-                    continue
+                times.update((node.low, node.high))
 
-                if node.low == begin:
-                    time.add(node.high)
-                elif len(time) == 0 or node.low < time[0]:
-                    end = node.low
-                    time.add(node.high)
-                    G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
-                                                    edge_interval_data=edge_interval_data, node_data=node_data),
-                             start=begin, end=end)
-                    begin = end
-                elif node.low > time[0]:
-                    while node.low > time[0]:
-                        end = time.pop(0)
-                        G.insert(
-                            graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
-                                                   edge_interval_data=edge_interval_data, node_data=node_data),
-                            start=begin, end=end)
-                        begin = end
-
-                        if len(time) == 0:
-                            break
-
-                    end = node.low
-                    time.add(node.high)
-                    G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
-                                                    edge_interval_data=edge_interval_data, node_data=node_data),
-                             start=begin, end=end)
-                    begin = end
-                else:  # if node.low == time[0]
-                    end = time.pop(0)  # can use either "node.low" or "time[0]"
-                    time.add(node.high)
-                    G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
-                                                    edge_interval_data=edge_interval_data, node_data=node_data),
-                             start=begin, end=end)
-                    begin = end
-
-        # after finish iterating through all edges in the interval graph, which means all "start" timestamp has been
-        # iterated through, iterate through the remaining timestamps stored in "time"
-        for end in time:
+        for begin, end in zip(times, times[1:]):
             G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
                                             edge_interval_data=edge_interval_data, node_data=node_data),
                      start=begin, end=end)
-            begin = end
 
         return G
 
-- 
2.43.0


From 75aadbc9fa0a11859fd5bef42bbb0e83ccf47417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:14 +0000
Subject: [PATCH 16/44] fix: to_snapshots accepts a float length and float
 timestamps

---
 dynetworkx/classes/impulsegraph.py  | 2 +-
 dynetworkx/classes/intervalgraph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 2a7adfc..175ad86 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1270,7 +1270,7 @@ class ImpulseGraph(object):
             if length_of_snapshots < 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
                                     "{0} was passed.".format(number_of_snapshots))
-            number_of_snapshots = (end - begin) // length_of_snapshots
+            number_of_snapshots = int((end - begin) // length_of_snapshots)
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 9b2a778..f574f6c 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1445,7 +1445,7 @@ class IntervalGraph(object):
             if length_of_snapshots < 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
                                     "{0} was passed.".format(number_of_snapshots))
-            number_of_snapshots = (end - begin) // length_of_snapshots
+            number_of_snapshots = int((end - begin) // length_of_snapshots)
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
 
-- 
2.43.0


From 0298877f2ae996a5d0d57d310b2f9ef3fd7cc28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:39 +0000
Subject: [PATCH 17/44] fix: the last impulse snapshot includes the end of the
 graph whatever the rounding of its length

---
 dynetworkx/classes/impulsegraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 175ad86..2544d2f 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1284,11 +1284,14 @@ class ImpulseGraph(object):
         snapshots = []
         inclusive = (True, False)
         for i in range(number_of_snapshots):
+            snapshot_end = begin + length_of_snapshots * (i + 1)
+            # the last snapshot includes the end of the graph, however the length was rounded
             if i == number_of_snapshots - 1:
                 inclusive = (True, True)
+                snapshot_end = max(snapshot_end, end)
             snapshots.append(
                 self.to_subgraph(begin + length_of_snapshots * i,
-                                 begin + length_of_snapshots * (i + 1), inclusive=inclusive,
+                                 snapshot_end, inclusive=inclusive,
                                  multigraph=multigraph, edge_data=edge_data, edge_timestamp_data=edge_timestamp_data,
                                  node_data=node_data))
         if return_length:
-- 
2.43.0


From 6d723606feeba73af237ffea10906741d8839777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:00 +0000
Subject: [PATCH 18/44] fix: parallel edges of a snapshot do not erase the
 edge's earlier snapshots

---
 dynetworkx/classes/intervalgraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index f574f6c..5363252 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1586,6 +1586,9 @@ class IntervalGraph(object):
             for edge in snapshot.edges(data=True):
                 u_v = (edge[0], edge[1])
                 if u_v in edge_dict:
+                    if begin + period in edge_dict[u_v]:
+                        # parallel edge of the same snapshot
+                        continue
                     if begin in edge_dict[u_v]:
                         edge_dict[u_v][begin + period] = edge_dict[u_v][begin]
                         del edge_dict[u_v][begin]
-- 
2.43.0


From 9911242177b0b8c5c4b871782c50a6ae505c9575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:25 +0000
Subject: [PATCH 19/44] fix: constructors from other formats return a graph of
 the class they are called on

---
 dynetworkx/classes/impulsegraph.py  | 12 ++++++------
 dynetworkx/classes/intervalgraph.py | 18 +++++++++---------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 2544d2f..b4bb149 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1360,8 +1360,8 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def from_networkx_graph(graph, timestamp='timestamp'):
+    @classmethod
+    def from_networkx_graph(cls, graph, timestamp='timestamp'):
         """Convert a NetworkX Graph to a ImpulseGraph.
 
         Parameters
@@ -1386,7 +1386,7 @@ class ImpulseGraph(object):
         ig = ImpulseGraph.from_networkx_graph(graph)
       """
 
-        G = ImpulseGraph()
+        G = cls()
 
         for edge in graph.edges(data=True):
             attr = {}
@@ -1399,8 +1399,8 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def load_from_txt(path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
+    @classmethod
+    def load_from_txt(cls, path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
         """Read impulse graph in from path.
            Timestamps must be integers or floats.
            Nodes can be any hashable objects.
@@ -1451,7 +1451,7 @@ class ImpulseGraph(object):
         types (e.g. int, float, str, frozenset - or tuples of those, etc.)
         """
 
-        G = ImpulseGraph()
+        G = cls()
 
         if delimiter == '=':
             raise ValueError("Delimiter cannot be =.")
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 5363252..ac35e68 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1550,8 +1550,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def from_snapshot_graph(snapshot_graph, begin=0, period=1):
+    @classmethod
+    def from_snapshot_graph(cls, snapshot_graph, begin=0, period=1):
         """Convert a SnapshotGraph to a IntervalGraph.
 
         Parameters
@@ -1579,7 +1579,7 @@ class IntervalGraph(object):
         >>> sg.add_edges_from([(8,9)],weight=1)
         >>> ig = IntervalGraph.from_snapshot_graph(sg,0,1)
         """
-        G = IntervalGraph()
+        G = cls()
         edge_dict = {}
 
         for snapshot in snapshot_graph.get():
@@ -1606,8 +1606,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def from_networkx_graph(graph, begin='begin', end='end'):
+    @classmethod
+    def from_networkx_graph(cls, graph, begin='begin', end='end'):
         """Convert a NetworkX Graph to a IntervalGraph.
 
         Parameters
@@ -1635,7 +1635,7 @@ class IntervalGraph(object):
         ig = IntervalGraph.from_networkx_graph(graph)
       """
 
-        G = IntervalGraph()
+        G = cls()
 
         for edge in graph.edges(data=True):
             attr = {}
@@ -1648,8 +1648,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def load_from_txt(path, delimiter=" ", nodetype=int, intervaltype=float, order=('u', 'v', 'begin', 'end'),
+    @classmethod
+    def load_from_txt(cls, path, delimiter=" ", nodetype=int, intervaltype=float, order=('u', 'v', 'begin', 'end'),
                       merge=(False, 0), predict=False, comments="#"):
         """Read interval graph in from path.
            Both interval times must be integers or floats.
@@ -1708,7 +1708,7 @@ class IntervalGraph(object):
         types (e.g. int, float, str, frozenset - or tuples of those, etc.)
         """
 
-        G = IntervalGraph()
+        G = cls()
 
         if delimiter == '=':
             raise ValueError("Delimiter cannot be =.")
-- 
2.43.0


From 8f105fbdad9558de2200acfa63dd281ab0543f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:01 +0000
Subject: [PATCH 20/44] fix: blank and comment-only lines of a text file are
 skipped

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 dynetworkx/classes/impulsegraph.py   | 2 +-
 dynetworkx/classes/intervalgraph.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index d4cc4df..841578f 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1092,7 +1092,7 @@ class ImpulseDiGraph(ImpulseGraph):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 line = re.split(delimiter+'+', line.strip())
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index b4bb149..8e30b57 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1464,7 +1464,7 @@ class ImpulseGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 line = line.rstrip().split(delimiter)
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index ac35e68..f6c0abf 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1722,7 +1722,7 @@ class IntervalGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 line = line.rstrip().split(delimiter)
-- 
2.43.0


From c0c68ba73bacb2aff3c4a0592bfd3afe86916dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:01 +0000
Subject: [PATCH 21/44] fix: each node of a text file is converted to int on
 its own

---
 dynetworkx/classes/impulsedigraph.py | 3 +++
 dynetworkx/classes/impulsegraph.py   | 3 +++
 dynetworkx/classes/intervalgraph.py  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 841578f..3d39fc9 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1120,6 +1120,9 @@ class ImpulseDiGraph(ImpulseGraph):
                 else:
                     try:
                         u = int(u)
+                    except:
+                        pass
+                    try:
                         v = int(v)
                     except:
                         pass
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 8e30b57..a4a7ce0 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1492,6 +1492,9 @@ class ImpulseGraph(object):
                 else:
                     try:
                         u = int(u)
+                    except:
+                        pass
+                    try:
                         v = int(v)
                     except:
                         pass
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index f6c0abf..e059415 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1759,6 +1759,9 @@ class IntervalGraph(object):
                 else:
                     try:
                         u = int(u)
+                    except:
+                        pass
+                    try:
                         v = int(v)
                     except:
                         pass
-- 
2.43.0


From f45e19444db1001030df3a9f869baf1c39c819c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:01 +0000
Subject: [PATCH 22/44] fix: text attributes start after the columns of the
 given order and may contain an equals sign

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 dynetworkx/classes/impulsegraph.py   | 2 +-
 dynetworkx/classes/intervalgraph.py  | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 3d39fc9..750efea 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1103,7 +1103,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
                 edgedata = {}
                 for data in line[3:]:
-                    key, value = data.split('=')
+                    key, value = data.split('=', 1)
 
                     try:
                         value = float(value)
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index a4a7ce0..3264be7 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1475,7 +1475,7 @@ class ImpulseGraph(object):
 
                 edgedata = {}
                 for data in line[3:]:
-                    key, value = data.split('=')
+                    key, value = data.split('=', 1)
 
                     try:
                         value = float(value)
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index e059415..0daac11 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1740,8 +1740,8 @@ class IntervalGraph(object):
 
                 edgedata = {}
                 try:
-                    for data in line[4:]:
-                        key, value = data.split('=')
+                    for data in line[4 if 'begin' in order and 'end' in order else 3:]:
+                        key, value = data.split('=', 1)
                         try:
                             value = float(value)
                         except:
-- 
2.43.0


From dde74498dbaa7342439f4594d727d75e42d8dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:01 +0000
Subject: [PATCH 23/44] fix: load_from_txt with merge joins edges with the same
 data within the grace period

---
 dynetworkx/classes/intervalgraph.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 0daac11..c02eccd 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1774,13 +1774,10 @@ class IntervalGraph(object):
 
                 if merge[0]:
                     for edge, edge_data in G.edges(u, v, begin - merge[1] - 1, end + merge[1] + 1, data=True):
-                        if edge_data != edgedata:
-                            G.add_edge(u, v, begin, end ** edgedata)
-                        else:
-                            begin = min(begin, edge[0])
-                            end = max(end, edge[1])
-                            G.remove_edge(u, v, edge[0], edge[1])
-                            G.add_edge(u, v, begin, end, **edgedata)
+                        if edge_data == edgedata:
+                            begin = min(begin, edge[2])
+                            end = max(end, edge[3])
+                            G.remove_edge(u, v, edge[2], edge[3], overlapping=False)
 
                 G.add_edge(u, v, begin, end, **edgedata)
 
-- 
2.43.0


From da064f12e31c02a354fbe71e6c02768e464e6150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:38 +0000
Subject: [PATCH 24/44] fix: the delimiter of a directed impulse file is
 literal text

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 750efea..628fd39 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1095,7 +1095,7 @@ class ImpulseDiGraph(ImpulseGraph):
                 if not line.strip():
                     continue
 
-                line = re.split(delimiter+'+', line.strip())
+                line = re.split('(?:' + re.escape(delimiter) + ')+', line.strip())
 
                 u = line[order.index('u')]
                 v = line[order.index('v')]
-- 
2.43.0


From ecfdc420f52fed673aee1936e6f1f43bd2803e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:33 +0000
Subject: [PATCH 25/44] fix: snapshot time ranges retrieve and split exactly
 the snapshots they overlap

---
 dynetworkx/classes/snapshotgraph.py | 56 +++++++++++------------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 7901bc5..ecaa89d 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -615,47 +615,33 @@ class SnapshotGraph(object):
         [<networkx.classes.graph.Graph object at 0x7f27f5bd39b0>, <networkx.classes.graph.Graph object at 0x7f27f5bd3d30>]
         """
 
-        if include_interval:
-            graphs = self.snapshots.items()
-        else:
-            graphs = self.snapshots.values()
-
         if sbunch and (start or end):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch:  # if retrieve by indexes
+            graphs = self.snapshots.items() if include_interval else self.snapshots.values()
             for index in sbunch:
                 yield graphs[index]
         else:  # if retrieve by interval
-            if start is None:
-                min_idx = 0
-            else:
-                min_idx = self.snapshots.bisect_left((start,))
-
-                # Decrease 1 index if start is in the middle of an interval
-                # Eg: if Keys = [(2,5)(5,6)], start=3 won't retrieve (2,5) as we want,
-                # therefore, decrease 1 index to include (2,5). If start=5, then we won't need to change
-                if min_idx > 0 and start < self.snapshots.keys()[min_idx][0]:
-                    if split_overlaps:
-                        # Eg: if Keys = [(2,5)(5,6)] and start=3, split (2,5) into (2,3) and (3,5)
-                        key, g = self.snapshots.popitem(min_idx - 1)
-                        self.insert(g, key[0], start)
-                        self.insert(copy.deepcopy(g), start, key[1])
-                    else:
-                        min_idx -= 1
-
-            if end is None:
-                max_idx = len(self.snapshots)
-            else:
-                max_idx = self.snapshots.bisect_left((end,))
-                # Split the snapshot if 'end' is in the middle of an interval
-                # Eg: if Keys = [(2,5)(5,9)] and end=7, split (5,9) into (5,7) and (7,9)
-                if split_overlaps and max_idx < len(self.snapshots) and end < self.snapshots.keys()[max_idx][1]:
-                    key, g = self.snapshots.popitem(max_idx)
-                    self.insert(g, key[0], end)
-                    self.insert(copy.deepcopy(g), end, key[1])
-
-            for graph in graphs[min_idx: max_idx]:
-                yield graph
+            if split_overlaps:
+                # Eg: if Keys = [(2,5)(5,9)], start=3 and end=7, split (2,5) into (2,3) and (3,5),
+                # and (5,9) into (5,7) and (7,9)
+                for time in (start, end):
+                    if time is None:
+                        continue
+                    for key in list(self.snapshots.keys()):
+                        if key[0] < time < key[1]:
+                            g = self.snapshots.pop(key)
+                            self.insert(g, key[0], time)
+                            self.insert(copy.deepcopy(g), time, key[1])
+
+            for key, graph in list(self.snapshots.items()):
+                # A snapshot is retrieved if it begins before the end, and is not over when the interval starts
+                # Eg: if Keys = [(2,5)(5,6)], start=3 retrieves (2,5) but start=5 does not
+                if end is not None and key[0] >= end:
+                    continue
+                if start is not None and key[0] < start and key[1] <= start:
+                    continue
+                yield (key, graph) if include_interval else graph
 
     def get(self, sbunch=None, start=None, end=None):
         """Returns a list of graphs specified in sbunch. Interface function for users.
-- 
2.43.0


From 50c98c969006a5f997cc3e9c986bf93002464448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:48 +0000
Subject: [PATCH 26/44] fix: snapshot subgraphs by index, of absent nodes, and
 of directed snapshot graphs

---
 dynetworkx/classes/snapshotdigraph.py | 2 +-
 dynetworkx/classes/snapshotgraph.py   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index 2e5ee02..f84cfeb 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -30,7 +30,7 @@ class SnapshotDiGraph(SnapshotGraph):
         >>> G = dnx.SnapshotGraph()
         >>> G.add_snapshot([(1, 4), (1, 3)])
         """
-        if not graph:
+        if graph is None:
             if multi is True:
                 g = MultiDiGraph()
             else:
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index ecaa89d..b06300c 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -181,7 +181,7 @@ class SnapshotGraph(object):
         >>> G = dnx.SnapshotGraph()
         >>> G.add_snapshot([(1, 4), (1, 3)], start=0, end=3)
         """
-        if not graph:
+        if graph is None:
             g = Graph()
             g.add_edges_from(ebunch)
         else:
@@ -227,13 +227,13 @@ class SnapshotGraph(object):
         [(4, 6, {})]
         """
 
-        subgraph = SnapshotGraph()
-        subgraph.graph = self.graph
+        subgraph = type(self)()
+        subgraph.graph.update(self.graph)
 
         if sbunch and (start or end):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch:
-            for key, snapshot in self._get(sbunch=sbunch):
+            for key, snapshot in self._get(sbunch=sbunch, include_interval=True):
                 subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
         else:
             for key, snapshot in self._get(start=start, end=end, include_interval=True):
-- 
2.43.0


From 393a72acc34081b4435f534aaaf4a9ff6b928cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:47 +0000
Subject: [PATCH 27/44] fix: zero entries of a snapshot matrix in a text file
 are not edges

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index b06300c..b4fbbf3 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -856,7 +856,7 @@ class SnapshotGraph(object):
                 for row in line.split(delimiter):
                     matrix.append(row.split(' '))
 
-                g = from_numpy_array(np.array(matrix))
+                g = from_numpy_array(np.array(matrix, dtype=float))
                 sg.insert(g, start=interval[0], end=interval[1])
 
         return sg
-- 
2.43.0


From 6bf90f8dc61be5b2318973ace4dc6eef437a84d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:04 +0000
Subject: [PATCH 28/44] fix: blank and comment-only lines of a snapshot text
 file are skipped

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index b4fbbf3..44168ce 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -829,7 +829,7 @@ class SnapshotGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 p = min(line.find(start), line.find(end))
-- 
2.43.0


From 282fd86c47fbffe262631f8c5316ada4fb362b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:19 +0000
Subject: [PATCH 29/44] fix: SnapshotDiGraph.load_from_txt returns a directed
 snapshot graph of directed snapshots

---
 dynetworkx/classes/snapshotdigraph.py |  1 +
 dynetworkx/classes/snapshotgraph.py   | 10 ++++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index f84cfeb..5f6e3cd 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -4,6 +4,7 @@ from dynetworkx.classes.snapshotgraph import SnapshotGraph
 
 
 class SnapshotDiGraph(SnapshotGraph):
+    _snapshot_type = DiGraph
 
     def add_snapshot(self, ebunch=None, graph=None, start=None, end=None, time=None, multi=False):
         """Add a snapshot with a bunch of edge values.
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 44168ce..86f91f6 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -6,6 +6,8 @@ import copy
 
 
 class SnapshotGraph(object):
+    _snapshot_type = Graph
+
     def __init__(self, **attr):
         self.graph = {}
         self.graph.update(attr)
@@ -787,8 +789,8 @@ class SnapshotGraph(object):
             for graph in self._get(start=start, end=end, split_overlaps=True):
                 graph.add_edges_from(ebunch, **attrs)
 
-    @staticmethod
-    def load_from_txt(path, delimiter=";", comments="#", start='start', end='end'):
+    @classmethod
+    def load_from_txt(cls, path, delimiter=";", comments="#", start='start', end='end'):
         """Read snapshot graph in from path.
            Every line in the file must be an adjacency matrix, with rows separated by delimiter.
 
@@ -822,7 +824,7 @@ class SnapshotGraph(object):
         if delimiter == ' ' or delimiter == '\n':
             raise ValueError("Delimiter cannot be " + delimiter + ".")
 
-        sg = SnapshotGraph()
+        sg = cls()
 
         with open(path, 'r') as file:
             for line in file:
@@ -856,7 +858,7 @@ class SnapshotGraph(object):
                 for row in line.split(delimiter):
                     matrix.append(row.split(' '))
 
-                g = from_numpy_array(np.array(matrix, dtype=float))
+                g = from_numpy_array(np.array(matrix, dtype=float), create_using=cls._snapshot_type)
                 sg.insert(g, start=interval[0], end=interval[1])
 
         return sg
-- 
2.43.0


From c52eb638be557663a426724d3f81062cd38689e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:58 +0000
Subject: [PATCH 30/44] fix: count_temporal_motif recognises motifs that
 involve a falsy node such as 0

---
 dynetworkx/algorithms/count_temporal_motif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 94afbae..98de2ce 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -153,7 +153,7 @@ def count_temporal_motif(G, sequence, delta):
                 isomorphic = True
                 # check matching sequences (node sequence vs key)
                 for n in range(len(node_sequence)):
-                    if node_map.get(node_sequence[n]):
+                    if node_sequence[n] in node_map:
                         if node_map[node_sequence[n]] == keys[n]:
                             continue
                         else:
-- 
2.43.0


From 2da03f9ddade2b5f0d79536384a8c917e7c804a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:16 +0000
Subject: [PATCH 31/44] fix: count_temporal_motif counts every occurrence of a
 one-edge motif

---
 dynetworkx/algorithms/count_temporal_motif.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 98de2ce..8efc4da 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -222,6 +222,9 @@ def __decrement_counts(edges, motif_length, counts):
     -------
     None
     """
+    if motif_length == 1:
+        return
+
     suffixes = sorted(counts.keys(), key=len)
     for e in edges:
         counts[e] -= 1
-- 
2.43.0


From 3d0676c012eb80afa6415a129f6b50a712da2941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:12 +0000
Subject: [PATCH 32/44] fix: add_nodes_from accepts a node that is a 1-tuple

---
 dynetworkx/classes/impulsegraph.py  | 2 +-
 dynetworkx/classes/intervalgraph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 3264be7..86e1571 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -294,7 +294,7 @@ class ImpulseGraph(object):
         """
 
         for n in nodes_for_adding:
-            if isinstance(n, tuple) and isinstance(n[1], dict):
+            if isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], dict):
                 self.add_node(n[0], **attr)
                 self._node[n[0]].update(n[1])
             else:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index c02eccd..0663396 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -365,7 +365,7 @@ class IntervalGraph(object):
         >>> G.add_nodes_from([(1, dict(size=11)), (2, {'color':'blue'})])
         """
         for n in nodes_for_adding:
-            if isinstance(n, tuple) and isinstance(n[1], dict):
+            if isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], dict):
                 self.add_node(n[0], **attr)
                 self._node[n[0]].update(n[1])
             else:
-- 
2.43.0


From 57d4103e1f52b0bb3a5354e49a57bac9f9b90434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:27 +0000
Subject: [PATCH 33/44] fix: an edge refused for its node or time leaves the
 graph unchanged

---
 dynetworkx/classes/impulsedigraph.py  |  2 ++
 dynetworkx/classes/impulsegraph.py    |  2 ++
 dynetworkx/classes/intervaldigraph.py | 13 +++++++------
 dynetworkx/classes/intervalgraph.py   | 13 +++++++------
 dynetworkx/classes/intervaltree.py    | 11 +++++++----
 5 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 628fd39..3d6d9cc 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -232,6 +232,8 @@ class ImpulseDiGraph(ImpulseGraph):
         >>> G.add_edge(1, 3, 9, weight=7, capacity=15, length=342.7)
         """
 
+        hash((u, v, t))
+        self.tree.bisect(t)  # a node or time that cannot be used is refused before anything changes
         self.tree.setdefault(t, set()).add((u, v))
 
         self._node.setdefault(u, {})
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 86e1571..9f113d7 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -563,6 +563,8 @@ class ImpulseGraph(object):
         >>> G.add_edge(1, 3, 9, weight=7, capacity=15, length=342.7)
         """
 
+        hash((u, v, t))
+        self.tree.bisect(t)  # a node or time that cannot be used is refused before anything changes
         self.tree.setdefault(t, set()).add((u, v))
 
         self._node.setdefault(u, {})
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 2972e05..6a5d5d9 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -142,6 +142,13 @@ class IntervalDiGraph(IntervalGraph):
                                 "begin: {}, end: {}.".format(begin, end))
 
         iedge = (u, v, begin, end)
+        hash(iedge)  # an unhashable node is refused before anything changes
+
+        # add edge
+        try:
+            self.tree.add(iedge)
+        except ValueError:
+            raise NetworkXError("IntervalDiGraph: edge duration must be strictly bigger than zero {0}.".format(iedge))
 
         # add nodes
 
@@ -150,12 +157,6 @@ class IntervalDiGraph(IntervalGraph):
         self._node.setdefault(u, {})
         self._node.setdefault(v, {})
 
-        # add edge
-        try:
-            self.tree.add(iedge)
-        except ValueError:
-            raise NetworkXError("IntervalDiGraph: edge duration must be strictly bigger than zero {0}.".format(iedge))
-
         self._pred[u][v][iedge] = self._succ[v][u][iedge] = attr
 
     def add_edges_from(self, ebunch_to_add, **attr):
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 0663396..033f009 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -687,12 +687,7 @@ class IntervalGraph(object):
                                 "begin: {}, end: {}.".format(begin, end))
 
         iedge = (u, v, begin, end)
-
-        # add nodes
-        self._adj.setdefault(u, {}).setdefault(v, {})
-        self._adj.setdefault(v, {}).setdefault(u, {})
-        self._node.setdefault(u, {})
-        self._node.setdefault(v, {})
+        hash(iedge)  # an unhashable node is refused before anything changes
 
         # add edge
         try:
@@ -700,6 +695,12 @@ class IntervalGraph(object):
         except ValueError:
             raise NetworkXError("IntervalGraph: edge duration must be strictly bigger than zero {0}.".format(iedge))
 
+        # add nodes
+        self._adj.setdefault(u, {}).setdefault(v, {})
+        self._adj.setdefault(v, {}).setdefault(u, {})
+        self._node.setdefault(u, {})
+        self._node.setdefault(v, {})
+
         self._adj[u][v][iedge] = self._adj[v][u][iedge] = attr
 
     def add_edges_from(self, ebunch_to_add, **attr):
diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index a8b5efe..2596d93 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -175,14 +175,17 @@ class IntervalTree:
             self.number_of_edges += 1
             return
 
+        # times that cannot be compared are refused before anything changes
+        tree_begin = min(self.begin, start)
+        tree_end = max(self.end, end)
+
         node = Node(start, end)
         node.edges.append(edge)
-        self.nodes[(start, end)] = node
-
         self.root = self.insert(self.root, node)
+        self.nodes[(start, end)] = node
         self.number_of_edges += 1
-        self.begin = min(self.begin, start)
-        self.end = max(self.end, end)
+        self.begin = tree_begin
+        self.end = tree_end
         return
 
     def add_from(self, edges):
-- 
2.43.0


From b4fba36ab2425c32b9ace6f7e1836fce57086e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:42 +0000
Subject: [PATCH 34/44] fix: snapshots of length zero are refused like negative
 ones

---
 dynetworkx/classes/impulsegraph.py  | 2 +-
 dynetworkx/classes/intervalgraph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 9f113d7..8d18225 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1269,7 +1269,7 @@ class ImpulseGraph(object):
 
         begin, end = self.interval()
         if type(length_of_snapshots) is int or type(length_of_snapshots) is float:
-            if length_of_snapshots < 0:
+            if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
                                     "{0} was passed.".format(number_of_snapshots))
             number_of_snapshots = int((end - begin) // length_of_snapshots)
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 033f009..ef87cb4 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1443,7 +1443,7 @@ class IntervalGraph(object):
 
         begin, end = self.interval()
         if type(length_of_snapshots) is int or type(length_of_snapshots) is float:
-            if length_of_snapshots < 0:
+            if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
                                     "{0} was passed.".format(number_of_snapshots))
             number_of_snapshots = int((end - begin) // length_of_snapshots)
-- 
2.43.0


From db385a672c9447a294813e932779960ecd6e53c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:42 +0000
Subject: [PATCH 35/44] fix: degree changes in a window outside the graph, or
 of an edgeless graph, are none

---
 dynetworkx/classes/intervaldigraph.py | 9 +++++++++
 dynetworkx/classes/intervalgraph.py   | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 6a5d5d9..2ab7677 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -685,10 +685,13 @@ class IntervalDiGraph(IntervalGraph):
                    len(self.edges(v=node, begin=begin, end=end))
 
         # delta == True, return list of changes
+        given = begin is not None and end is not None
         if begin is None:
             begin = self.tree.begin
         if end is None:
             end = self.tree.end
+        if begin > end and not given:
+            return []  # a window that lies outside the graph
 
         current_degree = self.degree(node, begin=begin, end=begin)
         sd = SortedDict()
@@ -770,10 +773,13 @@ class IntervalDiGraph(IntervalGraph):
             return len(self.edges(v=node, begin=begin, end=end))
 
         # delta == True, return list of changes
+        given = begin is not None and end is not None
         if begin == None:
             begin = self.tree.begin
         if end == None:
             end = self.tree.end
+        if begin > end and not given:
+            return []  # a window that lies outside the graph
 
         current_degree = self.in_degree(node, begin=begin, end=begin)
         sd = SortedDict()
@@ -848,10 +854,13 @@ class IntervalDiGraph(IntervalGraph):
             return len(self.edges(u=node, begin=begin, end=end))
 
         # delta == True, return list of changes
+        given = begin is not None and end is not None
         if begin == None:
             begin = self.tree.begin
         if end == None:
             end = self.tree.end
+        if begin > end and not given:
+            return []  # a window that lies outside the graph
 
         current_degree = self.out_degree(node, begin=begin, end=begin)
         sd = SortedDict()
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index ef87cb4..0fb7a6d 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1144,10 +1144,13 @@ class IntervalGraph(object):
             return len(self.edges(u=node, begin=begin, end=end))
 
         # delta == True, return list of changes
+        given = begin is not None and end is not None
         if begin == None:
             begin = self.tree.begin
         if end == None:
             end = self.tree.end
+        if begin > end and not given:
+            return []  # a window that lies outside the graph
 
         current_degree = self.degree(node, begin=begin, end=begin)
         sd = SortedDict()
-- 
2.43.0


From 330d4351012ed12852d1d17f2b20738de4712151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 36/44] fix: in- and out-degree changes of an impulse digraph
 are listed by time, as degree changes are

---
 dynetworkx/classes/impulsedigraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 3d6d9cc..fc42aa2 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -787,7 +787,7 @@ class ImpulseDiGraph(ImpulseGraph):
         for time in d:
             output.append((time, len(d[time])))
 
-        return output
+        return sorted(output)
 
     def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the out-degree of a specified node between time begin and end.
@@ -849,7 +849,7 @@ class ImpulseDiGraph(ImpulseGraph):
         for time in d:
             output.append((time, len(d[time])))
 
-        return output
+        return sorted(output)
 
     def to_networkx_graph(self, begin=None, end=None, inclusive=(True, False), multigraph=False, edge_data=False,
                           edge_timestamp_data=False, node_data=False):
-- 
2.43.0


From 514503df5d625e9036b944d2c2dedf5817035b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:14 +0000
Subject: [PATCH 37/44] fix: an undirected edge listed from its other end
 continues its run in from_snapshot_graph

---
 dynetworkx/classes/intervalgraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 0fb7a6d..9c2ad07 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1589,6 +1589,9 @@ class IntervalGraph(object):
         for snapshot in snapshot_graph.get():
             for edge in snapshot.edges(data=True):
                 u_v = (edge[0], edge[1])
+                if not snapshot.is_directed() and u_v not in edge_dict and u_v[::-1] in edge_dict:
+                    # an undirected snapshot may list the same edge from its other end
+                    u_v = u_v[::-1]
                 if u_v in edge_dict:
                     if begin + period in edge_dict[u_v]:
                         # parallel edge of the same snapshot
-- 
2.43.0


From 21626c26564c2f787b6f4a102a3ee4f35167a824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:09 +0000
Subject: [PATCH 38/44] fix: add_edge treats (v, u) as the same undirected
 impulse edge

---
 dynetworkx/classes/impulsegraph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 8d18225..c52c0d3 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -565,6 +565,11 @@ class ImpulseGraph(object):
 
         hash((u, v, t))
         self.tree.bisect(t)  # a node or time that cannot be used is refused before anything changes
+
+        # the edge is undirected: it may have been added as (v, u)
+        if (v, u, t) in self._adj.get(u, {}).get(v, {}):
+            u, v = v, u
+
         self.tree.setdefault(t, set()).add((u, v))
 
         self._node.setdefault(u, {})
-- 
2.43.0


From 777a96d30e45649b591632386d697a892744defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 39/44] fix: a zero bound, an empty index list and an empty
 node list count as given in snapshot graphs

---
 dynetworkx/classes/snapshotdigraph.py |  2 +-
 dynetworkx/classes/snapshotgraph.py   | 64 +++++++++++++--------------
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index 5f6e3cd..eb89c02 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -40,7 +40,7 @@ class SnapshotDiGraph(SnapshotGraph):
         else:
             g = graph
 
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.insert(g, time=time)
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 86f91f6..0926794 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -150,7 +150,7 @@ class SnapshotGraph(object):
         >>> G.insert(nxG1, start=0, end=3)
 
         """
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.snapshots.update({(time, time): graph})
@@ -189,7 +189,7 @@ class SnapshotGraph(object):
         else:
             g = graph
 
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.insert(g, time=time)
@@ -232,9 +232,9 @@ class SnapshotGraph(object):
         subgraph = type(self)()
         subgraph.graph.update(self.graph)
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for key, snapshot in self._get(sbunch=sbunch, include_interval=True):
                 subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
         else:
@@ -279,15 +279,15 @@ class SnapshotGraph(object):
         # returns a list of degrees for each graph snapshot in snapshots
         # use generator to create list of degrees
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
-            if nbunch:
+        elif sbunch is not None:
+            if nbunch is not None:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(sbunch=sbunch)]
             else:
                 return [graph.degree(graph, weight=weight) for graph in self._get(sbunch=sbunch)]
         else:
-            if nbunch:
+            if nbunch is not None:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(start=start, end=end)]
             else:
                 return [graph.degree(graph, weight=weight) for graph in self._get(start=start, end=end)]
@@ -321,9 +321,9 @@ class SnapshotGraph(object):
         """
         # returns a list of the number of nodes in each graph in the range
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.number_of_nodes() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.number_of_nodes() for graph in self._get(start=start, end=end)]
@@ -357,9 +357,9 @@ class SnapshotGraph(object):
         """
         # returns a list of the order of the graph in the range
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.order() for graph in self._get(sbunch=sbunch)]
         else:
             return [g.order() for g in self._get(start=start, end=end)]
@@ -394,9 +394,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.has_node(n) for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.has_node(n) for graph in self._get(start=start, end=end)]
@@ -430,9 +430,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.is_multigraph() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.is_multigraph() for graph in self._get(start=start, end=end)]
@@ -466,9 +466,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.is_directed() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.is_directed() for graph in self._get(start=start, end=end)]
@@ -500,9 +500,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.to_directed() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.to_directed() for graph in self._get(start=start, end=end)]
@@ -534,9 +534,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.to_undirected() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.to_undirected() for graph in self._get(start=start, end=end)]
@@ -573,9 +573,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.size(weight=weight) for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.size(weight=weight) for graph in self._get(start=start, end=end)]
@@ -617,9 +617,9 @@ class SnapshotGraph(object):
         [<networkx.classes.graph.Graph object at 0x7f27f5bd39b0>, <networkx.classes.graph.Graph object at 0x7f27f5bd3d30>]
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:  # if retrieve by indexes
+        elif sbunch is not None:  # if retrieve by indexes
             graphs = self.snapshots.items() if include_interval else self.snapshots.values()
             for index in sbunch:
                 yield graphs[index]
@@ -722,9 +722,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for graph in self._get(sbunch=sbunch):
                 graph.add_nodes_from(nbunch, **attrs)
         else:
@@ -780,9 +780,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for graph in self._get(sbunch=sbunch):
                 graph.add_edges_from(ebunch, **attrs)
         else:
@@ -918,9 +918,9 @@ class SnapshotGraph(object):
         >>> G.compute_network_statistic(nx.algorithms.centrality.degree_centrality)
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [nx_statistic_function(graph, **kwargs) for graph in self._get(sbunch=sbunch)]
         else:
             return [nx_statistic_function(graph, **kwargs) for graph in self._get(start=start, end=end)]
-- 
2.43.0


From 44c4e532871da08a2ee760090d1955ec7e8d3548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:40 +0000
Subject: [PATCH 40/44] fix: every selected snapshot gets the nodes and edges
 of an iterator, and none when an index is refused

---
 dynetworkx/classes/snapshotgraph.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 0926794..60a96cf 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -232,6 +232,9 @@ class SnapshotGraph(object):
         subgraph = type(self)()
         subgraph.graph.update(self.graph)
 
+        if hasattr(nbunch, '__next__'):
+            nbunch = list(nbunch)  # an iterator is read once, for all of the snapshots
+
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch is not None:
@@ -279,6 +282,9 @@ class SnapshotGraph(object):
         # returns a list of degrees for each graph snapshot in snapshots
         # use generator to create list of degrees
 
+        if hasattr(nbunch, '__next__'):
+            nbunch = list(nbunch)  # an iterator is read once, for all of the snapshots
+
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch is not None:
@@ -724,8 +730,10 @@ class SnapshotGraph(object):
 
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch is not None:
-            for graph in self._get(sbunch=sbunch):
+
+        nbunch = list(nbunch)  # an iterator is read once, for all of the snapshots
+        if sbunch is not None:
+            for graph in self.get(sbunch=sbunch):
                 graph.add_nodes_from(nbunch, **attrs)
         else:
             for graph in self._get(start=start, end=end, split_overlaps=True):
@@ -782,8 +790,10 @@ class SnapshotGraph(object):
 
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch is not None:
-            for graph in self._get(sbunch=sbunch):
+
+        ebunch = list(ebunch)  # an iterator is read once, for all of the snapshots
+        if sbunch is not None:
+            for graph in self.get(sbunch=sbunch):
                 graph.add_edges_from(ebunch, **attrs)
         else:
             for graph in self._get(start=start, end=end, split_overlaps=True):
-- 
2.43.0


From 5625b940e847e6d3679b760576f29afd56c8bdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:30 +0000
Subject: [PATCH 41/44] fix: windows of impulse graphs with one bound omitted
 accept timestamps of any orderable type

---
 dynetworkx/classes/impulsedigraph.py | 5 +++--
 dynetworkx/classes/impulsegraph.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index fc42aa2..8d8f9d5 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1015,10 +1015,11 @@ class ImpulseDiGraph(ImpulseGraph):
         if begin is not None and begin == end:
             return t == begin
 
+        # an omitted bound excludes nothing, whatever the type of the timestamps
         if begin is None:
-            begin = float('-inf')
+            begin, inclusive = t, (True, inclusive[1])
         if end is None:
-            end = float('inf')
+            end, inclusive = t, (inclusive[0], True)
 
         if inclusive == (True, True):
             return begin <= t <= end
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index c52c0d3..dc14a21 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1092,10 +1092,11 @@ class ImpulseGraph(object):
         if begin is not None and begin == end:
             return t == begin
 
+        # an omitted bound excludes nothing, whatever the type of the timestamps
         if begin is None:
-            begin = float('-inf')
+            begin, inclusive = t, (True, inclusive[1])
         if end is None:
-            end = float('inf')
+            end, inclusive = t, (inclusive[0], True)
 
         if inclusive == (True, True):
             return t >= begin and t <= end
-- 
2.43.0


From ec1ac6c95484dce7f6de01d3ce293c2af606fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:30 +0000
Subject: [PATCH 42/44] fix: interval graphs accept begin and end of any
 orderable type

---
 dynetworkx/classes/intervaldigraph.py |  6 +++---
 dynetworkx/classes/intervalgraph.py   |  5 +----
 dynetworkx/classes/intervaltree.py    | 16 ++++++----------
 3 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 2ab7677..c5ef939 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -690,7 +690,7 @@ class IntervalDiGraph(IntervalGraph):
             begin = self.tree.begin
         if end is None:
             end = self.tree.end
-        if begin > end and not given:
+        if not given and (self.tree.root is None or begin > end):
             return []  # a window that lies outside the graph
 
         current_degree = self.degree(node, begin=begin, end=begin)
@@ -778,7 +778,7 @@ class IntervalDiGraph(IntervalGraph):
             begin = self.tree.begin
         if end == None:
             end = self.tree.end
-        if begin > end and not given:
+        if not given and (self.tree.root is None or begin > end):
             return []  # a window that lies outside the graph
 
         current_degree = self.in_degree(node, begin=begin, end=begin)
@@ -859,7 +859,7 @@ class IntervalDiGraph(IntervalGraph):
             begin = self.tree.begin
         if end == None:
             end = self.tree.end
-        if begin > end and not given:
+        if not given and (self.tree.root is None or begin > end):
             return []  # a window that lies outside the graph
 
         current_degree = self.out_degree(node, begin=begin, end=begin)
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 9c2ad07..dcc3b33 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -485,9 +485,6 @@ class IntervalGraph(object):
         if begin is None and end is None:
             return True
 
-        if begin is None and end < self.tree.begin:
-            return False
-
         if begin is not None and end is not None and end < begin:
             return False
 
@@ -1149,7 +1146,7 @@ class IntervalGraph(object):
             begin = self.tree.begin
         if end == None:
             end = self.tree.end
-        if begin > end and not given:
+        if not given and (self.tree.root is None or begin > end):
             return []  # a window that lies outside the graph
 
         current_degree = self.degree(node, begin=begin, end=begin)
diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index 2596d93..a35784d 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -13,7 +13,8 @@ class Node:
         self.height = 0
 
     def inInterval(self, begin, end):
-        return (self.low < end and self.high > begin) or self.low == begin
+        # a bound which is None is no bound
+        return ((end is None or self.low < end) and (begin is None or self.high > begin)) or self.low == begin
 
 class IntervalTree:
 
@@ -155,13 +156,13 @@ class IntervalTree:
         return self.getHeight(node.left) - self.getHeight(node.right)
 
     def query(self, node, begin, end):
-        if node.left and node.left.max >= begin:
+        if node.left and (begin is None or node.left.max >= begin):
             yield from self.query(node.left, begin, end)
 
         if node.inInterval(begin, end):
             yield node
 
-        if node.right and node.low <= end and node.right.max >= begin:
+        if node.right and (end is None or node.low <= end) and (begin is None or node.right.max >= begin):
             yield from self.query(node.right, begin, end)
 
     def add(self, edge):
@@ -176,8 +177,8 @@ class IntervalTree:
             return
 
         # times that cannot be compared are refused before anything changes
-        tree_begin = min(self.begin, start)
-        tree_end = max(self.end, end)
+        tree_begin = start if self.root is None else min(self.begin, start)
+        tree_end = end if self.root is None else max(self.end, end)
 
         node = Node(start, end)
         node.edges.append(edge)
@@ -227,11 +228,6 @@ class IntervalTree:
             root = self.root
             if not root:
                 return []
-        if interval_start is None:
-            interval_start = float("-inf")
-        if interval_end is None:
-            interval_end = float("inf")
-
         for node in self.query(root, interval_start, interval_end):
             yield from node.edges
 
-- 
2.43.0


From 9a96b21060549e8a0b2863a10aa6c4a1c44928a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:56 +0000
Subject: [PATCH 43/44] fix: loading with merge leaves edges of zero length
 just beyond the grace period apart

The window that collects the edges to join also returns an edge of zero
length exactly at its begin, one past the grace period; it was joined or
not depending on the order of the lines.
---
 dynetworkx/classes/intervalgraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index dcc3b33..99cc5dc 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1777,8 +1777,10 @@ class IntervalGraph(object):
                     raise TypeError("Failed to convert interval time to {}".format(intervaltype))
 
                 if merge[0]:
+                    earliest = begin - merge[1] - 1
                     for edge, edge_data in G.edges(u, v, begin - merge[1] - 1, end + merge[1] + 1, data=True):
-                        if edge_data == edgedata:
+                        # the window also holds an edge of zero length at its very begin, which is out of reach
+                        if edge_data == edgedata and edge[3] > earliest:
                             begin = min(begin, edge[2])
                             end = max(end, edge[3])
                             G.remove_edge(u, v, edge[2], edge[3], overlapping=False)
-- 
2.43.0


From 7f5c32dc866d781cf3d6d4801a67aabd7f1ee0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:37 +0000
Subject: [PATCH 44/44] fix: motifs are counted in graphs whose nodes are not
 of one orderable type

Loading a file yields such nodes where only some names are integers.
Names of several types were refused with a TypeError, and names with
only a partial order (frozensets) gave counts that missed occurrences.
---
 dynetworkx/algorithms/count_temporal_motif.py | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 8efc4da..51e5669 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -6,7 +6,7 @@ import pandas as pd
 from collections import OrderedDict
 
 
-def __enumerate_subgraphs(g, size_k):
+def __enumerate_subgraphs(g, size_k, rank):
     """Enumerate all size_k connected subgraph of static graph g.
 
     Parameters
@@ -15,16 +15,18 @@ def __enumerate_subgraphs(g, size_k):
 
     size_k: size of sub-graphs
 
+    rank: dictionary giving each node of g its position in an order of all nodes
+
     Returns
     -------
     an iterator for all size_k sub-graphs of g
     """
     for v in g.nodes():
-        v_extension = set(filter(lambda x: x > v, g.neighbors(v)))
-        yield from __extend_subgraph({v}, v_extension, v, g, size_k)
+        v_extension = set(filter(lambda x: rank[x] > rank[v], g.neighbors(v)))
+        yield from __extend_subgraph({v}, v_extension, v, g, size_k, rank)
 
 
-def __extend_subgraph(v_subgraph, v_extension, v, g, size_k):
+def __extend_subgraph(v_subgraph, v_extension, v, g, size_k, rank):
     """A recursive helper function for __enumerate_subgraphs() to enumerate all size_k connected sub-graphs
 
     Parameters
@@ -39,6 +41,8 @@ def __extend_subgraph(v_subgraph, v_extension, v, g, size_k):
 
     size_k: size of sub-graphs
 
+    rank: dictionary giving each node of g its position in an order of all nodes
+
     Returns
     -------
     an iterator for all size_k sub-graphs of g with v as the starting node
@@ -50,9 +54,9 @@ def __extend_subgraph(v_subgraph, v_extension, v, g, size_k):
             w = random.choice(tuple(v_extension))
             v_extension.remove(w)
 
-            v2_extension = v_extension.copy().union(set(filter(lambda x: x > v,
+            v2_extension = v_extension.copy().union(set(filter(lambda x: rank[x] > rank[v],
                                                                set(g.neighbors(w)) - v_subgraph)))
-            yield from __extend_subgraph(v_subgraph.copy().union({w}), v2_extension, v, g, size_k)
+            yield from __extend_subgraph(v_subgraph.copy().union({w}), v2_extension, v, g, size_k, rank)
 
 
 def count_temporal_motif(G, sequence, delta):
@@ -101,7 +105,13 @@ def count_temporal_motif(G, sequence, delta):
     static_motif = Graph()
     static_motif.add_edges_from(sequence)
 
-    for sub in __enumerate_subgraphs(g, size_k=len(static_motif.nodes())):
+    # nodes of different types have no order of their own
+    try:
+        rank = {n: i for i, n in enumerate(sorted(g.nodes()))}
+    except TypeError:
+        rank = {n: i for i, n in enumerate(g.nodes())}
+
+    for sub in __enumerate_subgraphs(g, size_k=len(static_motif.nodes()), rank=rank):
         # A way to check if nodes in sub may contain motif will help speed up. Using nx.is_isomorphic() will
         # create error by dropping a lot of potential subgraphs.
         counts = dict()
@@ -144,7 +154,7 @@ def count_temporal_motif(G, sequence, delta):
             __increment_counts(same_time_edges, len(sequence), counts)
 
         # Extract out count for sequences that are isomorphic to the temporal motifs
-        for keys in sorted(counts.keys()):
+        for keys in sorted(counts.keys(), key=lambda key: [rank[n] for n in key]):
             if len(keys) / 2 == len(sequence):
                 if counts[keys] == 0:
                     continue
@@ -183,7 +193,7 @@ def count_temporal_motif(G, sequence, delta):
     nodes = []
     for key in total_counts: # gathers all nodes
         nodes += list(key)
-    nodes = sorted(list(set(nodes))) # sorts and gets rid of duplicates
+    nodes = sorted(list(set(nodes)), key=rank.get) # sorts and gets rid of duplicates
 
     # creates dataframe where columns = nodes, row indices = position number, and value = number of times each node is at each position
     nppp = pd.DataFrame(index=nodes, columns=motif) # creates the dataframe
-- 
2.43.0

