From a693ebf299428d16f0b4eb38b9f2f465d3ca7f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:17 +0000
Subject: [PATCH 001/116] fix: keep axis names in step when flattening or
 splitting trace edges

---
 tensornetwork/network_components.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index d8125e8..4d68609 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1342,6 +1342,7 @@ def _flatten_trace_edges(edges: List[Edge],
   """
   node = edges[0].node1  # We are in the trace case, so this is the only node.
   backend = node.backend
+  axis_names = node.axis_names
   # Flatten all of the edge's axes into a a single list.
   perm_back = [min(e.axis1, e.axis2) for e in edges]
   perm_back += [max(e.axis1, e.axis2) for e in edges]
@@ -1358,6 +1359,7 @@ def _flatten_trace_edges(edges: List[Edge],
   edge1 = Edge(node1=node, axis1=len(perm_front), name="TraceFront")
   edge2 = Edge(node1=node, axis1=len(perm_front) + 1, name="TraceBack")
   node.edges = node.edges[:len(perm_front)] + [edge1, edge2]
+  node.axis_names = axis_names[:len(node.edges)]
   new_edge = connect(edge1, edge2, new_edge_name)
   # pylint: disable=expression-not-assigned
   [edge.disable() for edge in edges]  #disable edges!
@@ -1510,6 +1512,7 @@ def _split_trace_edge(
   """
   node = edge.node1  # We are in the trace case, so this is the only node.
   backend = node.backend
+  axis_names = node.axis_names
   # Permute until edge axes to be split are at the back and reshape.
   perm_back = [min(edge.axis1, edge.axis2)]
   perm_back += [max(edge.axis1, edge.axis2)]
@@ -1521,6 +1524,9 @@ def _split_trace_edge(
   node.tensor = backend.reshape(node.tensor, new_shape)
   # Trim edges and add placeholder edges for new axes.
   node.edges = node.edges[:len(perm_front)] + 2 * len(shape) * [None]
+  node.axis_names = axis_names[:len(perm_front)] + [
+      str(n) for n in range(len(perm_front), len(node.edges))
+  ]
   # Create new dangling edges and connect them to each other.
   new_edges = []
   for idx in range(len(shape)):
-- 
2.43.0


From 62d5138ccc271886717cfd7513ad2ba16bcbc33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:17 +0000
Subject: [PATCH 002/116] fix: copy nodes report the shape of their reshaped or
 sliced tensor

---
 tensornetwork/network_components.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 4d68609..6f7e2b9 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -824,6 +824,9 @@ class CopyNode(AbstractNode):
 
   @property
   def shape(self) -> Tuple[Optional[int], ...]:
+    if self._tensor is not None:
+      # Flattening, splitting or slicing edges changes the tensor's shape.
+      return self.backend.shape_tuple(self._tensor)
     return (self.dimension,) * self.rank
 
   @property
@@ -902,6 +905,9 @@ class CopyNode(AbstractNode):
 
   def compute_contracted_tensor(self) -> Tensor:
     """Compute tensor corresponding to contraction of self with neighbors."""
+    if tuple(self.shape) != (self.dimension,) * self.rank:
+      raise ValueError('Copy node {} has been reshaped or sliced and is no '
+                       'longer a copy tensor'.format(self.name))
     partners = self.get_partners()
     einsum_expression = self._make_einsum_expression(partners)
     tensors = [partner.get_tensor() for partner in partners]
-- 
2.43.0


From 572a4452a73c91088a1340eac0eebec71abcf1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 003/116] fix: contract_copy_node detaches its partners and
 disables the contracted edges

---
 tensornetwork/network_components.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 6f7e2b9..0b4d71c 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1928,7 +1928,12 @@ def contract_copy_node(copy_node: CopyNode,
       new_node.add_edge(edge, new_axis)
       new_axis += 1
   assert len(new_tensor.shape) == new_axis
+  contracted_edges = set(copy_node.edges)
+  for partner in partners:
+    partner.fresh_edges(partner.axis_names)
   copy_node.fresh_edges(copy_node.axis_names)
+  for edge in contracted_edges:
+    edge.disable()
   return new_node
 
 
-- 
2.43.0


From fda8b28e420a4a6afe20b4af938361d13e43a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:10 +0000
Subject: [PATCH 004/116] fix: reorder_edges rejects repeated edges before
 touching the node

---
 tensornetwork/network_components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 0b4d71c..52d2ff8 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -234,6 +234,9 @@ class AbstractNode(ABC):
       if edge.node1 == edge.node2:
         raise ValueError("Edge reordering does not support trace edges. "
                          "Found trace edge: '{}'".format(edge))
+    if len(edge_order) != len(self.edges):
+      raise ValueError("Given edge order does not match expected edges. "
+                       "Repeated edges found in: {}".format(edge_order))
 
     permutation = []
     for i, edge in enumerate(edge_order):
-- 
2.43.0


From d664289c8658882e219a9cb56233b31fdf4b6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:22 +0000
Subject: [PATCH 005/116] fix: split_edge validates shape and names before
 touching the nodes

---
 tensornetwork/network_components.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 52d2ff8..eda990f 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1580,6 +1580,12 @@ def split_edge(edge: Edge,
   if not np.prod(shape) == edge.dimension:
     raise ValueError("Edge {} with dimension {} cannot be split according to "
                      "shape {}.".format(edge, edge.dimension, shape))
+  if any(dim < 0 for dim in shape):
+    raise ValueError("Dimensions have to be non-negative, "
+                     "got shape {}.".format(shape))
+  if new_edge_names is not None and len(new_edge_names) != len(shape):
+    raise ValueError("Expected {} edge names, got {}.".format(
+        len(shape), len(new_edge_names)))
   # Check if possible reshape operation is trivial.
   if len(shape) == 1:
     return [edge]
-- 
2.43.0


From cf0ce5a584ac21f8917ebdfcb16883fc9edbd61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:36 +0000
Subject: [PATCH 006/116] fix: slice_edge resolves negative start indices
 instead of returning empty slices

---
 tensornetwork/network_components.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index eda990f..030f966 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1678,7 +1678,8 @@ def slice_edge(edge: Edge, start_index: int, length: int) -> Edge:
   """
   if length <= 0:
     raise ValueError("Length of slice must be positive.")
-  if ((start_index + length > edge.dimension) or (-length < start_index < 0)):
+  first = start_index + edge.dimension if start_index < 0 else start_index
+  if first < 0 or first + length > edge.dimension:
     raise ValueError("Length {} slice beginning at {} is invalid for edge of "
                      "dimension {}".format(length, start_index, edge.dimension))
 
@@ -1692,7 +1693,7 @@ def slice_edge(edge: Edge, start_index: int, length: int) -> Edge:
     if node is not None:
       tensor = node.get_tensor()
       start_indices = [0] * node.get_rank()
-      start_indices[axis] = start_index
+      start_indices[axis] = first
       start_indices = tuple(start_indices)
       slice_sizes = list(node.shape)
       slice_sizes[axis] = length
-- 
2.43.0


From 2a1fc3e35072d0d33e19d191dd6bc9a8f96ea594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:53 +0000
Subject: [PATCH 007/116] fix: contract_between validates output order and
 names before consuming nodes

---
 tensornetwork/network_components.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 030f966..54a3057 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -2056,6 +2056,19 @@ def contract_between(
 
   backend = node1.backend
   shared_edges = get_shared_edges(node1, node2)
+  # Validate the requested output before any node is consumed.
+  free_edges = node1.edges if node1 is node2 else node1.edges + node2.edges
+  free_edges = [edge for edge in free_edges if edge not in shared_edges]
+  if output_edge_order and (len(output_edge_order) != len(free_edges) or
+                            set(output_edge_order) != set(free_edges) or
+                            len(set(free_edges)) != len(free_edges)):
+    raise ValueError("output_edge_order has to contain every edge of nodes "
+                     "'{}' and '{}' that is not shared by them exactly once "
+                     "and no trace edges.".format(node1, node2))
+  if axis_names and (len(axis_names) != len(free_edges) or
+                     len(set(axis_names)) != len(axis_names)):
+    raise ValueError("Expected {} unique axis names, got {}.".format(
+        len(free_edges), axis_names))
   # Trace edges cannot be contracted using tensordot.
   if node1 is node2:
     flat_edge = flatten_edges_between(node1, node2)
-- 
2.43.0


From 98edfd68fdc325041c588178e788eaf356134d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:05 +0000
Subject: [PATCH 008/116] fix: contract honours axis_names when contracting a
 trace edge

---
 tensornetwork/network_components.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 54a3057..6128fac 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1821,7 +1821,9 @@ def _remove_edges(edges: Set[Edge], node1: AbstractNode, node2: AbstractNode,
   [edge.disable() for edge in edges]  #disabled edges!
 
 
-def _contract_trace(edge: Edge, name: Optional[Text] = None) -> AbstractNode:
+def _contract_trace(edge: Edge,
+                    name: Optional[Text] = None,
+                    axis_names: Optional[List[Text]] = None) -> AbstractNode:
   """Contract a trace edge.
   `edge` is disabled before returning.
   Args:
@@ -1848,7 +1850,8 @@ def _contract_trace(edge: Edge, name: Optional[Text] = None) -> AbstractNode:
   new_tensor = backend.trace(
       backend.transpose(edge.node1.tensor, perm=permutation))
   name = name if name else edge.node1.name
-  new_node = Node(new_tensor, name=name, backend=backend)
+  new_node = Node(
+      new_tensor, name=name, axis_names=axis_names, backend=backend)
   _remove_trace_edge(edge, new_node)  #disables edge
   return new_node
 
@@ -1895,7 +1898,7 @@ def contract(edge: Edge,
 
   backend = edge.node1.backend
   if edge.node1 is edge.node2:
-    return _contract_trace(edge, name)
+    return _contract_trace(edge, name, axis_names)
   new_tensor = backend.tensordot(edge.node1.tensor, edge.node2.tensor,
                                  [[edge.axis1], [edge.axis2]])
   new_node = Node(tensor=new_tensor,
-- 
2.43.0


From 49768ba98cb9fd68e843be09fe5c3d69743184c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 009/116] fix: split_node, split_node_qr and split_node_rq
 build both factors before moving edges

---
 tensornetwork/network_operations.py | 30 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 9817511..6ac05b2 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -229,7 +229,10 @@ def split_node(
                    name=left_name,
                    axis_names=left_axis_names,
                    backend=backend)
-
+  right_node = Node(vh_s,
+                    name=right_name,
+                    axis_names=right_axis_names,
+                    backend=backend)
   left_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in left_edges
   ]
@@ -237,11 +240,6 @@ def split_node(
     left_node.add_edge(edge, i)
     edge.update_axis(left_axes_order[i], node, i, left_node)
 
-  right_node = Node(vh_s,
-                    name=right_name,
-                    axis_names=right_axis_names,
-                    backend=backend)
-
   right_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in right_edges
   ]
@@ -321,7 +319,10 @@ def split_node_qr(
                    name=left_name,
                    axis_names=left_axis_names,
                    backend=backend)
-
+  right_node = Node(r,
+                    name=right_name,
+                    axis_names=right_axis_names,
+                    backend=backend)
   left_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in left_edges
   ]
@@ -329,11 +330,6 @@ def split_node_qr(
     left_node.add_edge(edge, i)
     edge.update_axis(left_axes_order[i], node, i, left_node)
 
-  right_node = Node(r,
-                    name=right_name,
-                    axis_names=right_axis_names,
-                    backend=backend)
-
   right_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in right_edges
   ]
@@ -416,7 +412,10 @@ def split_node_rq(
                    name=left_name,
                    axis_names=left_axis_names,
                    backend=backend)
-
+  right_node = Node(q,
+                    name=right_name,
+                    axis_names=right_axis_names,
+                    backend=backend)
   left_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in left_edges
   ]
@@ -424,11 +423,6 @@ def split_node_rq(
     left_node.add_edge(edge, i)
     edge.update_axis(left_axes_order[i], node, i, left_node)
 
-  right_node = Node(q,
-                    name=right_name,
-                    axis_names=right_axis_names,
-                    backend=backend)
-
   right_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in right_edges
   ]
-- 
2.43.0


From 9fcb388436ff9ca492cb0657a621e91decfed691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:37 +0000
Subject: [PATCH 010/116] fix: connect refuses outdated edges of axes that are
 already connected

---
 tensornetwork/network_components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 6128fac..30babdc 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1972,6 +1972,9 @@ def connect(edge1: Edge, edge2: Edge, name: Optional[Text] = None) -> Edge:
       raise ValueError("Edge '{}' is not a dangling edge. "
                        "This edge points to nodes: '{}' and '{}'".format(
                            edge, edge.node1, edge.node2))
+    if not edge.node1[edge.axis1].is_dangling():
+      raise ValueError("Edge '{}' is outdated: axis {} of node '{}' is already "
+                       "connected.".format(edge, edge.axis1, edge.node1))
   if edge1 is edge2:
     raise ValueError("Cannot connect edge '{}' to itself.".format(edge1))
 
-- 
2.43.0


From 42e915c5c435d2748675fb785d325ab7536389c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:37 +0000
Subject: [PATCH 011/116] fix: copying a copy node with trace edges works for
 any axis order

---
 tensornetwork/network_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 30babdc..5a88c77 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -815,11 +815,11 @@ class CopyNode(AbstractNode):
       visited_edges.add(edge)
       if edge.node1 == edge.node2:
         new_edge = Edge(new_node,
-                        i,
+                        edge.axis1,
                         name=edge.name,
                         node2=new_node,
                         axis2=edge.axis2)
-        new_node.add_edge(new_edge, i)
+        new_node.add_edge(new_edge, edge.axis1)
         new_node.add_edge(new_edge, edge.axis2)
       else:
         new_node.add_edge(Edge(new_node, i, name=edge.name), i)
-- 
2.43.0


From 682969fcf386b74d956e91c88f74e0a64ec8005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:52 +0000
Subject: [PATCH 012/116] fix: copy maps trace edges to the edges of the copied
 nodes

---
 tensornetwork/network_operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 6ac05b2..c3a6171 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -74,9 +74,9 @@ def copy(nodes: Iterable[AbstractNode],
 
     # both nodes should be copied
     new_edge = Edge(node_dict[node1], axis1, edge.name, node_dict[node2], axis2)
-    if not edge.is_trace():
-      node_dict[node2].add_edge(new_edge, axis2)
-      node_dict[node1].add_edge(new_edge, axis1)
+    # the copied node of a trace edge already carries a trace edge of its own
+    node_dict[node2].add_edge(new_edge, axis2, override=edge.is_trace())
+    node_dict[node1].add_edge(new_edge, axis1, override=edge.is_trace())
 
     edge_dict[edge] = new_edge
 
-- 
2.43.0


From 877c374e21e5bab6493b3e503ed32c9ff87f943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:07 +0000
Subject: [PATCH 013/116] fix: split_edge keeps the names of the other axes and
 generates unique ones

---
 tensornetwork/network_components.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 5a88c77..4f93134 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1503,6 +1503,17 @@ def flatten_all_edges(nodes: Iterable[AbstractNode]) -> List[Edge]:
   return flattened_edges
 
 
+def _extend_axis_names(axis_names: List[Text], length: int) -> List[Text]:
+  """Extend `axis_names` to `length` unique names."""
+  axis_names = list(axis_names)
+  candidate = len(axis_names)
+  while len(axis_names) < length:
+    if str(candidate) not in axis_names:
+      axis_names.append(str(candidate))
+    candidate += 1
+  return axis_names
+
+
 def _split_trace_edge(
     edge: Edge,
     shape: Tuple[int, ...],
@@ -1533,9 +1544,8 @@ def _split_trace_edge(
   node.tensor = backend.reshape(node.tensor, new_shape)
   # Trim edges and add placeholder edges for new axes.
   node.edges = node.edges[:len(perm_front)] + 2 * len(shape) * [None]
-  node.axis_names = axis_names[:len(perm_front)] + [
-      str(n) for n in range(len(perm_front), len(node.edges))
-  ]
+  node.axis_names = _extend_axis_names([axis_names[n] for n in perm_front],
+                                       len(node.edges))
   # Create new dangling edges and connect them to each other.
   new_edges = []
   for idx in range(len(shape)):
@@ -1627,13 +1637,10 @@ def split_edge(edge: Edge,
       new_dangling_edges.append(new_dangling_edge)
     # TODO: Allow renaming of new axes (possibly distinct from new_edge_names).
     if axis_names:
-      new_axis_names = [axis_names[n] for n in range(len(unaffected_shape))]
+      new_axis_names = [axis_names[n] for n in perm_front]
       if new_edge_names:
         new_axis_names.extend(new_edge_names)
-      else:
-        new_axis_names.extend(
-            [str(n) for n in range(len(unaffected_shape), len(node.edges))])
-      node.axis_names = new_axis_names
+      node.axis_names = _extend_axis_names(new_axis_names, len(node.edges))
     else:
       node.axis_names = [str(n) for n in range(len(node.edges))]
 
-- 
2.43.0


From b7f9ba151a452a220affb3ff8d7cdd875f928df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:54 +0000
Subject: [PATCH 014/116] fix: auto on a single node honours ignore_edge_order

---
 tensornetwork/contractors/opt_einsum_paths/path_contractors.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 764f2e8..51f3802 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -236,7 +236,6 @@ def auto(nodes: Iterable[AbstractNode],
       final_node = contract_parallel(edges.pop())
     else:
       final_node = list(_nodes)[0]
-    final_node.reorder_edges(output_edge_order)
     if not ignore_edge_order:
       final_node.reorder_edges(output_edge_order)
     return final_node
-- 
2.43.0


From 1430d90f0e678fe0f95597e8ea9d06181c04d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:25 +0000
Subject: [PATCH 015/116] fix: contract_path works on its own list and keeps it
 current after traces

---
 .../contractors/opt_einsum_paths/path_contractors.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 51f3802..990ad0f 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -364,11 +364,13 @@ def contract_path(path: Tuple[List[Tuple[int,
   Returns:
     Final node after full contraction.
   """
+  nodes = list(nodes)
   edges = get_all_edges(nodes)
   for edge in edges:
     if not edge.is_disabled:  #if its disabled we already contracted it
       if edge.is_trace():
-        contract_parallel(edge)
+        position = nodes.index(edge.node1)
+        nodes[position] = contract_parallel(edge)
 
   if len(nodes) == 1:
     newnode = nodes[0].copy()
-- 
2.43.0


From fc7dd59851a753c782da7c4eaabb46b8a2ebf64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:09 +0000
Subject: [PATCH 016/116] fix: reorder_edges keeps node.edges a list when given
 another sequence

---
 tensornetwork/network_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 4f93134..eaae2c8 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -245,7 +245,7 @@ class AbstractNode(ABC):
       old_position = self.edges.index(edge)
       permutation.append(old_position)
       edge.update_axis(old_position, self, i, self)
-    self.edges = edge_order[:]
+    self.edges = list(edge_order)
     self.tensor = self.backend.transpose(self.tensor, perm=permutation)
     if self.axis_names is not None:
       # Update axis_names:
-- 
2.43.0


From cbe0eb287010222051e80bf384619d78f44a4e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 017/116] fix: ncon sums single closed labels that sit on
 different tensors

---
 tensornetwork/ncon_interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index ab70948..ccbf8f5 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -414,7 +414,9 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
 
   for loc in locs:
     labels = network_structure[loc]
-    contractable_inds = [labels.index(l) for l in contractable_labels]
+    contractable_inds = [
+        labels.index(l) for l in contractable_labels if l in labels
+    ]
     network_structure[loc] = [l for l in labels if l not in contractable_labels]
     tensors[loc] = backend_obj.sum(tensors[loc], tuple(contractable_inds))
 
-- 
2.43.0


From 10a4e7451bcf2f602f10ec358aae871d5646db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 018/116] fix: ncon rejects mismatched dimensions of open batch
 labels

---
 tensornetwork/ncon_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index ccbf8f5..4da13ce 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -223,7 +223,7 @@ def _check_network(network_structure: Sequence[Sequence[Union[int, str]]],
 
   # check if contracted dimensions are matching
   mismatched_labels = []
-  for l in cont_labels:
+  for l in cont_labels + out_labels:
     dims = {
         tensor_dimensions[m][n]
         for m, labels in enumerate(network_structure)
-- 
2.43.0


From 2081983155f72766c4fa6036fd53851c64153777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 019/116] fix: ncon treats repeated batch labels on one tensor
 as a diagonal

---
 tensornetwork/ncon_interface.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index 4da13ce..8cc88b8 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -277,6 +277,33 @@ def _partial_trace(
   return tensor, labels, []
 
 
+def _repeated_labels_to_diagonals(
+    tensor: Tensor, labels: List, flat_labels: List,
+    backend_obj: AbstractBackend) -> Tuple[Tensor, List]:
+  """
+  Collapse the axes of `tensor` that carry the same label into a single one,
+  unless they form a pair of axes that is to be traced, i.e. unless 
+  the label is positive and appears exactly twice in `flat_labels`.
+  Args:
+    tensor: A tensor.
+    labels: The ncon-style labels of `tensor`.
+    flat_labels: The labels of all tensors.
+  Returns:
+    Tensor: The tensor without repeated axes.
+    List: The labels of the result.
+  """
+  for label in sorted(set(labels)):
+    while labels.count(label) > 1 and (label < 0 or
+                                       flat_labels.count(label) > 2):
+      first = labels.index(label)
+      second = labels.index(label, first + 1)
+      free = [n for n in range(len(labels)) if n not in (first, second)]
+      tensor = backend_obj.diagonal(
+          backend_obj.transpose(tensor, tuple(free + [first, second])))
+      labels = [labels[n] for n in free] + [label]
+  return tensor, labels
+
+
 def _batch_cont(
     t1: Tensor, t2: Tensor, tensors: List[Tensor],
     network_structure: List[List], con_order: List, common_batch_labels: Set,
@@ -391,6 +418,12 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
   init_con_order = [c for c in con_order]
   init_network_structure = [c for c in network_structure]
 
+  # labels repeated on one tensor that are not simply traced
+  all_labels = [l for labels in network_structure for l in labels]
+  for n, tensor in enumerate(tensors):
+    tensors[n], network_structure[n] = _repeated_labels_to_diagonals(
+        tensor, network_structure[n], all_labels, backend_obj)
+
   # partial trace
   for n, tensor in enumerate(tensors):
     tensors[n], network_structure[n], contracted_labels = _partial_trace(
-- 
2.43.0


From 67192eaff25d6ead2f966b45e1bdb9deb01525ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 020/116] fix: ncon contracts closed batch labels shared by
 three or more tensors only

---
 tensornetwork/ncon_interface.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index 8cc88b8..30cd413 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -471,12 +471,17 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
       con_order.append(con_order.pop(0))
       skip_counter += 1
       # avoid being stuck in an infinite loop
-      if skip_counter > len(con_order):
+      if skip_counter <= len(con_order):
+        continue
+      if any(l > 0 and l not in con_order
+             for labels in network_structure
+             for l in labels):
         raise ValueError(f"ncon seems stuck in an infinite loop. \n"
                          f"Please check if `con_order` = {init_con_order} is "
                          f"a valid contraction order for \n"
                          f"`network_structure` = {init_network_structure}")
-      continue
+      # only batch labels are left: contract two of their tensors
+    skip_counter = 0
 
     # find locations of `cont_ind` in `network_structure`
     locs = [
-- 
2.43.0


From b12b2c7e4bacc5eba62296f1f3ea9e0a9424fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:00 +0000
Subject: [PATCH 021/116] fix: qr and rq with non_negative_diagonal keep the
 product for complex and zero diagonals

---
 tensornetwork/backends/numpy/decompositions.py      | 4 ++++
 tensornetwork/backends/tensorflow/decompositions.py | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/numpy/decompositions.py b/tensornetwork/backends/numpy/decompositions.py
index 29feb63..4c9fa09 100644
--- a/tensornetwork/backends/numpy/decompositions.py
+++ b/tensornetwork/backends/numpy/decompositions.py
@@ -90,6 +90,8 @@ def qr(
   q, r = np.linalg.qr(tensor)
   if non_negative_diagonal:
     phases = np.sign(np.diagonal(r))
+    # a vanishing diagonal element must not erase its column
+    phases = np.where(phases == 0, np.ones_like(phases), phases)
     q = q * phases
     r = phases.conj()[:, None] * r
   center_dim = q.shape[1]
@@ -114,6 +116,8 @@ def rq(
   q, r = np.linalg.qr(np.conj(np.transpose(tensor)))
   if non_negative_diagonal:
     phases = np.sign(np.diagonal(r))
+    # a vanishing diagonal element must not erase its column
+    phases = np.where(phases == 0, np.ones_like(phases), phases)
     q = q * phases
     r = phases.conj()[:, None] * r
   r, q = np.conj(np.transpose(r)), np.conj(
diff --git a/tensornetwork/backends/tensorflow/decompositions.py b/tensornetwork/backends/tensorflow/decompositions.py
index dcc5bba..6f2c153 100644
--- a/tensornetwork/backends/tensorflow/decompositions.py
+++ b/tensornetwork/backends/tensorflow/decompositions.py
@@ -168,8 +168,10 @@ def qr(
   q, r = tf.linalg.qr(tensor)
   if non_negative_diagonal:
     phases = tf.math.sign(tf.linalg.diag_part(r))
+    # a vanishing diagonal element must not erase its column
+    phases = tf.where(tf.equal(phases, 0), tf.ones_like(phases), phases)
     q = q * phases
-    r = phases[:, None] * r
+    r = tf.math.conj(phases)[:, None] * r
   center_dim = tf.shape(q)[1]
   q = tf.reshape(q, tf.concat([left_dims, [center_dim]], axis=-1))
   r = tf.reshape(r, tf.concat([[center_dim], right_dims], axis=-1))
@@ -218,8 +220,10 @@ def rq(
   q, r = tf.linalg.qr(tf.math.conj(tf.transpose(tensor)))
   if non_negative_diagonal:
     phases = tf.math.sign(tf.linalg.diag_part(r))
+    # a vanishing diagonal element must not erase its column
+    phases = tf.where(tf.equal(phases, 0), tf.ones_like(phases), phases)
     q = q * phases
-    r = phases[:, None] * r
+    r = tf.math.conj(phases)[:, None] * r
   r, q = tf.math.conj(tf.transpose(r)), tf.math.conj(
       tf.transpose(q))  #M=r*q at this point
   center_dim = tf.shape(r)[1]
-- 
2.43.0


From d75a8d2d1e5d90de2d368ce3e6c5d3d00b054534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 022/116] fix: numpy and jax svd, qr and rq accept a pivot at
 either end

---
 tensornetwork/backends/numpy/decompositions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/backends/numpy/decompositions.py b/tensornetwork/backends/numpy/decompositions.py
index 4c9fa09..f474529 100644
--- a/tensornetwork/backends/numpy/decompositions.py
+++ b/tensornetwork/backends/numpy/decompositions.py
@@ -32,7 +32,8 @@ def svd(
   left_dims = tensor.shape[:pivot_axis]
   right_dims = tensor.shape[pivot_axis:]
 
-  tensor = np.reshape(tensor, [numpy.prod(left_dims), numpy.prod(right_dims)])
+  tensor = np.reshape(tensor, [int(numpy.prod(left_dims)),
+                               int(numpy.prod(right_dims))])
   u, s, vh = np.linalg.svd(tensor, full_matrices=False)
 
   if max_singular_values is None:
@@ -86,7 +87,8 @@ def qr(
   """
   left_dims = tensor.shape[:pivot_axis]
   right_dims = tensor.shape[pivot_axis:]
-  tensor = np.reshape(tensor, [numpy.prod(left_dims), numpy.prod(right_dims)])
+  tensor = np.reshape(tensor, [int(numpy.prod(left_dims)),
+                               int(numpy.prod(right_dims))])
   q, r = np.linalg.qr(tensor)
   if non_negative_diagonal:
     phases = np.sign(np.diagonal(r))
@@ -112,7 +114,8 @@ def rq(
   """
   left_dims = tensor.shape[:pivot_axis]
   right_dims = tensor.shape[pivot_axis:]
-  tensor = np.reshape(tensor, [numpy.prod(left_dims), numpy.prod(right_dims)])
+  tensor = np.reshape(tensor, [int(numpy.prod(left_dims)),
+                               int(numpy.prod(right_dims))])
   q, r = np.linalg.qr(np.conj(np.transpose(tensor)))
   if non_negative_diagonal:
     phases = np.sign(np.diagonal(r))
-- 
2.43.0


From 20656010e99d9e588f61843c27b253d624b65bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 023/116] fix: TensorFlow diagflat flattens its input

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index d0d2463..446aa89 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -312,7 +312,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
       tensor: A new tensor with all zeros save the specified diagonal.
     """
     #pylint: disable=unexpected-keyword-arg
-    return tf.linalg.diag(tensor, k=k)
+    return tf.linalg.diag(tf.reshape(tensor, [-1]), k=k)
 
   def trace(self, tensor: Tensor, offset: int = 0, axis1: int = -2,
             axis2: int = -1) -> Tensor:
-- 
2.43.0


From f98874fc8fa16a8a3984bdbc617d6980ac159e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 024/116] fix: TensorFlow trace rejects equal axes given with
 different signs

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 446aa89..555181b 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -355,6 +355,8 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
       axis1 = N+axis1
     if axis2 < 0:
       axis2 = N+axis2
+    if axis1 == axis2:
+      raise ValueError(f"axis1 and axis2 both refer to axis {axis1}")
 
     inds = list(map(chr, range(98, 98+N)))
     indsout = [i for n, i in enumerate(inds) if n not in (axis1, axis2)]
-- 
2.43.0


From 167b62b4f4d42eebd9d1a96cf453778952cc0528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 025/116] fix: TensorFlow item works for tensors of any order

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 555181b..fd3a435 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -396,7 +396,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
                          f"got {tensor.shape}")
 
     if numel == 1:
-      return tensor[0]
+      return tf.reshape(tensor, [])
     return tensor
 
   def power(self, a: Tensor, b: Union[Tensor, float]) -> Tensor:
-- 
2.43.0


From 29ff4e25ab5e29eeb2ee8a3775824a402cdc5eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 026/116] fix: jax index_update works with current jax

---
 tensornetwork/backends/jax/jax_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index 447cb56..f54283a 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -725,7 +725,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
 
   def index_update(self, tensor: Tensor, mask: Tensor,
                    assignee: Tensor) -> Tensor:
-    return libjax.ops.index_update(tensor, mask, assignee)
+    return jnp.asarray(tensor).at[mask].set(assignee)
 
   def inv(self, matrix: Tensor) -> Tensor:
     if len(matrix.shape) > 2:
-- 
2.43.0


From f6a75704d9d1e2a0459b806197090dfe1f012380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:57 +0000
Subject: [PATCH 027/116] fix: numpy full contractions accept negative axes and
 reject mismatched dimensions

---
 tensornetwork/backends/numpy/numpy_backend.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 2d37539..975ffc5 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -39,6 +39,15 @@ class NumPyBackend(abstract_backend.AbstractBackend):
       if (len(axes[0]) == a.ndim) and (len(axes[1]) == b.ndim):
         if not len(axes[0]) == len(axes[1]):
           raise ValueError("shape-mismatch for sum")
+        # einsum knows no negative axes and broadcasts dimensions of size 1
+        axes = [[ax + t.ndim if ax < 0 else ax
+                 for ax in axs]
+                for t, axs in zip((a, b), axes)]
+        if any(a.shape[i] != b.shape[j] for i, j in zip(*axes)):
+          raise ValueError("shape-mismatch for sum")
+        if not all(0 < len(set(axs)) == len(axs) <= len(int_to_string)
+                   for axs in axes):
+          return np.tensordot(a, b, axes)
         u, pos1, _ = np.intersect1d(axes[0],
                                     axes[1],
                                     return_indices=True,
-- 
2.43.0


From dccfa58000120b4c0aaaf47578603f40bd76c1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:44 +0000
Subject: [PATCH 028/116] fix: numpy sum accepts its default axis=None

---
 tensornetwork/backends/numpy/numpy_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 975ffc5..f13bb4c 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -613,7 +613,9 @@ class NumPyBackend(abstract_backend.AbstractBackend):
           tensor: Tensor,
           axis: Optional[Sequence[int]] = None,
           keepdims: bool = False) -> Tensor:
-    return np.sum(tensor, axis=tuple(axis), keepdims=keepdims)
+    if axis is not None:
+      axis = tuple(axis)
+    return np.sum(tensor, axis=axis, keepdims=keepdims)
 
   def matmul(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
     if (tensor1.ndim <= 1) or (tensor2.ndim <= 1):
-- 
2.43.0


From 58cfd82a3a2346cf3c1cbb41db83f7c7414759ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:20 +0000
Subject: [PATCH 029/116] fix: kron compares the backends of both tensors

---
 tensornetwork/linalg/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/linalg/operations.py b/tensornetwork/linalg/operations.py
index d8c484f..139323f 100644
--- a/tensornetwork/linalg/operations.py
+++ b/tensornetwork/linalg/operations.py
@@ -322,7 +322,7 @@ def kron(tensorA: Tensor, tensorB: Tensor) -> Tensor:
     ValueError: - If backends, are not matching.
                 - If ndims of the input tensors are not even.
   """
-  tensors = [tensorA, tensorA]
+  tensors = [tensorA, tensorB]
   all_backends_same, errstr = _check_backends(tensors, "kron")
   if not all_backends_same:
     raise ValueError(errstr)
-- 
2.43.0


From 48942ba552bd41821923f381cc8bea57a42a29d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:20 +0000
Subject: [PATCH 030/116] fix: ones_like and zeros_like work on every backend,
 by default and with a dtype

---
 tensornetwork/linalg/initialization.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/linalg/initialization.py b/tensornetwork/linalg/initialization.py
index a0e4340..3db1f52 100644
--- a/tensornetwork/linalg/initialization.py
+++ b/tensornetwork/linalg/initialization.py
@@ -116,11 +116,11 @@ def ones_like(tensor: Union[Any],
      backend(optional): The backend or its name."""
   if backend is None:
     backend = backend_contextmanager.get_default_backend()
-  else:
-    backend = backend_contextmanager.backend_factory.get_backend(backend)
+  backend = backend_contextmanager.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
     the_tensor = initialize_tensor("ones", tensor.shape,
-                                   backend=tensor.backend, dtype=tensor.dtype)
+                                   backend=tensor.backend,
+                                   dtype=tensor.dtype if dtype is None else dtype)
   else:
     try:
       tensor = backend.convert_to_tensor(tensor)
@@ -128,7 +128,7 @@ def ones_like(tensor: Union[Any],
       error = "Input to zeros_like has invalid type causing " \
               "error massage: \n" + str(e)
       raise TypeError(error) from e
-    the_tensor = initialize_tensor("ones", tensor.get_shape().as_list(),
+    the_tensor = initialize_tensor("ones", backend.shape_tuple(tensor),
                                    backend=backend, dtype=dtype)
   return the_tensor
 
@@ -144,11 +144,11 @@ def zeros_like(tensor: Union[Any],
      backend(optional): The backend or its name."""
   if backend is None:
     backend = backend_contextmanager.get_default_backend()
-  else:
-    backend = backend_contextmanager.backend_factory.get_backend(backend)
+  backend = backend_contextmanager.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
     the_tensor = initialize_tensor("zeros", tensor.shape,
-                                   backend=tensor.backend, dtype=tensor.dtype)
+                                   backend=tensor.backend,
+                                   dtype=tensor.dtype if dtype is None else dtype)
   else:
     try:
       tensor = backend.convert_to_tensor(tensor)
@@ -156,7 +156,7 @@ def zeros_like(tensor: Union[Any],
       error = "Input to zeros_like has invalid " \
                     "type causing error massage: \n" + str(e)
       raise TypeError(error) from e
-    the_tensor = initialize_tensor("zeros", tensor.shape,
+    the_tensor = initialize_tensor("zeros", backend.shape_tuple(tensor),
                                    backend=backend, dtype=dtype)
   return the_tensor
 
-- 
2.43.0


From 15d2ed582d4593dc04b35abc0113143a3284c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:20 +0000
Subject: [PATCH 031/116] fix: node initialisers work with the default backend

---
 tensornetwork/linalg/node_linalg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/linalg/node_linalg.py b/tensornetwork/linalg/node_linalg.py
index 67e414c..3a3527a 100644
--- a/tensornetwork/linalg/node_linalg.py
+++ b/tensornetwork/linalg/node_linalg.py
@@ -55,9 +55,8 @@ def initialize_node(fname: Text,
           axis of data.
   """
   if backend is None:
-    backend_obj = backend_contextmanager.get_default_backend()
-  else:
-    backend_obj = backends.backend_factory.get_backend(backend)
+    backend = backend_contextmanager.get_default_backend()
+  backend_obj = backends.backend_factory.get_backend(backend)
   func = getattr(backend_obj, fname)
   data = func(*fargs, **fkwargs)
   node = Node(data, name=name, axis_names=axis_names, backend=backend)
-- 
2.43.0


From 28f23f04050ec41f75e494024b739961baccd373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:20 +0000
Subject: [PATCH 032/116] fix: transposing a node honours axis_names

---
 tensornetwork/linalg/node_linalg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/linalg/node_linalg.py b/tensornetwork/linalg/node_linalg.py
index 3a3527a..a662f95 100644
--- a/tensornetwork/linalg/node_linalg.py
+++ b/tensornetwork/linalg/node_linalg.py
@@ -285,12 +285,12 @@ def transpose(node: AbstractNode,
         node, type(node)))
 
   perm = [node.get_axis_number(p) for p in permutation]
-  if not axis_names:
-    axis_names = node.axis_names
-
   new_node = Node(
       node.tensor, name=name, axis_names=node.axis_names, backend=node.backend)
-  return new_node.reorder_axes(perm)
+  new_node.reorder_axes(perm)
+  if axis_names:
+    new_node.add_axis_names(axis_names)
+  return new_node
 
 
 def kron(nodes: Sequence[AbstractNode]) -> AbstractNode:
-- 
2.43.0


From 5d33a5e71b35d818c4dc3bab4fad6824141fa93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:55 +0000
Subject: [PATCH 033/116] fix: Tensor accepts scalars and has an integer size

---
 tensornetwork/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/tensor.py b/tensornetwork/tensor.py
index 7c39448..75497c5 100644
--- a/tensornetwork/tensor.py
+++ b/tensornetwork/tensor.py
@@ -31,8 +31,8 @@ class Tensor():
     backend_obj = backends.backend_factory.get_backend(backend)
     self.backend = backend_obj
     self.array = self.backend.convert_to_tensor(array)
-    self.shape = array.shape
-    self.size = np.prod(self.shape)
+    self.shape = self.array.shape
+    self.size = np.prod(self.shape, dtype=int)
     self.ndim = len(self.shape)
 
   @property
-- 
2.43.0


From 7655aade3c53b7205b364160b052c3971d491a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:48 +0000
Subject: [PATCH 034/116] fix: random initialisers honour seed 0

---
 tensornetwork/backends/jax/jax_backend.py               | 4 ++--
 tensornetwork/backends/numpy/numpy_backend.py           | 4 ++--
 tensornetwork/backends/symmetric/symmetric_backend.py   | 4 ++--
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index f54283a..d517a9a 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -163,7 +163,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
             shape: Tuple[int, ...],
             dtype: Optional[np.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
-    if not seed:
+    if seed is None:
       seed = np.random.randint(0, 2**63)
     key = libjax.random.PRNGKey(seed)
 
@@ -194,7 +194,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
                      boundaries: Optional[Tuple[float, float]] = (0.0, 1.0),
                      dtype: Optional[np.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
-    if not seed:
+    if seed is None:
       seed = np.random.randint(0, 2**63)
     key = libjax.random.PRNGKey(seed)
 
diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index f13bb4c..54968bb 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -142,7 +142,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
             dtype: Optional[np.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       np.random.seed(seed)
     dtype = dtype if dtype is not None else np.float64
     if ((np.dtype(dtype) is np.dtype(np.complex128)) or
@@ -157,7 +157,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
                      dtype: Optional[np.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       np.random.seed(seed)
     dtype = dtype if dtype is not None else np.float64
     if ((np.dtype(dtype) is np.dtype(np.complex128)) or
diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 8cedc6d..ce0478e 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -146,7 +146,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
             dtype: Optional[numpy.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       numpy.random.seed(seed)
     return self.bs.randn(shape, dtype)
 
@@ -156,7 +156,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
                      dtype: Optional[numpy.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       numpy.random.seed(seed)
     dtype = dtype if dtype is not None else numpy.float64
     return self.bs.random(shape, boundaries, dtype)
diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index fd3a435..3318a5d 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -142,7 +142,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
             shape: Tuple[int, ...],
             dtype: Optional[Type[np.number]] = None,
             seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       tf.random.set_seed(seed)
 
     dtype = dtype if dtype is not None else tf.float64
@@ -157,7 +157,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
                      boundaries: Optional[Tuple[float, float]] = (0.0, 1.0),
                      dtype: Optional[Type[np.number]] = None,
                      seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       tf.random.set_seed(seed)
 
     dtype = dtype if dtype is not None else tf.float64
-- 
2.43.0


From 8c3440084b9c00795cf902711ecd2ee7cb463aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:48 +0000
Subject: [PATCH 035/116] fix: TensorFlow random_uniform honours its seed for
 real dtypes

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 3318a5d..4fb7c0d 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -174,7 +174,6 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
               minval=boundaries[0],
               maxval=boundaries[1],
               dtype=dtype.real_dtype))
-    tf.random.set_seed(10)
     #pylint: disable=unexpected-keyword-arg
     a = tf.random.uniform(
         shape=shape, minval=boundaries[0], maxval=boundaries[1], dtype=dtype)
-- 
2.43.0


From 174f0d30766e5ea183d1e9e08abd5be1ed59f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:48 +0000
Subject: [PATCH 036/116] fix: TensorFlow random initialisers accept complex
 numpy dtypes

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 4fb7c0d..d928a18 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -145,7 +145,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
     if seed is not None:
       tf.random.set_seed(seed)
 
-    dtype = dtype if dtype is not None else tf.float64
+    dtype = tf.as_dtype(dtype if dtype is not None else tf.float64)
     if (dtype is tf.complex128) or (dtype is tf.complex64):
       return tf.complex(
           tf.random.normal(shape=shape, dtype=dtype.real_dtype),
@@ -160,7 +160,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
     if seed is not None:
       tf.random.set_seed(seed)
 
-    dtype = dtype if dtype is not None else tf.float64
+    dtype = tf.as_dtype(dtype if dtype is not None else tf.float64)
     if (dtype is tf.complex128) or (dtype is tf.complex64):
       #pylint: disable=unexpected-keyword-arg
       return tf.complex(
-- 
2.43.0


From a1f7c6d4046fc15bce0a13465179c9bec021562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:21 +0000
Subject: [PATCH 037/116] fix: numpy randn works for scalar shapes

---
 tensornetwork/backends/numpy/numpy_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 54968bb..3599968 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -147,9 +147,9 @@ class NumPyBackend(abstract_backend.AbstractBackend):
     dtype = dtype if dtype is not None else np.float64
     if ((np.dtype(dtype) is np.dtype(np.complex128)) or
         (np.dtype(dtype) is np.dtype(np.complex64))):
-      return np.random.randn(
-          *shape).astype(dtype) + 1j * np.random.randn(*shape).astype(dtype)
-    return np.random.randn(*shape).astype(dtype)
+      return np.random.standard_normal(shape).astype(
+          dtype) + 1j * np.random.standard_normal(shape).astype(dtype)
+    return np.random.standard_normal(shape).astype(dtype)
 
   def random_uniform(self,
                      shape: Tuple[int, ...],
-- 
2.43.0


From 12d4bb37bd416c1122a61b7c012c72de1ed55bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 038/116] fix: save_nodes restores the names of all nodes and
 edges

---
 tensornetwork/utils.py | 58 ++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/tensornetwork/utils.py b/tensornetwork/utils.py
index b91dd8c..c6a1a3a 100644
--- a/tensornetwork/utils.py
+++ b/tensornetwork/utils.py
@@ -55,36 +55,38 @@ def save_nodes(nodes: List[AbstractNode], path: Union[str, BinaryIO]) -> None:
   for e, edge in enumerate(edges):
     edge.set_name('edge{}'.format(e))
 
-  with h5py.File(path, 'w') as net_file:
-    nodes_group = net_file.create_group('nodes')
-    node_names_group = net_file.create_group('node_names')
-    node_names_group.create_dataset(
-        'names',
-        dtype=string_type,
-        data=np.array(list(old_node_names.values()), dtype=object))
-
-    edges_group = net_file.create_group('edges')
-    edge_names_group = net_file.create_group('edge_names')
-    edge_names_group.create_dataset(
-        'names',
-        dtype=string_type,
-        data=np.array(list(old_edge_names.values()), dtype=object))
-
+  try:
+    with h5py.File(path, 'w') as net_file:
+      nodes_group = net_file.create_group('nodes')
+      node_names_group = net_file.create_group('node_names')
+      node_names_group.create_dataset(
+          'names',
+          dtype=string_type,
+          data=np.array(list(old_node_names.values()), dtype=object))
+
+      edges_group = net_file.create_group('edges')
+      edge_names_group = net_file.create_group('edge_names')
+      edge_names_group.create_dataset(
+          'names',
+          dtype=string_type,
+          data=np.array(list(old_edge_names.values()), dtype=object))
+
+      unsaved_edges = set(edges)
+      for n, node in enumerate(nodes):
+        node_group = nodes_group.create_group(node.name)
+        node._save_node(node_group)
+        for edge in node.edges:
+          if edge.node1 == node and edge in unsaved_edges:
+            edge_group = edges_group.create_group(edge.name)
+            edge._save_edge(edge_group)
+            unsaved_edges.remove(edge)
+  finally:
+    #name edges and nodes back  to their original names
     for n, node in enumerate(nodes):
-      node_group = nodes_group.create_group(node.name)
-      node._save_node(node_group)
-      for edge in node.edges:
-        if edge.node1 == node and edge in edges:
-          edge_group = edges_group.create_group(edge.name)
-          edge._save_edge(edge_group)
-          edges.remove(edge)
-
-  #name edges and nodes back  to their original names
-  for n, node in enumerate(nodes):
-    nodes[n].set_name(old_node_names[n])
+      node.set_name(old_node_names[n])
 
-  for n, edge in enumerate(edges):
-    edges[n].set_name(old_edge_names[n])
+    for n, edge in enumerate(edges):
+      edge.set_name(old_edge_names[n])
 
 
 def load_nodes(path: str) -> List[AbstractNode]:
-- 
2.43.0


From f9b409c36f0ababcc1a3f2f430ce89f6ebc1f324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 039/116] fix: load_nodes returns the nodes in the order they
 were saved

---
 tensornetwork/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensornetwork/utils.py b/tensornetwork/utils.py
index c6a1a3a..b2df5bf 100644
--- a/tensornetwork/utils.py
+++ b/tensornetwork/utils.py
@@ -100,7 +100,6 @@ def load_nodes(path: str) -> List[AbstractNode]:
   nodes_list = []
   edges_list = []
   with h5py.File(path, 'r') as net_file:
-    nodes = list(net_file["nodes"].keys())
     node_names = {
         'node{}'.format(n): v for n, v in enumerate(
             net_file["node_names"]['names'].asstr(STRING_ENCODING)[()])#pylint: disable=no-member
@@ -110,7 +109,7 @@ def load_nodes(path: str) -> List[AbstractNode]:
             net_file["edge_names"]['names'].asstr(STRING_ENCODING)[()])#pylint: disable=no-member
     }
     edges = list(net_file["edges"].keys())
-    for node_name in nodes:
+    for node_name in node_names:
       node_data = net_file["nodes/" + node_name]
       node_type = get_component(node_data['type'].asstr()[()])
       nodes_list.append(node_type._load_node(node_data=node_data))
-- 
2.43.0


From fa6837701c15de90998022cc6de1660e7459c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:56 +0000
Subject: [PATCH 040/116] fix: scalar nodes can be loaded from HDF5

---
 tensornetwork/network_components.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index eaae2c8..68ba11f 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -465,7 +465,10 @@ class AbstractNode(ABC):
     name = node_data['name'].asstr(STRING_ENCODING)[()]
     backend = node_data['backend'].asstr(STRING_ENCODING)[()]
     shape = node_data['shape'][()]
-    axis_names = node_data['axis_names'].asstr(STRING_ENCODING)[()]
+    if len(shape) == 0:  # a scalar node has no axis names
+      axis_names = []
+    else:
+      axis_names = node_data['axis_names'].asstr(STRING_ENCODING)[()]
     return name, shape, axis_names, backend
 
   @abstractmethod
-- 
2.43.0


From 68b94a4807a8ec8d802b40c546d22445873e2e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:56 +0000
Subject: [PATCH 041/116] fix: nodes_from_json builds proper dangling edges for
 dropped connections

---
 tensornetwork/network_operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index c3a6171..252f3ad 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -961,6 +961,10 @@ def nodes_from_json(json_str: str) -> Tuple[List[AbstractNode],
   for e in network_dict['edges']:
     e_nodes = [node_ids.get(n_id) for n_id in e['node_ids']]
     axes = e['attributes']['axes']
+    if e_nodes[0] is None:
+      # the connection to an excluded node was dropped: the edge dangles from
+      # its second node.
+      e_nodes, axes = e_nodes[::-1], axes[::-1]
     edge = Edge(node1=e_nodes[0],
                 axis1=axes[0],
                 node2=e_nodes[1],
-- 
2.43.0


From be6f9b81222f1d56b3a1b1989d0a6e9078957d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:15 +0000
Subject: [PATCH 042/116] fix: charge arrays with a single row keep one label
 per row

---
 tensornetwork/block_sparse/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/utils.py b/tensornetwork/block_sparse/utils.py
index b1caad7..f100d06 100644
--- a/tensornetwork/block_sparse/utils.py
+++ b/tensornetwork/block_sparse/utils.py
@@ -205,7 +205,7 @@ def collapse(array: np.ndarray) -> np.ndarray:
         np.concatenate(
             [array, np.zeros((array.shape[0], width), dtype=array.dtype)],
             axis=1).view(newdtype))
-  return np.squeeze(tmparray)
+  return np.ravel(tmparray)
 
 
 def expand(array: np.ndarray, original_dtype: Type[np.number],
@@ -226,7 +226,7 @@ def expand(array: np.ndarray, original_dtype: Type[np.number],
   """
   if original_ndim <= 1:
     #nothing to expand
-    return np.squeeze(array)
+    return np.ravel(array)
   if array.ndim == 1:
     #the array has been collapsed
     #now we uncollapse it
-- 
2.43.0


From 2089e00708f907827e1e0c8930c329efa193c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:03 +0000
Subject: [PATCH 043/116] fix: hermitian conjugate of a charged matrix flips
 the flows

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 771aa1b..071fa66 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -388,7 +388,7 @@ class ChargeArray:
     tensor.__init__(
         data=np.conj(self.data),
         charges=self._charges,
-        flows=self._flows,
+        flows=np.logical_not(self._flows),
         order=order,
         check_consistency=False)
 
-- 
2.43.0


From 2aa871aef44120031484882c86e15b9eab7cad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:03 +0000
Subject: [PATCH 044/116] fix: charges compare and intersect with charges of
 any class

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 +-
 tensornetwork/block_sparse/charge.py            | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 071fa66..7c28a06 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -834,7 +834,7 @@ class BlockSparseTensor(ChargeArray):
         [flat_flows[n] for n in permutation], tr_partition)
     data = np.empty(len(self.data), dtype=self.dtype)
     for n, sparse_block in enumerate(sparse_blocks):
-      ind = np.nonzero(tr_charges == charges[n])[0][0]
+      ind = np.nonzero(tr_charges == charges[n].charges)[0][0]
       perm = tr_sparse_blocks[ind]
       data[sparse_block] = self.data[perm]
 
diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 237b30d..052c8c0 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -171,9 +171,14 @@ class BaseCharge:
 
   def __eq__(self, target_charges: Union[np.ndarray,
                                          "BaseCharge"]) -> np.ndarray:
-    if isinstance(target_charges, type(self)):
+    if isinstance(target_charges, BaseCharge):
       if len(target_charges) == 0:
         raise ValueError('input to __eq__ cannot be an empty charge')
+      if target_charges.num_symmetries != self.num_symmetries:
+        raise ValueError("`target_charges.num_symmetries = {}` is incompatible "
+                         "with `self.num_symmetries = {}`".format(
+                             target_charges.num_symmetries,
+                             self.num_symmetries))
       targets = target_charges.charges
     else:
       if target_charges.ndim == 1:
@@ -291,7 +296,7 @@ class BaseCharge:
       If `return_indices=False`:
         BaseCharge
     """
-    if isinstance(other, type(self)):
+    if isinstance(other, BaseCharge):
       out = intersect(
           self.charges,
           other.charges,
-- 
2.43.0


From 02eb48cee5e7c56fb8b7de725903136a5088dce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:17 +0000
Subject: [PATCH 045/116] fix: equality of charges and indices compares values
 and symmetries

---
 tensornetwork/block_sparse/charge.py | 31 ++++++++--------------------
 tensornetwork/block_sparse/index.py  | 17 +++++++--------
 2 files changed, 16 insertions(+), 32 deletions(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 052c8c0..a30e89a 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from functools import lru_cache
 import numpy as np
 from tensornetwork.block_sparse.utils import intersect, unique
 from typing import (List, Optional, Type, Any, Union, Callable)
@@ -551,6 +552,7 @@ class Z2Charge(BaseCharge):
     return cls(charges=charges)
 
 
+@lru_cache(maxsize=None)
 def ZNCharge(n: int) -> Callable:
   """Contstructor for charge classes of the ZN symmetry groups.
 
@@ -651,28 +653,13 @@ def charge_equal(c1: BaseCharge, c2: BaseCharge) -> bool:
   Compare two BaseCharges `c1` and `c2`.
   Return `True` if they are equal, else `False`.
   """
-  res = True
+  if list(c1.charge_types) != list(c2.charge_types):
+    return False
   if c1.dim != c2.dim:
     return False
 
-  res = True      
-  if c1._unique_charges is not None and c2._unique_charges is not None:
-    if c1._unique_charges.shape != c2._unique_charges.shape:
-      res = False
-    elif not np.all(c1._unique_charges == c2._unique_charges):
-      res = False
-    elif not np.all(c1.charge_labels == c2.charge_labels):
-      res = False
-    return res
-
-  if c1._charges is not None and c2._charges is not None:
-    if c1._charges.shape != c2._charges.shape:
-      res = False
-    elif not np.all(c1._charges == c2._charges):
-      res = False
-    return res
-  if c1.charges.shape != c2.charges.shape:
-    res = False
-  elif not np.all(c1.charges == c2.charges):
-    res = False
-  return res
+  if (c1._unique_charges is not None and c2._unique_charges is not None and
+      np.array_equal(c1._unique_charges, c2._unique_charges) and
+      np.array_equal(c1._charge_labels, c2._charge_labels)):
+    return True
+  return np.array_equal(c1.charges, c2.charges)
diff --git a/tensornetwork/block_sparse/index.py b/tensornetwork/block_sparse/index.py
index 6d0aa68..89f7b39 100644
--- a/tensornetwork/block_sparse/index.py
+++ b/tensornetwork/block_sparse/index.py
@@ -12,7 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 import numpy as np
-from tensornetwork.block_sparse.charge import BaseCharge, fuse_charges
+from tensornetwork.block_sparse.charge import (BaseCharge, fuse_charges,
+                                               charge_equal)
 import copy
 from typing import List, Union
 
@@ -52,18 +53,14 @@ class Index:
     return np.prod([i.dim for i in self._charges])
 
   def __eq__(self, other) -> bool:
+    if not isinstance(other, Index):
+      return NotImplemented
     if len(other._charges) != len(self._charges):
       return False
-    for n in range(len(self._charges)):
-      if not np.array_equal(self._charges[n].unique_charges,
-                            other._charges[n].unique_charges):
-        return False
-      if not np.array_equal(self._charges[n].charge_labels,
-                            other._charges[n].charge_labels):
-        return False
-    if not np.all(np.asarray(self.flow) == np.asarray(other.flow)):
+    if not all(
+        charge_equal(c1, c2) for c1, c2 in zip(self._charges, other._charges)):
       return False
-    return True
+    return np.array_equal(np.asarray(self.flow), np.asarray(other.flow))
 
   def copy(self) -> "Index":
     """
-- 
2.43.0


From 45759498a75b2415b98da4e1da55ebbb2cd230b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:20 +0000
Subject: [PATCH 046/116] fix: derived charges keep the dtype of the charges

---
 .../block_sparse/blocksparse_utils.py         | 25 ++++++----
 tensornetwork/block_sparse/charge.py          | 49 +++++++++++++------
 2 files changed, 50 insertions(+), 24 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 9285632..6dd129a 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -109,7 +109,8 @@ def compute_sparse_lookup(
   obj.__init__(
       charges=unique_charges,
       charge_labels=None,
-      charge_types=charges[0].charge_types)
+      charge_types=charges[0].charge_types,
+      charge_dtype=unique_charges.dtype)
 
   tmp[label_to_unique] = label_to_unique
   lookup = tmp[inverse]
@@ -267,7 +268,8 @@ def reduce_charges(charges: List[BaseCharge],
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.empty((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.empty(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.empty(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charges[0].dtype)
     if return_locations:
       return obj, np.empty(0, dtype=SIZE_T)
     return obj
@@ -296,7 +298,8 @@ def reduce_charges(charges: List[BaseCharge],
   reduced_labels = np.concatenate(
       [reduced_rows[n] for n in left_ind.charge_labels])
   obj = charges[0].__new__(type(charges[0]))
-  obj.__init__(reduced_qnums, reduced_labels, charges[0].charge_types)
+  obj.__init__(reduced_qnums, reduced_labels, charges[0].charge_types,
+               reduced_qnums.dtype)
 
   if return_locations:
     row_locs = [0] * left_ind.num_unique
@@ -368,7 +371,7 @@ def _find_diagonal_sparse_blocks(
 
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums, np.arange(1, dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types, block_qnums.dtype)
 
     return block_maps, obj, block_dims
 
@@ -388,7 +391,8 @@ def _find_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.zeros((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charges[0].dtype)
 
     return [], obj, np.empty((2, 0), dtype=SIZE_T)
 
@@ -420,7 +424,7 @@ def _find_diagonal_sparse_blocks(
   obj = charges[0].__new__(type(charges[0]))
   obj.__init__(block_qnums,
                np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-               charges[0].charge_types)
+               charges[0].charge_types, block_qnums.dtype)
   if cacher.do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims)
     return cacher.cache[hash_val]
@@ -492,7 +496,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.empty((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charges[0].dtype)
 
     return [], obj, np.empty((2, 0), dtype=SIZE_T)
 
@@ -550,7 +555,7 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types, block_qnums.dtype)
 
   elif tr_partition == len(charges):
     # special case: reshape into col vector
@@ -582,7 +587,7 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types, block_qnums.dtype)
   else:
 
     unique_row_qnums, new_row_degen = compute_fused_charge_degeneracies(
@@ -626,7 +631,7 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types, block_qnums.dtype)
 
   if cacher.do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims)
diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index a30e89a..9b5b249 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -208,7 +208,10 @@ class BaseCharge:
         axis=0)
     obj = self.__new__(type(self))
     obj.__init__(
-        charges=charges, charge_labels=None, charge_types=self.charge_types)
+        charges=charges,
+        charge_labels=None,
+        charge_types=self.charge_types,
+        charge_dtype=self.dtype)
     return obj
 
   def __add__(self, other: "BaseCharge") -> "BaseCharge":
@@ -223,7 +226,10 @@ class BaseCharge:
     fused_charges = fuse_ndarray_charges(self.charges, other.charges,
                                          self.charge_types)
     obj = self.__new__(type(self))
-    obj.__init__(fused_charges, charge_types=self.charge_types)
+    obj.__init__(
+        fused_charges,
+        charge_types=self.charge_types,
+        charge_dtype=fused_charges.dtype)
     return obj
 
   def dual(self, take_dual: Optional[bool] = False) -> "BaseCharge":
@@ -247,7 +253,8 @@ class BaseCharge:
         obj.__init__(
             unique_dual_charges,
             charge_labels=self.charge_labels,
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         return obj
       dual_charges = np.stack([
           self.charge_types[n].dual_charges(self._charges[:, n])
@@ -257,7 +264,10 @@ class BaseCharge:
 
       obj = self.__new__(type(self))
       obj.__init__(
-          dual_charges, charge_labels=None, charge_types=self.charge_types)
+          dual_charges,
+          charge_labels=None,
+          charge_types=self.charge_types,
+          charge_dtype=self.dtype)
       return obj
 
     return self
@@ -270,7 +280,10 @@ class BaseCharge:
     charges = np.concatenate([self.charges, other.charges], axis=1)
     charge_types = self.charge_types + other.charge_types
     return BaseCharge(
-        charges=charges, charge_labels=None, charge_types=charge_types)
+        charges=charges,
+        charge_labels=None,
+        charge_types=charge_types,
+        charge_dtype=charges.dtype)
 
   def __mul__(self, number: bool) -> "BaseCharge":
     if not isinstance(number, (bool, np.bool_)):
@@ -319,13 +332,13 @@ class BaseCharge:
           charges=out[0],
           charge_labels=np.arange(out[0].shape[0], dtype=self.label_dtype),
           charge_types=self.charge_types,
-      )
+          charge_dtype=out[0].dtype)
       return obj, out[1], out[2]
     obj.__init__(
         charges=out,
         charge_labels=np.arange(out.shape[0], dtype=self.label_dtype),
         charge_types=self.charge_types,
-    )
+        charge_dtype=out.dtype)
     return obj
 
   def unique(self, #pylint: disable=inconsistent-return-statements
@@ -373,13 +386,15 @@ class BaseCharge:
             charges=unique_charges,
             charge_labels=np.arange(
                 unique_charges.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         tmp[0] = obj
       else:
         obj.__init__(
             charges=tmp,
             charge_labels=np.arange(tmp.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         tmp = obj
       return tmp
 
@@ -389,7 +404,8 @@ class BaseCharge:
             charges=self._unique_charges,
             charge_labels=np.arange(
                 self._unique_charges.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
 
         out = [obj]
         if return_inverse:
@@ -412,7 +428,8 @@ class BaseCharge:
           charges=unique_charges,
           charge_labels=np.arange(
               unique_charges.shape[0], dtype=self.label_dtype),
-          charge_types=self.charge_types)
+          charge_types=self.charge_types,
+          charge_dtype=self.dtype)
       tmp[0] = obj
       return tmp
 
@@ -453,7 +470,8 @@ class BaseCharge:
     reduced_locs = reduced_ind_labels >= 0
     new_ind_labels = reduced_ind_labels[reduced_locs].astype(self.label_dtype)
     obj = self.__new__(type(self))
-    obj.__init__(reduced_charges, new_ind_labels, self.charge_types)
+    obj.__init__(reduced_charges, new_ind_labels, self.charge_types,
+                 self.dtype)
 
     if return_locations:
       return obj, strides * np.flatnonzero(reduced_locs).astype(np.uint32)
@@ -477,10 +495,13 @@ class BaseCharge:
       labels = self.charge_labels[n]
       unique_labels, new_labels = unique(labels, return_inverse=True)
       unique_charges = self.unique_charges[unique_labels, :]
-      obj.__init__(unique_charges, new_labels, self.charge_types)
+      obj.__init__(unique_charges, new_labels, self.charge_types, self.dtype)
       return obj
     obj.__init__(
-        self._charges[n, :], charge_labels=None, charge_types=self.charge_types)
+        self._charges[n, :],
+        charge_labels=None,
+        charge_types=self.charge_types,
+        charge_dtype=self.dtype)
     return obj
 
   @property
-- 
2.43.0


From ff0b728171a478c3e1efb5de8d5193d8cbbcf73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:20 +0000
Subject: [PATCH 047/116] fix: BaseCharge.reduce with more unique charges than
 elements

---
 tensornetwork/block_sparse/charge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 9b5b249..6020e42 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -461,7 +461,7 @@ class BaseCharge:
     num_unique = len(label_to_unique)
 
     # construct the map to the reduced charges
-    map_to_reduced = np.full(self.dim, fill_value=-1, dtype=self.label_dtype)
+    map_to_reduced = np.full(self.num_unique, fill_value=-1, dtype=self.label_dtype)
     map_to_reduced[label_to_unique] = np.arange(
         num_unique, dtype=self.label_dtype)
 
-- 
2.43.0


From b4005f2fe72f00ce9ef257428b181de0fafff15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 048/116] fix: charge labels do not wrap around beyond 32767
 unique charges

---
 tensornetwork/block_sparse/charge.py | 5 +----
 tensornetwork/block_sparse/utils.py  | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 6020e42..1cd6be3 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -59,10 +59,7 @@ class BaseCharge:
           "`len(charge_types) = {}` does not match `charges.shape[1]={}`"
           .format(len(charge_types), charges.shape[1]))
     self.num_symmetries = charges.shape[1]
-    if charges.shape[1] < 3:
-      self.label_dtype = np.int16
-    else:
-      self.label_dtype = np.int32
+    self.label_dtype = np.int32
     if charge_types is None:
       charge_types = [type(self)] * self.num_symmetries
     self.charge_types = charge_types
diff --git a/tensornetwork/block_sparse/utils.py b/tensornetwork/block_sparse/utils.py
index f100d06..5da6cd1 100644
--- a/tensornetwork/block_sparse/utils.py
+++ b/tensornetwork/block_sparse/utils.py
@@ -241,7 +241,7 @@ def unique(array: np.ndarray,
            return_index: bool = False,
            return_inverse: bool = False,
            return_counts: bool = False,
-           label_dtype: Type[np.number] = np.int16) -> Any:
+           label_dtype: Type[np.number] = np.int32) -> Any:
   """
   Compute the unique elements of 1d or 2d `array` along the 
   zero axis of the array.
-- 
2.43.0


From 86f0aaee90acb014db400b997017373c6e4094e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 049/116] fix: cached block data is keyed by the symmetry and
 shape of the charges

---
 tensornetwork/block_sparse/blocksparse_utils.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 6dd129a..2afc99f 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -16,7 +16,7 @@ import numpy as np
 from functools import reduce
 from operator import mul
 from tensornetwork.block_sparse.index import Index
-from tensornetwork.block_sparse.charge import (fuse_charges, BaseCharge,
+from tensornetwork.block_sparse.charge import (fuse_charges, BaseCharge, U1Charge,
                                                fuse_ndarray_charges,
                                                charge_equal)
 from tensornetwork.block_sparse.utils import (fuse_stride_arrays, unique,
@@ -638,6 +638,16 @@ def _find_transposed_diagonal_sparse_blocks(
     return cacher.cache[hash_val]
   return block_maps, obj, block_dims
 
+def _layout(charge: BaseCharge) -> str:
+  """
+  The symmetries and the dtype of `charge` as a string,
+  empty for the default, a single U1 symmetry.
+  """
+  if list(charge.charge_types) == [U1Charge] and charge.dtype == np.int16:
+    return ''
+  return str([(ct.__name__, id(ct)) for ct in charge.charge_types] +
+             [np.dtype(charge.dtype).str])
+
 def _to_string(charges: List[BaseCharge], flows: Union[np.ndarray, List],
                tr_partition: int, order: List[int]) -> str:
   """
@@ -655,7 +665,7 @@ def _to_string(charges: List[BaseCharge], flows: Union[np.ndarray, List],
   Returns:
     str: The string representation of the input
   """
-  return ''.join([str(c.charges.tostring()) for c in charges] + [
+  return ''.join([str(c.charges.tostring()) + _layout(c) for c in charges] + [
       str(np.array(flows).tostring()),
       str(tr_partition),
       str(np.array(order, dtype=np.int16).tostring())
-- 
2.43.0


From 1d0a90acc4ded212f1450cb48b63662d5ebb06c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 050/116] fix: block-sparse tensordot resolves negative and
 rejects repeated axes

---
 tensornetwork/block_sparse/blocksparsetensor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 7c28a06..ec25b79 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -969,6 +969,12 @@ def tensordot(
     return outerproduct(tensor1, tensor2)
 
   #more checks
+  # resolve negative axes like np.tensordot
+  axes1 = [a + tensor1.ndim if a < 0 else a for a in axes1]
+  axes2 = [a + tensor2.ndim if a < 0 else a for a in axes2]
+  if min(axes1) < 0 or min(axes2) < 0:
+    raise ValueError("`axes = {}` is incompatible with tensors of shape {} and "
+                     "{}".format(axes, tensor1.shape, tensor2.shape))
   if max(axes1) >= len(tensor1.shape):
     raise ValueError(
         "rank of `tensor1` is smaller than `max(axes1) = {}.`".format(
@@ -1013,6 +1019,10 @@ def tensordot(
             np.array(axes1)[inds],
             np.array(axes2)[inds], [contr_charges_1[i] for i in inds],
             [contr_charges_2[i] for i in inds]))
+  if len(set(axes1)) < len(axes1) or len(set(axes2)) < len(axes2):
+    raise ValueError(
+        "`axes1 = {}` and `axes2 = {}` must not have repeated values".format(
+            axes1, axes2))
 
   #checks finished
 
-- 
2.43.0


From 839d8b0413853654a70d7fbf2db29fe7c36e16f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 051/116] fix: block-sparse outer products keep the common
 dtype and accept scalars

---
 tensornetwork/block_sparse/blocksparsetensor.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index ec25b79..a6b9f04 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -898,12 +898,23 @@ def outerproduct(tensor1: BlockSparseTensor,
     BlockSparseTensor: The result of taking the outer product.
   """
 
+  # scalars carry no charges
+  if len(tensor1._charges) == 0 or len(tensor2._charges) == 0:
+    scalar, tensor = ((tensor1, tensor2) if len(tensor1._charges) == 0 else
+                      (tensor2, tensor1))
+    return BlockSparseTensor(
+        scalar.data[0] * tensor.data,
+        charges=tensor._charges,
+        flows=tensor._flows,
+        order=tensor._order,
+        check_consistency=False)
   final_charges = tensor1._charges + tensor2._charges
   final_flows = list(tensor1._flows) + list(tensor2._flows)
   order2 = [list(np.asarray(s) + len(tensor1._charges)) for s in tensor2._order]
 
   data = np.zeros(
-      compute_num_nonzero(final_charges, final_flows), dtype=tensor1.dtype)
+      compute_num_nonzero(final_charges, final_flows),
+      dtype=np.result_type(tensor1.dtype, tensor2.dtype))
   if ((len(tensor1.data) > 0) and (len(tensor2.data) > 0)) and (len(data) > 0):
     # find the location of the zero block in the output
     final_block_maps, final_block_charges, _ = _find_diagonal_sparse_blocks(
-- 
2.43.0


From f5598ffc82eeb7a0207e0ec50595ad718679a649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 052/116] fix: diag of a charge array with a fused leg

---
 tensornetwork/block_sparse/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index da2bf6d..08907dd 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -59,6 +59,7 @@ def diag(tensor: ChargeArray) -> Any:
       raise ValueError(
           "`diag` currently only implemented for `ChargeArray` with ndim=1, "
           "found `ndim={}`".format(tensor.ndim))
+    tensor = tensor.contiguous()
     flat_charges = tensor._charges + tensor._charges
     flat_flows = list(tensor._flows) + list(np.logical_not(tensor._flows))
     flat_order = list(tensor.flat_order) + list(
@@ -79,7 +80,7 @@ def diag(tensor: ChargeArray) -> Any:
         tensor._order[0],
         list(np.asarray(tensor._order[0]) + len(tensor._charges))
     ]
-    new_charges = [tensor._charges[0].copy(), tensor._charges[0].copy()]
+    new_charges = [c.copy() for c in tensor._charges + tensor._charges]
     return BlockSparseTensor(
         data,
         charges=new_charges,
-- 
2.43.0


From 8a89325f59b3b97989d455db2aa20ec5c3fc133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:28 +0000
Subject: [PATCH 053/116] fix: tensordot reports unequal charges of fused legs

---
 tensornetwork/block_sparse/blocksparsetensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index a6b9f04..993d8d7 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -1027,8 +1027,7 @@ def tensordot(
     raise ValueError(
         "`axes = {}` of tensor1 and `axes = {}` of tensor2 have "
         "incompatible charges {} and {}".format(
-            np.array(axes1)[inds],
-            np.array(axes2)[inds], [contr_charges_1[i] for i in inds],
+            axes1, axes2, [contr_charges_1[i] for i in inds],
             [contr_charges_2[i] for i in inds]))
   if len(set(axes1)) < len(axes1) or len(set(axes2)) < len(axes2):
     raise ValueError(
-- 
2.43.0


From af6d2a16b666c24486cfd8698d99a5cfc763430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:57 +0000
Subject: [PATCH 054/116] fix: trace pairs the legs of fused axes in any
 storage order

---
 tensornetwork/block_sparse/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index 08907dd..f4ab757 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -627,8 +627,8 @@ def trace(tensor: BlockSparseTensor,
     _, _, labels1 = np.intersect1d(
         tensor._order[axes[1]], flatten(out._order), return_indices=True)
 
-    a0 = list(labels0[np.argsort(tensor._order[axes[0]])])
-    a1 = list(labels1[np.argsort(tensor._order[axes[1]])])
+    a0 = list(labels0[np.argsort(np.argsort(tensor._order[axes[0]]))])
+    a1 = list(labels1[np.argsort(np.argsort(tensor._order[axes[1]]))])
 
     while len(a0) > 0:
       i = a0.pop(0)
-- 
2.43.0


From 537e23651ec5b9d7577d82d09e1f86d47d6d7bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:54 +0000
Subject: [PATCH 055/116] fix: block-sparse transpose rejects repeated axes

---
 tensornetwork/block_sparse/blocksparsetensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 993d8d7..6402d4b 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -354,6 +354,9 @@ class ChargeArray:
           "`len(order)={}` is different form `self.ndim={}`".format(
               len(order), self.ndim))
 
+    if len({int(o) % self.ndim for o in order}) != self.ndim:
+      raise ValueError(
+          "`order={}` is not a permutation of the axes".format(order))
     order = [self._order[o] for o in order]
     tensor = self.__new__(type(self))
     tensor.__init__(
-- 
2.43.0


From 0ad7f665c7549797578466777c4bf3fc3a0b7138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:43 +0000
Subject: [PATCH 056/116] fix: symmetric svd/qr/rq keep legs of dimension 1 and
 0 on their side of the pivot

---
 .../backends/symmetric/decompositions.py      | 52 +++++++++++--------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index 3bd437a..419168e 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -24,6 +24,31 @@ from tensornetwork.block_sparse.blocksparsetensor import (BlockSparseTensor,
 Tensor = Any
 
 
+def _regroup(tensor: BlockSparseTensor, lengths) -> BlockSparseTensor:
+  """
+  Fuse the elementary legs of `tensor` into axes with `lengths` legs each.
+  Unlike a reshape, this is unambiguous for legs of dimension 1 and 0.
+  """
+  flat_order = list(tensor.flat_order)
+  ends = np.cumsum(lengths)
+  return BlockSparseTensor(
+      tensor.data,
+      charges=tensor._charges,
+      flows=tensor._flows,
+      order=[flat_order[e - l:e] for l, e in zip(lengths, ends)],
+      check_consistency=False)
+
+
+def _matricize(tensor: BlockSparseTensor, pivot_axis: int):
+  """
+  Fuse the axes on both sides of `pivot_axis`. Returns the matrix and the
+  number of elementary legs of each left and each right axis.
+  """
+  left = [len(o) for o in tensor._order[:pivot_axis]]
+  right = [len(o) for o in tensor._order[pivot_axis:]]
+  return _regroup(tensor, [sum(left), sum(right)]), left, right
+
+
 def svd(
     bt,
     tensor: BlockSparseTensor,
@@ -36,10 +61,7 @@ def svd(
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
 
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-
-  matrix = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
+  matrix, left_legs, right_legs = _matricize(tensor, pivot_axis)
 
   flat_charges = matrix._charges
   flat_flows = matrix._flows
@@ -211,9 +233,7 @@ def svd(
       flows=flows_v,
       order=order_v,
       check_consistency=False)
-  left_shape = left_dims + (S.shape[0],)
-  right_shape = (S.shape[0],) + right_dims
-  return U.reshape(left_shape), S, V.reshape(right_shape), Sdisc
+  return _regroup(U, left_legs + [1]), S, _regroup(V, [1] + right_legs), Sdisc
 
 
 def qr(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
@@ -221,14 +241,9 @@ def qr(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
 
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-  tensor = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
+  tensor, left_legs, right_legs = _matricize(tensor, pivot_axis)
   q, r = bt.qr(tensor)
-  center_dim = q.shape[1]
-  q = bt.reshape(q, list(left_dims) + [center_dim])
-  r = bt.reshape(r, [center_dim] + list(right_dims))
-  return q, r
+  return _regroup(q, left_legs + [1]), _regroup(r, [1] + right_legs)
 
 
 def rq(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
@@ -236,13 +251,8 @@ def rq(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
 
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-  tensor = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
+  tensor, left_legs, right_legs = _matricize(tensor, pivot_axis)
   q, r = bt.qr(bt.conj(bt.transpose(tensor, (1, 0))))
   r, q = bt.conj(bt.transpose(r, (1, 0))), bt.conj(bt.transpose(
       q, (1, 0)))  #M=r*q at this point
-  center_dim = r.shape[1]
-  r = bt.reshape(r, list(left_dims) + [center_dim])
-  q = bt.reshape(q, [center_dim] + list(right_dims))
-  return r, q
+  return _regroup(r, left_legs + [1]), _regroup(q, [1] + right_legs)
-- 
2.43.0


From 5b01b364b63cd3184fade02ce02aa4745376991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:43 +0000
Subject: [PATCH 057/116] fix: symmetric svd of a tensor without blocks keeps
 its dtype

---
 tensornetwork/backends/symmetric/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index 419168e..2917d12 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -184,8 +184,8 @@ def svd(
     all_singvals = np.empty(0, dtype=get_real_dtype(tensor.dtype))
     left_charge_labels = np.empty(0, dtype=np.int16)
     right_charge_labels = np.empty(0, dtype=np.int16)
-    all_ublocks = np.empty(0, dtype=get_real_dtype(tensor.dtype))
-    all_vblocks = np.empty(0, dtype=get_real_dtype(tensor.dtype))
+    all_ublocks = np.empty(0, dtype=tensor.dtype)
+    all_vblocks = np.empty(0, dtype=tensor.dtype)
 
   if len(discarded_singvals) > 0:
     tmp_labels = [
-- 
2.43.0


From bb49c107af33a0eab99d2ab20bc194e6388531b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:13 +0000
Subject: [PATCH 058/116] fix: symmetric svd truncation never keeps padding
 zeros and honours a limit of 0

---
 tensornetwork/backends/symmetric/decompositions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index 2917d12..0f9a606 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -105,6 +105,10 @@ def svd(
     extended_flat_singvals = np.ravel(extended_singvals)
     #sort singular values
     inds = np.argsort(extended_flat_singvals, kind='stable')
+    #the filled in zeros are not singular values of the tensor
+    is_singval = np.arange(max_D)[:, None] < np.asarray(
+        orig_block_size, dtype=np.int64)[None, :]
+    inds = inds[np.ravel(is_singval)[inds]]
     discarded_inds = np.zeros(0, dtype=SIZE_T)
     if max_truncation_error is not None:
       if relative and (len(singvals) > 0):
@@ -126,9 +130,9 @@ def svd(
       if max_singular_values > orig_num_singvals:
         max_singular_values = orig_num_singvals
       if max_singular_values < len(inds):
-        discarded_inds = np.append(discarded_inds,
-                                   inds[:(-1) * max_singular_values])
-        inds = inds[(-1) * max_singular_values::]
+        num_truncated = len(inds) - max_singular_values
+        discarded_inds = np.append(discarded_inds, inds[:num_truncated])
+        inds = inds[num_truncated:]
 
     if len(inds) == 0:
       #special case of truncation to 0 dimension;
-- 
2.43.0


From 313ad762e89cc14e9ee9c3302df5fe82b68252d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 059/116] fix: reshaping block-sparse tensors keeps legs of
 dimension 1 on their axis

---
 .../block_sparse/blocksparsetensor.py         | 77 +++++++++++++------
 1 file changed, 55 insertions(+), 22 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 6402d4b..ad1aaea 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -32,6 +32,51 @@ Tensor = Any
 
 
 
+def _find_partitions(flat_dims: Sequence[int], shape: Sequence[int],
+                     boundaries: Sequence[int]) -> Optional[List[int]]:
+  """
+  Distribute the legs with dimensions `flat_dims` over consecutive axes with
+  dimensions `shape`. Where legs of dimension 1 leave a choice, an axis
+  preferably ends at one of the `boundaries`.
+  Args:
+    flat_dims: The dimensions of the elementary legs.
+    shape: The dimensions of the axes.
+    boundaries: Preferred positions of the ends of the axes.
+  Returns:
+    List of the positions at which the axes begin, followed by the total
+    number of legs. `None` if there is no such distribution.
+  """
+  flat_dims = [int(d) for d in flat_dims]
+  boundaries = {int(b) for b in boundaries}
+  num_legs = len(flat_dims)
+  failed = set()
+
+  def find(start: int, axis: int) -> Optional[List[int]]:
+    if axis == len(shape):
+      return [] if start == num_legs else None
+    if (start, axis) in failed:
+      return None
+    ends = []
+    dim = 1
+    for end in range(start, num_legs):
+      dim *= flat_dims[end]
+      if dim == shape[axis]:
+        ends.append(end + 1)
+      elif dim > shape[axis]:
+        break
+    for end in sorted(ends, key=lambda e: e not in boundaries):
+      rest = find(end, axis + 1)
+      if rest is not None:
+        return [end] + rest
+    failed.add((start, axis))
+    return None
+
+  if len(shape) == 0:
+    return [num_legs] if all(d == 1 for d in flat_dims) else None
+  ends = find(0, 0)
+  return None if ends is None else [0] + ends
+
+
 class ChargeArray:
   """
   Base class for BlockSparseTensor.
@@ -271,28 +316,16 @@ class ChargeArray:
       raise ValueError("reshaping empty arrays is ambiguous, and is currently "
                        "not supported.")
 
-    partitions = [0]
-    for n, ns in enumerate(new_shape):
-      tmp = np.nonzero(np.cumprod(flat_dims) == ns)[0]
-      if len(tmp) == 0:
-        raise ValueError(
-            "The shape {} is incompatible with the "
-            "elementary shape {} of the tensor.".format(
-                tuple(new_shape),
-                tuple(self._charges[n].dim for o in self._order for n in o)))
-
-      partitions.append(tmp[0] + 1)
-      flat_dims = flat_dims[partitions[-1]:]
-    for d in flat_dims:
-      if d != 1: #Note (martin): I suspect this will never be raised
-        raise ValueError(
-            "The shape {} is incompatible with the "
-            "elementary shape {} of the tensor.".format(
-                tuple(new_shape),
-                tuple(self._charges[n].dim for o in self._order for n in o)))
-      partitions[-1] += 1
-
-    partitions = np.cumsum(partitions)
+    # Legs of dimension 1 can belong to more than one new axis: keep them
+    # on their present axis if that is possible.
+    boundaries = np.cumsum([len(o) for o in self._order])
+    partitions = _find_partitions(flat_dims, new_shape, boundaries)
+    if partitions is None:
+      raise ValueError(
+          "The shape {} is incompatible with the "
+          "elementary shape {} of the tensor.".format(
+              tuple(new_shape),
+              tuple(self._charges[n].dim for o in self._order for n in o)))
 
     flat_order = self.flat_order
     new_order = []
-- 
2.43.0


From 427729f25cdb9f688049df4ab9a53bd192d93635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:09 +0000
Subject: [PATCH 060/116] fix: trace edges of symmetric nodes with legs of
 dimension 1 can be flattened

---
 tensornetwork/network_components.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 68ba11f..f2737b2 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1364,10 +1364,20 @@ def _flatten_trace_edges(edges: List[Edge],
   new_dim = backend.shape_prod(
       [backend.shape_tensor(node.tensor)[e.axis1] for e in edges])
   node.reorder_axes(perm)
-  unaffected_shape = backend.shape_tensor(node.tensor)[:len(perm_front)]
-  new_shape = backend.shape_concat([unaffected_shape, [new_dim, new_dim]],
-                                   axis=-1)
-  node.tensor = backend.reshape(node.tensor, new_shape)
+  # Only merge trailing axes: in the middle of the shape of a block-sparse
+  # tensor, `new_dim` does not tell to which axis legs of dimension 1 belong.
+  n_front, n_edges = len(perm_front), len(edges)
+  front = list(range(n_front))
+  shape = backend.shape_tensor(node.tensor)[:n_front + n_edges]
+  tensor = backend.reshape(node.tensor,
+                           backend.shape_concat([shape, [new_dim]], axis=-1))
+  tensor = backend.transpose(
+      tensor,
+      front + [n_front + n_edges] + list(range(n_front, n_front + n_edges)))
+  tensor = backend.reshape(
+      tensor,
+      backend.shape_concat([shape[:n_front], [new_dim, new_dim]], axis=-1))
+  node.tensor = backend.transpose(tensor, front + [n_front + 1, n_front])
   edge1 = Edge(node1=node, axis1=len(perm_front), name="TraceFront")
   edge2 = Edge(node1=node, axis1=len(perm_front) + 1, name="TraceBack")
   node.edges = node.edges[:len(perm_front)] + [edge1, edge2]
-- 
2.43.0


From 6b382aeb1a54a6b8b2ced8331a6406f90c486dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:09 +0000
Subject: [PATCH 061/116] fix: block-sparse trace keeps the fused axes that are
 not traced

---
 tensornetwork/block_sparse/linalg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index f4ab757..69f37c6 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -654,6 +654,11 @@ def trace(tensor: BlockSparseTensor,
       a1 = list(a1ar)
     if out.ndim == 0:
       return out.item()
+    #restore the axes that were not traced
+    traced = [a % tensor.ndim for a in axes]
+    flat_order = iter(out.flat_order)
+    out._order = [[next(flat_order) for _ in o]
+                  for n, o in enumerate(tensor._order) if n not in traced]
     return out  # pytype: disable=bad-return-type
   raise ValueError("trace can only be taken for tensors with ndim > 1")
 
-- 
2.43.0


From dd69f0497d373c76a5b52ee7d69d764e197c0d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 062/116] fix: outer products of scalar symmetric nodes

---
 tensornetwork/backends/symmetric/symmetric_backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index ce0478e..64f4724 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -622,6 +622,11 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
     return tensor1 - tensor2
 
   def multiply(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
+    if all(isinstance(t, BlockSparseTensor) for t in (tensor1, tensor2)):
+      if tensor2.ndim == 0:
+        return tensor1 * tensor2.item()
+      if tensor1.ndim == 0:
+        return tensor1.item() * tensor2
     return tensor1 * tensor2
 
   def divide(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
-- 
2.43.0


From 43c8d7e2607578394f383c1673d9da0aaca8f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 063/116] fix: ncon traces symmetric tensors with legs of
 dimension 1

---
 tensornetwork/ncon_interface.py | 34 +++++++++------------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index 30cd413..279b5b7 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -250,31 +250,15 @@ def _partial_trace(
   Returns:
     Tensor: The result of the tracing.
   """
-  trace_labels = [l for l in labels if labels.count(l) == 2]
-  if len(trace_labels) > 0:
-    num_cont = len(trace_labels) // 2
-    unique_trace_labels = sorted(trace_labels)[0:-1:2]
-    trace_label_positions = [[
-        n for n, label in enumerate(labels) if label == trace_label
-    ] for trace_label in unique_trace_labels]
-    contracted_indices = [l[0] for l in trace_label_positions
-                         ] + [l[1] for l in trace_label_positions]
-    free_indices = [
-        n for n in range(len(labels)) if n not in contracted_indices
-    ]
-    shape = backend_obj.shape_tuple(tensor)
-    contracted_dimension = np.prod(
-        [shape[d] for d in contracted_indices[:num_cont]])
-    temp_shape = tuple([shape[pos] for pos in free_indices] +
-                       [contracted_dimension, contracted_dimension])
-    result = backend_obj.trace(
-        backend_obj.reshape(
-            backend_obj.transpose(tensor,
-                                  tuple(free_indices + contracted_indices)),
-            temp_shape))
-    new_labels = [l for l in labels if l not in unique_trace_labels]
-    return result, new_labels, unique_trace_labels
-  return tensor, labels, []
+  trace_labels = sorted({l for l in labels if labels.count(l) == 2})
+  for label in trace_labels:
+    first = labels.index(label)
+    second = labels.index(label, first + 1)
+    free = [n for n in range(len(labels)) if n not in (first, second)]
+    tensor = backend_obj.trace(
+        backend_obj.transpose(tensor, tuple(free + [first, second])))
+    labels = [labels[n] for n in free]
+  return tensor, labels, trace_labels
 
 
 def _repeated_labels_to_diagonals(
-- 
2.43.0


From d2e7ac6af70e6e756f064d0a31c2be61da6ce887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:04 +0000
Subject: [PATCH 064/116] fix: outer products in ncon with full traces of
 symmetric tensors

---
 tensornetwork/backends/symmetric/symmetric_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 64f4724..d1ed6d3 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -110,7 +110,9 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
     return tensor
 
   def outer_product(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
-    return self.bs.tensordot(tensor1, tensor2, 0)
+    # full traces are numbers
+    return self.bs.tensordot(
+        self.convert_to_tensor(tensor1), self.convert_to_tensor(tensor2), 0)
 
   def einsum(self,
              expression: str,
-- 
2.43.0


From 55f483985f24d9059041b458ebe2291f3d584291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:31 +0000
Subject: [PATCH 065/116] fix: BaseMPS.position does not divide the caller's
 array in place

---
 tensornetwork/matrixproductstates/base_mps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index c8500cb..d6f6875 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -169,7 +169,9 @@ class BaseMPS:
     if site == self.center_position:
       Z = self.norm(self.tensors[self.center_position])
       if normalize:
-        self.tensors[self.center_position] /= Z
+        # not in place: the tensor can be an array owned by the caller
+        self.tensors[self.center_position] = (
+            self.tensors[self.center_position] / Z)
       return Z
 
     #shift center_position to the right using QR or SV decomposition
-- 
2.43.0


From f31c3e893fcc1d70ec7034bfb1b98df6c5ff4dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:31 +0000
Subject: [PATCH 066/116] fix: BaseMPS.bond_dimension of the last bond

---
 tensornetwork/matrixproductstates/base_mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index d6f6875..d501db5 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -244,7 +244,7 @@ class BaseMPS:
                        f" an MPS of length {len(self)}")
     if bond < len(self):
       return self.tensors[bond].shape[0]
-    return self.tensors[bond].shape[2]
+    return self.tensors[bond - 1].shape[2]
 
   @property
   def bond_dimensions(self) -> List:
-- 
2.43.0


From 57b28c861addf270d2748bf4957fccb84afe43a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:32 +0000
Subject: [PATCH 067/116] fix: check_canonical of an MPS with a single site

---
 tensornetwork/matrixproductstates/base_mps.py   | 3 +++
 tensornetwork/matrixproductstates/finite_mps.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index d501db5..d5717c0 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -670,6 +670,9 @@ class BaseMPS:
       else:
         continue
       deviations.append(deviation**2)
+    if not deviations:
+      # an MPS of a single site is canonical by definition
+      return 0.0 * self.norm(self.tensors[0])
     return self.backend.sqrt(sum(deviations[1:], deviations[0]))
 
   def get_tensor(self, site: int) -> Tensor:
diff --git a/tensornetwork/matrixproductstates/finite_mps.py b/tensornetwork/matrixproductstates/finite_mps.py
index bc5dd8e..440096c 100644
--- a/tensornetwork/matrixproductstates/finite_mps.py
+++ b/tensornetwork/matrixproductstates/finite_mps.py
@@ -163,6 +163,9 @@ class FiniteMPS(BaseMPS):
       else:
         continue
       deviations.append(deviation**2)
+    if not deviations:
+      # an MPS of a single site is canonical by definition
+      return 0.0 * self.norm(self.tensors[0])
     return self.backend.sqrt(sum(deviations[1:], deviations[0]))
 
   def left_envs(self, sites: Sequence[int]) -> Dict:
-- 
2.43.0


From 4024165b7700f549dcfb871a538b1ba8b8475a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:32 +0000
Subject: [PATCH 068/116] fix: apply_two_site_gate without truncation leaves
 the centre at the announced site

---
 tensornetwork/matrixproductstates/base_mps.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index d5717c0..066f024 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -583,14 +583,14 @@ class BaseMPS:
     else:
       tw = self.backend.zeros(1, dtype=self.dtype)
       if center_position == site2:
-        R, Q = self.backend.rq(tensor, pivot_axis=2)
-        left_tensor = R
-        right_tensor = Q
-        set_center_position(site2)
-      else:
         Q, R = self.backend.qr(tensor, pivot_axis=2)
         left_tensor = Q
         right_tensor = R
+        set_center_position(site2)
+      else:
+        R, Q = self.backend.rq(tensor, pivot_axis=2)
+        left_tensor = R
+        right_tensor = Q
         set_center_position(site1)
 
     self.tensors[site1] = left_tensor
-- 
2.43.0


From 18b23b57c5abaac203d8b9d5b1d6fd7e1be0cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:49 +0000
Subject: [PATCH 069/116] fix: measure_two_body_correlator returns results in
 the order of the requested sites

---
 tensornetwork/matrixproductstates/base_mps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 066f024..1a659fb 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -478,7 +478,9 @@ class BaseMPS:
           L = Node(
               self.apply_transfer_operator(n % N, 'left', L.tensor),
               backend=self.backend)
-    return [self.backend.item(o) for o in c]
+    # `c` is ordered by site; return the results in the order of `sites2`
+    results = dict(zip(np.unique(sites2), [self.backend.item(o) for o in c]))
+    return [results[site2] for site2 in sites2]
 
   def apply_two_site_gate(self,
                           gate: Tensor,
-- 
2.43.0


From dedd1a3763bac475f74ffd95a41bdd3920387af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:53 +0000
Subject: [PATCH 070/116] fix: MPS truncation by error works on the jax backend

---
 tensornetwork/matrixproductstates/base_mps.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 1a659fb..3ad5685 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -94,7 +94,6 @@ class BaseMPS:
     ########################################################################
     ##########       define functions for jitted operations       ##########
     ########################################################################
-    @partial(jit, backend=self.backend, static_argnums=(1, 2, 3))
     def svd(tensor,
             pivot_axis=2,
             max_singular_values=None,
@@ -106,7 +105,18 @@ class BaseMPS:
           max_truncation_error=max_truncation_error,
           relative=True)
 
-    self.svd = svd
+    jitted_svd = jit(svd, backend=self.backend, static_argnums=(1, 2, 3))
+
+    def maybe_jitted_svd(tensor,
+                         pivot_axis=2,
+                         max_singular_values=None,
+                         max_truncation_error=None):
+      # with a truncation error the shapes of the results depend on the
+      # values of `tensor`, hence the function cannot be traced
+      fun = jitted_svd if max_truncation_error is None else svd
+      return fun(tensor, pivot_axis, max_singular_values, max_truncation_error)
+
+    self.svd = maybe_jitted_svd
 
     @partial(jit, backend=self.backend)
     def qr(tensor):
-- 
2.43.0


From b71d93baba480ec5e5222fbf4626eb8c93f460f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:11 +0000
Subject: [PATCH 071/116] fix: apply_two_site_gate without truncation works on
 the symmetric backend

---
 tensornetwork/matrixproductstates/base_mps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 3ad5685..c6975e9 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -593,7 +593,8 @@ class BaseMPS:
         set_center_position(site1)
 
     else:
-      tw = self.backend.zeros(1, dtype=self.dtype)
+      # nothing is discarded
+      tw = 0.0 * self.backend.norm(tensor)
       if center_position == site2:
         Q, R = self.backend.qr(tensor, pivot_axis=2)
         left_tensor = Q
-- 
2.43.0


From 7f46da77981d11cac144aa438b625b522c0aecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:35 +0000
Subject: [PATCH 072/116] fix: transfer_matrix_eigs accepts an initial state

---
 tensornetwork/matrixproductstates/infinite_mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index ff7d4ed..3b396da 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -131,7 +131,7 @@ class InfiniteMPS(BaseMPS):
           direction, self.backend.reshape(vector, (D, D)))
       return self.backend.reshape(result, (D * D,))
 
-    if not initial_state:
+    if initial_state is None:
       initial_state = self.backend.randn((self.bond_dimensions[0]**2,),
                                          dtype=self.dtype)
     else:
-- 
2.43.0


From e2fb8b9fe7eaf332674a8b4d8a90c91663d0343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:02 +0000
Subject: [PATCH 073/116] fix: canonicalizing an infinite MPS again keeps its
 state

---
 tensornetwork/matrixproductstates/infinite_mps.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index 3b396da..8926db6 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -98,7 +98,15 @@ class InfiniteMPS(BaseMPS):
       sites = reversed(sites)
 
     for site in sites:
-      matrix = self.apply_transfer_operator(site, direction, matrix)
+      if self.connector_matrix is not None and site == len(self) - 1:
+        # the connector matrix belongs to the last tensor of the unit cell
+        tensor = self.get_tensor(site)
+        transfer_operator = (
+            self.right_transfer_operator if direction in (-1, 'r', 'right') else
+            self.left_transfer_operator)
+        matrix = transfer_operator(tensor, matrix, self.backend.conj(tensor))
+      else:
+        matrix = self.apply_transfer_operator(site, direction, matrix)
     return matrix
 
   def transfer_matrix_eigs(self,
@@ -216,6 +224,10 @@ class InfiniteMPS(BaseMPS):
 
     # bring center_position to 0
     self.position(0)
+    if self.connector_matrix is not None:
+      # absorb the connector of an earlier canonicalization
+      self.tensors[-1] = self.get_tensor(len(self) - 1)
+      self.connector_matrix = None
     # dtype of eta is the same as InfiniteMPS.dtype
     # this is assured in the backend.
     eta, l = self.transfer_matrix_eigs(
-- 
2.43.0


From 94ab556b00b662d1ddde864767446cab8abf14fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:31 +0000
Subject: [PATCH 074/116] fix: InfiniteMPO.roll by negative or large numbers of
 sites

---
 tensornetwork/matrixproductstates/mpo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensornetwork/matrixproductstates/mpo.py b/tensornetwork/matrixproductstates/mpo.py
index 16b79c9..14db0fc 100644
--- a/tensornetwork/matrixproductstates/mpo.py
+++ b/tensornetwork/matrixproductstates/mpo.py
@@ -97,6 +97,7 @@ class InfiniteMPO(BaseMPO):
       raise ValueError('left and right MPO ancillary dimension have to match')
 
   def roll(self, num_sites) -> None:
+    num_sites %= len(self.tensors)
     tensors = [self.tensors[n] for n in range(num_sites, len(self.tensors))
               ] + [self.tensors[n] for n in range(num_sites)]
     self.tensors = tensors
-- 
2.43.0


From 5a2da87bcc9432756f288a9b42af4c4f2aab627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:31 +0000
Subject: [PATCH 075/116] fix: FiniteFreeFermion2D on a single site

---
 tensornetwork/matrixproductstates/mpo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/matrixproductstates/mpo.py b/tensornetwork/matrixproductstates/mpo.py
index 14db0fc..9581948 100644
--- a/tensornetwork/matrixproductstates/mpo.py
+++ b/tensornetwork/matrixproductstates/mpo.py
@@ -385,4 +385,7 @@ class FiniteFreeFermion2D(FiniteMPO):
     mpo_matrix[N1 + 1, 0, :, :] = cdag
     mpo_matrix[2 * N1 + 1, 0, :, :] = v * particle_number
     mpo.append(mpo_matrix)
+    if N1 * N2 == 1:
+      # a single site is both the first and the last one
+      mpo = [mpo[0][:, :1, :, :]]
     super().__init__(tensors=mpo, backend=backend, name=name)
-- 
2.43.0


From 98dc6cffa828aede5d70b617ada02c4ca46960fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:53 +0000
Subject: [PATCH 076/116] fix: numpy eigsh_lanczos modifies neither its initial
 state nor the operator's results

---
 tensornetwork/backends/numpy/numpy_backend.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 3599968..8a9694c 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -488,9 +488,9 @@ class NumPyBackend(abstract_backend.AbstractBackend):
       raise TypeError("Expected a `np.ndarray`. Got {}".format(
           type(initial_state)))
 
-    vector_n = initial_state
-    Z = self.norm(vector_n)
-    vector_n /= Z
+    # neither `initial_state` nor arrays returned by `A` are modified in place
+    Z = self.norm(initial_state)
+    vector_n = initial_state / Z
     norms_vector_n = []
     diag_elements = []
     krylov_vecs = []
@@ -523,10 +523,10 @@ class NumPyBackend(abstract_backend.AbstractBackend):
         first = False
         eigvalsold = eigvals[0:numeig]
       if it > 0:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
-        A_vector_n -= (krylov_vecs[-2] * norms_vector_n[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-2] * norms_vector_n[-1])
       else:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
       vector_n = A_vector_n
 
     A_tridiag = np.diag(diag_elements) + np.diag(
-- 
2.43.0


From d1dee2da3101fe8d70c011c13a8f170984a63666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:18 +0000
Subject: [PATCH 077/116] fix: two-site DMRG with truncation returns a
 normalised state

---
 tensornetwork/matrixproductstates/dmrg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensornetwork/matrixproductstates/dmrg.py b/tensornetwork/matrixproductstates/dmrg.py
index 647e333..6c9f41a 100644
--- a/tensornetwork/matrixproductstates/dmrg.py
+++ b/tensornetwork/matrixproductstates/dmrg.py
@@ -299,6 +299,8 @@ class BaseDMRG:
 
       u, s, vh, _ = self.mps.svd(local_ground_state, 2, max_bond_dim, None)
       s = self.backend.diagflat(s)
+      # truncation reduces the norm of the state
+      s /= self.backend.norm(s)
       self.mps.tensors[site] = u
       if site < len(self.mps.tensors) - 1:
         self.mps.center_position += 1
@@ -330,6 +332,8 @@ class BaseDMRG:
 
       u, s, vh, _ = self.mps.svd(local_ground_state, 2, max_bond_dim, None)
       s = self.backend.diagflat(s)
+      # truncation reduces the norm of the state
+      s /= self.backend.norm(s)
       self.mps.tensors[site] = vh
       if site > 0:
         self.mps.center_position -= 1
-- 
2.43.0


From 1ead3b8b40796151bd638526d1751f670731cc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:48 +0000
Subject: [PATCH 078/116] fix: eigsh_lanczos does not extend the Krylov space
 beyond the dimension

---
 tensornetwork/backends/numpy/numpy_backend.py         | 3 ++-
 tensornetwork/backends/symmetric/symmetric_backend.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 8a9694c..7195485 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -496,7 +496,8 @@ class NumPyBackend(abstract_backend.AbstractBackend):
     krylov_vecs = []
     first = True
     eigvalsold = []
-    for it in range(num_krylov_vecs):
+    # a Krylov space cannot be larger than the space itself
+    for it in range(min(num_krylov_vecs, initial_state.size)):
       #normalize the current vector:
       norm_vector_n = self.norm(vector_n)
       if abs(norm_vector_n) < delta:
diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index d1ed6d3..579fa5a 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -381,7 +381,8 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
       first = True
       eigvalsold = []
 
-      for it in range(num_krylov_vecs):
+      # a Krylov space cannot be larger than the space itself
+      for it in range(min(num_krylov_vecs, len(vector_n.data))):
         # normalize the current vector:
         norm_vector_n = self.norm(vector_n)
         if abs(norm_vector_n) < delta:
-- 
2.43.0


From 67d7f544877b8744eb4544f6e8db3c6c48b853fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:16 +0000
Subject: [PATCH 079/116] fix: linalg.gmres works with its default
 num_krylov_vectors

---
 tensornetwork/backends/abstract_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/abstract_backend.py b/tensornetwork/backends/abstract_backend.py
index b9f3993..72f9133 100644
--- a/tensornetwork/backends/abstract_backend.py
+++ b/tensornetwork/backends/abstract_backend.py
@@ -483,7 +483,7 @@ class AbstractBackend:
             x0: Optional[Tensor] = None,
             tol: float = 1E-05,
             atol: Optional[float] = None,
-            num_krylov_vectors: int = 20,
+            num_krylov_vectors: Optional[int] = 20,
             maxiter: Optional[int] = 1,
             M: Optional[Callable] = None) -> Tuple[Tensor, int]:
     """ GMRES solves the linear system A @ x = b for x given a vector `b` and
@@ -591,7 +591,7 @@ class AbstractBackend:
 
       x0 = self.reshape(x0, (N,))
 
-    if num_krylov_vectors > N:
+    if num_krylov_vectors is None or num_krylov_vectors > N:
       num_krylov_vectors = N
 
     if tol < 0:
-- 
2.43.0


From b747c702026ea9a73557ea5215a58d719d5793a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:16 +0000
Subject: [PATCH 080/116] fix: gmres does not modify the arrays returned by the
 operator

---
 tensornetwork/backends/numpy/numpy_backend.py         | 4 ++--
 tensornetwork/backends/symmetric/symmetric_backend.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 7195485..c128c57 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -401,8 +401,8 @@ class NumPyBackend(abstract_backend.AbstractBackend):
     def matvec(v):
       v_tensor = v.reshape(b.shape)
       Av = A_mv(v_tensor, *A_args, **A_kwargs)
-      Avec = Av.ravel()
-      return Avec
+      # scipy modifies the returned vector in place
+      return Av.flatten()
 
     A_shape = (b.size, b.size)
     A_op = sp.sparse.linalg.LinearOperator(matvec=matvec,
diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 579fa5a..c23a9fe 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -584,8 +584,8 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
     def matvec(vector):
       tmp.data = vector
       res = A_mv(tmp, *A_args, **A_kwargs)
-      res.contiguous(inplace=True)
-      return res.data
+      # scipy modifies the returned vector in place
+      return numpy.array(res.contiguous().data)
 
     dim = len(x0.data)
     A_op = sp.sparse.linalg.LinearOperator(
-- 
2.43.0


From 97e079ce3c2883218159f4e142a538e768898f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:31 +0000
Subject: [PATCH 081/116] fix: symmetric eigs and gmres keep the shape of
 reshaped tensors

---
 tensornetwork/backends/symmetric/symmetric_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index c23a9fe..4df9185 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -253,6 +253,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
         numpy.empty(0, dtype=initial_state.dtype),
         initial_state._charges,
         initial_state._flows,
+        order=initial_state._order,
         check_consistency=False)
     lop = sp.sparse.linalg.LinearOperator(
         dtype=initial_state.dtype, shape=(dim, dim), matvec=matvec)
@@ -281,6 +282,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
             U[:, n],
             initial_state._charges,
             initial_state._flows,
+            order=initial_state._order,
             check_consistency=False) for n in range(numeig)
     ]
 
@@ -580,6 +582,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
         numpy.empty(0, dtype=x0.dtype),
         x0._charges,
         x0._flows,
+        order=x0._order,
         check_consistency=False)
     def matvec(vector):
       tmp.data = vector
-- 
2.43.0


From 1a78cf37622742412a974a94df3f772d63576f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:54 +0000
Subject: [PATCH 082/116] fix: compare_shapes does not depend on the storage
 layout

---
 tensornetwork/block_sparse/blocksparsetensor.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index ad1aaea..b643433 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -490,15 +490,9 @@ def compare_shapes(tensor1: ChargeArray, tensor2: ChargeArray) -> bool:
   """
   if tensor1.shape != tensor2.shape:
     return False
-  if len(tensor1._charges) != len(tensor2._charges):
-    return False
-  if not all(
-      charge_equal(c1, c2)
-      for c1, c2 in zip(tensor1._charges, tensor2._charges)):
-    return False
-  if not all(f1 == f2 for f1, f2 in zip(tensor1._flows, tensor2._flows)):
-    return False
-  return True
+  # `sparse_shape` does not depend on the storage layout
+  return all(i1 == i2 for i1, i2 in zip(tensor1.sparse_shape,
+                                        tensor2.sparse_shape))
 
 
 class BlockSparseTensor(ChargeArray):
-- 
2.43.0


From 08ad9b7f1358b1112b0a2ef20ec449855c3d043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:36 +0000
Subject: [PATCH 083/116] fix: reorthogonalized Lanczos vectors are normalized

---
 tensornetwork/backends/numpy/numpy_backend.py         | 5 ++++-
 tensornetwork/backends/symmetric/symmetric_backend.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index c128c57..4911fe0 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -506,8 +506,11 @@ class NumPyBackend(abstract_backend.AbstractBackend):
       vector_n = vector_n / norms_vector_n[-1]
       #store the Lanczos vector for later
       if reorthogonalize:
-        for v in krylov_vecs:
+        # the second pass and the normalization matter if `vector_n` is
+        # almost contained in the span of `krylov_vecs`
+        for v in krylov_vecs * 2:
           vector_n -= np.dot(np.ravel(np.conj(v)), np.ravel(vector_n)) * v
+        vector_n /= self.norm(vector_n)
       krylov_vecs.append(vector_n)
       A_vector_n = A(vector_n, *args)
       diag_elements.append(
diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 4df9185..faf5446 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -395,11 +395,14 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
         # store the Lanczos vector for later
         if reorthogonalize:
           # vector_n is always in contiguous memory layout at this point
-          for v in krylov_vecs:
+          # the second pass and the normalization matter if `vector_n` is
+          # almost contained in the span of `krylov_vecs`
+          for v in krylov_vecs * 2:
             v.contiguous(inplace=True)  # make sure storage layouts are matching
             # it's save to operate on the tensor data now (pybass some checks)
             vector_n.data -= numpy.dot(numpy.conj(v.data),
                                        vector_n.data) * v.data
+          vector_n.data /= self.norm(vector_n)
         krylov_vecs.append(vector_n)
         A_vector_n = A(vector_n, *args)
         A_vector_n.contiguous(inplace=True)  # contiguous memory layout
-- 
2.43.0


From 84e64b2d455f8b24dc06acf59539aa1f50e682a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:56 +0000
Subject: [PATCH 084/116] fix: jax gmres does not reuse an operator wrapped for
 another shape

---
 tensornetwork/backends/jax/jax_backend.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index d517a9a..e79935c 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -684,18 +684,20 @@ class JaxBackend(abstract_backend.AbstractBackend):
       raise NotImplementedError("A_kwargs is not supported by the Jax backend.")
 
 
-    if A_mv not in _CACHED_MATVECS:
+    # the wrapper depends on the shape of `b`
+    key = (A_mv, tuple(b.shape))
+    if key not in _CACHED_MATVECS:
       @libjax.tree_util.Partial
       def matrix_matvec(x, *args):
         x = x.reshape(b.shape)
         result = A_mv(x, *args)
         return result.ravel()
-      _CACHED_MATVECS[A_mv] = matrix_matvec
+      _CACHED_MATVECS[key] = matrix_matvec
 
     if "gmres" not in _CACHED_FUNCTIONS:
       _CACHED_FUNCTIONS["gmres"] = jitted_functions.gmres_wrapper(libjax)
     gmres_m = _CACHED_FUNCTIONS["gmres"].gmres_m
-    x, _, n_iter, converged = gmres_m(_CACHED_MATVECS[A_mv], A_args, b.ravel(),
+    x, _, n_iter, converged = gmres_m(_CACHED_MATVECS[key], A_args, b.ravel(),
                                       x0, tol, atol, num_krylov_vectors,
                                       maxiter, self.jax_precision)
     if converged:
-- 
2.43.0


From facadaa910135e25ab47b7c29738dca1cb4a6641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:32 +0000
Subject: [PATCH 085/116] fix: QuOperators with chains of identities can be
 contracted

---
 tensornetwork/quantum/quantum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensornetwork/quantum/quantum.py b/tensornetwork/quantum/quantum.py
index 1dc7981..9252a1f 100644
--- a/tensornetwork/quantum/quantum.py
+++ b/tensornetwork/quantum/quantum.py
@@ -140,6 +140,12 @@ def eliminate_identities(nodes: Collection[AbstractNode]) -> Tuple[dict, dict]:
         dangling_edges_dict[e] = e
       nodes_dict[n] = n
 
+  # In a chain of identities, an edge can be replaced more than once.
+  for e, new_edge in dangling_edges_dict.items():
+    while dangling_edges_dict.get(new_edge, new_edge) is not new_edge:
+      new_edge = dangling_edges_dict[new_edge]
+    dangling_edges_dict[e] = new_edge
+
   return nodes_dict, dangling_edges_dict
 
 
-- 
2.43.0


From f673fa32e98f1b8f52e7592f3f11bdaa5ee3d405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:44 +0000
Subject: [PATCH 086/116] fix: Keras MPO layers accept every perfect power

---
 tensornetwork/tn_keras/conv2d_mpo.py | 5 ++---
 tensornetwork/tn_keras/mpo.py        | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index 2382833..3c5d1da 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -7,7 +7,6 @@ from tensorflow.python.keras.utils import conv_utils #pylint: disable=no-name-in
 from typing import List, Tuple, Text, Optional, Union
 import numpy as np
 import tensornetwork as tn
-import math
 
 # pytype: disable=module-attr
 @tf.keras.utils.register_keras_serializable(package='tensornetwork')# pylint: disable=no-member
@@ -161,8 +160,8 @@ class Conv2DMPO(Layer):
 
     super().build(input_shape)
 
-    in_leg_dim = math.ceil(channels**(1. / self.num_nodes))
-    out_leg_dim = math.ceil(self.filters**(1. / self.num_nodes))
+    in_leg_dim = round(channels**(1. / self.num_nodes))
+    out_leg_dim = round(self.filters**(1. / self.num_nodes))
 
     self.nodes.append(
         self.add_weight(name='end_node_first',
diff --git a/tensornetwork/tn_keras/mpo.py b/tensornetwork/tn_keras/mpo.py
index a7247bb..cbf579b 100644
--- a/tensornetwork/tn_keras/mpo.py
+++ b/tensornetwork/tn_keras/mpo.py
@@ -7,7 +7,6 @@ from typing import List, Optional, Text, Tuple
 import tensornetwork as tn
 from tensornetwork.network_components import Node
 import numpy as np
-import math
 
 
 # pytype: disable=module-attr
@@ -108,8 +107,8 @@ class DenseMPO(Layer):
 
     super().build(input_shape)
 
-    self.in_leg_dim = math.ceil(input_dim**(1. / self.num_nodes))
-    self.out_leg_dim = math.ceil(self.output_dim**(1. / self.num_nodes))
+    self.in_leg_dim = round(input_dim**(1. / self.num_nodes))
+    self.out_leg_dim = round(self.output_dim**(1. / self.num_nodes))
 
     self.nodes.append(
         self.add_weight(name='end_node_first',
-- 
2.43.0


From 0fcf5e4f77bc9beb464f8859a73bcb5d9dd619c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:44 +0000
Subject: [PATCH 087/116] fix: Conv2DMPO adds its bias to the channels of
 channels_first results

---
 tensornetwork/tn_keras/conv2d_mpo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index 3c5d1da..bdc12a2 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -218,7 +218,10 @@ class Conv2DMPO(Layer):
                           dilations=self.dilation_rate)
 
     if self.use_bias:
-      bias = tf.reshape(self.bias_var, (1, self.filters,))
+      if self.data_format == 'channels_first':
+        bias = tf.reshape(self.bias_var, (1, self.filters, 1, 1))
+      else:
+        bias = tf.reshape(self.bias_var, (1, self.filters,))
       result += bias
 
     if self.activation is not None:
-- 
2.43.0


From c496f40c06818823359d87b39bf67970a9012fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:10 +0000
Subject: [PATCH 088/116] fix: only reorthogonalized Lanczos is limited by the
 dimension

---
 tensornetwork/backends/numpy/numpy_backend.py         | 6 ++++--
 tensornetwork/backends/symmetric/symmetric_backend.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 4911fe0..d4be228 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -496,8 +496,10 @@ class NumPyBackend(abstract_backend.AbstractBackend):
     krylov_vecs = []
     first = True
     eigvalsold = []
-    # a Krylov space cannot be larger than the space itself
-    for it in range(min(num_krylov_vecs, initial_state.size)):
+    if reorthogonalize:
+      # there are no further orthogonal directions
+      num_krylov_vecs = min(num_krylov_vecs, initial_state.size)
+    for it in range(num_krylov_vecs):
       #normalize the current vector:
       norm_vector_n = self.norm(vector_n)
       if abs(norm_vector_n) < delta:
diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index faf5446..831a690 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -383,8 +383,10 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
       first = True
       eigvalsold = []
 
-      # a Krylov space cannot be larger than the space itself
-      for it in range(min(num_krylov_vecs, len(vector_n.data))):
+      if reorthogonalize:
+        # there are no further orthogonal directions
+        num_krylov_vecs = min(num_krylov_vecs, len(vector_n.data))
+      for it in range(num_krylov_vecs):
         # normalize the current vector:
         norm_vector_n = self.norm(vector_n)
         if abs(norm_vector_n) < delta:
-- 
2.43.0


From be2821dc03393ba0ee3e2bc54cfe1008d4e29b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:38 +0000
Subject: [PATCH 089/116] fix: DMRG reorthogonalizes the Lanczos vectors

---
 tensornetwork/matrixproductstates/dmrg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/matrixproductstates/dmrg.py b/tensornetwork/matrixproductstates/dmrg.py
index 6c9f41a..6fd9737 100644
--- a/tensornetwork/matrixproductstates/dmrg.py
+++ b/tensornetwork/matrixproductstates/dmrg.py
@@ -219,7 +219,7 @@ class BaseDMRG:
         tol=tol,
         delta=delta,
         ndiag=ndiag,
-        reorthogonalize=False)
+        reorthogonalize=True)
     local_ground_state = states[0]
     energy = energies[0]
     local_ground_state /= self.backend.norm(local_ground_state)
@@ -292,7 +292,7 @@ class BaseDMRG:
           tol=tol,
           delta=delta,
           ndiag=ndiag,
-          reorthogonalize=False)
+          reorthogonalize=True)
       local_ground_state = states[0]
       energy = energies[0]
       local_ground_state /= self.backend.norm(local_ground_state)
@@ -325,7 +325,7 @@ class BaseDMRG:
           tol=tol,
           delta=delta,
           ndiag=ndiag,
-          reorthogonalize=False)
+          reorthogonalize=True)
       local_ground_state = states[0]
       energy = energies[0]
       local_ground_state /= self.backend.norm(local_ground_state)
-- 
2.43.0


From dabd43a1bf72f6237d2ea939afab8ac17bdb6d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 090/116] fix: jit accepts a single static argument together
 with backend_argnum

---
 tensornetwork/backends/decorators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensornetwork/backends/decorators.py b/tensornetwork/backends/decorators.py
index f5dc677..f56d31d 100644
--- a/tensornetwork/backends/decorators.py
+++ b/tensornetwork/backends/decorators.py
@@ -60,6 +60,8 @@ def jit(fun: Callable,
     if backend is not None:
       raise ValueError("backend must be None if backend_argnum is specified.")
     argnum_mode = True
+    if isinstance(static_argnums, int):
+      static_argnums = (static_argnums,)
     static_argnums = tuple(list(static_argnums) + [backend_argnum,])
 
   if not argnum_mode:
-- 
2.43.0


From f589440aea747094f21d4c5e59bdf956debe9c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:59 +0000
Subject: [PATCH 091/116] fix: jit with backend_argnum passes static arguments
 to the right parameters

---
 tensornetwork/backends/decorators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/decorators.py b/tensornetwork/backends/decorators.py
index f56d31d..ae36cea 100644
--- a/tensornetwork/backends/decorators.py
+++ b/tensornetwork/backends/decorators.py
@@ -62,7 +62,8 @@ def jit(fun: Callable,
     argnum_mode = True
     if isinstance(static_argnums, int):
       static_argnums = (static_argnums,)
-    static_argnums = tuple(list(static_argnums) + [backend_argnum,])
+    # JAX mixes up the arguments if these are not in ascending order
+    static_argnums = tuple(sorted({*static_argnums, backend_argnum}))
 
   if not argnum_mode:
     if backend is None:
-- 
2.43.0


From ca9ddb846f97f90772e91896502c8fbc8fac5dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:37 +0000
Subject: [PATCH 092/116] fix: ncon_cost_check runs on current numpy (np.float
 is gone)

---
 tensornetwork/contractors/custom_path_solvers/nconinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/custom_path_solvers/nconinterface.py b/tensornetwork/contractors/custom_path_solvers/nconinterface.py
index 1ddd52d..f63975c 100644
--- a/tensornetwork/contractors/custom_path_solvers/nconinterface.py
+++ b/tensornetwork/contractors/custom_path_solvers/nconinterface.py
@@ -140,7 +140,7 @@ def ncon_cost_check(tensors: List[np.ndarray],
     float: the cost of the network contraction, given as log10(total_FLOPS).
   """
 
-  total_cost = np.float('-inf')
+  total_cost = float('-inf')
   N = len(tensors)
   tensor_dims = [np.array(np.log10(ele.shape)) for ele in tensors]
   connect_list = [np.array(ele) for ele in labels]
-- 
2.43.0


From b289e756d83bdb6c966ecaec80761e19a5bd35e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:46 +0000
Subject: [PATCH 093/116] fix: ChargeArray.random honours its boundaries

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index b643433..12f79f6 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -149,7 +149,7 @@ class ChargeArray:
 
     data, charges, flows, order = _data_initializer(
         _random, lambda charges, flows: np.prod([c.dim for c in charges]),
-        indices, dtype=dtype)
+        indices, dtype=dtype, boundaries=boundaries)
     return cls(data=data, charges=charges, flows=flows, order=order)
 
   @property
-- 
2.43.0


From 37b72c3a5d80edd93ec746b817cef473f1dec766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:44 +0000
Subject: [PATCH 094/116] fix: greedy_cost_solve never contracts a tensor with
 itself

---
 tensornetwork/contractors/custom_path_solvers/pathsolvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
index 9a96bdc..bd1f176 100644
--- a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
+++ b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
@@ -117,7 +117,8 @@ def greedy_cost_solve(log_adj_in: np.ndarray):
     # penalize trivial contractions and self-contractions
     triv_conts = (log_adj < tol)
     trimmed_costs = single_cost + np.max(single_cost.flatten()) * triv_conts
-    trimmed_costs = trimmed_costs + np.max(trimmed_costs.flatten()) * np.eye(N)
+    trimmed_costs = trimmed_costs + (
+        1 + np.max(trimmed_costs.flatten())) * np.eye(N)
 
     # find best contraction
     tensors_to_contract = np.divmod(np.argmin(trimmed_costs), N)
-- 
2.43.0


From 17c57ef41bfcc4f2083e114039402cc2d30afb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:44 +0000
Subject: [PATCH 095/116] fix: path solvers accept networks of a single tensor

---
 tensornetwork/contractors/custom_path_solvers/pathsolvers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
index bd1f176..91afa88 100644
--- a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
+++ b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
@@ -161,6 +161,10 @@ def full_solve_complete(log_adj: np.ndarray,
     bool: specifies if contraction order is guaranteed optimal.
   """
   tol = 1e-6  # tolerance for float comparison
+  if log_adj.shape[0] == 1:
+    # a single tensor needs no contraction
+    return np.zeros([2, 0], dtype=int), float('-inf'), True
+
   # start by trying both greedy algorithms
   order0, cost0 = greedy_size_solve(log_adj)
   order1, cost1 = greedy_cost_solve(log_adj)
-- 
2.43.0


From 708e7b32ce2d8d9a077bda8174ef794aadcf3bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:12 +0000
Subject: [PATCH 096/116] fix: path contractors accept dimensions unknown in a
 tf.function

---
 tensornetwork/contractors/opt_einsum_paths/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/utils.py b/tensornetwork/contractors/opt_einsum_paths/utils.py
index b2a204d..c7892ba 100644
--- a/tensornetwork/contractors/opt_einsum_paths/utils.py
+++ b/tensornetwork/contractors/opt_einsum_paths/utils.py
@@ -41,6 +41,10 @@ def get_path(
   nodes = list(nodes)
   input_sets = [set(node.edges) for node in nodes]
   output_set = get_subgraph_dangling(nodes)
-  size_dict = {edge: edge.dimension for edge in get_all_edges(nodes)}
+  # Dimensions unknown while tracing do not influence the path.
+  size_dict = {
+      edge: 1 if edge.dimension is None else edge.dimension
+      for edge in get_all_edges(nodes)
+  }
 
   return algorithm(input_sets, output_set, size_dict), nodes
-- 
2.43.0


From 4a04751eb506674244da960e5dfbbe554269ddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:12 +0000
Subject: [PATCH 097/116] fix: edges of a dimension unknown in a tf.function
 can be connected

---
 tensornetwork/network_components.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index f2737b2..051968b 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1998,7 +1998,9 @@ def connect(edge1: Edge, edge2: Edge, name: Optional[Text] = None) -> Edge:
   if edge1 is edge2:
     raise ValueError("Cannot connect edge '{}' to itself.".format(edge1))
 
-  if edge1.dimension != edge2.dimension:
+  dimensions = edge1.dimension, edge2.dimension
+  # TensorFlow does not know every dimension inside a tf.function
+  if None not in dimensions and dimensions[0] != dimensions[1]:
     raise ValueError("Cannot connect edges of unequal dimension. "
                      "Dimension of edge '{}': {}, "
                      "Dimension of edge '{}': {}.".format(
-- 
2.43.0


From 32f20f5f33b28d6cc7cb0eea86c052a48de39725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:30 +0000
Subject: [PATCH 098/116] fix: Tensors can have dimensions unknown in a
 tf.function

---
 tensornetwork/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/tensor.py b/tensornetwork/tensor.py
index 75497c5..0642cd3 100644
--- a/tensornetwork/tensor.py
+++ b/tensornetwork/tensor.py
@@ -32,7 +32,9 @@ class Tensor():
     self.backend = backend_obj
     self.array = self.backend.convert_to_tensor(array)
     self.shape = self.array.shape
-    self.size = np.prod(self.shape, dtype=int)
+    # TensorFlow does not know every dimension inside a tf.function
+    self.size = (None if None in self.shape
+                 else np.prod(self.shape, dtype=int))
     self.ndim = len(self.shape)
 
   @property
-- 
2.43.0


From 577cf707dc9d31bbbcfe295817f60589c4d307b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:49 +0000
Subject: [PATCH 099/116] fix: ncon accepts labels of partially unknown
 dimension in a tf.function

---
 tensornetwork/ncon_interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index 279b5b7..df4bbbb 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -230,6 +230,7 @@ def _check_network(network_structure: Sequence[Sequence[Union[int, str]]],
         for n, l1 in enumerate(labels)
         if l1 == l
     }
+    dims.discard(None)  # unknown (e.g. within a `tf.function`)
     if len(dims) > 1:
       mismatched_labels.append(l)
 
-- 
2.43.0


From 8bbdfa4406781e8b2d1edc48c2276f4d616d6765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:12 +0000
Subject: [PATCH 100/116] fix: to_graphviz shows names literally and accepts
 any iterable

---
 tensornetwork/visualization/graphviz.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/visualization/graphviz.py b/tensornetwork/visualization/graphviz.py
index e80aba8..27fa1a0 100644
--- a/tensornetwork/visualization/graphviz.py
+++ b/tensornetwork/visualization/graphviz.py
@@ -37,6 +37,7 @@ def to_graphviz(nodes: Iterable[AbstractNode],
   Returns:
     The `graphviz.Graph` object.
   """
+  nodes = list(nodes)  # iterated over twice
   if graph is None:
     #pylint: disable=no-member
     graph = graphviz.Graph('G', engine=engine)
@@ -45,7 +46,7 @@ def to_graphviz(nodes: Iterable[AbstractNode],
       label = node.name
     else:
       label = ""
-    graph.node(str(id(node)), label=label)
+    graph.node(str(id(node)), label=graphviz.escape(label))
   seen_edges = set()
   for node in nodes:
     for i, edge in enumerate(node.edges):
@@ -53,7 +54,7 @@ def to_graphviz(nodes: Iterable[AbstractNode],
         continue
       seen_edges.add(edge)
       if not edge.name.startswith("__") or include_all_names:
-        edge_label = edge.name
+        edge_label = graphviz.escape(edge.name)
       else:
         edge_label = ""
       if edge.is_dangling():
-- 
2.43.0


From c5960e0461e428a509e5beed7fe272f20ae067b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:00 +0000
Subject: [PATCH 101/116] fix: symmetric backend converts Python numbers to
 tensors

---
 tensornetwork/backends/symmetric/symmetric_backend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 831a690..8bd81e2 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -101,7 +101,11 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
   def convert_to_tensor(self, tensor: Tensor) -> Tensor:
     if numpy.isscalar(tensor):
       tensor = BlockSparseTensor(
-          data=tensor, charges=[], flows=[], order=[], check_consistency=False)
+          data=numpy.asarray(tensor),
+          charges=[],
+          flows=[],
+          order=[],
+          check_consistency=False)
 
     if not isinstance(tensor, ChargeArray):
       raise TypeError(
-- 
2.43.0


From b01a72a3c158fc1bf03c2cc207eda0a437bf1ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:31 +0000
Subject: [PATCH 102/116] fix: outer_product of a node with itself is refused
 before anything changes

---
 tensornetwork/network_components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 051968b..81fbb64 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -2226,6 +2226,9 @@ def outer_product(node1: AbstractNode,
   if node1.backend.name != node2.backend.name:
     raise ValueError("node {}  and node {} have different backends. "
                      "Cannot perform outer product".format(node1, node2))
+  if node1 is node2:
+    raise ValueError("Cannot take the outer product of node '{}' with "
+                     "itself.".format(node1))
 
   backend = node1.backend
   if node1.get_rank() == 0 or node2.get_rank() == 0:
-- 
2.43.0


From 007a29d4f8ce98ea678bf8c547baa224fc54001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:31 +0000
Subject: [PATCH 103/116] fix: flattened and split copy nodes can be copied

---
 tensornetwork/network_components.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 81fbb64..42fd8ee 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -807,10 +807,9 @@ class CopyNode(AbstractNode):
     new_node = CopyNode(self.rank,
                         self.dimension,
                         name=self.name,
-                        axis_names=self.axis_names,
                         backend=self.backend,
                         dtype=self.dtype)
-    new_node.set_tensor(self.get_tensor())
+    new_node._set_modified_tensor(self.get_tensor(), self.axis_names)
     visited_edges = set()
     for i, edge in enumerate(self.edges):
       if edge in visited_edges:
@@ -847,6 +846,19 @@ class CopyNode(AbstractNode):
   def tensor(self, tensor: Tensor) -> Tensor:
     self._tensor = tensor
 
+  def _set_modified_tensor(self, tensor: Tensor,
+                           axis_names: List[Text]) -> None:
+    """Set a tensor with any number of axes.
+
+    Flattening and splitting edges changes the axes of a copy node.
+    """
+    self._tensor = tensor
+    self.edges = [
+        Edge(node1=self, axis1=i, name=axis_name)
+        for i, axis_name in enumerate(axis_names)
+    ]
+    self.add_axis_names(axis_names)
+
   @staticmethod
   def make_copy_tensor(rank: int, dimension: int,
                        dtype: Type[np.number]) -> Tensor:
-- 
2.43.0


From a48d93abbe41d87c9965313a51d31706ef25c573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:32 +0000
Subject: [PATCH 104/116] fix: saving keeps the rank, dimension and tensor of
 copy nodes

---
 tensornetwork/network_components.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 42fd8ee..adf38e0 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -941,6 +941,13 @@ class CopyNode(AbstractNode):
     super()._save_node(node_group)
     node_group.create_dataset(name='copy_node_dtype', dtype=string_type,
                               data=np.dtype(self.copy_node_dtype).name)
+    if self._tensor is not None or self.rank == 0:
+      node_group.create_dataset(name='copy_node_rank', data=self.rank)
+      node_group.create_dataset(name='copy_node_dimension',
+                                data=self.dimension)
+    if self._tensor is not None:
+      # Flattening, splitting or slicing edges changes the tensor.
+      node_group.create_dataset(name='tensor', data=self._tensor)
 
   @classmethod
   def _load_node(cls, node_data: h5py.Group) -> "CopyNode":
@@ -955,13 +962,22 @@ class CopyNode(AbstractNode):
     name, shape, axis_names, backend = cls._load_node_data(node_data)
     copy_node_dtype = np.dtype(
         node_data['copy_node_dtype'].asstr(STRING_ENCODING)[()])
+    rank, dimension = len(shape), shape[0] if len(shape) > 0 else 1
+    if 'copy_node_rank' in node_data:
+      rank = int(node_data['copy_node_rank'][()])
+      dimension = int(node_data['copy_node_dimension'][()])
+    modified = 'tensor' in node_data
     # pylint: disable=unnecessary-comprehension
-    node = CopyNode(rank=len(shape),
-                    dimension=shape[0],
+    axis_names = [ax for ax in axis_names]
+    node = CopyNode(rank=rank,
+                    dimension=dimension,
                     name=name,
-                    axis_names=[ax for ax in axis_names],
+                    axis_names=None if modified else axis_names,
                     backend=backend,
                     dtype=copy_node_dtype)
+    if modified:
+      tensor = node.backend.convert_to_tensor(node_data['tensor'][()])
+      node._set_modified_tensor(tensor, axis_names)
 
     return node
 
-- 
2.43.0


From 4a5090af601844d64f2dc5b3ee42ed94568772d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:32 +0000
Subject: [PATCH 105/116] fix: network functions accept any iterable of nodes

---
 tensornetwork/network_operations.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 252f3ad..8649f13 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -49,6 +49,7 @@ def copy(nodes: Iterable[AbstractNode],
       edge_dict:
         A dictionary mapping the edges to their copies.
   """
+  nodes = list(nodes)  # `nodes` might be an iterator
   node_dict = {}
   for node in nodes:
     node_dict[node] = node.copy(conjugate)
@@ -99,6 +100,7 @@ def replicate_nodes(nodes: Iterable[AbstractNode],
   Returns:
     A list containing the copies of the nodes.
   """
+  nodes = list(nodes)
   new_nodes, _ = copy(nodes, conjugate=conjugate)
   return [new_nodes[node] for node in nodes]
 
@@ -648,6 +650,7 @@ def check_correct(nodes: Iterable[AbstractNode],
     ValueError: If the network defined by `nodes` is not
       correctly structured.
   """
+  nodes = list(nodes)
   for node in nodes:
     for i, edge in enumerate(node.edges):
       if edge.node1 is not node and edge.node2 is not node:
@@ -721,9 +724,10 @@ def get_subgraph_dangling(nodes: Iterable[AbstractNode]) -> Set[Edge]:
   Returns:
     The set of "relatively dangling" edges.
   """
+  nodes = set(nodes)
   output = set()
   for edge in get_all_edges(nodes):
-    if edge.is_dangling() or not set(edge.get_nodes()) <= set(nodes):
+    if edge.is_dangling() or not set(edge.get_nodes()) <= nodes:
       output.add(edge)
   return output
 
@@ -770,6 +774,7 @@ def reduced_density(traced_out_edges: Iterable[Edge]) -> Tuple[dict, dict]:
         conjugate copies.
   """
 
+  traced_out_edges = list(traced_out_edges)
   if list(filter(lambda x: not x.is_dangling(), traced_out_edges)):
     raise ValueError("traced_out_edges must only include dangling edges!")
 
@@ -799,6 +804,7 @@ def switch_backend(nodes: Iterable[AbstractNode], new_backend: Text) -> None:
   Returns:
     None
   """
+  nodes = list(nodes)
   if new_backend == 'symmetric':
     if np.all([n.backend.name == 'symmetric' for n in nodes]):
       return
-- 
2.43.0


From 8a5425c0785f10c3bd74d12b4ba406f6e0c15fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:32 +0000
Subject: [PATCH 106/116] fix: contractors accept any iterable of nodes

---
 .../contractors/opt_einsum_paths/path_contractors.py   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 990ad0f..d29e65c 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -60,13 +60,13 @@ def base(nodes: Iterable[AbstractNode],
 
   if not ignore_edge_order:
     if output_edge_order is None:
-      output_edge_order = list(get_subgraph_dangling(nodes))
+      output_edge_order = list(get_subgraph_dangling(nodes_set))
       if len(output_edge_order) > 1:
         raise ValueError("The final node after contraction has more than "
                          "one remaining edge. In this case `output_edge_order` "
                          "has to be provided.")
 
-    if set(output_edge_order) != get_subgraph_dangling(nodes):
+    if set(output_edge_order) != get_subgraph_dangling(nodes_set):
       raise ValueError("output edges are not equal to the remaining "
                        "non-contracted edges of the final node.")
 
@@ -216,7 +216,8 @@ def auto(nodes: Iterable[AbstractNode],
     Final node after full contraction.
   """
 
-  n = len(list(nodes))  #pytype thing
+  nodes = list(nodes)
+  n = len(nodes)
   _nodes = nodes
   if n <= 0:
     raise ValueError("Cannot contract empty tensor network.")
@@ -324,7 +325,8 @@ def path_solver(
   elif algorithm == "greedy":
     alg = functools.partial(opt_einsum.paths.greedy, memory_limit=memory_limit)
   elif algorithm == "auto":
-    n = len(list(nodes))  #pytype thing
+    nodes = list(nodes)
+    n = len(nodes)
     _nodes = nodes
     if n <= 1:
       return []
-- 
2.43.0


From 7aa49faa2f7f23f32e1e02124b37acf4caf49e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:32 +0000
Subject: [PATCH 107/116] fix: contractors handle contraction steps of more
 than two nodes

---
 .../opt_einsum_paths/path_contractors.py      | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index d29e65c..e9f7b94 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -33,6 +33,20 @@ from typing import Any, Optional, Sequence, Iterable, Text, Tuple, List
 #               _base_nodes -> base
 
 
+def _contract_step(nodes: List[AbstractNode],
+                   step: Sequence[int]) -> List[AbstractNode]:
+  """Contract the nodes of one step of a path, and put the result at the end.
+
+  `opt_einsum` puts all remaining nodes into one step if it does not find a
+  contraction that respects `memory_limit`.
+  """
+  new_node = nodes[step[0]]
+  for position in step[1:]:
+    new_node = contract_between(
+        new_node, nodes[position], allow_outer_product=True)
+  return utils.multi_remove(nodes, step) + [new_node]
+
+
 def base(nodes: Iterable[AbstractNode],
          algorithm: utils.Algorithm,
          output_edge_order: Optional[Sequence[Edge]] = None,
@@ -84,10 +98,8 @@ def base(nodes: Iterable[AbstractNode],
 
   # Then apply `opt_einsum`'s algorithm
   path, nodes = utils.get_path(nodes_set, algorithm)
-  for a, b in path:
-    new_node = contract_between(nodes[a], nodes[b], allow_outer_product=True)
-    nodes.append(new_node)
-    nodes = utils.multi_remove(nodes, [a, b])
+  for step in path:
+    nodes = _contract_step(nodes, step)
 
   # if the final node has more than one edge,
   # output_edge_order has to be specified
@@ -385,10 +397,7 @@ def contract_path(path: Tuple[List[Tuple[int,
 
   for p in path:
     if len(p) > 1:
-      a, b = p
-      new_node = contract_between(nodes[a], nodes[b], allow_outer_product=True)
-      nodes.append(new_node)
-      nodes = utils.multi_remove(nodes, [a, b])
+      nodes = _contract_step(nodes, p)
 
     elif len(p) == 1:
       a = p[0]
-- 
2.43.0


From 56a664bda17958073493dd0cf943dac1764a57f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:32 +0000
Subject: [PATCH 108/116] fix: auto contracts a single node of a larger network
 alone

---
 .../opt_einsum_paths/path_contractors.py      | 25 +------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index e9f7b94..af0d4c4 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -21,9 +21,7 @@ from tensornetwork.network_operations import (check_connected, get_all_edges,
                                               contract_trace_edges,
                                               redirect_edge)
 
-from tensornetwork.network_components import (get_all_nondangling,
-                                              contract_parallel,
-                                              contract_between)
+from tensornetwork.network_components import contract_parallel, contract_between
 from tensornetwork.network_components import Edge, AbstractNode
 from tensornetwork.contractors.opt_einsum_paths import utils
 from typing import Any, Optional, Sequence, Iterable, Text, Tuple, List
@@ -230,29 +228,8 @@ def auto(nodes: Iterable[AbstractNode],
 
   nodes = list(nodes)
   n = len(nodes)
-  _nodes = nodes
   if n <= 0:
     raise ValueError("Cannot contract empty tensor network.")
-  if n == 1:
-    if not ignore_edge_order:
-      if output_edge_order is None:
-        output_edge_order = list(
-            (get_all_edges(_nodes) - get_all_nondangling(_nodes)))
-        if len(output_edge_order) > 1:
-          raise ValueError(
-              "The final node after contraction has more than "
-              "one dangling edge. In this case `output_edge_order` "
-              "has to be provided.")
-
-    edges = get_all_nondangling(_nodes)
-    if edges:
-      final_node = contract_parallel(edges.pop())
-    else:
-      final_node = list(_nodes)[0]
-    if not ignore_edge_order:
-      final_node.reorder_edges(output_edge_order)
-    return final_node
-
   if n < 5:
     return optimal(nodes, output_edge_order, memory_limit, ignore_edge_order)
   if n < 7:
-- 
2.43.0


From fdd2b73cb6c4bccda8d264f6925301fe4512c67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:32 +0000
Subject: [PATCH 109/116] fix: eliminate_identities only removes unmodified
 rank-2 copy nodes

---
 tensornetwork/quantum/quantum.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/quantum/quantum.py b/tensornetwork/quantum/quantum.py
index 9252a1f..d3581ae 100644
--- a/tensornetwork/quantum/quantum.py
+++ b/tensornetwork/quantum/quantum.py
@@ -119,9 +119,10 @@ def eliminate_identities(nodes: Collection[AbstractNode]) -> Tuple[dict, dict]:
   nodes_dict = {}
   dangling_edges_dict = {}
   for n in nodes:
-    if isinstance(
-        n, CopyNode) and n.get_rank() == 2 and not (n[0].is_dangling() and
-                                                    n[1].is_dangling()):
+    # A reshaped or sliced copy node is no identity.
+    if isinstance(n, CopyNode) and n.rank == 2 and tuple(
+        n.shape) == (n.dimension,) * 2 and not (n[0].is_dangling() and
+                                                n[1].is_dangling()):
       old_edges = [n[0], n[1]]
       _, new_edges = remove_node(n)
       if 0 in new_edges and 1 in new_edges:
-- 
2.43.0


From b13fbf4e38f9146e4fdca00ab902dd56f605495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:32 +0000
Subject: [PATCH 110/116] fix: check_network rejects edges listed more than
 once

---
 tensornetwork/quantum/quantum.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/quantum/quantum.py b/tensornetwork/quantum/quantum.py
index d3581ae..376d8ba 100644
--- a/tensornetwork/quantum/quantum.py
+++ b/tensornetwork/quantum/quantum.py
@@ -251,8 +251,8 @@ class QuOperator():
   def check_network(self) -> None:
     """Check that the network has the expected dimensionality.
 
-    This checks that all input and output edges are dangling and that
-    there are no other dangling edges (except any specified in
+    This checks that all input and output edges are dangling and distinct, and
+    that there are no other dangling edges (except any specified in
     `ignore_edges`). If not, an exception is raised.
     """
     for (i, e) in enumerate(self.out_edges):
@@ -267,6 +267,10 @@ class QuOperator():
             str(e)))
 
     known_edges = set(self.in_edges) | set(self.out_edges) | self.ignore_edges
+    if len(known_edges) != len(self.in_edges) + len(self.out_edges) + len(
+        self.ignore_edges):
+      raise ValueError("An edge appears more than once among the output edges, "
+                       "input edges and ignore_edges.")
     all_dangling_edges = get_subgraph_dangling(self.nodes)
     if known_edges != all_dangling_edges:
       raise ValueError("The network includes unexpected dangling edges (that "
-- 
2.43.0


From 48cba49c71bdc2e280bff1d83287ba2b1a94c6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:32 +0000
Subject: [PATCH 111/116] fix: a scalar block-sparse tensor has size 1

---
 tensornetwork/block_sparse/blocksparsetensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 12f79f6..e23b085 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -184,7 +184,8 @@ class ChargeArray:
     Returns:
       int: The total number of elements.
     """
-    return reduce(mul, [self._charges[n].dim for s in self._order for n in s])
+    return reduce(mul, [self._charges[n].dim for s in self._order for n in s],
+                  1)
 
   @property
   def charges(self) -> List[List[BaseCharge]]:
-- 
2.43.0


From c946297b67d7a66a9be604cea664f6ded1abf562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:32 +0000
Subject: [PATCH 112/116] fix: the dense form of a scalar block-sparse tensor
 is a scalar

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index e23b085..7a652cb 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -609,7 +609,7 @@ class BlockSparseTensor(ChargeArray):
     
     """
     if self.ndim == 0:
-      return self.data
+      return np.reshape(self.data, ())
     out = np.asarray(np.zeros(self.shape, dtype=self.dtype).flat)
 
     out[np.nonzero(
-- 
2.43.0


From c78e5196941ff22d4fb8c94da01e488784fe9760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:32 +0000
Subject: [PATCH 113/116] fix: block-sparse inv rejects matrices with unmatched
 sectors

---
 tensornetwork/block_sparse/linalg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index 69f37c6..e4c40fd 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -528,6 +528,9 @@ def inv(matrix: BlockSparseTensor) -> BlockSparseTensor:
   tr_partition = len(matrix._order[0])
   blocks, _, shapes = _find_transposed_diagonal_sparse_blocks(
       flat_charges, flat_flows, tr_partition, flat_order)
+  if any(np.sum(shapes[n]) != matrix.shape[n] for n in range(2)):
+    # rows or columns without a block are zero
+    raise np.linalg.LinAlgError("Singular matrix")
 
   data = np.empty(np.sum(np.prod(shapes, axis=0)), dtype=matrix.dtype)
   for n, block in enumerate(blocks):
-- 
2.43.0


From bf98f498c82ca93f2a25fb41cf530e8cd314366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:32 +0000
Subject: [PATCH 114/116] fix: charges given by labels drop the charges that do
 not occur

---
 tensornetwork/block_sparse/charge.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 1cd6be3..8fb7423 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -71,7 +71,15 @@ class BaseCharge:
 
 
     else:
-      self._charge_labels = np.asarray(charge_labels, dtype=self.label_dtype)
+      charge_labels = np.asarray(charge_labels, dtype=self.label_dtype)
+      used = np.zeros(charges.shape[0], dtype=bool)
+      used[charge_labels] = True
+      if not np.all(used):
+        # charges that do not occur are not part of the unique charges
+        charge_labels = (np.cumsum(used) - 1)[charge_labels]
+        charge_labels = charge_labels.astype(self.label_dtype)
+        charges = charges[used]
+      self._charge_labels = charge_labels
       self._unique_charges = charges.astype(charge_dtype)
       self._charges = None
 
-- 
2.43.0


From 3e2e602a2cd28dc09f26bc84353b7dee081b5403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:00 +0000
Subject: [PATCH 115/116] fix: the block-sparse cache can be switched or
 cleared by other threads

---
 .../block_sparse/blocksparse_utils.py         | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 2afc99f..23a7946 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -352,11 +352,14 @@ def _find_diagonal_sparse_blocks(
       block, with 'n' the number of symmetries and 'm' the number of blocks.
     block_dims (np.ndarray): 2-by-m array of matrix dimensions of each block.
   """
+  # Other threads may switch caching or clear the cache meanwhile.
   cacher = get_cacher()
-  if cacher.do_caching:
+  do_caching = cacher.do_caching
+  if do_caching:
     hash_val = _to_string(charges, flows, partition, list(range(len(charges))))
-    if hash_val in cacher.cache:
-      return cacher.cache[hash_val]
+    cached = cacher.cache.get(hash_val)
+    if cached is not None:
+      return cached
 
   num_inds = len(charges)
   if partition in (0, num_inds):
@@ -425,9 +428,8 @@ def _find_diagonal_sparse_blocks(
   obj.__init__(block_qnums,
                np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
                charges[0].charge_types, block_qnums.dtype)
-  if cacher.do_caching:
+  if do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims)
-    return cacher.cache[hash_val]
   return block_maps, obj, block_dims
 
 
@@ -460,11 +462,14 @@ def _find_transposed_diagonal_sparse_blocks(
     block_dims (np.ndarray): 2-by-m array of matrix dimensions of each block.
   """
   flows = np.asarray(flows)
+  # Other threads may switch caching or clear the cache meanwhile.
   cacher = get_cacher()
-  if cacher.do_caching:
+  do_caching = cacher.do_caching
+  if do_caching:
     hash_val = _to_string(charges, flows, tr_partition, order)
-    if hash_val in cacher.cache:
-      return cacher.cache[hash_val]
+    cached = cacher.cache.get(hash_val)
+    if cached is not None:
+      return cached
 
   if np.array_equal(order, None) or (np.array_equal(
       np.array(order), np.arange(len(charges)))):
@@ -633,9 +638,8 @@ def _find_transposed_diagonal_sparse_blocks(
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
                  charges[0].charge_types, block_qnums.dtype)
 
-  if cacher.do_caching:
+  if do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims)
-    return cacher.cache[hash_val]
   return block_maps, obj, block_dims
 
 def _layout(charge: BaseCharge) -> str:
-- 
2.43.0


From 213057e271177dcd69164590a0d8811f78b54e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:37 +0000
Subject: [PATCH 116/116] fix: block-sparse diag with cached charges of another
 charge class

---
 tensornetwork/block_sparse/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index e4c40fd..f6db4fc 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -72,7 +72,7 @@ def diag(tensor: ChargeArray) -> Any:
     lookup, unique, labels = compute_sparse_lookup(tensor._charges,
                                                    tensor._flows, charges)
     for n, block in enumerate(blocks):
-      label = labels[np.nonzero(unique == charges[n])[0][0]]
+      label = labels[np.nonzero(unique == charges[n].charges)[0][0]]
       data[block] = np.ravel(
           np.diag(tensor.data[np.nonzero(lookup == label)[0]]))
 
-- 
2.43.0

