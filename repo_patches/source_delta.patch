From 9d563aaff8c19d097e78f025626f220c04eeebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:37 +0000
Subject: [PATCH 01/76] fix: scalar of a connected spider pair with opposite
 phases (missing pi in cosine)

---
 pyzx/graph/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 7d9e2a9..5d6845c 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -265,7 +265,7 @@ class Scalar(object):
                     self.add_phase(Fraction(1))
                 return
             self.add_power(1)
-            self.add_float(math.cos(p1))
+            self.add_float(math.cos(math.pi*p1))
             return
         # Generic case
         self.add_power(-1)
-- 
2.43.0


From 5fb321ef859329f82210bb9bf631d57a89baf49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:37 +0000
Subject: [PATCH 02/76] fix: keep edge types and phases in
 to_clifford_normal_form_graph

---
 pyzx/simplify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index a0cda7f..038e4e1 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -548,7 +548,7 @@ def to_clifford_normal_form_graph(g: BaseGraph[VT,ET]) -> None:
         e = g.edge(v,i)
         if g.edge_type(e) == EdgeType.HADAMARD or g.phase(v) != 0:
             h = g.add_vertex(VertexType.Z, q, row=1, phase=g.phase(v))
-            g.add_edge((i,h),EdgeType.HADAMARD)
+            g.add_edge((i,h),g.edge_type(e))
             g.add_edge((h,v),EdgeType.SIMPLE)
             g.remove_edge(e)
             g.set_phase(v,0)
@@ -560,7 +560,7 @@ def to_clifford_normal_form_graph(g: BaseGraph[VT,ET]) -> None:
         e = g.edge(v,o)
         if g.edge_type(e) == EdgeType.HADAMARD or g.phase(v) != 0:
             h = g.add_vertex(VertexType.Z, q, row=7, phase=g.phase(v))
-            g.add_edge((h,o),EdgeType.HADAMARD)
+            g.add_edge((h,o),g.edge_type(e))
             g.add_edge((v,h),EdgeType.SIMPLE)
             g.remove_edge(e)
             g.set_phase(v,0)
-- 
2.43.0


From d592f0f0fec17babe8eaf5e694bffa609b86aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:37 +0000
Subject: [PATCH 03/76] fix: to_graph_like dropped the Hadamard of a wire
 between two boundaries

---
 pyzx/simplify.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 038e4e1..6e6c05b 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -474,6 +474,14 @@ def to_graph_like(g: BaseGraph[VT,ET]) -> None:
             # every neighbor is another boundary or an H-Box
             assert(g.type(n) in [VertexType.BOUNDARY, VertexType.H_BOX])
             if g.type(n) == VertexType.BOUNDARY:
+                if g.edge_type(g.edge(v, n)) == EdgeType.HADAMARD:
+                    z1 = g.add_vertex(ty=VertexType.Z)
+                    z2 = g.add_vertex(ty=VertexType.Z)
+                    g.remove_edge(g.edge(v, n))
+                    g.add_edge((v, z1), edgetype=EdgeType.SIMPLE)
+                    g.add_edge((z1, z2), edgetype=EdgeType.HADAMARD)
+                    g.add_edge((z2, n), edgetype=EdgeType.SIMPLE)
+                    continue
                 z1 = g.add_vertex(ty=VertexType.Z)
                 z2 = g.add_vertex(ty=VertexType.Z)
                 z3 = g.add_vertex(ty=VertexType.Z)
-- 
2.43.0


From ba2367e3d323343e6060d955aff1fd86e3d43b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:38 +0000
Subject: [PATCH 04/76] fix: bialgebra simplification ignored Hadamard edges
 and the scalar factor

---
 pyzx/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 708a624..66ae39e 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -83,7 +83,6 @@ def match_bialg(g: BaseGraph[VT,ET]) -> List[MatchBialgType[VT]]:
     return match_bialg_parallel(g, num=1)
 
 
-#TODO: make it be hadamard edge aware
 def match_bialg_parallel(
         g: BaseGraph[VT,ET],
         matchf:Optional[Callable[[ET],bool]]=None,
@@ -116,6 +115,8 @@ def match_bialg_parallel(
         v1p = phases[v1]
         if (v0p == 0 and v1p == 0 and
         ((v0t == VertexType.Z and v1t == VertexType.X) or (v0t == VertexType.X and v1t == VertexType.Z))):
+            if any(g.edge_type(e) != EdgeType.SIMPLE for v in (v0,v1) for e in g.incident_edges(v)):
+                continue
             v0n = [n for n in g.neighbors(v0) if not n == v1]
             v1n = [n for n in g.neighbors(v1) if not n == v0]
             if (
@@ -138,6 +139,7 @@ def bialg(g: BaseGraph[VT,ET], matches: List[MatchBialgType[VT]]) -> RewriteOutp
     for m in matches:
         rem_verts.append(m[0])
         rem_verts.append(m[1])
+        g.scalar.add_power((len(m[2])-1)*(len(m[3])-1))
         es = [(i,j) for i in m[2] for j in m[3]]
         for e in es:
             if e in etab: etab[e][0] += 1
-- 
2.43.0


From 5d05317c2cce81a87fe83a113eb87a0dba7122c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:38 +0000
Subject: [PATCH 05/76] fix: copy_simp found interacting matches, giving a
 wrong scalar

---
 pyzx/rules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 66ae39e..cd2a9b4 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -996,6 +996,8 @@ def apply_copy(g: BaseGraph[VT,ET], matches: List[MatchCopyType[VT]]) -> Rewrite
     outputs = g.outputs()
     for v,w,a,alpha, neigh in matches:
         rem.append(v)
+        # The rewrite changes the phase and degree of these neighbors, so they can't be part of another match
+        for n in neigh: candidates.difference_update(g.neighbors(n))
         rem.append(w)
         g.scalar.add_power(-len(neigh)+1)
         if a: g.scalar.add_phase(alpha)
-- 
2.43.0


From 396c9e8ba4ef3bb811bcc3845ab15177565cc8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:38 +0000
Subject: [PATCH 06/76] fix: supplementarity could match an already matched
 spider

---
 pyzx/rules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index cd2a9b4..f19b8bc 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -919,6 +919,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
                     break
             else: parities[par].append(v)
             if v in taken: continue
+                if w in taken: continue
         else: parities[par] = [v]
         for w in neigh:
             if phases[w] == 0 or phases[w].denominator <= 2 or w in taken: continue
-- 
2.43.0


From c0459c26a812c5d9f2ffe7b244b28c845daf357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:38 +0000
Subject: [PATCH 07/76] fix: gadget, supplementarity and pivot matchers have to
 check edge and vertex types

---
 pyzx/rules.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index f19b8bc..93228b4 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -516,6 +516,7 @@ def match_pivot_gadget(
 
         if any(types[w]!=VertexType.Z for w in v0n): continue
         if any(types[w]!=VertexType.Z for w in v1n): continue
+        if any(g.edge_type(c) != EdgeType.HADAMARD for w in (v0,v1) for c in g.incident_edges(w)): continue
         # Both v0 and v1 are interior
 
         v = g.add_vertex(VertexType.Z,-2,rs[v0],v1a)
@@ -558,7 +559,7 @@ def match_pivot_boundary(
         w = None
         bound = None
         for n in g.neighbors(v):
-            if types[n] != VertexType.Z:
+            if types[n] != VertexType.Z or g.edge_type(g.edge(v,n)) != EdgeType.HADAMARD:
                 good_vert = False
                 break
             if len(g.neighbors(n)) == 1: # v is a phase gadget
@@ -575,7 +576,7 @@ def match_pivot_boundary(
             for b in g.neighbors(n):
                 if types[b] == VertexType.BOUNDARY:
                     boundaries.append(b)
-                elif types[b] != VertexType.Z:
+                elif types[b] != VertexType.Z or g.edge_type(g.edge(n,b)) != EdgeType.HADAMARD:
                     wrong_match = True
             if len(boundaries) != 1 or wrong_match: # n is not on the boundary,
                 continue             # has too many boundaries or has neighbors of wrong type
@@ -833,6 +834,7 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
     else: candidates = g.vertex_set()
 
     phases = g.phases()
+    types = g.types()
 
     parities: Dict[FrozenSet[VT], List[VT]] = dict()
     gadgets: Dict[VT,VT] = dict()
@@ -847,6 +849,9 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
             if phases[n] not in (0,1): continue # Not a real phase gadget (happens for scalar diagrams)
             if n in gadgets: continue # Not a real phase gadget (happens for scalar diagrams)
             if n in inputs or n in outputs: continue # Not a real phase gadget (happens for non-unitary diagrams)
+            if types[v] != VertexType.Z or types[n] != VertexType.Z: continue
+            if any(types[w] not in (VertexType.Z, VertexType.BOUNDARY) for w in g.neighbors(n)): continue
+            if any(g.edge_type(e) != EdgeType.HADAMARD for e in g.incident_edges(n)): continue
             gadgets[n] = v
             par = frozenset(set(g.neighbors(n)).difference({v}))
             if par in parities: parities[par].append(n)
@@ -898,6 +903,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
     if vertexf is not None: candidates = set([v for v in g.vertices() if vertexf(v)])
     else: candidates = g.vertex_set()
     phases = g.phases()
+    types = g.types()
 
     parities: Dict[FrozenSet[VT],List[VT]] = dict()
     m: List[MatchSupplementarityType[VT]] = []
@@ -907,10 +913,13 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
         v = candidates.pop()
         if phases[v] == 0 or phases[v].denominator <= 2: continue # Skip Clifford vertices
         neigh = set(g.neighbors(v))
+        if any(types[w] != VertexType.Z for w in neigh.union({v})): continue
+        if any(g.edge_type(e) != EdgeType.HADAMARD for e in g.incident_edges(v)): continue
         if not neigh.isdisjoint(taken): continue
         par = frozenset(neigh)
         if par in parities:
             for w in parities[par]:
+                if w in taken: continue
                 if (phases[v]-phases[w]) % 2 == 1 or (phases[v]+phases[w]) % 2 == 1:
                     m.append((v,w,1,par))
                     taken.update({v,w})
@@ -919,7 +928,6 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
                     break
             else: parities[par].append(v)
             if v in taken: continue
-                if w in taken: continue
         else: parities[par] = [v]
         for w in neigh:
             if phases[w] == 0 or phases[w].denominator <= 2 or w in taken: continue
@@ -988,6 +996,8 @@ def match_copy(
         m.append((v,w,phases[v],phases[w],neigh))
         candidates.discard(w)
         candidates.difference_update(neigh)
+        # The rewrite changes the phase and degree of these neighbors, so they can't be part of another match
+        for n in neigh: candidates.difference_update(g.neighbors(n))
 
     return m
 
@@ -997,8 +1007,6 @@ def apply_copy(g: BaseGraph[VT,ET], matches: List[MatchCopyType[VT]]) -> Rewrite
     outputs = g.outputs()
     for v,w,a,alpha, neigh in matches:
         rem.append(v)
-        # The rewrite changes the phase and degree of these neighbors, so they can't be part of another match
-        for n in neigh: candidates.difference_update(g.neighbors(n))
         rem.append(w)
         g.scalar.add_power(-len(neigh)+1)
         if a: g.scalar.add_phase(alpha)
-- 
2.43.0


From ca80ff1dfce29818dfbff0c7f837b468940dcf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:19 +0000
Subject: [PATCH 08/76] fix: interactive rules: pi commutation lost the pi
 phases and scalar, identity removal and W fusion applied where they do not
 hold

---
 pyzx/basicrules.py | 22 +++++++++-------------
 pyzx/rules.py      | 12 +++++++++++-
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 18eebc0..bdb9424 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -47,9 +47,9 @@ __all__ = ['color_change_diagram',
 
 from typing import Tuple, List
 from .graph.base import BaseGraph, VT, ET
-from .rules import apply_rule, w_fusion, z_to_z_box
+from .rules import apply_rule, w_fusable, w_fusion, z_to_z_box
 from .utils import (EdgeType, VertexType, get_w_io, get_z_box_label, is_pauli,
-                    set_z_box_label, vertex_is_w, vertex_is_z_like, toggle_vertex, toggle_edge)
+                    set_z_box_label, vertex_is_w, vertex_is_z_like, vertex_is_zx, toggle_vertex, toggle_edge)
 
 def color_change_diagram(g: BaseGraph[VT,ET]):
     """Color-change an entire diagram by applying Hadamards to the inputs and ouputs."""
@@ -96,7 +96,7 @@ def strong_comp(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
 
     for i in range(2):
         j = (i + 1) % 2
-        for vn in g.neighbors(v[i]):
+        for vn in list(g.neighbors(v[i])):
             if vn != v[j]:
                 q = 0.4*g.qubit(vn) + 0.6*g.qubit(v[i])
                 r = 0.4*g.row(vn) + 0.6*g.row(v[i])
@@ -141,8 +141,9 @@ def check_pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
 
 def pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
     if not check_pi_commute_Z(g, v): return False
+    g.scalar.add_phase(g.phase(v))
     g.set_phase(v, -g.phase(v))
-    ns = g.neighbors(v)
+    ns = list(g.neighbors(v))
     for w in ns:
         e = g.edge(v, w)
         et = g.edge_type(e)
@@ -153,7 +154,8 @@ def pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
             g.remove_edge(e)
             c = g.add_vertex(VertexType.X,
                     qubit=0.5*(g.qubit(v) + g.qubit(w)),
-                    row=0.5*(g.row(v) + g.row(w)))
+                    row=0.5*(g.row(v) + g.row(w)),
+                    phase=1)
             g.add_edge((v, c))
             g.add_edge((c, w), edgetype=et)
     return True
@@ -220,13 +222,7 @@ def fuse(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
     return True
 
 def check_fuse_w(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
-    if vertex_is_w(g.type(v1)) and vertex_is_w(g.type(v2)):
-        v1_in, v1_out = get_w_io(g, v1)
-        v2_in, v2_out = get_w_io(g, v2)
-        if g.edge_type(g.edge(v1_in, v2_out)) == EdgeType.SIMPLE or \
-           g.edge_type(g.edge(v2_in, v1_out)) == EdgeType.SIMPLE:
-            return True
-    return False
+    return vertex_is_w(g.type(v1)) and vertex_is_w(g.type(v2)) and w_fusable(g, v1, v2)
 
 def fuse_w(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
     if not check_fuse_w(g, v1, v2): return False
@@ -243,7 +239,7 @@ def check_remove_id(g: BaseGraph[VT,ET], v: VT) -> bool:
         return False
     if g.type(v) == VertexType.Z_BOX and get_z_box_label(g, v) == 1:
         return True
-    elif g.type(v) != VertexType.Z_BOX and g.phase(v) == 0:
+    elif vertex_is_zx(g.type(v)) and g.phase(v) == 0:
         return True
     return False
 
diff --git a/pyzx/rules.py b/pyzx/rules.py
index 93228b4..199ee8c 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -339,7 +339,7 @@ def match_w_fusion_parallel(
         v0, v1 = g.edge_st(e)
         v0t = types[v0]
         v1t = types[v1]
-        if vertex_is_w(v0t) and vertex_is_w(v1t):
+        if vertex_is_w(v0t) and vertex_is_w(v1t) and w_fusable(g, v0, v1):
             i += 1
             candidates_to_remove: List[VT] = []
             candidates_to_remove.extend(list(g.neighbors(v0)))
@@ -351,6 +351,16 @@ def match_w_fusion_parallel(
             m.append((v0,v1))
     return m
 
+def w_fusable(g: BaseGraph[VT,ET], v0: VT, v1: VT) -> bool:
+    """Whether the W nodes of v0 and v1 are different, and only connected by a regular
+    edge from an output of one to the input of the other."""
+    v0_in, v0_out = get_w_io(g, v0)
+    v1_in, v1_out = get_w_io(g, v1)
+    if v0_in == v1_in or g.connected(v0_out, v1_out): return False
+    if g.connected(v0_in, v1_out) == g.connected(v0_out, v1_in): return False
+    e = g.edge(v0_in, v1_out) if g.connected(v0_in, v1_out) else g.edge(v0_out, v1_in)
+    return g.edge_type(e) == EdgeType.SIMPLE
+
 def w_fusion(g: BaseGraph[VT,ET], matches: List[MatchSpiderType[VT]]) -> RewriteOutputType[VT,ET]:
     '''Performs W fusion given a list of matchings from ``match_w_fusion(_parallel)``
     '''
-- 
2.43.0


From ae56d6b501105d053b58e623ff91ec92b200e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 09/76] fix: isolated Z-boxes were turned into the wrong
 scalar; W fusion found interacting matches

---
 pyzx/graph/base.py | 14 ++++++++++++--
 pyzx/rules.py      |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 7420213..003b8b6 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -28,7 +28,7 @@ from ..utils import EdgeType, VertexType, get_z_box_label, set_z_box_label, togg
 from ..utils import FloatInt, FractionLike
 from ..tensor import tensorfy, tensor_to_matrix
 
-from .scalar import Scalar
+from .scalar import Scalar, cexp
 
 if TYPE_CHECKING:
     from .. import simplify
@@ -778,6 +778,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     raise TypeError("Diagram is not a well-typed ZX-diagram: contains isolated boundary vertex.")
                 elif ty == VertexType.H_BOX:
                     self.scalar.add_phase(self.phase(v))
+                elif ty == VertexType.Z_BOX:
+                    self.scalar.add_float(1+complex(get_z_box_label(self, v)))
                 else: self.scalar.add_node(self.phase(v))
             if d == 1: # It has a unique neighbor
                 if v in rem: continue # Already taken care of
@@ -793,7 +795,15 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 t2 = self.type(w)
                 if t1 == VertexType.H_BOX: t1 = VertexType.Z # 1-ary H-box is just a Z spider
                 if t2 == VertexType.H_BOX: t2 = VertexType.Z
-                if t1==t2:
+                if VertexType.Z_BOX in (t1, t2):
+                    l1, l2 = (complex(get_z_box_label(self, u)) if self.type(u) == VertexType.Z_BOX else cexp(self.phase(u))
+                              for u in (v,w))
+                    if (et == EdgeType.SIMPLE) == (vertex_is_z_like(t1) and vertex_is_z_like(t2)):
+                        self.scalar.add_float(1+l1*l2)
+                    else:
+                        self.scalar.add_power(-1)
+                        self.scalar.add_float(1+l1+l2-l1*l2)
+                elif t1==t2:
                     if et == EdgeType.SIMPLE:
                         self.scalar.add_node(self.phase(v)+self.phase(w))
                     else:
diff --git a/pyzx/rules.py b/pyzx/rules.py
index 199ee8c..f77ffa3 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -346,6 +346,7 @@ def match_w_fusion_parallel(
             candidates_to_remove.extend(list(g.neighbors(v1)))
             candidates_to_remove.extend(list(g.neighbors(get_w_partner(g, v0))))
             candidates_to_remove.extend(list(g.neighbors(get_w_partner(g, v1))))
+            candidates_to_remove.extend([get_w_partner(g, v) for v in candidates_to_remove if vertex_is_w(types[v])])
             for v in candidates_to_remove:
                 for c in g.incident_edges(v): candidates.discard(c)
             m.append((v0,v1))
-- 
2.43.0


From 8d485d8a8fcb5a723ec71094de68929cef485326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 10/76] fix: match_lcomp ignored the bound on the number of
 matches, match_pivot_gadget clobbered its counter

---
 pyzx/rules.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index f77ffa3..06e7caa 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -512,13 +512,13 @@ def match_pivot_gadget(
         if len(v1n) == 1: continue # It is a phase gadget
         bad_match = False
         discard_edges: List[ET] = []
-        for i,l in enumerate((v0n, v1n)):
+        for j,l in enumerate((v0n, v1n)):
             for n in l:
                 if types[n] != VertexType.Z:
                     bad_match = True
                     break
                 ne = list(g.incident_edges(n))
-                if i==0 and len(ne) == 1 and not (e == ne[0]): # v0 is a phase gadget
+                if j==0 and len(ne) == 1 and not (e == ne[0]): # v0 is a phase gadget
                     bad_match = True
                     break
                 discard_edges.extend(ne)
@@ -745,6 +745,7 @@ def match_lcomp_parallel(
 
         for n in vn: candidates.discard(n)
         m.append((v,vn))
+        i += 1
     return m
 
 def lcomp(g: BaseGraph[VT,ET], matches: List[MatchLcompType[VT]]) -> RewriteOutputType[VT,ET]:
-- 
2.43.0


From 3931425e7c96ebe8d63d46bc1293d057ec0c0c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 11/76] fix: multigraph copies shared edge objects and lost
 data; parallel and self-loop edges resolved wrongly; edge queries

---
 pyzx/graph/multigraph.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index e3eaf1a..6df4ac8 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -83,8 +83,12 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
 
     def clone(self) -> 'Multigraph':
         cpy = Multigraph()
+        cpy._auto_simplify = self._auto_simplify
+        for v in self.graph: cpy.graph[v] = dict()
         for v, d in self.graph.items():
-            cpy.graph[v] = d.copy()
+            for w, e in d.items():
+                if w >= v: # the edge object is shared between both directions
+                    cpy.graph[v][w] = cpy.graph[w][v] = Edge(e.s, e.h, e.w_io)
         cpy._vindex = self._vindex
         cpy.nedges = self.nedges
         cpy.ty = self.ty.copy()
@@ -93,10 +97,13 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         cpy._maxq = self._maxq
         cpy._rindex = self._rindex.copy()
         cpy._maxr = self._maxr
-        cpy._vdata = self._vdata.copy()
+        cpy._grounds = self._grounds.copy()
+        cpy._vdata = {v: d.copy() for v, d in self._vdata.items()}
         cpy.scalar = self.scalar.copy()
         cpy._inputs = tuple(list(self._inputs))
         cpy._outputs = tuple(list(self._outputs))
+        cpy.merge_vdata = self.merge_vdata
+        cpy.variable_types = self.variable_types.copy()
         cpy.track_phases = self.track_phases
         cpy.phase_index = self.phase_index.copy()
         cpy.phase_master = self.phase_master
@@ -188,17 +195,17 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
                     self.scalar.add_power(-e.h)
                     e.h = 0
                 else: # apply spider and hopf to merge/cancel parallel edges
-                    if t1 == t2:
+                    if vertex_is_z_like(t1) == vertex_is_z_like(t2):
                         e.s = 1 if e.s > 0 else 0
-                        self.scalar.add_power(-2 * (e.h - (e.h % 2)))
+                        self.scalar.add_power(-(e.h - (e.h % 2)))
                         e.h = e.h % 2
                     else:
                         e.h = 1 if e.h > 0 else 0
-                        self.scalar.add_power(-2 * (e.s - (e.s % 2)))
+                        self.scalar.add_power(-(e.s - (e.s % 2)))
                         e.s = e.s % 2
             if e.is_empty():
                 del self.graph[s][t]
-                del self.graph[t][s]
+                if s != t: del self.graph[t][s]
 
         return (s,t, edgetype) if s <= t else (t,s,edgetype)
 
@@ -253,8 +260,8 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         return len(self.graph)
 
     def num_edges(self):
-        return self.nedges
-        #return len(self.edge_set())
+        #return self.nedges
+        return sum(1 for _ in self.edges())
 
     def vertices(self):
         return self.graph.keys()
@@ -275,7 +282,9 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
                         for _ in range(e.s): yield (v0, v1, EdgeType.SIMPLE)
                         for _ in range(e.h): yield (v0, v1, EdgeType.HADAMARD)
                         for _ in range(e.w_io): yield (v0, v1, EdgeType.W_IO)
-        elif t != None:
+        elif t == None:
+            for v1 in self.graph[s]: yield from self.edges(s, v1)
+        elif t in self.graph[s]:
             s, t = (s, t) if s < t else (t, s)
             e = self.graph[s][t]
             for _ in range(e.s): yield (s, t, EdgeType.SIMPLE)
@@ -305,6 +314,8 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
     #                        yield (v0,v1)
 
     def edge(self, s, t):
+        edges = list(self.edges(s, t))
+        if len(edges) == 1: return edges[0]
         return (s,t) if s < t else (t,s)
 
     def edge_set(self):
@@ -318,9 +329,8 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
 
     def vertex_degree(self, vertex):
         d = 0
-        for e in self.graph[vertex].values():
-            d += e.s
-            d += e.h
+        for v1, e in self.graph[vertex].items():
+            d += (e.s + e.h + e.w_io) * (2 if v1 == vertex else 1)
         return d
 
     def incident_edges(self, vertex):
-- 
2.43.0


From d8c705983db9af4a529c9fb6ddd0f6da13f64787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:57 +0000
Subject: [PATCH 12/76] fix: simple graph clones lost grounds and shared vertex
 data; add_edges overwrote parallel edges; self-loops

---
 pyzx/graph/graph_s.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 902479c..7f314c8 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -56,10 +56,13 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
         cpy._maxq = self._maxq
         cpy._rindex = self._rindex.copy()
         cpy._maxr = self._maxr
-        cpy._vdata = self._vdata.copy()
+        cpy._grounds = self._grounds.copy()
+        cpy._vdata = {v: d.copy() for v, d in self._vdata.items()}
         cpy.scalar = self.scalar.copy()
         cpy._inputs = tuple(list(self._inputs))
         cpy._outputs = tuple(list(self._outputs))
+        cpy.merge_vdata = self.merge_vdata
+        cpy.variable_types = self.variable_types.copy()
         cpy.track_phases = self.track_phases
         cpy.phase_index = self.phase_index.copy()
         cpy.phase_master = self.phase_master
@@ -114,14 +117,21 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
         self._phase[v] = 0
 
     def add_edges(self, edge_pairs, edgetype=EdgeType.SIMPLE):
-        for s,t in edge_pairs:
-            self.nedges += 1
-            self.graph[s][t] = edgetype
-            self.graph[t][s] = edgetype
-    
+        for ep in edge_pairs: self.add_edge(ep, edgetype)
+
     def add_edge(self, edge_pair, edgetype=EdgeType.SIMPLE):
         s,t = edge_pair
-        if not t in self.graph[s]:
+        if s == t:
+            # simple graphs have no self-loops: a regular one disappears, a Hadamard one becomes a pi phase
+            if not vertex_is_zx_like(self.ty[s]):
+                raise ValueError(f'Attempted to add unreducible self-loop {edge_pair}, type: {self.ty[s]}')
+            if edgetype == EdgeType.HADAMARD:
+                if self.ty[s] == VertexType.Z_BOX:
+                    set_z_box_label(self, s, get_z_box_label(self, s) * -1)
+                else:
+                    self.add_to_phase(s, 1)
+                self.scalar.add_power(-1)
+        elif not t in self.graph[s]:
             self.nedges += 1
             self.graph[s][t] = edgetype
             self.graph[t][s] = edgetype
@@ -159,7 +169,7 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
                 raise ValueError(f'Attempted to add unreducible parallel edge {edge_pair}, types: {t1}, {t2}')
 
 
-        return edge_pair
+        return self.edge(s,t)
 
     def remove_vertices(self, vertices):
         for v in vertices:
-- 
2.43.0


From aedd1e71bce1a7672facaf448127eaa25950e455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:57 +0000
Subject: [PATCH 13/76] fix: composing diagrams with bent wires dropped the
 wire

---
 pyzx/graph/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 003b8b6..7f5d787 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -282,6 +282,14 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
             no = next(iter(self.neighbors(o)))
             ni = next(iter(other.neighbors(i)))
             plugs.append((no, ni, EdgeType.HADAMARD
+            for g, b, plugged in ((self,o,outputs), (other,i,inputs)):
+                n = next(iter(g.neighbors(b)))
+                if n in plugged: # A bent wire, which we straighten by adding an identity spider
+                    et = g.edge_type(g.edge(b,n))
+                    g.remove_edge(g.edge(b,n))
+                    w = g.add_vertex(VertexType.Z, g.qubit(b), g.row(b))
+                    g.add_edge((b,w))
+                    g.add_edge((w,n), et)
                 if self.edge_type(self.edge(no,o)) != other.edge_type(other.edge(i,ni))
                 else EdgeType.SIMPLE))
 
-- 
2.43.0


From 73ebcfe6a0cef2bdc19e3309f939e5c706e59ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:57 +0000
Subject: [PATCH 14/76] fix: copy, tensor, merge, subgraph and is_id lost
 vertex data, grounds, the scalar, Z-box conjugates or edge types

---
 pyzx/graph/base.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 7f5d787..f4732f7 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -152,6 +152,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         g.track_phases = self.track_phases
         g.scalar = self.scalar.copy(conjugate=adjoint)
         g.merge_vdata = self.merge_vdata
+        g.variable_types = self.variable_types.copy()
         mult:int = 1
         if adjoint:
             mult = -1
@@ -172,6 +173,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
             vtab[v] = i
             for k in self.vdata_keys(v):
                 g.set_vdata(i, k, self.vdata(v, k))
+            if adjoint and ty[v] == VertexType.Z_BOX:
+                set_z_box_label(g, i, np.conjugate(get_z_box_label(g, i)))
         for v in self.grounds():
             g.set_ground(vtab[v], True)
 
@@ -279,9 +282,6 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 raise ValueError("Bad output vertex: " + str(o))
             if len(other.neighbors(i)) != 1:
                 raise ValueError("Bad input vertex: " + str(i))
-            no = next(iter(self.neighbors(o)))
-            ni = next(iter(other.neighbors(i)))
-            plugs.append((no, ni, EdgeType.HADAMARD
             for g, b, plugged in ((self,o,outputs), (other,i,inputs)):
                 n = next(iter(g.neighbors(b)))
                 if n in plugged: # A bent wire, which we straighten by adding an identity spider
@@ -290,6 +290,9 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     w = g.add_vertex(VertexType.Z, g.qubit(b), g.row(b))
                     g.add_edge((b,w))
                     g.add_edge((w,n), et)
+            no = next(iter(self.neighbors(o)))
+            ni = next(iter(other.neighbors(i)))
+            plugs.append((no, ni, EdgeType.HADAMARD
                 if self.edge_type(self.edge(no,o)) != other.edge_type(other.edge(i,ni))
                 else EdgeType.SIMPLE))
 
@@ -337,8 +340,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         vdata = other._vdata
         vertex_map = dict()
         for v in other.vertices():
-            w = g.add_vertex(ts[v],qs[v]+height,rs[v],phases[v],g.is_ground(v))
-            if v in vdata: g._vdata[w] = vdata[v]
+            w = g.add_vertex(ts[v],other.qubit(v)+height,other.row(v),phases[v],other.is_ground(v))
+            if v in vdata: g._vdata[w] = vdata[v].copy()
             vertex_map[v] = w
         for e in other.edges():
             s,t = other.edge_st(e)
@@ -390,13 +393,14 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         vert_map = dict()
         edges = []
         for v in other.vertices():
-            w = self.add_vertex(ty[v],qs[v],rs[v],phase[v],v in grounds)
+            w = self.add_vertex(ty[v],other.qubit(v),other.row(v),phase[v],v in grounds)
+            for k in other.vdata_keys(v): self.set_vdata(w, k, other.vdata(v, k))
             vert_map[v] = w
         for e in other.edges():
             s,t = other.edge_st(e)
             f = (vert_map[s],vert_map[t])
-            self.add_edge(f,other.edge_type(e))
-            edges.append(e)
+            edges.append(self.add_edge(f,other.edge_type(e)))
+        self.scalar.mult_with_scalar(other.scalar)
         return (list(vert_map.values()),edges)
 
     def subgraph_from_vertices(self,verts: List[VT]) -> 'BaseGraph':
@@ -418,11 +422,12 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
 
         vert_map = dict()
         for v in verts:
-            w = g.add_vertex(ty[v],qs[v],rs[v],phase[v],v in grounds)
+            w = g.add_vertex(ty[v],self.qubit(v),self.row(v),phase[v],v in grounds)
+            for k in self.vdata_keys(v): g.set_vdata(w, k, self.vdata(v, k))
             vert_map[v] = w
         for e in edges:
             s,t = self.edge_st(e)
-            f = g.edge(vert_map[s],vert_map[t])
+            f = (vert_map[s],vert_map[t])
             g.add_edge(f,self.edge_type(e))
 
         return g
@@ -545,6 +550,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
 
         for i in range(len(inputs)):
             if not self.connected(inputs[i], outputs[i]): return False
+            if self.edge_type(self.edge(inputs[i], outputs[i])) != EdgeType.SIMPLE: return False
         return True
 
     def vindex(self) -> VT:
-- 
2.43.0


From 870d0e03699c246c54d9c37dc60383d7a54f83fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 15/76] fix: add_edges tolerates edges of plain graphs listed
 in both directions

---
 pyzx/graph/graph_s.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 7f314c8..5c12bc2 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -117,7 +117,10 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
         self._phase[v] = 0
 
     def add_edges(self, edge_pairs, edgetype=EdgeType.SIMPLE):
-        for ep in edge_pairs: self.add_edge(ep, edgetype)
+        for s,t in edge_pairs:
+            if t in self.graph[s] and self.ty[s] == self.ty[t] == VertexType.BOUNDARY:
+                continue # plain graphs, such as architectures, list their edges in both directions
+            self.add_edge((s,t), edgetype)
 
     def add_edge(self, edge_pair, edgetype=EdgeType.SIMPLE):
         s,t = edge_pair
-- 
2.43.0


From deb12725a57a4fe1253b7c4e8d8a2ebbabeb7355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 16/76] fix: copy rule did nothing for non-Pauli spiders while
 reporting success; colour change of self-loops

---
 pyzx/basicrules.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index bdb9424..a727cc4 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -74,6 +74,7 @@ def color_change(g: BaseGraph[VT,ET], v: VT) -> bool:
 
     g.set_type(v, toggle_vertex(g.type(v)))
     for e in g.incident_edges(v):
+        if g.edge_st(e) == (v,v): continue # both ends of a self-loop get a Hadamard
         g.set_edge_type(e, toggle_edge(g.edge_type(e)))
 
     return True
@@ -132,9 +133,12 @@ def check_copy_X(g: BaseGraph[VT,ET], v: VT) -> bool:
 def copy_X(g: BaseGraph[VT,ET], v: VT) -> bool:
     if not check_copy_X(g, v): return False
     nv = next(iter(g.neighbors(v)))
-    strong_comp(g, v, nv)
+    if not is_pauli(g.phase(nv)): # any phase is copied through: it only contributes to the scalar
+        if g.phase(v) == 1:
+            g.scalar.add_phase(g.phase(nv))
+        g.set_phase(nv, 0)
 
-    return True
+    return strong_comp(g, v, nv)
 
 def check_pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
     return g.type(v) == VertexType.Z
-- 
2.43.0


From d81f0f5f086c99e08b20f558a5081e7b6c46c82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 17/76] fix: editor operations: interacting Pauli, Hadamard and
 H-box matches; bialgebra and Pauli scalar for H-boxes; W edges

---
 pyzx/editor_actions.py | 10 ++++++----
 pyzx/hrules.py         |  6 +++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index 25b119f..956e506 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -84,8 +84,9 @@ def pauli_matcher(
                 (et == EdgeType.HADAMARD and types[w] == VertexType.Z)))
             ):
             m.append((w,v))
-            candidates.difference_update(g.neighbors(v))
-            candidates.difference_update(g.neighbors(w))
+            for n in [v,w]: # Matches must not touch each other's vertices
+                candidates.difference_update(g.neighbors(n))
+                paulis.difference_update(g.neighbors(n))
     return m
 
 
@@ -131,6 +132,7 @@ def pauli_push(g: BaseGraph[VT,ET],
         if not vertex_is_zx(g.type(v)): # v is H_BOX
             if len(new_verts) == 2:
                 etab[upair(new_verts[0],new_verts[1])] = [0,1]
+                g.scalar.add_power(1) # Correct for sqrt(2) scalar difference in H-edge and H-box.
             else:
                 r = (g.row(v) + sum(g.row(n) for n in new_verts)) / (len(new_verts) + 1)
                 q = (g.qubit(v) + sum(g.qubit(n) for n in new_verts))/(len(new_verts)+1)
@@ -154,7 +156,7 @@ def match_edge(
         ) -> List[ET]:
     if edgef is not None: candidates = set([e for e in g.edges() if edgef(e)])
     else: candidates = g.edge_set()
-    return list(candidates)
+    return [e for e in candidates if g.edge_type(e)!=EdgeType.W_IO]
 
 
 def euler_expansion(g: BaseGraph[VT,ET], 
@@ -273,7 +275,7 @@ def bialgebra(g: BaseGraph[VT,ET],
             g.scalar.add_power((g.vertex_degree(v)-2)*(g.vertex_degree(w)-2))
         else: #g.type(w) == VertexType.H_BOX
             t = VertexType.Z
-            g.scalar.add_power(g.vertex_degree(v)-2)
+            g.scalar.add_power(-(g.vertex_degree(v)-2))
         for n in g.neighbors(w):
             if n == v: continue
             r = 0.6*g.row(w) + 0.4*g.row(n)
diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 13d36f4..da36a6b 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -35,7 +35,7 @@ def match_hadamards(g: BaseGraph[VT,ET],
     for v in candidates:
         if ty[v] == VertexType.H_BOX and g.vertex_degree(v) == 2 and g.phase(v) == 1:
             n1,n2 = g.neighbors(v)
-            if n1 in taken or n2 in taken: continue
+            if v in taken or n1 in taken or n2 in taken: continue
             if n1 not in m and n2 not in m: 
                 m.add(v)
                 taken.add(n1)
@@ -75,8 +75,8 @@ def match_connected_hboxes(g: BaseGraph[VT,ET],
         if ty[v1] != VertexType.H_BOX or ty[v2] != VertexType.H_BOX: continue
         if g.phase(v1) != 1 and g.phase(v2) != 1: continue
         m.add(e)
-        candidates.difference_update(g.incident_edges(v1))
-        candidates.difference_update(g.incident_edges(v2))
+        for n in set(g.neighbors(v1)) | set(g.neighbors(v2)):
+            candidates.difference_update(g.incident_edges(n))
     return list(m)
 
 def fuse_hboxes(g: BaseGraph[VT,ET], matches: List[ET]) -> rules.RewriteOutputType[VT,ET]:
-- 
2.43.0


From bd82ef7dffec052746cf457bf63c1920a1996eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 18/76] fix: ZH rules: intro, parallel NOT, hyperpivot scalar
 and boundaries, H-box fusion into spiders over Hadamard edges

---
 pyzx/hrules.py    | 13 +++++++++----
 pyzx/hsimplify.py |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index da36a6b..59cfcbe 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -235,6 +235,7 @@ def match_hbox_parallel_not(
             if g.vertex_degree(n) != 2 or phases[n] != 1: continue # If it turns out to be useful, this rule can be generalised to allow spiders of arbitrary phase here
             v = [v for v in g.neighbors(n) if v != h][0] # The other neighbor of n
             if not g.connected(v,h): continue
+            if types[v] != VertexType.Z or g.edge_type(g.edge(v,h)) != EdgeType.SIMPLE: continue
             if not is_NOT_gate(g,n,h,v):
                 continue
             break
@@ -403,6 +404,7 @@ def match_par_hbox_intro(
             vs = neighbors_regular.symmetric_difference(neighbors_regular2)
             if g.phase(h) != g.phase(h2): continue  # TODO: Allow intro rule with different phases.
             if len(neighbors_single) != len(neighbors_single2): continue  # TODO: Allow different sets of neighbours here.
+            if neighbors_NOT.symmetric_difference(neighbors_NOT2) != vs: continue
             if len(vs) != 1: # To use the Intro rule, the H-boxes should differ on exactly one position on where there are NOTs.
                 continue
             # We have a match!
@@ -480,6 +482,7 @@ def match_hpivot(
         ): continue
 
         v0, v1 = g.neighbors(h)
+        if types[v0] != VertexType.Z or types[v1] != VertexType.Z: continue
 
         v0n = set(g.neighbors(v0))
         v1n = set(g.neighbors(v1))
@@ -542,7 +545,8 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
     h, v0, v1, v0b, v1b, v0nn, v1nn = m[0]
     g.remove_vertices([v for v in g.neighbors(v0) if types[v] == VertexType.H_BOX])
     g.remove_vertices([v for v in g.neighbors(v1) if types[v] == VertexType.H_BOX])
-    g.scalar.add_power(2) # Applying a Fourier Hyperpivot adds a scalar of 2
+    # Applying a Fourier Hyperpivot adds a scalar of 2, and sqrt(2) less for a boundary
+    g.scalar.add_power(2 - len(v0b) - len(v1b))
     
     if len(v0b) == 0:
         g.remove_vertex(v0)
@@ -564,10 +568,11 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
             f_phase = (phase * phase_mult) % 2
             if f_phase == 0: continue
             for vvs in combinations(v0nn, weight):
-                us = tuple(sorted(sum(vvs, ws)))
+                us = tuple(sorted(set(sum(vvs, ws))))
 
-                # TODO: check if this is the right thing to do (and update scalar)
-                if len(us) == 0: continue
+                if len(us) == 0: # An H-box without legs is just a scalar
+                    g.scalar.add_phase(f_phase)
+                    continue
 
                 # if us in hboxes:
                 #     h0 = hboxes[us]
diff --git a/pyzx/hsimplify.py b/pyzx/hsimplify.py
index f20e572..a049b99 100644
--- a/pyzx/hsimplify.py
+++ b/pyzx/hsimplify.py
@@ -118,7 +118,7 @@ def from_hypergraph_form(g: BaseGraph[VT,ET]) -> None:
     for h in hs:
         if g.vertex_degree(h) == 1:
             n = next(iter(g.neighbors(h)))
-            if types[n] == VertexType.Z:
+            if types[n] == VertexType.Z and g.edge_type(g.edge(h,n)) == EdgeType.SIMPLE:
                 g.set_phase(n, phases[n] + phases[h])
                 g.remove_vertex(h)
     hadamard_simp(g,quiet=True)
-- 
2.43.0


From d8aae4ac332c4d344bc9ace63b25673fb3a4f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 19/76] fix: teleport_reduce lost the sign of a fused phase
 that was moved to another vertex

---
 pyzx/simplify.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 6e6c05b..dbb6515 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -251,10 +251,11 @@ class Simplifier(Generic[VT, ET]):
                 self.mastergraph.phase_index[v3] = i1
                 del self.mastergraph.phase_index[v1]
                 p1 = self.mastergraph.phase(v3)
-                if (p1+p2).denominator <= 2:
+                m1 = cast(Literal[1, -1], m1*self.simplifygraph.phase_mult[i3])
+                self.simplifygraph.phase_mult[i1] = m1 # v3 is now referred to by i1
+                if (p1+m1*m2*p2).denominator <= 2:
                     del self.phantom_phases[v1]
                 v1,i1 = v3,i3
-                m1 = cast(Literal[1, -1], m1*self.simplifygraph.phase_mult[i3])
             else:
                 self.phantom_phases[v1] = (v2,i2)
                 self.simplifygraph.phase_mult[i2] = m2
-- 
2.43.0


From 0eb8979528fecb9db6a3ee4639d95da97153cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 20/76] fix: gates: wrong adjoints (CSX, U2, U3, CU3, CU,
 FSim), repositioning of RZZ and FSim, T-counts of composite gates, equality,
 measurements; tensor lost bits; reading back XCX

---
 pyzx/circuit/__init__.py    |  4 +--
 pyzx/circuit/gates.py       | 72 +++++++++++++++++++++++--------------
 pyzx/circuit/graphparser.py |  2 +-
 3 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 1d349bf..687ec8d 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -185,7 +185,7 @@ class Circuit(object):
             other = c2
         if not isinstance(other,Circuit):
             raise Exception("Cannot tensor type", type(other), "to Circuit")
-        c = Circuit(self.qubits + other.qubits)
+        c = Circuit(self.qubits + other.qubits, bit_amount=self.bits + other.bits)
         c.gates = [g.copy() for g in self.gates]
         mask = [i+self.qubits for i in range(other.qubits)]
         bit_mask = [i+self.bits for i in range(other.bits)]
@@ -201,7 +201,7 @@ class Circuit(object):
         return c
 
     def split_phase_gates(self) -> 'Circuit':
-        c = Circuit(self.qubits, name=self.name)
+        c = Circuit(self.qubits, name=self.name, bit_amount=self.bits)
         for g in self.gates:
             if isinstance(g, (ZPhase, XPhase)):
                 c.gates.extend(g.split_phases())
diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index d4972e6..102c602 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -167,7 +167,7 @@ class Gate(object):
 
     def __eq__(self, other: object) -> bool:
         if type(self) != type(other): return False
-        for a in ["target","control","phase","adjoint"]:
+        for a in ["target","control","phase","adjoint","theta","phi","rho","gamma","label"]:
             if hasattr(self,a):
                 if not hasattr(other,a): return False
                 if getattr(self,a) != getattr(other,a): return False
@@ -209,7 +209,9 @@ class Gate(object):
         return g
 
     def tcount(self) -> int:
-        return 0
+        gates = self.to_basic_gates()
+        if len(gates) == 1: return 0
+        return sum(g.tcount() for g in gates)
 
     def reposition(self: Tvar, mask: List[int], bit_mask: Optional[List[int]] = None) -> Tvar:
         g = self.copy()
@@ -454,15 +456,21 @@ class SX(XPhase):
 class CSX(Gate):
     name = 'CSX'
     qasm_name = 'csx'
-    def __init__(self, control: int, target: int) -> None:
+    def __init__(self, control: int, target: int, adjoint: bool=False) -> None:
         self.target = target
         self.control = control
+        self.adjoint = adjoint
 
     def to_basic_gates(self):
         return [HAD(self.target)] + \
-               CPhase(self.control,self.target,Fraction(1,2)).to_basic_gates() + \
+               CPhase(self.control,self.target,Fraction(1,2)*(-1 if self.adjoint else 1)).to_basic_gates() + \
                [HAD(self.target)]
 
+    def to_qasm(self):
+        if self.adjoint: # There is no standard name for the adjoint
+            return "\n".join(g.to_qasm() for g in self.to_basic_gates())
+        return super().to_qasm()
+
     def to_graph(self, g, q_mapper, c_mapper):
         for gate in self.to_basic_gates():
             gate.to_graph(g, q_mapper, c_mapper)
@@ -657,9 +665,9 @@ class CRX(Gate):
     def to_basic_gates(self):
         return [ZPhase(self.target,Fraction(1,2)),
                 CNOT(self.control,self.target)] + \
-               U3(self.target,-self.phase/2,0,0).to_basic_gates() + \
+               U3(self.target,Fraction(-1,2)*self.phase,0,0).to_basic_gates() + \
                [CNOT(self.control,self.target)] + \
-               U3(self.target,self.phase/2,Fraction(-1,2),0).to_basic_gates()
+               U3(self.target,Fraction(1,2)*self.phase,Fraction(-1,2),0).to_basic_gates()
 
     def to_graph(self, g, q_mapper, c_mapper):
         for gate in self.to_basic_gates():
@@ -675,9 +683,9 @@ class CRY(Gate):
         self.phase = phase
 
     def to_basic_gates(self):
-        return YPhase(self.target,self.phase/2).to_basic_gates() + \
+        return YPhase(self.target,Fraction(1,2)*self.phase).to_basic_gates() + \
                [CNOT(self.control,self.target)] + \
-               YPhase(self.target,-self.phase/2).to_basic_gates() + \
+               YPhase(self.target,Fraction(-1,2)*self.phase).to_basic_gates() + \
                [CNOT(self.control,self.target)]
 
     def to_graph(self, g, q_mapper, c_mapper):
@@ -818,14 +826,17 @@ class RZZ(ParityPhase):
         self.targets = (control, target)
         self.phase = phase
 
+    def reposition(self, mask, bit_mask = None):
+        return RZZ(mask[self.control], mask[self.target], self.phase)
+
 
 class FSim(Gate):
     name = 'FSim'
     qsim_name = 'fs'
     print_phase = True
     def __init__(self, control:int, target:int, theta:FractionLike, phi:FractionLike):
-        # TODO: this version assumes theta is always (pi/2)
-        assert theta == Fraction(1, 2)
+        # TODO: this version assumes theta is always +-(pi/2)
+        assert theta in (Fraction(1, 2), Fraction(-1, 2))
         self.control = control
         self.target = target
         self.theta = theta
@@ -843,10 +854,8 @@ class FSim(Gate):
     def __str__(self) -> str:
         return "FSim({!s}, {!s}, {!s}, {!s})".format(self.control, self.target, self.theta, self.phi)
 
-    def reposition(self, mask, bit_mask = None):
-        g = self.copy()
-        g.targets = [mask[t] for t in g.targets]
-        return g
+    def to_adjoint(self):
+        return FSim(self.control, self.target, -self.theta, -self.phi)
 
     def to_basic_gates(self):
         # TODO
@@ -855,7 +864,7 @@ class FSim(Gate):
         return [self]
 
     def to_graph(self, g, q_mapper, _c_mapper):
-        # TODO: this version assumes theta is always (pi/2)
+        # TODO: this version assumes theta is always +-(pi/2)
         r = max(q_mapper.next_row(self.target), q_mapper.next_row(self.control))
         qmin = min(self.target,self.control)
         c0 = self.graph_add_node(g, q_mapper, VertexType.Z, self.control,r)
@@ -870,8 +879,8 @@ class FSim(Gate):
         pg0 = g.add_vertex(VertexType.Z, qmin+0.5,r+2)
         pg1 = g.add_vertex(VertexType.Z, qmin+0.5,r+3)
 
-        g.set_phase(c, Fraction(-1,2) * self.phi)
-        g.set_phase(t, Fraction(-1,2) * self.phi)
+        g.set_phase(c, Fraction(-1,2) * self.phi + (1 if self.theta < 0 else 0))
+        g.set_phase(t, Fraction(-1,2) * self.phi + (1 if self.theta < 0 else 0))
         g.set_phase(pg1, (Fraction(1,2) * self.phi) - Fraction(1,2))
 
         g.add_edge((c, pg0), EdgeType.HADAMARD)
@@ -932,8 +941,7 @@ class FSim(Gate):
         #    gate.to_graph(g, q_mapper, c_mapper)
 
     def tcount(self):
-        # TODO
-        return 0 #1 if self.phase.denominator > 2 else 0
+        return 3 if (Fraction(1,2) * self.phi).denominator > 2 else 0
 
 class CCZ(Gate):
     name = 'CCZ'
@@ -1056,6 +1064,9 @@ class U2(Gate):  # See https://arxiv.org/pdf/1707.03429.pdf
         self.phi = phi
         self.phases = [theta, phi]
 
+    def to_adjoint(self):
+        return U2(self.target, 1-self.phi, -1-self.theta)
+
     def to_basic_gates(self):
         return [ZPhase(self.target,phase=(self.phi-Fraction(1,2))%2),
                 XPhase(self.target,phase=Fraction(1,2)),
@@ -1076,6 +1087,9 @@ class U3(Gate):  # See equation (5) of https://arxiv.org/pdf/1707.03429.pdf
         self.rho = rho
         self.phases = [theta, phi, rho]
 
+    def to_adjoint(self):
+        return U3(self.target, -self.theta, -self.rho, -self.phi)
+
     def to_basic_gates(self):
         return [ZPhase(self.target,phase=self.rho),
                 XPhase(self.target,phase=Fraction(1,2)),
@@ -1100,13 +1114,16 @@ class CU3(Gate):
         self.rho = rho
         self.phases = [theta, phi, rho]
 
+    def to_adjoint(self):
+        return CU3(self.control, self.target, -self.theta, -self.rho, -self.phi)
+
     def to_basic_gates(self):
-        return [ZPhase(self.control,phase=(self.rho+self.phi)/2),
-                ZPhase(self.target, phase=(self.rho-self.phi)/2),
+        return [ZPhase(self.control,phase=Fraction(1,2)*(self.rho+self.phi)),
+                ZPhase(self.target, phase=Fraction(1,2)*(self.rho-self.phi)),
                 CNOT(self.control,self.target)] + \
-               U3(self.target,-self.theta/2,0,-(self.phi+self.rho)/2).to_basic_gates() + \
+               U3(self.target,Fraction(-1,2)*self.theta,0,Fraction(-1,2)*(self.phi+self.rho)).to_basic_gates() + \
                [CNOT(self.control, self.target)] + \
-               U3(self.target,self.theta/2,self.phi,0).to_basic_gates()
+               U3(self.target,Fraction(1,2)*self.theta,self.phi,0).to_basic_gates()
 
     def to_graph(self, g, q_mapper, c_mapper):
         for gate in self.to_basic_gates():
@@ -1128,6 +1145,9 @@ class CU(Gate):
         self.gamma = gamma
         self.phases = [theta, phi, rho, gamma]
 
+    def to_adjoint(self):
+        return CU(self.control, self.target, -self.theta, -self.rho, -self.phi, -self.gamma)
+
     def to_basic_gates(self):
         return [ZPhase(self.control,phase=self.gamma)] + \
                CU3(self.control,self.target,self.theta,self.phi,self.rho).to_basic_gates()
@@ -1189,7 +1209,7 @@ class Measurement(Gate):
         if not isinstance(other, Measurement): return False
         if self.target != other.target: return False
         if self.result_bit != other.result_bit: return False
-        return False
+        return True
 
     def reposition(self, mask, bit_mask = None):
         g = self.copy()
@@ -1204,7 +1224,7 @@ class Measurement(Gate):
             DiscardBit(self.result_bit).to_graph(g, q_mapper, c_mapper)
         # Qubit measurement
         r = q_mapper.next_row(self.target)
-        if self.result_bit is None:
+        if self.result_bit is not None:
             r = max(r, c_mapper.next_row(self.result_bit))
         v = self.graph_add_node(g,
             q_mapper,
@@ -1220,7 +1240,7 @@ class Measurement(Gate):
                 VertexType.X,
                 self.result_bit,
                 r)
-            g.add_edge(g.edge(v,u), EdgeType.SIMPLE)
+            g.add_edge((v,u), EdgeType.SIMPLE)
             c_mapper.set_next_row(self.result_bit, r+1)
 
 gate_types: Dict[str,Type[Gate]] = {
diff --git a/pyzx/circuit/graphparser.py b/pyzx/circuit/graphparser.py
index 1ccea9e..d49349d 100644
--- a/pyzx/circuit/graphparser.py
+++ b/pyzx/circuit/graphparser.py
@@ -77,7 +77,7 @@ def graph_to_circuit(g:BaseGraph[VT,ET], split_phases:bool=True) -> Circuit:
                     if g.edge_type(g.edge(v,n)) != EdgeType.HADAMARD:
                         raise TypeError("Invalid vertical connection between vertices of the same type")
                     if t == VertexType.Z: c.add_gate("CZ", q2, q)
-                    else: c.add_gate("CX", q2, q)
+                    else: c.add_gate("XCX", q2, q)
                 else:
                     if g.edge_type(g.edge(v,n)) != EdgeType.SIMPLE:
                         raise TypeError("Invalid vertical connection between vertices of different type")
-- 
2.43.0


From a4fe90c629fce78fdad4c5fbf26d8cad842cbb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 21/76] fix: teleport_reduce left phase tracking switched on in
 its argument and result, crashing later simplification

---
 pyzx/simplify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index dbb6515..0cc59da 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -221,9 +221,13 @@ def teleport_reduce(g: BaseGraph[VT,ET], quiet:bool=True, stats:Optional[Stats]=
 class Simplifier(Generic[VT, ET]):
     """Class used for :func:`teleport_reduce`."""
     def __init__(self, g: BaseGraph[VT,ET]) -> None:
+        tracked = g.track_phases
         g.track_phases = True
         self.mastergraph = g.copy()
         self.simplifygraph = g.copy()
+        # Only the graph being simplified has to keep track of its phases from here on
+        g.track_phases = tracked
+        self.mastergraph.track_phases = tracked
         self.simplifygraph.set_phase_master(self)
         self.phantom_phases: Dict[VT, Tuple[VT,int]] = dict()
 
-- 
2.43.0


From 5e4c45e98fbd2712f83726e06522fa4ecf6ecbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 22/76] fix: Mat2.to_cnots crashed on one-row matrices

---
 pyzx/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/linalg.py b/pyzx/linalg.py
index 994bfea..340dc3f 100644
--- a/pyzx/linalg.py
+++ b/pyzx/linalg.py
@@ -350,12 +350,12 @@ class Mat2(object):
             cn = CNOTMaker()
             blocksize = 5
             if use_log_blocksize:
-                blocksize = int(math.log2(self.rows()))
+                blocksize = max(1, int(math.log2(max(1, self.rows()))))
             self.copy().gauss(full_reduce=True,x=cn, blocksize=blocksize)
         else:
             best = 1000000
             best_cn = None
-            for size in range(1,self.rows()):
+            for size in range(1,max(2,self.rows())):
                 cn = CNOTMaker()
                 assert cn is not None
                 self.copy().gauss(full_reduce=True,x=cn, blocksize=size)
-- 
2.43.0


From f34a948f27331ea8244d71bfd1908f5a61929539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 23/76] fix: lookahead extraction crashed on diagrams of only
 wires

---
 pyzx/extract.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyzx/extract.py b/pyzx/extract.py
index c1de2ec..e7ccb2d 100644
--- a/pyzx/extract.py
+++ b/pyzx/extract.py
@@ -1352,6 +1352,13 @@ def lookahead_extract_base(
         frontier.append(v)
         qubit_map[v] = i
 
+    if not frontier:  # There are only wires, so there is nothing to look ahead for
+        c1 = graph_to_swaps(g, up_to_perm)
+        d1 = get_optimize_value(c1, optimize_for_depth, True)
+        if d1 < best_d or best_d == -1:
+            best_c = c1
+        return best_c
+
     roots: List[Optional[LookaheadNode]] =\
         [LookaheadNode(g, Circuit(len(inputs)), frontier, qubit_map, gadgets, optimize_for_depth, hard_limit)]
 
-- 
2.43.0


From f1d3f7ec5ec2ae1b0d214c5611059a7a0133090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:00 +0000
Subject: [PATCH 24/76] fix: Steiner tree CNOT routing failed or gave wrong
 circuits on architectures without a Hamiltonian path; shortest paths were not
 shortest

---
 pyzx/routing/architecture.py | 27 +++++++++++++++------------
 pyzx/routing/steiner.py      | 11 ++---------
 2 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 28fbfce..99de9e0 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -129,17 +129,20 @@ class Architecture():
             until indicates the number of qubits to consider, for "full" the distance is calculated only between qubits with index <= until),
             and for "upper" the distance is calculated only between qubits with index >= until)
         """
-        return {"upper": [self.floyd_warshall(self.vertices[until:], upper=True) for until, v in enumerate(self.vertices)],
-                "full": [self.floyd_warshall(self.vertices[:until+1], upper=False) for until, v in enumerate(self.vertices)]}
+        vertices = [self.qubit2vertex(q) for q in range(len(self.qubit_map))] # vertices[q] is the vertex of qubit q
+        return {"upper": [self.floyd_warshall(vertices[until:], upper=True) for until, v in enumerate(vertices)],
+                "full": [self.floyd_warshall(vertices[:until+1], upper=False) for until, v in enumerate(vertices)]}
 
     def _get_reduce_order(self) -> List[int]:
         vertices = list(sorted(self.vertices, reverse=True, key=self.vertex2qubit)) # sort qubits from large to small
-        # Pick leaf with largest label every time.
+        # The parent of each vertex in the DFT tree is its neighbor with the smallest larger label, see _place_qubits
+        parents: Dict[int, Optional[int]] = {v: min((n for n in self.get_neighboring_vertices(v) if self.vertex2qubit(n) > self.vertex2qubit(v)),
+                          key=self.vertex2qubit, default=None) for v in vertices}
+        # Pick leaf with largest label every time. The root of the tree also counts as a leaf when it has a single child.
         reduce_order = []
         while vertices:
-            all_cutting = self._is_cutting(vertices) # Get which vertices are cutting
-            # All False indices correspond to a leaf, we want the first one
-            leaf = all_cutting.index(False)
+            remaining_parents = [parents[v] for v in vertices]
+            leaf = next(i for i, v in enumerate(vertices) if remaining_parents.count(v) <= (1 if i == 0 else 0))
             # Which logical qubit is stored in the leaf node?
             reduce_order.append(self.vertex2qubit(vertices[leaf]))
             del vertices[leaf]
@@ -303,8 +306,8 @@ class Architecture():
                     distances[(tgt, src)] = (1, [(tgt, src)])
         for v in vertices:
             distances[(v, v)] = (0, [])
-        for v0 in vertices+vertices:
-            for v1 in vertices:
+        for v1 in vertices:
+            for v0 in vertices:
                 for v2 in vertices:
                     # Consider the path v0 -> v1 -> v2 as a shortest path candidate for v0 -> v2
                     if (v0, v1) in distances.keys() and (v1, v2) in distances.keys():
@@ -330,7 +333,7 @@ class Architecture():
   
         while queue != []: 
             
-            node, path = queue.pop() 
+            node, path = queue.pop(0) 
             if node == end:
                 return path
             edges = [edge for edge in self.graph.edges() if node in edge]
@@ -364,14 +367,14 @@ class Architecture():
         target_nodes = set(self.qubit2vertex(q) for q in qubits_to_use)
 
         # Check that all nodes are valid and that there are no duplicates
-        assert all(n >= root if upper else n <= root for n in target_nodes)
+        assert all(q >= start_qubit if upper else q <= start_qubit for q in qubits_to_use)
         assert len(qubits_to_use) == len(set(qubits_to_use))
         
         # The vertices and edges of the generated tree
         tree_vertices: Set[int] = {root}
         edges: Set[Tuple[int,int]] = set()
         # Map with all distances between nodes with index <= root (if not upper) or index >= root (if upper), and the corresponding shortest paths
-        distances: Dict[Tuple[int,int], Tuple[int,List[Tuple[int,int]]]] = self.distances["upper"][root] if upper else self.distances["full"][root]
+        distances: Dict[Tuple[int,int], Tuple[int,List[Tuple[int,int]]]] = self.distances["upper"][start_qubit] if upper else self.distances["full"][start_qubit]
         # Nodes that are not yet in the tree
         remaining_nodes = set(n for n in target_nodes if n != root)
         # Non-target nodes added to the tree
@@ -410,7 +413,7 @@ class Architecture():
         
         while queue != []:
             node = queue.pop(0)
-            neighbors = [v for v in self.graph.neighbors(node) if v in tree_vertices and v not in visited]
+            neighbors = [v for v in self.graph.neighbors(node) if (node, v) in edges and v not in visited]
 
             for v in neighbors:
                 queue.append(v)
diff --git a/pyzx/routing/steiner.py b/pyzx/routing/steiner.py
index 4e28321..dc44ca9 100644
--- a/pyzx/routing/steiner.py
+++ b/pyzx/routing/steiner.py
@@ -243,15 +243,8 @@ def rec_steiner_gauss(
 
                 # Pick the maximal vertex k in R: k = max(usable_nodes)
                 # Pick the maximal leaf k' in R: k' = cols[i] = c
-                # Let W be the set of vertices in the shortest path from k' to k (inclusive)
-                path = architecture.shortest_path(
-                    c, max(usable_nodes)
-                )  # , usable_nodes)
-                if path is None:
-                    raise ValueError(
-                        f"The architecture is not connected using when considering nodes 0..{max(usable_nodes)}"
-                    )
-                rec_qubits = [architecture.vertex2qubit(v) for v in path]
+                # Let W be the set of vertices in R from k' to k, which form a path up the tree
+                rec_qubits = sorted(q for q in usable_nodes if q >= c)
 
                 # Apply steiner up:
                 # Pick the nodes of the steiner tree: all rows with a 1 in column c or the pivot row (diagonal)
-- 
2.43.0


From e0da98eab7cefad31f8b464ba13a0746c07e6431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:28 +0000
Subject: [PATCH 25/76] fix: CNOT_tracker: depth, parity matrix of gates added
 by name, shared gate list; Parity item assignment; Mat2.gauss kept a growing
 list between calls

---
 pyzx/linalg.py              |  4 ++--
 pyzx/routing/parity_maps.py | 29 +++++++++++++++--------------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/pyzx/linalg.py b/pyzx/linalg.py
index 340dc3f..19cc4e2 100644
--- a/pyzx/linalg.py
+++ b/pyzx/linalg.py
@@ -143,7 +143,7 @@ class Mat2(object):
         """Permute the columns of the matrix according to the permutation p."""
         self.data = [[self.data[i][j] for j in p] for i in range(self.rows())]
     
-    def gauss(self, full_reduce:bool=False, x:Any=None, y:Any=None, blocksize:int=6, pivot_cols:List[int]=[]) -> int:
+    def gauss(self, full_reduce:bool=False, x:Any=None, y:Any=None, blocksize:int=6, pivot_cols:Optional[List[int]]=None) -> int:
         """Compute the echelon form. Returns the number of non-zero rows in the result, i.e.
         the rank of the matrix.
 
@@ -173,7 +173,7 @@ class Mat2(object):
 
         rows = self.rows()
         cols = self.cols()
-        #pivot_cols = []
+        if pivot_cols is None: pivot_cols = []
         pivot_row = 0
         for sec in range(math.ceil(cols / blocksize)):
             i0 = sec * blocksize
diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index f14c885..619ed77 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -51,24 +51,22 @@ class CNOT_tracker(Circuit):
 
     def cnot_depth(self) -> int:
         """Returns the CNOT/CZ depth of the tracked circuit."""
-        depth = 1
-        previous_gates: List[int] = []
+        depths = [0] * self.n_qubits
         for g in self.gates:
             if hasattr(g, "name") and g.name in ["CNOT", "CZ"]:
-                if g.control in previous_gates or g.target in previous_gates:  # type: ignore # Overlapping gate
-                    # Start a new CNOT layer
-                    previous_gates = []
-                    depth += 1
-                else:
-                    previous_gates += [g.control, g.target]  # type: ignore
-        return depth
+                depths[g.control] = depths[g.target] = max(depths[g.control], depths[g.target]) + 1  # type: ignore
+        return max(depths, default=0)
 
     def row_add(self, q0: int, q1: int):
         """Track a row addition operation on the matrix"""
-        self.add_gate("CNOT", q0, q1)
+        super().add_gate("CNOT", q0, q1)
         self.matrix.row_add(q0, q1)
 
     def add_gate(self, gate: Union[Gate,str], *args, **kwargs):
+        if isinstance(gate, str):
+            gate_class = gate_types[gate]
+            gate = gate_class(*args, **kwargs)
+            args, kwargs = (), {}
         if isinstance(gate, CNOT):
             self.row_add(gate.control, gate.target)
         else:
@@ -76,7 +74,7 @@ class CNOT_tracker(Circuit):
 
     def col_add(self, q0: int, q1: int):
         """Track a column addition operation on the matrix"""
-        self.prepend_gate("CNOT", q1, q0)
+        self.gates.insert(0, CNOT(q1, q0))
         self.matrix.col_add(q0, q1)
 
     @staticmethod
@@ -104,7 +102,10 @@ class CNOT_tracker(Circuit):
         if isinstance(gate, str):
             gate_class = gate_types[gate]
             gate = gate_class(*args, **kwargs)
-        self.gates.insert(0, gate)
+        if isinstance(gate, CNOT):
+            self.col_add(gate.target, gate.control)
+        else:
+            self.gates.insert(0, gate)
 
     def to_qasm(self, version: int = 2) -> str:
         qasm = super().to_qasm(version)
@@ -115,7 +116,7 @@ class CNOT_tracker(Circuit):
     @staticmethod
     def from_circuit(circuit: Circuit) -> "CNOT_tracker":
         new_circuit = CNOT_tracker(circuit.qubits, name=circuit.name)
-        new_circuit.gates = circuit.gates
+        new_circuit.gates = circuit.gates.copy()
         new_circuit.update_matrix()
         return new_circuit
 
@@ -177,7 +178,7 @@ class Parity:
     def __getitem__(self, i):
         return self.parity[i]
 
-    def __set_item__(self, i, v):
+    def __setitem__(self, i, v):
         self.parity[i] = v
 
     def __eq__(self, other):
-- 
2.43.0


From c9a1e20e47282aca43fc18e70a14bd1b1bf0952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 26/76] fix: matroid synthesis with optimize_parity_order
 placed parities twice

---
 pyzx/routing/phase_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/phase_poly.py b/pyzx/routing/phase_poly.py
index b3ad677..073c1eb 100644
--- a/pyzx/routing/phase_poly.py
+++ b/pyzx/routing/phase_poly.py
@@ -490,7 +490,7 @@ class PhasePoly:
     def _place_parities(self, parities: Union[Mat2, MatLike]) -> List[int]:
         if isinstance(parities, Mat2):
             parities = parities.data
-        permutation = [0] * self.n_qubits
+        permutation: List[Any] = [None] * self.n_qubits
         skipped_parities = []
         # Greedily map identity rows
         for i, parity in enumerate(parities):
-- 
2.43.0


From 9379b2fe6a5d01da504445a3befd44a20d4ea1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:01 +0000
Subject: [PATCH 27/76] fix: non-recursive steiner_gauss did not clear the
 entries above the diagonal

---
 pyzx/routing/steiner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/routing/steiner.py b/pyzx/routing/steiner.py
index dc44ca9..698253a 100644
--- a/pyzx/routing/steiner.py
+++ b/pyzx/routing/steiner.py
@@ -68,6 +68,7 @@ def steiner_gauss(
                     row_add(s1, s0)
                     if debug:
                         print(matrix[s0, col], matrix[s1, col])
+        else:
             if (
                 next_check is not None and matrix[next_check[0], col] == 0
             ):  # root is zero
-- 
2.43.0


From d7e5b4d06fd76bc11eab8b27b5bea9252c5f840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:50 +0000
Subject: [PATCH 28/76] fix: phase_poly_from_gadgets always crashed and could
 repeat gadgets; matroid synthesis crashed with a permuted input placement

---
 pyzx/generate.py           | 9 +++++----
 pyzx/routing/phase_poly.py | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index a87dcce..f653e06 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -657,16 +657,17 @@ def phase_poly_from_gadgets(n_qubits: int, n_gadgets: int) -> Circuit:
     :return: A random phase polynomial circuit.
     """
     parities: Set[Parity] = set()
-    if n_gadgets > 2**n_qubits:
-        n_gadgets = n_qubits ^ 3
+    n_gadgets = min(n_gadgets, 2**n_qubits - 1)
+    def to_parity(integer: int) -> Parity:
+        return Parity([integer >> i & 1 for i in range(n_qubits)])
     if n_qubits < 26:
         for integer in np.random.choice(
             2**n_qubits - 1, replace=False, size=n_gadgets
         ):
-            parities.add(Parity(integer + 1, n_qubits))
+            parities.add(to_parity(int(integer) + 1))
     elif n_qubits < 64:
         while len(parities) < n_gadgets:
-            parities.add(Parity(np.random.randint(1, 2**n_qubits), n_qubits))
+            parities.add(to_parity(int(np.random.randint(1, 2**n_qubits))))
     else:
         while len(parities) < n_gadgets:
             par: Parity = Parity([])
diff --git a/pyzx/routing/phase_poly.py b/pyzx/routing/phase_poly.py
index 073c1eb..40b5030 100644
--- a/pyzx/routing/phase_poly.py
+++ b/pyzx/routing/phase_poly.py
@@ -595,6 +595,7 @@ class PhasePoly:
             architecture=architecture,
             **kwargs,
         )
+        perms = [[int(q) for q in perm] for perm in perms]  # these can be numpy arrays
         zphases = list(self.zphases.keys())
         circuit = Circuit(n_qubits)
         # Keep track of the parities
-- 
2.43.0


From bc6dd0ba58e8889ec3f39f10604ed54acf722f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:41 +0000
Subject: [PATCH 29/76] fix: a refused W edge left the multigraph with a
 corrupted edge count and table

---
 pyzx/graph/multigraph.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 6df4ac8..1e2dc28 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -36,15 +36,16 @@ class Edge:
         self.w_io = w_io
 
     def add(self, s: int=0, h: int=0, w_io: int=0):
-        self.s += s
-        self.h += h
-        self.w_io += w_io
-        if self.s < 0 or self.h < 0:
+        s += self.s
+        h += self.h
+        w_io += self.w_io
+        if s < 0 or h < 0:
             raise ValueError('Cannot have negative edges')
-        if self.w_io not in (0,1):
+        if w_io not in (0,1):
             raise ValueError('Invalid number of W-IO edges')
-        if self.w_io == 1 and self.s + self.h > 0:
+        if w_io == 1 and s + h > 0:
             raise ValueError('Cannot have W-IO edge and other edges')
+        self.s, self.h, self.w_io = s, h, w_io
 
     def remove(self, s: int=0, h: int=0, w_io: int=0):
         self.add(s=-s, h=-h, w_io=-w_io)
@@ -168,18 +169,15 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         for ep in edge_pairs: self.add_edge(ep, edgetype)
 
     def add_edge(self, edge_pair, edgetype=EdgeType.SIMPLE):
-        self.nedges += 1
         s,t = edge_pair
-        if not t in self.graph[s]:
-            e = Edge()
-            self.graph[s][t] = e
-            self.graph[t][s] = e
-        else:
-            e = self.graph[s][t]
+        e = self.graph[s][t] if t in self.graph[s] else Edge()
 
         if edgetype == EdgeType.SIMPLE: e.add(s=1)
         elif edgetype == EdgeType.HADAMARD: e.add(h=1)
         else: e.add(w_io=1)
+        self.graph[s][t] = e
+        self.graph[t][s] = e
+        self.nedges += 1
 
         if self._auto_simplify:
             t1 = self.ty[s]
-- 
2.43.0


From 7b247fb0f3a31123e45aae4458b66ebc75f724e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:41 +0000
Subject: [PATCH 30/76] fix: normalize reordered the outputs of states

---
 pyzx/graph/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index f4732f7..cc8d325 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -604,7 +604,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
 
     def normalize(self) -> None:
         """Puts every node connecting to an input/output at the correct qubit index and row."""
-        if self.num_inputs() == 0:
+        if self.num_inputs() == 0 and self.num_outputs() == 0:
             self.auto_detect_io()
         max_r = self.depth() - 1
         if max_r <= 2:
-- 
2.43.0


From 0d095d54058ba3b6d4d542efbafc84320aa7253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:41 +0000
Subject: [PATCH 31/76] fix: TikZ lost labels 0 and -1 of Z-boxes, integer
 phases, Hadamards on boundaries, and repeated ids in sequences

---
 pyzx/tikz.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index 2372726..978d363 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -83,10 +83,9 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
             else:
                 if ty==VertexType.Z: style = settings.tikz_classes['Z']
                 else: style = settings.tikz_classes['X']
-        if ((ty == VertexType.H_BOX or ty == VertexType.Z_BOX) and p == 1) or\
-            (ty != VertexType.H_BOX and p == 0):
+        if p == (1 if ty in (VertexType.H_BOX, VertexType.Z_BOX) else 0):
             phase = ""
-        elif type(p) == Fraction:
+        elif type(p) == Fraction or (type(p) == int and ty != VertexType.Z_BOX):
             ns = '' if p.numerator == 1 else str(p.numerator)
             dn = '' if p.denominator == 1 else str(p.denominator)
             if dn: phase = r"$\frac{%s\pi}{%s}$" % (ns, dn)
@@ -103,6 +102,7 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
         v,w = g.edge_st(e)
         et = g.edge_type(e)
         s = "        \\draw "
+        ends = [(v+idoffset,w+idoffset)]
         if et == EdgeType.HADAMARD:
             if g.type(v) != VertexType.BOUNDARY and g.type(w) != VertexType.BOUNDARY:
                 style = settings.tikz_classes['H-edge']
@@ -113,14 +113,15 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
                 t = "        \\node [style={:s}] ({:d}) at ({:.2f}, {:.2f}) {{}};".format(settings.tikz_classes['H'],maxindex+1, x,y)
                 verts.append(t)
                 maxindex += 1
+                ends = [(v+idoffset,maxindex),(maxindex,w+idoffset)]
         elif et == EdgeType.W_IO:
             style = settings.tikz_classes['W-io-edge']
             if style: s += "[style={:s}] ".format(style)
         else:
             style = settings.tikz_classes['edge']
             if style: s += "[style={:s}] ".format(style)
-        s += "({:d}) to ({:d});".format(v+idoffset,w+idoffset)
-        edges.append(s)
+        for i,j in ends:
+            edges.append(s + "({:d}) to ({:d});".format(i,j))
 
     return (verts, edges)
 
@@ -137,7 +138,7 @@ def to_tikz_sequence(graphs:List[BaseGraph], draw_scalar:bool=False, maxwidth:Fl
     idoffset = 0
     total_verts, total_edges = [],[]
     for g in graphs:
-        max_index = max(g.vertices()) + 2*g.num_inputs() + 2
+        max_index = max(g.vertices(), default=0) + g.num_edges() + 3 # a scalar and the Hadamards on boundaries are nodes too
         verts, edges = _to_tikz(g,draw_scalar,xoffset,yoffset,idoffset)
         total_verts.extend(verts)
         total_edges.extend(edges)
@@ -289,8 +290,10 @@ def tikz_to_graph(
                     raise ValueError("Node definition %s has invalid phase label" % l)
             else:
                 label = label.replace(r'\pi','').strip()
-                if label == '' or label == '-' or label == '-1':
+                if label == '':
                     set_phase(v,1)
+                elif label == '-' or label == '-1':
+                    set_phase(v,-1)
                 elif label.find(r'\frac') != -1:
                     label = label.replace(r'\frac','').strip()
                     if label.find('}{') == -1:
-- 
2.43.0


From f4f3da0e556ae2ae8f6160145322e5a87b9d69c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:41 +0000
Subject: [PATCH 32/76] fix: JSON lost large denominators, complex and symbolic
 scalars, duplicate names, and vertex data that looks like a number

---
 pyzx/graph/jsonparser.py | 45 +++++++++++++++++++++++-----------------
 pyzx/graph/scalar.py     | 28 ++++++++++++++++---------
 2 files changed, 44 insertions(+), 29 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index e2bb638..11ecbd4 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -41,6 +41,14 @@ if TYPE_CHECKING:
 #    except TypeError:
 
 
+def phase_to_string(phase: FractionLike) -> str:
+    """The phase as a string which :func:`string_to_phase` reads back exactly."""
+    if isinstance(phase, (Fraction, int)):
+        p = Fraction(phase)
+        if p.denominator > 256: # phase_to_s approximates these
+            return '{}\u03c0/{}'.format(p.numerator, p.denominator)
+    return phase_to_s(phase)
+
 def string_to_phase(string: str, g: Union[BaseGraph,'GraphDiff']) -> Union[Fraction, Poly]:
     if not string:
         return Fraction(0)
@@ -112,8 +120,8 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
         for key, value in attr['annotation'].items():
             if key == 'coord':
                 continue
-            elif key == 'label':
-                if type(value) != complex:
+            elif key == 'label' and g.type(v) == VertexType.Z_BOX:
+                if isinstance(value, str):
                     value = string_to_phase(value,g)
             g.set_vdata(v, key, value)
 
@@ -172,7 +180,7 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
         edges[e] = amount
 
     if "scalar" in j:
-        g.scalar = Scalar.from_json(j["scalar"])
+        g.scalar = Scalar.from_json(j["scalar"], g.variable_types)
     g.add_edge_table(edges)
 
     return g
@@ -185,22 +193,19 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
     wire_vs: Dict[str, Dict[str, Any]] = {}
     edges: Dict[str, Dict[str, str]] = {}
     names: Dict[VT, str] = {}
-    freenamesv = ["v"+str(i) for i in range(g.num_vertices()+g.num_edges())]
-    freenamesb = ["b"+str(i) for i in range(g.num_vertices())]
+    # the names have to be unique, so only the first vertex that is given some name can keep it
+    taken = dict((g.vdata(v, 'name'), v) for v in reversed(list(g.vertices())))
+    freenamesv = [n for n in ("v"+str(i) for i in range(2*g.num_vertices()+g.num_edges())) if n not in taken]
+    freenamesb = [n for n in ("b"+str(i) for i in range(2*g.num_vertices())) if n not in taken]
     inputs = g.inputs()
     outputs = g.outputs()
     for v in g.vertices():
         t = g.type(v)
         coord = [round(g.row(v),3),round(-g.qubit(v),3)]
         name = g.vdata(v, 'name')
-        if not name:
+        if not name or taken[name] != v:
             if t == VertexType.BOUNDARY: name = freenamesb.pop(0)
             else: name = freenamesv.pop(0)
-        else:
-            try:
-                freenamesb.remove(name) if t==VertexType.BOUNDARY else freenamesv.remove(name)
-            except:
-                pass
 
         names[v] = name
         if t == VertexType.BOUNDARY:
@@ -211,7 +216,7 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
                 wire_vs[name]["annotation"]["output"] = outputs.index(v)
 
             for key in g.vdata_keys(v):
-                if key in wire_vs[name]["annotation"]:
+                if key in wire_vs[name]["annotation"] or key == 'name':
                     continue
                 wire_vs[name]["annotation"][key] = g.vdata(v, key)
         else:
@@ -231,16 +236,16 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
                 node_vs[name]["data"]["type"] = "Z_box"
                 zbox_label = g.vdata(v, 'label', 1)
                 if type(zbox_label) == Fraction:
-                    zbox_label = phase_to_s(zbox_label)
+                    zbox_label = phase_to_string(zbox_label)
                 node_vs[name]["annotation"]["label"] = zbox_label
             else: raise Exception("Unkown vertex type "+ str(t))
-            phase = phase_to_s(g.phase(v))
+            phase = phase_to_string(g.phase(v))
             if phase: node_vs[name]["data"]["value"] = phase
             if g.is_ground(v):
                 node_vs[name]["data"]["ground"] = True
             if not node_vs[name]["data"]: del node_vs[name]["data"]
             for key in g.vdata_keys(v):
-                if key in node_vs[name]["annotation"]:
+                if key in node_vs[name]["annotation"] or key == 'name':
                     continue
                 node_vs[name]["annotation"][key] = g.vdata(v, key)
 
@@ -338,9 +343,11 @@ class ComplexDecoder(json.JSONDecoder):
     def object_hook(self, dct):
         for k, v in dct.items():
             if isinstance(v, str):
-                try:
-                    dct[k] = complex(v)
-                except ValueError:
-                    pass
+                # only strings written by ComplexEncoder, not any name or text that looks like a number
+                if re.fullmatch(r'\(?[^\s()]*[\dfn]j\)?', v) and k not in ('src', 'tgt', 'name'):
+                    try:
+                        dct[k] = complex(v)
+                    except ValueError:
+                        pass
         return dct
 
diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 5d6845c..75cb7e0 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -20,11 +20,11 @@ import math
 import cmath
 import copy
 from fractions import Fraction
-from typing import List
+from typing import Any, Dict, List, Optional
 import json
 
 from ..utils import FloatInt, FractionLike
-from ..symbolic import Poly
+from ..symbolic import Poly, new_var, parse
 
 __all__ = ['Scalar']
 
@@ -131,7 +131,7 @@ class Scalar(object):
         if abs(f+1) < 0.001: #f \approx -1
             s += "-"
         elif abs(f-1) > 0.0001: #f \neq 1
-            s += str(self.floatfactor)
+            s += str(f)
         if self.power2 != 0:
             s += r"\sqrt{{2}}^{{{:d}}}".format(self.power2)
         if self.phase not in (0,1):
@@ -179,23 +179,31 @@ class Scalar(object):
         return s
 
     def to_json(self) -> str:
-        d = {"power2": self.power2, "phase": str(self.phase)}
-        if abs(self.floatfactor - 1) > 0.00001:
-            d["floatfactor"] =  self.floatfactor
+        d: Dict[str, Any] = {"power2": self.power2, "phase": str(self.phase)}
+        if self.floatfactor != 1:
+            f = complex(self.floatfactor)
+            d["floatfactor"] = str(f) if f.imag else f.real
         if self.phasenodes:
             d["phasenodes"] = [str(p) for p in self.phasenodes]
         if self.is_zero:
             d["is_zero"] = self.is_zero
         if self.is_unknown:
-            d["is_unknown"] = self.is_unknown,
+            d["is_unknown"] = self.is_unknown
         return json.dumps(d)
 
     @classmethod
-    def from_json(cls, s: str) -> 'Scalar':
+    def from_json(cls, s: str, variable_types: Optional[Dict[str, bool]] = None) -> 'Scalar':
         d = json.loads(s)
-        d["phase"] = Fraction(d["phase"])
+        def to_phase(p: str) -> FractionLike:
+            try:
+                return Fraction(p)
+            except ValueError:
+                return parse(p, lambda name: new_var(name, (variable_types or {}).get(name, False)))
+        d["phase"] = to_phase(d["phase"])
         if "phasenodes" in d:
-            d["phasenodes"] = [Fraction(p) for p in d["phasenodes"]]
+            d["phasenodes"] = [to_phase(p) for p in d["phasenodes"]]
+        if isinstance(d.get("floatfactor"), str):
+            d["floatfactor"] = complex(d["floatfactor"])
         scalar = Scalar()
         scalar.__dict__.update(d)
         return scalar
-- 
2.43.0


From ff279be56dfea10bd7dbf7cac38f580b1d849600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:41 +0000
Subject: [PATCH 33/76] fix: GraphDiff dropped or shared vertex data and
 variable types, and JSON of multigraph differences was not readable

---
 pyzx/graph/diff.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 66f2e64..e82c911 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -17,12 +17,13 @@
 import copy
 import json
 from collections import Counter
+from fractions import Fraction
 from typing import Any, Callable, Generic, Optional, List, Dict, Tuple
 
-from ..utils import VertexType, EdgeType, FractionLike, FloatInt, phase_to_s
+from ..utils import VertexType, EdgeType, FractionLike, FloatInt
 from .base import BaseGraph, VT, ET
 from .graph_s import GraphS
-from .jsonparser import ComplexDecoder, ComplexEncoder, string_to_phase
+from .jsonparser import ComplexDecoder, ComplexEncoder, phase_to_string, string_to_phase
 
 class GraphDiff(Generic[VT, ET]):
 	removed_verts: List[VT]
@@ -70,8 +71,8 @@ class GraphDiff(Generic[VT, ET]):
 					self.changed_vertex_types[v] = g2.type(v)
 				if g1.phase(v) != g2.phase(v):
 					self.changed_phases[v] = g2.phase(v)
-				if g1._vdata.get(v, None) != g2._vdata.get(v, None):
-					self.changed_vdata[v] = g2._vdata.get(v, None)
+				if g1._vdata.get(v, {}) != g2._vdata.get(v, {}):
+					self.changed_vdata[v] = copy.deepcopy(g2._vdata.get(v, {}))
 				pos1 = g1.qubit(v), g1.row(v)
 				pos2 = g2.qubit(v), g2.row(v)
 				if pos1 != pos2:
@@ -81,6 +82,8 @@ class GraphDiff(Generic[VT, ET]):
 					self.changed_vertex_types[v] = g2.type(v)
 				if g2.phase(v) != 0:
 					self.changed_phases[v] = g2.phase(v)
+				if v in g2._vdata:
+					self.changed_vdata[v] = copy.deepcopy(g2._vdata[v])
 				pos2 = g2.qubit(v), g2.row(v)
 				self.changed_pos[v] = pos2
 
@@ -94,6 +97,7 @@ class GraphDiff(Generic[VT, ET]):
 
 	def apply_diff(self,g: BaseGraph[VT,ET]) -> BaseGraph[VT,ET]:
 		g = copy.deepcopy(g)
+		g.variable_types.update(self.variable_types)
 		g.remove_edges(self.removed_edges)
 		g.remove_vertices(self.removed_verts)
 		for v in self.new_verts:
@@ -106,7 +110,7 @@ class GraphDiff(Generic[VT, ET]):
 			if v in self.changed_phases:
 				g.set_phase(v,self.changed_phases[v])
 			if v in self.changed_vdata:
-				g._vdata[v] = self.changed_vdata[v]
+				g._vdata[v] = copy.deepcopy(self.changed_vdata[v])
 		for st, ty in self.new_edges:
 			g.add_edge(st,ty)
 
@@ -124,7 +128,7 @@ class GraphDiff(Generic[VT, ET]):
 
 		for v in self.changed_vdata:
 			if v in self.new_verts: continue
-			g._vdata[v] = self.changed_vdata[v]
+			g._vdata[v] = copy.deepcopy(self.changed_vdata[v])
 
 		for e in self.changed_edge_types:
 			g.set_edge_type(e,self.changed_edge_types[e])
@@ -134,8 +138,10 @@ class GraphDiff(Generic[VT, ET]):
 	def to_json(self) -> str:
 		changed_edge_types_str_dict = {}
 		for key, value in self.changed_edge_types.items():
-			changed_edge_types_str_dict[f"{key[0]},{key[1]}"] = value # type: ignore
-		changed_phases_str = {k: phase_to_s(v) for k, v in self.changed_phases.items()}
+			changed_edge_types_str_dict[",".join(str(int(k)) for k in key)] = value # type: ignore
+		changed_phases_str = {k: phase_to_string(v) for k, v in self.changed_phases.items()}
+		# the labels of Z-boxes can be fractions
+		changed_vdata = {v: {k: phase_to_string(x) if isinstance(x, Fraction) else x for k, x in data.items()} for v, data in self.changed_vdata.items()}
 		return json.dumps({
 			"removed_verts": self.removed_verts,
 			"new_verts": self.new_verts,
@@ -145,7 +151,7 @@ class GraphDiff(Generic[VT, ET]):
 			"changed_edge_types": changed_edge_types_str_dict,
 			"changed_phases": changed_phases_str,
 			"changed_pos": self.changed_pos,
-			"changed_vdata": self.changed_vdata,
+			"changed_vdata": changed_vdata,
 			"variable_types": self.variable_types
 		},  cls=ComplexEncoder)
 
@@ -155,13 +161,19 @@ class GraphDiff(Generic[VT, ET]):
 		gd = GraphDiff(GraphS(),GraphS())
 		gd.removed_verts = d["removed_verts"]
 		gd.new_verts = d["new_verts"]
-		gd.removed_edges = list(map(tuple, d["removed_edges"])) # type: ignore
-		gd.new_edges = list(map(tuple, d["new_edges"])) # type: ignore
-		gd.changed_vertex_types = map_dict_keys(d["changed_vertex_types"], int)
-		gd.changed_edge_types = map_dict_keys(d["changed_edge_types"], lambda x: tuple(map(int, x.split(","))))
+		gd.variable_types = d["variable_types"]
+		to_edge = lambda e: tuple(e[:2]) + tuple(map(EdgeType, e[2:])) # the edges of a multigraph include their type
+		gd.removed_edges = list(map(to_edge, d["removed_edges"])) # type: ignore
+		gd.new_edges = [(tuple(st), EdgeType(ty)) for st, ty in d["new_edges"]] # type: ignore
+		gd.changed_vertex_types = {int(v): VertexType(ty) for v, ty in d["changed_vertex_types"].items()}
+		gd.changed_edge_types = {to_edge(list(map(int, e.split(",")))): EdgeType(ty) for e, ty in d["changed_edge_types"].items()} # type: ignore
 		gd.changed_phases = {int(k): string_to_phase(v,gd) for k, v in d["changed_phases"].items()}
-		gd.changed_pos = map_dict_keys(d["changed_pos"], int)
+		gd.changed_pos = {int(v): tuple(pos) for v, pos in d["changed_pos"].items()} # type: ignore
 		gd.changed_vdata = map_dict_keys(d["changed_vdata"], int)
+		for data in gd.changed_vdata.values():
+			label = data.get('label')
+			if label == '' or (isinstance(label, str) and '\u03c0' in label):
+				data['label'] = string_to_phase(label,gd)
 		return gd
 
 def map_dict_keys(d: Dict[str, Any], f: Callable[[str], Any]) -> Dict[Any, Any]:
-- 
2.43.0


From a9e9b36e6772330388b8ae703a40ffe5ef3a6886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 34/76] fix: QASM angle expressions, gate names ending in
 'gate', and invalid qubit arguments were misread

Expressions like pi/2*3, pi+1 and 2*2*pi were silently read as another angle; nested
parentheses, custom gates named like 'mygate', out-of-range indices, unknown registers and
repeated qubits crashed or were accepted.
---
 pyzx/circuit/qasmparser.py | 57 ++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index a92341e..87296ac 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -15,15 +15,23 @@
 # limitations under the License.
 
 
+import ast
 import math
+import operator
 import re
 from fractions import Fraction
-from typing import List, Dict, Tuple, Optional
+from typing import Callable, List, Dict, Tuple, Optional
 
 from . import Circuit
 from .gates import Gate, qasm_gate_table
 from ..utils import settings
 
+unary_operators: Dict[type, Callable] = {ast.UAdd: operator.pos, ast.USub: operator.neg}
+binary_operators: Dict[type, Callable] = {ast.Add: operator.add, ast.Sub: operator.sub,
+                                          ast.Mult: operator.mul, ast.Div: operator.truediv}
+
+two_qubit_gates = ('cx', 'CX', 'cy', 'cz', 'ch', 'csx', 'swap', 'crx', 'cry', 'crz', 'cp', 'cphase', 'cu1', 'rxx', 'rzz', 'cu3', 'cu')
+
 
 class QASMParser(object):
     """Class for parsing QASM source files into circuit descriptions."""
@@ -42,6 +50,7 @@ class QASMParser(object):
         self.registers = {}
         self.qubit_count = 0
         self.circuit = None
+        self.qasm_version = settings.default_qasm_version
         lines = s.splitlines()
         r = []
         #strip comments
@@ -67,8 +76,9 @@ class QASMParser(object):
         data = "\n".join(r)
         # Strip the custom command definitions from the normal commands
         while True:
-            i = data.find("gate ")
-            if i == -1: break
+            m = re.search(r"(?<![\w.])gate\s", data)
+            if m is None: break
+            i = m.start()
             j = data.find("}", i)
             self.parse_custom_gate(data[i:j+1])
             data = data[:i] + data[j+1:]
@@ -123,7 +133,7 @@ class QASMParser(object):
             c = re.sub(r"^bit\[(\d+)] (\w+)$", r"creg \2[\1]", c)
             c = re.sub(r"^qubit\[(\d+)] (\w+)$", r"qreg \2[\1]", c)
             c = re.sub(r"^(\w+)\[(\d+)] = measure (\w+)\[(\d+)]$", r"measure \3[\4] -> \1[\2]", c)
-        right_bracket = c.find(")")
+        right_bracket = c.rfind(")")
         name, rest = c.split(" ", 1) if right_bracket == -1\
             else [c[:right_bracket+1], c[right_bracket+1:]]
         args = [s.strip() for s in rest.split(",") if s.strip()]
@@ -157,8 +167,10 @@ class QASMParser(object):
                 regname, valp = a.split("[",1)
                 val = int(valp[:-1])
                 if regname not in registers: raise TypeError("Invalid register {}".format(regname))
+                if not 0 <= val < registers[regname][1]: raise TypeError("Index out of range: {}".format(c))
                 qubit_values.append([registers[regname][0]+val])
             else:
+                if a not in registers: raise TypeError("Invalid register {}".format(a))
                 if is_range:
                     if registers[a][1] != dim:
                         raise TypeError("Error in parsing {}: Register sizes do not match".format(c))
@@ -173,6 +185,10 @@ class QASMParser(object):
                     qubit_values[i] = [qubit_values[i][0]]*dim
         for j in range(dim):
             argset = [q[j] for q in qubit_values]
+            if len(set(argset)) != len(argset): raise TypeError("Repeated qubit in {}".format(c))
+            amount = 3 if name in ('ccx', 'ccz', 'cswap') else 2 if name in two_qubit_gates else 1
+            if name not in self.custom_gates and len(argset) != amount:
+                raise TypeError("Argument amount does not match gate: {}".format(c))
             if name in self.custom_gates:
                 circ = self.custom_gates[name]
                 if len(argset) != circ.qubits:
@@ -225,27 +241,26 @@ class QASMParser(object):
         try:
             phase = float(val)/math.pi
         except ValueError:
-            if val.find('pi') == -1: raise TypeError("Invalid specification {}".format(val))
             try:
-                val = val.replace('pi', '')
-                val = val.replace('*','')
-                if val.find('/') != -1:
-                    n, d = val.split('/',1)
-                    n = n.strip()
-                    if not n: n = 1
-                    elif n == '-': n = -1
-                    else: n = int(n)
-                    d = int(d.strip())
-                    phase = Fraction(n,d)
-                else:
-                    val = val.strip()
-                    if not val: phase = 1
-                    elif val == '-': phase = -1
-                    else: phase = float(val)
-            except: raise TypeError("Invalid specification {}".format(val))
+                # Allow leaving out the multiplication sign, like in 3pi/4
+                expr = re.sub(r"(?<=[\d.)])\s*pi\b", "*pi", val.strip())
+                phase = self.evaluate(ast.parse(expr, mode="eval").body)/math.pi
+            except (SyntaxError, ArithmeticError, ValueError): raise TypeError("Invalid specification {}".format(val))
         phase = Fraction(phase).limit_denominator(100000000)
         return phase
 
+    def evaluate(self, node: ast.AST) -> float:
+        """Evaluates an arithmetic expression of numbers and pi."""
+        if isinstance(node, ast.Constant) and type(node.value) in (int, float):
+            return node.value # type: ignore
+        if isinstance(node, ast.Name) and node.id == "pi":
+            return math.pi
+        if isinstance(node, ast.UnaryOp) and type(node.op) in unary_operators:
+            return unary_operators[type(node.op)](self.evaluate(node.operand))
+        if isinstance(node, ast.BinOp) and type(node.op) in binary_operators:
+            return binary_operators[type(node.op)](self.evaluate(node.left), self.evaluate(node.right))
+        raise ValueError("Unsupported expression")
+
 
 def qasm(s: str) -> Circuit:
     """Parses a string representing a program in QASM, and outputs a `Circuit`."""
-- 
2.43.0


From 8549c6fc3ee54fdb88a84955d27c2e303c176889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 35/76] fix: wrong text for some gates in qc, Quipper and emoji
 output

XCX and CSWAP inherited the names of CZ and CCZ, YPhase and SX lost their phase in Quipper,
one-target ParityPhase and phases outside [0,2) could not be written, adjoint of gates
without a name gave 'undefined*', and the emoji of a pi/2 phase was that of pi/4.
---
 pyzx/circuit/gates.py | 54 +++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 102c602..9faab65 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -228,7 +228,7 @@ class Gate(object):
         n = self.quipper_name
         if n == 'undefined':
             bg = self.to_basic_gates()
-            if len(bg) == 1:
+            if len(bg) == 1 and bg[0] is self:
                 raise TypeError("Gate {} doesn't have a Quipper description".format(str(self)))
             return "\n".join(g.to_quipper() for g in bg)
         s = 'QGate["{}"]{}({!s})'.format(n,
@@ -243,7 +243,7 @@ class Gate(object):
         n = self.qasm_name
         if n == 'undefined':
             bg = self.to_basic_gates()
-            if len(bg) == 1:
+            if len(bg) == 1 and bg[0] is self:
                 raise TypeError("Gate {} doesn't have a QASM description".format(str(self)))
             return "\n".join(g.to_qasm() for g in bg)
         if hasattr(self, "adjoint") and self.adjoint:
@@ -262,8 +262,6 @@ class Gate(object):
 
     def to_qc(self) -> str:
         n = self.qc_name
-        if hasattr(self, "adjoint") and self.adjoint:
-            n += "*"
         if n == 'undefined':
             if isinstance(self, (ZPhase, XPhase)):
                 bg = self.split_phases()
@@ -271,9 +269,11 @@ class Gate(object):
                     raise TypeError("Gate {} doesn't have a .qc description".format(str(self)))
             else:
                 bg = self.to_basic_gates()
-                if len(bg) == 1:
+                if len(bg) == 1 and bg[0] is self:
                     raise TypeError("Gate {} doesn't have a .qc description".format(str(self)))
             return "\n".join(g.to_qc() for g in bg)
+        if hasattr(self, "adjoint") and self.adjoint:
+            n += "*"
         args = []
         for a in ["ctrl1","ctrl2", "control", "target"]:
             if hasattr(self, a): args.append("q{:d}".format(getattr(self,a)))
@@ -326,7 +326,7 @@ class ZPhase(Gate):
     def to_emoji(self,strings: List[List[str]]) -> None:
         s = ''
         phase = self.phase % 2
-        if phase == Fraction(1,2): s = ':Zp4:'
+        if phase == Fraction(1,2): s = ':Zp2:'
         elif phase == Fraction(1,4): s = ':Zp4:'
         elif phase == Fraction(1,1): s = ':Zp:'
         elif phase == Fraction(3,4): s = ':Z3p4:'
@@ -340,15 +340,16 @@ class ZPhase(Gate):
         return 1 if self.phase.denominator > 2 else 0
 
     def split_phases(self) -> List['ZPhase']:
-        if not self.phase: return []
-        if self.phase == 1: return [Z(self.target)]
-        if self.phase.denominator == 2:
-            if self.phase.numerator % 4 == 1:
+        phase = self.phase % 2
+        if not phase: return []
+        if phase == 1: return [Z(self.target)]
+        if phase.denominator == 2:
+            if phase.numerator % 4 == 1:
                 return [S(self.target)]
             else: return [S(self.target, adjoint=True)]
-        elif self.phase.denominator == 4:
+        elif phase.denominator == 4:
             gates: List['ZPhase'] = []
-            n = self.phase.numerator % 8
+            n = phase.numerator % 8
             if n == 3 or n == 5:
                 gates.append(Z(self.target))
                 n = (n-4)%8
@@ -406,7 +407,7 @@ class XPhase(Gate):
     def to_emoji(self,strings: List[List[str]]) -> None:
         s = ''
         phase = self.phase % 2
-        if phase == Fraction(1,2): s = ':Xp4:'
+        if phase == Fraction(1,2): s = ':Xp2:'
         elif phase == Fraction(1,4): s = ':Xp4:'
         elif phase == Fraction(1,1): s = ':Xp:'
         elif phase == Fraction(3,4): s = ':X3p4:'
@@ -425,15 +426,16 @@ class XPhase(Gate):
         return 1 if self.phase.denominator > 2 else 0
 
     def split_phases(self) -> List[Gate]:
-        if not self.phase: return []
-        if self.phase == 1: return [NOT(self.target)]
+        phase = self.phase % 2
+        if not phase: return []
+        if phase == 1: return [NOT(self.target)]
         gates: List[Gate] = [HAD(self.target)]
-        if self.phase.denominator == 2:
-            if self.phase.numerator % 4 == 1:
+        if phase.denominator == 2:
+            if phase.numerator % 4 == 1:
                 gates.append(S(self.target))
             else: gates.append(S(self.target, adjoint=True))
-        elif self.phase.denominator == 4:
-            n = self.phase.numerator % 8
+        elif phase.denominator == 4:
+            n = phase.numerator % 8
             if n == 3 or n == 5:
                 gates.append(Z(self.target))
                 n = (n-4)%8
@@ -453,6 +455,9 @@ class SX(XPhase):
         super().__init__(target, Fraction(1,2)*(-1 if adjoint else 1))
         self.adjoint = adjoint
 
+    def to_quipper(self):
+        return XPhase(self.target, self.phase).to_quipper()
+
 class CSX(Gate):
     name = 'CSX'
     qasm_name = 'csx'
@@ -494,6 +499,11 @@ class YPhase(Gate):
     def __str__(self) -> str:
         return 'QRot["exp(-i%Y)",{!s}]({!s})'.format(math.pi*self.phase/2,self.target)
 
+    def to_quipper(self):
+        if not self.print_phase:
+            return super().to_quipper()
+        return str(self)
+
     def to_basic_gates(self):
         return [ZPhase(self.target, Fraction(1,2)), XPhase(self.target, -self.phase), ZPhase(self.target, -Fraction(1,2))]
 
@@ -626,7 +636,7 @@ class XCX(CZ):
     name = 'XCX'
     qasm_name = 'undefined'
     qc_name = 'undefined'
-    quipper_name = 'X'
+    quipper_name = 'undefined'
     def to_graph(self, g, q_mapper, _c_mapper):
         r = max(q_mapper.next_row(self.target), q_mapper.next_row(self.control))
         t = self.graph_add_node(g, q_mapper, VertexType.X, self.target, r)
@@ -1000,6 +1010,8 @@ class CCZ(Gate):
         q_mapper.set_next_row(self.ctrl2, r+1)
 
     def to_quipper(self):
+        if self.quipper_name == 'undefined':
+            return super().to_quipper()
         s = 'QGate["{}"]({!s})'.format(self.quipper_name,self.target)
         s += ' with controls=[+{!s},+{!s}]'.format(self.ctrl1,self.ctrl2)
         s += ' with nocontrol'
@@ -1035,6 +1047,8 @@ class Tofolli(CCZ):
 class CSWAP(CCZ):
     name = 'CSWAP'
     qasm_name = 'cswap'
+    qc_name = 'undefined'
+    quipper_name = 'undefined'
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, CSWAP): return False
-- 
2.43.0


From 19f6d1509c16433a34f9697c7ce5285788030584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 36/76] fix: Quipper, qc and qsim readers missed Y gates,
 controlled X, and unknown gates; hz_1_2 had the wrong sign

Also QASM files that include qelib1.inc were detected as qc.
---
 pyzx/circuit/__init__.py      | 4 ++--
 pyzx/circuit/qcparser.py      | 1 +
 pyzx/circuit/qsimparser.py    | 6 ++++--
 pyzx/circuit/quipperparser.py | 8 +++++---
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 687ec8d..99b4d03 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -538,10 +538,10 @@ def determine_file_type(circuitfile: str) -> str:
         f.close()
         if data.startswith('Inputs:'):
             return "quipper"
-        if data.find('.v') != -1 or data.find('.i') != -1 or data.find('.o') != -1:
-            return "qc"
         if data.find('QASM') != -1:
             return "qasm"
+        if data.find('.v') != -1 or data.find('.i') != -1 or data.find('.o') != -1:
+            return "qc"
 
         raise TypeError("Couldn't determine circuit format.")
 
diff --git a/pyzx/circuit/qcparser.py b/pyzx/circuit/qcparser.py
index adf82d3..66b34b7 100644
--- a/pyzx/circuit/qcparser.py
+++ b/pyzx/circuit/qcparser.py
@@ -50,6 +50,7 @@ def parse_qc(data: str) -> Circuit:
         if len(targets) == 1:
             t = targets[0]
             if gname in ('tof', 't1', 'not', 'x'): gates.append(NOT(t))
+            elif gname == 'y': gates.append(Y(t))
             elif gname == 'z': gates.append(Z(t))
             elif gname in ('s', 'p'): gates.append(S(t))
             elif gname in ('s*', 'p*'): gates.append(S(t,adjoint=True))
diff --git a/pyzx/circuit/qsimparser.py b/pyzx/circuit/qsimparser.py
index e614fd0..affcb8d 100644
--- a/pyzx/circuit/qsimparser.py
+++ b/pyzx/circuit/qsimparser.py
@@ -40,9 +40,9 @@ def parse_qsim(data: str) -> Circuit:
             phase = float(gdesc[3]) / math.pi
             gates.append(ZPhase(target = q, phase = Fraction(phase)))
         elif gdesc[1] == 'hz_1_2':
-            gates.append(ZPhase(target = q, phase = Fraction(1,4)))
-            gates.append(XPhase(target = q, phase = Fraction(1,2)))
             gates.append(ZPhase(target = q, phase = Fraction(-1,4)))
+            gates.append(XPhase(target = q, phase = Fraction(1,2)))
+            gates.append(ZPhase(target = q, phase = Fraction(1,4)))
         elif gdesc[1] == 'x_1_2':
             gates.append(XPhase(target = q, phase = Fraction(1,2)))
         elif gdesc[1] == 'y_1_2':
@@ -54,6 +54,8 @@ def parse_qsim(data: str) -> Circuit:
             theta = float(gdesc[4]) / math.pi
             phi = float(gdesc[5]) / math.pi
             gates.append(FSim(q, q1, Fraction(theta), Fraction(phi)))
+        else:
+            raise TypeError("Unsupported gate: " + l)
 
     c = Circuit(qcount)
     c.gates = gates
diff --git a/pyzx/circuit/quipperparser.py b/pyzx/circuit/quipperparser.py
index 348e47c..66c793d 100644
--- a/pyzx/circuit/quipperparser.py
+++ b/pyzx/circuit/quipperparser.py
@@ -54,6 +54,8 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
                 gtype = "ZPhase"
             elif gate[i+4:i+8] == '-i%X':
                 gtype = "XPhase"
+            elif gate[i+4:i+8] == '-i%Y':
+                gtype = "YPhase"
             else:
                 raise TypeError("Unsupported expression: " + gate) 
             val = gate[gate.find(',')+1: gate.find(']')]
@@ -78,7 +80,8 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
         adjoint = g.find("*")!=-1
         if len(l) == 1 or (len(l) == 2 and l[1].find("nocontrol") != -1):  # no controls
             if gname == "H": c.add_gate("HAD", t)
-            elif gname == "not": c.add_gate("NOT", t)
+            elif gname in ("not", "X"): c.add_gate("NOT", t)
+            elif gname == "Y": c.add_gate("Y", t)
             elif gname == "Z": c.add_gate("Z", t)
             elif gname == "S": c.add_gate("S", t, adjoint=adjoint)
             elif gname == "T": c.add_gate("T", t, adjoint=adjoint)
@@ -108,9 +111,8 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
         elif ctrls.find('+')==-1:
             raise TypeError("Unsupported control: " + ctrls)
         ctrl = int(ctrls[1:])
-        if gname == "not": c.add_gate("CNOT", ctrl, t)
+        if gname in ("not", "X"): c.add_gate("CNOT", ctrl, t)
         elif gname == "Z": c.add_gate("CZ", ctrl, t)
-        elif gname == "X": c.add_gate("CX", ctrl, t)
         else:
             raise TypeError("Unsupported controlled gate: " + gname)
     return c
-- 
2.43.0


From 06a720c29eeb7a34e3211d95411bbb3ca0f358da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:27 +0000
Subject: [PATCH 37/76] fix: tensors of diagrams with parallel edges,
 self-loops, bent wires, late inputs, or Hadamards on W nodes

tensorfy crashed or returned another tensor for these; compare_tensors compared tensors of
different shapes by broadcasting and relied on the first entry above 1e-14; is_unitary
raised an error for zero diagrams.
---
 pyzx/tensor.py | 63 +++++++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 1e931fc..37ef17a 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -38,7 +38,7 @@ import numpy as np
 np.set_printoptions(suppress=True)
 
 # typing imports
-from typing import TYPE_CHECKING, List, Dict, Union
+from typing import TYPE_CHECKING, List, Dict, Tuple, Union
 from .utils import FractionLike, FloatInt, VertexType, EdgeType, get_z_box_label
 if TYPE_CHECKING:
     from .graph.base import BaseGraph, VT, ET
@@ -60,8 +60,7 @@ def Z_to_tensor(arity: int, phase: float) -> np.ndarray:
 def X_to_tensor(arity: int, phase: float) -> np.ndarray:
     m = np.ones(2**arity, dtype = complex)
     if arity == 0:
-        m[()] = 1 + np.exp(1j*phase)
-        return m
+        return m.reshape([]) + np.exp(1j*phase)
     for i in range(2**arity):
         if bin(i).count("1")%2 == 0:
             m[i] += np.exp(1j*phase)
@@ -127,15 +126,22 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
     inputs = tuple(inputs)
     indices = {}
     for i, v in enumerate(inputs):
+        if types[v] != VertexType.BOUNDARY: raise ValueError("Wrong type for input:", v, types[v])
+        if g.vertex_degree(v) != 1: raise ValueError("Weird input")
         indices[v] = [1 + 2*i]
 
+    order = {v: i for i, v in enumerate(inputs)} # the inputs are already taken care of
+    for v in inputs: # unless they are connected to each other
+        e = list(g.incident_edges(v))[0]
+        w = next(w for w in g.neighbors(v))
+        if w in order and order[w] > order[v]:
+            contr = pop_and_shift([v,w],indices)
+            tensor = np.tensordot(tensor, had if g.edge_type(e) == EdgeType.HADAMARD else id2, axes=(contr,[0,1]))
+
     for i,r in enumerate(sorted(verts_row.keys())):
         for v in sorted(verts_row[r]):
-            neigh = list(g.neighbors(v))
-            d = len(neigh)
-            if v in inputs:
-                if types[v] != VertexType.BOUNDARY: raise ValueError("Wrong type for input:", v, types[v])
-                continue # inputs already taken care of
+            if v in inputs: continue
+            d = g.vertex_degree(v)
             if v in outputs:
                 if d != 1: raise ValueError("Weird output")
                 if types[v] != VertexType.BOUNDARY: raise ValueError("Wrong type for output:",v, types[v])
@@ -161,13 +167,20 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
                     t = Z_box_to_tensor(d, label)
                 else:
                     raise ValueError("Vertex %s has non-ZXH type but is not an input or output" % str(v))
-            nn = list(filter(lambda n: rows[n]<r or (rows[n]==r and n<v), neigh)) # TODO: allow ordering on vertex indices?
-            ety = {n:g.edge_type(g.edge(v,n)) for n in nn}
-            nn.sort(key=lambda n: ety[n])
-            for n in nn:
-                if ety[n] == EdgeType.HADAMARD:
+            earlier: List[Tuple['VT', EdgeType]] = [] # the edges to vertices that are already part of the tensor
+            for e in g.incident_edges(v):
+                s,n = g.edge_st(e)
+                if n == v: n = s
+                if n == v: # a self-loop connects two legs of t
+                    d -= 2
+                    t = np.tensordot(t, had if g.edge_type(e) == EdgeType.HADAMARD else id2, axes=2)
+                elif n in order: earlier.append((n, g.edge_type(e)))
+            order[v] = len(order)
+            earlier.sort(key=lambda ne: ne[1] == EdgeType.HADAMARD)
+            for n,ety in earlier:
+                if ety == EdgeType.HADAMARD:
                     t = np.tensordot(t,had,(0,0)) # Hadamard edges are moved to the last index of t
-            contr = pop_and_shift(nn,indices) #the last indices in contr correspond to hadamard contractions
+            contr = pop_and_shift([n for n,ety in earlier],indices) #the last indices in contr correspond to hadamard contractions
             tensor = np.tensordot(tensor,t,axes=(contr,list(range(len(t.shape)-len(contr),len(t.shape)))))
             indices[v] = list(range(len(tensor.shape)-d+len(contr), len(tensor.shape)))
 
@@ -220,15 +233,15 @@ def compare_tensors(t1: TensorConvertible,t2: TensorConvertible, preserve_scalar
         t1 = t1.to_tensor(preserve_scalar)
     if not isinstance(t2, np.ndarray):
         t2 = t2.to_tensor(preserve_scalar)
+    if t1.shape != t2.shape: return False
     if np.allclose(t1,t2): return True
     if preserve_scalar: return False # We do not check for equality up to scalar
     epsilon = 10**-14
-    for i,a in enumerate(t1.flat):
-        if abs(a)>epsilon:
-            if abs(t2.flat[i])<epsilon: return False
-            break
-    else:
+    i = np.argmax(np.abs(t1))
+    a = t1.flat[i]
+    if abs(a)<=epsilon:
         raise ValueError("Tensor is too close to zero")
+    if abs(t2.flat[i])<epsilon: return False
     return np.allclose(t1/a,t2/t2.flat[i])
 
 def find_scalar_correction(t1: TensorConvertible, t2:TensorConvertible) -> complex:
@@ -246,12 +259,9 @@ def find_scalar_correction(t1: TensorConvertible, t2:TensorConvertible) -> compl
         t2 = t2.to_tensor(preserve_scalar=True)
 
     epsilon = 10**-14
-    for i,a in enumerate(t1.flat):
-        if abs(a)>epsilon:
-            if abs(t2.flat[i])<epsilon: return 0
-            return a/t2.flat[i]
-
-    return 0
+    i = np.argmax(np.abs(t1))
+    if abs(t1.flat[i])<=epsilon or abs(t2.flat[i])<epsilon: return 0
+    return t1.flat[i]/t2.flat[i]
 
 
 def compose_tensors(t1: np.ndarray, t2: np.ndarray) -> np.ndarray:
@@ -306,4 +316,5 @@ def is_unitary(g: 'BaseGraph') -> bool:
     from .generate import identity # Imported here to prevent circularity
     adj = g.adjoint()
     adj.compose(g)
-    return compare_tensors(adj.to_tensor(), identity(len(g.inputs()),2).to_tensor(), False)
+    # The identity comes first, because the first tensor can't be zero
+    return compare_tensors(identity(len(g.inputs()),2).to_tensor(), adj.to_tensor(), False)
-- 
2.43.0


From 6dbc47ff946e09ff64037c8422a7e25f642ec11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:27 +0000
Subject: [PATCH 38/76] fix: quimb networks dropped isolated spiders,
 self-loops and zero scalars, and had open indices for leaves

Colour changes in to_gh and to_rg toggled self-loops.
---
 pyzx/quimb.py    | 25 ++++++++++++++++---------
 pyzx/simplify.py |  4 ++++
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/pyzx/quimb.py b/pyzx/quimb.py
index 3ddc8a3..8603d0e 100644
--- a/pyzx/quimb.py
+++ b/pyzx/quimb.py
@@ -53,13 +53,20 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
     to_gh(g)
     
     tensors = []
+    scalar_float = 0.0 if g.scalar.is_zero else complex(g.scalar.floatfactor)
 
     # Here we have phase tensors corresponding to Z-spiders with only one output and no input.
     for v in g.vertices():
-        if g.type(v) == VertexType.Z and g.phase(v) != 0:
-            phase = g.phase(v)
+        if g.type(v) not in (VertexType.Z, VertexType.BOUNDARY):
+            raise NotImplementedError("Quimb conversion only supports Z and X spiders")
+        phase = g.phase(v)
+        # An index that occurs in just one tensor would be an output of the network
+        if g.type(v) == VertexType.Z and (phase != 0 or len(list(g.incident_edges(v))) < 2):
             if isinstance(phase, Poly):
                 raise NotImplementedError("Quimb does not support symbolic phases")
+            if g.vertex_degree(v) == 0:
+                scalar_float *= 1 + np.exp(1j * np.pi * phase)
+                continue
             tensors.append(qtn.Tensor(data = [1, np.exp(1j * np.pi * phase)],
                                       inds = (f'{v}',),
                                       tags = ("V",)))
@@ -67,21 +74,21 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
 
     # Hadamard or Kronecker tensors, one for each edge of the diagram.
     for i, edge in enumerate(g.edges()):
-        x, y = edge
+        x, y = g.edge_st(edge)
         isHadamard = g.edge_type(edge) == EdgeType.HADAMARD
-        t = qtn.Tensor(data = qu.hadamard() if isHadamard else np.array([1, 0, 0, 1]).reshape(2, 2),
-                       inds = (f'{x}', f'{y}'),
+        data = qu.hadamard() if isHadamard else np.array([1, 0, 0, 1]).reshape(2, 2)
+        if x == y: # a self-loop
+            data = np.diagonal(data)
+        t = qtn.Tensor(data = data,
+                       inds = (f'{x}', f'{y}') if x != y else (f'{x}',),
                        tags = ("H",) if isHadamard else ("N",))
         tensors.append(t)
 
-    # TODO: This is not taking care of all the stuff that can be in g.scalar
-    # In particular, it doesn't check g.scalar.phasenodes
-    # TODO: This will give the wrong tensor when g.scalar.is_zero == True.
     # Grab the float factor and exponent from the scalar
     phase = g.scalar.phase
     if isinstance(phase, Poly):
         raise NotImplementedError("Quimb does not support symbolic phases")
-    scalar_float = np.exp(1j * np.pi * phase) * g.scalar.floatfactor
+    scalar_float *= np.exp(1j * np.pi * phase)
     for node in g.scalar.phasenodes:    # Each node is a Fraction
         if isinstance(node, Poly):
             raise NotImplementedError("Quimb does not support symbolic phases")
diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 0cc59da..6812ce6 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -285,6 +285,8 @@ def to_gh(g: BaseGraph[VT,ET],quiet:bool=True) -> None:
         if ty[v] == VertexType.X:
             g.set_type(v, VertexType.Z)
             for e in g.incident_edges(v):
+                s, t = g.edge_st(e)
+                if s == t: continue # both ends of a self-loop are toggled
                 et = g.edge_type(e)
                 g.set_edge_type(e, toggle_edge(et))
 
@@ -304,6 +306,8 @@ def to_rg(g: BaseGraph[VT,ET], select:Optional[Callable[[VT],bool]]=None) -> Non
         if select(v) and vertex_is_zx(ty[v]):
             g.set_type(v, toggle_vertex(ty[v]))
             for e in g.incident_edges(v):
+                s, t = g.edge_st(e)
+                if s == t: continue # both ends of a self-loop are toggled
                 g.set_edge_type(e, toggle_edge(g.edge_type(e)))
 
 def tcount(g: Union[BaseGraph[VT,ET], Circuit]) -> int:
-- 
2.43.0


From c0107efbe09222adae663086471843170acdf9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:27 +0000
Subject: [PATCH 39/76] fix: printed scalars lost -1, powers of sqrt(2) and
 phases; complex() of a zero scalar crashed

---
 pyzx/graph/scalar.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 75cb7e0..acc555f 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -110,7 +110,7 @@ class Scalar(object):
         return self.copy(conjugate=True)
 
     def to_number(self) -> complex:
-        if self.is_zero: return 0
+        if self.is_zero: return 0j
         val = cexp(self.phase)
         for node in self.phasenodes: # Node should be a Fraction
             val *= 1+cexp(node)
@@ -139,6 +139,7 @@ class Scalar(object):
                 s += fr"\exp(i~{str(self.phase)})".format(str(self.phase))
             else:
                 s += r"\exp(i~\frac{{{:d}\pi}}{{{:d}}})".format(self.phase.numerator,self.phase.denominator)
+        if s == "$-": s += "1"
         s += "$"
         if s == "$$": return ""
         return s
@@ -154,16 +155,15 @@ class Scalar(object):
         if isinstance(self.phase, Poly):
             raise NotImplementedError("Unicode representation of Poly not implemented")
         phase = Fraction(self.phase)
-        if self.phase >= 1:
+        if phase >= 1:
             f *= -1
             phase -= 1
 
-        if abs(f+1) > 0.001 and abs(f-1) > 0.001:
-            return str(f)
-
         s = ""
         if abs(f+1) < 0.001: #f \approx -1
             s += "-"
+        elif abs(f-1) > 0.0001: #f \neq 1
+            s += str(f)
         if self.power2 != 0:
             s += r"√2"
             if self.power2 < 0:
@@ -176,6 +176,7 @@ class Scalar(object):
                 s += unicode_fractions[phase] + "π)"
             else:
                 s += "{:d}/{:d}π)".format(phase.numerator,phase.denominator)
+        if s == "-": s += "1"
         return s
 
     def to_json(self) -> str:
-- 
2.43.0


From 0a3283234459e5636c09960f8f67c1edf3ee51d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 40/76] fix: calculate_path_sum lost isolated spiders without
 phase and crashed on isolated pairs

---
 pyzx/simulate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/simulate.py b/pyzx/simulate.py
index 0b4c295..28c9a8e 100644
--- a/pyzx/simulate.py
+++ b/pyzx/simulate.py
@@ -231,7 +231,7 @@ def calculate_path_sum(g: BaseGraph[VT,ET]) -> complex:
     xors = dict()
     for v in g.vertices():
         if v in variable_dict: continue
-        if not phases[v]: continue #It is the axle of a phase gadget, ignore it
+        if not phases[v] and g.vertex_degree(v) > 0: continue #It is the axle of a phase gadget, ignore it
         if g.vertex_degree(v) == 1: # Probably phase gadget
             w = list(g.neighbors(v))[0]
             if not phases[w]: # It is indeed a phase gadget
@@ -249,7 +249,8 @@ def calculate_path_sum(g: BaseGraph[VT,ET]) -> complex:
                 phase_v = phases[v]
                 if isinstance(phase_v, Poly):
                     raise NotImplementedError("Symbolic phases not supported")
-                xors[frozenset(targets)] = int(float(phase_v*4))
+                if targets: # Otherwise the phase doesn't matter
+                    xors[frozenset(targets)] = int(float(phase_v*4))
                 continue
         variable_dict[v] = len(variables)
         phase_v = phases[v]
-- 
2.43.0


From 057405081d26941ef86f6d5db63eba7d96f41a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:09 +0000
Subject: [PATCH 41/76] fix: symbolic phases: reduction modulo 2 and parsing
 keep the value of the polynomial

---
 pyzx/symbolic.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 152b888..3b3d0c8 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -210,7 +210,8 @@ class Poly:
         while len(self.terms) > 0 and self.degree >= other.degree:
             leading_term_dividend = sorted(self.terms)[0][1]
             leading_term_divisor = sorted(other.terms)[0][1]
-            coeff = sorted(self.terms)[0][0] / sorted(other.terms)[0][0]
+            coeff, divisor = sorted(self.terms)[0][0], sorted(other.terms)[0][0]
+            coeff = (Fraction(coeff) if isinstance(coeff, int) else coeff) / divisor
             new_term_quotient_vars = [(var, exp - dict(leading_term_divisor.vars).get(var, 0)) for var, exp in leading_term_dividend.vars]
             new_term_quotient = (coeff, Term(new_term_quotient_vars))
             quotient.terms.append(new_term_quotient)
@@ -227,7 +228,13 @@ class Poly:
         return self * (self ** (other - 1))
 
     def __mod__(self, other: int) -> 'Poly':
-        return Poly([(c % other, t) for c, t in self.terms if not isinstance(c, complex)])
+        # Only the terms that take integer values can be reduced, i.e. constants and products of Booleans
+        terms = [(c % other, t) if not isinstance(c, complex) and all(v.is_bool for v, _ in t.vars) else (c, t)
+                 for c, t in self.terms]
+        return Poly([(c, t) for c, t in terms if c != 0])
+
+    def __bool__(self) -> bool:
+        return any(c != 0 for c, _ in self.terms)
 
     def __repr__(self) -> str:
         return f'Poly({str(self)})'
@@ -241,7 +248,7 @@ class Poly:
                 ts.append(f'{t}')
             else:
                 ts.append(f'{c}{t}')
-        return ' + '.join(ts)
+        return ' + '.join(ts) or '0'
 
     def __eq__(self, other: object) -> bool:
         if isinstance(other, (int, float, Fraction)):
@@ -335,10 +342,12 @@ def new_const(coeff: Union[int, Fraction]) -> Poly:
 
 
 poly_grammar = Lark("""
-    start      : "(" start ")" | term ("+" term)*
+    start      : "(" start ")" | (term | neg) ("+" (term | neg) | neg)*
+    neg        : "-" term
     term       : (intf | frac)? factor ("*" factor)*
-    ?factor    : intf | frac | pi | pifrac | var
+    ?factor    : intf | frac | pi | pifrac | var | power
     var        : CNAME
+    power      : var "^" INT
     intf       : INT
     pi         : "\\pi" | "pi"
     frac       : INT "/" INT
@@ -362,7 +371,15 @@ class PolyTransformer(Transformer):
         return reduce(add, items)
 
     def term(self, items: List[Poly]) -> Poly:
-        return reduce(mul, items)
+        # The coefficient comes last: 2*x vanishes for a Boolean x, but 2*x*theta does not
+        coeff = reduce(mul, [p for p in items if not p.free_vars()], new_const(1))
+        return reduce(mul, [p for p in items if p.free_vars()] + [coeff])
+
+    def neg(self, items: List[Poly]) -> Poly:
+        return -items[0]
+
+    def power(self, items: List[Any]) -> Poly:
+        return items[0] ** int(items[1])
 
     def var(self, items: List[Any]) -> Poly:
         v = str(items[0])
-- 
2.43.0


From bb3ff62a39ca11e8126fce2469c3d6557592e52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:09 +0000
Subject: [PATCH 42/76] fix: rewriting and conversion no longer crash on
 symbolic phases

---
 pyzx/circuit/graphparser.py |  7 ++++---
 pyzx/rules.py               | 16 +++++++---------
 pyzx/simplify.py            | 12 ++++++------
 3 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/pyzx/circuit/graphparser.py b/pyzx/circuit/graphparser.py
index d49349d..d3a6cad 100644
--- a/pyzx/circuit/graphparser.py
+++ b/pyzx/circuit/graphparser.py
@@ -20,6 +20,7 @@ from . import Circuit
 from .gates import TargetMapper
 from ..utils import EdgeType, VertexType, FloatInt, FractionLike
 from ..graph import Graph
+from ..symbolic import Poly
 from ..graph.base import BaseGraph, VT, ET
 
 def graph_to_circuit(g:BaseGraph[VT,ET], split_phases:bool=True) -> Circuit:
@@ -52,12 +53,12 @@ def graph_to_circuit(g:BaseGraph[VT,ET], split_phases:bool=True) -> Circuit:
                 c.add_gate("HAD", q)
             if t == VertexType.BOUNDARY: #vertex is an output
                 continue
-            if phase!=0 and not split_phases:
+            if phase!=0 and (not split_phases or isinstance(phase, Poly)):
                 if t == VertexType.Z: c.add_gate("ZPhase", q, phase=phase)
                 else: c.add_gate("XPhase", q, phase=phase)
-            elif t == VertexType.Z and phase.denominator == 2:
+            elif t == VertexType.Z and phase != 0 and phase.denominator == 2:
                 c.add_gate("S", q, adjoint=(phase.numerator==3))
-            elif t == VertexType.Z and phase.denominator == 4:
+            elif t == VertexType.Z and phase != 0 and phase.denominator == 4:
                 if phase.numerator in (1,7): c.add_gate("T", q, adjoint=(phase.numerator==7))
                 if phase.numerator in (3,5):
                     c.add_gate("Z", q)
diff --git a/pyzx/rules.py b/pyzx/rules.py
index 06e7caa..456a56c 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -591,7 +591,7 @@ def match_pivot_boundary(
                     wrong_match = True
             if len(boundaries) != 1 or wrong_match: # n is not on the boundary,
                 continue             # has too many boundaries or has neighbors of wrong type
-            if phases[n] and hasattr(phases[n], 'denominator') and phases[n].denominator == 2:
+            if not isinstance(phases[n], Poly) and phases[n] and phases[n].denominator == 2:
                 w = n
                 bound = boundaries[0]
             if not w:
@@ -758,8 +758,7 @@ def lcomp(g: BaseGraph[VT,ET], matches: List[MatchLcompType[VT]]) -> RewriteOutp
     for m in matches:
         a = g.phase(m[0])
         rem.append(m[0])
-        assert isinstance(a,Fraction)  # For mypy
-        if a.numerator == 1: g.scalar.add_phase(Fraction(1,4))
+        if a == Fraction(1,2): g.scalar.add_phase(Fraction(1,4))
         else: g.scalar.add_phase(Fraction(7,4))
         n = len(m[1])
         g.scalar.add_power((n-2)*(n-1)//2)
@@ -854,8 +853,7 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
     outputs = g.outputs()
     # First we find all the phase-gadgets, and the list of vertices they act on
     for v in candidates:
-        non_clifford = phases[v] != 0 and getattr(phases[v], 'denominator', 1) > 2
-        if isinstance(phases[v], Poly): non_clifford = True
+        non_clifford = isinstance(phases[v], Poly) or (phases[v] != 0 and phases[v].denominator > 2)
         if non_clifford and len(list(g.neighbors(v)))==1:
             n = list(g.neighbors(v))[0]
             if phases[n] not in (0,1): continue # Not a real phase gadget (happens for scalar diagrams)
@@ -923,7 +921,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
     # First we find all the non-Clifford vertices and their list of neighbors
     while len(candidates) > 0:
         v = candidates.pop()
-        if phases[v] == 0 or phases[v].denominator <= 2: continue # Skip Clifford vertices
+        if isinstance(phases[v], Poly) or phases[v] == 0 or phases[v].denominator <= 2: continue # Skip symbolic and Clifford vertices
         neigh = set(g.neighbors(v))
         if any(types[w] != VertexType.Z for w in neigh.union({v})): continue
         if any(g.edge_type(e) != EdgeType.HADAMARD for e in g.incident_edges(v)): continue
@@ -942,7 +940,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
             if v in taken: continue
         else: parities[par] = [v]
         for w in neigh:
-            if phases[w] == 0 or phases[w].denominator <= 2 or w in taken: continue
+            if isinstance(phases[w], Poly) or phases[w] == 0 or phases[w].denominator <= 2 or w in taken: continue
             diff = neigh.symmetric_difference(g.neighbors(w))
             if len(diff) == 2: # Perfect overlap
                 if (phases[v] + phases[w]) % 2 == 0 or (phases[v] - phases[w]) % 2 == 1:
@@ -1044,7 +1042,7 @@ def match_gadgets_phasepoly(g: BaseGraph[VT,ET]) -> List[MatchPhasePolyType[VT]]
     outputs = g.outputs()
     for v in g.vertices():
         if v not in inputs and v not in outputs and len(list(g.neighbors(v)))==1:
-            if g.phase(v) != 0 and g.phase(v).denominator != 4: continue
+            if isinstance(g.phase(v), Poly) or (g.phase(v) != 0 and g.phase(v).denominator != 4): continue
             n = list(g.neighbors(v))[0]
             tgts = frozenset(set(g.neighbors(n)).difference({v}))
             if len(tgts)>4: continue
@@ -1052,7 +1050,7 @@ def match_gadgets_phasepoly(g: BaseGraph[VT,ET]) -> List[MatchPhasePolyType[VT]]
             for t in tgts:
                 if t in targets: targets[t].add(tgts)
                 else: targets[t] = {tgts}
-        if g.phase(v) != 0 and g.phase(v).denominator == 4:
+        if not isinstance(g.phase(v), Poly) and g.phase(v) != 0 and g.phase(v).denominator == 4:
             if v in targets: targets[v].add(frozenset([v]))
             else: targets[v] = {frozenset([v])}
     targets = {t:s for t,s in targets.items() if len(s)>1}
diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 6812ce6..4000793 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -30,7 +30,7 @@ __all__ = ['bialg_simp','spider_simp', 'id_simp', 'phase_free_simp', 'pivot_simp
 from optparse import Option
 from typing import List, Callable, Optional, Union, Generic, Tuple, Dict, Iterator, cast
 
-from .utils import EdgeType, VertexType, toggle_edge, vertex_is_zx, toggle_vertex
+from .utils import EdgeType, VertexType, toggle_edge, vertex_is_zx, toggle_vertex, phase_is_clifford
 from .rules import *
 from .graph.base import BaseGraph, VT, ET
 from .circuit import Circuit
@@ -241,14 +241,14 @@ class Simplifier(Generic[VT, ET]):
         p2 = self.mastergraph.phase(v2)
         m1 = self.simplifygraph.phase_mult[i1]
         m2 = self.simplifygraph.phase_mult[i2]
-        if (p2 == 0 or p2.denominator <= 2): # Deleted vertex contains Clifford phase
+        if phase_is_clifford(p2 % 2): # Deleted vertex contains Clifford phase
             if v2 in self.phantom_phases:
                 v3,i3 = self.phantom_phases[v2]
                 m2 = cast(Literal[1, -1], m2*self.simplifygraph.phase_mult[i3])
                 v2,i2 = v3,i3
                 p2 = self.mastergraph.phase(v2)
             else: return
-        if (p1 == 0 or p1.denominator <= 2): # Need to save non-Clifford location
+        if phase_is_clifford(p1 % 2): # Need to save non-Clifford location
             self.simplifygraph.phase_mult[i1] = 1
             if v1 in self.phantom_phases: # Already fused with non-Clifford before
                 v3,i3 = self.phantom_phases[v1]
@@ -257,14 +257,14 @@ class Simplifier(Generic[VT, ET]):
                 p1 = self.mastergraph.phase(v3)
                 m1 = cast(Literal[1, -1], m1*self.simplifygraph.phase_mult[i3])
                 self.simplifygraph.phase_mult[i1] = m1 # v3 is now referred to by i1
-                if (p1+m1*m2*p2).denominator <= 2:
+                if phase_is_clifford((p1+m1*m2*p2) % 2):
                     del self.phantom_phases[v1]
                 v1,i1 = v3,i3
             else:
                 self.phantom_phases[v1] = (v2,i2)
                 self.simplifygraph.phase_mult[i2] = m2
                 return
-        if p1.denominator <= 2 or p2.denominator <= 2: raise Exception("Clifford phases here??")
+        if phase_is_clifford(p1 % 2) or phase_is_clifford(p2 % 2): raise Exception("Clifford phases here??")
         # Both have non-Clifford phase
         if m1*m2 == 1: phase = (p1 + p2)%2
         else: phase = p1 - p2
@@ -317,7 +317,7 @@ def tcount(g: Union[BaseGraph[VT,ET], Circuit]) -> int:
     count = 0
     phases = g.phases()
     for v in g.vertices():
-        if phases[v]!=0 and phases[v].denominator > 2:
+        if phases[v]!=0 and not phase_is_clifford(phases[v] % 2):
             count += 1
     return count
 
-- 
2.43.0


From 6ce2aad7044700f9b389aa5c623c218830c85be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:09 +0000
Subject: [PATCH 43/76] fix: strong complementarity keeps the sign of symbolic
 Pauli phases

---
 pyzx/basicrules.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index a727cc4..520dd2a 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -111,8 +111,7 @@ def strong_comp(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
             g.add_edge((n1,n2))
 
     g.scalar.add_power((len(nhd[0]) - 1) * (len(nhd[1]) - 1))
-    if g.phase(v1) == 1 and g.phase(v2) == 1:
-        g.scalar.add_phase(1)
+    g.scalar.add_phase(g.phase(v1) * g.phase(v2))
 
     g.remove_vertex(v1)
     g.remove_vertex(v2)
@@ -134,8 +133,7 @@ def copy_X(g: BaseGraph[VT,ET], v: VT) -> bool:
     if not check_copy_X(g, v): return False
     nv = next(iter(g.neighbors(v)))
     if not is_pauli(g.phase(nv)): # any phase is copied through: it only contributes to the scalar
-        if g.phase(v) == 1:
-            g.scalar.add_phase(g.phase(nv))
+        g.scalar.add_phase(g.phase(v) * g.phase(nv))
         g.set_phase(nv, 0)
 
     return strong_comp(g, v, nv)
-- 
2.43.0


From 3aa2b116961cbfcf9d40d4157f5a7944737713c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:35 +0000
Subject: [PATCH 44/76] fix: copying a symbolic Pauli phase gave the wrong
 scalar when it is a sum of Booleans

---
 pyzx/basicrules.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 520dd2a..ddf1943 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -48,6 +48,7 @@ __all__ = ['color_change_diagram',
 from typing import Tuple, List
 from .graph.base import BaseGraph, VT, ET
 from .rules import apply_rule, w_fusable, w_fusion, z_to_z_box
+from .symbolic import Poly, new_const
 from .utils import (EdgeType, VertexType, get_w_io, get_z_box_label, is_pauli,
                     set_z_box_label, vertex_is_w, vertex_is_z_like, vertex_is_zx, toggle_vertex, toggle_edge)
 
@@ -133,7 +134,15 @@ def copy_X(g: BaseGraph[VT,ET], v: VT) -> bool:
     if not check_copy_X(g, v): return False
     nv = next(iter(g.neighbors(v)))
     if not is_pauli(g.phase(nv)): # any phase is copied through: it only contributes to the scalar
-        g.scalar.add_phase(g.phase(v) * g.phase(nv))
+        a = g.phase(v)
+        if isinstance(a, Poly): # a stands for the parity of its terms
+            scalar = new_const(0)
+            for c, t in a.terms:
+                if c % 2 != 0:
+                    b = Poly([(1, t)])
+                    scalar = scalar + b * g.phase(nv) - scalar * b * 2
+            g.scalar.add_phase(scalar)
+        elif a == 1: g.scalar.add_phase(g.phase(nv))
         g.set_phase(nv, 0)
 
     return strong_comp(g, v, nv)
-- 
2.43.0


From 449237ca86d97de9a0c97ceac06c09aa413046c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:27 +0000
Subject: [PATCH 45/76] fix: rewriting hybrid diagrams no longer drops or
 ignores discarded (ground) spiders

---
 pyzx/basicrules.py     |  8 ++++++--
 pyzx/editor_actions.py |  3 ++-
 pyzx/graph/base.py     |  5 +++++
 pyzx/hrules.py         |  1 +
 pyzx/rules.py          | 13 ++++++-------
 5 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index ddf1943..6b8943e 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -85,6 +85,7 @@ def check_strong_comp(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
              (g.type(v1) == VertexType.Z and g.type(v2) == VertexType.X)) and
             is_pauli(g.phase(v1)) and
             is_pauli(g.phase(v2)) and
+            not g.is_ground(v1) and not g.is_ground(v2) and
             g.connected(v1,v2) and
             g.edge_type(g.edge(v1,v2)) == EdgeType.SIMPLE):
         return False
@@ -122,10 +123,12 @@ def strong_comp(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
 def check_copy_X(g: BaseGraph[VT,ET], v: VT) -> bool:
     if not (g.vertex_degree(v) == 1 and
             g.type(v) == VertexType.X and
-            is_pauli(g.phase(v))):
+            is_pauli(g.phase(v)) and
+            not g.is_ground(v)):
         return False
     nv = next(iter(g.neighbors(v)))
     if not (g.type(nv) == VertexType.Z and
+            not g.is_ground(nv) and
             g.edge_type(g.edge(v,nv)) == EdgeType.SIMPLE):
         return False
     return True
@@ -217,6 +220,7 @@ def fuse(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
         set_z_box_label(g, v1, get_z_box_label(g, v1) * get_z_box_label(g, v2))
     else:
         g.add_to_phase(v1, g.phase(v2))
+    if g.is_ground(v2): g.set_ground(v1)
     for e in g.incident_edges(v2):
         source, target = g.edge_st(e)
         other_vertex = source if source != v2 else target
@@ -246,7 +250,7 @@ def fuse_w(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
     return True
 
 def check_remove_id(g: BaseGraph[VT,ET], v: VT) -> bool:
-    if not g.vertex_degree(v) == 2:
+    if not g.vertex_degree(v) == 2 or g.is_ground(v):
         return False
     if g.type(v) == VertexType.Z_BOX and get_z_box_label(g, v) == 1:
         return True
diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index 956e506..f038a67 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -67,7 +67,7 @@ def pauli_matcher(
     types = g.types()
     m: List[Tuple[VT,VT]] = []
     paulis = {v for v in candidates
-                if phases[v] == 1 and vertex_is_zx(types[v])}
+                if phases[v] == 1 and vertex_is_zx(types[v]) and not g.is_ground(v)}
     if not paulis: return m
     while len(candidates) > 0:
         v = candidates.pop()
@@ -233,6 +233,7 @@ def match_bialgebra(g: BaseGraph[VT,ET],
         e = candidates.pop()
         if g.edge_type(e) != EdgeType.SIMPLE: continue
         v,w = g.edge_st(e)
+        if g.is_ground(v) or g.is_ground(w): continue
         if types[v] != VertexType.X:
             v,w = w,v
         if types[v] != VertexType.X: continue
diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index cc8d325..31ff684 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -794,6 +794,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     self.scalar.add_phase(self.phase(v))
                 elif ty == VertexType.Z_BOX:
                     self.scalar.add_float(1+complex(get_z_box_label(self, v)))
+                elif self.is_ground(v): # The two halves of the doubled diagram together give 2
+                    self.scalar.add_power(1)
                 else: self.scalar.add_node(self.phase(v))
             if d == 1: # It has a unique neighbor
                 if v in rem: continue # Already taken care of
@@ -804,6 +806,9 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 # At this point w and v are only connected to each other
                 rem.append(v)
                 rem.append(w)
+                if (self.is_ground(v) or self.is_ground(w)) and vertex_is_zx(self.type(v)) and vertex_is_zx(self.type(w)):
+                    self.scalar.add_power(1) # The two halves of the doubled diagram together give 2
+                    continue
                 et = self.edge_type(self.edge(v,w))
                 t1 = self.type(v)
                 t2 = self.type(w)
diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 59cfcbe..c84ea4d 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -120,6 +120,7 @@ def match_copy(
         v = candidates.pop()
         if phases[v] not in (0,1) or types[v] == VertexType.BOUNDARY or g.vertex_degree(v) != 1:
                     continue
+        if g.is_ground(v): continue # A discarded spider is not a basis state
         w = list(g.neighbors(v))[0]
         if w in taken: continue
         tv = types[v]
diff --git a/pyzx/rules.py b/pyzx/rules.py
index 456a56c..181ac5f 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -504,7 +504,7 @@ def match_pivot_gadget(
         elif v1a in (0,1): continue
         # Now v0 has a Pauli phase and v1 has a non-Pauli phase
 
-        if g.is_ground(v0):
+        if g.is_ground(v0) or g.is_ground(v1):
             continue
 
         v0n = list(g.neighbors(v0))
@@ -579,9 +579,6 @@ def match_pivot_boundary(
             if n in consumed_vertices:
                 good_vert = False
                 break
-            if g.is_ground(n) in consumed_vertices:
-                good_vert = False
-                break
             boundaries: List[VT] = []
             wrong_match = False
             for b in g.neighbors(n):
@@ -589,7 +586,7 @@ def match_pivot_boundary(
                     boundaries.append(b)
                 elif types[b] != VertexType.Z or g.edge_type(g.edge(n,b)) != EdgeType.HADAMARD:
                     wrong_match = True
-            if len(boundaries) != 1 or wrong_match: # n is not on the boundary,
+            if len(boundaries) != 1 or wrong_match or g.is_ground(n): # n is not on the boundary,
                 continue             # has too many boundaries or has neighbors of wrong type
             if not isinstance(phases[n], Poly) and phases[n] and phases[n].denominator == 2:
                 w = n
@@ -857,6 +854,7 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
         if non_clifford and len(list(g.neighbors(v)))==1:
             n = list(g.neighbors(v))[0]
             if phases[n] not in (0,1): continue # Not a real phase gadget (happens for scalar diagrams)
+            if g.is_ground(v) or g.is_ground(n): continue # Not a real phase gadget (happens for hybrid diagrams)
             if n in gadgets: continue # Not a real phase gadget (happens for scalar diagrams)
             if n in inputs or n in outputs: continue # Not a real phase gadget (happens for non-unitary diagrams)
             if types[v] != VertexType.Z or types[n] != VertexType.Z: continue
@@ -922,6 +920,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
     while len(candidates) > 0:
         v = candidates.pop()
         if isinstance(phases[v], Poly) or phases[v] == 0 or phases[v].denominator <= 2: continue # Skip symbolic and Clifford vertices
+        if g.is_ground(v): continue
         neigh = set(g.neighbors(v))
         if any(types[w] != VertexType.Z for w in neigh.union({v})): continue
         if any(g.edge_type(e) != EdgeType.HADAMARD for e in g.incident_edges(v)): continue
@@ -940,7 +939,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
             if v in taken: continue
         else: parities[par] = [v]
         for w in neigh:
-            if isinstance(phases[w], Poly) or phases[w] == 0 or phases[w].denominator <= 2 or w in taken: continue
+            if isinstance(phases[w], Poly) or phases[w] == 0 or phases[w].denominator <= 2 or w in taken or g.is_ground(w): continue
             diff = neigh.symmetric_difference(g.neighbors(w))
             if len(diff) == 2: # Perfect overlap
                 if (phases[v] + phases[w]) % 2 == 0 or (phases[v] - phases[w]) % 2 == 1:
@@ -999,7 +998,7 @@ def match_copy(
 
     while len(candidates) > 0:
         v = candidates.pop()
-        if phases[v] not in (0,1) or types[v] != VertexType.Z or g.vertex_degree(v) != 1: continue
+        if phases[v] not in (0,1) or types[v] != VertexType.Z or g.vertex_degree(v) != 1 or g.is_ground(v): continue
         w = list(g.neighbors(v))[0]
         if types[w] != VertexType.Z: continue
         neigh = [n for n in g.neighbors(w) if n != v]
-- 
2.43.0


From d357727b11ad133ea2c9921ccae4724c1983587c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:27 +0000
Subject: [PATCH 46/76] fix: circuit extraction, from_graph and verify_equality
 refuse diagrams and circuits that discard instead of ignoring it

---
 pyzx/circuit/__init__.py    | 2 +-
 pyzx/circuit/graphparser.py | 2 ++
 pyzx/extract.py             | 9 +++++++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 99b4d03..bf3e293 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -84,7 +84,7 @@ class Circuit(object):
             up_to_swaps: if set to True, only checks equality up to a permutation of the qubits.
 
         """
-        if self.bits or other.bits:
+        if self.bits or other.bits or any(isinstance(g, Measurement) for g in self.gates + other.gates):
             # TODO once full_gnd_reduce is merged
             raise NotImplementedError("The equality verification does not support hybrid circuits.")
 
diff --git a/pyzx/circuit/graphparser.py b/pyzx/circuit/graphparser.py
index d3a6cad..78b2c5d 100644
--- a/pyzx/circuit/graphparser.py
+++ b/pyzx/circuit/graphparser.py
@@ -24,6 +24,8 @@ from ..symbolic import Poly
 from ..graph.base import BaseGraph, VT, ET
 
 def graph_to_circuit(g:BaseGraph[VT,ET], split_phases:bool=True) -> Circuit:
+    if g.is_hybrid():
+        raise TypeError("Graph doesn't seem circuit like: it contains discarded spiders")
     inputs = g.inputs()
     qs = g.qubits()
     rs = g.rows()
diff --git a/pyzx/extract.py b/pyzx/extract.py
index e7ccb2d..ec413a1 100644
--- a/pyzx/extract.py
+++ b/pyzx/extract.py
@@ -616,6 +616,9 @@ def extract_circuit(
         then input `g.copy()` into `extract_circuit`.
     """
 
+    if g.is_hybrid():
+        raise ValueError("Extraction does not support hybrid diagrams: some spiders are discarded")
+
     gadgets = {}
     inputs = g.inputs()
     outputs = g.outputs()
@@ -719,6 +722,8 @@ def extract_simple(g: BaseGraph[VT, ET], up_to_perm: bool = True) -> Circuit:
         up_to_perm: If true, returns a circuit that is equivalent to the given graph up to a permutation of the inputs.
     """
     
+    if g.is_hybrid():
+        raise ValueError("Extraction does not support hybrid diagrams: some spiders are discarded")
     progress = True
     outputs = g.outputs()
     circ = Circuit(len(outputs))
@@ -812,6 +817,8 @@ def extract_clifford_normal_form(g: BaseGraph[VT,ET]) -> Circuit:
     *Graph-theoretic Simplification of Quantum Circuits with the ZX-calculus* (https://arxiv.org/abs/1902.03178).
     That is, a circuit consisting of layers Had-Phase-CZ-CNOT-Had-CZ-Phase-Had.
     """
+    if g.is_hybrid():
+        raise ValueError("Extraction does not support hybrid diagrams: some spiders are discarded")
     # We prepare the circuit in the same way as we do in simplify.to_clifford_normal_form_graph()
     # To make it foolproof, we process it in the desired way first.
     full_reduce(g)
@@ -1305,6 +1312,8 @@ def lookahead_extract_base(
         A circuit that corresponds to the given graph, with two qubit count / depth less than 'hard_limit'; None if no such circuit was found
     """
 
+    if g.is_hybrid():
+        raise ValueError("Extraction does not support hybrid diagrams: some spiders are discarded")
     if steps < 1:
         steps = len(g.inputs()) * 3
     if depth_limit < 1:
-- 
2.43.0


From 72025880022963a3748791b62c5fb66efc4f11cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:27 +0000
Subject: [PATCH 47/76] fix: generate.cnots returned its outputs in reversed
 order; generators rejected rounded probabilities or did not return on one
 qubit

---
 pyzx/generate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index f653e06..bce1df5 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -144,6 +144,8 @@ def CNOT_HAD_PHASE_circuit(
 
     """
     p_cnot = 1-p_had-p_t
+    if qubits < 2 and p_cnot > 1e-9:
+        raise ValueError("CNOT gates need at least two qubits")
     c = Circuit(qubits)
     for _ in range(depth):
         r = random.random()
@@ -234,7 +236,7 @@ def cnots(qubits: int, depth: int, backend:Optional[str]=None) -> BaseGraph:
     outputs = []
     for i in range(qubits):
         inputs.append(i)
-        outputs.append(v-i-1)
+        outputs.append(v-qubits+i)
 
     g.set_inputs(tuple(inputs))
     g.set_outputs(tuple(outputs))
@@ -293,7 +295,8 @@ def cliffordTmeas(
     if p_meas is None: num += 1.0
     else: rest -= p_meas
 
-    if rest < 0: raise ValueError("Probabilities are >1.")
+    if rest < -1e-9: raise ValueError("Probabilities are >1.") # Some room for rounding errors
+    rest = max(rest, 0.0)
 
     if p_t is None: p_t = rest / num
     if p_s is None: p_s = rest / num
-- 
2.43.0


From f17c18ef0690684379f43de06afc49f264070ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:53 +0000
Subject: [PATCH 48/76] fix: local search: anneal's default score did not
 simplify and crashed, random moves crashed without candidates, top_half
 selection shared mutants

---
 pyzx/local_search/congruences.py         | 3 ++-
 pyzx/local_search/genetic.py             | 4 ++--
 pyzx/local_search/simulated_annealing.py | 7 ++++++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyzx/local_search/congruences.py b/pyzx/local_search/congruences.py
index ee509b1..21b4c4f 100644
--- a/pyzx/local_search/congruences.py
+++ b/pyzx/local_search/congruences.py
@@ -147,6 +147,7 @@ def apply_rand_lc(g, weight_func=uniform_weights):
     """Applies local complementation to randomly selected spider"""
 
     lc_vs = [v for v in g.vertices() if is_lc_vertex(g, v)]
+    if not lc_vs: return # Nowhere to apply it
     weights = weight_func(g, lc_vs)
     lc_v = np.random.choice(lc_vs, 1, p=weights)[0]
     lc_cong2(g, lc_v)
@@ -204,8 +205,8 @@ def pivot_cong(g, v1, v2):
 def apply_rand_pivot(g, weight_func=uniform_weights):
     """Applies pivoting to a randomly selected pair of connected spiders"""
 
-    # assumes len(candidates) != 0
     candidates = [e for e in g.edges() if is_pivot_edge(g, e)]
+    if not candidates: return # Nowhere to apply it
     weights = weight_func(g, candidates)
     e_idx = np.random.choice(len(candidates), 1, p=weights)[0]
     e = candidates[e_idx]
diff --git a/pyzx/local_search/genetic.py b/pyzx/local_search/genetic.py
index c347049..6a4e158 100644
--- a/pyzx/local_search/genetic.py
+++ b/pyzx/local_search/genetic.py
@@ -135,9 +135,9 @@ class GeneticOptimizer():
             n = self.n_mutants // 2
             top_half = ms_tmp[:n]
             if self.n_mutants % 2 == 0:
-                self.mutants = deepcopy(top_half) * 2
+                self.mutants = deepcopy(top_half) + deepcopy(top_half)
             else:
-                self.mutants = deepcopy(top_half) * 2 + deepcopy([ms_tmp[0]])
+                self.mutants = deepcopy(top_half) + deepcopy(top_half) + deepcopy([ms_tmp[0]])
         elif method == "top_n":
             n = 10
             ms_tmp = self.mutants.copy()
diff --git a/pyzx/local_search/simulated_annealing.py b/pyzx/local_search/simulated_annealing.py
index 06d8eec..f887184 100644
--- a/pyzx/local_search/simulated_annealing.py
+++ b/pyzx/local_search/simulated_annealing.py
@@ -36,10 +36,15 @@ This module contains an implementation of simulated annealing over ZX-diagrams.
 __all__ = ['anneal']
 
 # simulated annealing
+def simplified_score(g):
+    """The complexity of the circuit extracted from the simplification of the given diagram.
+    A diagram to which congruences have been applied has to be simplified in order to extract a circuit from it."""
+    return g_wgc(g, g_simplify=True)
+
 def anneal(g, iters=1000,
            temp=25,
            cool=0.005,
-           score=g_wgc,
+           score=simplified_score,
            cong_ps=[0.5, 0.5],
            lc_select=uniform_weights,
            pivot_select=uniform_weights,
-- 
2.43.0


From 772df018b02dc931434e9f3d02b5fc4b3f85966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:14 +0000
Subject: [PATCH 49/76] fix: the cnots command parsed sys.argv instead of its
 own arguments

---
 pyzx/scripts/cnot_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/scripts/cnot_generator.py b/pyzx/scripts/cnot_generator.py
index 6b49273..2388928 100644
--- a/pyzx/scripts/cnot_generator.py
+++ b/pyzx/scripts/cnot_generator.py
@@ -57,7 +57,7 @@ parser.add_argument(
 
 
 def main(args):
-    args = parser.parse_args()
+    args = parser.parse_args(args)
     if args.n_cnots is None:
         parser.error(
             message="Please specify the number of CNOT gates to be generated with the -d flag."
-- 
2.43.0


From 6602bc1a3e07137e96d1fbcbc8f573187700a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:54 +0000
Subject: [PATCH 50/76] fix: draw_d3 wrote vertex data with quotes or
 backslashes as broken JavaScript

---
 pyzx/drawing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/drawing.py b/pyzx/drawing.py
index d3f4983..973e538 100644
--- a/pyzx/drawing.py
+++ b/pyzx/drawing.py
@@ -363,11 +363,11 @@ var d3;
 if (d3 == null) {{ d3 = await import("https://cdn.skypack.dev/d3@5"); }}
 {library_code}
 showGraph('#graph-output-{id}',
-  JSON.parse('{graph}'), {width}, {height}, {scale},
+  JSON.parse({graph}), {width}, {height}, {scale},
   {node_size}, {hbox}, {labels}, '{scalar_str}');
 </script>""".format(library_code=library_code,
                     id = graph_id,
-                    graph = graphj, 
+                    graph = json.dumps(graphj),
                     width=w, height=h, scale=scale, node_size=node_size,
                     hbox = 'true' if auto_hbox else 'false',
                     labels='true' if labels else 'false',
-- 
2.43.0


From 9e704d940e44ac4c6dc1de03e014d30150956b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:54 +0000
Subject: [PATCH 51/76] fix: graphs_to_gif put the frames in the arbitrary
 order of the directory listing

---
 pyzx/drawing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/drawing.py b/pyzx/drawing.py
index 973e538..a278c4b 100644
--- a/pyzx/drawing.py
+++ b/pyzx/drawing.py
@@ -638,12 +638,12 @@ def graphs_to_gif(graphs: List[BaseGraph], filename: str, frame_duration: float=
 
     with tempfile.TemporaryDirectory() as tmpdirname:
         #print(tz)
+        images = []
         for i,g in enumerate(graphs):
             fig = draw_matplotlib(g)
             fname = os.path.join(tmpdirname, "graph{:03d}.png".format(i))
             fig.savefig(fname)
-        image_path = Path(tmpdirname)
-        images = list(image_path.glob('*.png'))
+            images.append(Path(fname))
         image_list = []
         for file_name in images:
             image_list.append(imageio.imread(file_name))
-- 
2.43.0


From ba60abb7bee321b3fcbd06213a56d2ae72dc6d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:55 +0000
Subject: [PATCH 52/76] fix: pretty_complex printed odd multiples of 1/sqrt(2),
 1/(4 sqrt(2)) and negative special imaginary parts wrongly

---
 pyzx/drawing.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyzx/drawing.py b/pyzx/drawing.py
index a278c4b..0baa725 100644
--- a/pyzx/drawing.py
+++ b/pyzx/drawing.py
@@ -422,7 +422,7 @@ sqrt_vals = {
     math.sqrt(1/2): r"\frac{1}{\sqrt{2}}",
     2*math.sqrt(2): r"2\sqrt{2}",
     math.sqrt(1/2)/2: r"\frac{1}{2\sqrt{2}}",
-    math.sqrt(1/2)/4: r"\frac{1}{2\sqrt{4}}"
+    math.sqrt(1/2)/4: r"\frac{1}{4\sqrt{2}}"
 }
 
 for v,s in simple_vals.items():
@@ -439,6 +439,12 @@ def strip_brackets(s:str) -> str:
         return s[6:-7]
     return s
 
+def sqrt2_multiple(n: int) -> str:
+    """Pretty print n/sqrt(2)."""
+    if n % 2 == 0: return f"{n//2:d}\\sqrt{{2}}"
+    sign = "-" if n < 0 else ""
+    return f"{sign}\\frac{{{abs(n):d}}}{{\\sqrt{{2}}}}"
+
 def pretty_complex(z: complex) -> str:
     """Pretty print a complex number. Suitable for including in a
     Jupyter widgets Label()."""
@@ -466,8 +472,7 @@ def pretty_complex(z: complex) -> str:
                 if abs(round(a)-a) < 0.0001:
                     out += str(round(a))
                 elif abs(round(a*math.sqrt(2))-a*math.sqrt(2)) < 0.0001:
-                    v = a/math.sqrt(2)
-                    out += f"{round(v):d}\\sqrt{{2}}"
+                    out += sqrt2_multiple(round(a*math.sqrt(2)))
                 else:
                     out += f"{a:.2f}".rstrip("0").rstrip(".")
                 real_part = True
@@ -478,7 +483,7 @@ def pretty_complex(z: complex) -> str:
         else:
             for v,s in special_vals.items():
                 if abs(b-v) < 0.0001:
-                    if b > 0:
+                    if not s.startswith("-"):
                         out += "+"
                     out += s + "i"
                     imag_part = True
@@ -496,8 +501,7 @@ def pretty_complex(z: complex) -> str:
                         if abs(round(b)-b) < 0.0001:
                             out += str(round(b))
                         elif abs(round(b*math.sqrt(2))-b*math.sqrt(2)) < 0.0001:
-                            v = b/math.sqrt(2)
-                            out += f"{round(v):d}\\sqrt{{2}}"
+                            out += sqrt2_multiple(round(b*math.sqrt(2)))
                         else:
                             out += f"{b:.2f}".rstrip("0").rstrip(".")
                     out += "i"
@@ -538,12 +542,11 @@ def pretty_complex(z: complex) -> str:
                 if abs(round(r)-r) < 0.0001:
                     out += str(round(r))
                 elif abs(round(r*math.sqrt(2))-r*math.sqrt(2)) < 0.0001:
-                    v = r/math.sqrt(2)
-                    out += f"{round(v):d}\\sqrt{{2}}"
+                    out += sqrt2_multiple(round(r*math.sqrt(2)))
                 else:
                     out += f"{r:.2f}".rstrip("0").rstrip(".")
                 if abs(f) > 1:
-                    out += f"\cdot 10^{{{-f}}}"
+                    out += f"\\cdot 10^{{{-f}}}"
     
     minus = ""
     if arg < 0:
-- 
2.43.0


From 026ea6a5c4a476ec1d5ea224bb1777050bde3f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:26 +0000
Subject: [PATCH 53/76] fix: the location of the JavaScript files was relative
 to the working directory at import, so drawing failed after a chdir

---
 pyzx/utils.py | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/pyzx/utils.py b/pyzx/utils.py
index 6724137..23698df 100644
--- a/pyzx/utils.py
+++ b/pyzx/utils.py
@@ -151,25 +151,10 @@ class Settings(object): # namespace class
 settings = Settings()
 
 
-settings.javascript_location = os.path.join(os.path.dirname(__file__), 'js')
+settings.javascript_location = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'js')
 
 # We default to importing d3 from a CDN
 settings.d3_load_string = 'require.config({paths: {d3: "https://cdnjs.cloudflare.com/ajax/libs/d3/5.16.0/d3.min"} });'
-# However, if we are working in the pyzx directory itself, we can use the copy of d3
-# local to pyzx, which doesn't require an internet connection
-# We only do this if we believe we are running in the PyZX directory itself.
-
-try:
-    relpath = os.path.relpath(settings.javascript_location, os.getcwd())
-    if relpath.count('..') <= 2: # We are *probably* working in the PyZX directory
-        settings.javascript_location = os.path.relpath(settings.javascript_location, os.getcwd())
-        #settings.d3_load_string = 'require.config({{baseUrl: "{}",paths: {{d3: "d3.v5.min"}} }});'.format(
-        #                    settings.javascript_location.replace('\\','/'))
-        # TODO: This will fail if Jupyter is started in the parent directory of pyzx, while
-        # the notebook is not in the pyzx directory
-except ValueError: # relpath raises this Exception when the drive letters don't match
-    pass
-
 
 settings.mode = ''
 def get_mode():
-- 
2.43.0


From 71c47e661422b4647716c4b74e8373359616827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:04 +0000
Subject: [PATCH 54/76] fix: the editor could not handle symbolic phases and
 phases with denominators over 256

---
 pyzx/editor.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index 2a7e21c..7c70761 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -25,10 +25,12 @@ from typing import Callable, Optional, List, Tuple, Set, Dict, Any, Union
 import pyperclip # type: ignore # Needed for clipboard actions
 
 from .utils import EdgeType, VertexType, toggle_edge, vertex_is_zx, toggle_vertex
-from .utils import settings, get_mode, phase_to_s, FloatInt
+from .utils import settings, get_mode, phase_to_s, FloatInt, FractionLike
 from .drawing import matrix_to_latex
 from .graph import Scalar
 from .graph.graph import GraphS
+from .graph.jsonparser import string_to_phase
+from .symbolic import Poly
 from . import rules
 from . import tikz
 
@@ -117,6 +119,18 @@ def load_js() -> None:
 			</script>""".format(settings.d3_load_string,data1,data2)
 	display(HTML(text))
 
+def phase_label(phase: FractionLike, t:VertexType=VertexType.Z) -> str:
+	"""The phase as shown in the editor, from which :func:`label_to_phase` gets it back exactly."""
+	if not isinstance(phase, Poly) and Fraction(phase).denominator > 256: # phase_to_s approximates these
+		return '{}\u03c0/{}'.format(Fraction(phase).numerator, Fraction(phase).denominator)
+	return phase_to_s(phase, t)
+
+def label_to_phase(s: str, t:VertexType, g: GraphS) -> Union[Fraction,Poly]:
+	try:
+		return s_to_phase(s, t)
+	except ValueError: # a symbolic phase
+		return string_to_phase(s, g)
+
 def s_to_phase(s: str, t:VertexType=VertexType.Z) -> Fraction:
 	if not s: 
 		if t!= VertexType.H_BOX: return Fraction(0)
@@ -128,6 +142,7 @@ def s_to_phase(s: str, t:VertexType=VertexType.Z) -> Fraction:
 		if a == '-': a = '-1'
 		return Fraction(int(a),int(b))
 	if not s: return Fraction(1)
+	if s == '-': s = '-1'
 	return Fraction(int(s))
 
 def graph_to_json(g: GraphS, scale:FloatInt, verts:Optional[List[int]]=None,edges:Optional[List[Tuple[int,int]]]=None) -> str:
@@ -139,7 +154,7 @@ def graph_to_json(g: GraphS, scale:FloatInt, verts:Optional[List[int]]=None,edge
 			  'x': (g.row(v) + 1) * scale,
 			  'y': (g.qubit(v) + 2) * scale,
 			  't': g.type(v),
-			  'phase': phase_to_s(g.phase(v),g.type(v)) }
+			  'phase': phase_label(g.phase(v),g.type(v)) }
 			 for v in verts]
 	links = [{'source': int(g.edge_s(e)),
 			  'target': int(g.edge_t(e)),
@@ -375,7 +390,7 @@ class ZXEditorWidget(widgets.DOMWidget):
 				r = float(n["x"])/scale -1
 				q = float(n["y"])/scale -2
 				t = int(n["t"])
-				phase = s_to_phase(n["phase"], t) # type: ignore
+				phase = label_to_phase(n["phase"], t, self.graph) # type: ignore
 				if v not in marked:
 					self.graph.add_vertex_indexed(v)
 				else: 
-- 
2.43.0


From bde3c87f99df9884307362e064669f45db679c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:04 +0000
Subject: [PATCH 55/76] fix: undo in the editor lost inputs, outputs, grounds
 and labels of restored vertices

---
 pyzx/editor.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index 7c70761..a089015 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -15,6 +15,7 @@
 # limitations under the License.
 
 
+import copy
 import json
 import os
 from fractions import Fraction
@@ -199,7 +200,7 @@ class ZXEditorWidget(widgets.DOMWidget):
 		self.graph = graph
 		self.show_matrix = show_matrix
 		self.show_scalar = show_scalar
-		self.undo_stack: List[Tuple[str,str]] = [('initial',str(self.graph_json))]
+		self.undo_stack: List[Tuple[str,Dict[str,Any]]] = [('initial',copy.deepcopy(graph.__dict__))]
 		self.undo_position: int = 1
 		self.halt_callbacks: bool = False
 		self.snapshots: List[GraphS] = []
@@ -306,31 +307,33 @@ class ZXEditorWidget(widgets.DOMWidget):
 			with self.output: print(traceback.format_exc())
 
 
-	def _undo_stack_add(self, description: str, js: str) -> None:
+	def _undo_stack_add(self, description: str) -> None:
 		self.undo_stack = self.undo_stack[:len(self.undo_stack)-self.undo_position+1]
 		self.undo_position = 1
-		self.undo_stack.append((description,js))
+		self.undo_stack.append((description,copy.deepcopy(self.graph.__dict__)))
 		self.msg.append("Adding to undo stack: " + description)
 
 	def undo(self) -> None:
 		if self.undo_position == len(self.undo_stack): return
 		self.undo_position += 1
-		description, js = self.undo_stack[len(self.undo_stack)-self.undo_position]
+		description, state = self.undo_stack[len(self.undo_stack)-self.undo_position]
 		self.msg.append("Undo {}: {:d}-{:d}".format(description,len(self.undo_stack),self.undo_position))
 		self.halt_callbacks = True
 		self.graph_selected = '{"nodes": [], "links": []}'
-		self.graph_from_json(json.loads(js))
+		self.graph.__dict__.update(copy.deepcopy(state))
+		self._update_matrix()
 		self.update()
 		self.halt_callbacks = False
 
 	def redo(self) -> None:
 		if self.undo_position == 1: return
 		self.undo_position -= 1
-		description, js = self.undo_stack[len(self.undo_stack)-self.undo_position]
+		description, state = self.undo_stack[len(self.undo_stack)-self.undo_position]
 		self.msg.append("Redo {}: {:d}-{:d}".format(description,len(self.undo_stack),self.undo_position))
 		self.halt_callbacks = True
 		self.graph_selected = '{"nodes": [], "links": []}'
-		self.graph_from_json(json.loads(js))
+		self.graph.__dict__.update(copy.deepcopy(state))
+		self._update_matrix()
 		self.update()
 		self.halt_callbacks = False
 
@@ -355,7 +358,7 @@ class ZXEditorWidget(widgets.DOMWidget):
 		# self.graph_selected = '{"nodes": [], "links": []}'
 		# js = graph_to_json(g, self.graph.scale) # type: ignore
 		# self.graph_from_json(json.loads(js))
-		self._undo_stack_add("paste",graph_to_json(self.graph,self.graph.scale)) # type: ignore
+		self._undo_stack_add("paste")
 		self.update()
 		self.graph_selected = graph_to_json(self.graph,self.graph.scale,verts,[]) # type: ignore
 		self.halt_callbacks = False
@@ -425,7 +428,7 @@ class ZXEditorWidget(widgets.DOMWidget):
 			js = json.loads(change['new'])
 			js['scalar'] = self.graph.scalar.to_json()
 			self.graph_from_json(js)
-			self._undo_stack_add(self.last_operation, json.dumps(js))
+			self._undo_stack_add(self.last_operation)
 		except Exception as e:
 			with self.output: print(traceback.format_exc())
 		
-- 
2.43.0


From d7b1a1e3b79df3253a6a30ad9adf37727c978594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:04 +0000
Subject: [PATCH 56/76] fix: a rewrite that fails in the editor left the
 diagram half rewritten and its button stuck

---
 pyzx/editor.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index a089015..a16cbfd 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -271,10 +271,16 @@ class ZXEditorWidget(widgets.DOMWidget):
 				matches = data["matcher"](g, lambda e: e in edge_set)
 			else: matches = data["matcher"](g, lambda v: v in vertex_set)
 			# Apply the rule
-			etab, rem_verts, rem_edges, check_isolated_vertices = data["rule"](g, matches)
-			g.remove_edges(rem_edges)
-			g.remove_vertices(rem_verts)
-			g.add_edge_table(etab)
+			state = copy.deepcopy(g.__dict__)
+			try:
+				etab, rem_verts, rem_edges, check_isolated_vertices = data["rule"](g, matches)
+				g.remove_edges(rem_edges)
+				g.remove_vertices(rem_verts)
+				g.add_edge_table(etab)
+			except Exception:
+				g.__dict__.update(state) # The rule could not be applied: don't leave half of it behind
+				self.button_clicked = ''
+				raise
 			
 			#if check_isolated_vertices: g.remove_isolated_vertices()
 			# Remove stuff from the selection
-- 
2.43.0


From 43d269538e265c6fa81ace3bcd8803f0d838f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:04 +0000
Subject: [PATCH 57/76] fix: pasting from an empty clipboard in the editor
 failed and disabled pasting from then on

---
 pyzx/editor.py | 2 +-
 pyzx/tikz.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index a16cbfd..266eff2 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -308,9 +308,9 @@ class ZXEditorWidget(widgets.DOMWidget):
 			elif action == 'paste': self.paste()
 			elif action == 'copy': self.copy_to_clipboard()
 			else: raise ValueError("Unknown action '{}'".format(action))
-			self.action = ''
 		except Exception as e:
 			with self.output: print(traceback.format_exc())
+		self.action = ''
 
 
 	def _undo_stack_add(self, description: str) -> None:
diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index 978d363..7b9d1cc 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -220,7 +220,7 @@ def tikz_to_graph(
 		at the level of tikz itself, and won't be treated as such in pyzx.
     """
     lines = [l.strip() for l in s.strip().splitlines() if l.strip() != '']
-    if not lines[0].startswith(r'\begin{tikzpicture}'):
+    if not lines or not lines[0].startswith(r'\begin{tikzpicture}'):
         raise ValueError(tikz_error_message)
     if lines[-1] != r'\end{tikzpicture}':
         raise ValueError(tikz_error_message)
-- 
2.43.0


From 43f78a5c4560362f542cff1961e65ea4d8ddd36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:45 +0000
Subject: [PATCH 58/76] fix: the matrix below the editor was not updated by
 pasting

---
 pyzx/editor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index 266eff2..80ef9e4 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -364,6 +364,7 @@ class ZXEditorWidget(widgets.DOMWidget):
 		# self.graph_selected = '{"nodes": [], "links": []}'
 		# js = graph_to_json(g, self.graph.scale) # type: ignore
 		# self.graph_from_json(json.loads(js))
+		self._update_matrix()
 		self._undo_stack_add("paste")
 		self.update()
 		self.graph_selected = graph_to_json(self.graph,self.graph.scale,verts,[]) # type: ignore
-- 
2.43.0


From 0a65cef5acd65fe45e783e06f7bacd8a88769067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:02 +0000
Subject: [PATCH 59/76] fix: reading a diagram of Quantomatic or an older
 version made every boundary an input and an output

---
 pyzx/graph/jsonparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 11ecbd4..3749c1a 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -137,8 +137,9 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
         v = g.add_vertex(VertexType.BOUNDARY,q,r)
         g.set_vdata(v,'name',name)
         names[name] = v
-        if "input" in ann: inputs[v] = ann["input"]
-        if "output" in ann: outputs[v] = ann["output"]
+        # older files don't store the position of an input or output, but whether the vertex is one
+        if ann.get("input", False) is not False: inputs[v] = ann["input"]
+        if ann.get("output", False) is not False: outputs[v] = ann["output"]
         for key, value in attr['annotation'].items():
             if key in ('boundary','coord','input','output'):
                 continue
-- 
2.43.0


From 3767256a2b6477b3cf6eca4e4f3c35c63c80a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:02 +0000
Subject: [PATCH 60/76] fix: the spider added between two Hadamards of a JSON
 file could take the name of another vertex

---
 pyzx/graph/jsonparser.py | 4 +++-
 pyzx/io.py               | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 3749c1a..17ac65e 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -153,7 +153,9 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
         n1, n2 = edge['src'], edge['tgt']
         if n1 in hadamards and n2 in hadamards: #Both
             v = g.add_vertex(VertexType.Z)
-            name = "v"+str(len(names))
+            i = len(names)
+            while "v"+str(i) in names: i += 1 # don't take the name of another vertex
+            name = "v"+str(i)
             g.set_vdata(v, 'name',name)
             names[name] = v
             hadamards[n1].append(v)
diff --git a/pyzx/io.py b/pyzx/io.py
index ffb4b34..95fdde8 100644
--- a/pyzx/io.py
+++ b/pyzx/io.py
@@ -113,7 +113,9 @@ def json_to_graph(js: str, force_deprecated_behavior=False) -> BaseGraph:
         n1, n2 = edge['src'], edge['tgt']
         if n1 in hadamards and n2 in hadamards: #Both
             v = g.add_vertex(VertexType.Z)
-            name = "v"+str(len(names))
+            i = len(names)
+            while "v"+str(i) in names: i += 1 # don't take the name of another vertex
+            name = "v"+str(i)
             g.set_vdata(v, 'name',name)
             names[name] = v
             hadamards[n1].append(v)
-- 
2.43.0


From 74c658063c2741cde1aa0ae84a87ed409f59eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:56 +0000
Subject: [PATCH 61/76] fix: a matrix slice with the row or column -1 was empty

---
 pyzx/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/linalg.py b/pyzx/linalg.py
index 19cc4e2..b8aae60 100644
--- a/pyzx/linalg.py
+++ b/pyzx/linalg.py
@@ -67,8 +67,8 @@ class Mat2(object):
         if isinstance(key,tuple):
             rs,cs = key
             if isinstance(rs,slice) or isinstance(cs,slice):
-                if not isinstance(rs,slice): rs = slice(rs,rs+1)
-                if not isinstance(cs,slice): cs = slice(cs,cs+1)
+                if not isinstance(rs,slice): rs = slice(rs,rs+1 or None)
+                if not isinstance(cs,slice): cs = slice(cs,cs+1 or None)
                 return Mat2([row[cs] for row in self.data[rs]])
             else:
                 return self.data[rs][cs]
-- 
2.43.0


From bdb8233b25d7104b4d564bb065debd59de06d271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:35 +0000
Subject: [PATCH 62/76] fix: apply_state and apply_effect with fewer characters
 than wires made the remaining wires no inputs or outputs

---
 pyzx/graph/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 31ff684..a67e839 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -457,7 +457,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     self.set_phase(v, Fraction(1))
             else:
                 raise TypeError("Unknown input state " + s)
-        self.set_inputs(tuple(new_inputs))
+        self.set_inputs(tuple(new_inputs) + tuple(inputs[len(state):])) # inputs that are not mentioned stay
 
     def apply_effect(self, effect: str) -> None:
         """Inserts an effect into the outputs of the graph. ``effect`` should be
@@ -484,7 +484,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     self.set_phase(v, Fraction(1))
             else:
                 raise TypeError("Unknown output effect " + s)
-        self.set_outputs(tuple(new_outputs))
+        self.set_outputs(tuple(new_outputs) + tuple(outputs[len(effect):])) # outputs that are not mentioned stay
 
     def to_tensor(self, preserve_scalar:bool=True) -> np.ndarray:
         """Returns a representation of the graph as a tensor using :func:`~pyzx.tensor.tensorfy`"""
-- 
2.43.0


From acc097fa7fbfe596bfaf174b0b815a8c0d4edb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:10 +0000
Subject: [PATCH 63/76] fix: composing, tensoring and merging diagrams and
 taking subgraphs lost the types of symbolic variables

---
 pyzx/graph/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index a67e839..8eb3106 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -297,6 +297,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 else EdgeType.SIMPLE))
 
         self.scalar.mult_with_scalar(other.scalar)
+        self.variable_types.update(other.variable_types)
         maxr = max((self.row(v) for v in self.vertices()
                     if self.type(v) != VertexType.BOUNDARY), default=0)
         minr = min((other.row(v) for v in other.vertices()
@@ -332,6 +333,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         Can also be called using the operator ``graph1 @ graph2``"""
         g = self.copy()
         g.scalar.mult_with_scalar(other.scalar)
+        g.variable_types.update(other.variable_types)
         ts = other.types()
         qs = other.qubits()
         height = max((self.qubits().values()), default=0) + 1
@@ -401,6 +403,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
             f = (vert_map[s],vert_map[t])
             edges.append(self.add_edge(f,other.edge_type(e)))
         self.scalar.mult_with_scalar(other.scalar)
+        self.variable_types.update(other.variable_types)
         return (list(vert_map.values()),edges)
 
     def subgraph_from_vertices(self,verts: List[VT]) -> 'BaseGraph':
@@ -411,6 +414,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         if isinstance(self, Multigraph) and isinstance(g, Multigraph):
             g.set_auto_simplify(self._auto_simplify) # type: ignore
             # mypy issue https://github.com/python/mypy/issues/16413
+        g.variable_types = self.variable_types.copy()
         ty = self.types()
         rs = self.rows()
         qs = self.qubits()
-- 
2.43.0


From 929dde95569731df5efe4af95d12b87084464fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:20 +0000
Subject: [PATCH 64/76] fix: fractions of pi in Quipper and qsim files were
 read as neighbouring floating-point numbers

---
 pyzx/circuit/qsimparser.py    | 4 ++--
 pyzx/circuit/quipperparser.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyzx/circuit/qsimparser.py b/pyzx/circuit/qsimparser.py
index affcb8d..1cf1776 100644
--- a/pyzx/circuit/qsimparser.py
+++ b/pyzx/circuit/qsimparser.py
@@ -38,7 +38,7 @@ def parse_qsim(data: str) -> Circuit:
         q = int(gdesc[2])
         if gdesc[1] == 'rz':
             phase = float(gdesc[3]) / math.pi
-            gates.append(ZPhase(target = q, phase = Fraction(phase)))
+            gates.append(ZPhase(target = q, phase = Fraction(phase).limit_denominator(100000000)))
         elif gdesc[1] == 'hz_1_2':
             gates.append(ZPhase(target = q, phase = Fraction(-1,4)))
             gates.append(XPhase(target = q, phase = Fraction(1,2)))
@@ -53,7 +53,7 @@ def parse_qsim(data: str) -> Circuit:
             q1 = int(gdesc[3])
             theta = float(gdesc[4]) / math.pi
             phi = float(gdesc[5]) / math.pi
-            gates.append(FSim(q, q1, Fraction(theta), Fraction(phi)))
+            gates.append(FSim(q, q1, Fraction(theta).limit_denominator(100000000), Fraction(phi).limit_denominator(100000000)))
         else:
             raise TypeError("Unsupported gate: " + l)
 
diff --git a/pyzx/circuit/quipperparser.py b/pyzx/circuit/quipperparser.py
index 66c793d..1e99686 100644
--- a/pyzx/circuit/quipperparser.py
+++ b/pyzx/circuit/quipperparser.py
@@ -63,7 +63,7 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
                 f = float(val)
             except ValueError:
                 raise TypeError("Unsupported expression: " + gate)
-            phase = Fraction(f/math.pi)
+            phase = Fraction(f/math.pi).limit_denominator(100000000)
             target = gate[gate.rfind('(')+1:gate.rfind(')')]
             try: 
                 t = int(target)
-- 
2.43.0


From 8871f97ed9ff467e0abbc7ee44de9a23d32909e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:54 +0000
Subject: [PATCH 65/76] fix: a phase such as '2e + 1' with a variable called e
 was read as the number 20

---
 pyzx/graph/jsonparser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 17ac65e..ace84fd 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -58,6 +58,7 @@ def string_to_phase(string: str, g: Union[BaseGraph,'GraphDiff']) -> Union[Fract
         if s == '': return Fraction(1)
         if s == '-': return Fraction(-1)
         if '.' in s or 'e' in s:
+            if re.search(r'e\s', string.lower()): raise ValueError # '2e + 1' contains a variable called e
             return Fraction(float(s))
         elif '/' in s:
             a, b = s.split("/", 2)
-- 
2.43.0


From f454148c2ace4ded5aff785b48a3c5edfbbcd184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:26 +0000
Subject: [PATCH 66/76] fix: create_dynamic_density_architecture could not run

---
 pyzx/routing/architecture.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 99de9e0..d20c88c 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -792,24 +792,24 @@ def create_dynamic_density_architecture(n_qubits, density_prob=0.1, backend=None
     vertices = graph.add_vertices(n_qubits)
     for v,u in itertools.combinations(vertices, 2):
         if np.random.rand() < density_prob:
-            graph.add_edge(v,u)
+            graph.add_edge((v,u))
     # Make sure it is connected
     to_explore = set(vertices)
     explored = set()
     while to_explore:
         # Pick a random root
-        root = np.random.choice(tuple(to_explore))
+        root = int(np.random.choice(tuple(to_explore)))
         if explored:
             # Add an edge to the explored component
-            v = np.random.choice(tuple(explored))
-            graph.add_edge(root, v)
+            v = int(np.random.choice(tuple(explored)))
+            graph.add_edge((root, v))
         to_explore.remove(root)
         explored.add(root)
         # Mark the connected component as explored
         queue = [root]
         while queue:
             v = queue.pop(0)
-            for u in v.neighbors:
+            for u in graph.neighbors(v):
                 if u in to_explore:
                     to_explore.remove(u)
                     explored.add(u)
-- 
2.43.0


From 272e7940e97ccda515ca6e9367003697e6aed3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:26 +0000
Subject: [PATCH 67/76] fix: the genetic optimiser failed when given an initial
 order longer than the number of qubits

---
 pyzx/routing/machine_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/machine_learning.py b/pyzx/routing/machine_learning.py
index 87c24bb..bd8af16 100644
--- a/pyzx/routing/machine_learning.py
+++ b/pyzx/routing/machine_learning.py
@@ -83,7 +83,7 @@ class GeneticAlgorithm:
         for _ in range(n_generations):
             self._update_population(n_child)
         if partial_solution and initial_order is not None:
-            return self.population[0] + initial_order[n_qubits:]
+            return list(self.population[0][0]) + list(initial_order[n_qubits:])
         return self.population[0][0]
 
     def _add_children(self, children):
-- 
2.43.0


From ce1bf804e20dc925a1335de9133b149c849b7210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:47 +0000
Subject: [PATCH 68/76] fix: merging a diagram with itself failed halfway

---
 pyzx/graph/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 8eb3106..80065f6 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -386,6 +386,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         """Merges this graph with the other graph in-place.
         Returns (list-of-vertices, list-of-edges) corresponding to
         the id's of the vertices and edges of the other graph."""
+        if other is self: other = self.clone() # the vertices added below are not to be merged again
         ty = other.types()
         rs = other.rows()
         qs = other.qubits()
-- 
2.43.0


From f5b7df41f6ff52a3081019f1f024a2c60a15f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:04 +0000
Subject: [PATCH 69/76] fix: the genetic optimiser returned a mutated diagram
 instead of the best one it had found

---
 pyzx/local_search/genetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/local_search/genetic.py b/pyzx/local_search/genetic.py
index 6a4e158..e2a3938 100644
--- a/pyzx/local_search/genetic.py
+++ b/pyzx/local_search/genetic.py
@@ -175,7 +175,7 @@ class GeneticOptimizer():
         self.mutants = [Mutant(self.c_orig, self.g_orig) for _ in range(self.n_mutants)]
 
         self.update_scores()
-        best_mutant = min(self.mutants, key=lambda m: m.score)
+        best_mutant = deepcopy(min(self.mutants, key=lambda m: m.score)) # mutants are changed in place
         best_score = best_mutant.score
 
         gen_scores = [best_score]
-- 
2.43.0


From 5fad60f6adf511cd9e6f261136e9d6d5e2b97fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:12 +0000
Subject: [PATCH 70/76] fix: the depth of a circuit left out many types of
 gates and failed without qubits

---
 pyzx/circuit/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index bf3e293..0f7bea1 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -21,7 +21,7 @@ import numpy as np
 
 from .gates import (Gate, gate_types, NOT, Y, Z, HAD, XPhase, YPhase, ZPhase, U2, U3, S, T, SX, SWAP, RXX, RZZ, CNOT,
                     CY, CZ, CHAD, CSX, XCX, CRX, CRY, CRZ, CPhase, CU3, CU, CSWAP, Tofolli, CCZ, ParityPhase, FSim,
-                    Measurement)
+                    Measurement, DiscardBit)
 
 from ..graph.base import BaseGraph
 from ..utils import EdgeType
@@ -516,7 +516,11 @@ class Circuit(object):
                 min_depth[g.target] = gate_depth
                 min_depth[g.ctrl1] = gate_depth
                 min_depth[g.ctrl2] = gate_depth
-        return max(min_depth)
+            elif not isinstance(g, (Measurement, DiscardBit)): # Any other gate is one step on all of its qubits
+                qubits = list(getattr(g, 'targets', ())) or [getattr(g, a) for a in ('target', 'control') if hasattr(g, a)]
+                gate_depth = max((min_depth[q] for q in qubits), default=0) + 1
+                for q in qubits: min_depth[q] = gate_depth
+        return max(min_depth, default=0)
 
 
 def determine_file_type(circuitfile: str) -> str:
-- 
2.43.0


From ea589efb8de57dea4a3a06955539218224de4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:00 +0000
Subject: [PATCH 71/76] fix: the matrix printed by an external TOpt program was
 kept as characters

---
 pyzx/todd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/todd.py b/pyzx/todd.py
index f8742f6..4b47e79 100644
--- a/pyzx/todd.py
+++ b/pyzx/todd.py
@@ -362,7 +362,7 @@ def call_topt(m: Mat2, quiet:bool=True) -> Mat2:
     data: MatLike = []
     try:
         for row in rows:
-            data.append([cast(Z2, i) for i in row])
+            data.append([cast(Z2, int(i)) for i in row])
     except ValueError:
         print(out)
         print(rows)
-- 
2.43.0


From 23b23f6e46c412f5489147bceb5130d4a52fa893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:11 +0000
Subject: [PATCH 72/76] fix: GraphS.edges(s,t) gave an edge between vertices
 that are not connected

---
 pyzx/graph/graph_s.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 5c12bc2..9cd09a7 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -232,6 +232,7 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
 
     def edges(self, s=None, t=None):
         if s is not None and t is not None:
+            if t in self.graph[s]:
                 yield (s,t) if s < t else (t,s)
         elif s is not None:
             for t in self.graph[s]:
-- 
2.43.0


From 01855216dbf55f5c8aa4c31af005e088e3acefa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:02 +0000
Subject: [PATCH 73/76] fix: the deprecated json reader misread negative phases
 other than unit fractions

---
 pyzx/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/io.py b/pyzx/io.py
index 95fdde8..4438f37 100644
--- a/pyzx/io.py
+++ b/pyzx/io.py
@@ -30,7 +30,7 @@ def _quanto_value_to_phase(s: str) -> Fraction:
     if r'\pi' in s:
         try:
             r = s.replace(r'\pi','').strip()
-            if r.startswith('-'): r = "-1"+r[1:]
+            if r == '-' or r.startswith('-/'): r = "-1"+r[1:]
             if r.startswith('/'): r = "1"+r
             return Fraction(str(r)) if r else Fraction(1)
         except ValueError:
-- 
2.43.0


From a5697e48438a8b96fa7d7996f7e5f54a59566fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:00 +0000
Subject: [PATCH 74/76] fix: the swarm optimiser failed on placements given as
 lists

---
 pyzx/routing/machine_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/machine_learning.py b/pyzx/routing/machine_learning.py
index bd8af16..4e2aea2 100644
--- a/pyzx/routing/machine_learning.py
+++ b/pyzx/routing/machine_learning.py
@@ -305,7 +305,7 @@ class Particle:
                     "The new particle point is not a permutation anymore!"
                     + str(self.current)
                 )
-        self.current = new
+        self.current = np.asarray(new)
         return is_better
 
     def _mutate(self, particle):
-- 
2.43.0


From 047681475cd51c5df0b2efe1ef8ceb4ebd623a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:50 +0000
Subject: [PATCH 75/76] fix: products of Boolean variables kept squares of a
 variable in some groupings

Term.__mul__ looked at the exponent of the factor instead of that of the product,
so x*x and x, or (x*y)*x and x*y, differed for a Boolean x.
---
 pyzx/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 3b3d0c8..dea6859 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -114,7 +114,7 @@ class Term:
             if v not in vs: vs[v] = c
             else: vs[v] += c
             # TODO deal with fractional / symbolic powers
-            if v.is_bool and c > 1:
+            if v.is_bool and vs[v] > 1:
                 vs[v] = 1
         return Term([(v, c) for v, c in vs.items()])
 
-- 
2.43.0


From 70fded0fdc50b5449a3aca09ec1c8084942dd584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:12 +0000
Subject: [PATCH 76/76] fix: phase-polynomial rule took a spider with any phase
 for the hub of a gadget

---
 pyzx/rules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 181ac5f..dec250f 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -1043,6 +1043,7 @@ def match_gadgets_phasepoly(g: BaseGraph[VT,ET]) -> List[MatchPhasePolyType[VT]]
         if v not in inputs and v not in outputs and len(list(g.neighbors(v)))==1:
             if isinstance(g.phase(v), Poly) or (g.phase(v) != 0 and g.phase(v).denominator != 4): continue
             n = list(g.neighbors(v))[0]
+            if g.phase(n) not in (0,1): continue # the hub of a phase gadget carries a phase of 0 or pi
             tgts = frozenset(set(g.neighbors(n)).difference({v}))
             if len(tgts)>4: continue
             gadgets[tgts] = (n,v)
-- 
2.43.0

