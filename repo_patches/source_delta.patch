From c9ece287826bfc9e8173e89ed64d4dec418a2369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 01/21] fix: measure intersections with peripheral components
 on the shortened triangulation

IntegralLamination.intersection combined the vertices of the short triangulation
with the weights of the laminations on the original one, so the contribution of a
peripheral component was wrong whenever shortening flipped an edge around it.
---
 curver/kernel/lamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 439c4d0..1fb9f51 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -326,8 +326,8 @@ class IntegralLamination(Lamination):
         
         # Peripheral components.
         for _, (multiplicity, vertex) in short.peripheral_components().items():
-            for lamination in laminations:
-                intersection += multiplicity * sum(max(-lamination(edge), 0) + max(-lamination.left_weight(edge), 0) for edge in vertex)
+            for short_lamination in short_laminations:
+                intersection += multiplicity * sum(max(-short_lamination(edge), 0) + max(-short_lamination.left_weight(edge), 0) for edge in vertex)
         
         # Parallel components.
         for component, (multiplicity, p) in short.parallel_components().items():
-- 
2.43.0


From 97bc777b093279ef8d2518941a4b8caf7b558513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 02/21] fix: count repeated laminations in Triangulation.sum
 and disjoint_sum

Both accept any iterable of laminations but discarded duplicates, and an iterator
was exhausted by the first check and so gave the empty lamination. In particular,
IntegralLamination.boundary() was wrong whenever the boundary of its multiarc was
twice its multicurve.
---
 curver/kernel/triangulation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 8b5f736..6b3fb4b 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -559,16 +559,16 @@ class Triangulation:
         
         laminations can either be a dictionary mapping lamination --> multiplictiy or an iterable of laminations. '''
         
+        # Convert iterable to dictionary of multiplicities.
+        if not isinstance(laminations, dict):
+            laminations = Counter(laminations)  # Laminations may be repeated.
+        
         if not all(isinstance(lamination, curver.kernel.Lamination) for lamination in laminations):
             return NotImplemented
         
         if any(lamination.triangulation != self for lamination in laminations):
             raise ValueError('Laminations must all be defined on this triangulation to add them')
         
-        # Convert iterable to dictionary of multiplicities.
-        if not isinstance(laminations, dict):
-            laminations = dict((lamination, 1) for lamination in laminations)
-        
         if any(multiplicity < 0 for multiplicity in laminations.values()):
             raise ValueError('Laminations must occur with non-negative multiplicity')
         
@@ -587,16 +587,16 @@ class Triangulation:
         
         laminations can either be a dictionary mapping lamination --> multiplictiy or an iterable of laminations. '''
         
+        # Convert iterable to dictionary of multiplicities.
+        if not isinstance(laminations, dict):
+            laminations = Counter(laminations)  # Laminations may be repeated.
+        
         if not all(isinstance(lamination, curver.kernel.Lamination) for lamination in laminations):
             return NotImplemented
         
         if any(lamination.triangulation != self for lamination in laminations):
             raise ValueError('Laminations must all be defined on this triangulation to add them')
         
-        # Convert iterable to dictionary of multiplicities.
-        if not isinstance(laminations, dict):
-            laminations = dict((lamination, 1) for lamination in laminations)
-        
         if any(multiplicity < 0 for multiplicity in laminations.values()):
             raise ValueError('Laminations must occur with non-negative multiplicity')
         
-- 
2.43.0


From e9122d7005654cc0fdaf3683e1f61de16f35a73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 03/21] fix: is_filling ignores peripheral curves when checking
 each component is met

A lamination with arcs whose restriction to some component consisted only of
peripheral curves was reported as filling.
---
 curver/kernel/lamination.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 1fb9f51..7783730 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -397,10 +397,11 @@ class IntegralLamination(Lamination):
         if any(isinstance(component, curver.kernel.Curve) and not component.is_peripheral() for component in self.components()):
             return False
         
+        multiarc = self.multiarc()  # Peripheral curves do not help to fill a component.
         for component in self.triangulation.components():
             V, E = len([vertex for vertex in self.triangulation.vertices if vertex[0] in component]), len(component) // 2
             if (V, E) != (3, 3):  # component != S_{0, 3}:
-                if all(self(edge) == 0 for edge in component):
+                if all(multiarc(edge) == 0 for edge in component):
                     return False
         
         return self.boundary().is_peripheral()
-- 
2.43.0


From 181637b2552245a1a6fbaa95cf231f45135bd12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 04/21] fix: topological_type of laminations with arc
 components

Relabelling the surface could change the topological type, and laminations in different
orbits could share one:
 * the nodes standing for duplicated boundary curves were marked as if their weights were edges,
 * orderings of the nodes tied on their links were skipped before their markings were compared,
 * the links were permuted by the inverse of the permutation used for the markings, and
 * markings did not record the multiplicity of the curve at each puncture.
---
 curver/kernel/lamination.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 7783730..e848a02 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -486,10 +486,12 @@ class IntegralLamination(Lamination):
         # Write down all the links.
         links = []  # List of (vertex1, vertex2, label).
         vertex_paired_node_map = dict()  # We will build this in a minute.
+        vertex_link_label = dict()  # The label of the link at each vertex.
         short_components = short.components()  # The components of this lamination.
         half_links = dict()
         for vertex in triangulation.vertices:
             curve = lift(triangulation.curve_from_cut_sequence(vertex))
+            vertex_link_label[vertex] = short_components.get(curve, 0)
             if curve in duplicated_boundary:
                 links.append((vertex_node_map[vertex], curve, short_components.get(curve, 0)))
                 vertex_paired_node_map[vertex] = curve
@@ -563,14 +565,13 @@ class IntegralLamination(Lamination):
         for X in product(*(permutations(g) for k, g in groupby(range(len(nodes)), key=lambda i: node_labels[nodes[i]]))):  # pylint: disable=too-many-nested-blocks
             perm = list(chain(*X))
             
-            inverse_perm = [None] * len(perm)
-            for index, i in enumerate(perm):
-                inverse_perm[i] = index
-            permuted_link_labels = [link_labels[i][j] for index, i in enumerate(inverse_perm) for j in inverse_perm[index:]]
+            permuted_link_labels = [link_labels[i][j] for index, i in enumerate(perm) for j in perm[index:]]
             
-            if best_link_labels is not None and permuted_link_labels >= best_link_labels:
+            if best_link_labels is not None and permuted_link_labels > best_link_labels:
                 continue
-            best_link_labels = list(permuted_link_labels)
+            if permuted_link_labels != best_link_labels:
+                best_link_labels = list(permuted_link_labels)
+                best_node_markings = None  # Any previous markings were for a worse set of link labels.
             
             permuted_nodes = [nodes[i] for i in perm]
             permuted_node_lookup = dict((node, index) for index, node in enumerate(permuted_nodes))
@@ -578,7 +579,7 @@ class IntegralLamination(Lamination):
             # Build marking.
             node_markings = []
             for node in permuted_nodes:
-                starting_edges = [edge for edge in node if image(edge)]
+                starting_edges = [edge for edge in node if image(edge)] if node in real_nodes else []  # Fake nodes have no edges.
                 if starting_edges:  # Skip nodes that do not have any markings.
                     best_node_marking = None
                     for starting_edge in starting_edges:
@@ -599,7 +600,11 @@ class IntegralLamination(Lamination):
                                 current = ordering[current]
                             
                             # Mark the break between one cycle and the next.
-                            node_marking.append((-1, permuted_node_lookup[vertex_paired_node_map[image_vertex_map[current]]] if current in image_vertex_map else -1))
+                            if current in image_vertex_map:
+                                vertex = image_vertex_map[current]
+                                node_marking.append((-1, permuted_node_lookup[vertex_paired_node_map[vertex]], vertex_link_label[vertex]))
+                            else:
+                                node_marking.append((-1, -1))
                         
                         if best_node_marking is not None and node_marking >= best_node_marking:
                             continue
-- 
2.43.0


From f95516443de0a8247f22075511d10fc0ab0a53c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 05/21] fix: keep closed torus components in
 topological_type(closed=True)

On S_{1,1} the only vertex was smoothed away and so every multicurve had the same closed type.
---
 curver/kernel/lamination.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index e848a02..7ac723d 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -520,7 +520,8 @@ class IntegralLamination(Lamination):
         
         if closed:
             # Smooth out any degree two vertices whose label is 0.
-            good = [node_labels[node] != 0 or sum(len(link_labels[i][j]) for j in range(len(nodes))) + len(link_labels[i][i]) != 2 for i, node in enumerate(nodes)]
+            # A vertex whose only link is a self loop is a closed torus and so must be kept.
+            good = [node_labels[node] != 0 or bool(link_labels[i][i]) or sum(len(link_labels[i][j]) for j in range(len(nodes))) != 2 for i, node in enumerate(nodes)]
             for i, keep in enumerate(good):
                 if not keep:
                     adjacent = [j for j in range(len(nodes)) if link_labels[i][j]]
-- 
2.43.0


From 1edbafe3cadbf497c790adb0c56416f9cd471af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 06/21] fix: package Lifts and LinearTransformations so that
 encode can rebuild them

Unpickling the inverse of a crush (or a Pachner move) raised a TypeError since
encode() mistook its (signature, matrix) package for a (label, power) pair.
---
 curver/kernel/crush.py         |  4 +++-
 curver/kernel/triangulation.py | 10 ++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/crush.py b/curver/kernel/crush.py
index 941df56..682f0e0 100644
--- a/curver/kernel/crush.py
+++ b/curver/kernel/crush.py
@@ -155,7 +155,7 @@ class LinearTransformation(Move):
         return np.array_equal(self.matrix, other.matrix)
     
     def package(self):
-        return (self.target_triangulation.sig(), self.matrix.tolist())
+        return (self.target_triangulation.sig(), self.matrix.tolist(), self.inverse().matrix.tolist())
     
     def apply_lamination(self, lamination):
         return self.target_triangulation(self.matrix.dot(lamination.geometric).tolist())
@@ -174,6 +174,8 @@ class Lift(LinearTransformation):
     
     def __str__(self):
         return f'Lift to {self.target_triangulation}'
+    def package(self):
+        return (self.target_triangulation.sig(), self.inverse().package())
     
     def apply_lamination(self, lamination):
         assert all(lamination(edge) >= 0 and lamination.left_weight(edge) >= 0 for vertex in self.vertices for edge in vertex)
diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 6b3fb4b..d10b1b3 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -817,6 +817,8 @@ class Triangulation:
          - A dictionary which has i or ~i as a key (for every i) represents a relabelling.
          - A dictionary which is missing i and ~i (for some i) represents an isometry back to this triangulation.
          - A pair (e, p) represents a Twist or HalfTwist to the power p, depending on whether the edge e connects distinct vertices.
+         - A pair (e, 0) represents a Crush and a pair (sig, (e, 0)) represents the Lift back to the triangulation with that signature.
+         - A triple (sig, matrix, inverse_matrix) represents a LinearTransformation to the triangulation with that signature.
          - None represents the identity isometry.
         
         This sequence is read in reverse in order to respect composition. For example:
@@ -842,6 +844,14 @@ class Triangulation:
                     term = T.encode_relabel_edges(item)
                 else:  # If some edges are missing then we assume that we must be mapping back to this triangulation.
                     term = T.find_isometry(self, item)
+            elif isinstance(item, tuple) and len(item) == 2 and isinstance(item[0], str):  # Lift.
+                sig, crush = item
+                term = Triangulation.from_sig(sig).encode([crush]).inverse()
+            elif isinstance(item, tuple) and len(item) == 3:  # LinearTransformation.
+                sig, matrix, inverse_matrix = item
+                term = curver.kernel.create.lineartransformation(
+                    T, Triangulation.from_sig(sig), np.array(matrix, dtype=object), np.array(inverse_matrix, dtype=object)
+                    ).encode()
             elif isinstance(item, tuple) and len(item) == 2:  # Twist or HalfTwist.
                 label, power = item
                 edge = Edge(label)
-- 
2.43.0


From 5dc0d38849705c55145c1825acfabdfaebdb2583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 07/21] fix: integral multiples of an IntegralLamination are
 IntegralLaminations

Multiplying a mixed lamination by k > 1, or any lamination by zero, gave a plain
Lamination which has no components(), intersection() etc.
---
 curver/kernel/lamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 7ac723d..149abda 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -285,7 +285,7 @@ class IntegralLamination(Lamination):
         assert other >= 0
         
         if other == 0:
-            new_class = Lamination
+            new_class = IntegralLamination
         elif other == 1:
             new_class = self.__class__
         elif isinstance(self, curver.kernel.MultiArc):  # or Arc.
@@ -293,7 +293,7 @@ class IntegralLamination(Lamination):
         elif isinstance(self, curver.kernel.MultiCurve):  # or Curve.
             new_class = curver.kernel.MultiCurve
         else:
-            new_class = Lamination
+            new_class = IntegralLamination
         
         geometric = [other * x for x in self]
         # TODO: 3) Could save components if they have already been computed.
-- 
2.43.0


From 7203b17e6ecc826bcc2996be9523a4226bbcab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 08/21] fix: max_order takes every component into account

Identical components were only counted once, so on a disconnected surface a periodic
mapping class could have order greater than max_order() and be reported as aperiodic.
---
 curver/kernel/triangulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index d10b1b3..43b169e 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -285,8 +285,8 @@ class Triangulation:
             else:  # g == 0:
                 return v
         
-        # Set of orders that appear.
-        orders = set(order(S.g, S.p) for S in self.surface().values())
+        # The orders that appear, one for each component since these need not be equal or coprime.
+        orders = [order(S.g, S.p) for S in self.surface().values()]
         for order in orders:
             prod *= order
         
-- 
2.43.0


From 009ce23da51e374e516a338ea8d66e73abd25fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 09/21] fix: use the size of the orbit of each component in
 quotient_orbifold_signature

The number of components was used instead so the signature was wrong when a
component of a disconnected surface was not permuted transitively with the others.
---
 curver/kernel/finite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index ce1e905..4ea7651 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -217,7 +217,7 @@ class FiniteSubgroup:
         component_orbit_size = dict()
         for cls in classes:
             for component in cls:
-                component_orbit_size[component] = len(components)
+                component_orbit_size[component] = len(cls)
         
         # D) The (orbifold) Euler characteristic of each components quotient.
         euler_characteristic = dict((component, Fraction(surface[component].chi * component_orbit_size[component], order)) for component in components)
-- 
2.43.0


From 4974fcf7add38fcd83d3a7e4570bade1ea1bdc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 10/21] fix: reject words that cannot be decomposed

Unknown characters, integers that are not powers and everything up to an unmatched ')'
were silently discarded, and a leading '^' raised an IndexError.
---
 curver/kernel/mappingclassgroup.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index 780714a..8483525 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -123,10 +123,15 @@ class MappingClassGroup:
             
             stack = [[]]
             tokens = TOKENS.findall(word)  # Break word into tokens.
+            if set(TOKENS.sub('', word)).difference('[],\'"'):  # Only the punctuation of a list of names is skipped.
+                raise ValueError(f'Unknown characters in {data}')
             for index, token in enumerate(tokens):
                 if IS_INT.match(token):
-                    pass
+                    if tokens[index-1] != '^':
+                        raise ValueError(f'{token} is not a power')
                 elif token == '^':
+                    if not stack[-1]:
+                        raise ValueError('^ does not follow anything')
                     try:
                         power = int(tokens[index+1])
                     except (ValueError, IndexError) as err:
@@ -143,7 +148,7 @@ class MappingClassGroup:
                     stack[-1][-1] = SLP.sum(stack[-1][-1])
                 else:
                     stack[-1].append(SLP(decompose(token)))
-            if len(stack) > 1:
+            if len(stack) > 1 or len(stack[-1]) > 1:
                 raise ValueError('Unbalanced parentheses')
             
             sequence = stack[-1][-1]
-- 
2.43.0


From 3f4c4bbef952cb450371b0e0ea08093179d76c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 11/21] fix: MappingClassGroup does not modify the dictionary
 it is given

---
 curver/kernel/mappingclassgroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index 8483525..4b4bbb9 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -21,7 +21,7 @@ class MappingClassGroup:
     Most importantly this object can construct a mapping class from a string descriptor.
     See self.mapping_class for additional information. '''
     def __init__(self, pos_mapping_classes=None, curves=None, arcs=None):
-        if pos_mapping_classes is None: pos_mapping_classes = dict()
+        pos_mapping_classes = dict() if pos_mapping_classes is None else dict(pos_mapping_classes)  # Take a copy as we will modify this.
         if curves is None: curves = dict()
         if arcs is None: arcs = dict()
         
-- 
2.43.0


From 940458f3bb13a1f49700ebd4fc99525ad9bddb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 12/21] fix: load S_1_2p

---
 curver/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/load.py b/curver/load.py
index 2e3883e..f4fa9c6 100644
--- a/curver/load.py
+++ b/curver/load.py
@@ -273,7 +273,7 @@ def load_old(surface):
         return curver.kernel.MappingClassGroup(curves={
             'a': S.curves['a_0'],
             'b': S.curves['b_0'],
-            'c': S.curves['p_0'],
+            'c': S.curves['p_1'],
             })
     elif surface == 'S_2_1':
         S = load(2, 1)
-- 
2.43.0


From 98c38e609a75895262df60ce46f7bc19ad4a2ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 13/21] fix: compare surfaces and not their labels in
 is_conjugate_to

---
 curver/kernel/encoding.py | 2 +-
 curver/kernel/finite.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/encoding.py b/curver/kernel/encoding.py
index 0dc0de7..2ec16c8 100644
--- a/curver/kernel/encoding.py
+++ b/curver/kernel/encoding.py
@@ -427,7 +427,7 @@ class MappingClass(Mapping):
         
         assert isinstance(other, curver.kernel.MappingClass)
         
-        if self.source_triangulation.surface() != other.source_triangulation.surface():  # Defined on different surfaces.
+        if sorted(self.source_triangulation.surface().values()) != sorted(other.source_triangulation.surface().values()):  # Defined on different surfaces.
             return False
         
         if not self.vertex_permutation().is_conjugate_to(other.vertex_permutation()):  # Induce non-conjugate permutations of the vertices.
diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index 4ea7651..5029b33 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -275,7 +275,7 @@ class FiniteSubgroup:
         
         assert isinstance(other, curver.kernel.FiniteSubgroup)
         
-        if self.triangulation.surface() != other.triangulation.surface():  # Defined on different surfaces.
+        if sorted(self.triangulation.surface().values()) != sorted(other.triangulation.surface().values()):  # Defined on different surfaces.
             return False
         
         if len(self) != len(other):  # Conjugacy invariant.
-- 
2.43.0


From 1c6ca37b9332a26eeedcdbf88d685c1e504e4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 14/21] fix: quotient_orbifold_signature when some elements act
 trivially on a component

---
 curver/kernel/finite.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index 5029b33..eeda14a 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -219,8 +219,12 @@ class FiniteSubgroup:
             for component in cls:
                 component_orbit_size[component] = len(cls)
         
-        # D) The (orbifold) Euler characteristic of each components quotient.
-        euler_characteristic = dict((component, Fraction(surface[component].chi * component_orbit_size[component], order)) for component in components)
+        # D) The number of elements that act trivially on each component.
+        # Since these must also act trivially on the quotient, this is one whenever triangulation is connected.
+        kernel_size = dict((component_lookup[a], len(pairs[a][a])) for a in oriented_arcs)
+        
+        # E) The (orbifold) Euler characteristic of each components quotient.
+        euler_characteristic = dict((component, Fraction(surface[component].chi * component_orbit_size[component] * kernel_size[component], order)) for component in components)
         
         # Compute the polygons cut out by short.
         # Remember to walk around their boundary in the correct direction.
@@ -255,7 +259,7 @@ class FiniteSubgroup:
             
             c_order = len(places)
             holonomy = sorted(pairs[start][places[0]])
-            preimages = order // c_order
+            preimages = order // (c_order * kernel_size[component_lookup[start]])
             
             if punctured or len(places) > 1:  # Real cone point.
                 cone_points[component_lookup[start]].append(ConePoint(punctured, c_order, holonomy, preimages))  # Put it in the correct component.
-- 
2.43.0


From d04f40ba1629a29087b9f8cce7f31592aee48207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 15/21] fix: cayley only yields the identity when asked for
 elements of length zero

---
 curver/kernel/mappingclassgroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index 4b4bbb9..0624856 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -179,7 +179,8 @@ class MappingClassGroup:
         elements = {convert((id_mapping_class.source_triangulation.as_lamination(), id_mapping_class.homology_matrix())): identity}
         good = set([identity])
         Q = Queue()
-        Q.put(((id_mapping_class.source_triangulation.as_lamination(), id_mapping_class.homology_matrix()), identity))
+        if length > 0:
+            Q.put(((id_mapping_class.source_triangulation.as_lamination(), id_mapping_class.homology_matrix()), identity))
         good = set([identity])
         yield identity
         while not Q.empty():
-- 
2.43.0


From 3d3305e76794f7be3e4051c22413e88a6f2c5886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 16/21] fix: count the preimages of cone points in every
 component of the orbit in quotient_orbifold_signature

---
 curver/kernel/finite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index eeda14a..c11ed7d 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -269,7 +269,7 @@ class FiniteSubgroup:
         
         # Group.
         signature = [key for key, group in groupby(signature) for _ in range(len(list(group)) // key.preimages)]
-        signature = [Orbifold(orbifold.euler_characteristic, orbifold.preimages, [key for key, group in groupby(orbifold.cone_points) for _ in range(len(list(group)) // key.preimages)]) for orbifold in signature]
+        signature = [Orbifold(orbifold.euler_characteristic, orbifold.preimages, [key for key, group in groupby(orbifold.cone_points) for _ in range(len(list(group)) * orbifold.preimages // key.preimages)]) for orbifold in signature]
         return signature
 
     def is_conjugate_to(self, other):
-- 
2.43.0


From 1317bb0de070cdbf7763a86f4b3d0fe1c5f6bbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 17/21] fix: twist and measure slopes of laminations with
 irrational weights

---
 curver/kernel/curve.py | 4 ++++
 curver/kernel/twist.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/curve.py b/curver/kernel/curve.py
index 1906dc7..320a247 100644
--- a/curver/kernel/curve.py
+++ b/curver/kernel/curve.py
@@ -2,6 +2,7 @@
 ''' A module for representing (multi)curves on triangulations. '''
 
 from fractions import Fraction
+from numbers import Rational
 from collections import Counter
 import networkx
 import numpy as np
@@ -164,6 +165,9 @@ class Curve(MultiCurve):
         
         sign = -1 if short_lamination.left_weight(a) - around_v > 0 or short_lamination.right_weight(a) < 0 else +1
         
+        if not isinstance(numerator, Rational) or not isinstance(denominator, Rational):  # Laminations can have irrational weights.
+            return sign * numerator / denominator
+        
         return Fraction(sign * numerator, denominator)  # + (1 if sign < 0 and not short.is_isolating() else 0)  # Curver is right biased on non-isolating curves.
     
     def relative_twisting(self, b, c):
diff --git a/curver/kernel/twist.py b/curver/kernel/twist.py
index 350581f..5d9a68c 100644
--- a/curver/kernel/twist.py
+++ b/curver/kernel/twist.py
@@ -68,7 +68,7 @@ class Twist(FlipGraphMove):
         power = self.power
         slope = self.curve.slope(lamination)
         slope_sign = +1 if slope > 0 else -1
-        steps = min(abs(power), abs(slope.numerator) // slope.denominator)  # This is how far we can definitely move without reaching the dangerous region.
+        steps = min(abs(power), int(abs(slope)))  # This is how far we can definitely move without reaching the dangerous region.
         
         if power * slope_sign < 0:  # We are heading towards the dangerous region.
             lamination = lamination.__class__(self.target_triangulation, [w - steps * intersection * c for w, c in zip(lamination, self.curve)])  # Avoids promote.
-- 
2.43.0


From 19a74a11a22ae6cf7e49995a8fc1fd2596fc0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 18/21] fix: laminations take a copy of their weights

---
 curver/kernel/lamination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 149abda..7c7f31d 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -29,7 +29,7 @@ class Lamination:
         
         self.triangulation = triangulation
         self.zeta = self.triangulation.zeta
-        self.geometric = geometric
+        self.geometric = list(geometric)
     
     def __repr__(self):
         return f'{self.__class__.__name__}({self.triangulation}, {self.geometric})'
-- 
2.43.0


From 1664a5e346f811655b60e8c1a06c653ce82893ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:34 +0000
Subject: [PATCH 19/21] fix: find every arc disjoint from a filling multiarc,
 and only arcs

---
 curver/kernel/arc.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/curver/kernel/arc.py b/curver/kernel/arc.py
index c11ef7b..4a6b345 100644
--- a/curver/kernel/arc.py
+++ b/curver/kernel/arc.py
@@ -126,23 +126,23 @@ class MultiArc(IntegralLamination):
         for arc in short.triangulation.edge_arcs():
             yield conjugator_inv(arc)
         
-        # All arcs that meet 1 edge.
-        for index in short.triangulation.indices:
-            if short(index) == 0:
-                arc = short.triangulation([1 if i == index else 0 for i in range(short.triangulation.zeta)])
+        # All arcs that meet at least 1 edge.
+        # Since self is filling, the regions that it cuts the surface into contain at most one puncture (or are S_{0,3}s).
+        # Hence each of these arcs crosses each edge at most once in each direction.
+        found = set()
+        to_do = [[edge] for edge in short.triangulation.edges if short(edge) == 0]
+        while to_do:
+            cut_sequence = to_do.pop()
+            try:
+                arc = short.triangulation.lamination_from_cut_sequence(cut_sequence)
+            except ValueError:  # Path crosses itself.
+                arc = None
+            if isinstance(arc, Arc) and arc not in found:
+                found.add(arc)
                 yield conjugator_inv(arc)
-        
-        # All arcs that meet at least two edges.
-        edges = [(short.triangulation.triangle_lookup[edge], short.triangulation.triangle_lookup[~edge]) for edge in short.triangulation.positive_edges if short(edge) == 0]
-        G = networkx.Graph(edges)
-        for t1, t2 in combinations(G.nodes(), r=2):
-            paths = networkx.all_simple_paths(G, t1, t2)
-            for path in paths:
-                if len(path) > 2:  # Not covered by above case.
-                    # Convert back to a sequence of edges.
-                    cut_sequence = [edge.index for p1, p2 in zip(path, path[1:]) for edge in p1 if ~edge in p2]
-                    arc = short.triangulation.lamination_from_cut_sequence(cut_sequence)
-                    yield conjugator_inv(arc)
+            
+            _, b, c = short.triangulation.corner_lookup[~cut_sequence[-1]]
+            to_do.extend(cut_sequence + [edge] for edge in (b, c) if short(edge) == 0 and edge not in cut_sequence)
     
     def all_disjoint_multiarcs(self):
         ''' Yield all multiarcs that are disjoint from this one.
-- 
2.43.0


From ae981657045489fc70f0b9c845d32ad30c83eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:59 +0000
Subject: [PATCH 20/21] fix: reject an odd number of triangles in from_tuple

---
 curver/kernel/triangulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 43b169e..6e098ee 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -194,6 +194,9 @@ class Triangulation:
         assert all(len(labels) == 3 for labels in edge_labels)
         assert edge_labels
         
+        if len(edge_labels) % 2 != 0:
+            raise TypeError('Expected an even number of triangles')
+        
         zeta = len(edge_labels) * 3 // 2
         
         # Check that each of 0, ..., zeta-1, ~0, ..., ~(zeta-1) occurs exactly once.
-- 
2.43.0


From cfb009f3e6b61a536a829b58d01c6fdcb1a197dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:47 +0000
Subject: [PATCH 21/21] fix: StraightLineProgram membership compares values

---
 curver/kernel/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/structures.py b/curver/kernel/structures.py
index b8131fa..607e10f 100644
--- a/curver/kernel/structures.py
+++ b/curver/kernel/structures.py
@@ -173,7 +173,7 @@ class StraightLineProgram:
         return self * other
     
     def __contains__(self, value):
-        return Terminal(value) in self.sinks
+        return value in self.sinks
     
     def reverse(self):
         ''' Return the StraightLineProgram that returns self[::-1]. '''
-- 
2.43.0

