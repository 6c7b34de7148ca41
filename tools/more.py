'''Further entries of the catalogue (executed by catalogue.py).'''

P('P18', 'Topological types decide equivalence under homeomorphism',
  'Two laminations of a surface have the same topological type exactly when some homeomorphism of the surface takes one to the other (with multiplicities); with closed=True, exactly when some homeomorphism of the closed surface, with the punctures filled in, does. The type does not depend on the triangulation, and closed types of laminations for which they make no sense are refused.',
  ['inputs'], 'every pair of multicurves, multiarcs and laminations on every surface, in any triangulations of it',
  'Tests compare a lamination with its images, which a constant type would survive.',
  ['lamination.py', 'curve.py', 'arc.py', 'encoding.py'],
  [('topological_type', 'curver/kernel/lamination.py, curver/kernel/curve.py, curver/kernel/arc.py'), ('TopologicalType', 'curver/kernel/lamination.py')],
  'runtime monitoring: types compared with isomorphism of the regions cut out strand by strand by a reference model',
  MODEL + '.')

P('P19', 'Slopes and relative twisting measure twisting about a curve',
  'The slope of a lamination about a curve that it meets moves by exactly k under the k-th power of the twist (and only by at most one while it is within [-1, 1]), is the same for multiples and is undefined for laminations that miss the curve. Relative twisting counts how many twists about the curve separate two laminations: it is antisymmetric, invariant under mapping classes and grows by k under the k-th power of the twist.',
  ['inputs'], 'every curve and every pair of laminations that meet it, with coordinates of any size',
  'Tests check one step of one twist on small examples.',
  ['curve.py', 'lamination.py'],
  [('Curve.slope', 'curver/kernel/curve.py'), ('Curve.relative_twisting', 'curver/kernel/curve.py')],
  'runtime monitoring: values along orbits of twists, compared with asymptotes of intersection numbers drawn by a reference model',
  MODEL + '. Relative twisting of laminations that are (nearly) disjoint is only required to be within one.')

P('P20', 'Mappings act piecewise linearly, and pseudo-Anosovs stretch their laminations',
  'The linear function that describes a mapping near a multicurve agrees with the mapping on everything in its domain, which contains the multicurve, and refuses everything else. A pseudo-Anosov mapping class has a projectively invariant lamination, which it multiplies by its stretch factor exactly and to which images of curves converge; mapping classes without one are refused.',
  ['inputs', 'programs'], 'every mapping, multicurve and pseudo-Anosov mapping class on every surface',
  'Tests check a few examples on the once-punctured torus and small surfaces.',
  ['PL.py', 'encoding.py', 'moves.py', 'twist.py', 'lamination.py'],
  [('pl_action, projective_invariant_lamination', 'curver/kernel/encoding.py'), ('PartialLinearFunction', 'curver/kernel/PL.py'), ('_pl_action of each move', 'curver/kernel/moves.py, curver/kernel/twist.py')],
  'runtime monitoring: linear functions compared with the mapping they describe; stretch factors with those of constructed pseudo-Anosovs',
  'Pseudo-Anosovs are known by construction (Thurston, SL(2, Z)) and disguised; coverage is of those of the run.')

P('P21', 'Answers do not depend on history, and queries change nothing',
  'Every query about a lamination, triangulation or mapping has the same answer however often and in whatever order it is asked, and however the object was come by: entered directly, as a component, part, sum, image, short representative or lift, or restored. No query modifies its subject or its arguments, and modifying the arguments of a construction afterwards does not affect what was constructed.',
  ['histories', 'inputs'], 'every object, route to it and sequence of queries',
  'Unit tests ask each query once of a new object; memoisation and aliasing only show over histories.',
  ['decorators.py', 'lamination.py', 'encoding.py', 'triangulation.py', 'moves.py', 'mappingclassgroup.py'],
  [('memoize', 'curver/kernel/decorators.py'), ('promote (moves the cache across)', 'curver/kernel/lamination.py')],
  'runtime monitoring: answers along random histories compared with those of fresh objects',
  'Coverage is of the histories of the run. Memoised dictionaries are handed out as they are; modifying those is not considered.')

P('P28', 'Laminations add, scale and split as the curves and arcs that they draw',
  'Adding disjoint laminations, in any of the ways to do so (+, sum, Triangulation.sum, disjoint_sum, of lists with repeats or dictionaries of multiplicities), unites their components and adds their multiplicities; scaling multiplies them; the multiarc, multicurve, skeleton, peripheral and non-peripheral parts and the sublaminations are those of the components, always of the finest class. Weights of corners count the strands there, and the curve or arc of an edge or of a cut sequence is the one that it describes. Sums across triangulations and negative multiples are refused.',
  ['inputs'], 'every set of (disjoint) laminations with any multiplicities on every surface',
  'Tests check commutativity and a few multiples of samples.',
  ['lamination.py', 'triangulation.py'],
  [('__add__, __mul__, skeleton, multiarc, multicurve, sublaminations', 'curver/kernel/lamination.py'), ('sum, disjoint_sum, edge_curve, lamination_from_cut_sequence', 'curver/kernel/triangulation.py')],
  'runtime monitoring: results compared with strands drawn by a reference model',
  MODEL + '.')

P('P22', 'The curve graph: vertex cycles, quasiconvex subsets and short tight paths',
  'The vertex cycles of a multicurve are curves that use only its normal arcs and cross each edge at most twice, and every curve crossing each edge at most once in each direction with only those arcs is found. The quasiconvex subset of two curves contains both, consists only of curves of that surface and has no large gaps. Tight paths of length zero, one and two are exactly those given by equality, disjointness and the boundary of the union. Disconnected surfaces and things of other surfaces are refused.',
  ['inputs'], 'every multicurve and every pair of curves, however far apart, on every connected surface',
  'Tests check a few curves on one surface.',
  ['curvegraph.py', 'lamination.py', 'crush.py'],
  [('CurveGraph', 'curver/kernel/curvegraph.py'), ('vertex_cycles, vertex_cycle', 'curver/kernel/lamination.py')],
  'runtime monitoring: compared with exhaustive search and with unions drawn by a reference model',
  MODEL + '. Distances in the curve graph beyond two are not decided: curver finds them only through searches that are infeasible at useful sizes.')

P('P30', 'Everything disjoint from a filling multiarc, and balls in the flip graph',
  'The arcs, multiarcs and triangulations that are disjoint from a filling multiarc are exactly those obtained from the arcs that can be drawn in its complementary polygons and once-punctured polygons, each once; exploring a ball of the flip graph about it visits exactly the triangulations within that many flips. Multiarcs that do not fill are refused.',
  ['inputs'], 'every filling multiarc on every surface',
  'Tests check only that the arcs returned are disjoint.',
  ['arc.py', 'triangulation.py', 'encoding.py'],
  [('all_disjoint_arcs, all_disjoint_multiarcs, all_disjoint_triangulations, explore_ball', 'curver/kernel/arc.py'), ('all_encodings', 'curver/kernel/triangulation.py')],
  'runtime monitoring: compared with breadth-first search of flips in a reference model',
  MODEL + '.')

P('P23', 'Triangulations describe the surface that their triangles glue to',
  'The vertices (with the cyclic order of the edges there), lookups, components, genus, punctures and Euler characteristic, dual trees and homology bases of a triangulation are those of the surface glued from its triangles. The order and rotation of the triangles do not matter to equality, hashing or signatures, and different gluings have different signatures. Malformed gluings are refused. A 1-3 Pachner move subdivides exactly the requested triangles, carries multicurves to the same strands and has an inverse.',
  ['inputs'], 'every gluing of any number of triangles, connected or not, in every form of input',
  'Tests use thirteen fixed triangulations.',
  ['triangulation.py', 'crush.py'],
  [('Triangulation', 'curver/kernel/triangulation.py'), ('encode_pachner_1_3', 'curver/kernel/triangulation.py'), ('LinearTransformation', 'curver/kernel/crush.py')],
  'runtime monitoring: structures compared with a reference model built independently from the gluing data',
  MODEL + '.')

P('P24', 'The underlying data structures and algorithms behave as their plain models',
  'Permutations, straight line programs, union-find, base 64, maximin, maximum, maxes, cyclic slices, products, halves and natural ordering agree with their definitions along every history of operations: permutations with functions, straight line programs with the lists that they compress (of any length), union-find with partitions. Operations that stop early never change the answer.',
  ['histories', 'inputs'], 'every sequence of operations on every structure',
  'Tests check single operations; compressed and shared structures only show over histories.',
  ['permutation.py', 'structures.py', 'utilities.py'],
  [('Permutation', 'curver/kernel/permutation.py'), ('StraightLineProgram, UnionFind', 'curver/kernel/structures.py'), ('utilities', 'curver/kernel/utilities.py')],
  'runtime monitoring: operation histories run side by side with plain dictionaries, lists and partitions',
  'Straight line programs are limited to lengths that Python can index. Coverage is of the histories of the run.')

P('P26', 'Multitwists are recognised, with their multicurves',
  'A mapping class that equals a positive twist about a (weighted) multicurve, however it was written and with powers of any size, is recognised as a multitwist and exactly that multicurve is extracted. Every other mapping class - the identity, negative and mixed twists, odd half-twists, products of twists about curves that meet - is refused.',
  ['inputs', 'programs'], 'every mapping class on every surface, however it is written',
  'Tests check twists about small curves on a few surfaces.',
  ['encoding.py', 'curve.py', 'twist.py', 'lamination.py'],
  [('extract_twisting_multicurve, is_multitwist', 'curver/kernel/encoding.py')],
  'runtime monitoring: results compared with multitwists known by construction and with twists drawn by a reference model',
  MODEL + '.')

P('P29', 'Things on different triangulations are never mixed up',
  'Every operation that takes several laminations, homology classes or mappings refuses those that live on different triangulations, even if their coordinates are identical, whatever has been asked before; they are never equal. Legitimate calls keep working. Laminations with the wrong number of weights are refused.',
  ['histories', 'inputs'], 'every binary operation on every pair of triangulations, in every order of calls',
  'Tests check a few operations on one pair.',
  ['lamination.py', 'encoding.py', 'triangulation.py', 'homology.py', 'curvegraph.py', 'curve.py'],
  [('intersection, __add__, __eq__', 'curver/kernel/lamination.py'), ('__call__, __mul__', 'curver/kernel/encoding.py'), ('sum, disjoint_sum', 'curver/kernel/triangulation.py')],
  'runtime monitoring: legitimate and mixed calls interleaved; a mixed call that returns is a violation',
  'Coverage is of the operations listed in vlib/props/P29.py, on the pairs of the run.')
