'''The catalogue of properties: python tools/catalogue.py rewrites properties.jsonl and MANIFEST.json from it.'''
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = 'curver/kernel/'
PROPS = []
MODEL = 'The oracle is a reference model written for this purpose, which shares no code with curver and works on strands (sequences of crossed edges) instead of edge coordinates'


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=[K + f if '/' not in f else f for f in files],
                                   mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe)),
                      technique=technique, note=note))


P('P01', 'Components of integral coordinates are the curves and arcs that they draw',
  'Any consistent integer edge-coordinate vector on any triangulated surface is accepted, and its components are exactly the isotopy classes of the curves and arcs that it draws, each with its exact multiplicity (including arcs parallel to edges and vertex-linking curves). The object that is returned has the class (Curve, MultiCurve, Arc, MultiArc or general) that those components dictate.',
  ['inputs'], 'every triangulation (disconnected ones, folded triangles, any labelling) and every integral coordinate vector on it',
  'Tests compare components with themselves after a hypothesis-drawn round trip on a few surfaces; none has an independent notion of which curves a vector draws.',
  ['lamination.py', 'triangulation.py', 'arc.py', 'curve.py'],
  [('IntegralLamination.components', 'curver/kernel/lamination.py'), ('Triangulation.__call__ / lamination construction', 'curver/kernel/triangulation.py'), ('Lamination.promote', 'curver/kernel/lamination.py')],
  'runtime monitoring: decompositions compared online with strands traced by a reference model',
  MODEL + '; coverage is of the random surfaces and vectors of the run.')

P('P02', 'Shortening quickly reaches a short lamination, and carries it there',
  'Shortening a lamination returns a mapping from its triangulation that takes it to the short lamination that is returned, which really is short: every component is parallel to an edge or is a curve of the least possible kind of complexity. The mapping has a number of moves polynomial in the number of edges and of bits of the coordinates, and no component is lost, merged or changed in multiplicity however large the coordinates are.',
  ['inputs'], 'every integral lamination (arcs, peripheral curves, multiplicities, coordinates of hundreds of digits) and every drop parameter',
  'Tests shorten small laminations and only ask is_short, which is decided by the code under test.',
  ['lamination.py', 'curve.py', 'arc.py', 'moves.py', 'twist.py'],
  [('Lamination.shorten', 'curver/kernel/lamination.py'), ('Curve.slope / accelerating twists', 'curver/kernel/curve.py')],
  'runtime monitoring: every move of the returned mapping is replayed on a reference model',
  MODEL + '; progress is bounded in logical steps, not seconds.')

P('P03', 'Flips, multiflips, relabellings and isometries act as changes of triangulation',
  'Flipping edges and relabelling produce exactly the triangulation that the move describes, and carry every lamination - integral, rational, with arcs parallel to the flipped edges - to the coordinates of the same lamination in the new triangulation. Moves that do not exist (non-flippable edges, overlapping multiflips, unknown labels) are refused.',
  ['inputs', 'programs'], 'every surface, every sequence of flips / multiflips / relabellings and every lamination',
  'Tests check that there and back is the identity, which many wrong formulas satisfy, and only on a few standard surfaces.',
  ['moves.py', 'triangulation.py', 'create.py'],
  [('EdgeFlip / MultiEdgeFlip / Isometry._apply', 'curver/kernel/moves.py'), ('Triangulation.flip_edge, encode_flip, encode', 'curver/kernel/triangulation.py')],
  'runtime monitoring: each move is redrawn strand by strand by a reference model',
  MODEL + '.')

P('P04', 'Mappings act on homology as they act on oriented paths',
  'A mapping takes the homology class (relative to the punctures) of an oriented path to the class of its image, linearly and functorially. Equality, canonical forms, bases and matrices of homology classes agree with edges modulo triangles, and a mapping class is in the Torelli group exactly when it fixes all of homology.',
  ['inputs', 'programs'], 'every surface, mapping and homology class',
  'Tests check functoriality on samples; a consistently wrong action is functorial too.',
  ['homology.py', 'moves.py', 'encoding.py', 'twist.py', 'triangulation.py'],
  [('HomologyClass.canonical / __eq__', 'curver/kernel/homology.py'), ('_apply_homology of each move', 'curver/kernel/moves.py, curver/kernel/twist.py'), ('homology_basis, homology_matrix, is_in_torelli', 'curver/kernel/triangulation.py, curver/kernel/encoding.py')],
  'runtime monitoring: images of oriented edges compared with paths followed by a reference model and rational linear algebra',
  MODEL + '.')

P('P05', 'Geometric intersection numbers',
  'The intersection number of two laminations is the least number of points in which they can be made to meet: it is symmetric, additive over components with multiplicity, invariant under every mapping, and zero exactly for laminations that can be drawn disjointly (an arc meets its own push-off nowhere, and peripheral components meet exactly the arcs that end there).',
  ['inputs'], 'every pair of laminations of any class, including shared components, peripheral ones and coordinates of hundreds of digits',
  'Tests check symmetry and invariance, not values; the defect that was fixed here passed them.',
  ['lamination.py', 'curve.py', 'arc.py'],
  [('IntegralLamination.intersection, Curve._intersection, Arc._intersection', 'curver/kernel/lamination.py, curver/kernel/curve.py, curver/kernel/arc.py')],
  'runtime monitoring: values compared with linked pairs of lifts counted by a reference model',
  MODEL + '; pairs with enormous coordinates are decided through invariance and bilinearity.')

P('P06', 'Dehn twists are Dehn twists, for every curve and power',
  'The twist about a curve, multicurve or weighted multicurve to the power k moves every lamination and homology class as k right (left, if negative) Dehn twists do, for arbitrarily large k, and so fixes what is disjoint from the curve. Large powers cost no more than polynomial in their number of digits.',
  ['inputs'], 'every curve (isolating or not, separating, peripheral, of any complexity), multicurve, power and lamination',
  'Tests check relations between twists on standard curves; the accelerated code for large powers is compared with nothing.',
  ['twist.py', 'curve.py', 'lamination.py', 'PL.py'],
  [('Twist._apply_lamination', 'curver/kernel/twist.py'), ('Curve.encode_twist', 'curver/kernel/curve.py'), ('MultiCurve.encode_twist', 'curver/kernel/curve.py')],
  'runtime monitoring: small powers are redrawn by a reference model, large ones by convexity of intersection numbers',
  MODEL + '. Large powers: once the weights of two consecutive drawn powers differ by i(a, c) c they do so for ever.')

P('P07', 'Half-twists are half-twists',
  'The half-twist about an arc joining two different punctures (or about a multiarc with all ends distinct) to the power k moves every lamination as k half-twists do, exchanges the two punctures when k is odd, and its square is the twist about the boundary of the arc. Arcs whose ends coincide are refused.',
  ['inputs'], 'every arc and multiarc with distinct ends, every power and lamination',
  'Tests check a few relations on standard edges.',
  ['twist.py', 'arc.py'],
  [('HalfTwist._apply_lamination', 'curver/kernel/twist.py'), ('Arc.encode_halftwist', 'curver/kernel/arc.py')],
  'runtime monitoring: images redrawn strand by strand by a reference model',
  MODEL + '.')

P('P08', 'Mapping classes form a group, whose equality is isotopy',
  'Composition, inverses and powers satisfy the group laws and act accordingly on laminations and homology; two words are equal exactly when they represent isotopic homeomorphisms, and equal ones hash alike. Operations between mappings that cannot be composed or compared are refused.',
  ['inputs', 'programs'], 'every pair of words in twists, half-twists and flips on every surface',
  'Tests check relations they know; that unequal words are told apart, and equal ones identified, for all words needs an independent word problem.',
  ['encoding.py', 'moves.py', 'twist.py'],
  [('Encoding.__mul__, __invert__, __pow__, __eq__, __hash__', 'curver/kernel/encoding.py'), ('MappingClass', 'curver/kernel/encoding.py')],
  'runtime monitoring: words executed in lock-step on a reference model that solves the word problem by following edges',
  MODEL + '.')

P('P09', 'Re-expressing a mapping does not change it',
  'Simplifying, flattening to flips, gathering isometries, slicing, iterating, inverting twice, promoting, and rebuilding from its package never change what a mapping does to laminations and homology nor its source and target. Each of these forms has the shape that it promises (only flips and isometries; a single isometry).',
  ['inputs', 'programs'], 'every sequence of flips, multiflips, relabellings, twists, half-twists and isometries, and every re-expression',
  'Tests apply each of these to a handful of mapping classes and one lamination.',
  ['encoding.py', 'moves.py', 'twist.py'],
  [('Encoding.simplify, flip_mapping, combine_isometries, __getitem__', 'curver/kernel/encoding.py'), ('flip_mapping of each move', 'curver/kernel/twist.py, curver/kernel/moves.py')],
  'runtime monitoring: the rewritten mapping and the original run on the same inputs, against a reference model',
  MODEL + '.')

P('P10', 'Saving and restoring is lossless',
  'Pickling (every protocol), packages and signatures of triangulations, laminations, mappings, crushes, lifts, homology classes and mapping class groups restore objects equal to the originals, of the same class, that act alike and can be saved again. Different triangulations have different signatures.',
  ['inputs', 'histories'], 'every object that curver can make and every sequence of saves and restores',
  'Tests pickle a few objects of a few classes; lifts could not be restored at all and no test noticed.',
  ['triangulation.py', 'encoding.py', 'lamination.py', 'create.py', 'crush.py', 'mappingclassgroup.py', 'homology.py', 'utilities.py'],
  [('package / sig / __reduce__', 'curver/kernel/triangulation.py, curver/kernel/encoding.py, curver/kernel/lamination.py'), ('triangulation_from_sig, create_triangulation', 'curver/kernel/create.py'), ('Triangulation.encode', 'curver/kernel/triangulation.py'), ('b64encode / b64decode', 'curver/kernel/utilities.py')],
  'runtime monitoring: originals and restored copies compared in lock-step',
  'Coverage is of the objects made in the run.')

P('P11', 'Isometries are all, and only, the combinatorial symmetries',
  'The isometries between two triangulations are exactly the orientation preserving label bijections that take triangles to triangles, each listed once; two triangulations are isometric exactly when there is one; a partial label map is extended to the isometry that it determines and refused if there is none. An isometry carries laminations by relabelling.',
  ['inputs'], 'every pair of triangulations, connected or not, with any symmetry',
  'Tests count the isometries of two or three surfaces.',
  ['triangulation.py', 'moves.py'],
  [('isometries_to, self_isometries, find_isometry, is_isometric_to', 'curver/kernel/triangulation.py')],
  'runtime monitoring: results compared with brute-force enumeration of isomorphisms',
  'The enumeration is exhaustive for each pair of triangulations that the run draws.')

P('P12', 'Loaded examples are the mapping class groups that they are named after',
  'load(g, n) and the named examples give a triangulation of the named surface and generators that are the twists and half-twists of the documented (Lickorish-style) configuration, satisfying its braid, chain and sphere relations, permuting the punctures by the full symmetric group and acting transitively on homology mod 2. Surfaces that do not exist are refused.',
  ['configurations'], 'every genus, number of punctures and named example',
  'Tests load a few surfaces and check a few relations.',
  ['curver/load.py', 'mappingclassgroup.py'],
  [('load, load_surface', 'curver/load.py')],
  'runtime monitoring: the loaded generators are measured on a reference model and their relations executed',
  MODEL + '; generation itself is Lickorish / Humphries theory, applied to the measured configuration.')

P('P13', 'Words are read as the products that they denote',
  'A mapping class group reads any word - letters, inverses by swapped case or power, nested groups, powers and any white space or separator - as the product of its generators that the word denotes, whatever the names of the generators, and refuses words that cannot be decomposed. Its generator names are reported faithfully and the dictionary it was given is not modified.',
  ['inputs', 'programs'], 'every generator naming and every string',
  'Tests parse a handful of words over single-letter names.',
  ['mappingclassgroup.py', 'utilities.py'],
  [('MappingClassGroup.__call__, mapping_class, decompose', 'curver/kernel/mappingclassgroup.py')],
  'runtime monitoring: parses of generated strings compared with the product of their syntax trees',
  'Grammar-based random strings and mutations of them; coverage is of the strings of the run.')

P('P14', 'Orders, the Torelli group and the action on punctures',
  'order() is the exact order of a mapping class (zero if infinite), is_identity and is_periodic agree with it, and max_order bounds it on every surface. is_in_torelli and the permutation of the punctures are exactly what the mapping class does to homology and to the vertices.',
  ['inputs', 'programs'], 'every mapping class on every (possibly disconnected) surface',
  'Tests check known orders on a few connected surfaces; a bound that is too small for disconnected surfaces passed them.',
  ['encoding.py', 'triangulation.py', 'permutation.py'],
  [('MappingClass.order, is_identity, is_in_torelli, vertex_permutation', 'curver/kernel/encoding.py'), ('Triangulation.max_order', 'curver/kernel/triangulation.py'), ('Permutation', 'curver/kernel/permutation.py')],
  'runtime monitoring: elements of known order, disguised, with homology and punctures followed by a reference model',
  MODEL + '; orders are known by construction (isometries, elements of SL(2, Z), products with positive twists).')

P('P15', 'Finite subgroups: invariant polygonalisations, quotient orbifolds and conjugacy',
  'For every periodic mapping class, the group that it generates has an invariant polygonalisation and the quotient orbifold signature of that group (genus, cone points, preimages, orbits of components) is that of the quotient of the surface. Two periodic mapping classes are reported conjugate exactly when they are, and a periodic mapping class is reported reducible exactly when its quotient says so.',
  ['inputs', 'configurations'], 'every finite-order mapping class of every surface, including disconnected surfaces whose components are permuted or fixed',
  'Tests sample known periodic elements of a few connected surfaces; four defects on disconnected surfaces passed them.',
  ['finite.py', 'encoding.py', 'triangulation.py'],
  [('FiniteSubgroup.quotient_orbifold_signature, polygonalisation, is_conjugate_to', 'curver/kernel/finite.py')],
  'runtime monitoring: signatures compared with orbits counted directly on symmetric triangulations',
  MODEL + '; groups are cyclic or small, generated by isometries that are then disguised.')

P('P16', 'Crushing along a multicurve, and lifting back',
  'Crushing along a multicurve gives the surface obtained by collapsing its components to punctures, and carries every lamination to the pieces into which the multicurve cuts it (weighted by how many of them are parallel); lifting carries a lamination of the crushed surface to the same lamination of the original. The two are compatible: lift then crush is the identity, intersections are preserved by lifting, and twists about the multicurve are forgotten.',
  ['inputs'], 'every essential multicurve (any number of components, parallel copies, separating) and lamination',
  'Tests check lift-then-crush on single curves and never what the pieces are.',
  ['crush.py', 'curve.py', 'lamination.py'],
  [('CrushCurve, LiftCurve', 'curver/kernel/crush.py'), ('MultiCurve.crush', 'curver/kernel/curve.py')],
  'runtime monitoring: pieces counted by cutting strands, and images identified by intersection numbers with lifts',
  MODEL + '.')

P('P17', 'Neighbourhood boundaries, filling and polygonalisations',
  'The boundary of a lamination is the multicurve that bounds its regular neighbourhood, and is_filling, is_polygonalisation and is_triangulation, for a multiarc or lamination, hold exactly when its complementary regions are (once-punctured) discs, discs, or triangles. fills_with and boundary_union of a pair agree with the regions that the pair cuts out together.',
  ['inputs'], 'every lamination and pair of laminations on every surface, including disconnected ones',
  'Tests check implications between these predicates; two wrong answers for multiarcs passed them.',
  ['lamination.py', 'arc.py', 'curve.py'],
  [('boundary, is_filling, is_polygonalisation, is_triangulation, fills_with, boundary_union', 'curver/kernel/lamination.py, curver/kernel/arc.py, curver/kernel/curve.py')],
  'runtime monitoring: answers compared with complementary regions cut out strand by strand by a reference model',
  MODEL + '.')

P('P25', 'Exploring the Cayley graph names every element once, by a shortest word',
  'Enumerating a mapping class group from its generators yields every element that words of bounded length reach exactly once, in order of length, named by a shortest word that really represents it; the identity comes first, when words of length zero are wanted.',
  ['inputs', 'configurations'], 'every generating set (closed under inverses or not, with repeats) and bound',
  'Tests never call it on a group whose balls are known.',
  ['mappingclassgroup.py'],
  [('MappingClassGroup.cayley', 'curver/kernel/mappingclassgroup.py')],
  'runtime monitoring: the enumeration is compared with a breadth-first search in an independently decided group',
  MODEL + '; or SL(2, Z) for the once-punctured torus.')

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'more.py')).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'more.py')) else None

NOT_APPLICABLE = []


def main():
    PROPS.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}) + '\n')
    checks = []
    skip = {x['property'] for x in NOT_APPLICABLE}
    for p in PROPS:
        if p['id'] in skip: continue
        assert os.path.exists(os.path.join(HERE, 'vlib/props', p['id'] + '.py')), p['id']
        checks.append({'property': p['id'], 'quick_cmd': f"python3 check.py {p['id']}", 'thorough_cmd': f"VERIF_TIER=thorough python3 check.py {p['id']}",
                       'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
    manifest = {'version': 1, 'setup_cmd': "python3 tools/setup.py", 'checks': checks, 'not_applicable': NOT_APPLICABLE,
                'notes': 'curver is pure Python and is imported from /repo at run time, without bytecode caches, so every check runs the current tree. No hooks are committed in /repo: monitors are attached to the real classes from the harness.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


def design():
    src = open(os.path.join(HERE, 'tools', 'DESIGN.in.md')).read()
    props = []
    for p in PROPS:
        props.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Quantifies over* {p['quantifier']['text']}. *Decided by* {p['technique'].split(': ', 1)[1]}. "
                     f"*Why tests cannot*: {p['why_tests_cant']} *Assurance*: {p['note']}\n\n*Workload*: {rule(p['id'])}\n")
    finds = json.load(open(os.path.join(HERE, 'known_findings.json')))
    src = src.replace('PROPERTIES', '\n'.join(props)).replace('FINDINGS', '\n'.join('* ' + f['what'] for f in finds))
    seeded = os.path.join(HERE, 'tools', 'SEEDED.md')
    src = src.replace('SEEDED', open(seeded).read() if os.path.exists(seeded) else 'See /verif/seeded.')
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f: f.write(src)


def rule(pid):
    import ast
    tree = ast.parse(open(os.path.join(HERE, 'vlib', 'props', pid + '.py')).read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and node.targets[0].id == 'RULE': return ast.literal_eval(node.value)


if __name__ == '__main__':
    main()
    design()
