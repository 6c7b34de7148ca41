'''Queries are pure, and answers do not depend on history.'''
import copy
import pickle

import curver
import numpy as np
from vlib import model as M, gen, util

ID = 'P21'
RULE = ('Each case obtains laminations, mapping classes and triangulations by many routes (entered as lists, tuples or dictionaries, components, parts, sums, images, short representatives, lifts, restored copies) and asks each of them a random sequence of queries with repeats, interleaved with queries of the other objects. '
        'Every answer is compared with that of a freshly entered object that is asked nothing else, subjects and arguments must be as they were, and changing the arguments afterwards must change nothing. Non-trivial: objects that were asked at least five different queries; distinct by (triangulation, object, queries).')
MINIMUM = {'lamination answer': 3000, 'lamination is unchanged': 400, 'mapping answer': 500, 'mapping is unchanged': 60, 'triangulation answer': 800, 'triangulation is unchanged': 80, 'argument is unchanged': 600, 'later changes to arguments': 500, 'seen route': 400}


def cases(tier, rng):
    n = 84 if tier == 'quick' else 3000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 2, 3, 3]), 'kind': ['lams', 'lams', 'maps', 'tris'][i % 4]} for i in range(n)]


def run(case, ctx):
    return {'lams': laminations, 'maps': mappings, 'tris': triangulations}[case['kind']](case, ctx)


# ---- canonical forms of answers ----

def canon(x):
    k = curver.kernel
    if isinstance(x, k.Lamination): return (type(x).__name__, tuple(x.geometric), tri_key(x.triangulation))
    if isinstance(x, k.Triangulation): return tri_key(x)
    if isinstance(x, k.Edge): return x.label
    if isinstance(x, k.HomologyClass): return ('H', tuple(x.canonical()))
    if isinstance(x, np.ndarray): return canon(x.tolist())
    if isinstance(x, dict): return ('dict', frozenset((canon(a), canon(b)) for a, b in x.items()))
    if isinstance(x, (set, frozenset)): return ('set', frozenset(canon(a) for a in x))
    if isinstance(x, (list, tuple)): return tuple(canon(a) for a in x)
    if isinstance(x, k.Permutation): return ('P', tuple(x.perm))
    if isinstance(x, k.Triangle): return cyc(x.labels)
    return x


def cyc(t):
    t = tuple(t)
    return min(t[i:] + t[:i] for i in range(len(t)))


def tri_key(CT):
    return tuple(sorted(cyc(t.labels) for t in CT))


def ask(f, *args):
    try:
        return canon(f(*args))
    except Exception as e:
        return ('raises', type(e).__name__)


def vertices(CT):
    return set(cyc(e.label for e in v) for v in CT.vertices)


def is_short_form(L):
    s, h = L.shorten()
    return (h(L) == s, type(s).__name__, s.is_short(), h.source_triangulation == L.triangulation, h.target_triangulation == s.triangulation)


def lam_queries(rng, T, w):
    '''{name: query}: each takes a lamination and gives an answer.'''
    w2 = gen.weights(rng, T)
    cuts = [(t, f) for t, f in [('multiarc', lambda L: L.multiarc()), ('multicurve', lambda L: L.multicurve())]]
    l = rng.choice(T.labels)
    n = rng.choice([1, -1, 2, 10**12])
    seq = gen.sequence(rng, T, 3)[0]
    Q = {
        'components': lambda L: L.components(),
        'num_components': lambda L: L.num_components(),
        'peripheral_components': lambda L: {c: m for c, (m, _) in L.peripheral_components().items()},
        'peripheral': lambda L: L.peripheral(),
        'non_peripheral': lambda L: L.non_peripheral(),
        'is_peripheral': lambda L: L.is_peripheral(),
        'is_non_peripheral': lambda L: L.is_non_peripheral(),
        'skeleton': lambda L: L.skeleton(),
        'weights': lambda L: (list(L), L(l), L(~l), L.weight()),
        'dual_weight': lambda L: L.dual_weight(l),
        'doubled dual_weight': lambda L: L.dual_weight(l, double=True),
        'left_weight': lambda L: L.left_weight(l),
        'right_weight': lambda L: L.right_weight(curver.kernel.Edge(l)),
        'doubled right_weight': lambda L: L.right_weight(curver.kernel.Edge(l), double=True),
        'parallel_components': lambda L: {c: m for c, (m, _) in L.parallel_components().items()},
        'shorten': is_short_form,
        'shorten(drop=0)': lambda L: (lambda s, h: (h(L) == s, s.is_short()))(*L.shorten(drop=0.0)) if L.weight() < 300 else None,
        'is_short': lambda L: L.is_short(),
        'is_filling': lambda L: L.is_filling(),
        'is_polygonalisation': lambda L: L.is_polygonalisation(),
        'is_empty': lambda L: (L.is_empty(), bool(L)),
        'is_integral': lambda L: L.is_integral(),
        'boundary': lambda L: L.boundary(),
        'intersection': lambda L: L.intersection(L.triangulation(list(w2))),
        'intersection of': lambda L: L.triangulation(list(w2)).intersection(L),
        'self-intersection': lambda L: L.intersection(L),
        'no_common_component': lambda L: L.no_common_component(L.triangulation(list(w2))),
        'multiple': lambda L: 3 * L,
        'sum': lambda L: L.triangulation.disjoint_sum([L, L.multicurve()]),
        'image': lambda L: L.triangulation.encode([x.copy() if isinstance(x, (set, dict)) else x for x in seq])(L),
        'multiarc': cuts[0][1],
        'multicurve': cuts[1][1],
        'hash': hash,
        'str': lambda L: (str(L).split(' on ')[0], repr(L).split('(')[0]),
        'pickle': lambda L: pickle.loads(pickle.dumps(L)),
        'equality': lambda L: (L == L.triangulation(list(L.geometric)), L != 2 * L),
        'vertices': lambda L: set(cyc(e.label for e in v) for v in L.vertices()),
        'has_distinct_endpoints': lambda L: L.has_distinct_endpoints(),
        'halftwist': lambda L: L.encode_halftwist(n)(L.triangulation(list(w2))),
        'is_triangulation': lambda L: L.is_triangulation(),
        'twist': lambda L: L.encode_twist(n)(L.triangulation(list(w2))),
        'is_separating': lambda L: L.is_separating(),
        'slope': lambda L: L.slope(L.triangulation(list(w2))),
        'crush': lambda L: sorted(map(str, L.crush().target_triangulation.surface().values())),
        'boundary_union': lambda L: L.boundary_union(L.triangulation(list(w2))) if sum(map(abs, w2)) + L.weight() < 60 else None,
        'fills_with': lambda L: L.fills_with(L.triangulation(list(w2))) if isinstance(L, curver.kernel.MultiCurve) and sum(map(abs, w2)) + L.weight() < 60 else None,
        'peek': lambda L: L.peek_component() in L.components(),
    }
    if len(M.components(T, w)) <= 3 and T.zeta <= 9 and rng.random() < 0.6:
        Q['topological_type'] = lambda L: L.topological_type()
        Q['closed topological_type'] = lambda L: L.topological_type(closed=True)
        Q['sublaminations'] = lambda L: set(L.sublaminations())
    return Q


def routes(ctx, rng, T, CT, w, comps):
    '''Yield (route, lamination) for laminations obtained in many ways; not all of them have weights w.'''
    yield 'list', CT(list(w))
    yield 'tuple', CT(tuple(w))
    yield 'dict', CT({i: x for i, x in enumerate(w) if x})
    L = CT(list(w))
    L.components()
    for c in list(L.components())[:2]: yield 'component', c
    short, h = L.shorten()
    yield 'short', short
    yield 'short', h.inverse()(short)
    yield 'part', rng.choice([L.multiarc, L.multicurve, L.skeleton, L.peripheral, L.non_peripheral])()
    yield 'sum', CT.disjoint_sum(L.components())
    yield 'sum', sum([m * c for c, m in L.components().items()], CT.empty_lamination())
    yield 'multiple', 1 * L
    seq, U = gen.sequence(rng, T, 4)
    g = CT.encode(seq)
    image = g(L)
    yield 'image', image
    yield 'image', g.inverse()(image)
    yield 'image', gen.Word(rng, T, CT, 2, 2).h(L)
    L.is_filling()
    L.intersection(L)
    yield 'restored', pickle.loads(pickle.dumps(L))
    yield 'copy', copy.copy(L)
    C = L.multicurve()
    if C and not C.is_peripheral() and T.zeta <= 12:
        cr = C.crush()
        x = cr(CT(list(gen.weights(rng, T))))
        x.components()
        yield 'crushed', x
        yield 'lifted', cr.inverse()(x.multicurve())
    yield 'asked already', L


def laminations(case, ctx):
    rng = ctx.rng
    T = gen.surface(rng, case['size'])
    CT = gen.to_curver(T)
    for _ in range(10):
        w = gen.weights(rng, T)
        if sum(map(abs, w)) <= 60: break
    comps = M.components(T, w)
    todo = []
    for route, L in routes(ctx, rng, T, CT, w, comps):
        if L.weight() > 100 or rng.random() < 0.35: continue
        ctx.observe('route')
        U = util.tri(L.triangulation)
        Q = lam_queries(rng, U, util.vec(L))
        names = [rng.choice(list(Q)) for _ in range(rng.choice([6, 9, 12]))]
        names += rng.sample(names, 3)
        todo.append([route, L, util.vec(L), type(L).__name__, U, Q, names, hash(L), []])
    # Interleave the queries of the different objects.
    order = [i for i, x in enumerate(todo) for _ in x[6]]
    rng.shuffle(order)
    position = [0] * len(todo)
    for i in order:
        route, L, v, cls, U, Q, names, hsh, answers = todo[i]
        answers.append(ask(Q[names[position[i]]], L))
        position[i] += 1
    for route, L, v, cls, U, Q, names, hsh, answers in todo:
        info = dict(route=route, tri=U.triples, weights=v, queries=names)
        fresh = {}
        for name, got in zip(names, answers):
            if name not in fresh: fresh[name] = ask(Q[name], gen.to_curver(U)(list(v)))
            want = fresh[name]
            ctx.equal('lamination answer', got, want, query=name, **info)
        ctx.check('lamination is unchanged', util.vec(L) == v and type(L).__name__ == cls and util.same_tri(L.triangulation, U) and hash(L) == hsh, **info)
        ctx.equal('class does not depend on the route', cls, type(gen.to_curver(U)(list(v))).__name__, **info)
        if len(set(names)) >= 5: ctx.nontrivial(U.triples, v, tuple(names))
    ctx.sample({'tri': T.triples, 'weights': w, 'objects': len(todo), 'queries': len(order)})
    arguments(ctx, rng, T)


def unharmed(ctx, what, make, arg, answer, spoil):
    '''Make an object from arg: arg is not modified, and modifying it later does not affect the object.'''
    before = copy.deepcopy(arg)
    x = make(arg)
    a = answer(x)
    ctx.equal('argument is unchanged', arg, before, what=what)
    b = answer(make(copy.deepcopy(before)))
    spoil(arg)
    ctx.equal('later changes to arguments', answer(x), b, what=what, first=a)


def arguments(ctx, rng, T):
    CT = gen.to_curver(T)
    w = gen.weights(rng, T)
    lam = lambda L: (type(L).__name__, util.vec(L), canon(L.components()), hash(L))
    raw = lambda L: (type(L).__name__, util.vec(L))
    unharmed(ctx, 'weights', CT, list(w), lam, lambda x: x.__setitem__(0, 7))
    unharmed(ctx, 'weights', CT, list(w), lam, lambda x: x.clear())
    unharmed(ctx, 'weights', lambda x: CT(x, promote=False), list(w), raw, lambda x: x.reverse())
    unharmed(ctx, 'weights', CT, dict(enumerate(w)), lam, lambda x: x.update({0: 9}))
    L = CT(list(w))
    unharmed(ctx, 'sum', CT.sum, {L: 2, CT.empty_lamination(): 1}, raw, lambda x: x.clear())
    unharmed(ctx, 'disjoint_sum', CT.disjoint_sum, [L, L, CT.empty_lamination()], raw, lambda x: x.clear())
    for total in (CT.sum, CT.disjoint_sum):
        K = CT(list(L.geometric))
        unharmed(ctx, 'multiplicities', total, {L: rng.choice([0, 1, 3]), CT.empty_lamination(): rng.choice([0, 2])}, raw, lambda x: x.clear())
        unharmed(ctx, 'multiplicities', total, {c: rng.choice([0, 0, 1, 2]) for c in K.components()}, raw, lambda x: x.clear())
        unharmed(ctx, 'summands', total, [CT.empty_lamination(), L, K, L, CT.empty_lamination()], raw, lambda x: x.reverse() or x.pop())
    unharmed(ctx, 'triangulation', curver.create_triangulation, [list(t) for t in T.triples], tri_key, lambda x: (x[0].reverse(), x.pop()))
    es = [l for l in T.labels if T.is_flippable(l)]
    image = lambda h: (raw(h(L)), tri_key(h.target_triangulation), canon(h.package()))
    m = gen.relabelling(rng, T.zeta)
    unharmed(ctx, 'relabelling', CT.encode_relabel_edges, dict(m), lambda h: (raw(h(L)), tri_key(h.target_triangulation)), lambda x: x.update({0: x[1 % T.zeta], 1: x[0]}))
    unharmed(ctx, 'partial relabelling', CT.encode_relabel_edges, {i: m[i] for i in range(T.zeta)}, lambda h: (raw(h(L)), tri_key(h.target_triangulation)), lambda x: x.clear())
    I = {l: l for l in T.labels}
    unharmed(ctx, 'isometry', lambda x: CT.find_isometry(CT, x).encode(), {t[0]: t[0] for t in T.triples}, lambda h: raw(h(L)), lambda x: x.clear())
    seq, _ = gen.sequence(rng, T, 4)
    unharmed(ctx, 'sequence', CT.encode, seq, image, lambda x: (([y.clear() for y in x if isinstance(y, (set, dict))]), x.clear()))
    if es:
        unharmed(ctx, 'multiflip', CT.encode_multiflip, {rng.choice(es)}, image, lambda x: x.clear())
        unharmed(ctx, 'multiflip', lambda x: CT.encode([x]), {rng.choice(es)}, image, lambda x: x.clear())
    h = CT.encode(gen.sequence(rng, T, 3)[0])
    if gen.has_essential_curve(T):
        v, p = gen.curve(rng, T)
        h = CT(list(v)).encode_twist()
        gens = {'a': h, 'b': h.inverse() * h}
        G = lambda S: [raw(S(word)(L)) for word in ('a', 'aB', 'abA')]
        unharmed(ctx, 'mapping class group', curver.kernel.MappingClassGroup, gens, G, lambda x: x.clear())


# ---- mappings ----

def small(h):
    return h.zeta <= 6 and h.self_image().weight() <= 30


def map_queries(rng, T):
    w = gen.weights(rng, T)
    k = rng.choice([2, 3, -1, -2])
    img = lambda f: (canon(f(f.source_triangulation.as_lamination())), canon(f.homology_matrix()), tri_key(f.target_triangulation))
    return {
        'image': lambda h: h(h.source_triangulation(list(w))),
        'self_image': lambda h: h.self_image(),
        'intersection_matrix': lambda h: h.intersection_matrix(),
        'homology_matrix': lambda h: h.homology_matrix(),
        'homology image': lambda h: [h(x) for x in h.source_triangulation.edge_homologies()],
        'hash': hash,
        'package': lambda h: canon(h.package()),
        'len': lambda h: (len(h), [canon(m.package()) for m in h]),
        'str': str,
        'inverse': lambda h: img(h.inverse()),
        'double inverse': lambda h: img(h.inverse().inverse()),
        'simplify': lambda h: img(h.simplify()),
        'flip_mapping': lambda h: img(h.flip_mapping()),
        'combine_isometries': lambda h: img(h.combine_isometries()),
        'compose': lambda h: img(h.inverse() * h),
        'slice': lambda h: img(h[:]),
        'equality': lambda h: (h == h, h == h.flip_mapping(), h == h.simplify()),
        'pickle': lambda h: img(pickle.loads(pickle.dumps(h))),
        'promote': lambda h: (type(h.promote()).__name__, img(h.promote())),
        'vertex_map': lambda h: {cyc(e.label for e in a): cyc(e.label for e in b) for a, b in h.vertex_map().items()},
        'pl_action': lambda h: (lambda f, L: canon(f(list(L))))(h.pl_action(h.source_triangulation(list(w)).multicurve()), h.source_triangulation(list(w)).multicurve()) if isinstance(h.source_triangulation(list(w)).multicurve(), curver.kernel.MultiCurve) else None,
        'power': lambda h: img(h ** k),
        'order': lambda h: h.order(),
        'is_identity': lambda h: (h.is_identity(), h.is_periodic(), h.is_in_torelli()),
        'vertex_permutation': lambda h: h.vertex_permutation(),
        'is_multitwist': lambda h: h.is_multitwist() if small(h) else None,
        'extract': lambda h: h.extract_twisting_multicurve() if small(h) and h.is_multitwist() else None,
    }


def mappings(case, ctx):
    rng = ctx.rng
    T = gen.surface(rng, min(case['size'], 3))
    CT = gen.to_curver(T)
    todo = []
    seq, U = gen.sequence(rng, T, rng.choice([1, 3, 5]))
    f = CT.encode(seq)
    g = gen.Word(rng, T, CT, rng.choice([1, 2]), 2).h
    objects = [('encoded', f), ('inverse', f.inverse()), ('word', g), ('word', g.inverse()), ('word', g * g), ('round trip', f.inverse() * f), ('conjugate', f * g * f.inverse()), ('slice', f[:1]), ('slice', (f * g)[1:]),
               ('flips', (f * g).flip_mapping()), ('simple', g.simplify()), ('restored', pickle.loads(pickle.dumps(f * g))), ('identity', CT.id_encoding())]
    for iso in list(CT.self_isometries())[:2]: objects.append(('isometry', iso.encode()))
    f.self_image(), hash(g), g.order()
    for route, h in rng.sample(objects, 7):
        V = util.tri(h.source_triangulation)
        todo.append([route, h, copy.deepcopy(h.package()), V, map_queries(rng, V), [], []])
    for _ in range(8 * len(todo)):
        t = rng.choice(todo)
        name = rng.choice(t[5]) if t[5] and rng.random() < 0.25 else rng.choice(list(t[4]))
        t[5].append(name)
        t[6].append(ask(t[4][name], t[1]))
    for route, h, package, V, Q, names, answers in todo:
        info = dict(route=route, tri=V.triples, mapping=package, queries=names)
        for name, got in zip(names, answers):
            fresh = gen.to_curver(V).encode(copy.deepcopy(package))
            if name in ('str', 'len', 'package', 'promote') and route in ('slice', 'identity', 'isometry', 'round trip', 'inverse', 'conjugate'): continue  # May be written differently.
            ctx.equal('mapping answer', got, ask(Q[name], fresh), query=name, **info)
        ctx.check('mapping is unchanged', h.package() == package and util.same_tri(h.source_triangulation, V), **info)
        if len(set(names)) >= 5: ctx.nontrivial(V.triples, str(package), tuple(names))


# ---- triangulations ----

def tri_queries(rng, T):
    w = gen.weights(rng, T)
    l = rng.choice(T.labels)
    img = lambda h: (canon(h(h.source_triangulation.as_lamination())), tri_key(h.target_triangulation))
    es = [x for x in T.labels if T.is_flippable(x)]
    e = rng.choice(es) if es else l
    return {
        'surface': lambda X: {frozenset(e.label for e in c): tuple(s) for c, s in X.surface().items()},
        'components': lambda X: [frozenset(e.label for e in c) for c in X.components()],
        'vertices': vertices,
        'is_connected': lambda X: X.is_connected(),
        'homology_matrix': lambda X: X.homology_matrix(),
        'homology_basis': lambda X: [tuple(h.algebraic) for h in X.homology_basis()],
        'dual_tree': lambda X: X.dual_tree(),
        'max_order': lambda X: X.max_order(),
        'sig': lambda X: X.sig(),
        'package': lambda X: X.package(),
        'str': str,
        'hash': hash,
        'flippable': lambda X: [X.is_flippable(x) for x in T.labels],
        'square': lambda X: X.square(e),
        'flip': lambda X: img(X.encode_flip(e)),
        'lamination': lambda X: (X(list(w)), X(list(w)).components()),
        'as_lamination': lambda X: (X.as_lamination(), X.empty_lamination()),
        'edge_curve': lambda X: [X.edge_curve(x) for x in T.labels],
        'edge_arcs': lambda X: X.edge_arcs(),
        'edge_homology': lambda X: X.edge_homology(l),
        'isometries': lambda X: len(list(X.self_isometries())),
        'isometric': lambda X: X.is_isometric_to(gen.to_curver(T)),
        'identity': lambda X: img(X.id_encoding()),
        'pachner': lambda X: sorted(tuple(s) for s in X.encode_pachner_1_3().target_triangulation.surface().values()),
        'encode': lambda X: img(X.encode([e])) if es else None,
        'pickle': lambda X: pickle.loads(pickle.dumps(X)),
        'equality': lambda X: (X == gen.to_curver(T), X != X),
        'counts': lambda X: (X.zeta, X.num_vertices, X.num_triangles if hasattr(X, 'num_triangles') else None, X.euler_characteristic, X.indices, X.labels),
    }


def triangulations(case, ctx):
    rng = ctx.rng
    T = gen.surface(rng, case['size'] + rng.choice([0, 0, 1]))
    CT = gen.to_curver(T)
    objects = [('entered', CT), ('tuple', curver.kernel.Triangulation.from_tuple(*T.triples)), ('sig', curver.kernel.Triangulation.from_sig(CT.sig())), ('restored', pickle.loads(pickle.dumps(CT)))]
    es = [l for l in T.labels if T.is_flippable(l)]
    if es:
        f = CT.encode_flip(rng.choice(es))
        objects += [('flipped', f.target_triangulation), ('flipped back', f.inverse().target_triangulation)]
    h = CT.encode(gen.sequence(rng, T, 3)[0])
    objects += [('reached', h.target_triangulation), ('left', h.source_triangulation), ('of a lamination', h.target_triangulation.as_lamination().triangulation)]
    todo = []
    for route, X in rng.sample(objects, min(6, len(objects))):
        V = util.tri(X)
        todo.append([route, X, V, tri_queries(rng, V), [], []])
    for _ in range(9 * len(todo)):
        t = rng.choice(todo)
        name = rng.choice(t[4]) if t[4] and rng.random() < 0.25 else rng.choice(list(t[3]))
        t[4].append(name)
        t[5].append(ask(t[3][name], t[1]))
    for route, X, V, Q, names, answers in todo:
        info = dict(route=route, tri=V.triples, queries=names)
        for name, got in zip(names, answers):
            ctx.equal('triangulation answer', got, ask(Q[name], gen.to_curver(V)), query=name, **info)
        ctx.check('triangulation is unchanged', util.tri(X).triples == V.triples and hash(X) == hash(gen.to_curver(V)), **info)
        if len(set(names)) >= 5: ctx.nontrivial(V.triples, tuple(names))
    arguments(ctx, rng, T)
