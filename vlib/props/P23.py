'''Triangulations as surfaces.'''
import itertools

import curver
from vlib import model as M, gen, util

ID = 'P23'
RULE = ('Each case enters a random gluing of triangles (connected or not, stellar, loaded, flipped; with the triangles listed in any order and from any of their corners, as lists or tuples), reads off its whole combinatorial structure - vertices and the cyclic order of edges there, lookups, components, genus and punctures, dual trees avoiding given edges, homology bases - and compares it with the model; '
        'gluing data with one label changed, repeated or dropped must be refused. Pachner moves are compared with the normal arcs that the model cuts at each corner. Non-trivial: at least two triangles with distinct vertices; distinct by triangulation.')
MINIMUM = {'vertices': 300, 'surface': 150, 'components': 150, 'lookups': 300, 'equality': 400, 'signature': 150, 'dual tree': 300, 'seen dual tree of disconnected': 30, 'edges': 150, 'bad data is refused': 300, 'pachner triangulation': 80, 'pachner weights': 80, 'pachner comes back': 80, 'pachner intersection': 60, 'maximum order': 100}


def cases(tier, rng):
    n = 240 if tier == 'quick' else 8000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 3, 4, 6, 10])} for _ in range(n)]


def cyc(xs):
    xs = [getattr(x, 'label', x) for x in xs]
    i = xs.index(min(xs))
    return tuple(xs[i:] + xs[:i])


def run(case, ctx):
    rng = ctx.rng
    T = gen.surface(rng, case['size'])
    CT = gen.to_curver(T)
    info = dict(tri=T.triples)
    structure(ctx, rng, T, CT, info)
    same(ctx, rng, T, CT, info)
    bad(ctx, rng, T, info)
    edges(ctx, rng, T, CT, info)
    if T.zeta <= 15: pachner(ctx, rng, T, CT, info)
    if len(T.vertices) > 1: ctx.nontrivial(T.triples)
    ctx.sample(info)


def structure(ctx, rng, T, CT, info):
    ctx.equal('vertices', sorted(cyc(v) for v in CT.vertices), sorted(cyc(v) for v in T.vertices), **info)
    ctx.equal('vertices', (CT.num_vertices, CT.num_triangles, CT.zeta), (len(T.vertices), len(T.triples), T.zeta), **info)
    ctx.equal('vertices', {l: cyc(CT.vertex_lookup[l]) for l in T.labels}, {l: cyc(T.vertices[T.vid[l]]) for l in T.labels}, **info)
    ctx.equal('lookups', {l: tuple(e.label for e in CT.corner_lookup[l]) for l in T.labels}, {l: (l, T.nxt[l], T.prv[l]) for l in T.labels}, **info)
    ctx.equal('lookups', {l: cyc(CT.triangle_lookup[l]) for l in T.labels}, {l: cyc((l, T.nxt[l], T.prv[l])) for l in T.labels}, **info)
    ctx.equal('lookups', (sorted(e.label for e in CT.edges), [e.label for e in CT.positive_edges], list(CT.indices)), (T.labels, list(range(T.zeta)), list(range(T.zeta))), **info)
    ctx.check('lookups', sorted(t.labels for t in CT) == sorted(t.labels for t in (CT[i] for i in range(len(T.triples)))) and util.same_tri(CT, T), **info)
    parts = T.parts
    ctx.equal('components', sorted(sorted(e.label for e in c) for c in CT.components()), sorted(sorted(c) for c in parts), **info)
    ctx.equal('components', CT.is_connected(), len(parts) == 1, **info)
    ctx.equal('surface', {frozenset(e.label for e in c): (s.g, s.p, s.chi) for c, s in CT.surface().items()}, T.surface(), **info)
    ctx.equal('surface', CT.euler_characteristic, sum(s[2] for s in T.surface().values()), **info)
    for _ in range(3):
        avoid = {i for i in range(T.zeta) if rng.random() < rng.choice([0, 0.3, 0.8])}
        if rng.random() < 0.3: got, avoid = CT.dual_tree(), set()
        else: got = CT.dual_tree(avoid=set(avoid))
        # The numerically first maximal forest.
        want, root = set(), list(range(len(T.triples)))
        for i in range(T.zeta):
            a, b = root[T.tri_of[i]], root[T.tri_of[~i]]
            if i not in avoid and a != b:
                want.add(i)
                root = [b if x == a else x for x in root]
        if len(parts) > 1: ctx.observe('dual tree of disconnected')
        ctx.equal('dual tree', set(got), want, avoid=avoid, **info)
    # Each component has chi = 1 - rank of its (relative) homology... so the basis has one class for each edge outside of the tree.
    ctx.equal('homology basis', (len(CT.homology_basis()), sorted(i for h in CT.homology_basis() for i, x in enumerate(h.algebraic) if x)), (T.homology_rank(), sorted(set(range(T.zeta)) - set(CT.dual_tree()))), **info)
    if T.zeta <= 9:
        # Isometries of this triangulation are mapping classes.
        orders = [1]
        for f in itertools.islice(CT.self_isometries(), 12):
            h, k = f.encode(), 1
            g = h
            while not g.is_identity() and k < 200: g, k = g * h, k + 1
            orders.append(k)
        ctx.check('maximum order', CT.max_order() >= max(orders), orders=orders, **info)


def same(ctx, rng, T, CT, info):
    '''However it is entered it is the same triangulation.'''
    triples = [t[k:] + t[:k] for t in T.triples for k in [rng.randrange(3)]]
    rng.shuffle(triples)
    U = curver.create_triangulation(rng.choice([list, tuple])(rng.choice([list, tuple])(t) for t in triples))
    V = curver.create_triangulation(*[list(t) for t in triples]) if len(triples) > 1 else U
    for X in (U, V):
        ctx.check('equality', X == CT and not X != CT and hash(X) == hash(CT), **info)
        ctx.equal('signature', X.sig(), CT.sig(), **info)
    W = curver.triangulation_from_sig(CT.sig())
    ctx.check('signature', W == CT and util.same_tri(W, T), sig=CT.sig(), **info)
    ctx.equal('equality', len({CT, U, V, W}), 1, **info)
    # Others differ.
    for _ in range(2):
        x = rng.random()
        if x < 0.5:
            m = gen.relabelling(rng, T.zeta)
            Y = M.relabel_tri(T, m)
        elif x < 0.8:
            es = [l for l in T.labels if T.is_flippable(l)]
            if not es: continue
            Y = M.flip_tri(T, rng.choice(es))
        else:
            # The mirror image.
            Y = M.Tri([t[::-1] for t in T.triples])
        CY = gen.to_curver(Y)
        ctx.equal('equality', (CY == CT, CY.sig() == CT.sig()), (Y.key() == T.key(),) * 2, other=Y.triples, **info)


def refused(f):
    try:
        f()
        return False
    except (TypeError, ValueError, AssertionError):
        return True


def bad(ctx, rng, T, info):
    for kind in ('repeat', 'shift', 'drop', 'short', 'long', 'nothing'):
        triples = [list(t) for t in T.triples]
        i, j = rng.randrange(len(triples)), rng.randrange(3)
        if kind == 'repeat':
            others = [l for l in T.labels if l != triples[i][j]]
            triples[i][j] = rng.choice(others)
        elif kind == 'shift':
            triples[i][j] = rng.choice([T.zeta, ~T.zeta, T.zeta + 5])
        elif kind == 'drop': triples.pop(i)
        elif kind == 'short': triples[i].pop(j)
        elif kind == 'long': triples[i].append(triples[i][j])
        else: triples = []
        ctx.check('bad data is refused', refused(lambda: curver.create_triangulation(triples)), kind=kind, data=triples)


def edges(ctx, rng, T, CT, info):
    E = curver.kernel.Edge
    l, m = rng.choice(T.labels), rng.choice(T.labels)
    e, f = E(l), E(m)
    ctx.equal('edges', ((~e).label, ~~e == e, e.index, e.sign(), e.set_sign(+1).label, e.set_sign(-1).label), (~l, True, max(l, ~l), 1 if l >= 0 else -1, max(l, ~l), min(l, ~l)), edge=l)
    ctx.equal('edges', (e == f, e == m, e < f, e <= m, e > f, hash(e) == hash(l), str(e)), (l == m, l == m, l < m, l <= m, l > m, True, str(l) if l >= 0 else '~' + str(~l)), edges=(l, m))
    t = CT.triangle_lookup[l]
    ctx.check('edges', e in t and ~e in CT.triangle_lookup[~l] and cyc(t) == cyc([x.label for x in t]) and all(t[i] == t[i + 3] for i in range(3)), edge=l, **info)


def pachner(ctx, rng, T, CT, info):
    chosen = None
    if rng.random() < 0.6: chosen = rng.sample(list(CT), rng.randint(1, len(T.triples)))
    k = len(T.triples) if chosen is None else len(chosen)
    P = CT.encode_pachner_1_3() if chosen is None else CT.encode_pachner_1_3(rng.choice([set, list, tuple])(chosen))
    cut = {cyc(t) for t in (CT if chosen is None else chosen)}
    info = dict(info, cut=sorted(cut))
    U = util.tri(P.target_triangulation)
    # The triangles that are not chosen are there and every other one has been subdivided about a vertex of degree three.
    have = set(cyc(t) for t in U.triples)
    keep = set(cyc(t) for t in T.triples) - cut
    ok = keep <= have and U.zeta == T.zeta + 3 * k and len(U.vertices) == len(T.vertices) + k and util.same_tri(P.source_triangulation, T)
    for a, b, c in cut:
        if not ok: break
        # The triangle on a is (a, x, y), and the others are (b, z, ~x) and (c, ~y, ~z).
        x, y = U.nxt[a], U.prv[a]
        z = U.nxt[b]
        ok = U.prv[b] == ~x and U.nxt[c] == ~y and U.prv[c] == ~z and min(M.norm(s) for s in (x, y, z)) >= T.zeta
    if not ctx.check('pachner triangulation', ok, target=U.triples, **info): return
    ends = []
    for mode in range(3):
        try:
            w = gen.weights(rng, T, 'curves')
        except M.ModelError:
            return
        k = 10**rng.choice([3, 40]) if mode == 2 else 1
        w = tuple(k * x for x in w)
        C = CT(list(w))
        D = P(C)
        want = {i: w[i] for i in range(T.zeta)}
        for a, b, c in cut:
            # The spoke from the new vertex to the corner where a starts crosses the normal arcs there.
            for s, e in ((U.prv[a], a), (U.prv[b], b), (U.prv[c], c)):
                x, y, z = (w[M.norm(l)] for l in (e, T.nxt[e], T.prv[e]))
                want[M.norm(s)] = (x + z - y) // 2
        ctx.equal('pachner weights', util.vec(D), tuple(want[i] for i in range(U.zeta)), weights=w, **info)
        ctx.equal('pachner comes back', util.vec(P.inverse()(D)), w, weights=w, **info)
        # New punctures can only come between parallel components.
        ctx.check('pachner weights', isinstance(D, curver.kernel.MultiCurve) == isinstance(C, curver.kernel.MultiCurve) and sum(D.components().values()) == sum(C.components().values()), weights=w, **info)
        ends.append((C, D))
    for (C, D), (A, B) in itertools.combinations(ends, 2):
        # Hardly any intersections can be undone across the new punctures, and none can be lost.
        ctx.check('pachner intersection', D.intersection(B) >= C.intersection(A), weights=(util.vec(C), util.vec(A)), **info)
