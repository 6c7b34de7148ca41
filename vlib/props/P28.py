'''Lamination algebra.'''
import itertools

import curver
from vlib import model as M, gen, util

ID = 'P28'
RULE = ('Each case draws a surface and laminations on it. Their components, with chosen multiplicities, are added back together in every way that curver offers (+, sum, Triangulation.sum and disjoint_sum of lists with repeats, dictionaries, iterators), scaled, split into parts and counted; '
        'results, with their classes, are compared with the strands that the model draws, and local weights with the strands in each corner of each triangle. Non-trivial: laminations with at least two components; distinct by (triangulation, weights).')
MINIMUM = {'sum': 1500, 'class of a sum': 1500, 'multiple': 400, 'class of a multiple': 400, 'corner weights': 2000, 'sublaminations': 60, 'common components': 150, 'peripheral components': 200, 'parallel components': 80, 'edge curves and arcs': 60, 'refused': 400, 'boolean': 150, 'sum of others': 100}


def cases(tier, rng):
    n = 110 if tier == 'quick' else 4000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 3, 4, 5, 6])} for i in range(n)]


def refused(f, *args, kinds=(ValueError, AssertionError, TypeError)):
    try:
        return f(*args) is NotImplemented
    except kinds:
        return True


def same(ctx, kind, L, comps, **info):
    '''Check that L is the lamination with these components, in its finest form.'''
    ctx.equal(kind, util.vec(L), M.weights_of(ctx.T, comps.values()), **info)
    ctx.equal('class of a ' + kind, type(L).__name__, util.class_name(comps), **info)


def run(case, ctx):
    rng = ctx.rng
    T = ctx.T = gen.surface(rng, case['size'])
    CT = gen.to_curver(T)
    ctx.equal('empty', (util.vec(CT.empty_lamination()), bool(CT.empty_lamination())), ((0,) * T.zeta, False), tri=T.triples)
    ctx.equal('as_lamination', (util.vec(CT.as_lamination()), type(CT.as_lamination()).__name__), ((-1,) * T.zeta, 'MultiArc' if T.zeta > 1 else 'Arc'), tri=T.triples)
    seen = []
    for _ in range(2):
        w = gen.weights(rng, T)
        comps = M.components(T, w)
        if not comps: continue
        seen.append((w, comps))
        L = CT(list(w)) if rng.random() < 0.5 else CT({i: x for i, x in enumerate(w) if x or rng.random() < 0.5})
        ctx.equal('weights of a dictionary', util.vec(L), w, tri=T.triples)
        ctx.check('boolean', bool(L) and not L.is_empty(), tri=T.triples, weights=w)
        if len(comps) > 1:
            ctx.nontrivial(T.triples, w)
            ctx.sample({'triangles': T.triples, 'weights': w})
        cuts(ctx, T, CT, comps)
        sums(ctx, rng, T, CT, L, comps)
        parts(ctx, rng, T, CT, L, w, comps)
        local(ctx, rng, T, CT, L, w, comps)
    for (w, c1), (w2, c2) in itertools.product(seen, repeat=2):
        L, L2 = CT(list(w)), CT(list(w2))
        info = dict(tri=T.triples, weights=w, other=w2)
        ctx.equal('common components', L.no_common_component(L2), not set(c1) & set(c2), **info)
        # Any two laminations: the vector sum, whatever that draws.
        v = tuple(a + b for a, b in zip(w, w2))
        if M.is_consistent(T, v) and all(a * b >= 0 for a, b in zip(w, w2)):
            for S in (L + L2, CT.sum([L, L2]), sum([L2, L], CT.empty_lamination())):
                ctx.equal('sum of others', (util.vec(S), type(S).__name__), (v, util.class_name(M.components(T, v))), **info)
    edges(ctx, rng, T, CT)
    if rng.random() < 0.5:
        U = gen.union(T, gen.connected_gluing(rng, 1)) if rng.random() < 0.5 else gen.surface(rng, case['size'])
        if U.key() != T.key():
            L, K = CT.as_lamination(), gen.to_curver(U).as_lamination()
            for f in (lambda: L + K, lambda: CT.sum([L, K]), lambda: CT.disjoint_sum({L: 1, K: 2}), lambda: L.intersection(K)):
                ctx.check('refused', refused(f), tri=T.triples, other=U.triples)


def sums(ctx, rng, T, CT, L, comps):
    info = dict(tri=T.triples, weights=util.vec(L))
    ms = {v: rng.choice([1, 1, 1, 2, 3, 0]) for v in comps}
    pieces = {v: CT(list(v)) for v in comps}
    want = {v: (m, comps[v][1]) for v, m in ms.items() if m}
    lst = [pieces[v] for v, m in ms.items() for _ in range(m)]
    rng.shuffle(lst)
    if rng.random() < 0.5: lst.insert(0, CT.empty_lamination())
    if rng.random() < 0.3: lst = [CT(list(util.vec(x))) if rng.random() < 0.5 else x for x in lst]  # Equal, but distinct, objects.
    info['multiplicities'] = list(ms.items())
    for S in (CT.disjoint_sum(lst), CT.disjoint_sum({pieces[v]: m for v, m in ms.items()}), CT.disjoint_sum(iter(lst)), CT.disjoint_sum(tuple(lst)),
              CT.sum(lst), CT.sum({pieces[v]: m for v, m in ms.items()}), CT.sum(x for x in lst), sum(lst, CT.empty_lamination())):
        same(ctx, 'sum', S, want, **info)
    ctx.equal('components of a sum', util.comp_map(CT.disjoint_sum(lst)), {v: m for v, m in ms.items() if m}, **info)
    acc = CT.empty_lamination()
    so_far = {}
    for v, m in ms.items():
        acc = acc + m * pieces[v] if rng.random() < 0.5 else pieces[v] * m + acc
        if m: so_far[v] = (m, comps[v][1])
        same(ctx, 'sum', acc, so_far, **info)
    # Grouped into sublaminations.
    vs = list(comps)
    rng.shuffle(vs)
    i = rng.randint(0, len(vs))
    A, B = ({v: comps[v] for v in part} for part in (vs[:i], vs[i:]))
    LA, LB = (CT(list(M.weights_of(T, X.values()))) for X in (A, B))
    k = rng.choice([1, 2, 5])
    merged = {**A, **{v: (k * m, p) for v, (m, p) in B.items()}}
    same(ctx, 'sum', CT.disjoint_sum({LA: 1, LB: k}), merged, **info)
    same(ctx, 'sum', CT.disjoint_sum([LA] + [LB] * k), merged, **info)
    same(ctx, 'sum', LA + k * LB, merged, **info)
    same(ctx, 'sum', CT.disjoint_sum([LA, L]), {v: (m * (2 if v in A else 1), p) for v, (m, p) in comps.items()}, **info)
    for k in (0, 1, rng.choice([2, 3]), 10**30 + 1):
        for S in (k * L, L * k):
            ctx.equal('multiple', util.vec(S), tuple(k * x for x in util.vec(L)), times=k, **info)
            ctx.equal('class of a multiple', type(S).__name__, util.class_name({v: (k * m, p) for v, (m, p) in comps.items()} if k else {}), times=k, **info)
        ctx.equal('components of a multiple', util.comp_map(k * L), {v: k * m for v, (m, p) in comps.items()} if k else {}, times=k, **info)
    ctx.check('refused', refused(lambda: L * -1), **info)
    ctx.check('refused', refused(lambda: CT.disjoint_sum({L: -1})), **info)
    ctx.check('refused', refused(lambda: CT.sum({L: -1})), **info)
    ctx.check('refused', refused(lambda: L + 7), **info)


def parts(ctx, rng, T, CT, L, w, comps):
    info = dict(tri=T.triples, weights=w)
    same(ctx, 'skeleton', L.skeleton(), {v: (1, p) for v, (m, p) in comps.items()}, **info)
    arcs = {v: x for v, x in comps.items() if not x[1].closed}
    curves = {v: x for v, x in comps.items() if x[1].closed}
    same(ctx, 'multiarc', L.multiarc(), arcs, **info)
    same(ctx, 'multicurve', L.multicurve(), curves, **info)
    per = {v: x for v, x in comps.items() if M.is_peripheral(T, x[1])}
    non = {v: x for v, x in comps.items() if v not in per}
    same(ctx, 'peripheral part', L.peripheral(), per, **info)
    same(ctx, 'non-peripheral part', L.non_peripheral(), non, **info)
    ctx.check('peeked component', util.vec(L.peek_component()) in comps and type(L.peek_component()).__name__ in ('Curve', 'Arc'), **info)
    ctx.equal('number of components', L.num_components(), sum(m for m, _ in comps.values()), **info)
    ctx.equal('predicates', (L.is_peripheral(), L.is_non_peripheral(), L.is_integral()), (not non, not per, True), **info)
    if len(comps) <= 4:
        subs = set((util.vec(S), type(S).__name__) for S in L.sublaminations())
        want = set()
        for r in range(1, len(comps) + 1):
            for sub in itertools.combinations(comps, r):
                x = {v: (1, comps[v][1]) for v in sub}
                want.add((M.weights_of(T, x.values()), util.class_name(x)))
        ctx.equal('sublaminations', subs, want, **info)
    got = {util.vec(c): (m, tuple(e.label for e in v)) for c, (m, v) in L.peripheral_components().items()}
    ok = set(got) == set(per)
    for v, (m, vertex) in got.items():
        if v in per: ok = ok and m == per[v][0] and set(vertex) in [set(x) for x in T.vertices] and M.weights_of(T, [(1, per[v][1])]) == tuple(sum(1 for l in vertex if M.norm(l) == i) for i in range(T.zeta))
    ctx.check('peripheral components', ok, got=got, **info)
    # The components of a short lamination are parallel to the edges that it says.
    short, h = L.shorten()
    U = util.tri(short.triangulation)
    sc = M.components(U, util.vec(short))
    ok = True
    found = {}
    for c, (m, e) in short.parallel_components().items():
        found[util.vec(c)] = m
        l = e.label
        want = M.weights(U, M.edge_path(U, l)) if not c.geometric[M.norm(l)] >= 0 else fan_curve(U, l)
        ok = ok and util.vec(c) == want
    ctx.check('parallel components', ok and found == {v: m for v, (m, p) in sc.items() if not M.is_peripheral(U, p)}, short=util.vec(short), shorttri=U.triples, **info)


def fan_curve(T, l):
    '''The curve that follows the loop l, on the side of the corners from l round to ~l.'''
    vertex = next(v for v in T.vertices if l in v)
    i = list(vertex).index(l)
    cyc = list(vertex[i:]) + list(vertex[:i])
    if ~l not in cyc: return None
    x = [0] * T.zeta
    for e in cyc[1:cyc.index(~l)]: x[M.norm(e)] += 1
    return tuple(x)


def local(ctx, rng, T, CT, L, w, comps):
    info = dict(tri=T.triples, weights=w)
    ctx.equal('weight', L.weight(), sum(max(x, 0) for x in w), **info)
    ctx.equal('iteration', (tuple(L), tuple(L(l) for l in T.labels)), (w, tuple(w[M.norm(l)] for l in T.labels)), **info)
    for l in T.labels:
        tail, end, head = M.corner_counts(T, w, l)
        opposite = M.corner_counts(T, w, T.prv[l])[0]
        tail_end, head_end = (M.corner_counts(T, w, x)[1] for x in (T.nxt[l], T.prv[l]))
        e = l if rng.random() < 0.5 else curver.kernel.Edge(l)
        got = (L.dual_weight(e), L.left_weight(e), L.right_weight(e))
        want = (-end if end else opposite, -tail_end if tail_end else tail, -head_end if head_end else head)
        ctx.equal('corner weights', got, want, edge=l, **info)
        ctx.equal('doubled corner weights', (L.dual_weight(e, double=True), L.left_weight(e, double=True), L.right_weight(e, double=True)), tuple(2 * x for x in want), edge=l, **info)


def edges(ctx, rng, T, CT):
    arcs = [tuple(-1 if i == j else 0 for j in range(T.zeta)) for i in range(T.zeta)]
    for l in rng.sample(T.labels, min(4, len(T.labels))):
        A = CT.edge_arc(l)
        ctx.equal('edge curves and arcs', (util.vec(A), type(A).__name__), (arcs[M.norm(l)], 'Arc'), tri=T.triples, edge=l)
    for l in T.labels:
        C = CT.edge_curve(l)
        p = M.reduce(T, M.Path(True, tuple(boundary_word(T, l)), None, None))
        M.check_path(T, p)
        ctx.equal('edge curves and arcs', (util.vec(C), type(C).__name__), (M.weights(T, p), 'Curve'), tri=T.triples, edge=l)
    ctx.equal('all edge arcs', [util.vec(A) for A in CT.edge_arcs()], arcs, tri=T.triples)


def around(T, l, last=None):
    '''The exits of a path that circles the tail of l anticlockwise, from just after l to just before last.'''
    c = T.vertices[T.vid[l]]
    c = c[c.index(l):] + c[:c.index(l)]
    return [~x for x in c[1:len(c) if last is None else c.index(last)]]


def boundary_word(T, l):
    if T.vid[l] == T.vid[~l]: return around(T, l, ~l)
    return around(T, l) + around(T, ~l)


def cuts(ctx, T, CT, comps):
    for v, (m, p) in comps.items():
        if not p.word: continue
        info = dict(tri=T.triples, word=p.word)
        ctx.equal('cut sequence', tuple(CT.cut_sequence_intersections(list(p.word))), v, **info)
        L = CT.lamination_from_cut_sequence(list(p.word))
        ctx.equal('lamination of a cut sequence', (util.vec(L), type(L).__name__), (v, 'Curve' if p.closed else 'Arc'), **info)
        if p.closed:
            C = CT.curve_from_cut_sequence([curver.kernel.Edge(l) for l in p.word])
            ctx.equal('lamination of a cut sequence', (util.vec(C), type(C).__name__), (v, 'Curve'), **info)
