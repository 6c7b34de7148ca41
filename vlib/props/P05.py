'''Geometric intersection numbers.'''
from fractions import Fraction
import curver
from vlib import model as M, gen, util

ID = 'P05'
RULE = ('Each case draws pairs and triples of laminations on one surface (curves, arcs, mixtures, vertex links, edges, shared components, multiplicities up to 10^12, images under twist words with weights of hundreds of digits); '
        'curver\'s intersection number is compared with the number of linked pairs of lifts to the universal cover, computed component by component. Non-trivial: a positive intersection number; distinct by (triangulation, both weight vectors).')
MINIMUM = {'equals linking count': 200, 'symmetric': 100, 'additive': 100, 'invariant': 60, 'invariant under large twists': 20}


def cases(tier, rng):
    n = 240 if tier == 'quick' else 6000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 3, 4, 5, 6]), 'far': i % 3 == 0} for i in range(n)]


def components(rng, T, other=None):
    mode = rng.choice(['any', 'any', 'any', 'curves', 'arcs'])
    try:
        comps = M.components(T, gen.weights(rng, T, mode, big=rng.choice([3, 4, 7])))
    except M.ModelError:
        comps = M.components(T, gen.weights(rng, T))
    if rng.random() < 0.2: comps = {v: (rng.choice([1, 2, 5, 10 ** 12]), p) for v, (m, p) in comps.items()}
    return comps


def pairs(T, A, B):
    return M.intersection_number(T, list(A.values()), list(B.values()))


def run(case, ctx):
    rng = ctx.rng
    T = gen.surface(rng, case['size'])
    CT = gen.to_curver(T)
    lams = [components(rng, T) for _ in range(3)]
    lams.append({v: (1, p) for v, (m, p) in list(lams[0].items())[:2]})  # Shares components.
    W = [M.weights_of(T, c.values()) for c in lams]
    Ls = [CT(list(w)) for w in W]
    n = len(lams)
    I = {(i, j): pairs(T, lams[i], lams[j]) for i in range(n) for j in range(i, n)}
    for i in range(n):
        for j in range(n):
            want = I[(min(i, j), max(i, j))]
            info = dict(tri=T.triples, a=W[i], b=W[j])
            got = Ls[i].intersection(Ls[j])
            ctx.equal('equals linking count' if i <= j else 'symmetric', got, want, **info)
            if i == j: ctx.equal('no self-intersection', got, 0, **info)
            if want: ctx.nontrivial(T.triples, W[i], W[j])
            ctx.equal('no_common_component', Ls[i].no_common_component(Ls[j]), not set(lams[i]) & set(lams[j]), **info)
    info = dict(tri=T.triples, weights=W)
    ctx.equal('several at once', Ls[0].intersection(*Ls), sum(I[(0, j)] for j in range(n)), **info)
    ctx.equal('with nothing', Ls[1].intersection(), 0, **info)
    # Additive over components, on both sides.
    for L, M2, i, j in ((Ls[0], Ls[1], 0, 1), (Ls[1], Ls[2], 1, 2)):
        ctx.equal('additive', sum(m * c.intersection(M2) for c, m in L.components().items()), I[(i, j)], which=(i, j), **info)
        ctx.equal('additive', sum(m * L.intersection(c) for c, m in M2.components().items()), I[(i, j)], which=(i, j), **info)
    k = rng.choice([2, 3, 10 ** 9])
    ctx.equal('scales', (k * Ls[0]).intersection(Ls[1]), k * I[(0, 1)], k=k, **info)
    ctx.equal('scales', Ls[0].intersection(k * Ls[1]), k * I[(0, 1)], k=k, **info)
    # With each edge: the intersection with an edge is its weight (and 0 if negative).
    for e in range(T.zeta):
        ctx.equal('edges measure weights', CT.edge_arc(e).intersection(Ls[2]), max(W[2][e], 0), edge=e, **info)
    # Invariant under flips.
    h = CT.id_encoding()
    U = T
    for _ in range(rng.randint(1, 6)):
        es = [l for l in U.labels if U.is_flippable(l)]
        if not es: break
        e = rng.choice(es)
        h = h.target_triangulation.encode_flip(e) * h
        U = M.flip_tri(U, e)
    ctx.equal('invariant', h(Ls[0]).intersection(h(Ls[1])), I[(0, 1)], **info)
    ctx.equal('invariant', h(Ls[1]).intersection(h(Ls[2])), I[(1, 2)], **info)
    if case['far'] and gen.has_essential_curve(T):
        f = gen.Word(rng, T, CT, rng.randint(1, 3), max_power=rng.choice([5, 10 ** 3, 10 ** 18]))
        X = [f.h(L) for L in Ls]
        for i, j in ((0, 1), (1, 0), (1, 2), (2, 1), (3, 2)):
            ctx.equal('invariant under large twists', X[i].intersection(X[j]), I[(min(i, j), max(i, j))], word=f.desc, which=(i, j), **info)
        ctx.equal('edges measure weights', CT.edge_arc(0).intersection(X[1]), max(X[1](0), 0), word=f.desc, **info)
        ctx.equal('edges measure weights', X[1].intersection(CT.edge_arc(0)), max(X[1](0), 0), word=f.desc, **info)
    # A measured lamination with rational weights on the right.
    q = rng.choice([2, 3, 10 ** 15])
    R = curver.kernel.Lamination(CT, [Fraction(x, q) for x in W[1]])
    ctx.equal('rational laminations', Ls[0].intersection(R), Fraction(I[(0, 1)], q), q=q, **info)
    ctx.sample({'triangles': T.triples, 'a': W[0], 'b': W[1], 'intersection': I[(0, 1)]})
