'''Components of integral weight vectors.'''
import curver
from vlib import model as M, gen, util

ID = 'P01'
RULE = ('Each case draws a random triangulated surface (random gluings, stellar subdivisions, curver.load surfaces after random flips and relabellings, disconnected unions) and several random integral weight vectors on it; '
        'curver builds the lamination and its components, multiplicities and class are compared with the strands that the weights draw. A vector is non-trivial if it draws at least two components or a component meeting at least four edges; distinct by (triangulation, weights).')
MINIMUM = {'components match strands': 100, 'class matches strands': 100}


def cases(tier, rng):
    n = 260 if tier == 'quick' else 6000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 3, 4, 5, 6]), 'huge': i % 6 == 0} for i in range(n)]


def run(case, ctx):
    rng = ctx.rng
    T = gen.surface(rng, case['size'])
    CT = gen.to_curver(T)
    for _ in range(4):
        w = gen.weights(rng, T, big=rng.choice([3, 4, 6, 9]))
        decide(ctx, T, CT, w)
    if case['huge']:
        # Multiplicities far beyond anything that could be traced: scale the components of a small one.
        w = gen.weights(rng, T, 'any')
        comps = M.components(T, w)
        if comps:
            mult = {v: rng.choice([1, 2, 10 ** 9 + 7, 2 ** 200 + 1]) for v in comps}
            W = [sum(mult[v] * v[i] for v in comps) for i in range(T.zeta)]
            L = CT(list(W))
            ctx.equal('components match strands', util.comp_map(L), mult, tri=T.triples, weights=W)
            ctx.equal('class matches strands', type(L).__name__, util.class_name({v: (mult[v], p) for v, (_, p) in comps.items()}), tri=T.triples, weights=W)
            ctx.nontrivial(T.triples, tuple(W))


def decide(ctx, T, CT, w):
    comps = M.components(T, w)
    info = dict(tri=T.triples, weights=w)
    L = CT(list(w))
    ctx.equal('weights are kept', util.vec(L), tuple(w), **info)
    want = {v: m for v, (m, p) in comps.items()}
    ctx.equal('class matches strands', type(L).__name__, util.class_name(comps), **info)
    ctx.equal('components match strands', util.comp_map(L), want, **info)
    for c in L.components():
        closed = comps[util.vec(c)][1].closed if util.vec(c) in comps else None
        ctx.equal('component has the right class', type(c).__name__, 'Curve' if closed else 'Arc', component=util.vec(c), **info)
    ctx.equal('number of components', L.num_components(), sum(want.values()), **info)
    ctx.equal('emptiness', L.is_empty(), not comps, **info)
    ctx.equal('weight', L.weight(), sum(max(x, 0) for x in w), **info)
    per = {v: m for v, (m, p) in comps.items() if M.is_peripheral(T, p)}
    P = tuple(sum(m * v[i] for v, m in per.items()) for i in range(T.zeta))
    ctx.equal('peripheral part', util.vec(L.peripheral()), P, **info)
    ctx.equal('non-peripheral part', util.vec(L.non_peripheral()), tuple(a - b for a, b in zip(w, P)), **info)
    ctx.equal('is_peripheral', L.is_peripheral(), len(per) == len(comps), **info)
    ctx.equal('is_non_peripheral', L.is_non_peripheral(), not per, **info)
    arcs = {v: mp for v, mp in comps.items() if not mp[1].closed}
    curves = {v: mp for v, mp in comps.items() if mp[1].closed}
    A, C = L.multiarc(), L.multicurve()
    ctx.equal('multiarc', (util.vec(A), type(A).__name__), (M.weights_of(T, arcs.values()), util.class_name(arcs)), **info)
    ctx.equal('multicurve', (util.vec(C), type(C).__name__), (M.weights_of(T, curves.values()), util.class_name(curves)), **info)
    S = L.skeleton()
    ctx.equal('skeleton', util.vec(S), M.weights_of(T, [(1, p) for _, p in comps.values()]), **info)
    if len(comps) >= 2 or any(sum(map(abs, v)) >= 4 for v in comps): ctx.nontrivial(T.triples, tuple(w))
    if len(comps) >= 2: ctx.sample({'triangles': T.triples, 'weights': list(w), 'components': len(comps)})
