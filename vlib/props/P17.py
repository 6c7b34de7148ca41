'''Regular neighbourhoods, filling and polygonalisations.'''
import curver
from vlib import model as M, gen, util

ID = 'P17'
RULE = ('Each case takes laminations on random surfaces (multiarcs made of edges, of flipped edges, with parallel copies, mixed with curves; multicurves) and compares boundary, is_filling, is_polygonalisation, is_triangulation, vertices and has_distinct_endpoints with the complementary regions that the model cuts out strand by strand. '
        'For pairs, fills_with and boundary_union are compared with the regions of the image on the surface crushed along the first, and searched for curves that miss both. Non-trivial: laminations that are not empty; distinct by (triangulation, lamination).')
MINIMUM = {'boundary': 200, 'is_filling': 200, 'is_polygonalisation': 150, 'seen filling': 40, 'seen not filling': 60, 'seen polygonalisation': 30, 'seen not a polygonalisation': 60, 'is_triangulation': 100, 'vertices': 100, 'fills_with': 80, 'seen fills with': 15, 'seen does not fill with': 30, 'boundary_union': 60, 'seen far from short': 30}


def cases(tier, rng):
    n = 120 if tier == 'quick' else 5000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 3, 4, 5]), 'pair': i % 2 == 0} for i in range(n)]


def multiarc(rng, T, density):
    w = [0] * T.zeta
    for i in range(T.zeta):
        if rng.random() < density: w[i] = -rng.choice([1, 1, 1, 2, 3])
    return tuple(w)


def moved(rng, T, CT, w):
    '''Some image of w, so that it is far from short.'''
    W = gen.Word(rng, T, CT, rng.choice([1, 2]), 2)
    v = W.apply_weights(w)
    return v if sum(abs(x) for x in v) < 250 else w


def run(case, ctx):
    rng = ctx.rng
    T = gen.surface(rng, case['size'])
    CT = gen.to_curver(T)
    ws = [gen.weights(rng, T), multiarc(rng, T, rng.choice([0.2, 0.5, 0.8, 1]))]
    if rng.random() < 0.6: ws.append(gen.weights(rng, T, 'arcs'))
    x = multiarc(rng, T, rng.choice([0.4, 0.7, 1]))
    if T.zeta <= 12:
        y = moved(rng, T, CT, x)
        if y != x: ctx.observe('far from short')
        ws.append(y)
    for w in ws: single(ctx, T, CT, w)
    if case['pair'] and gen.has_essential_curve(T): pairs(ctx, rng, T, CT, ws)


def single(ctx, T, CT, w):
    L = CT(list(w))
    R = M.Regions(T, w)
    info = dict(tri=T.triples, lamination=w)
    if any(w): ctx.nontrivial(T.triples, w)
    B = L.boundary()
    ctx.equal('boundary', (util.vec(B), util.same_tri(B.triangulation, T)), (R.boundary(), True), **info)
    # By convention multicurves never fill, not even the peripheral ones of S_{0,3}.
    fills, poly = R.fills() and not (any(w) and all(p.closed for _, p, _ in R.comps)), R.polygonalises()
    ctx.observe('filling' if fills else 'not filling')
    ctx.observe('polygonalisation' if poly else 'not a polygonalisation')
    ctx.equal('is_filling', L.is_filling(), fills, **info)
    ctx.equal('is_polygonalisation', L.is_polygonalisation(), poly, **info)
    if isinstance(L, curver.kernel.MultiArc):
        comps = M.components(T, w)
        ctx.equal('is_triangulation', L.is_triangulation(), len(comps) == T.zeta and all(m == 1 for m, _ in comps.values()), **info)
        ends = [e for m, p in comps.values() for e in gen.arc_ends(T, p)]
        got = sorted(sorted(e.label for e in v) for v in L.vertices())
        ctx.equal('vertices', got, sorted(sorted(T.vertices[v]) for v in set(ends)), **info)
        many = [e for m, p in comps.values() for e in gen.arc_ends(T, p) * m]
        ctx.equal('has_distinct_endpoints', L.has_distinct_endpoints(), len(set(many)) == len(many), **info)
        # A triangulation of its own: all the ways of being filling agree with one another.
        if L.is_triangulation(): ctx.check('is_filling', fills and poly, **info)
    # Parallel copies change nothing but the multiplicities.
    k = 3
    ctx.equal('is_filling', (k * L).is_filling(), fills, multiple=k, **info)
    ctx.sample(info)


def pairs(ctx, rng, T, CT, ws):
    for _ in range(3):
        x = rng.random()
        if x < 0.35:
            v, p = gen.curve(rng, T)
            A = {v: (1, p)}
        else:
            A = gen.multicurve(rng, T, rng.choice([2, 6]), 2)
            if not A: continue
        a = M.weights_of(T, A.values())
        y = rng.random()
        if y < 0.45: b = gen.curve(rng, T)[0]
        elif y < 0.6: b = rng.choice(ws)
        else: b = M.weights_of(T, gen.multicurve(rng, T, 4, 2).values())
        if T.zeta <= 9 and rng.random() < 0.5: b = moved(rng, T, CT, b)
        if sum(abs(i) for i in b) > 150 or not any(b): continue
        ca, cb = CT(list(a)), CT(list(b))
        B = M.components(T, b)
        info = dict(tri=T.triples, a=a, b=b)
        crush = ca.crush()
        CU = crush.target_triangulation
        U = gen.from_curver(CU)
        image = util.vec(crush(cb))
        # Forget the images of the components that are parallel to a: these are peripheral.
        R = M.Regions(U, image)
        meets = all(any(M.intersection(T, p, q) for _, q in B.values()) for _, p in A.values())
        # Filling: every component of a is met and the arcs of b fill what is left.
        fills = meets and arcs_fill(U, image)
        got = ca.fills_with(cb)
        ctx.observe('fills with' if fills else 'does not fill with')
        ctx.equal('fills_with', got, fills, **info)
        if all(q.closed for _, q in B.values()): ctx.equal('fills_with', cb.fills_with(ca), fills and all(any(M.intersection(T, p, q) for _, p in A.values()) for _, q in B.values()), swapped=True, **info)
        for _ in range(4):
            v, p = gen.curve(rng, T)
            if all(M.intersection(T, p, q) == 0 for _, q in list(A.values()) + list(B.values())):
                ctx.check('fills_with', not got, disjoint_from_both=v, **info)
        m = ca.boundary_union(cb)
        v = util.vec(m)
        ctx.equal('boundary_union', v, util.vec(crush.inverse()(CU(list(R.boundary())))), **info)
        comps = M.components(T, v)
        ctx.check('boundary_union', all(p.closed for _, p in comps.values()), m=v, **info)
        ctx.check('boundary_union', all(M.intersection(T, p, q) == 0 for _, p in comps.values() for _, q in list(A.values()) + list(B.values())), m=v, **info)
        ctx.check('boundary_union', not fills or all(M.is_peripheral(T, p) for _, p in comps.values()), m=v, **info)
        ctx.nontrivial(T.triples, a, b)


def arcs_fill(U, image):
    R = M.Regions(U, image)
    return R.fills()
