'''Crushing along multicurves, and lifting back.'''
import curver
from vlib import model as M, gen, util

ID = 'P16'
RULE = ('Each case crushes a random surface along a random multicurve (several components, parallel copies, peripheral ones, separating or not) and follows laminations through. The model says what the crushed surface is, into how many arcs each lamination is cut, and - as intersection numbers with the lifts of random curves, which determine it - what the image is; lifts must come back to where they started, and twists are respected. '
        'Non-trivial: an essential multicurve and a lamination that meets it; distinct by (triangulation, multicurve, lamination).')
MINIMUM = {'topology': 150, 'is_separating': 80, 'number of pieces': 120, 'lift': 150, 'intersection': 200, 'seen lamination meets the curve': 80, 'twists are respected': 60, 'twist about the curve is forgotten': 60, 'new punctures': 60, 'seen several components': 20, 'lift comes back': 40}


def cases(tier, rng):
    n = 110 if tier == 'quick' else 4000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 3, 4])} for i in range(n)]


def weights_mult(L, U):
    '''{weights: (multiplicity, path)} of curver's lamination, by the model.'''
    return M.components(U, util.vec(L))


def run(case, ctx):
    rng = ctx.rng
    T = gen.surface(rng, case['size'])
    CT = gen.to_curver(T)
    if gen.has_essential_curve(T) and rng.random() < 0.3:
        w = gen.curve(rng, T)[0]
        comps = M.components(T, w)
    elif gen.has_essential_curve(T) and rng.random() < 0.7:
        w = M.weights_of(T, gen.multicurve(rng, T, 10, rng.choice([1, 1, 3])).values())
        if not any(w): return ctx.skip('no multicurve')
        comps = M.components(T, w)
    else:
        try:
            w = gen.weights(rng, T, 'curves')
        except M.ModelError:
            return ctx.skip('no multicurve')
        comps = M.components(T, w)
    C = CT(list(w))
    ess = [(v, p) for v, (m, p) in comps.items() if not M.is_peripheral(T, p)]
    info = dict(tri=T.triples, multicurve=w)
    if len(ess) > 1: ctx.observe('several components')
    f = C.crush()
    CU = f.target_triangulation
    U = gen.from_curver(CU)
    g = f.inverse()
    R = M.Regions(T, M.weights_of(T, [(1, p) for _, p in ess]))
    want = sorted((r['genus'], len(r['punctures']) + len(r['circles'])) for r in R.regions)
    ctx.equal('topology', sorted((a, b) for a, b, _ in U.surface().values()), want, **info)
    ctx.equal('topology', sorted((s.g, s.p, s.chi) for s in CU.surface().values()), sorted(U.surface().values()), **info)
    ctx.check('source', util.same_tri(f.source_triangulation, T) and util.same_tri(g.target_triangulation, T) and util.same_tri(g.source_triangulation, U), **info)
    ctx.equal('is_separating', C.is_separating(), len(want) > len(T.parts), **info)
    # The new punctures.
    loops = [util.vec(g(CU.curve_from_cut_sequence(v))) for v in CU.vertices]
    count = {v: loops.count(v) for v in set(loops)}
    links = {}
    for v in T.vertices:
        x = [0] * T.zeta
        for l in v: x[M.norm(l)] += 1
        links[tuple(x)] = 1
    ctx.equal('new punctures', sorted(count.items()), sorted({**links, **{v: 2 for v, _ in ess}}.items()), **info)
    # Curves on the crushed surface.
    below = []
    if gen.has_essential_curve(U):
        for _ in range(4):
            v, p = gen.curve(rng, U)
            if sum(v) > 60: continue
            d = CU(list(v))
            up = g(d)
            u = util.vec(up)
            if not ctx.check('lift', M.is_consistent(T, u) and type(up) is curver.kernel.Curve and [m for m, _ in M.components(T, u).values()] == [1], curve=v, **info): return
            q = next(iter(M.components(T, u).values()))[1]
            ctx.check('lift', q.closed and not M.is_peripheral(T, q) and u not in [x for x, _ in ess], curve=v, **info)
            for _, c in ess: ctx.equal('lift', M.intersection(T, q, c), 0, curve=v, **info)
            ctx.equal('lift comes back', util.vec(f(up)), v, curve=v, **info)
            below.append((v, p, q))
        for (v, p, q), (v2, p2, q2) in zip(below, below[1:]):
            ctx.equal('intersection', M.intersection(T, q, q2), M.intersection(U, p, p2), curves=(v, v2), **info)
        if below:
            # The lift is linear on multicurves.
            v, p, q = below[0]
            try:
                m = gen.weights(rng, U, 'curves')
            except M.ModelError:
                m = v
            back = M.weights_of(T, [(k, next(iter(M.components(T, util.vec(g(CU(list(x))))).values()))[1]) for x, (k, _) in M.components(U, m).items()])
            ctx.equal('lift', util.vec(g(CU(list(m)))), back, multicurve_below=m, **info)
    for _ in range(3):
        x = gen.weights(rng, T)
        if sum(abs(i) for i in x) > 100: continue
        X = CT(list(x))
        image = f(X)
        y = util.vec(image)
        lam = dict(lamination=x, **info)
        if not ctx.check('image is a lamination', M.is_consistent(U, y), image=y, **lam): return
        xs, ys = M.components(T, x), M.components(U, y)
        pieces, loose = 0, 0
        for v, (m, p) in xs.items():
            cut = sum(M.intersection(T, p, c) for _, c in ess)
            if cut: ctx.observe('lamination meets the curve')
            if cut and p.closed: pieces += m * cut
            elif not p.closed: pieces += m * (cut + 1)
            elif v not in [u for u, _ in ess]: loose += m
        if pieces or loose: ctx.nontrivial(T.triples, w, x)
        got = (sum(m for m, p in ys.values() if not p.closed), sum(m for m, p in ys.values() if p.closed and not (M.is_peripheral(U, p) and not any(q.closed for _, q in xs.values()))))
        ctx.equal('number of pieces', got[0], pieces, image=y, **lam)
        extra = sum(m for v, (m, _) in xs.items() if v in [u for u, _ in ess])
        ctx.check('number of pieces', loose <= sum(m for m, p in ys.values() if p.closed) <= loose + 2 * extra, image=y, **lam)
        for v, p, q in below:
            a = sum(m * M.intersection(T, s, q) for m, s in xs.values())
            b = sum(m * M.intersection(U, s, p) for m, s in ys.values())
            ctx.equal('intersection', b, a, curve=v, image=y, **lam)
        for v, (m, p) in xs.items():
            if p.closed and all(M.intersection(T, p, c) == 0 for _, c in ess) and v not in [u for u, _ in ess]:
                d = f(CT(list(v)))
                ctx.equal('lift comes back', util.vec(g(d)), v, **lam)
        # Twists.
        for v, p in ess:
            k = rng.choice([1, -1, 2, 3])
            ctx.equal('twist about the curve is forgotten', util.vec(f(CT(list(v)).encode_twist(k)(X))), y, curve=v, power=k, **lam)
        for v, p, q in below[:2]:
            k = rng.choice([1, -1, 2])
            up = M.weights(T, q)
            ctx.equal('twists are respected', util.vec(f(CT(list(up)).encode_twist(k)(X))), util.vec(CU(list(v)).encode_twist(k)(image)), curve=v, power=k, **lam)
    ctx.sample(info)
