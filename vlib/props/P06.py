'''Dehn twists.'''
import curver
from vlib import model as M, gen, util

ID = 'P06'
RULE = ('Each case draws a curve or weighted multicurve c (including isolating, non-isolating, separating ones, vertex links, and ones far from short) and laminations a on a random surface, twists by powers from 1 to 2^120 of either sign, and compares with the strands re-drawn by the model: '
        'small powers are drawn, and large ones follow from convexity: once the weights of two consecutive drawn powers differ by i(a, c) * c they do so for ever. Non-trivial: i(a, c) > 0; distinct by (triangulation, c, power, a).')
MINIMUM = {'small power as drawn': 150, 'large power as extrapolated': 60, 'wound lamination unwinds as drawn': 60, 'multitwist as drawn': 30, 'fixes disjoint laminations': 30, 'twist by (edge, power)': 15, 'seen several components': 25}
HUGE = [2 ** 31, 2 ** 53 + 1, 2 ** 60 - 1, 2 ** 60 + 127, 3 ** 40, 2 ** 63, 2 ** 64 + 1, 2 ** 70 + 2 ** 16 - 1, 10 ** 17 + 3, 10 ** 30 + 7, 7 ** 60]


def cases(tier, rng):
    n = 240 if tier == 'quick' else 6000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 3, 4, 5, 6]), 'multi': i % 4 == 0} for i in range(n)]


def draw(T, c, power, comps):
    return M.weights_of(T, [(m, M.twist_path(T, c, power, p)) for m, p in comps.values()])


def run(case, ctx):
    rng = ctx.rng
    for _ in range(20):
        T = gen.surface(rng, case['size'])
        if gen.has_essential_curve(T): break
    else:
        ctx.skip('no essential curve')
        return
    CT = gen.to_curver(T)
    if rng.random() < 0.35:
        loops = [(v, p) for l in T.labels if T.vid[l] == T.vid[~l] for v, (m, p) in [next(iter(M.components(T, x).items())) for x in [fan(T, l)] if any(x)] if not M.is_peripheral(T, p)]
        v, c = rng.choice(loops) if loops else gen.curve(rng, T)
    else:
        v, c = gen.curve(rng, T)
    C = CT(list(v))
    lams = []
    for _ in range(3):
        lams.append(M.components(T, gen.weights(rng, T)))
    e = rng.randrange(T.zeta)
    lams.append({M.weights(T, M.edge_path(T, e)): (1, M.edge_path(T, e))})
    lams.append({v: (2, c)})
    for comps in lams: single(ctx, rng, T, CT, v, c, C, comps)
    if case['multi']: multi(ctx, rng, T, CT, lams)
    by_edge(ctx, rng, T, CT, lams)
    peripheral(ctx, rng, T, CT, lams)


def fan(T, l):
    c = T.vertices[T.vid[l]]
    c = c[c.index(l):] + c[:c.index(l)]
    v = [0] * T.zeta
    for x in c[1:c.index(~l)]: v[M.norm(x)] += 1
    return tuple(v)


def single(ctx, rng, T, CT, v, c, C, comps):
    a = M.weights_of(T, comps.values())
    A = CT(list(a))
    i = M.intersection_number(T, [(1, c)], list(comps.values()))
    base = dict(tri=T.triples, curve=v, lamination=a)
    for power in {rng.choice([1, -1]), rng.choice([2, -2, 3, -3, 4, 5, -5, 7])}:
        want = draw(T, c, power, comps)
        h = C.encode_twist(power) if power != 1 or rng.random() < 0.5 else C.encode_twist()
        got = h(A)
        info = dict(power=power, **base)
        ctx.equal('small power as drawn', util.vec(got), want, **info)
        ctx.equal('class is kept', type(got).__name__, type(A).__name__, **info)
        ctx.check('is a mapping class', isinstance(h, curver.kernel.MappingClass) and util.same_tri(h.source_triangulation, T) and util.same_tri(h.target_triangulation, T), **info)
        ctx.equal('inverse untwists', util.vec(h.inverse()(got)), a, **info)
        ctx.equal('opposite power untwists', util.vec(C.encode_twist(-power)(got)), a, **info)
        if i: ctx.nontrivial(T.triples, v, power, a)
    if i == 0:
        n = rng.choice([1, -3, 10 ** 6])
        ctx.equal('fixes disjoint laminations', util.vec(C.encode_twist(n)(A)), a, power=n, **base)
    for sign in (1, -1):
        prev = None
        for k in range(1, 9):
            try:
                cur = draw(T, c, sign * k, comps)
            except M.ModelError:
                break
            if prev is not None and all(y - x == i * z for x, y, z in zip(prev, cur, v)):
                n = rng.choice([k + 1, k + 5, 100, 10 ** 9 + 7, 2 ** 120 + 1, 2 ** 64])
                want = tuple(x + (n - k) * i * z for x, z in zip(cur, v))
                ctx.equal('large power as extrapolated', util.vec(C.encode_twist(sign * n)(A)), want, power=sign * n, **base)
                # Unwind a lamination that has been wound enormously: all but j of the twists come off again, which leaves a drawn one.
                n = rng.choice(HUGE)
                j = rng.choice([0, 1, 2, 3, k, k - 1, -1, -2])
                far = CT([x + (n - k) * i * z for x, z in zip(cur, v)])
                try:
                    near = draw(T, c, sign * j, comps)
                except M.ModelError:
                    break
                ctx.equal('wound lamination unwinds as drawn', util.vec(C.encode_twist(-sign * (n - j))(far)), near, powers=(sign * n, -sign * (n - j)), **base)
                m = rng.choice(HUGE)
                ctx.equal('wound lamination unwinds as drawn', util.vec(C.encode_twist(-sign * (n + m))(CT([x + (n - k) * i * z for x, z in zip(cur, v)]))), util.vec(C.encode_twist(-sign * m)(A)), powers=(sign * n, -sign * (n + m)), **base)
                break
            prev = cur
        else:
            ctx.skip('did not reach the linear range')
    ctx.equal('power 0 is the identity', util.vec(C.encode_twist(0)(A)), a, **base)
    j, k = rng.choice([-4, -1, 2, 3]), rng.choice([-3, -2, 1, 5])
    ctx.equal('powers add', util.vec(C.encode_twist(j)(C.encode_twist(k)(A))), util.vec(C.encode_twist(j + k)(A)), powers=(j, k), **base)
    ctx.equal('powers multiply', util.vec((C.encode_twist(j) ** k)(A)), util.vec(C.encode_twist(j * k)(A)), powers=(j, k), **base)


def multi(ctx, rng, T, CT, lams):
    for _ in range(20):
        comps = {v: mp for v, mp in M.components(T, gen.weights(rng, T, 'curves')).items()}
        if len(comps) >= 2: break
    if rng.random() < 0.6: comps = gen.multicurve(rng, T, 10) or comps
    comps = {v: (rng.choice([1, 1, 2, 3]), p) for v, (m, p) in comps.items()}
    if len(comps) > 1: ctx.observe('several components')
    w = M.weights_of(T, comps.values())
    C = CT(list(w))
    for power in (1, rng.choice([-1, 2, -2, 3])):
        h = C.encode_twist(power)
        for A in lams:
            a = M.weights_of(T, A.values())
            out = []
            for m, p in A.values():
                for k, c in comps.values(): p = M.twist_path(T, c, k * power, p)
                out.append((m, p))
            ctx.equal('multitwist as drawn', util.vec(h(CT(list(a)))), M.weights_of(T, out), tri=T.triples, multicurve=w, components=[(k, v) for v, (k, _) in comps.items()], lamination=a, power=power)
    ctx.sample({'triangles': T.triples, 'multicurve': w, 'components': len(comps)})


def by_edge(ctx, rng, T, CT, lams):
    '''encode([(label, power)]) twists about the curve to the right of the loop label.'''
    for l in T.labels:
        if T.vid[l] != T.vid[~l]: continue
        x = fan(T, l)
        if not any(x): continue
        cs = M.components(T, x)
        if len(cs) != 1: continue
        [(v, (m, c))] = cs.items()
        if not c.closed or M.is_peripheral(T, c): continue
        ctx.equal('edge_curve', util.vec(CT.edge_curve(l)), v, tri=T.triples, edge=l)
        power = rng.choice([1, -1, 2, 3, -2])
        for A in lams[:2]:
            a = M.weights_of(T, A.values())
            ctx.equal('twist by (edge, power)', util.vec(CT.encode([(l, power)])(CT(list(a)))), draw(T, c, power, A), tri=T.triples, edge=l, power=power, lamination=a)
        break


def peripheral(ctx, rng, T, CT, lams):
    v = rng.choice(T.vertices)
    w = [0] * T.zeta
    for l in v: w[M.norm(l)] += 1
    C = CT(w)
    a = M.weights_of(T, lams[0].values())
    ctx.equal('peripheral twists are trivial', util.vec(C.encode_twist(rng.choice([1, -2]))(CT(list(a)))), a, tri=T.triples, curve=w, lamination=a)
