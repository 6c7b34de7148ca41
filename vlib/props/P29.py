'''Things that live on different triangulations do not mix.'''
import curver
from vlib import model as M, gen, util

ID = 'P29'
RULE = ('Each case takes two different triangulations with the same number of edges where possible (flipped, relabelled, mirrored, of another surface, or with another number of edges) and laminations, mapping classes, homology classes and mappings with identical coordinates on both, and mixes them in every binary operation, in random order, before and after the operation has been asked (and so remembered) for the arguments that do belong together. '
        'All of it must be refused, and be unequal, while the legitimate calls keep working. Laminations with the wrong number of weights are refused too. Non-trivial: pairs of triangulations of the same surface; distinct by pair.')
MINIMUM = {'mixed is refused': 3000, 'seen same weights': 500, 'legitimate call': 2500, 'unequal': 700, 'wrong number of weights': 200}


def cases(tier, rng):
    n = 120 if tier == 'quick' else 5000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 3, 4])} for _ in range(n)]


def other(rng, T):
    '''A different triangulation.'''
    for _ in range(50):
        x = rng.random()
        if x < 0.4:
            U = gen.flips(rng, T, rng.choice([1, 1, 2, 5]))
        elif x < 0.7: U = M.relabel_tri(T, gen.relabelling(rng, T.zeta))
        elif x < 0.8: U = M.Tri([t[::-1] for t in T.triples])
        elif x < 0.9: U = gen.gluing(rng, T.zeta // 3)
        else: U = gen.stellar(rng, T, 1)
        if U.key() != T.key() and gen.has_essential_curve(U): return U
    return None


def common(rng, T, U):
    '''The same weights on both.'''
    if T.zeta != U.zeta: return None
    for _ in range(60):
        w = tuple(rng.choice([0, 0, 1, 1, 2, 2, -1]) for _ in range(T.zeta))
        if any(w) and M.is_consistent(T, w) and M.is_consistent(U, w): return w
    return None


def curve_on_both(rng, T, U):
    if T.zeta != U.zeta: return None
    for _ in range(60):
        w, p = gen.curve(rng, T)
        if M.is_consistent(U, w):
            [(v, (m, q)), *rest] = M.components(U, w).items()
            if not rest and m == 1 and q.closed and not M.is_peripheral(U, q): return w
    return None


def run(case, ctx):
    rng = ctx.rng
    while True:
        T = gen.surface(rng, case['size'], max_zeta=12, connected=rng.choice([True, True, None]))
        if not gen.has_essential_curve(T): continue
        U = other(rng, T)
        if U is not None: break
    CT, CU = gen.to_curver(T), gen.to_curver(U)
    info = dict(first=T.triples, second=U.triples)
    w = common(rng, T, U)
    x, y = (w, w) if w is not None else (gen.weights(rng, T, 'nonempty'), gen.weights(rng, U, 'nonempty'))
    if x == y: ctx.observe('same weights', 5)
    c = curve_on_both(rng, T, U)
    c, d = (c, c) if c is not None else (gen.curve(rng, T)[0], gen.curve(rng, U)[0])
    if c == d: ctx.observe('same weights', 5)
    L, N, C, D = CT(list(x)), CU(list(y)), CT(list(c)), CU(list(d))
    h, k = C.encode_twist(2), D.encode_twist(2)
    a, b = CT.edge_homology(0), CU.edge_homology(0)
    es = [l for l in range(T.zeta) if T.is_flippable(l)]
    f = CT.encode([rng.choice(es)]) if es else h
    crush = C.crush()
    ops = {  # name: (legitimate arguments, mixed arguments, call)
        'intersection': ((C, L), (C, N), lambda p, q: p.intersection(q)),
        'intersection of arcs': ((CT.edge_arc(0), L), (CT.edge_arc(0), N), lambda p, q: p.intersection(q)),
        'intersection the other way': ((L, C), (L, D), lambda p, q: p.intersection(q)),
        'intersections': ((C, L), (C, N), lambda p, q: p.intersection(L, q)),
        'sum': ((C, C), (C, D), lambda p, q: p + q),
        'sum of many': ((L, L), (L, N), lambda p, q: CT.sum([p, q, p])),
        'sum of many with multiplicities': ((C, C), (C, D), lambda p, q: CT.sum({q: 3})),
        'disjoint sum': ((C, C), (C, D), lambda p, q: CT.disjoint_sum([p, q])),
        'disjoint sum with multiplicities': ((C, C), (C, D), lambda p, q: CT.disjoint_sum({q: 2})),
        'sum elsewhere': ((C, C), (D, D), lambda p, q: CT.sum([p, q])),
        'disjoint sum elsewhere': ((C, C), (D, D), lambda p, q: CT.disjoint_sum([p])),
        'image': ((h, L), (h, N), lambda p, q: p(q)),
        'image of a curve': ((f, C), (f, D), lambda p, q: p(q)),
        'image of homology': ((h, a), (h, b), lambda p, q: p(q)),
        'crush': ((crush, L), (crush, N), lambda p, q: p(q)),
        'lift': ((crush.inverse(), crush(C)), (crush.inverse(), D if crush.target_triangulation != CU else C), lambda p, q: p(q)),
        'composition': ((h, h), (h, k), lambda p, q: p * q),
        'composition with a mapping': ((f, h), (f, k), lambda p, q: p * q),
        'composition with a crush': ((crush, h), (crush, k), lambda p, q: p * q),
        'conjugation': ((h, h), (h, k), lambda p, q: p.conjugate_by(q)),
        'homology sum': ((a, a), (a, b), lambda p, q: p + q),
        'homology difference': ((a, a), (a, b), lambda p, q: p - q),
        'fills': ((C, C), (C, D), lambda p, q: p.fills_with(q)),
        'relative twisting': ((C, L), (C, N), lambda p, q: p.relative_twisting(L, q)),
        'slope': ((C, L), (C, N), lambda p, q: p.slope(q)),
    }
    if len(T.components) == 1:
        ops['boundary of union'] = ((C, C), (C, D), lambda p, q: p.boundary_union(q))
        G = curver.kernel.CurveGraph(CT)
        ops['tight paths'] = ((C, C), (C, D), lambda p, q: G.tight_paths(p, q, 1))
        ops['quasiconvex'] = ((C, C), (C, D), lambda p, q: G.quasiconvex(p, q))
        ops['tight paths elsewhere'] = ((C, C), (D, D), lambda p, q: G.tight_paths(p, q, 0))
    names = sorted(ops)
    rng.shuffle(names)
    for name in names:
        good, bad, call = ops[name]
        sure = name not in ('slope', 'relative twisting') or M.intersection_number(T, M.components(T, x).values(), M.components(T, c).values()) > 0
        if rng.random() < 0.5 and sure: legitimate(ctx, name, good, call, info)
        ctx.check('mixed is refused', refused(lambda: call(*bad)), operation=name, arguments=(str(bad[0]), str(bad[1])), **info)
        if sure: legitimate(ctx, name, good, call, info)
    for p, q in ((CT, CU), (C, D), (L, N), (h, k), (a, b), (CT.id_encoding(), CU.id_encoding()), (CT.edge_arc(0), CU.edge_arc(0)), (CT.as_lamination(), CU.as_lamination()), (CT.empty_lamination(), CU.empty_lamination())):
        ctx.equal('unequal', (p == q, q == p, p != q, len({p, q})), (False, False, True, 2), what=(str(p), str(q)), **info)
    for n in (T.zeta - 1, T.zeta + 1, 0):
        ctx.check('wrong number of weights', refused(lambda: CT([0] * n)), n=n, **info)
        ctx.check('wrong number of weights', refused(lambda: curver.kernel.HomologyClass(CT, [0] * n)), n=n, **info)
    if sorted(T.surface().values()) == sorted(U.surface().values()): ctx.nontrivial(T.triples, U.triples)
    ctx.sample(info)


def legitimate(ctx, name, good, call, info):
    ctx.check('legitimate call', not refused(lambda: call(*good)), operation=name, arguments=(str(good[0]), str(good[1])), **info)


def refused(f):
    try:
        return f() is NotImplemented
    except Exception:  # How it is refused does not matter.
        return True
