'''Slopes and relative twisting.'''
from fractions import Fraction

from vlib import model as M, gen, util

ID = 'P19'
RULE = ('Each case draws curves c and laminations a, b meeting them (arcs, peripheral components, multiplicities) on a random surface. The slope of a about c is recorded along the orbit of a under twists about c, by steps of one and by enormous powers: outside of [-1, 1] it must grow by exactly the power. '
        'Relative twisting is compared with the asymptotes of the convex function k -> i(T^k(a), b) that the model draws. Non-trivial: every (curve, lamination) that meet; distinct by (triangulation, curve, lamination).')
MINIMUM = {'slope grows by one': 300, 'slope within [-1, 1] grows by at most one': 150, 'slope grows by the power': 80, 'slope is undefined': 40, 'multiples have the same slope': 60, 'relative twisting': 60, 'relative twisting after twists': 60, 'antisymmetric': 60, 'invariant': 30, 'of nearly disjoint laminations': 5, 'undefined': 20}


def cases(tier, rng):
    n = 100 if tier == 'quick' else 4000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 3, 4, 5]), 'big': rng.choice([1, 10, 1000, 10**12, 10**30])} for _ in range(n)]


def raises(f, *args):
    try:
        f(*args)
        return False
    except ValueError:
        return True


def run(case, ctx):
    rng = ctx.rng
    T = gen.surface(rng, case['size'])
    while not gen.has_essential_curve(T): T = gen.surface(rng, case['size'])
    CT = gen.to_curver(T)
    for _ in range(2):
        v, c = gen.curve(rng, T)
        C = CT(list(v))
        for _ in range(3):
            w = gen.weights(rng, T)
            A = list(M.components(T, w).values())
            ac = M.intersection_number(T, [(1, c)], A)
            L = CT(list(w))
            if ac == 0: ctx.check('slope is undefined', raises(C.slope, L), tri=T.triples, curve=v, lamination=w)
            else: break
        else: continue
        slopes(ctx, rng, case, T, CT, C, v, L, w, ac)
        w2 = gen.weights(rng, T)
        if sum(map(abs, w + w2)) * sum(v) > 350: continue
        relative(ctx, rng, T, CT, C, v, c, w, w2, A, ac)
    x = rng.choice(T.vertices)
    u = [0] * T.zeta
    for l in x: u[M.norm(l)] += 1
    ctx.check('slope is undefined', raises(CT(u).slope, CT([2] * T.zeta)), tri=T.triples, curve=u)
    ctx.check('undefined', raises(CT(u).relative_twisting, CT([2] * T.zeta), CT([2] * T.zeta)), tri=T.triples, curve=u)


def slopes(ctx, rng, case, T, CT, C, v, L, w, ac):
    ctx.nontrivial(T.triples, v, w)
    t = C.encode_twist()
    X = C.encode_twist(-4)(L)
    seq = []
    for k in range(9):
        seq.append(C.slope(X))
        X = t(X)
    info = dict(tri=T.triples, curve=v, lamination=w, slopes=[str(s) for s in seq])
    for a, b in zip(seq, seq[1:]):
        if abs(a) > 1 or abs(b) > 1: ctx.check('slope grows by one', b == a + 1, **info)
        else: ctx.check('slope within [-1, 1] grows by at most one', a <= b <= a + 1, **info)
        ctx.check('a fraction of the intersection number', (a * ac).denominator == 1, **info)
    N = case['big'] + rng.randrange(5)
    up, down = C.encode_twist(12)(L), C.encode_twist(-12)(L)
    su, sd = C.slope(up), C.slope(down)
    ctx.check('slope grows by the power', su > 1 and sd < -1, up=str(su), down=str(sd), **info)
    ctx.check('slope grows by the power', C.slope(C.encode_twist(N)(up)) == su + N, N=N, **info)
    ctx.check('slope grows by the power', C.slope(C.encode_twist(-N)(down)) == sd - N, N=N, **info)
    k = rng.choice([2, 3, 7, 10**10])
    ctx.check('multiples have the same slope', C.slope(k * up) == su, k=k, **info)
    ctx.check('multiples have the same slope', C.slope(k * L) == seq[4], k=k, **info)


def relative(ctx, rng, T, CT, C, v, c, w, w2, A, ac):
    B = list(M.components(T, w2).values())
    bc = M.intersection_number(T, [(1, c)], B)
    a, b = CT(list(w)), CT(list(w2))
    info = dict(tri=T.triples, curve=v, a=w, b=w2)
    if bc == 0:
        ctx.check('undefined', raises(C.relative_twisting, a, b), **info)
        ctx.check('undefined', raises(C.relative_twisting, b, a), **info)
        return

    cache = {}

    def f(k):
        if k not in cache: cache[k] = sum(m * n * M.intersection(T, M.twist_path(T, c, k, p), q) for m, p in A for n, q in B)
        return cache[k]

    def asymptote(sign):
        # f is convex, with slopes at most ac * bc.
        for k in range(8):
            if f(sign * (k + 1)) - f(sign * k) == ac * bc: return f(sign * k) - k * ac * bc, k
        return None, None
    (up, ku), (down, kd) = asymptote(1), asymptote(-1)
    if up is None or down is None:
        ctx.observe('not convex within eight twists')
        return
    want = Fraction(down - up, 2 * ac * bc)

    def check(kind, got, shift, **more):
        # Of T^shift(a) about b. This is exact once i(T^k(a), b) is linear for |k| >= 2 i(a, b), and within one always.
        i = up + shift * ac * bc if shift >= ku else down - shift * ac * bc if shift <= -kd else f(shift)
        exact = shift + 2 * i >= ku and shift - 2 * i <= -kd
        if exact: ctx.equal(kind, str(got), str(want - shift), shift=shift, **info, **more)
        else: ctx.check('of nearly disjoint laminations', abs(got - (want - shift)) <= 1, got=str(got), want=str(want - shift), **info, **more)
    r = C.relative_twisting(a, b)
    check('relative twisting', r, 0)
    n = rng.choice([1, -1, 2, -3, 5, 10**10])
    t = C.encode_twist(n)
    check('relative twisting after twists', C.relative_twisting(t(a), b), n)
    m = rng.choice([1, 2, -1])
    check('relative twisting after twists', C.relative_twisting(t(a), (t**m)(b)), n - m * n, n=n, m=m)
    ctx.equal('antisymmetric', str(C.relative_twisting(b, a)), str(-r), **info)
    if T.zeta <= 12:
        h = gen.Word(rng, T, CT, 2, 2).h
        ctx.equal('invariant', str(h(C).relative_twisting(h(a), h(b))), str(r), mapping=h.package(), **info)
    ctx.sample(dict(info, relative_twisting=str(r)))
    # Fewest intersections: within one of the best number of twists.
    best = min(range(-8, 9), key=f)
    if abs(best) < 8: ctx.check('within one of the best number of twists', min(abs(k - r) for k in range(-8, 9) if f(k) == f(best)) <= 1, got=str(r), **info)
