'''Finite subgroups: invariant polygonalisations, quotient orbifolds and conjugacy.'''
import math
from fractions import Fraction
import curver
from vlib import model as M, gen, util, sym

ID = 'P15'
RULE = ('Each case takes an isometry of a symmetric triangulation (cyclic covers, random symmetric gluings, unions with permuted and pointwise fixed components), disguises it by conjugating with a random word and moving to another triangulation, and compares the quotient orbifold signature of the group it generates with the one computed directly from the triangles, edges and vertices. '
        'The invariant polygonalisation is checked by the model, and conjugacy of pairs of elements is compared with equality of the directly computed signatures and with the conjugacies that are known by construction. Non-trivial: groups of order at least two; distinct by (triangulation, isometry).')
MINIMUM = {'signature': 60, 'invariant polygonalisation': 60, 'is_conjugate_to': 150, 'seen conjugate': 60, 'seen not conjugate': 30, 'conjugate to what it was made from': 40, 'reducible': 40, 'euler characteristic': 50, 'group': 60, 'torus': 60}


def cases(tier, rng):
    n = 77 if tier == 'quick' else 2500
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 4, 4]), 'kind': ['single', 'single', 'pair', 'torus', 'perm', 'pair', 'tall' if i % 2 else 'extremal'][i % 7]} for i in range(n)]


def plain(signature):
    return sorted((Fraction(o.euler_characteristic), o.preimages, tuple(sorted((bool(c.punctured), c.order, tuple(sorted(c.holonomy)), c.preimages) for c in o.cone_points))) for o in signature)


def disguise(ctx, rng, T, m, words=True):
    '''The same mapping class, up to conjugacy.'''
    CT = gen.to_curver(T)
    f = CT.encode([m])
    if words and T.zeta <= 9:
        W = gen.Word(rng, T, CT, rng.choice([0, 1, 1]), 2)
        f = W.h * f * W.h.inverse()
    seq, U = gen.sequence(rng, T, rng.choice([0, 0, 2, 3]), twists=False)
    g = CT.encode(seq)
    return (U, g * f * g.inverse()) if T.zeta <= 12 and rng.random() < 0.6 else (T, f)


def run(case, ctx):
    rng = ctx.rng
    if case['kind'] == 'torus': return torus(ctx, rng)
    T, m = pick(rng, case)
    n = sym.order(m)
    if n > 12: return ctx.skip('large order')
    U, f = disguise(ctx, rng, T, m)
    info = dict(tri=T.triples, isometry=str(m), order=n, on=U.triples)
    if n > 1: ctx.nontrivial(T.triples, str(m))
    H = f.subgroup()
    check_group(ctx, rng, H, f, n, info)
    want = sym.quotient(T, m)
    got = plain(H.quotient_orbifold_signature())
    ctx.equal('signature', got, want, **info)
    polygonalisation(ctx, H, U, f, info)
    for chi, pre, cones in got:
        # The underlying surface of each quotient is closed and oriented.
        g2 = 2 - chi - sum(1 if p else 1 - Fraction(1, o) for p, o, _, _ in cones)
        ctx.check('euler characteristic', g2 >= 0 and g2.denominator == 1 and g2 % 2 == 0, signature=str(got), **info)
    ctx.equal('reducible', f.is_reducible(), any(len(c) != 3 or 2 - chi - sum(1 if p else 1 - Fraction(1, o) for p, o, _, _ in c) != 0 for chi, _, c in want), **info)
    ctx.equal('nielsen thurston', f.nielsen_thurston_type(), curver.kernel.encoding.NT_TYPE_PERIODIC, **info)
    # Conjugates and powers.
    V, g = disguise(ctx, rng, T, m)
    conj(ctx, f, g, True, info)
    ctx.check('conjugate to what it was made from', f.is_conjugate_to(g) and g.is_conjugate_to(f) and f.is_conjugate_to(f), **info)
    for k in sorted({rng.randrange(n), n - 1, rng.randrange(n)}):
        mk = sym.power(m, k)
        if math.gcd(k, n) == 1 or rng.random() < 0.4:
            conj(ctx, f, g ** k, sym.order(mk) == n and sym.quotient(T, mk) == want, {**info, 'power': k})
    if case['kind'] == 'pair':
        # Another symmetry of the same surface.
        ms = sym.isometries(T, T)
        for _ in range(3):
            x = rng.choice(ms)
            if sym.order(x) > 12: continue
            X, h = disguise(ctx, rng, T, x)
            conj(ctx, f, h, sym.order(x) == n and sym.quotient(T, x) == want, {**info, 'other': str(x)})
    if n > 1 and T.zeta <= 9: rebuilt(ctx, rng, H, f, n, got, info)
    ctx.sample(info)


def pick(rng, case):
    if case['kind'] == 'tall': return sym.tall(rng)
    if case['kind'] == 'extremal': return sym.extremal(rng, 8 if case["size"] > 2 else 6)
    if case['kind'] == 'perm':
        # Components that are permuted, fixed pointwise or rotated at different speeds.
        parts = []
        for _ in range(rng.choice([2, 2, 3])):
            A = gen.connected_gluing(rng, 1)
            parts.append((A, rng.choice(sym.isometries(A, A))))
        if rng.random() < 0.5: parts.append(parts[0])
        T, m = parts[0]
        offsets = [0]
        for A, x in parts[1:]:
            z = T.zeta
            offsets.append(z)
            T = gen.union(T, A)
            m = {**m, **{(l + z if l >= 0 else l - z): (y + z if y >= 0 else y - z) for l, y in x.items()}}
        if len(parts) > 1 and parts[-1] is parts[0] and rng.random() < 0.7:
            z = offsets[-1]
            s = {l: l for l in T.labels}
            for l in parts[0][0].labels:
                y = l + z if l >= 0 else l - z
                s[l], s[y] = y, l
            m = sym.compose(m, s)
        return T, m
    return sym.symmetric(rng, case['size'])


def conj(ctx, f, g, want, info):
    ctx.observe('conjugate' if want else 'not conjugate')
    ctx.equal('is_conjugate_to', (f.is_conjugate_to(g), g.is_conjugate_to(f)), (want, want), **info)


def check_group(ctx, rng, H, f, n, info):
    ctx.equal('group', (len(H), sorted(H)), (n, list(range(n))), **info)
    i, j = rng.randrange(n), rng.randrange(n)
    ctx.check('group', H[i] * H[j] == H[(i + j) % n] and H[i] == f ** i and H[0].is_identity(), **info)


def polygonalisation(ctx, H, U, f, info):
    P = H.invariant_polygonalisation()
    v = util.vec(P)
    comps = M.components(U, v)
    ctx.check('invariant polygonalisation', all(not p.closed for _, p in comps.values()) and M.Regions(U, v).polygonalises(), multiarc=v, **info)
    ctx.check('invariant polygonalisation', all(util.vec(H[i](P)) == v for i in H) and util.same_tri(P.triangulation, U), multiarc=v, **info)


def rebuilt(ctx, rng, H, f, n, got, info):
    '''The same group from named generators.'''
    k = rng.choice([k for k in range(1, n) if math.gcd(k, n) == 1])
    G = curver.kernel.FiniteSubgroup.from_generators({'g': f ** k})
    ctx.check('group', len(G) == n and {G[x] for x in G} == {H[i] for i in H}, **info)
    number = {x: next(i for i in range(n) if H[i] == G[x]) for x in G}
    sig = sorted((Fraction(o.euler_characteristic), o.preimages, tuple(sorted((bool(c.punctured), c.order, tuple(sorted(number[x] for x in c.holonomy)), c.preimages) for c in o.cone_points))) for o in G.quotient_orbifold_signature())
    ctx.equal('signature', sig, got, generators='g', **info)


def torus(ctx, rng):
    '''Mod(S_{1,1}) = SL(2, Z): elements of finite order are conjugate iff they have the same order and turn the same way.'''
    S = gen.load(1, 1)
    fixed = {(1, 0): 1}
    classes = {'1': '', '2': '(a_0.b_0)^3', '3': '(a_0.b_0)^2', '3-': '(a_0.b_0)^-2', '4': 'a_0.b_0.a_0', '4-': '(a_0.b_0.a_0)^-1', '6': 'a_0.b_0', '6-': '(a_0.b_0)^-1'}
    names = sorted(classes)
    hs = {}
    for x in names:
        c = '.'.join(rng.choice(['a_0', 'A_0', 'b_0', 'B_0']) for _ in range(rng.randint(0, 4)))
        h = S(c) * S(classes[x]) * S(c).inverse()
        hs[x] = h
        ctx.equal('torus', h.order(), int(x[0]), word=classes[x], conjugator=c)
        ctx.nontrivial(x, c)
    for x in names:
        for y in names:
            conj(ctx, hs[x], hs[y], x == y, dict(left=x, right=y))
    t = S('a_0')
    ctx.equal('is_conjugate_to', (t.is_conjugate_to(hs['6']), hs['6'].is_conjugate_to(t)), (False, False))
    ctx.equal('is_conjugate_to', hs['6'].is_conjugate_to(gen.load(1, 2)('')), False)
