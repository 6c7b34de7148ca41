'''Piecewise linear actions and projectively invariant laminations.'''
import math

import curver
from vlib import model as M, gen, util

ID = 'P20'
RULE = ('Each case takes a mapping (sequences of flips, multiflips, relabellings, twists and half-twists, words with large powers) and multicurves: the linear function that pl_action returns must have the multicurve in its domain, agree with the mapping on it, on every other multicurve that is found in its domain and on sums and multiples, and refuse those outside. '
        'Pseudo-Anosovs come from Thurston\'s construction (opposite multitwists about multicurves that fill) and from hyperbolic elements of SL(2, Z), disguised by conjugation and changes of triangulation: the stretch factor must be the one that the intersection matrix dictates and the lamination must be the limit of the images of curves. Non-trivial: mappings that move the multicurve; distinct by (triangulation, mapping, multicurve).')
MINIMUM = {'value': 300, 'domain contains the multicurve': 300, 'agrees on its domain': 300, 'refused outside of its domain': 200, 'stretch factor': 30, 'invariant lamination': 30, 'limit of images of curves': 30, 'periodic': 10, 'multitwist': 10, 'torus': 30}


def cases(tier, rng):
    n = 60 if tier == 'quick' else 2500
    out = [{'s': rng.getrandbits(48), 'kind': 'pl', 'size': rng.choice([1, 2, 2, 3, 3, 4, 5])} for _ in range(n)]
    out += [{'s': rng.getrandbits(48), 'kind': 'pa', 'size': rng.choice([1, 2, 2, 2, 3])} for _ in range(n)]
    out += [{'s': rng.getrandbits(48), 'kind': 'torus'} for _ in range(n // 2)]
    return out


def run(case, ctx):
    return {'pl': linear, 'pa': pseudo_anosov, 'torus': torus}[case['kind']](case, ctx)


def linear(case, ctx):
    rng = ctx.rng
    T = gen.surface(rng, case['size'])
    CT = gen.to_curver(T)
    for _ in range(2):
        seq, _ = gen.sequence(rng, T, rng.choice([1, 2, 4, 7]))
        h = CT.encode(seq)
        if rng.random() < 0.5 and T.zeta <= 12: h = h * gen.Word(rng, T, CT, 2, rng.choice([3, 9, 1000])).h
        ws = [w for w in (gen.weights(rng, T, 'curves') for _ in range(40))] + [(0,) * T.zeta]
        for w in ws[:3] + ws[-1:]:
            L = CT(list(w))
            if not isinstance(L, curver.kernel.MultiCurve): continue
            info = dict(tri=T.triples, mapping=h.package(), multicurve=w)
            F = h.pl_action(L)
            image = util.vec(h(L))
            if image != w: ctx.nontrivial(T.triples, str(h.package()), w)
            ctx.check('domain contains the multicurve', w in F, **info)
            ctx.equal('value', tuple(F(w)), image, **info)
            ctx.sample(info)
            n = 0
            for w2 in rng.sample(ws, len(ws)):
                n = yes_no(ctx, F, h, CT, w2, info, n)
                if n >= 4: break
                if n and w2 in F:
                    s = tuple(3 * a + 2 * b for a, b in zip(w, w2))
                    ctx.check('agrees on its domain', s in F and tuple(F(s)) == util.vec(h(CT(s))), other=s, **info)


def yes_no(ctx, F, h, CT, w, info, n):
    if w in F:
        ctx.equal('agrees on its domain', tuple(F(w)), util.vec(h(CT(list(w)))), other=w, **info)
        return n + 1
    try:
        F(w)
        ok = False
    except ValueError:
        ok = True
    ctx.check('refused outside of its domain', ok, other=w, **info)
    return n


def top_eigenvalue(N, a, b):
    '''Of N b N^t a, by the power method (everything is irreducible, so it is simple; squares of N N^t are aperiodic).'''
    x = [1.0] * len(a)
    value = 0
    for _ in range(3000):
        y = [sum(N[i][j] * a[i] * x[i] for i in range(len(a))) * b[j] for j in range(len(b))]
        z = [sum(N[i][j] * y[j] for j in range(len(b))) for i in range(len(a))]
        value = max(z)
        z = [t / value for t in z]
        if max(abs(s - t) for s, t in zip(z, x)) < 1e-15: break
        x = z
    return value


def close(x, y, tol=1e-9):
    return abs(x - y) <= tol * max(1, abs(x), abs(y))


def examine(ctx, rng, CT, f, stretch, info):
    d, L = f.projective_invariant_lamination()
    ctx.check('stretch factor', close(float(d), stretch), got=float(d), want=stretch, **info)
    ctx.check('invariant lamination', f(L) == d * L and any(L), **info)
    ctx.check('invariant lamination', L.triangulation == CT, **info)
    v = [float(x) for x in L]
    top = max(v)
    v = [x / top for x in v]
    for c in rng.sample(list(CT.edge_curves()), min(2, len(CT.edge_curves()))):
        w = util.vec(f(c, power=60))
        if max(w) < 10**18: continue  # This was peripheral.
        m = max(w)
        ctx.check('limit of images of curves', max(abs(x - y / m) for x, y in zip(v, w)) < 1e-6, **info)


def pseudo_anosov(case, ctx):
    rng = ctx.rng
    while True:
        T = gen.surface(rng, case['size'], connected=True, max_zeta=9)
        if gen.has_essential_curve(T): break
    CT = gen.to_curver(T)
    for _ in range(12):
        A, B = gen.multicurve(rng, T, rng.choice([1, 3]), 2), gen.multicurve(rng, T, rng.choice([1, 3]), 2)
        if not A or not B: continue
        CA, CB = CT(list(M.weights_of(T, A.values()))), CT(list(M.weights_of(T, B.values())))
        if not CA.fills_with(CB): continue
        N = [[M.intersection(T, p, q) for _, q in B.values()] for _, p in A.values()]
        if sum(map(sum, N)) > 12: continue
        k, l = rng.choice([1, 1, 2]), rng.choice([1, 1, 3])
        mu = top_eigenvalue(N, [k * m for m, _ in A.values()], [l * m for m, _ in B.values()])
        tr = 2 + mu
        stretch = (tr + math.sqrt(tr * tr - 4)) / 2
        if stretch > 3000: continue
        f = CA.encode_twist(k) * CB.encode_twist(-l)
        if rng.random() < 0.3: f = ~f
        g = gen.Word(rng, T, CT, rng.choice([0, 1]), 1).h
        if rng.random() < 0.5: g = CT.encode(gen.sequence(rng, T, 3, twists=False)[0]) * g
        f = g * f * ~g
        U = g.target_triangulation
        info = dict(tri=T.triples, a=M.weights_of(T, A.values()), b=M.weights_of(T, B.values()), powers=(k, l), conjugator=g.package())
        ctx.nontrivial(T.triples, str(f.package()))
        examine(ctx, rng, U, f, stretch, info)
        break
    # Those that have no expanding lamination.
    v, c = gen.curve(rng, T)
    t = CT(list(v)).encode_twist(rng.choice([1, -1, 3]))
    ctx.check('multitwist', harmless(t), tri=T.triples, curve=v)
    ctx.check('periodic', refuses(CT.id_encoding()), tri=T.triples)


def refuses(f):
    try:
        f.projective_invariant_lamination()
        return False
    except ValueError:
        return True


def harmless(f):
    '''Either there is none or it is honest: a twist stretches nothing.'''
    try:
        d, L = f.projective_invariant_lamination()
    except ValueError:
        return True
    return d == 1 and f(L) == L and any(L)


def torus(case, ctx):
    rng = ctx.rng
    S = gen.load(1, 1)
    CT = S.triangulation
    a, b = S['a_0'], S['b_0']
    # (a, b) act as these up to sign and conjugation, being right twists about curves that meet once.
    X, Y = ((1, 1), (0, 1)), ((1, 0), (-1, 1))

    def mul(P, Q):
        return tuple(tuple(sum(P[i][k] * Q[k][j] for k in range(2)) for j in range(2)) for i in range(2))
    inv = lambda P: ((P[1][1], -P[0][1]), (-P[1][0], P[0][0]))
    P, f = ((1, 0), (0, 1)), CT.id_encoding()
    word = []
    for _ in range(rng.randint(1, 8)):
        x, e = rng.choice('ab'), rng.choice([1, -1])
        word.append((x, e))
        Z, z = (X, a) if x == 'a' else (Y, b)
        P, f = mul(P, Z if e > 0 else inv(Z)), f * (z if e > 0 else ~z)
    tr = abs(P[0][0] + P[1][1])
    info = dict(word=word, trace=tr)
    ctx.nontrivial('torus', str(word))
    if tr > 2:
        examine(ctx, rng, CT, f, (tr + math.sqrt(tr * tr - 4)) / 2, info)
        ctx.check('torus', True)
    elif tr < 2: ctx.check('torus', refuses(f), **info)
    else: ctx.check('torus', harmless(f), **info)
