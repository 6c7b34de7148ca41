'''Recognising multitwists.'''
import curver
from vlib import model as M, gen, util

ID = 'P26'
RULE = ('Each case makes mapping classes that are positive multitwists (about random multicurves with weights up to 10^9, conjugated and moved to other triangulations, even powers of half-twists, words that cancel to one) and ones that are not (negative and mixed twists, the identity, odd half-twists, periodic classes, products of twists about curves that meet, twists times a permutation of the components), and asks curver to recognise them. '
        'The multicurve that is extracted must be the one that the model says; what is not a multitwist must be refused. Non-trivial: mapping classes other than the identity; distinct by (triangulation, multicurve or word).')
MINIMUM = {'multitwist': 120, 'seen several components': 30, 'seen large': 15, 'moved': 60, 'inverse is not': 4, 'mixed is not': 2, 'half-twists': 30, 'not a multitwist': 20, 'random word': 10, 'cancelling word': 40}


def cases(tier, rng):
    n = 150 if tier == 'quick' else 3000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 3, 4]), 'kind': ['positive', 'positive', 'negative', 'meeting', 'words'][i % 5]} for i in range(n)]


def extract(h):
    try:
        c = h.extract_twisting_multicurve()
    except ValueError:
        return None
    return type(c).__name__, util.vec(c)


def name(A):
    return 'Curve' if len(A) == 1 and sum(m for m, _ in A.values()) == 1 else 'MultiCurve'


def run(case, ctx):
    rng = ctx.rng
    # Refusing takes a number of steps proportional to zeta, each of which is slow.
    while True:
        T = gen.surface(rng, case['size'], max_zeta=12 if case['kind'] == 'positive' else rng.choice([6, 6, 6, 6, 9]))
        if case['kind'] == 'negative' and rng.random() < 0.9 and not (gen.has_essential_curve(T) and len(gen.multicurve(rng, T, 12)) > 1): continue
        if case['kind'] != 'meeting' or gen.has_essential_curve(T): break
    CT = gen.to_curver(T)
    info = dict(tri=T.triples)
    if rng.random() < 0.2: ctx.equal('not a multitwist', (extract(CT.id_encoding()), CT.id_encoding().is_multitwist()), (None, False), **info)
    if gen.has_essential_curve(T):
        if case['kind'] in ('positive', 'negative'):
            for _ in range(3 if case['kind'] == 'positive' else 1): multitwists(ctx, rng, T, CT, case['kind'])
        if case['kind'] == 'positive': cancelling(ctx, rng, T, CT)
        if case['kind'] == 'meeting': meeting(ctx, rng, T, CT)
    if case['kind'] in ('positive', 'negative'): halves(ctx, rng, T, CT, case['kind'])
    if case['kind'] == 'words': words(ctx, rng, T, CT)
    ctx.sample(info)


def multitwists(ctx, rng, T, CT, kind):
    top = rng.choice([1, 1, 3, 10**9])
    A = gen.multicurve(rng, T, 6 if kind == 'positive' else 25, top)
    if not A: return
    w = M.weights_of(T, A.values())
    info = dict(tri=T.triples, multicurve=w)
    if len(A) > 1: ctx.observe('several components')
    if max(m for m, _ in A.values()) > 3: ctx.observe('large')
    C = CT(list(w))
    # Made one component at a time.
    h = CT.id_encoding()
    for v, (m, _) in sorted(A.items(), key=lambda _: rng.random()): h = CT(list(v)).encode_twist(m) * h
    ctx.equal('multitwist', (extract(h), h.is_multitwist()), ((name(A), w), True), **info)
    ctx.equal('multitwist', extract(C.encode_twist()), (name(A), w), **info)
    k = rng.choice([2, 3])
    ctx.equal('multitwist', extract(h**k), ('MultiCurve', tuple(k * x for x in w)), k=k, **info)
    ctx.nontrivial(T.triples, w)
    if kind == 'negative' and (len(A) == 1 or rng.random() < 0.3):
        g = h.inverse()
        ctx.equal('inverse is not', (extract(g), g.is_multitwist()), (None, False), **info)
    elif kind == 'negative' and len(A) > 1:
        (v, (m, _)), *rest = A.items()
        g = CT(list(v)).encode_twist(-m)
        for u, (m, _) in rest: g = CT(list(u)).encode_twist(m) * g
        ctx.equal('mixed is not', extract(rng.choice([g, g.inverse()])), None, **info)
    # Elsewhere.
    W = gen.Word(rng, T, CT, rng.randint(1, 2), 2)
    D = W.h(C)
    if D.weight() < 10**12:
        ctx.equal('moved', extract(W.h * h * W.h.inverse()), (name(A), util.vec(D)), word=W.desc, **info)
    seq, U = gen.sequence(rng, T, rng.randint(1, 5), twists=False)
    f = CT.encode(seq)
    ctx.equal('moved', extract(f * h * f.inverse()), (name(A), util.vec(f(C))), sequence=seq, **info)


def meeting(ctx, rng, T, CT):
    '''Products of positive twists about curves that meet have no multicurve: they are not even multitwists about other curves unless the model says so.'''
    (v, a), (u, b) = gen.curve(rng, T), gen.curve(rng, T)
    i = M.intersection(T, a, b)
    if i == 0: return
    A, B = CT(list(v)).encode_twist(), CT(list(u)).encode_twist()
    info = dict(tri=T.triples, curves=(v, u), intersection=i)
    # T_a T_b^-1 is pseudo-Anosov on what a and b fill.
    ctx.equal('not a multitwist', extract(rng.choice([A * B.inverse(), B * A.inverse()])), None, **info)
    # T_a T_b is periodic (i = 1), a multitwist up to sign (i = 2, lantern) or pseudo-Anosov there: never a positive multitwist, since it moves a.
    if i != 2 and rng.random() < 0.4: ctx.equal('not a multitwist', extract(A * B), None, **info)
    if i == 1:
        # The chain relation: (T_a T_b)^6 is the twist about the boundary of the torus that they fill.
        R = M.components(T, M.weights_of(T, [(1, p) for p in boundary(T, CT, v, u)]))
        C = {x: (1, p) for x, (m, p) in R.items() if not M.is_peripheral(T, p)}
        if len(C) > 1: raise M.ModelError('a torus with two boundary components')
        got = extract((A * B)**6)
        ctx.equal('not a multitwist' if not C else 'multitwist', got, ('Curve', next(iter(C))) if C else None, **info)


def boundary(T, CT, v, u):
    '''Of a neighbourhood of the union of two curves that meet once: the commutator, as a path.'''
    a, b = [next(iter(M.components(T, x).values()))[1] for x in (v, u)]
    # T_a^n(b) for n = 0, 1 and a meet pairwise once; the curve disjoint from both a and b is found through intersection numbers with the crushed surface.
    # a is crushed, b becomes an arc between the two new punctures, and the boundary of that arc is pulled back.
    crush = CT(list(v)).crush()
    U = util.tri(crush.target_triangulation)
    img = util.vec(crush(CT(list(u))))
    out = M.Regions(U, img).boundary()
    return [p for _, p in M.components(T, util.vec(crush.inverse()(crush.target_triangulation(list(out))))).values()] if any(out) else []


def cancelling(ctx, rng, T, CT):
    '''A word that the braid and commutation relations bring down to a multitwist.'''
    (v, a), (u, b) = gen.curve(rng, T), gen.curve(rng, T)
    A, B = CT(list(v)).encode_twist(), CT(list(u)).encode_twist()
    n = rng.choice([1, 2, 5])
    info = dict(tri=T.triples, curves=(v, u))
    # (A B) A^n (A B)^-1 = A B^.. : the twist about the image.
    h = A * B * A**n * B.inverse() * A.inverse()
    want = M.twist_path(T, a, 1, M.twist_path(T, b, 1, a))
    w = M.weights_of(T, [(n, want)])
    ctx.equal('cancelling word', extract(h), ('Curve' if n == 1 else 'MultiCurve', w), n=n, **info)
    ctx.equal('cancelling word', extract(A * B * B.inverse() * A**n), ('MultiCurve', tuple((n + 1) * x for x in v)), n=n, **info)


def halves(ctx, rng, T, CT, kind):
    es = [l for l in range(T.zeta) if T.vid[l] != T.vid[~l]]
    if not es: return
    l = rng.choice(es)
    h = CT.edge_arc(l).encode_halftwist()
    bound = {v: (m, p) for v, (m, p) in M.components(T, M.weights_of(T, [(1, around(T, l))])).items() if not M.is_peripheral(T, p)} if around(T, l) else {}
    k = rng.choice([1, 2, 5])
    info = dict(tri=T.triples, edge=l, k=k)
    if kind == 'negative': ctx.equal('half-twists', extract(h**rng.choice([2 * k - 1, -2 * k])), None, **info)
    want = next(iter(bound)) if bound else None
    if want is not None or kind == 'negative': ctx.equal('half-twists', extract(h**(2 * k)), None if want is None else (name({want: (k, None)}), tuple(k * x for x in want)), **info)


def around(T, l):
    '''The boundary of a neighbourhood of an edge with distinct ends (None if that bounds a punctured disc on the other side too).'''
    e = [0] * T.zeta
    e[M.norm(l)] = -1
    w = M.Regions(T, tuple(e)).boundary()
    if not any(w): return None
    comps = M.components(T, w)
    [(_, (m, p))] = comps.items()
    return p


def words(ctx, rng, T, CT):
    '''Whatever is extracted from a random word must twist as the word does; nothing may be missed, since T_c moves the edges as no other class does.'''
    for _ in range(1):
        W = gen.Word(rng, T, CT, rng.choice([1, 1, 2]), 2)
        got = extract(W.h)
        info = dict(tri=T.triples, word=W.desc)
        edges = [M.edge_path(T, l) for l in range(T.zeta)]
        image = [M.weights(T, W.apply_path(p)) for p in edges]
        if got is None:
            # Then no single curve that is nearby will do.
            if not gen.has_essential_curve(T): continue
            near = [x[1] for x in W.items if x[0] == 't'] + [gen.curve(rng, T)[1]]
            ok = not any(image == [M.weights(T, M.twist_path(T, c, k, p)) for p in edges] for c in near for k in (1, 2))
            ctx.check('random word', ok, **info)
        else:
            comps = M.components(T, got[1])
            def twisted(p):
                for _, (m, c) in comps.items(): p = M.twist_path(T, c, m, p)
                return p
            if all(m < 30 for m, _ in comps.values()):
                ctx.equal('random word', [M.weights(T, twisted(p)) for p in edges], image, got_multicurve=got, **info)
        ctx.nontrivial(T.triples, str(W.desc))
