'''Saving and restoring.'''
import pickle
import curver
from vlib import model as M, gen, util

ID = 'P10'
RULE = ('Each case saves and restores - by pickle (every protocol), by signature, by package / encode - triangulations, laminations of every class, mappings, mapping classes, crushes, lifts, Pachner moves, homology classes and mapping class groups made on random surfaces; the copy must be equal to the original and act alike, also after a second round trip. '
        'Signatures must separate different triangulations. Non-trivial: non-empty data; distinct by what was saved.')
MINIMUM = {'triangulation': 100, 'signature': 80, 'lamination': 300, 'mapping': 80, 'crush': 40, 'lift': 40, 'pachner': 40, 'group': 5, 'homology class': 50, 'signatures separate': 60}


def cases(tier, rng):
    n = 100 if tier == 'quick' else 3000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 3, 4, 6, 9]), 'group': i % 16 == 0} for i in range(n)]


def trip(rng, x):
    y = pickle.loads(pickle.dumps(x, protocol=rng.randint(0, pickle.HIGHEST_PROTOCOL)))
    return pickle.loads(pickle.dumps(y)) if rng.random() < 0.3 else y


def run(case, ctx):
    rng = ctx.rng
    T = gen.surface(rng, case['size'])
    CT = gen.to_curver(T)
    info = dict(tri=T.triples)
    ctx.nontrivial('T', T.triples)
    copy = trip(rng, CT)
    ctx.check('triangulation', util.same_tri(copy, T) and copy == CT and hash(copy) == hash(CT) and not copy != CT, **info)
    if rng.random() < 0.5: copy.surface()
    s = CT.sig()
    back = curver.triangulation_from_sig(s) if hasattr(curver, 'triangulation_from_sig') else curver.kernel.Triangulation.from_sig(s)
    ctx.check('signature', util.same_tri(back, T) and back == CT and back.sig() == s and isinstance(s, str), sig=s, **info)
    ctx.check('triangulation', curver.create_triangulation(*CT.package()) == CT, **info)
    # Other triangulations have other signatures.
    for _ in range(3):
        U = M.relabel_tri(T, gen.relabelling(rng, T.zeta)) if rng.random() < 0.5 else gen.flips(rng, T, 1)
        CU = gen.to_curver(U)
        same = U.key() == T.key()
        ctx.equal('signatures separate', (CU == CT, CU.sig() == s), (same, same), other=U.triples, **info)
    lams = gen.lams(rng, T, 2) + [tuple([0] * T.zeta)]
    for mode in ('curves', 'arcs'):
        try:
            lams.append(gen.weights(rng, T, mode))
        except M.ModelError:
            pass
    Ls = [CT(list(w)) for w in lams]
    Ls += [c for c in Ls[0].components()][:2] + [curver.kernel.Lamination(CT, [x / 3 for x in map(int, lams[0])])]
    for L in Ls:
        if rng.random() < 0.5 and isinstance(L, curver.kernel.IntegralLamination): L.components()  # Possibly with a cache.
        N = trip(rng, L)
        ctx.check('lamination', N == L and hash(N) == hash(L) and type(N) is type(L) and util.vec(N) == util.vec(L) and util.same_tri(N.triangulation, T), lamination=util.vec(L), **info)
        if isinstance(L, curver.kernel.IntegralLamination):
            ctx.check('lamination', util.comp_map(N) == util.comp_map(L), lamination=util.vec(L), **info)
        ctx.nontrivial('L', T.triples, util.vec(L))
    hc = sum((rng.randint(-3, 3) and CT.edge_homology(e) for e in range(T.zeta)), 0)
    if hc:
        hc2 = trip(rng, hc)
        ctx.check('homology class', hc2 == hc and list(hc2) == list(hc), **info)
    mapping(ctx, rng, T, CT, lams[:3], Ls[:3], info)
    crushes(ctx, rng, T, CT, Ls, info)
    pachner(ctx, rng, T, CT, info)
    if case['group']: group(ctx, rng)


def mapping(ctx, rng, T, CT, lams, Ls, info):
    if T.zeta > 12: seq, U = gen.sequence(rng, T, 2)
    else: seq, U = gen.sequence(rng, T, rng.randint(1, 7))
    h = CT.encode(seq)
    if U.key() == T.key() or rng.random() < 0.3:
        h = h * gen.Word(rng, T, CT, 1, 2).h
    hs = CT.edge_homologies()
    for g in (trip(rng, h), h.source_triangulation.encode(h.package()), trip(rng, h.inverse()).inverse()):
        ctx.check('mapping', g == h and hash(g) == hash(h) and type(g) is type(h) and util.same_tri(g.source_triangulation, T) and util.same_tri(g.target_triangulation, U), sequence=seq, **info)
        for w, L in zip(lams, Ls): ctx.equal('mapping', util.vec(g(L)), util.vec(h(L)), sequence=seq, lamination=w, **info)
        ctx.check('mapping', all(g(x) == h(x) for x in hs), sequence=seq, **info)
    ctx.check('mapping', trip(rng, h).package() == h.package(), sequence=seq, **info)


def crushes(ctx, rng, T, CT, Ls, info):
    if T.zeta > 15 or not gen.has_essential_curve(T): return
    w = gen.weights(rng, T, 'curves')
    C = CT(list(w))
    f = C.crush()
    g = f.inverse()
    f2 = trip(rng, f)
    ctx.check('crush', f2.target_triangulation == f.target_triangulation and f2.source_triangulation == CT and type(f2) is type(f) and f2 == f, curve=w, **info)
    for L in Ls:
        if isinstance(L, curver.kernel.IntegralLamination):
            ctx.equal('crush', util.vec(f2(L)), util.vec(f(L)), curve=w, lamination=util.vec(L), **info)
    g2 = trip(rng, g)
    ctx.check('lift', g2.target_triangulation == g.target_triangulation and g2.source_triangulation == g.source_triangulation, curve=w, **info)
    S = f.target_triangulation
    for v in S.vertices:
        c = S.curve_from_cut_sequence(v)
        ctx.equal('lift', util.vec(g2(c)), util.vec(g(c)), curve=w, vertex=str(v), **info)
    for L in Ls:
        if isinstance(L, curver.kernel.IntegralLamination):
            for c in L.components():
                if isinstance(c, curver.kernel.Curve) and C.intersection(c) == 0:
                    d = f(c)
                    if isinstance(d, curver.kernel.Curve): ctx.equal('lift', util.vec(g2(d)), util.vec(g(d)), curve=w, lamination=util.vec(c), **info)
                    ctx.equal('crush', util.vec(g2.inverse()(c)), util.vec(d), curve=w, **info)


def pachner(ctx, rng, T, CT, info):
    if T.zeta > 15: return
    tris = None if rng.random() < 0.5 else set(rng.sample(list(CT), rng.randint(1, len(T.triples))))
    P = CT.encode_pachner_1_3(tris)
    Q = trip(rng, P)
    try:
        w = gen.weights(rng, T, 'curves')
    except M.ModelError:
        return
    C = CT(list(w))
    ctx.check('pachner', Q.target_triangulation == P.target_triangulation and Q.source_triangulation == CT, **info)
    ctx.equal('pachner', (util.vec(Q(C)), util.vec(Q.inverse()(Q(C)))), (util.vec(P(C)), w), **info)


def group(ctx, rng):
    g, n = rng.choice([(0, 4), (0, 5), (1, 1), (1, 2), (2, 1)])
    S = curver.load(g, n)
    R = trip(rng, S)
    word = S.random_word(4)
    ctx.check('group', R == S and sorted(R) == sorted(S) and R.triangulation == S.triangulation and R('.'.join(word)) == S('.'.join(word)), surface=(g, n), word=word)
