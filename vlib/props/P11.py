'''Isometries.'''
from vlib import model as M, gen, util, sym

ID = 'P11'
RULE = ('Each case takes triangulations that are isometric (relabelled copies, symmetric ones made as cyclic covers, disconnected unions), nearly isometric (one flip away) or unrelated, enumerates all orientation preserving isomorphisms by brute force and compares them with isometries_to, self_isometries, is_isometric_to and find_isometry; '
        'each isometry also acts on laminations. Non-trivial: pairs with at least one isometry other than the identity, distinct by (source, target).')
MINIMUM = {'all isometries': 150, 'self isometries': 80, 'find_isometry from one label': 80, 'contradictory maps are refused': 60, 'isometry acts by relabelling': 80, 'is_isometric_to': 100}


def cases(tier, rng):
    n = 260 if tier == 'quick' else 5000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 4, 5]), 'kind': rng.choice(['sym', 'sym', 'any', 'any', 'flip', 'pair'])} for _ in range(n)]


def key(m):
    return tuple(sorted(m.items()))


def lmap(iso):
    return dict(iso.label_map)


def run(case, ctx):
    rng = ctx.rng
    T = sym.symmetric(rng, 6)[0] if case['kind'] == 'sym' else gen.surface(rng, case['size'])
    r = gen.relabelling(rng, T.zeta)
    U = M.relabel_tri(T, r)
    if case['kind'] == 'flip':
        U = gen.flips(rng, U, rng.choice([1, 2]))
    elif case['kind'] == 'pair':
        for _ in range(10):
            V = gen.surface(rng, case['size'])
            if V.zeta == T.zeta:
                U = V
                break
    CT, CU = gen.to_curver(T), gen.to_curver(U)
    for A, B, CA, CB in ((T, U, CT, CU), (T, T, CT, CT)):
        try:
            want = sorted(key(m) for m in sym.isometries(A, B))
        except M.ModelError:
            ctx.skip('too many isometries')
            continue
        info = dict(source=A.triples, target=B.triples)
        got = list(CA.isometries_to(CB))
        ctx.equal('all isometries', sorted(key(lmap(i)) for i in got), want, **info)
        ctx.equal('is_isometric_to', CA.is_isometric_to(CB), bool(want), **info)
        if A is B: ctx.equal('self isometries', sorted(key(lmap(i)) for i in CA.self_isometries()), want, **info)
        if len(want) > (A is B): ctx.nontrivial(A.triples, B.triples)
        if not want: ctx.observe('not isometric')
        w = gen.weights(rng, A)
        L = CA(list(w))
        for i in rng.sample(got, min(3, len(got))):
            h = i.encode()
            m = lmap(i)
            ctx.equal('isometry acts by relabelling', util.vec(h(L)), M.relabel_weights(A, m, w), map=m, weights=w, **info)
            ctx.check('isometry triangulations', util.same_tri(h.source_triangulation, A) and util.same_tri(h.target_triangulation, B), **info)
            ctx.equal('isometry inverse', util.vec(h.inverse()(h(L))), tuple(w), map=m, weights=w, **info)
        find(ctx, rng, A, B, CA, CB, [dict(k) for k in want], info)
    other = gen.surface(rng, 2)
    if other.zeta != T.zeta:
        ctx.equal('is_isometric_to', CT.is_isometric_to(gen.to_curver(other)), False, source=T.triples, target=other.triples)
    ctx.sample({'source': T.triples, 'target': U.triples})


def find(ctx, rng, A, B, CA, CB, maps, info):
    '''find_isometry: given where one edge of each component goes, find the rest.'''
    def attempt(given):
        try:
            return lmap(CA.find_isometry(CB, given))
        except ValueError:
            return None
    for m in rng.sample(maps, min(3, len(maps))):
        given = {}
        for c in A.parts:
            for l in rng.sample(sorted(c), rng.choice([1, 1, 2])): given[l] = m[l]
        ctx.equal('find_isometry from one label', key(attempt(given) or {}), key(m), given=given, **info)
        bad = dict(given)
        l = rng.choice(sorted(bad))
        bad[l] = rng.choice(list(B.labels))
        want = [n for n in maps if all(n[a] == b for a, b in bad.items())]
        # Where every component is given there is at most one.
        got = attempt(bad)
        ctx.equal('contradictory maps are refused', key(got) if got else None, key(want[0]) if want else None, given=bad, **info)
    for _ in range(2):
        given = {rng.choice(sorted(c)): rng.choice(list(B.labels)) for c in A.parts}
        want = [n for n in maps if all(n[a] == b for a, b in given.items())]
        got = attempt(given)
        ctx.equal('contradictory maps are refused', key(got) if got else None, key(want[0]) if want else None, given=given, **info)
    if A is B and len(A.parts) > 1:  # A component that is not mentioned stays where it is.
        c = sorted(sorted(A.parts, key=min)[0])
        want = [n for n in maps if all(n[l] == l for l in A.labels if l not in c)]
        for n in want[:3]:
            ctx.equal('omitted components are fixed', key(attempt({c[0]: n[c[0]]}) or {}), key(n), **info)
