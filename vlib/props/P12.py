'''The example mapping class groups.'''
import itertools
import curver
from vlib import model as M, gen, util

ID = 'P12'
RULE = ('Each case loads Mod(S_{g,n}) - or one of the named examples - and measures it with the model: the surface, how often every pair of generating curves and arcs meet, the regions that they cut out, that the generators act as the twists / half-twists about their curves and arcs, and the action on homology mod 2 and on the punctures. '
        'Together with the Lickorish picture these determine the generating set up to homeomorphism. Words of generators are then compared with the braid, chain and sphere relations. Non-trivial: every surface; distinct by (g, n) and by the lamination that is moved.')
MINIMUM = {'surface': 20, 'intersections': 200, 'regions': 20, 'generators act': 100, 'relations': 30, 'punctures are permuted by the full symmetric group': 8, 'homology mod 2 is moved transitively': 8, 'unknown surfaces are refused': 8}

OLD = {
    'S_0_4': (0, 4), 'S_1_1': (1, 1), 'S_1_2': (1, 2), 'S_1_2p': (1, 2), 'S_2_1': (2, 1), 'S_3_1': (3, 1), 'S_4_1': (4, 1), 'S_5_1': (5, 1),
}
MEET = {  # The pairs that meet (exactly once).
    'S_1_1': 'ab', 'S_1_2': 'ab bc', 'S_1_2p': 'ab bc', 'S_2_1': 'ab bc cd ce af', 'S_3_1': 'ab bc cd de ef eg ch',
    'S_4_1': 'ab bc cd de ef fg gh gi ej', 'S_5_1': 'ab bc cd de ef fg gh hi ij ik gl',
}


def cases(tier, rng):
    out = []
    small = [(0, n) for n in range(3, 9)] + [(1, n) for n in range(1, 7)] + [(2, n) for n in range(1, 6)] + [(3, n) for n in range(1, 5)] + [(4, n) for n in range(1, 4)] + [(5, 1), (5, 2), (6, 1), (7, 2)]
    big = [(0, 12), (1, 11), (2, 9), (3, 7), (4, 5), (6, 3), (8, 1), (9, 2), (5, 6)]
    more = [(0, n) for n in range(9, 30, 3)] + [(g, n) for g in range(1, 10) for n in range(1, 14, 2)]
    for g, n in small + big + (more if tier == 'thorough' else []):
        out.append({'g': g, 'n': n, 's': rng.getrandbits(32)})
    for x in OLD: out.append({'old': x, 's': rng.getrandbits(32)})
    for n in [4, 5, 6, 7] + ([9, 12] if tier == 'thorough' else []): out.append({'old': f'SB_{n}', 's': rng.getrandbits(32)})
    out.append({'bad': 1, 's': 1})
    rng.shuffle(out)
    return out


def only(T, L):
    [(m, p)] = M.components(T, util.vec(L)).values()
    if m != 1: raise M.ModelError('multiplicity')
    return p


def run(case, ctx):
    rng = ctx.rng
    if 'bad' in case: return refused(ctx)
    S = curver.load(case['old']) if 'old' in case else curver.load(case['g'], case['n'])
    T = gen.from_curver(S.triangulation)
    info = dict(case=str(case), tri=T.triples)
    if 'old' in case:
        g, n = OLD[case['old']] if case['old'] in OLD else (0, int(case['old'][3:]))
    else:
        g, n = case['g'], case['n']
    ctx.nontrivial(str(case.get('old')), g, n)
    ctx.equal('surface', list(T.surface().values()), [(g, n, 2 - 2 * g - n)], **info)
    ctx.equal('surface', [tuple(s) for s in S.triangulation.surface().values()], [(g, n, 2 - 2 * g - n)], **info)
    ctx.equal('surface', (S.zeta, len(T.vertices)), (6 * g + 3 * n - 6, n), **info)
    curves = {k: only(T, c) for k, c in S.curves.items()}
    arcs = {k: only(T, a) for k, a in S.arcs.items()}
    ctx.check('curves are curves', all(p.closed and not M.is_peripheral(T, p) for p in curves.values()) and all(not p.closed and len(set(gen.arc_ends(T, p))) == 2 for p in arcs.values()), **info)
    ctx.check('curves are curves', all(type(c) is curver.kernel.Curve for c in S.curves.values()) and all(type(a) is curver.kernel.Arc for a in S.arcs.values()), **info)
    ctx.equal('names', sorted(S), sorted([x for k in list(curves) + list(arcs) for x in (k, k.swapcase())]), **info)
    for c in rng.sample(sorted(curves), min(4, len(curves))):
        R = M.Regions(T, util.vec(S.curves[c]))
        ctx.equal('curves do not separate', [(r['genus'], len(r['punctures'])) for r in R.regions], [(g - 1, n)], curve=c, **info)
    # The intersection pattern.
    both = {**curves, **arcs}
    pairs = list(itertools.combinations(sorted(both), 2))
    if len(pairs) > 60: pairs = rng.sample(pairs, 60)
    for x, y in pairs:
        if x in arcs and y in arcs: continue
        ctx.equal('intersections', M.intersection(T, both[x], both[y]), meets(case.get('old'), g, n, x, y), x=x, y=y, **info)
    if arcs and 'old' not in case:
        ends = {k: gen.arc_ends(T, p) for k, p in arcs.items()}
        order = [f's_{i}' for i in range(n)]
        ctx.equal('arcs', sorted(arcs), sorted(order), **info)
        ctx.check('arcs', all(set(ends[x]) & set(ends[y]) for x, y in zip(order, order[1:] + order[:1])) and len({v for e in ends.values() for v in e}) == n, ends=ends, **info)
        R = M.Regions(T, M.weights_of(T, [(1, p) for p in arcs.values()]))
        # On a surface with just two punctures the two arcs make a cycle too.
        ctx.equal('arcs', (sum(r['genus'] for r in R.regions), [len(r['punctures']) for r in R.regions], sum(len(r['circles']) for r in R.regions)), (max(0, g - 1), [0] * (2 if g == 0 else 1), 2), **info)
    if curves and 'old' not in case:
        chain = [k for k in curves if k[0] in 'acdp']
        R = M.Regions(T, M.weights_of(T, [(1, curves[k]) for k in chain]))
        name = {util.vec(S.curves[k]): k for k in chain}
        ctx.equal('distinct', len(name), len(chain), **info)
        got = sorted((r['genus'], len(r['punctures']), sorted(name[R.comps[c][2]] for _, c, s in r['circles'])) for r in R.regions)
        d = lambda i: f'd_{i}' if i else 'a_0'
        want = [(0, 0, sorted([f'a_{i}', f'a_{i+1}', f'c_{i}'])) for i in range(g - 1)] + [(0, 0, sorted([f'c_{i}', d(i), d(i + 1)])) for i in range(g - 1)]
        row = [f'a_{g-1}'] + [f'p_{i}' for i in range(1, n)] + [d(g - 1)]
        want += [(0, 1, sorted(x)) for x in zip(row, row[1:])]
        ctx.equal('regions', got, sorted(want), **info)
        R = M.Regions(T, M.weights_of(T, [(1, curves[f'b_{i}']) for i in range(g)]))
        ctx.equal('regions', [(r['genus'], len(r['punctures']), len(r['circles'])) for r in R.regions], [(0, n, 2 * g)], **info)
    act(ctx, rng, S, T, curves, arcs, info)
    if not ('old' in case and case['old'] == 'S_1_2p') and n > 1: permute(ctx, S, T, n, info)
    if g: homology(ctx, S, T, g, curves, info)
    relations(ctx, rng, S, g, n, case.get('old'), info)
    ctx.sample(info)


def meets(old, g, n, x, y):
    x, y = sorted((x, y))
    if old is not None:
        if 'x' in (x, y): return int((x, y) == ('c', 'x'))
        return int(x + y in MEET[old].split())
    (l, i), (m, j) = [(z[0], int(z[2:])) for z in (x, y)]
    if m == 's':
        if j: return int(l == 'p' and i == j)
        # s_0 joins the first annulus to the last, on the side away from the p_i.
        if g == 1: return int(l == 'a')
        return int((l, i) in [('a', g - 1), ('c', g - 2), ('d', g - 1)])
    if 'b' not in (l, m): return 0
    if l == 'b': (l, i), (m, j) = (m, j), (l, i)  # m, j is the b.
    if l == 'b': return 0
    if l in 'ad': return int(i == j)
    if l == 'c': return int(j in (i, i + 1))
    return int(j == g - 1)


def act(ctx, rng, S, T, curves, arcs, info):
    '''The generators are the positive twists and half-twists.'''
    names = sorted(curves) + sorted(arcs)
    for name in rng.sample(names, min(len(names), 6)):
        for _ in range(2):
            w = gen.weights(rng, T) if T.zeta < 20 else tuple(-1 if i == j else 0 for j in [rng.randrange(T.zeta)] for i in range(T.zeta))
            if sum(abs(x) for x in w) > 60: w = tuple(-1 if i == 0 else 0 for i in range(T.zeta))
            for letter, power in ((name, 1), (name.swapcase(), -1)):
                if name in curves:
                    ps = [(m, M.twist_path(T, curves[name], power, p)) for m, p in M.components(T, w).values()]
                else:
                    v = util.vec(S.arcs[name])
                    if min(v) >= 0: continue
                    ps = [(m, M.halftwist_path(T, v.index(-1), power, p)) for m, p in M.components(T, w).values()]
                L = S.triangulation(list(w))
                want = M.weights_of(T, ps)
                ctx.equal('generators act', (util.vec(S[letter](L)), util.vec(S(letter)(L))), (want, want), letter=letter, lamination=w, **info)
                ctx.nontrivial(T.triples, letter, w)


def permute(ctx, S, T, n, info):
    '''Each half-twist swaps the two ends of its arc, so connectivity gives the full symmetric group.'''
    perms = []
    for k, a in S.arcs.items():
        p = tuple(S[k].vertex_permutation())
        x, y = gen.arc_ends(T, only(T, a))
        vs = list(S.triangulation.vertices)
        order = sorted(S.triangulation.vertices)
        pos = [order.index(next(v for v in vs if {e.label for e in v} == set(T.vertices[i]))) for i in (x, y)]
        want = list(range(n))
        want[pos[0]], want[pos[1]] = pos[1], pos[0]
        ctx.equal('half-twists swap', p, tuple(want), arc=k, **info)
        perms.append(pos)
    reach, grew = {0}, True
    while grew:
        grew = False
        for x, y in perms:
            if (x in reach) != (y in reach):
                reach |= {x, y}
                grew = True
    ctx.equal('punctures are permuted by the full symmetric group', len(reach), n, **info)


def homology(ctx, S, T, g, curves, info):
    '''Modulo two and the punctures, the transvections about the curves are transitive on non-zero classes.'''
    names = sorted(curves)
    form = [[M.intersection(T, curves[x], curves[y]) % 2 if x != y else 0 for y in names] for x in names] if len(names) <= 14 else None
    if form is None: return
    # A class is recorded by its pairing with every generator: as the pairing is non-degenerate this is faithful.
    vecs = [tuple(r) for r in form]
    span = {tuple([0] * len(names))}
    for v in vecs: span |= {tuple((a + b) % 2 for a, b in zip(u, v)) for u in span}
    ctx.equal('homology mod 2 is moved transitively', len(span), 4 ** g, **info)
    orbit, todo = {vecs[0]}, [vecs[0]]
    while todo:
        u = todo.pop()
        for i, v in enumerate(vecs):
            if u[i]:
                x = tuple((a + b) % 2 for a, b in zip(u, v))
                if x not in orbit:
                    orbit.add(x)
                    todo.append(x)
    ctx.equal('homology mod 2 is moved transitively', len(orbit), 4 ** g - 1, **info)


def relations(ctx, rng, S, g, n, old, info):
    if old in ('S_0_4',): words = [('(a.b.c)^4', ''), ('a.b.a', 'b.a.b'), ('a.c', 'c.a')]
    elif old == 'S_1_1': words = [('(a.b)^6', ''), ('a.b.a', 'b.a.b')]
    elif old == 'S_1_2': words = [('(a.b.c)^4', ''), ('x.a', 'a.x'), ('x.x', '(a.b)^6')]
    elif old == 'S_1_2p': words = [('(a.b.c)^4', '')]
    elif old == 'S_2_1': words = [('a.b.a', 'b.a.b'), ('a.c', 'c.a'), ('(f.a.b)^4', 'd.e')]
    elif old is not None and not old.startswith('SB'): words = [('a.b.a', 'b.a.b'), ('a.c', 'c.a'), ('b.c.b', 'c.b.c')]
    elif g == 0:
        s = [f's_{i}' for i in range(n - 1)]
        words = [('(' + '.'.join(s) + f')^{n}', ''), ('.'.join(s + s[::-1]), '')] if n > 3 else [('.'.join(s + s[::-1]), '')]
        if n >= 4: words += [('s_0.s_1.s_0', 's_1.s_0.s_1'), ('s_0.s_2', 's_2.s_0')]
    elif g == 1 and n == 1: words = [('(a_0.b_0)^6', ''), ('a_0.b_0.a_0', 'b_0.a_0.b_0'), ('(a_0.b_0.a_0)^4', '')]
    elif g == 1 and n == 2: words = [('(a_0.b_0.p_1)^4', ''), ('s_1^2', '(a_0.b_0)^6'), ('s_0^2', '(p_1.b_0)^6')]
    elif g == 1: words = [('a_0.b_0.a_0', 'b_0.a_0.b_0'), ('a_0.p_1', 'p_1.a_0')] + ([('(a_0.p_1.p_2.b_0)^3', '')] if n == 3 else [])
    else:
        # A chain of three curves: the boundary is two curves of the picture.
        words = [('a_0.b_0.a_0', 'b_0.a_0.b_0'), ('a_0.a_1', 'a_1.a_0'), ('(a_0.b_0.c_0)^4', 'a_1.d_1'), ('b_0.c_0.b_0', 'c_0.b_0.c_0')]
        if g > 2 or n > 1: words += [('d_1.b_1.d_1', 'b_1.d_1.b_1')]
    for x, y in words:
        a, b = S(x), S(y)
        ctx.check('relations', a == b and not a != b, left=x, right=y, **info)
    if n == 1 and g == 1: ctx.check('relations', S('(a.b)^3' if old else '(a_0.b_0)^3').order() == 2, **info)


def refused(ctx):
    for args in [(0, 0), (0, 2), (0, 1), (1, 0), (2, 0), (-1, 5), (3, -1), (5, 0), ('S_9_9',), ('',), ('SB_',), ('nonsense',), (1, 2, 3), ()]:
        try:
            curver.load(*args)
            ok = False
        except (ValueError, TypeError, AssertionError):
            ok = True
        ctx.check('unknown surfaces are refused', ok, args=args)
