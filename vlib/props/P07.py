'''Half-twists.'''
import curver
from vlib import model as M, gen, util

ID = 'P07'
RULE = ('Each case takes an arc with distinct ends (an edge, or one pulled back through up to eight flips) or a multiarc with all ends distinct, and half-twists laminations about it by powers of either sign; the model re-draws every strand after flipping the arc to an edge. '
        'Large even powers are compared with twists about the boundary, already decided by extrapolation. Non-trivial: the arc is not disjoint from the lamination.')
MINIMUM = {'as drawn': 100, 'square is the twist about the boundary': 40, 'permutes the two ends': 40, 'refuses equal ends': 10, 'multiarc as drawn': 10, 'large power': 40}


def cases(tier, rng):
    n = 120 if tier == 'quick' else 4000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 3, 4, 5, 6])} for i in range(n)]


def walk(rng, T, n):
    out = []
    for _ in range(n):
        es = [l for l in T.labels if T.is_flippable(l)]
        if not es: break
        e = rng.choice(es)
        out.append((T, e))
        T = M.flip_tri(T, e)
    return T, out


def forward(path, p):
    for T, e in path: p = M.flip_path(T, M.flip_tri(T, e), e, p)
    return p


def backward(path, p):
    for T, e in reversed(path):
        U = M.flip_tri(T, e)
        m = None
        for _ in range(3):
            V = M.flip_tri(U, e)
            p = M.flip_path(U, V, e, p)
            U = V
        # Four flips of the same label rotate the diagonal by a full turn.
        assert U.key() == T.key()
    return p


def run(case, ctx):
    rng = ctx.rng
    for _ in range(20):
        T = gen.surface(rng, case['size'])
        if any(T.vid[l] != T.vid[~l] for l in T.labels): break
    CT = gen.to_curver(T)
    loops = [l for l in T.labels if T.vid[l] == T.vid[~l]]
    for l in rng.sample(loops, min(2, len(loops))):
        ctx.check('refuses equal ends', refuses(lambda: CT.edge_arc(l).encode_halftwist()), tri=T.triples, edge=l)
        ctx.equal('has_distinct_endpoints', CT.edge_arc(l).has_distinct_endpoints(), False, tri=T.triples, edge=l)
    U, path = walk(rng, T, rng.choice([0, 0, 1, 2, 4, 8]))
    edges = [l for l in range(U.zeta) if U.vid[l] != U.vid[~l]]
    if not edges:
        ctx.skip('one vertex only')
        return
    l = rng.choice(edges)
    alpha = backward(path, M.edge_path(U, l))
    v = M.weights(T, alpha)
    A = CT(list(v))
    ctx.equal('the arc is an Arc', type(A).__name__, 'Arc', tri=T.triples, arc=v)
    ctx.equal('has_distinct_endpoints', A.has_distinct_endpoints(), True, tri=T.triples, arc=v)
    lams = [M.components(T, gen.weights(rng, T)) for _ in range(3)]
    e = rng.randrange(T.zeta)
    lams.append({M.weights(T, M.edge_path(T, e)): (1, M.edge_path(T, e))})
    lams.append({v: (1, alpha)})
    bound = A.boundary()
    made = {}

    def ht(power):
        if power not in made: made[power] = A.encode_halftwist(power) if power != 1 or rng.random() < 0.5 else A.encode_halftwist()
        return made[power]
    small, n, k = rng.choice([2, 3, -2, -3, 4, 5, -5]), rng.choice([1, -1, 2, 7, 10 ** 9, -10 ** 20]), rng.choice([10 ** 6 + 1, 2 ** 70 + 1, -2 ** 70 - 1, 10 ** 6, 51, -77])
    ht_bound = bound.encode_twist(n)
    for comps in lams:
        a = M.weights_of(T, comps.values())
        L = CT(list(a))
        for power in (rng.choice([1, -1]), small):
            want = M.weights_of(T, [(m, backward(path, M.halftwist_path(U, l, power, forward(path, p)))) for m, p in comps.values()])
            h = ht(power)
            info = dict(tri=T.triples, arc=v, lamination=a, power=power)
            got = h(L)
            ctx.equal('as drawn', util.vec(got), want, **info)
            ctx.equal('class is kept', type(got).__name__, type(L).__name__, **info)
            ctx.equal('inverse', util.vec(h.inverse()(got)), a, **info)
            ctx.equal('opposite power', util.vec(ht(-power)(got)), a, **info)
            ctx.check('is a mapping class', isinstance(h, curver.kernel.MappingClass) and util.same_tri(h.source_triangulation, T) and util.same_tri(h.target_triangulation, T), **info)
            if M.intersection_number(T, [(1, alpha)], list(comps.values())): ctx.nontrivial(T.triples, v, a, power)
        info = dict(tri=T.triples, arc=v, lamination=a)
        ctx.equal('square is the twist about the boundary', util.vec(ht(2 * n)(L)), util.vec(ht_bound(L)), n=n, **info)
        ctx.equal('large power', util.vec(ht(k)(L)), util.vec(ht(1)(ht(k - 1)(L))), power=k, **info)
        ctx.equal('power 0', util.vec(ht(0)(L)), a, **info)
    swap(ctx, rng, T, CT, A, alpha, v, ht, small)
    multi(ctx, rng, T, CT, U, path, lams)
    ctx.sample({'triangles': T.triples, 'arc': v})


def refuses(f):
    try:
        f()
    except ValueError:
        return True
    return False


def ends(T, path):
    return {T.vid[path.start], T.vid[path.end]}


def swap(ctx, rng, T, CT, A, alpha, v, ht, small):
    '''Odd powers swap the punctures at the ends of the arc and fix the others; even powers fix all of them.'''
    x, y = sorted(ends(T, alpha))
    ctx.equal('vertices', set(tuple(sorted(e.label for e in u)) for u in A.vertices()), {tuple(sorted(T.vertices[x])), tuple(sorted(T.vertices[y]))}, tri=T.triples, arc=v)
    for power in (1, small):
        vm = {T.vid[a[0].label]: T.vid[b[0].label] for a, b in ht(power).vertex_map().items()}
        want = {i: i for i in range(len(T.vertices))}
        if power % 2: want[x], want[y] = y, x
        ctx.equal('permutes the two ends', vm, want, tri=T.triples, arc=v, power=power)


def multi(ctx, rng, T, CT, U, path, lams):
    edges = [l for l in range(U.zeta) if U.vid[l] != U.vid[~l]]
    rng.shuffle(edges)
    chosen, used = [], set()
    for l in edges:
        s = {U.vid[l], U.vid[~l]}
        if not s & used:
            chosen.append(l)
            used |= s
    if len(chosen) < 2: return
    chosen = chosen[:rng.randint(2, 3)]
    w = M.weights_of(T, [(1, backward(path, M.edge_path(U, l))) for l in chosen])
    A = CT(list(w))
    info = dict(tri=T.triples, multiarc=w)
    ctx.equal('has_distinct_endpoints', A.has_distinct_endpoints(), True, **info)
    power = rng.choice([1, -1, 2, 3])
    h = A.encode_halftwist(power)
    for comps in lams[:3]:
        out = []
        for m, p in comps.values():
            p = forward(path, p)
            for l in chosen: p = M.halftwist_path(U, l, power, p)
            out.append((m, backward(path, p)))
        a = M.weights_of(T, comps.values())
        ctx.equal('multiarc as drawn', util.vec(h(CT(list(a)))), M.weights_of(T, out), lamination=a, power=power, **info)
    # Parallel copies or shared ends are refused.
    ctx.check('refuses equal ends', refuses(lambda: (2 * A).encode_halftwist()), **info)
    shared = [l for l in edges if l not in chosen and {U.vid[l], U.vid[~l]} & {x for c in chosen for x in (U.vid[c], U.vid[~c])}]
    if shared:
        w2 = M.weights_of(T, [(1, backward(path, M.edge_path(U, l))) for l in chosen + shared[:1]])
        ctx.check('refuses equal ends', refuses(lambda: CT(list(w2)).encode_halftwist()), multiarc2=w2, **info)
