'''Flips, multiflips, relabellings and isometries.'''
from fractions import Fraction
import curver
from vlib import model as M, gen, util

ID = 'P03'
RULE = ('Each case walks through the flip graph of a random surface by encode_flip (either label of the edge), encode_multiflip, encode_relabel_edges and encode([...]) and pushes integral laminations (with arcs parallel to flipped edges), enormous and rational ones along; '
        'the model redraws every strand and rebuilds every triangulation. Non-trivial: a move changing at least one weight; distinct by (triangulation, move, weights).')
MINIMUM = {'flip: weights': 200, 'flip: triangulation': 100, 'multiflip: weights': 50, 'relabel: weights': 50, 'walk: weights': 50, 'rational weights': 20, 'non-flippable edges are refused': 20}


def cases(tier, rng):
    n = 300 if tier == 'quick' else 8000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])} for i in range(n)]


def laminations(rng, T):
    '''Component lists {weights: (multiplicity, Path)}.'''
    out = []
    for _ in range(3):
        comps = M.components(T, gen.weights(rng, T, big=rng.choice([4, 7])))
        if rng.random() < 0.25: comps = {v: (rng.choice([1, 3, 10 ** 30 + 1]), p) for v, (m, p) in comps.items()}
        out.append(comps)
    return out


def refused(f):
    try:
        f()
    except (AssertionError, ValueError, TypeError, KeyError):
        return True
    return False


def run(case, ctx):
    rng = ctx.rng
    T = gen.surface(rng, case['size'])
    CT = gen.to_curver(T)
    lams = laminations(rng, T)
    for comps in lams:
        w = M.weights_of(T, comps.values())
        L = CT(list(w)) if sum(map(abs, w)) < 10 ** 4 else curver.kernel.IntegralLamination(CT, list(w))
        single(ctx, rng, T, CT, comps, w, L)
        multi(ctx, rng, T, CT, comps, w, L)
        relabel(ctx, rng, T, CT, comps, w, L)
        walk(ctx, rng, T, CT, comps, w, L)
    # Laminations with rational and large weights: the formulae are homogeneous.
    k = rng.choice([2, 3, 7, 10 ** 20])
    for comps in lams:
        w = M.weights_of(T, comps.values())
        x = [Fraction(a, k) for a in w]
        L = curver.kernel.Lamination(CT, x)
        es = [l for l in T.labels if T.is_flippable(l)]
        if es:
            e = rng.choice(es)
            got = util.vec(CT.encode_flip(e)(L))
            ctx.equal('rational weights', tuple(got), tuple(Fraction(a, k) for a in M.flip_weights(T, e, w)), tri=T.triples, weights=x, edge=e)
    for l in T.labels:
        ctx.equal('is_flippable', CT.is_flippable(l), T.is_flippable(l), tri=T.triples, edge=l)
        if not T.is_flippable(l): ctx.check('non-flippable edges are refused', refused(lambda: CT.encode_flip(l)), tri=T.triples, edge=l)
        else:
            got = tuple(x.label for x in CT.square(l))
            ctx.equal('square', got, (T.nxt[l], T.prv[l], T.nxt[~l], T.prv[~l], l), tri=T.triples, edge=l)


def image(T, comps, f):
    return {tuple(f(v)): mp for v, mp in comps.items()}


def single(ctx, rng, T, CT, comps, w, L):
    es = [l for l in T.labels if T.is_flippable(l)]
    for e in rng.sample(es, min(3, len(es))):
        info = dict(tri=T.triples, weights=w, edge=e)
        h = CT.encode_flip(curver.kernel.Edge(e) if rng.random() < 0.3 else e)
        T2 = M.flip_tri(T, e)
        ctx.check('flip: triangulation', util.same_tri(h.target_triangulation, T2) and util.same_tri(h.source_triangulation, T), **info)
        got = h(L)
        paths = [(m, M.flip_path(T, T2, e, p)) for m, p in comps.values()]
        want = M.weights_of(T2, paths)  # Strand by strand.
        ctx.equal('flip: weights', util.vec(got), want, **info)
        ctx.equal('flip: class is kept', type(got).__name__, type(L).__name__, **info)
        ctx.check('flip: image lives on the target', util.same_tri(got.triangulation, T2), **info)
        back = h.inverse()
        ctx.check('flip: inverse', util.vec(back(got)) == tuple(w) and util.same_tri(back.target_triangulation, T) and util.same_tri(back.source_triangulation, T2), **info)
        ctx.equal('flip: ~h', util.vec((~h)(got)), tuple(w), **info)
        if want != tuple(w): ctx.nontrivial(T.triples, e, w)


def multi(ctx, rng, T, CT, comps, w, L):
    es = [l for l in T.labels if T.is_flippable(l)]
    rng.shuffle(es)
    chosen, used = [], set()
    for e in es:
        s = {T.tri_of[e], T.tri_of[~e]}
        if not (s & used):
            chosen.append(e)
            used |= s
    chosen = chosen[:rng.randint(1, 4)]
    if not chosen: return
    info = dict(tri=T.triples, weights=w, edges=chosen)
    h = CT.encode_multiflip(chosen) if rng.random() < 0.5 else CT.encode([set(chosen)])
    T2, want = T, tuple(w)
    for e in chosen: T2, want = M.flip_tri(T2, e), M.flip_weights(T2, e, want)
    ctx.check('multiflip: triangulation', util.same_tri(h.target_triangulation, T2), **info)
    got = h(L)
    ctx.equal('multiflip: weights', util.vec(got), tuple(want), **info)
    ctx.equal('multiflip: inverse', util.vec(h.inverse()(got)), tuple(w), **info)
    ctx.nontrivial(T.triples, tuple(chosen), w)
    # Overlapping squares are refused.
    for e in es:
        if len({T.tri_of[x] for f in chosen + [e] for x in (f, ~f)}) < 2 * len(set(map(M.norm, chosen + [e]))):
            ctx.check('overlapping multiflips are refused', refused(lambda: CT.encode_multiflip(chosen + [e])), extra=e, **info)
            break


def relabel(ctx, rng, T, CT, comps, w, L):
    m = gen.relabelling(rng, T.zeta)
    given = rng.choice(['full', 'half', 'list'])
    if given == 'full': arg = dict(m)
    elif given == 'half': arg = {k: m[k] for i in range(T.zeta) for k in [rng.choice([i, ~i])]}
    else: arg = [m[i] for i in range(T.zeta)]
    info = dict(tri=T.triples, weights=w, map=m)
    h = CT.encode_relabel_edges(arg) if given != 'half' or rng.random() < 0.5 else CT.encode([arg])
    T2 = M.relabel_tri(T, m)
    ctx.check('relabel: triangulation', util.same_tri(h.target_triangulation, T2), **info)
    got = h(L)
    ctx.equal('relabel: weights', util.vec(got), M.relabel_weights(T, m, w), **info)
    ctx.equal('relabel: inverse', util.vec(h.inverse()(got)), tuple(w), **info)
    ctx.check('relabel: inverse triangulation', util.same_tri(h.inverse().target_triangulation, T), **info)


def walk(ctx, rng, T, CT, comps, w, L):
    '''A sequence given to encode at once; it is applied from right to left.'''
    seq, T2, want = [], T, tuple(w)
    for _ in range(rng.randint(1, 10)):
        es = [l for l in T2.labels if T2.is_flippable(l)]
        x = rng.random()
        if es and x < 0.7:
            e = rng.choice(es)
            seq.insert(0, e)
            T2, want = M.flip_tri(T2, e), M.flip_weights(T2, e, want)
        elif x < 0.9:
            m = gen.relabelling(rng, T.zeta)
            seq.insert(0, {k: m[k] for i in range(T.zeta) for k in [rng.choice([i, ~i])]})
            T2, want = M.relabel_tri(T2, m), M.relabel_weights(T2, m, want)
        else:
            seq.insert(0, None)
    info = dict(tri=T.triples, weights=w, sequence=seq)
    h = CT.encode(seq)
    ctx.check('walk: triangulation', util.same_tri(h.target_triangulation, T2), **info)
    got = h(L)
    ctx.equal('walk: weights', util.vec(got), tuple(want), **info)
    ctx.equal('walk: inverse', util.vec(h.inverse()(got)), tuple(w), **info)
    cut = rng.randint(0, len(h))
    ctx.equal('walk: composition', util.vec(h[:cut](h[cut:](L))), tuple(want), cut=cut, **info)
    ctx.sample({'triangles': T.triples, 'sequence': seq})
