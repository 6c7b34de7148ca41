'''Shortening.'''
import random
import curver
from vlib import model as M, gen, util

ID = 'P02'
RULE = ('Each case draws a surface and laminations on it - small random ones, images of them under long words of twists (weights of up to hundreds of digits), with peripheral components and arcs of any multiplicity - and shortens them for several values of drop. '
        'The model re-applies every flip and relabelling of the returned mapping to the original weights (and re-draws every twist while the weights are small), and decides shortness from the strands. Non-trivial: the returned mapping has at least one move; distinct by (triangulation, weights, drop).')
MINIMUM = {'short by the strands': 100, 'mapping carries it': 100, 'number of moves is polynomial': 100, 'huge: components carried': 20}
ASSUMPTIONS = ['the number of moves allowed, 40 * (zeta + 5)^2 * (bits + 5), is a generous polynomial: the worst seen is more than 20 times smaller']


def cases(tier, rng):
    n = 220 if tier == 'quick' else 5000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 3, 3, 4, 5, 6]), 'huge': i % 3 == 0} for i in range(n)]


def loop_curves(T):
    '''{weights of the curve running parallel to the right of l : l} for loops l.'''
    out = {}
    for l in T.labels:
        if T.vid[l] == T.vid[~l]:
            c = T.vertices[T.vid[l]]
            c = c[c.index(l):] + c[:c.index(l)]
            fan = c[1:c.index(~l)]
            v = [0] * T.zeta
            for x in fan: v[M.norm(x)] += 1
            out[tuple(v)] = l
            # The first crossing of ~l itself is not counted: the fan runs strictly between l and ~l.
    return out


def is_short_component(T, v):
    [(_, p)] = M.components(T, v).values()
    if p.closed: return M.is_peripheral(T, p) or v in loop_curves(T)
    return not p.word


def decide_short(ctx, T, comps, info):
    '''Decide that each of these components {weights: multiplicity} is peripheral or parallel to an edge of T.'''
    for v in comps: ctx.check('short by the strands', is_short_component(T, v), component=v, on=T.triples, **info)


def run(case, ctx):
    rng = ctx.rng
    T = gen.surface(rng, case['size'])
    CT = gen.to_curver(T)
    for _ in range(2):
        w = gen.weights(rng, T, big=rng.choice([3, 5, 9]))
        comps = M.components(T, w)
        if rng.random() < 0.3: comps = {v: (rng.choice([1, 2, 7, 10 ** 12]), p) for v, (m, p) in comps.items()}
        for drop in rng.sample([0.1, 0.0, 0.1, 0.5, 1.0, 0.01, 0.25], 2):
            decide(ctx, T, CT, comps, drop)
    if case['huge'] and gen.has_essential_curve(T):
        W = gen.Word(rng, T, CT, rng.randint(1, 4), max_power=rng.choice([1, 3, 10, 10 ** 3, 10 ** 15]))
        w = gen.weights(rng, T)
        L = W.h(CT(list(w)))
        decide_huge(ctx, T, CT, w, W, L, rng.choice([0.1, 0.1, 0.3, 0.02]))


def decide(ctx, T, CT, comps, drop):
    w = M.weights_of(T, comps.values())
    info = dict(tri=T.triples, weights=w, drop=drop)
    L = curver.kernel.IntegralLamination(CT, list(w))
    ctx.equal('is_short decides shortness', L.is_short(), all(is_short_component(T, v) for v in comps), **info)
    P = CT(list(w))
    ctx.equal('is_short decides shortness', P.is_short(), all(is_short_component(T, v) for v in comps), promoted=type(P).__name__, **info)
    s, h = L.shorten(drop=drop) if drop != 0.1 else L.shorten()
    ctx.check('mapping starts there', util.same_tri(h.source_triangulation, T), **info)
    images = {}
    T2 = util.tri(h.source_triangulation)
    for v, (m, p) in comps.items():
        T2, v2 = util.apply_moves(T, v, h)
        images[tuple(v2)] = (m, p)
    ctx.check('mapping ends where the short lamination lives', util.same_tri(s.triangulation, T2) and util.same_tri(h.target_triangulation, T2), **info)
    ctx.equal('mapping carries it', util.vec(s), tuple(sum(m * v[i] for v, (m, _) in images.items()) for i in range(T.zeta)), **info)
    decide_short(ctx, T2, images, info)
    ctx.equal('short has the right class', type(s).__name__, util.class_name(images), **info)
    ctx.check('short agrees', s.is_short(), **info)
    if drop == 0.0: ctx.check('no acceleration when drop is 0', not any(isinstance(m, (curver.kernel.Twist, curver.kernel.HalfTwist)) for m in h), **info)
    if drop > 0: bound(ctx, T, w, h, info)
    if len(h) > 1: ctx.nontrivial(T.triples, tuple(w), drop)


def bound(ctx, T, w, h, info):
    bits = sum(max(x, 0) for x in w).bit_length()
    ctx.check('number of moves is polynomial', len(h) <= 40 * (T.zeta + 5) ** 2 * (bits + 5), moves=len(h), bits=bits, **info)


def decide_huge(ctx, T, CT, w, W, L, drop):
    info = dict(tri=T.triples, weights=w, word=W.desc, drop=drop)
    K = curver.kernel.IntegralLamination(CT, list(L.geometric))
    s, h = K.shorten(drop=drop)
    T2 = util.tri(s.triangulation)
    ctx.check('huge: mapping carries it', h(K) == s and h.inverse()(s) == K, **info)
    # Each component of w pushed by the word and then by h must be a short component of s, of the same kind.
    images = {}
    for v, (m, p) in M.components(T, w).items():
        image = util.vec(h(W.h(CT(list(v)))))
        images[image] = (m, p)
        [(m2, q)] = M.components(T2, image).values()
        ctx.equal('huge: each component is carried', (m2, q.closed, q.closed and M.is_peripheral(T2, q)), (1, p.closed, p.closed and M.is_peripheral(T, p)), component=v, **info)
    decide_short(ctx, T2, images, info)
    ctx.equal('huge: components carried', util.vec(s), tuple(sum(m * v[i] for v, (m, _) in images.items()) for i in range(T.zeta)), **info)
    ctx.equal('huge: class', type(s).__name__, util.class_name(images), **info)
    bound(ctx, T, util.vec(L), h, info)
    ctx.nontrivial(T.triples, util.vec(L), drop)
    ctx.sample({'triangles': T.triples, 'bits': sum(max(x, 0) for x in L.geometric).bit_length(), 'moves': len(h)})
