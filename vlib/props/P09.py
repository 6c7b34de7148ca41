'''Re-expressing a mapping does not change it.'''
import curver
from vlib import model as M, gen, util

ID = 'P09'
RULE = ('Each case builds a random mapping from flips (either label), multiflips, relabellings, twists, half-twists and isometries by encode, and re-expresses it: simplify, flip_mapping, combine_isometries, every slice, iteration move by move, inverse twice, promote and encode of its package. Each must carry laminations (with arcs, parallel and peripheral components) and homology classes like the original, between the same triangulations, and be of the promised form. '
        'Non-trivial: at least two moves of different kinds; distinct by (triangulation, sequence).')
MINIMUM = {'simplify': 100, 'flip_mapping': 100, 'combine_isometries': 100, 'slices': 100, 'move by move': 100, 'package': 100, 'as moved by the model': 60, 'flip_mapping only flips': 60, 'combine_isometries has one isometry': 60}


def cases(tier, rng):
    n = 110 if tier == 'quick' else 3000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 3, 4]), 'closed': i % 3 == 0} for i in range(n)]


def run(case, ctx):
    rng = ctx.rng
    k = curver.kernel
    T = gen.surface(rng, case['size'])
    CT = gen.to_curver(T)
    seq, U = gen.sequence(rng, T, rng.randint(1, 9))
    h = CT.encode(seq)
    if case['closed']:  # Come back, so that it is a mapping class.
        h = h.inverse() * gen.Word(rng, U, h.target_triangulation, 1, 2).h * h * gen.Word(rng, T, CT, 1, 2).h
        seq, U = [('conjugate',)] + list(seq), T
    info = dict(tri=T.triples, sequence=seq)
    lams = gen.lams(rng, T, 3)
    Ls = [CT(list(w)) for w in lams]
    images = [util.vec(h(L)) for L in Ls]
    classes = [type(h(L)).__name__ for L in Ls]
    hs = [CT.edge_homology(e) for e in range(T.zeta)]
    himages = [tuple(U.hreduce(h(x).algebraic)) for x in hs]
    kinds = {type(m).__name__ for m in h}
    if len(kinds) > 1: ctx.nontrivial(T.triples, str(seq))

    def same(kind, g):
        ctx.check(kind + ' triangulations', util.same_tri(g.source_triangulation, T) and util.same_tri(g.target_triangulation, U), **info)
        for L, w, i, c in zip(Ls, lams, images, classes):
            got = g(L)
            ctx.equal(kind, (util.vec(got), type(got).__name__), (i, c), lamination=w, **info)
        ctx.equal(kind + ' in homology', [tuple(U.hreduce(g(x).algebraic)) for x in hs], himages, **info)
        ctx.check(kind + ' is equal', g == h and h == g, **info)

    if not case['closed']:
        for w, i in zip(lams, images):
            try:
                if len(seq) > 5: continue
                _, v = util.apply_moves(T, w, h)
            except M.ModelError:
                continue
            ctx.equal('as moved by the model', i, tuple(v), lamination=w, **info)
        for x in h: ctx.observe('move ' + type(x).__name__)
    ctx.equal('type of the encoding', type(h).__name__, 'MappingClass' if U.key() == T.key() else 'Mapping', **info)
    same('simplify', h.simplify())
    f = h.flip_mapping()
    same('flip_mapping', f)
    ctx.check('flip_mapping only flips', all(isinstance(m, (k.EdgeFlip, k.Isometry)) for m in f), **info)
    c = h.combine_isometries()
    same('combine_isometries', c)
    ctx.check('combine_isometries has one isometry', sum(isinstance(m, k.Isometry) for m in c) <= 1 and not any(isinstance(m, k.Isometry) for m in list(c)[1:]), **info)
    same('inverse of inverse', h.inverse().inverse())
    same('promote', h.promote())
    same('package', CT.encode(h.package()))
    same('package', CT.encode(list(h)))  # Moves may also be given.
    n = len(h)
    ctx.equal('length', (n, len(list(h))), (len(h.sequence), len(h.package())), **info)
    for _ in range(4):
        i = rng.randint(0, n)
        j = rng.randint(i, n)
        x, y = (i - n if i < n and rng.random() < 0.3 else i), (j - n if j < n and rng.random() < 0.3 else j)
        a, b, d = h[:x], h[x:y], h[y:]
        for L, w, im in zip(Ls, lams, images): ctx.equal('slices', util.vec(a(b(d(L)))), im, slices=(i, j, x, y), lamination=w, **info)
        whole = a * b * d
        ctx.check('slices', whole == h and util.same_tri(whole.target_triangulation, U), slices=(i, j), **info)
    for L, w, im in zip(Ls, lams, images):
        x = L
        for m in reversed(list(h)): x = m(x)
        ctx.equal('move by move', util.vec(x), im, lamination=w, **info)
        for m in h: x = m.inverse()(x)
        ctx.equal('move by move', util.vec(x), w, lamination=w, **info)
        x = h(L)
        for m in h: x = (~m)(x)
        ctx.equal('move by move', util.vec(x), w, lamination=w, **info)
        x = L
        for m in reversed(list(h)): x = m.encode()(x)
        ctx.equal('move by move', util.vec(x), im, lamination=w, **info)
        x = L
        for m in reversed(list(h)): x = m.flip_mapping()(x)
        ctx.equal('move by move', util.vec(x), im, lamination=w, **info)
    ctx.sample(info)
