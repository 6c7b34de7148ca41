'''Action on homology relative to the punctures.'''
import numpy as np
import curver
from vlib import model as M, gen, util

ID = 'P04'
RULE = ('Each case takes a random surface and a mapping (flip walk with relabellings, or a word of twists and half-twists): every oriented edge is pushed forward both by curver, as a homology class, and by the model, as a path whose class is read off in the target. '
        'Equality, sums, canonical forms, bases and matrices are compared with rational linear algebra on edges modulo triangles. Non-trivial: a mapping moving at least one edge class.')
MINIMUM = {'flip walk: image of an oriented edge': 100, 'twist word: image of an oriented edge': 100, 'homology matrix': 50, 'equality of classes': 100, 'torelli': 20}


def cases(tier, rng):
    n = 260 if tier == 'quick' else 6000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 1, 2, 2, 3, 3, 4, 5]), 'kind': ['walk', 'word', 'classes'][i % 3]} for i in range(n)]


def same_class(T, u, v):
    return T.hreduce(u) == T.hreduce(v)


def edge_vec(T, l):
    return tuple((1 if l >= 0 else -1) if i == M.norm(l) else 0 for i in range(T.zeta))


def run(case, ctx):
    rng = ctx.rng
    T = gen.surface(rng, case['size'])
    CT = gen.to_curver(T)
    classes(ctx, rng, T, CT)
    if case['kind'] == 'walk': walk(ctx, rng, T, CT)
    if case['kind'] == 'word': word(ctx, rng, T, CT)


def classes(ctx, rng, T, CT):
    H = curver.kernel.HomologyClass
    basis = CT.homology_basis()
    vecs = [tuple(b.algebraic) for b in basis]
    info = dict(tri=T.triples)
    ctx.equal('basis has the right size', len(basis), T.homology_rank(), **info)
    red = [T.hreduce(v) for v in vecs]
    if red: ctx.check('basis is independent', np.linalg.matrix_rank(np.array([[float(x) for x in v] for v in red])) == len(red), **info)
    for _ in range(4):
        big = rng.choice([2, 5, 10 ** 25])
        u = [rng.randint(-big, big) for _ in range(T.zeta)]
        v = list(u)
        for t in T.triples:  # Add boundaries of triangles.
            k = rng.randint(-2, 2)
            for l in t: v[M.norm(l)] += k if l >= 0 else -k
        if rng.random() < 0.5: v[rng.randrange(T.zeta)] += rng.choice([-1, 1])
        a, b = H(CT, list(u)), H(CT, v)
        same = same_class(T, u, v)
        ctx.equal('equality of classes', a == b, same, u=u, v=v, **info)
        if same: ctx.equal('equal classes have equal hashes', hash(a), hash(b), u=u, v=v, **info)
        c = a.canonical()
        ctx.check('canonical is homologous', same_class(T, c.algebraic, u) and c.is_canonical() and c == a, u=u, **info)
        if same: ctx.equal('canonical is unique', list(b.canonical().algebraic), list(c.algebraic), u=u, v=v, **info)
        s, d, n = a + b, a - b, -a
        ctx.check('sums', list(s.algebraic) == [x + y for x, y in zip(u, v)] and list(d.algebraic) == [x - y for x, y in zip(u, v)] and list(n.algebraic) == [-x for x in u], u=u, v=v, **info)
        ctx.equal('difference vanishes iff equal', (a - b) == H(CT, [0] * T.zeta), same, u=u, v=v, **info)
    l = rng.choice(T.labels)
    ctx.equal('edge class', tuple(CT.edge_homology(l).algebraic), edge_vec(T, l), label=l, **info)


def decide_matrix(ctx, T, T2, h, kind, info):
    '''The matrix of h in the bases, against the images of the basis.'''
    A = h.homology_matrix()
    B1, B2 = h.source_triangulation.homology_basis(), h.target_triangulation.homology_basis()
    ok = A.shape == (len(B2), len(B1))
    if ok:
        for j, b in enumerate(B1):
            want = h(b).algebraic
            got = [sum(int(A[i][j]) * B2[i].algebraic[k] for i in range(len(B2))) for k in range(T.zeta)]
            ok = ok and same_class(T2, got, want)
    ctx.check('homology matrix', ok, kind=kind, **info)
    return A


def walk(ctx, rng, T, CT):
    maps = []
    T2 = T
    h = CT.id_encoding()
    paths = {l: M.edge_path(T, l) for l in T.labels}
    seq = []
    for _ in range(rng.randint(1, 9)):
        es = [l for l in T2.labels if T2.is_flippable(l)]
        if es and rng.random() < 0.75:
            e = rng.choice(es)
            step = h.target_triangulation.encode_flip(e) if rng.random() < 0.7 else h.target_triangulation.encode_multiflip([e])
            U = M.flip_tri(T2, e)
            paths = {l: M.flip_path(T2, U, e, p) for l, p in paths.items()}
            T2 = U
            seq.append(e)
        else:
            m = gen.relabelling(rng, T.zeta)
            step = h.target_triangulation.encode_relabel_edges(m)
            paths = {l: M.relabel_path(m, p) for l, p in paths.items()}
            T2 = M.relabel_tri(T2, m)
            seq.append(m)
        maps.append(step)
        h = step * h
    info = dict(tri=T.triples, moves=seq)
    moved = decide_images(ctx, 'flip walk', T, T2, CT, h, paths, info)
    A = decide_matrix(ctx, T, T2, h, 'walk', info)
    P = np.identity(A.shape[1], dtype=object)
    for g in maps: P = g.homology_matrix().dot(P)
    ctx.check('matrices multiply', np.array_equal(A, P), **info)
    u = [rng.randint(-9, 9) for _ in range(T.zeta)]
    x = curver.kernel.HomologyClass(CT, u)
    ctx.check('inverse undoes', h.inverse()(h(x)) == x, u=u, **info)
    ctx.nontrivial(T.triples, str(seq))


def decide_images(ctx, kind, T, T2, CT, h, paths, info):
    moved = False
    images = {}
    for l, p in paths.items():
        got = h(CT.edge_homology(l)).algebraic
        want = M.homology(T2, p)
        images[l] = want
        ctx.check(kind + ': image of an oriented edge', same_class(T2, got, want), label=l, got=list(got), want=want, **info)
    # And linearly.
    return images


def word(ctx, rng, T, CT):
    W = gen.Word(rng, T, CT, rng.randint(1, 3), max_power=rng.choice([2, 3, 5]))
    info = dict(tri=T.triples, word=W.desc)
    paths = {l: W.apply_path(M.edge_path(T, l)) for l in T.labels}
    images = decide_images(ctx, 'twist word', T, T, CT, W.h, paths, info)
    decide_matrix(ctx, T, T, W.h, 'word', info)
    trivial = all(same_class(T, images[l], edge_vec(T, l)) for l in T.labels)
    ctx.equal('torelli', W.h.is_in_torelli(), trivial, **info)
    if not trivial: ctx.nontrivial(T.triples, str(W.desc))
    # Separating twists and commutators lie in the Torelli group or close to it.
    ctx.check('torelli', (W.h * W.h.inverse()).is_in_torelli(), **info)
    k = rng.choice([2, 3, -1, -2])
    A, B = W.h.homology_matrix(), (W.h ** k).homology_matrix()
    P = np.identity(A.shape[0], dtype=object)
    for _ in range(abs(k)): P = (A if k > 0 else W.h.inverse().homology_matrix()).dot(P)
    ctx.check('matrices of powers', np.array_equal(B, P), power=k, **info)
    u = [rng.randint(-9, 9) for _ in range(T.zeta)]
    x = curver.kernel.HomologyClass(CT, u)
    want = [sum(u[i] * images[i][k2] for i in range(T.zeta)) for k2 in range(T.zeta)]
    ctx.sample({'triangles': T.triples, 'word': W.desc})
    ctx.check('linear', same_class(T, W.h(x).algebraic, want), u=u, **info)
