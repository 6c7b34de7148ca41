'''Orders, the Torelli group and permutations of the punctures.'''
import math
import curver
from vlib import model as M, gen, util, sym

ID = 'P14'
RULE = ('Each case makes mapping classes whose order is known from outside: isometries of symmetric (and disconnected) surfaces that are conjugated by random words and by changes of triangulation, products of such with positive twists about invariant curves (infinite order), and words on the once-punctured torus (an element of SL(2, Z)). order, is_identity, is_periodic, max_order, is_in_torelli and vertex_permutation are compared. '
        'Homology and the punctures are followed strand by strand by the model. Non-trivial: elements other than the identity; distinct by (triangulation, element).')
MINIMUM = {'order': 300, 'seen finite order > 1': 100, 'seen infinite order': 60, 'max_order': 60, 'torelli': 200, 'seen in torelli': 40, 'vertex permutation': 100, 'vertex map': 60, 'homology matrix': 60, 'seen permutes components': 8, 'torus': 140, 'seen order more than six': 8}


def cases(tier, rng):
    n = 168 if tier == 'quick' else 3000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 4, 5, 6]), 'kind': ['periodic', 'periodic', 'torelli', 'torus', 'pieces', 'extremal'][i % 6]} for i in range(n)]


def run(case, ctx):
    rng = ctx.rng
    {'periodic': periodic, 'pieces': pieces, 'extremal': extremal, 'torelli': torelli, 'torus': torus}[case['kind']](case, ctx, rng)


def pieces(case, ctx, rng):
    '''Several copies of a surface that are permuted: the order is that of the permutation, combined with the return map.'''
    k = rng.choice([2, 2, 3, 4, 5])
    A = gen.connected_gluing(rng, 1)
    T = A
    for _ in range(k - 1): T = gen.union(T, A)
    z = A.zeta
    ms = sym.isometries(A, A)
    perm = list(range(k))
    rng.shuffle(perm)
    lab = lambda l, i: l + i * z if l >= 0 else l - i * z
    m = {}
    for i in range(k):
        x = rng.choice(ms)
        for l in A.labels: m[lab(l, i)] = lab(x[l], perm[i])
    if rng.random() < 0.5:
        r = gen.relabelling(rng, T.zeta)
        inv = {v: l for l, v in r.items()}
        T, m = M.relabel_tri(T, r), sym.compose(r, sym.compose(m, inv))
    ctx.observe('permutes components')
    orders(ctx, rng, T, m)


def extremal(case, ctx, rng):
    T, m = sym.extremal(rng)
    if sym.order(m) > 6: ctx.observe('order more than six')
    orders(ctx, rng, T, m)


def periodic(case, ctx, rng):
    T, m = sym.symmetric(rng, case['size'])
    orders(ctx, rng, T, m)


def orders(ctx, rng, T, m):
    CT = gen.to_curver(T)
    n = sym.order(m)
    info = dict(tri=T.triples, isometry=str(m))
    f = CT.encode([m])
    ctx.check('max_order', CT.max_order() >= n, order=n, max_order=CT.max_order(), **info)
    if n > 1: ctx.observe('finite order > 1')
    conj = CT.id_encoding() if T.zeta > 12 else gen.Word(rng, T, CT, rng.choice([0, 1, 1, 2]), 2).h
    seq, U = gen.sequence(rng, T, rng.choice([0, 1, 4]), twists=False)
    g = CT.encode(seq)
    for name, h, tri in (('isometry', f, T), ('conjugate', conj * f * conj.inverse(), T), ('conjugate by', f.conjugate_by(conj), T), ('moved', g * f * g.inverse(), U)):
        ctx.equal('order', (h.order(), h.is_periodic(), h.is_identity(), not h.is_pseudo_anosov() if n else True), (n, True, n == 1, True), which=name, **info)
        if n > 1: ctx.nontrivial(tri.triples, str(m), name)
        k = rng.randint(-7, 13)
        ctx.equal('order', (h ** k).order(), n // math.gcd(n, k), which=name, power=k, **info)
        ctx.check('order', (h ** n).is_identity() and h ** n == h.source_triangulation.id_encoding() and h ** (n + 1) == h, which=name, **info)
        if name == 'isometry': ctx.equal('nielsen thurston', h.nielsen_thurston_type(), curver.kernel.encoding.NT_TYPE_PERIODIC if hasattr(curver.kernel.encoding, 'NT_TYPE_PERIODIC') else 'Periodic', **info)
    # What an isometry does to the punctures and to homology.
    vmap = {frozenset(e.label for e in v): frozenset(e.label for e in x) for v, x in f.vertex_map().items()}
    ctx.equal('vertex map', vmap, {frozenset(v): frozenset(m[l] for l in v) for v in T.vertices}, **info)
    vs = sorted(CT.vertices)
    idx = {frozenset(e.label for e in v): i for i, v in enumerate(vs)}
    want = [idx[frozenset(m[e.label] for e in v)] for v in vs]
    for h in (f, f.conjugate_by(CT.id_encoding())):
        p = h.vertex_permutation()
        ctx.equal('vertex permutation', [p(i) for i in range(len(vs))], want, **info)
    trivial = all(T.hreduce(hvec(T, m[l])) == T.hreduce(hvec(T, l)) for l in range(T.zeta))
    ctx.equal('torelli', f.is_in_torelli(), trivial, **info)
    ctx.equal('torelli', (conj * f * conj.inverse()).is_in_torelli(), trivial, **info)
    # With a positive twist about an invariant multicurve, it becomes infinite order.
    if not gen.has_essential_curve(T) or n > 12 or len(T.parts) > 4: return  # order() would go on to max_order, which is exponential in the number of components.
    v, p = gen.curve(rng, T)
    orbit, q = set(), v
    for _ in range(n):
        orbit.add(q)
        q = M.relabel_weights(T, m, q)
    ps = [(1, next(iter(M.components(T, x).values()))[1]) for x in sorted(orbit)]
    if all(M.intersection(T, a, b) == 0 for i, (_, a) in enumerate(ps) for _, b in ps[:i]):
        k = rng.choice([1, -1, 2])
        h = CT(list(v)).encode_twist(k) * f  # h^n is a product of twists about the orbit.
        ctx.equal('order', (h.order(), h.is_periodic(), h.is_identity()), (0, False, False), curve=v, **info)
        ctx.observe('infinite order')
        c = CT.id_encoding() if T.zeta > 12 else conj
        ctx.equal('order', (c * h * c.inverse()).order(), 0, curve=v, **info)
        try:
            h.subgroup()
            ctx.check('order', False, what='subgroup of an infinite order mapping class', **info)
        except ValueError:
            pass
    ctx.sample(info)


def hvec(T, l):
    return tuple((1 if l >= 0 else -1) if i == M.norm(l) else 0 for i in range(T.zeta))


def torelli(case, ctx, rng):
    T = gen.surface(rng, min(case['size'], 4))
    CT = gen.to_curver(T)
    if not gen.has_essential_curve(T): return ctx.skip('no curves')
    for i in range(5):
        if i < 2:
            W = gen.Word(rng, T, CT, rng.choice([1, 1, 2]), 2)
            h, items, info = W.h, W.items, dict(tri=T.triples, word=W.desc)
        else:  # A twist, a bounding pair map or a commutator.
            v, p = gen.curve(rng, T)
            k = rng.choice([1, -1, 2, 3])
            h, items = CT(list(v)).encode_twist(k), [('t', p, k)]
            info = dict(tri=T.triples, curve=v, power=k)
            if i == 3:
                w, q = gen.curve(rng, T)
                h = h * CT(list(w)).encode_twist(-k)
                items = items + [('t', q, -k)]
                info['with'] = w
            if i == 4:
                w, q = gen.curve(rng, T)
                g = CT(list(w)).encode_twist(1)
                h = h * g * h.inverse() * g.inverse()
                items = items + [('t', q, 1), ('t', p, -k), ('t', q, -1)]
                info['commutator'] = w
        images = []
        for l in range(T.zeta):
            x = M.edge_path(T, l)
            for kind, y, power in reversed(items): x = M.twist_path(T, y, power, x) if kind == 't' else M.halftwist_path(T, y, power, x)
            if len(x.word) > 20000: raise M.ModelError('too long')
            images.append(T.hreduce(M.homology(T, x)))
        want = all(x == T.hreduce(hvec(T, l)) for l, x in enumerate(images))
        ctx.equal('torelli', h.is_in_torelli(), want, **info)
        if want: ctx.observe('in torelli')
        ctx.nontrivial(T.triples, str(info))
        # The matrix records the images of the basis, in terms of the basis.
        basis = CT.homology_basis()
        mat = h.homology_matrix()
        ctx.equal('homology matrix', mat.shape, (len(basis), len(basis)), **info)
        for j, b in enumerate(basis):
            total = [0] * T.zeta
            for c, x in zip(mat[:, j], basis):
                for t, a in enumerate(x.algebraic): total[t] += int(c) * int(a)
            ctx.equal('homology matrix', T.hreduce(tuple(total)), T.hreduce(tuple(int(a) for a in h(b).algebraic)), column=j, **info)
        swaps = {i: i for i in range(len(T.vertices))}
        for kind, y, power in reversed(items):
            if kind == 'h' and power % 2:
                a, b = T.vid[y], T.vid[~y]
                swaps = {k: (b if s == a else a if s == b else s) for k, s in swaps.items()}
        vid = {frozenset(v): i for i, v in enumerate(T.vertices)}
        got = {vid[frozenset(e.label for e in v)]: vid[frozenset(e.label for e in x)] for v, x in h.vertex_map().items()}
        ctx.equal('vertex map', got, swaps, **info)
        vs = sorted(CT.vertices)
        order = [vid[frozenset(e.label for e in v)] for v in vs]
        perm = h.vertex_permutation()
        ctx.equal('vertex permutation', [order[perm(i)] for i in range(len(vs))], [swaps[x] for x in order], **info)


def torus(case, ctx, rng):
    T0 = gen.from_curver(gen.load(1, 1).triangulation)
    seq, U = gen.sequence(rng, T0, rng.choice([0, 1, 5]), twists=False)
    S = gen.load(1, 1)
    back = S.triangulation.encode(seq)
    mats = {'a_0': ((1, 1), (0, 1)), 'A_0': ((1, -1), (0, 1)), 'b_0': ((1, 0), (-1, 1)), 'B_0': ((1, 0), (1, 1))}
    mul = lambda A, B: tuple(tuple(sum(A[i][k] * B[k][j] for k in range(2)) for j in range(2)) for i in range(2))
    for _ in range(12):
        base = rng.choice([['a_0', 'b_0'], ['a_0', 'b_0', 'a_0'], ['A_0', 'B_0'], [], ['b_0', 'a_0'] * 3, ['a_0'], ['a_0', 'B_0'], ['a_0', 'b_0'] * 2])
        if rng.random() < 0.4: base = [rng.choice(list(mats)) for _ in range(rng.randint(1, 5))]
        c = [rng.choice(list(mats)) for _ in range(rng.randint(0, 6))]
        word = c + base + [x.swapcase() for x in reversed(c)]
        A = ((1, 0), (0, 1))
        for x in word: A = mul(A, mats[x])
        tr = A[0][0] + A[1][1]
        if A == ((1, 0), (0, 1)): n = 1
        elif A == ((-1, 0), (0, -1)): n = 2
        else: n = {0: 4, 1: 6, -1: 3}.get(tr, 0)
        for h in (S(word), back * S(word) * back.inverse()):
            ctx.equal('torus', (h.order(), h.is_identity(), h.is_periodic(), h.is_in_torelli()), (n, n == 1, n > 0, n == 1), word=word, sequence=seq)
            ctx.equal('order', h.order(), n, word=word, sequence=seq)
        if n == 0: ctx.observe('infinite order')
        elif n > 1: ctx.observe('finite order > 1')
        if n == 1: ctx.observe('in torelli')
        ctx.nontrivial('torus', str(word))
