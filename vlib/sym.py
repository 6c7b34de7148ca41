'''Symmetric triangulations, their isometries and quotients - independent of curver.'''
from fractions import Fraction
from itertools import permutations, product
from vlib import model as M


def extend(T, U, l, x, used=None):
    '''The orientation preserving isomorphism from the component of l to the component of x that takes l to x, or None.'''
    m, todo = {l: x}, [l]
    while todo:
        a = todo.pop()
        for b, y in ((~a, ~m[a]), (T.nxt[a], U.nxt[m[a]])):
            if b in m:
                if m[b] != y: return None
            else:
                m[b] = y
                todo.append(b)
    return m if len(set(m.values())) == len(m) else None


def isometries(T, U, limit=5000):
    '''All label maps of orientation preserving isometries from T to U.'''
    if T.zeta != U.zeta: return []
    Tc, Uc = [sorted(c) for c in T.parts], [sorted(c) for c in U.parts]
    if len(Tc) != len(Uc): return []
    table = [[[m for x in d for m in [extend(T, U, c[0], x)] if m is not None and len(m) == len(d)] for d in Uc] for c in Tc]
    out = []
    for perm in permutations(range(len(Uc))):
        for choice in product(*[table[i][perm[i]] for i in range(len(Tc))]):
            m = {}
            for c in choice: m.update(c)
            out.append(m)
            if len(out) > limit: raise M.ModelError('too many isometries')
    return out


def compose(m, n):
    return {k: m[v] for k, v in n.items()}


def order(m):
    n, p = 1, m
    while any(k != v for k, v in p.items()):
        p = compose(m, p)
        n += 1
    return n


def power(m, k):
    p = {l: l for l in m}
    for _ in range(k): p = compose(m, p)
    return p


def cover(rng, T, k):
    '''A k-fold cyclic cover of T, with its deck transformation of order k.'''
    v = {}
    for i in range(T.zeta):
        v[i] = rng.randrange(k)
    idx = lambda l, i: l * k + i % k if l >= 0 else ~(~l * k + (i - v[~l]) % k)
    triples = [tuple(idx(l, i) for l in t) for t in T.triples for i in range(k)]
    U = M.Tri(triples)
    m = {}
    for i in range(T.zeta):
        for s in range(k):
            m[i * k + s] = i * k + (s + 1) % k
            m[~(i * k + s)] = ~(i * k + (s + 1) % k)
    return U, m


def quotient(T, m):
    '''The signature of T / <m>, where <m> is named by the powers of m.

    Returns a sorted list of (chi, number of preimages, [(punctured, order, holonomy, preimages)]).'''
    n = order(m)
    pows = [power(m, k) for k in range(n)]
    comp_of = {l: i for i, c in enumerate(T.parts) for l in c}
    orbit = {i: sorted({comp_of[p[next(iter(c))]] for p in pows}) for i, c in enumerate(T.parts)}
    kernel = {i: [k for k, p in enumerate(pows) if all(p[l] == l for l in c)] for i, c in enumerate(T.parts)}
    chi = {i: Fraction(-len(c), 6) for i, c in enumerate(T.parts)}
    out = []
    points = []  # (component, punctured, cyclic list of labels around it, anticlockwise)
    for v in T.vertices: points.append((comp_of[v[0]], True, list(v)))
    for i in range(T.zeta): points.append((comp_of[i], False, [i, ~i]))
    for t in T.triples: points.append((comp_of[t[0]], False, list(t)))
    for i in sorted({orbit[j][0] for j in orbit}):
        cones, seen = [], set()
        for c, punctured, ls in points:
            if c not in orbit[i] or (punctured, frozenset(ls)) in seen: continue
            images = {(punctured, frozenset(p[l] for l in ls)) for p in pows}
            seen |= images
            reach = [j for j in range(1, len(ls) + 1) if any(p[ls[0]] == ls[j % len(ls)] for p in pows)]
            step = reach[0]
            hol = tuple(k for k, p in enumerate(pows) if p[ls[0]] == ls[step % len(ls)])
            o = len(ls) // step
            if punctured or o > 1: cones.append((punctured, o, hol, len(images)))
        out.append((chi[i] * len(orbit[i]) * len(kernel[i]) / n, len(orbit[i]), tuple(sorted(cones))))
    return sorted(out)


def symmetric(rng, size):
    '''A triangulation with a (usually non-trivial) isometry.'''
    from vlib import gen
    x = rng.random()
    if x < 0.55:
        k = rng.choice([2, 2, 3, 4, 5, 6])
        T = gen.gluing(rng, 1) if k > 2 or rng.random() < 0.5 else gen.connected_gluing(rng, 2)
        if rng.random() < 0.4: T = gen.stellar(rng, T, 1)
        if T.zeta * k > 3 * size: k = max(2, 3 * size // T.zeta)
        U, m = cover(rng, T, k)
        if rng.random() < 0.4: m = rng.choice(isometries(U, U))
    elif x < 0.8:
        for _ in range(60):
            U = gen.connected_gluing(rng, rng.choice([1, 1, 2, 2, 3]))
            ms = isometries(U, U)
            if len(ms) > 1: break
        m = rng.choice(ms)
    else:
        A = gen.connected_gluing(rng, rng.choice([1, 1, 2]))
        B = A if rng.random() < 0.6 else gen.connected_gluing(rng, 1)
        U = gen.union(A, B)
        m = rng.choice(isometries(U, U))
    if rng.random() < 0.6:
        r = gen.relabelling(rng, U.zeta)
        inv = {v: k for k, v in r.items()}
        U, m = M.relabel_tri(U, r), compose(r, compose(m, inv))
    return U, m


def polygon(m):
    '''A polygon with 2m sides, opposite ones of which are glued, coned off from its centre; and its rotation of order 2m.'''
    n = 2 * m
    side = lambda i: i % n if i % n < m else ~(i % n - m)
    spoke = lambda i: m + i % n  # From the centre to the start of side i.
    T = M.Tri([(side(i), ~spoke(i + 1), spoke(i)) for i in range(n)])
    r = {}
    for i in range(n):
        r[side(i)] = side(i + 1)
        r[spoke(i)], r[~spoke(i)] = spoke(i + 1), ~spoke(i + 1)
    assert all(r[~l] == ~r[l] for l in T.labels)
    return T, r


def extremal(rng, top=12):
    '''A triangulation with an isometry of high order.'''
    from vlib import gen
    x = rng.random()
    if x < 0.45:  # Tori and spheres with many punctures.
        T = M.Tri([(0, 1, 2), (~0, ~1, ~2)]) if rng.random() < 0.6 else gen.connected_gluing(rng, 1)
        for _ in range(100):
            U, m = cover(rng, T, rng.randint(5, top))
            if len(U.parts) == 1: break
        return U, m
    m = rng.randint(2, top // 2)
    T, r = polygon(m)
    return T, power(r, rng.choice([1, 1, 2, 3, 2 * m - 1]))


def tall(rng):
    '''A double cover of a torus with three punctures, that is connected and ramified over two of them (or none).'''
    from vlib import gen
    for _ in range(1000):
        B = gen.stellar(rng, M.Tri([(0, 1, 2), (~0, ~1, ~2)]), 2)
        T, m = cover(rng, B, 2)
        if len(T.parts) == 1 and len(B.vertices) == 3: return T, m
    raise M.ModelError('no cover')
