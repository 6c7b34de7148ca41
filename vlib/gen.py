'''Random surfaces, laminations and mapping classes.  Everything here is drawn from the rng that is passed in.'''

import curver
from vlib import model as M

LOADS = [(0, 3), (0, 4), (0, 5), (0, 6), (1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (3, 1), (0, 7), (2, 3)]


def gluing(rng, n):
    '''A uniformly random gluing of 2n triangles (possibly disconnected).'''
    z = 3 * n
    labels = list(range(z)) + [~i for i in range(z)]
    rng.shuffle(labels)
    return M.Tri([labels[3 * i:3 * i + 3] for i in range(2 * n)])


def connected_gluing(rng, n):
    while True:
        T = gluing(rng, n)
        if len(T.components) == 1: return T


def stellar(rng, T, k):
    '''Add k punctures by subdividing k triangles.'''
    triples = [list(t) for t in T.triples]
    z = T.zeta
    for _ in range(k):
        i = rng.randrange(len(triples))
        a, b, c = triples.pop(i)
        s, t, u = z, z + 1, z + 2
        z += 3
        triples += [[a, ~u, t], [b, ~s, u], [c, ~t, s]]
    return M.Tri(triples)


def union(T, U):
    z = T.zeta
    return M.Tri(list(T.triples) + [tuple(l + z if l >= 0 else l - z for l in t) for t in U.triples])


def relabelling(rng, z):
    perm = list(range(z))
    rng.shuffle(perm)
    m = {}
    for i in range(z):
        x = perm[i] if rng.random() < 0.5 else ~perm[i]
        m[i], m[~i] = x, ~x
    return m


def flips(rng, T, n):
    for _ in range(n):
        es = [l for l in T.labels if T.is_flippable(l)]
        if not es: break
        T = M.flip_tri(T, rng.choice(es))
    return T


_loaded = {}


def load(g, n):
    if (g, n) not in _loaded: _loaded[(g, n)] = curver.load(g, n)
    return _loaded[(g, n)]


def from_curver(CT):
    return M.Tri([t.labels for t in CT])


def to_curver(T):
    return curver.create_triangulation([list(t) for t in T.triples])


def surface(rng, size=3, connected=None, relabel=True, max_zeta=None):
    '''A triangulation (as a model Tri) from a mixture of sources; 2 * size bounds the number of triangles, roughly.'''
    for _ in range(200):
        x = rng.random()
        if x < 0.35:
            T = gluing(rng, rng.randint(1, size)) if connected is not True else connected_gluing(rng, rng.randint(1, size))
        elif x < 0.60:
            n = rng.randint(1, max(1, size - 1))
            T = stellar(rng, connected_gluing(rng, n), rng.randint(1, max(1, size - n)))
        elif x < 0.85:
            loads = [(g, n) for g, n in LOADS if 6 * g + 3 * n - 6 <= 3 * size]
            g, n = rng.choice(loads)
            T = from_curver(load(g, n).triangulation)
        else:
            k = rng.randint(1, max(1, size - 1))
            T = union(connected_gluing(rng, k), connected_gluing(rng, max(1, size - k)))
        T = flips(rng, T, rng.choice([0, 0, 2, 5, 12]))
        if relabel and rng.random() < 0.7: T = M.relabel_tri(T, relabelling(rng, T.zeta))
        T = M.Tri([t[k:] + t[:k] for t in T.triples for k in [rng.randrange(3)]])  # Also rotate the triangles.
        if connected is True and len(T.components) > 1: continue
        if connected is False and len(T.components) == 1: continue
        if max_zeta is not None and T.zeta > max_zeta: continue
        return T
    raise M.ModelError('no such surface')


def _try(rng, T, values):
    w = [rng.choice(values) for _ in range(T.zeta)]
    return tuple(w) if M.is_consistent(T, w) else None


def weights(rng, T, mode='any', big=4):
    '''The weights of a random integral lamination on T.

    mode: any, curves (no arcs), arcs (no curves), nonempty.'''
    for _ in range(400):
        x = rng.random()
        if x < 0.40:
            w = None
            vals = rng.choice([[-1, 0, 0, 1, 1, 2, 2, 3, big], [0, 1, 1, 2], [0, 0, 0, 1, 2], [1, 2, 3, 4, 5], [-2, -1, 0, 0, 0, 1]])
            for _ in range(60):
                w = _try(rng, T, vals)
                if w is not None: break
            if w is None: continue
        elif x < 0.65:
            vals = rng.choice([[0, 1, 1, 2], [-1, 0, 1, 1], [0, 0, 1], [1, 2, 3]])
            w = tuple(2 * rng.choice(vals) for _ in range(T.zeta))
        elif x < 0.80:  # Disjoint edges, possibly all of them, and vertex links.
            w = [0] * T.zeta
            for i in range(T.zeta):
                if rng.random() < 0.4: w[i] = -rng.randint(1, 3)
            w = tuple(w)
        elif x < 0.9:  # A vertex link plus something inconsistent-looking.
            v = rng.choice(T.vertices)
            k = rng.randint(1, 3)
            u = [0] * T.zeta
            for l in v: u[M.norm(l)] += k
            w0 = _try(rng, T, [0, 0, 1, 1, 2])
            w = tuple(u) if w0 is None else tuple(a + b for a, b in zip(u, w0))
            if not M.is_consistent(T, w): continue
        else:  # Push a simple one through some flips.
            path = []
            U = T
            for _ in range(rng.randint(1, 8)):
                es = [l for l in U.labels if U.is_flippable(l)]
                if not es: break
                e = rng.choice(es)
                path.append((U, e))
                U = M.flip_tri(U, e)
            w = [0] * T.zeta
            for i in range(T.zeta):
                if rng.random() < 0.5: w[i] = -rng.randint(0, 2)
            ok = True
            for V, e in reversed(path):  # Undo the flips: flipping back e <- ~e up to sign convention.
                U2 = M.flip_tri(M.flip_tri(V, e), e)
                # flip_tri(V, e) flipped twice reverses e, so flip three times more.
                X = M.flip_tri(V, e)
                for _ in range(3):
                    w = M.flip_weights(X, e, w)
                    X = M.flip_tri(X, e)
                if X.key() != V.key():
                    ok = False
                    break
            if not ok: continue
            w = tuple(w)
        if not M.is_consistent(T, w) or sum(max(a, 0) for a in w) > 4000: continue
        if mode != 'any':
            comps = M.components(T, w)
            if mode == 'curves':
                comps = {v: mp for v, mp in comps.items() if mp[1].closed}
            elif mode == 'arcs':
                comps = {v: mp for v, mp in comps.items() if not mp[1].closed}
            w = M.weights_of(T, comps.values())
            if not any(w): continue
        return w
    raise M.ModelError('no lamination found')


def remultiply(rng, T, w, top=3):
    '''The lamination with the same components as w but different multiplicities.'''
    comps = M.components(T, w)
    return M.weights_of(T, [(rng.choice([0, 1, 1, 2, top]), p) for _, p in comps.values()])


def curve(rng, T, essential=True):
    '''A random (weights, Path) of an essential curve, or ModelError.'''
    for _ in range(60):
        try:
            w = weights(rng, T, 'curves')
        except M.ModelError:
            continue
        cs = [(v, p) for v, (m, p) in M.components(T, w).items() if p.closed and not (essential and M.is_peripheral(T, p))]
        if cs: return rng.choice(cs)
    raise M.ModelError('no essential curve found')


def arc(rng, T):
    for _ in range(60):
        w = weights(rng, T, 'any')
        cs = [(v, p) for v, (m, p) in M.components(T, w).items() if not p.closed]
        if cs: return rng.choice(cs)
    raise M.ModelError('no arc found')


def has_essential_curve(T):
    return any((g, p) != (0, 3) for g, p, _ in T.surface().values())


def arc_ends(T, p):
    return T.vid[p.start], T.vid[p.end]


class Word:
    '''A random mapping class of T that is known to both curver and to the model.

    items (applied from the last to the first, as in curver): ('t', curve path, power) or ('h', edge label, power).'''
    def __init__(self, rng, T, CT, length, max_power=3, seed_curves=None):
        self.T, self.CT = T, CT
        self.items = []
        h = CT.id_encoding()
        self.desc = []
        for _ in range(length):
            edges = [l for l in range(T.zeta) if T.vid[l] != T.vid[~l]]
            power = rng.choice([-1, 1, 1, -1, 2, -2, max_power, -max_power])
            if edges and rng.random() < 0.4:
                l = rng.choice(edges)
                g = CT.edge_arc(l).encode_halftwist(power)
                self.items.insert(0, ('h', l, power))
                self.desc.insert(0, ('h', l, power))
            elif has_essential_curve(T):
                v, p = curve(rng, T)
                g = CT(list(v)).encode_twist(power)
                self.items.insert(0, ('t', p, power))
                self.desc.insert(0, ('t', v, power))
            else:
                continue
            h = g * h
        self.h = h

    def apply_path(self, A):
        for kind, x, power in reversed(self.items):
            A = M.twist_path(self.T, x, power, A) if kind == 't' else M.halftwist_path(self.T, x, power, A)
        return A

    def apply_weights(self, w):
        return M.weights_of(self.T, [(m, self.apply_path(p)) for m, p in M.components(self.T, w).values()])


def sequence(rng, T, n, twists=True):
    '''A random sequence for encode, and the triangulation that it leads to.'''
    out = []
    for _ in range(n):
        es = [l for l in T.labels if T.is_flippable(l)]
        x = rng.random()
        if es and x < 0.5:
            e = rng.choice(es)
            out.insert(0, e)
            T = M.flip_tri(T, e)
        elif es and x < 0.62:
            rng.shuffle(es)
            chosen, used = set(), set()
            for e in es:
                s = {T.tri_of[e], T.tri_of[~e]}
                if not s & used and len(chosen) < 3:
                    chosen.add(e)
                    used |= s
            out.insert(0, chosen)
            for e in sorted(chosen): T = M.flip_tri(T, e)
        elif x < 0.78:
            m = relabelling(rng, T.zeta)
            out.insert(0, m)
            T = M.relabel_tri(T, m)
        elif twists and x < 0.97:
            l = rng.choice(T.labels)
            out.insert(0, (l, rng.choice([1, -1, 2, -2, 3, -4])))
        else:
            out.insert(0, None)
    return out or [None], T


def lams(rng, T, n=3):
    return [weights(rng, T) for _ in range(n)]


def multicurve(rng, T, tries=12, top=1):
    '''{weights: (multiplicity, Path)} of disjoint essential curves, as many as are found.'''
    out = {}
    for _ in range(tries):
        v, p = curve(rng, T)
        if v in out or sum(v) > 60: continue
        if all(M.intersection(T, p, q) == 0 for _, q in out.values()): out[v] = (rng.randint(1, top), p)
    return out
