'''Topological types.'''
import itertools

import curver
from vlib import model as M, gen, util

ID = 'P18'
RULE = ('Each case fixes a surface (connected or not, given by several triangulations) and collects laminations on it: multicurves, multiarcs, mixtures, peripheral components, with their multiplicities permuted or changed by one, and their images under relabellings, flips and words of twists. '
        'All pairs are compared: topological types must be equal exactly when the labelled gluing diagrams of complementary regions cut out by the model are isomorphic (after forgetting the punctures, for closed types). Non-trivial: laminations with at least two components or of positive complexity; distinct by (triangulation, lamination).')
MINIMUM = {'types of a pair': 1500, 'seen equal pair': 150, 'seen distinct pair': 800, 'invariant': 150, 'seen arcs': 150, 'closed types of a pair': 800, 'seen equal closed pair': 100, 'seen distinct closed pair': 200, 'closed types of others are refused': 20, 'seen disconnected': 10}


def cases(tier, rng):
    n = 66 if tier == 'quick' else 2500
    out = []
    for i in range(n):
        if i % 3 == 2: out.append({'s': rng.getrandbits(48), 'closed': True, 'size': rng.choice([1, 2, 3, 3, 3, 5, 5])})
        else: out.append({'s': rng.getrandbits(48), 'closed': False, 'size': rng.choice([1, 2, 2, 3, 3, 4, 5])})
    return out


def variants(rng, T, w):
    '''Laminations with the same components: other multiplicities.'''
    comps = list(M.components(T, w).values())
    if not comps: return
    ms = [m for m, _ in comps]
    rng.shuffle(ms)
    yield M.weights_of(T, zip(ms, [p for _, p in comps]))
    i = rng.randrange(len(comps))
    yield M.weights_of(T, [(m + (j == i), p) for j, (m, p) in enumerate(comps)])
    if len(comps) > 1: yield M.weights_of(T, [(m, p) for j, (m, p) in enumerate(comps) if j != i])


def one_puncture_each(rng, size):
    while True:
        x = rng.random()
        if size == 5: T = gen.from_curver(gen.load(2 if x < 0.85 else 3, 1).triangulation)
        elif x < 0.15 and size >= 2: T = gen.union(gen.connected_gluing(rng, 1), gen.connected_gluing(rng, rng.choice([1, 3])))
        else: T = gen.gluing(rng, size)
        if all(p == 1 for _, p, _ in T.surface().values()): break
    return M.relabel_tri(gen.flips(rng, T, 5), gen.relabelling(rng, T.zeta))


def another(rng, T):
    '''Another triangulation of the same surface.'''
    return M.relabel_tri(gen.flips(rng, T, rng.choice([0, 1, 3, 8])), gen.relabelling(rng, T.zeta))


def copy(rng, T, w):
    '''The same lamination somewhere else.'''
    for _ in range(rng.randint(1, 6)):
        es = [l for l in T.labels if T.is_flippable(l)]
        if es:
            e = rng.choice(es)
            T, w = M.flip_tri(T, e), M.flip_weights(T, e, w)
    m = gen.relabelling(rng, T.zeta)
    return M.relabel_tri(T, m), M.relabel_weights(T, m, w)


def run(case, ctx):
    rng = ctx.rng
    closed = case['closed']
    T0 = one_puncture_each(rng, case['size']) if closed else gen.surface(rng, case['size'])
    if len(T0.components) > 1: ctx.observe('disconnected')
    pool = []
    target = 16 if T0.zeta <= 6 else 10 if T0.zeta <= 9 else 6 if T0.zeta <= 12 else 4
    for _ in range(40):
        if len(pool) >= target: break
        T = another(rng, T0)
        x = rng.random()
        if closed or x < 0.3:
            if not gen.has_essential_curve(T): w = gen.weights(rng, T)
            elif rng.random() < 0.6: w = M.weights_of(T, gen.multicurve(rng, T, rng.choice([1, 3, 8]), 3).values())
            else: w = gen.weights(rng, T, 'curves')
        elif x < 0.55:
            w = tuple(-rng.choice([0, 0, 1, 1, 2]) for _ in range(T.zeta))
        else: w = gen.weights(rng, T)
        if closed: w = M.weights_of(T, [mp for mp in M.components(T, w).values() if mp[1].closed])
        if sum(abs(a) for a in w) > 120: continue
        pool.append((T, w))
        if rng.random() < 0.7: pool.append(copy(rng, T, w))
        if rng.random() < 0.4:
            for v in variants(rng, T, w):
                if sum(abs(a) for a in v) <= 160: pool.append((T, v))
    data, moved = [], 0
    for T, w in pool:
        CT = gen.to_curver(T)
        L = CT(list(w))
        R = M.Regions(T, w)
        if any(not p.closed for _, p, _ in R.comps): ctx.observe('arcs')
        if len(R.comps) > 1: ctx.nontrivial(T.triples, w)
        G = M.closed_type(R) if closed else R.graph()
        tt = L.topological_type(closed=closed)
        data.append((tt, G, T.triples, w))
        # It does not depend on where the lamination is moved to.
        h = None
        y = rng.random() * (1 if moved < 4 and T.zeta <= 9 or moved < 1 and T.zeta <= 12 else 9)
        if y >= 0.8: pass
        elif y < 0.4: h = CT.encode(gen.sequence(rng, T, rng.choice([1, 3, 6]))[0])
        elif T.zeta <= 12: h = gen.Word(rng, T, CT, 2, 2).h
        if h is not None:
            moved += 1
            ctx.check('invariant', h(L).topological_type(closed=closed) == tt, tri=T.triples, lamination=w, mapping=h.package())
    name = 'closed ' if closed else ''
    for (t1, G1, T1, w1), (t2, G2, T2, w2) in itertools.combinations(data, 2):
        same = M.same_closed_type(G1, G2) if closed else M.same_type(G1, G2)
        ctx.observe(('equal ' if same else 'distinct ') + name + 'pair')
        ctx.equal(name + 'types of a pair', t1 == t2, same, tri=T1, lamination=w1, other_tri=T2, other=w2)
    if data: ctx.sample(dict(tri=data[0][2], laminations=[d[3] for d in data[:3]]))
    if not closed:
        # Punctures can only be forgotten when this is well defined.
        T = another(rng, T0)
        CT = gen.to_curver(T)
        w = gen.weights(rng, T)
        arcs = any(not p.closed for _, p in M.components(T, w).values())
        bad = arcs or any(p > 1 for _, p, _ in T.surface().values())
        if bad:
            try:
                CT(list(w)).topological_type(closed=True)
                ok = False
            except ValueError:
                ok = True
            ctx.check('closed types of others are refused', ok, tri=T.triples, lamination=w)
