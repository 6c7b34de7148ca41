'''Arcs, multiarcs and triangulations around a filling multiarc.'''
import curver
from vlib import model as M, gen, util

ID = 'P30'
RULE = ('Each case draws a filling multiarc (edges of a triangulation cutting it into small polygons and once-punctured polygons, with multiplicities, pushed through mappings) on a random surface. The arcs, multiarcs and triangulations that curver finds disjoint from it are compared with those that the model reaches by flipping the other edges in all possible ways; '
        'balls in the flip graph are compared with a breadth-first search of the model. Multiarcs that do not fill are refused. Non-trivial: regions that are not all triangles; distinct by (triangulation, multiarc).')
MINIMUM = {'disjoint arcs': 60, 'disjoint multiarcs': 35, 'disjoint triangulations': 35, 'seen not a polygonalisation': 15, 'seen polygonalisation': 20, 'explored ball': 50, 'all encodings': 40, 'refused': 10, 'moved': 12}


def cases(tier, rng):
    n = 150 if tier == 'quick' else 4000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 3, 4]), 'kind': ['arcs', 'arcs', 'ball'][i % 3]} for i in range(n)]


def pull(path, w):
    '''Undo these flips.'''
    for V, e in reversed(path):
        X = M.flip_tri(V, e)
        for _ in range(3):
            w = M.flip_weights(X, e, w)
            X = M.flip_tri(X, e)
        if X.key() != V.key(): raise M.ModelError('flips do not have order five')
    return w


def unit(T, i):
    return tuple(-1 if j == i else 0 for j in range(T.zeta))


def completions(T, keep, limit=None, radius=None):
    '''{triangulation: distance} reached by flipping edges that are not in keep; each is a set of arcs on T.'''
    start = frozenset(unit(T, i) for i in range(T.zeta))
    seen = {start: 0}
    todo = [(T, [], start)]
    while todo:
        new = []
        for U, path, s in todo:
            if radius is not None and seen[s] >= radius: continue
            for i in range(T.zeta):
                if i in keep or not U.is_flippable(i): continue
                V = M.flip_tri(U, i)
                p = path + [(U, i)]
                f = frozenset(pull(p, unit(T, j)) for j in range(T.zeta))
                if f not in seen:
                    seen[f] = seen[s] + 1
                    new.append((V, p, f))
                    if limit is not None and len(seen) > limit: return None
        todo = new
    return seen


def total(arcs, T):
    return tuple(sum(a[i] for a in arcs) for i in range(T.zeta))


def refused(f):
    try:
        list(f())
        return False
    except (AssertionError, ValueError):
        return True


def run(case, ctx):
    return {'arcs': disjoint, 'ball': ball}[case['kind']](case, ctx)


def disjoint(case, ctx):
    rng = ctx.rng
    for _ in range(25):
        T = gen.surface(rng, case['size'])
        keep = {i for i in range(T.zeta) if rng.random() < rng.choice([0.3, 0.5, 0.7])}
        if not keep: continue
        w = tuple(-rng.choice([1, 1, 2]) if i in keep else 0 for i in range(T.zeta))
        CT = gen.to_curver(T)
        R = M.Regions(T, w)
        if not R.fills():
            A = CT(list(w))
            ctx.check('refused', refused(A.all_disjoint_arcs) and refused(A.all_disjoint_multiarcs) and refused(A.all_disjoint_triangulations) and refused(lambda: A.explore_ball(1)), tri=T.triples, multiarc=w)
            continue
        found = completions(T, keep, limit=250)
        if found is None: continue
        break
    else: return ctx.skip('regions are too big')
    arcs = set().union(*found)
    info = dict(tri=T.triples, multiarc=w)
    A = CT(list(w))
    ctx.observe('polygonalisation' if R.polygonalises() else 'not a polygonalisation')
    if len(keep) < T.zeta: ctx.nontrivial(T.triples, w)
    move = lambda x: x
    if rng.random() < 0.35:  # Somewhere else.
        h = gen.Word(rng, T, CT, 1, 2).h if rng.random() < 0.5 else CT.encode(gen.sequence(rng, T, 4)[0])
        if h(CT.as_lamination()).weight() < 150:
            A = h(A)
            back = h.inverse()
            move = back
            info['mapping'] = h.package()
            ctx.check('moved', A.is_filling(), **info)
    got = [move(a) for a in A.all_disjoint_arcs()]
    ctx.equal('disjoint arcs', set((type(a).__name__, util.vec(a)) for a in got), {('Arc', a) for a in arcs}, **info)
    if len(got) < 16 and len(found) <= 60:
        got = [move(a) for a in A.all_disjoint_triangulations()]
        ctx.equal('disjoint triangulations', sorted((type(a).__name__, util.vec(a)) for a in got), sorted(('MultiArc' if T.zeta > 1 else 'Arc', total(f, T)) for f in found), **info)
    subsets = set()
    for f in found:
        for S in powerset(sorted(f)):
            subsets.add(frozenset(S))
            if len(subsets) > 800: break
        if len(subsets) > 800: break
    if len(subsets) <= 800:
        got = [move(a) for a in A.all_disjoint_multiarcs()]
        ctx.equal('disjoint multiarcs', set((type(a).__name__, util.vec(a)) for a in got if a), set(('MultiArc' if len(S) > 1 else 'Arc', total(S, T)) for S in subsets if S), **info)
    ctx.sample({**info, 'arcs': len(arcs), 'triangulations': len(found)})


def powerset(xs):
    for i in range(2 ** len(xs)):
        yield [x for j, x in enumerate(xs) if i >> j & 1]


def ball(case, ctx):
    rng = ctx.rng
    T = gen.surface(rng, min(case['size'], 3))
    CT = gen.to_curver(T)
    radius = rng.choice([0, 1, 1, 2]) if T.zeta <= 6 else rng.choice([0, 1])
    want = completions(T, (), radius=radius)
    A = CT.as_lamination()
    info = dict(tri=T.triples, radius=radius)
    got = A.explore_ball(radius)
    ctx.equal('explored ball', sorted(util.vec(a) for a in got), sorted(total(f, T) for f in want), **info)
    ctx.check('classes', all(type(a).__name__ == ('MultiArc' if T.zeta > 1 else 'Arc') and a.is_triangulation() for a in got), **info)
    h = CT.encode(gen.sequence(rng, T, 3)[0])
    image = h(A)
    if image.weight() < 100:
        got = image.explore_ball(radius)
        ctx.equal('explored ball', sorted(util.vec(h.inverse()(a)) for a in got), sorted(total(f, T) for f in want), mapping=h.package(), **info)
    n = 0
    seen = set()
    ok = True
    for e in CT.all_encodings(radius):
        n += 1
        ok = ok and isinstance(e, curver.kernel.Mapping) and util.same_tri(e.source_triangulation, T)
        seen.add(util.vec(e.inverse()(e.target_triangulation.as_lamination())))
    ctx.check('all encodings', ok and seen == {total(f, T) for f in want} and n <= count(T, radius), **info)
    if radius: ctx.nontrivial(T.triples, radius)


def count(T, n):
    '''The number of sequences of at most n flips.'''
    return 1 + (sum(count(M.flip_tri(T, i), n - 1) for i in range(T.zeta) if T.is_flippable(i)) if n else 0)
