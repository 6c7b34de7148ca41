'''The curve graph.'''
import itertools

import curver
from vlib import model as M, gen, util

ID = 'P22'
RULE = ('Each case takes multicurves on a random surface. All their vertex cycles must be curves that use only the same normal arcs and cross each edge at most twice, and an exhaustive search of the small coordinate vectors must find no curve, crossing each edge at most once in each direction, that is missing; quasiconvex sets of pairs of curves (near and very far apart) must contain both curves and only curves of the surface, and must be coarsely connected; '
        'tight paths of length at most two are compared with the components, intersections and boundaries of unions that the model draws. Non-trivial: pairs of distinct curves and multicurves with a vertex cycle; distinct by (triangulation, curves).')
MINIMUM = {'vertex cycles': 60, 'all vertex cycles': 30, 'some vertex cycle': 40, 'seen several vertex cycles': 15, 'quasiconvex contains ends': 60, 'quasiconvex of curves': 60, 'quasiconvex is coarsely connected': 20, 'tight path of length 0': 100, 'tight path of length 1': 100, 'seen edge': 5, 'tight path of length 2': 60, 'seen path of length 2': 12, 'refused': 20}


def cases(tier, rng):
    n = 80 if tier == 'quick' else 4000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 3, 4]), 'kind': ['cycles', 'paths'][i % 2]} for i in range(n)]


def run(case, ctx):
    return {'cycles': cycles, 'paths': paths}[case['kind']](case, ctx)


# ---- vertex cycles ----

def corners(T, w):
    return {l for l in T.labels if M.corner_counts(T, w, l)[0]}


def small_curves(T, used):
    '''All weights, at most two, of curves whose normal arcs cut corners in used, crossing each edge at most once in each direction.'''
    edges = sorted(set(M.norm(x) for l in used for x in (l, T.prv[l])))
    out = set()
    for vals in itertools.product((0, 1, 2), repeat=len(edges)):
        w = [0] * T.zeta
        for e, x in zip(edges, vals): w[e] = x
        if not any(w): continue
        ok = True
        for t in T.triples:
            a, b, c = (w[M.norm(x)] for x in t)
            if (a + b + c) % 2 or a > b + c or b > a + c or c > a + b:
                ok = False
                break
            # Corner at the tail of t[0] is opposite t[1].
            if (a + c - b and t[0] not in used) or (a + b - c and t[1] not in used) or (b + c - a and t[2] not in used):
                ok = False
                break
        if not ok: continue
        comps = M.components(T, tuple(w))
        if len(comps) != 1: continue
        [(v, (m, p))] = comps.items()
        if m != 1 or not p.closed or len(set(p.word)) != len(p.word): continue
        out.add(v)
    return out


def cycles(case, ctx):
    rng = ctx.rng
    while True:
        T = gen.surface(rng, min(case['size'], 3))
        if gen.has_essential_curve(T): break
    CT = gen.to_curver(T)
    for _ in range(3):
        if rng.random() < 0.5: w = gen.curve(rng, T)[0]
        else: w = M.weights_of(T, gen.multicurve(rng, T, 6, 3).values())
        if not any(w): continue
        C = CT(list(w))
        used = corners(T, w)
        info = dict(tri=T.triples, multicurve=w)
        got = list(itertools.islice(C.vertex_cycles(), 4000))
        if len(got) == 4000: continue
        vs = set(util.vec(c) for c in got)
        if len(vs) > 1: ctx.observe('several vertex cycles')
        ctx.check('vertex cycles', all(type(c).__name__ == 'Curve' and util.same_tri(c.triangulation, T) for c in got), **info)
        if len(set(M.norm(x) for l in used for x in (l, T.prv[l]))) <= 8:
            # Cut sequences that cross themselves draw further curves.
            missing = small_curves(T, used) - vs
            ctx.check('all vertex cycles', not missing, missing=sorted(missing)[:3], **info)
        ctx.check('vertex cycles', all(is_vertex_cycle(T, v, used) for v in vs), **info)
        v = util.vec(C.vertex_cycle())
        ctx.check('some vertex cycle', is_vertex_cycle(T, v, used), cycle=v, **info)
        ctx.nontrivial(T.triples, w)
        ctx.sample({**info, 'vertex cycles': len(vs)})


def is_vertex_cycle(T, v, used):
    comps = M.components(T, v)
    if len(comps) != 1: return False
    [(_, (m, p))] = comps.items()
    return m == 1 and p.closed and max(v) <= 2 and corners(T, v) <= used


# ---- paths ----

def paths(case, ctx):
    rng = ctx.rng
    while True:
        T = gen.surface(rng, case['size'], connected=True)
        if gen.has_essential_curve(T) and T.zeta <= 12: break
    CT = gen.to_curver(T)
    G = curver.kernel.CurveGraph(CT)
    curves = dict(gen.curve(rng, T) for _ in range(6))
    multi = [gen.multicurve(rng, T, 4, 1) for _ in range(2)]
    items = [{v: (1, p)} for v, p in curves.items()] + [m for m in multi if m]
    pairs = list(itertools.product(items, repeat=2))
    rng.shuffle(pairs)
    for A, B in pairs[:8]:
        a, b = M.weights_of(T, A.values()), M.weights_of(T, B.values())
        ca, cb = CT(list(a)), CT(list(b))
        info = dict(tri=T.triples, a=a, b=b)
        if a != b: ctx.nontrivial(T.triples, a, b)
        norm = lambda P: set(tuple(util.vec(m) for m in p) for p in P)
        ctx.equal('tight path of length 0', norm(G.tight_paths(ca, cb, 0)), {(a,)} if a == b else set(), **info)
        edge = not set(A) & set(B) and all(M.intersection(T, p, q) == 0 for _, p in A.values() for _, q in B.values())
        if edge: ctx.observe('edge')
        ctx.equal('tight path of length 1', norm(G.tight_paths(ca, cb, 1)), {(a, b)} if edge else set(), **info)
        if sum(a) + sum(b) < 120:
            crush = ca.crush()
            U = util.tri(crush.target_triangulation)
            m = util.vec(crush.inverse()(crush.target_triangulation(list(M.Regions(U, util.vec(crush(cb))).boundary()))))
            comps = M.components(T, m)
            ok = not all(M.is_peripheral(T, p) for _, p in comps.values()) and not set(comps) & set(A) and not set(comps) & set(B)
            if ok: ctx.observe('path of length 2')
            ctx.equal('tight path of length 2', norm(G.tight_paths(ca, cb, 2)), {(a, m, b)} if ok else set(), **info)
            if ok: ctx.check('tight path of length 2', all(M.intersection(T, p, q) == 0 for _, p in comps.values() for _, q in list(A.values()) + list(B.values())), m=m, **info)
            ctx.sample({**info, 'edge': edge, 'path': ok})
    # Quasiconvex subsets.
    for _ in range(3):
        (v, p), (u, q) = gen.curve(rng, T), gen.curve(rng, T)
        far = rng.choice([0, 0, 1, 2, 5])
        if far:
            h = gen.Word(rng, T, CT, far, rng.choice([2, 2, 9])).h
            u = util.vec(h(CT(list(u))))
        a, b = CT(list(v)), CT(list(u))
        if a.weight() + b.weight() > 10**9: continue
        Q = G.quasiconvex(a, b)
        info = dict(tri=T.triples, a=v, b=u)
        vs = set(util.vec(c) for c in Q)
        ctx.check('quasiconvex contains ends', {v, u} <= vs, **info)
        ctx.check('quasiconvex of curves', all(type(c).__name__ == 'Curve' and util.same_tri(c.triangulation, T) and not c.is_peripheral() for c in Q), **info)
        ctx.equal('quasiconvex is symmetric', set(util.vec(c) for c in G.quasiconvex(b, a)) if a.weight() != b.weight() else vs, vs, **info)
        if len(vs) <= 14 and max(map(sum, vs)) < 10**6:
            # Consecutive vertex cycles of a splitting sequence intersect at most a few times (twice per edge and track).
            cs = sorted(vs)
            reach, todo = {cs[0]}, [cs[0]]
            while todo:
                x = todo.pop()
                for y in cs:
                    if y not in reach and CT(list(x)).intersection(CT(list(y))) <= 4 * T.zeta:
                        reach.add(y)
                        todo.append(y)
            ctx.check('quasiconvex is coarsely connected', len(reach) == len(cs), **info)
        ctx.nontrivial(T.triples, v, u)
    U = gen.union(T, gen.connected_gluing(rng, 1))
    for f in (lambda: curver.kernel.CurveGraph(gen.to_curver(U)), lambda: G.tight_paths(gen.to_curver(U)(list(v) + [0] * 3), a, 1)):
        try:
            f()
            ok = False
        except (AssertionError, ValueError):
            ok = True
        ctx.check('refused', ok, tri=T.triples)
