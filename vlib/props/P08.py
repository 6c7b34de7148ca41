'''The group of mapping classes: composition, powers, equality and the word problem.'''
import curver
from vlib import model as M, gen, util

ID = 'P08'
RULE = ('Each case takes random mapping classes (words of twists about random curves and half-twists about random edges) on a random surface. Each is known both to curver and, strand by strand, to the model, which therefore says whether two words are equal: they are iff they move every edge, as an arc and in homology, alike. '
        'Composition, inverses, powers, equality, hashing and the braid / commutation relations that intersection numbers dictate are compared. Non-trivial: words that are not the identity; distinct by (triangulation, word).')
MINIMUM = {'composition': 100, 'powers': 100, 'equality': 200, 'seen equal pair': 60, 'seen distinct pair': 60, 'equal elements hash alike': 60, 'braid relation': 60, 'conjugation': 60, 'bad arguments are refused': 100}


def cases(tier, rng):
    n = 130 if tier == 'quick' else 3000
    return [{'s': rng.getrandbits(48), 'size': rng.choice([1, 2, 2, 3, 3, 4]), 'torus': i % 10 == 0} for i in range(n)]


def fingerprint(W):
    '''What the model says about a word: the images of the edges, as arcs and in homology.'''
    T = W.T
    out = []
    for l in range(T.zeta):
        p = W.apply_path(M.edge_path(T, l))
        if sum(M.weights(T, p)) > 4000: raise M.ModelError('too long')
        out.append((M.weights(T, p), T.hreduce(M.homology(T, p))))
    return tuple(out)


class Bare:
    '''A word given by its items.'''
    def __init__(self, T, items): self.T, self.items = T, items
    apply_path = gen.Word.apply_path


def inverse_items(items):
    return [(k, x, -p) for k, x, p in reversed(items)]


def run(case, ctx):
    rng = ctx.rng
    if case['torus']:
        T = gen.flips(rng, gen.from_curver(gen.load(1, 1).triangulation), rng.choice([0, 3]))
    else:
        T = gen.surface(rng, case['size'])
    CT = gen.to_curver(T)
    words = [gen.Word(rng, T, CT, rng.choice([0, 1, 1, 2, 3]), 3) for _ in range(3)]
    lams = gen.lams(rng, T, 3)
    Ls = [CT(list(w)) for w in lams]
    f, g, h = [w.h for w in words]
    info = dict(tri=T.triples, f=words[0].desc, g=words[1].desc, h=words[2].desc)
    ident = CT.id_encoding()
    for w, L in zip(lams, Ls):
        for W in words:
            ctx.equal('word as drawn', util.vec(W.h(L)), W.apply_weights(w), lamination=w, word=W.desc, tri=T.triples)
        ctx.equal('composition', util.vec((f * g)(L)), util.vec(f(g(L))), lamination=w, **info)
        ctx.equal('composition', util.vec((f * g * h)(L)), util.vec(f(g(h(L)))), lamination=w, **info)
        ctx.equal('identity', util.vec(ident(L)), w, lamination=w, **info)
        ctx.equal('inverse', util.vec((f * f.inverse())(L)), w, lamination=w, **info)
        ctx.equal('inverse', util.vec((f * g).inverse()((f * g)(L))), w, lamination=w, **info)
        k = rng.choice([-3, -2, -1, 0, 1, 2, 3])
        x = L
        for _ in range(abs(k)): x = f(x) if k > 0 else (~f)(x)
        ctx.equal('powers', util.vec((f ** k)(L)), util.vec(x), lamination=w, power=k, **info)
        ctx.equal('powers', util.vec(f(L, power=k)), util.vec(x), lamination=w, power=k, **info)
        ctx.equal('conjugation', util.vec(f.conjugate_by(g)(L)), util.vec((~g)(f(g(L)))), lamination=w, **info)
    for W in words:
        if W.items: ctx.nontrivial(T.triples, tuple(map(str, W.desc)))
    for x in (f * g, f.inverse(), f ** 2, f ** -1, f ** 0, ident, f.conjugate_by(g)):
        ctx.check('is a mapping class', isinstance(x, curver.kernel.MappingClass) and util.same_tri(x.source_triangulation, T) and util.same_tri(x.target_triangulation, T), **info)
    equality(ctx, rng, T, CT, words, info)
    relations(ctx, rng, T, CT, info)
    walks(ctx, rng, T, CT, lams, Ls)
    refused(ctx, rng, T, CT, f)
    ctx.sample(info)


def equality(ctx, rng, T, CT, words, info):
    A, B, C = words
    f, g, h = A.h, B.h, C.h
    other = gen.Word(rng, T, CT, 1, 2)
    candidates = [
        (f, A.items), (g, B.items), (f * g, A.items + B.items), (g * f, B.items + A.items),
        ((f * g) * h, A.items + B.items + C.items), (f * (g * h), A.items + B.items + C.items),
        (f * g * f.inverse(), A.items + B.items + inverse_items(A.items)), (~f * f * g, B.items),
        (CT.id_encoding(), []), (f.inverse(), inverse_items(A.items)), (other.h * f, other.items + A.items), (f * other.h, A.items + other.items), (f ** 2, A.items * 2),
    ]
    rng.shuffle(candidates)
    prints = []
    for x, items in candidates[:8]:
        try:
            prints.append((x, fingerprint(Bare(T, items)), len(items)))
        except M.ModelError:
            ctx.skip('image too long')
    for i, (x, p, _) in enumerate(prints):
        for y, q, _ in prints[i:]:
            same = p == q
            ctx.observe('equal pair' if same else 'distinct pair')
            ctx.equal('equality', (x == y, x != y), (same, not same), **info)
            if same: ctx.equal('equal elements hash alike', hash(x), hash(y), **info)
    trivial = fingerprint(Bare(T, []))
    for x, p, _ in prints:
        if len(x) < 200: ctx.equal('is_identity', x.is_identity(), p == trivial, **info)
    ctx.equal('number of distinct elements', len({x for x, _, _ in prints}), len({p for _, p, _ in prints}), **info)


def relations(ctx, rng, T, CT, info):
    '''i(a, b) decides how T_a and T_b interact, and f T_a f^-1 = T_f(a).'''
    if not gen.has_essential_curve(T): return
    curves = [gen.curve(rng, T) for _ in range(3)]
    for (v, a), (w, b) in zip(curves, curves[1:] + curves[:1]):
        A, B = CT(list(v)).encode_twist(), CT(list(w)).encode_twist()
        i = M.intersection(T, a, b)
        ctx.equal('braid relation', (A * B == B * A, A * B * A == B * A * B, A == B), (i == 0, i == 1 or v == w, v == w), curves=(v, w), intersection=i, tri=T.triples)
        W = gen.Word(rng, T, CT, 1, 2)
        fv = W.h(CT(list(v)))
        if fv.weight() < 2000:
            ctx.check('conjugation', fv.encode_twist() == W.h * A * W.h.inverse(), curve=v, word=W.desc, tri=T.triples)
    es = [l for l in range(T.zeta) if T.vid[l] != T.vid[~l]]
    if len(es) >= 2:
        for _ in range(2):
            l, m = rng.sample(es, 2)
            common = len({T.vid[l], T.vid[~l]} & {T.vid[m], T.vid[~m]})
            A, B = CT.edge_arc(l).encode_halftwist(), CT.edge_arc(m).encode_halftwist()
            if common == 0: ctx.check('braid relation', A * B == B * A and A != B, arcs=(l, m), tri=T.triples)
            elif common == 1: ctx.check('braid relation', A * B * A == B * A * B and A * B != B * A, arcs=(l, m), tri=T.triples)
            W = gen.Word(rng, T, CT, 1, 2)
            x = W.h(CT.edge_arc(l))
            if x.weight() < 2000: ctx.check('conjugation', x.encode_halftwist() == W.h * A * W.h.inverse(), arc=l, word=W.desc, tri=T.triples)


def walks(ctx, rng, T, CT, lams, Ls):
    '''Mappings between different triangulations.'''
    seq, U = gen.sequence(rng, T, rng.randint(1, 6))
    seq2, V = gen.sequence(rng, U, rng.randint(1, 5))
    h = CT.encode(seq)
    CU = h.target_triangulation
    g = CU.encode(seq2)
    info = dict(tri=T.triples, h=seq, g=seq2)
    gh = g * h
    ctx.check('composite triangulations', util.same_tri(gh.source_triangulation, T) and util.same_tri(gh.target_triangulation, V), **info)
    for w, L in zip(lams, Ls):
        ctx.equal('composition', util.vec(gh(L)), util.vec(g(h(L))), lamination=w, **info)
        ctx.equal('inverse', util.vec(gh.inverse()(gh(L))), w, lamination=w, **info)
    same = CU.encode(seq2 + [None]) * h
    ctx.check('equality', same == gh and not same != gh and hash(same) == hash(gh), **info)
    es = [l for l in V.labels if V.is_flippable(l)]
    if es:
        e = rng.choice(es)
        flip = gh.target_triangulation.encode_flip(e)
        ctx.check('equality', not flip * gh == gh, **info)
        back = flip * gh
        for _ in range(3): back = back.target_triangulation.encode_flip(e) * back
        # Flipping the same label four times rotates the diagonal through a full turn.
        ctx.check('equality', back == gh and hash(back) == hash(gh), **info)
    if U.key() != T.key():
        ctx.equal('equality', (h == CT.id_encoding(), CT.id_encoding() == h), (False, False), **info)
        ctx.check('bad arguments are refused', raises(lambda: h * h), **info)
        ctx.check('bad arguments are refused', raises(lambda: h(h(Ls[0]))), **info)


def raises(f):
    try:
        f()
    except (ValueError, TypeError, AssertionError):
        return True
    return False


def refused(ctx, rng, T, CT, f):
    other = gen.load(2, 1) if T.zeta != 9 else gen.load(0, 4)
    k = other.triangulation.id_encoding()
    ctx.check('bad arguments are refused', raises(lambda: f * k))
    ctx.check('bad arguments are refused', raises(lambda: f(other.triangulation.edge_arc(0))))
    ctx.check('bad arguments are refused', raises(lambda: f * 3))
    ctx.check('equality', not f == k and f != k and not f == 5)
