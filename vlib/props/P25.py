'''Exploring the Cayley graph.'''
import curver
from vlib import model as M, gen, util

ID = 'P25'
RULE = ('Each case explores the Cayley graph of a mapping class group with respect to some of its generators (closed under inverses or not, with repeats and redundant generators) and compares with a breadth first search in a group where words are decided without curver: SL(2, Z) for the once-punctured torus and the images of the edges, strand by strand, elsewhere. '
        'Every element that can be reached must be named exactly once, by a shortest word. Non-trivial: at least ten elements; distinct by (group, generators, length).')
MINIMUM = {'elements': 40, 'shortest': 40, 'identity first': 40, 'order of discovery': 40}


def cases(tier, rng):
    n = 160 if tier == 'quick' else 1200
    return [{'s': rng.getrandbits(48), 'torus': i % 3 == 0, 'deep': tier == 'thorough'} for i in range(n)]


def mul(A, B):
    return tuple(tuple(sum(A[i][k] * B[k][j] for k in range(2)) for j in range(2)) for i in range(2))


def run(case, ctx):
    rng = ctx.rng
    if case['torus']:
        S = curver.load(1, 1)
        gens = {'a_0': ((1, 1), (0, 1)), 'A_0': ((1, -1), (0, 1)), 'b_0': ((1, 0), (-1, 1)), 'B_0': ((1, 0), (1, 1))}
        start = ((1, 0), (0, 1))
        step = lambda letter, x: mul(gens[letter], x)
        letters = list(gens)
        length = rng.choice([0, 1, 2, 4, 5, 6]) + (1 if case['deep'] else 0)
        name = 'torus'
    else:
        if rng.random() < 0.6:
            name = rng.choice([(0, 4), (0, 5), (1, 2), (0, 3), (1, 1)])
            S = curver.load(*name)
        else:
            # Redundant generators: repeated, trivial, periodic.
            T0 = gen.surface(rng, 2)
            C0 = gen.to_curver(T0)
            W = [gen.Word(rng, T0, C0, 1, 1) for _ in range(2)]
            d = {'a': W[0].h, 'b': W[1].h, 'c': W[0].h, 'i': C0.id_encoding()}
            W = {'a': W[0].items, 'b': W[1].items, 'c': W[0].items, 'i': []}
            S = curver.kernel.MappingClassGroup(d)
            name = (T0.triples, str([d[k] for k in 'abi']))
        T = gen.from_curver(S.triangulation)
        items = {}
        for x in S:
            pos = x in S.pos_mapping_classes if hasattr(S, 'pos_mapping_classes') else x[0].islower()
            base = x if pos else x.swapcase()
            if base in S.curves:
                [(_, p)] = M.components(T, util.vec(S.curves[base])).values()
                it = [('t', p, 1)]
            elif base in S.arcs:
                it = [('h', util.vec(S.arcs[base]).index(-1), 1)]
            else:
                it = W[base]
            items[x] = it if pos else [(k, p, -m) for k, p, m in reversed(it)]
        start = tuple((T and M.edge_path(T, l)) for l in range(T.zeta))

        def step(letter, x):
            out = []
            for p in x:
                for k, c, m in reversed(items[letter]): p = M.twist_path(T, c, m, p) if k == 't' else M.halftwist_path(T, c, m, p)
                if len(p.word) > 3000: raise M.ModelError('too long')
                out.append(p)
            return tuple(out)
        letters = list(S)
        length = rng.choice([0, 1, 2, 2, 3, 3]) + (1 if case['deep'] else 0)
    generators = rng.sample(letters, rng.randint(1, min(len(letters), 6)))
    if rng.random() < 0.3: generators = generators + generators[:1]
    info = dict(group=name, generators=generators, length=length)

    def key(x):
        if case['torus']: return x
        # As an arc and in homology.
        return tuple((M.weights(T, p), T.hreduce(M.homology(T, p))) for p in x)
    depth = {key(start): 0}
    level = [start]
    for d in range(1, length + 1):
        nxt = []
        for x in level:
            for g in dict.fromkeys(generators):
                y = step(g, x)
                k = key(y)
                if k not in depth:
                    depth[k] = d
                    nxt.append(y)
        level = nxt
        if len(depth) > 3000: return ctx.skip('too many elements')
    words = []
    for w in S.cayley(generators, length): words.append(tuple(w))
    if len(depth) >= 10: ctx.nontrivial(str(info))
    ctx.observe('elements', len(words))
    images = []
    for w in words:
        x = start
        for l in reversed(w): x = step(l, x)
        images.append(key(x))
    ctx.check('elements', len(set(images)) == len(images) and set(images) == set(depth), found=len(words), distinct=len(set(images)), expected=len(depth), **info)
    ctx.check('shortest', all(len(w) == depth.get(k) and set(w) <= set(generators) for w, k in zip(words, images)), **info)
    ctx.equal('identity first', words[:1], [()], **info)
    ctx.check('order of discovery', [len(w) for w in words] == sorted(len(w) for w in words), **info)
    ctx.sample(info)
