'''Words: how a MappingClassGroup reads what it is asked for.'''
import random
import curver
from vlib import model as M, gen, util

ID = 'P13'
RULE = ('Each case builds a mapping class group (an example, or one with hostile generator names: prefixes of each other, mixed case, digits), draws a syntax tree of letters, powers (zero, negative, large, nested) and groups, renders it with random white space, separators and redundant parentheses, and compares the mapping class that it is read as with the product of the letters of the tree, taken one at a time. '
        'Broken strings must raise ValueError. Non-trivial: trees with at least two letters; distinct by (group, string).')
MINIMUM = {'word': 500, 'word acts': 150, 'list of names': 200, 'generators': 100, 'broken word is refused': 500, 'random word': 100, 'large power': 40, 'names': 60, 'saved': 5}


def cases(tier, rng):
    n = 110 if tier == 'quick' else 3000
    return [{'s': rng.getrandbits(48), 'kind': rng.choice(['load', 'load', 'names', 'names', 'old']), 'pickle': i % 10 == 0} for i in range(n)]


NAMES = ['a', 'b', 'ab', 'ba', 'aba', 'a_1', 'a_10', 'a_1b', 'aB', 'bA', 'x9', 'x', 'x_', 'abAB', 'z_Z', 'b1', 'b10', 'c_0_c', 'r', 'rot']


def build(rng, case):
    if case['kind'] == 'load': return curver.load(*rng.choice([(0, 4), (0, 5), (0, 6), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (1, 12)]))
    if case['kind'] == 'old': return curver.load(rng.choice(['S_0_4', 'S_1_1', 'S_1_2', 'S_1_2p', 'S_2_1', 'S_3_1', 'SB_5']))
    while True:
        T = gen.surface(rng, 3)
        if gen.has_essential_curve(T): break
    CT = gen.to_curver(T)
    names = rng.sample(NAMES, rng.randint(2, 7))
    names = [n for n in names if n.swapcase() not in names]
    pos, curves, arcs = {}, {}, {}
    for n in names:
        x = rng.random()
        ends = [e for e in range(T.zeta) if T.vid[e] != T.vid[~e]]
        if x < 0.4: curves[n] = CT(list(gen.curve(rng, T)[0]))
        elif x < 0.7 and ends: arcs[n] = CT.edge_arc(rng.choice(ends))
        else: pos[n] = gen.Word(rng, T, CT, rng.randint(1, 2), 2).h
    return curver.kernel.MappingClassGroup(pos or None, curves=curves or None, arcs=arcs or None)


def tree(rng, letters, depth, top=6):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4]) if depth else rng.randint(1, 3)):
        power = rng.choice([None, None, None, None, 2, -1, 3, -2, 0, 1, top]) if rng.random() < 0.6 else None
        if depth and rng.random() < 0.45: out.append((tree(rng, letters, depth - 1, top), power))
        else: out.append((rng.choice(letters), power))
    return out


def flatten(t):
    out = []
    for x, p in t:
        w = [x] if isinstance(x, str) else flatten(x)
        if p is None: out += w
        elif p >= 0: out += w * p
        else: out += [y.swapcase() for y in reversed(w)] * -p
    return out


def render(rng, t):
    sp = lambda: rng.choice(['', '', '', ' ', '  ', '\n', '\t'])
    power = lambda p: '' if p is None else sp() + '^' + sp() + (rng.choice(['', '+']) if p >= 0 else '') + str(p) + sp()
    out = ''
    fresh = True  # Whether the next letter begins a new token.
    for x, p in t:
        if isinstance(x, str):
            if not fresh: out += '.' + sp()
            if rng.random() < 0.2 or (p is not None and not fresh):
                # A power takes in the whole of the token before it, so stand alone.
                if out.endswith('.') or out.rstrip().endswith('.'): out = out.rstrip()[:-1]
                out += '(' + sp() + x + sp() + ')' + power(p)
                fresh = True
            else:
                out += x + power(p)
                fresh = p is not None
        else:
            out += '(' + sp() + render(rng, x) + sp() + ')' + power(p)
            fresh = True
        out += sp()
    return out


def same(g, h):
    '''Whether these agree, almost always since they are made of the same moves.'''
    return [str(m) for m in g] == [str(m) for m in h] or g == h


def product(S, letters):
    h = S.triangulation.id_encoding()
    for l in letters: h = h * S[l]
    return h


def run(case, ctx):
    rng = ctx.rng
    S = build(rng, case)
    T = gen.from_curver(S.triangulation)
    letters = list(S)
    pos = sorted(x for x in letters if x[0].islower())
    info = dict(letters=sorted(letters), tri=T.triples)
    ident = S.triangulation.id_encoding()
    ctx.equal('names', sorted(letters), sorted(pos + [x.swapcase() for x in pos]), **info)
    for x in pos:
        ctx.check('generators', S[x] * S[x.swapcase()] == ident and S[x.swapcase()] == S[x].inverse() and S(x) == S[x] and S(x.swapcase()) == S[x.swapcase()], letter=x, **info)
        if x in S.curves: ctx.check('generators', S[x] == S.curves[x].encode_twist(), letter=x, **info)
        if x in S.arcs: ctx.check('generators', S[x] == S.arcs[x].encode_halftwist(), letter=x, **info)
    w = gen.weights(rng, T) if T.zeta < 15 else tuple(S.triangulation.edge_arc(rng.randrange(T.zeta)))
    L = S.triangulation(list(w))
    heavy = T.zeta > 12
    for _ in range(3 if heavy else 6):
        t = tree(rng, letters, rng.choice([0, 1, 2]), 2 if heavy else 5)
        ls = flatten(t)
        if len(ls) > 60: continue
        s = render(rng, t)
        if rng.random() < 0.2 and '.' in s: s = s.replace('.', '..', 1)
        if rng.random() < 0.1: s = '.' + s
        h = S(s)
        if len(ls) > 1: ctx.nontrivial(str(info['letters']), s)
        ctx.check('word', type(h) is curver.kernel.MappingClass and util.same_tri(h.source_triangulation, T) and util.same_tri(h.target_triangulation, T), word=s, **info)
        ctx.check('word', same(h, product(S, ls)), word=s, tree=t, read_as=ls, **info)
        for variant in (ls, tuple(ls)):
            ctx.check('list of names', same(S(variant), product(S, ls)), names=variant, **info)
        if len(ls) < 12:
            x = L
            for l in reversed(ls): x = S[l](x)
            ctx.equal('word acts', util.vec(h(L)), util.vec(x), word=s, lamination=w, **info)
        # Several names together, as long as they can be read in one way only.
    if case['kind'] == 'load':
        ls = [rng.choice(letters) for _ in range(5)]
        if all(not (a + b)[len(a):len(a) + 1].isdigit() for a, b in zip(ls, ls[1:])):
            ctx.check('word', same(S(''.join(ls)), product(S, ls)), word=''.join(ls), **info)
    l = rng.choice(letters)
    k = rng.choice([17, 64, 100, 127, 255, 300])
    ctx.check('large power', same(S(f'{l}^{k}'), S[l] ** k), letter=l, power=k, **info)
    ctx.check('large power', same(S(f'(({l}^-{k})^-1)'), S[l] ** k), letter=l, power=k, **info)
    for empty in ('', ' ', '()', f'({l})^0', [], (), f'{l}^0', '(())^-3'):
        ctx.check('word', S(empty) == ident, word=empty, **info)
    broken(ctx, rng, S, letters, info)
    randoms(ctx, rng, S, pos, info)
    if case['pickle']:
        import pickle
        R = pickle.loads(pickle.dumps(S))
        ctx.check('saved', R == S and sorted(R) == sorted(S) and all(R[x] == S[x] for x in S), **info)
    ctx.sample(info)


def refused(f, *args, kinds=(ValueError,)):
    try:
        f(*args)
    except kinds:
        return True
    return False


def broken(ctx, rng, S, letters, info):
    l, m = rng.choice(letters), rng.choice(letters)
    unknown = next(x for x in ('qq', 'QQ', 'w7w', '_') if not any(y in x for y in letters))
    bad = [f'({l}', f'{l})', f'({l}.{m}))', f'(({l})', f'){l}(', f'{l}^', f'^{l}', f'^2', f'{l}^{m}', f'({l}.{m})^', f'({l})^({m})', f'({l})3', f'3({l})', f'({l})^2^', f'{l}^^2',
           unknown, f'{l}.{unknown}', f'{unknown}.{l}', f'{l}.{unknown}.{m}', f'({l}.{unknown})^2', f'{l}*{m}', f'{l}?', f'{l}${m}', f'{l};{m}', f'{l}^{{2}}', f'{l}=>{m}', f'({l}^-)', f'{l}^(-2)', f'{l}-1', f'({l}.{m})-1', f'{l}/{m}']
    for s in bad:
        ctx.check('broken word is refused', refused(S, s), word=s, **info)
    for x in (None, 1.5, object()): ctx.check('broken word is refused', refused(S, x, kinds=(TypeError, ValueError)), word=str(x), **info)
    for x in ([unknown], [l, unknown], [l, 7]): ctx.check('broken word is refused', refused(S, x, kinds=(KeyError, ValueError, TypeError)), word=str(x), **info)


def randoms(ctx, rng, S, pos, info):
    neg = [x.swapcase() for x in pos]
    k = rng.choice([0, 1, 5, 30])
    for kw, allowed in (({}, pos + neg), ({'positive': False}, neg), ({'negative': False}, pos), ({'letters': pos[:1]}, pos[:1]), ({'letters': [neg[0], pos[-1]]}, [neg[0], pos[-1]])):
        word = S.random_word(k, **kw)
        ctx.check('random word', len(word) == k and set(word) <= set(allowed), length=k, options=kw, **info)
        many = S.random_word(60 * len(allowed), **kw)
        ctx.check('random word', set(many) == set(allowed), options=kw, **info)
    ctx.check('random word', refused(lambda: S.random_word(3, positive=False, negative=False), kinds=(TypeError, ValueError)), **info)
    ctx.check('random word', same(S(k, letters=neg[:1]), product(S, neg[:1] * k)), length=k, **info)
    if len(pos) * 2 <= 8:
        ctx.check('random word', {S(1) for _ in range(60 * len(pos))} == {S[x] for x in pos + neg}, **info)
