'''The data structures and algorithms underneath.'''
import itertools
import math
import pickle

import curver
from vlib import model as M  # noqa: F401

K = curver.kernel
ID = 'P24'
RULE = ('Each case runs a random sequence of operations on one of the structures that curver is built from, side by side with a plain model: permutations against dictionaries (composition, powers, order, parity, cycles, conjugacy, lexicographic index, matrix), straight line programs against lists (sums, repeats, maps, reversal, indexing, membership; lengths up to 10^17), union-find against partitions along histories of unions and finds, and base 64, maximin, maximum, maxes, cyclic slices, products, halves and natural sorting against their definitions, with iterators that count what is taken of them. '
        'Non-trivial: structures with at least three elements; distinct by operation sequence.')
MINIMUM = {'permutation': 2000, 'permutation index': 300, 'permutation conjugate': 300, 'program': 2000, 'program index': 800, 'huge program': 200, 'union find': 1500, 'base 64': 300, 'maximin': 400, 'maximum': 400, 'maxes': 200, 'cyclic slice': 300, 'product': 200, 'half': 300, 'natural order': 200, 'refused': 300}


def cases(tier, rng):
    n = 800 if tier == 'quick' else 20000
    return [{'s': rng.getrandbits(48), 'kind': ['permutations', 'programs', 'unions', 'utilities'][i % 4]} for i in range(n)]


def run(case, ctx):
    return {'permutations': permutations, 'programs': programs, 'unions': unions, 'utilities': utilities}[case['kind']](case, ctx)


def refused(f, kinds=(TypeError, ValueError, AssertionError, IndexError)):
    try:
        f()
        return False
    except kinds:
        return True


# ---- permutations ----

def perm(rng, n):
    p = list(range(n))
    if rng.random() < 0.2 and n:
        k = rng.randrange(n)
        return p[k:] + p[:k]
    if rng.random() < 0.2 and n > 1:
        i, j = rng.sample(range(n), 2)
        p[i], p[j] = p[j], p[i]
        return p
    rng.shuffle(p)
    return p


def power(p, k):
    n = len(p)
    q = [0] * n
    for i, x in enumerate(p): q[x] = i
    base = p if k >= 0 else q
    out = []
    for c in range(n):
        length, x = 1, base[c]
        while x != c: x, length = base[x], length + 1
        for _ in range(abs(k) % length): x = base[x]
        out.append(x)
    return out


def cycles(p):
    seen, out = set(), []
    for i in range(len(p)):
        if i in seen: continue
        n, x = 0, i
        while x not in seen:
            seen.add(x)
            x, n = p[x], n + 1
        out.append(n)
    return sorted(out)


def permutations(case, ctx):
    rng = ctx.rng
    P = K.Permutation
    for _ in range(20):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 11, 20])
        p, q = perm(rng, n), perm(rng, n)
        A, B = P(list(p)), P(list(q))
        info = dict(p=p, q=q)
        k = rng.choice([0, 1, -1, 2, 3, -5, 12, 10**9 + 7, -(10**20)])
        c = cycles(p)
        ctx.equal('permutation', list(A * B), [p[x] for x in q], **info)
        ctx.equal('permutation', (list(~A), list(A.inverse()), [A(i) for i in range(n)], [A[i] for i in range(n)], len(A)), (power(p, -1), power(p, -1), p, p, n), **info)
        ctx.equal('permutation', list(A ** k), power(p, k), k=k, **info)
        ctx.equal('permutation', (A.order(), A.cycle_lengths(), A.is_even()), (math.lcm(*c), c, sum(x - 1 for x in c) % 2 == 0), **info)
        ctx.equal('permutation', (A == B, A != B, A == P(list(p)), hash(A) == hash(P(list(p)))), (p == q, p != q, True, True), **info)
        ctx.equal('permutation', A.matrix().tolist(), [[int(p[j] == i) for j in range(n)] for i in range(n)] if n else A.matrix().tolist(), **info)
        ctx.equal('permutation', list(pickle.loads(pickle.dumps(A))), p, **info)
        names = [f'x{i}' for i in range(n)]
        rng.shuffle(names)
        ctx.equal('permutation', list(P.from_dict({names[i]: names[p[i]] for i in sorted(range(n), key=lambda _: rng.random())}, ordering=names)), p, **info)
        # The index is the lexicographic rank.
        rank = sum(math.factorial(n - 1 - i) * sum(1 for y in p[i + 1:] if y < x) for i, x in enumerate(p))
        ctx.equal('permutation index', (A.index(), list(P.from_index(n, rank))), (rank, p), **info)
        other = [None] * n  # q p q^-1.
        for i in range(n): other[q[i]] = q[p[i]]
        ctx.equal('permutation conjugate', (A.is_conjugate_to(P(other)), A.is_conjugate_to(B)), (True, cycles(q) == c), **info)
        ctx.equal('permutation conjugate', A.is_conjugate_to(P(list(range(n + 1)))), False, **info)
        if n:
            bad = list(p)
            bad[rng.randrange(n)] = rng.choice([n, n + 3, -1])
            ctx.check('refused', refused(lambda: P(bad)), data=bad)
            ctx.check('refused', refused(lambda: A * P(list(range(n + 1)))) and refused(lambda: A == P(list(range(n + 1)))), **info)
        if n > 2: ctx.nontrivial(p, q)
    if n:
        double = list(range(n)) + [0]
        ctx.check('refused', refused(lambda: P(double)), data=double)


# ---- straight line programs ----

def programs(case, ctx):
    rng = ctx.rng
    S = K.StraightLineProgram
    pool = [(S(list(x)), list(x)) for x in ([], [1], [1, 2, 3], [rng.randrange(5) for _ in range(rng.randint(1, 6))], ['a', 'b'], [(1, 2), None])]
    log = []
    for _ in range(45):
        (A, a), (B, b) = rng.choice(pool), rng.choice(pool)
        op = rng.choice(['add', 'add', 'mul', 'rmul', 'sum', 'reverse', 'map', 'copy', 'graph'])
        k = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 13])
        if op == 'add': C, c = A + B, a + b
        elif op == 'mul': C, c = A * k, a * k
        elif op == 'rmul': C, c = k * A, a * k
        elif op == 'sum':
            many = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
            C, c = S.sum([x for x, _ in many]), [y for _, x in many for y in x]
        elif op == 'reverse': C, c = A.reverse(), a[::-1]
        elif op == 'map':
            f = lambda x: ('f', x)
            C, c = A.map(f), [f(x) for x in a]
        elif op == 'copy': C, c = S(A), a
        else:
            # A program given by its graph.
            t = type(K.structures.Terminal(0)) if hasattr(K, 'structures') else None
            if t is None: continue
            C, c = S([[1, t('x'), 2, 1], [t(0), t(1)], [1, t('y')]]), [0, 1, 'x', 0, 1, 'y', 0, 1]
        log.append((op, k))
        info = dict(a=a[:40], b=b[:40], op=op, k=k)
        ctx.equal('program', (list(C), len(C)), (c, len(c)), **info)
        ctx.equal('program', list(reversed(C)), c[::-1], **info)
        ctx.equal('program', (list(A), list(B)), (a, b), **info)
        for i in [rng.randrange(-len(c), len(c)) for _ in range(2)] if c else []:
            ctx.equal('program index', C[i], c[i], index=i, **info)
        ctx.check('program index', refused(lambda: C[len(c)], IndexError) and refused(lambda: C[-len(c) - 1], IndexError), **info)
        if c: ctx.equal('program', (rng.choice(c) in C, 'missing' in C), (True, 'missing' in c), **info)
        elif op in ('reverse', 'copy', 'sum', 'add', 'map'): ctx.equal('program', 1 in C, False, **info)
        if len(c) <= 400: pool.append((C, c))
    # Huge.
    for _ in range(8):
        A, a = rng.choice([x for x in pool if x[1]])
        k, m = rng.choice([10**6 + 1, 2**40, 2**40 - 1, 10**9]), rng.choice([1, 3, 1001])
        B, b = rng.choice(pool)
        H = (A * k + B) * m
        n = (len(a) * k + len(b)) * m
        for i in [0, n - 1, rng.randrange(n), len(a) * k - 1, min(n - 1, len(a) * k), rng.randrange(n)]:
            r = i % (len(a) * k + len(b))
            want = a[r % len(a)] if r < len(a) * k else b[r - len(a) * k]
            ctx.equal('huge program', (H[i], H[i - n]), (want, want), index=i, k=k, m=m, a=a[:20], b=b[:20])
        ctx.equal('huge program', list(itertools.islice(H, 7)), list(itertools.islice(itertools.cycle(a), 7)) if k * len(a) > 7 else None, a=a[:20])
    ctx.check('refused', refused(lambda: A * -1))
    ctx.check('refused', refused(lambda: S(5)) and refused(lambda: S('ab')))
    ctx.nontrivial(log)
    ctx.sample(log)


# ---- union find ----

def unions(case, ctx):
    rng = ctx.rng
    for _ in range(4):
        items = rng.choice([list(range(rng.randint(1, 25))), list('abcdefgh'), [(i, j) for i in range(4) for j in range(3)]])
        U = K.UnionFind(rng.choice([list, tuple])(items))
        part = {x: i for i, x in enumerate(items)}
        log = []

        def join(*xs):
            for x in xs:
                old, new = part[x], part[xs[0]]
                for y in part:
                    if part[y] == old: part[y] = new
        for _ in range(30):
            op = rng.choice(['union2', 'union', 'find', 'union2'])
            if op == 'union2':
                x, y = rng.choice(items), rng.choice(items)
                U.union2(x, y)
                join(x, y)
                log.append((x, y))
            elif op == 'union':
                xs = [rng.choice(items) for _ in range(rng.randint(0, 4))]
                U.union(*xs)
                if xs: join(*xs)
                log.append(tuple(xs))
            x, y = rng.choice(items), rng.choice(items)
            ctx.equal('union find', U(x) == U(y), part[x] == part[y], items=items, log=log, x=x, y=y)
            ctx.equal('union find', part[U(x)], part[x], items=items, log=log, x=x)
            if rng.random() < 0.3:
                classes = {}
                for z, i in part.items(): classes.setdefault(i, []).append(z)
                ctx.equal('union find', (sorted(map(sorted, U)), len(U)), (sorted(map(sorted, classes.values())), len(classes)), items=items, log=log)
        if len(items) > 2: ctx.nontrivial(log)


# ---- utilities ----

class Counted:
    def __init__(self, xs):
        self.xs, self.taken = xs, 0

    def __iter__(self):
        for x in self.xs:
            self.taken += 1
            yield x


def utilities(case, ctx):
    rng = ctx.rng
    u = K.utilities
    for _ in range(20):
        n = rng.choice([0, 1, 63, 64, 65, 4095, 4096, rng.getrandbits(200), rng.getrandbits(20)])
        s = u.b64encode(n)
        ctx.equal('base 64', (u.b64decode(s), len(s) <= max(1, -(-n.bit_length() // 6)), s.replace('+', 'a').replace('-', 'a').isalnum() or not s), (n, True, True), n=n)
        m = n + rng.choice([1, 64])
        ctx.check('base 64', u.b64encode(m) != s, n=n, m=m)
        lists = [[rng.randrange(-3, 12) for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 5))]
        ctx.equal('maximin', u.maximin(*[rng.choice([list, tuple, iter, Counted])(x) for x in lists]), max(map(min, lists)), lists=lists)
        rest = Counted([0] + [1] * 50)
        ctx.equal('maximin', (u.maximin([3], rest), rest.taken <= 2), (3, True))  # Stops early.
        xs = [rng.randrange(10) for _ in range(rng.randint(1, 9))]
        key = rng.choice([lambda x: x, lambda x: -x, lambda x: x % 4])
        bound = rng.choice([None, 2, 5, 9, 100, -4])
        # The first one to reach the bound, and otherwise the first that is largest.
        want = max(xs, key=key)
        if bound is not None:
            for x in xs:
                if key(x) >= bound:
                    want = max(xs[:xs.index(x) + 1], key=key)
                    break
        ctx.equal('maximum', u.maximum(rng.choice([list, iter, Counted])(xs), key=key, upper_bound=bound), want, items=xs, bound=bound)
        rest = Counted([1, 7] + [8] * 50)
        ctx.equal('maximum', (u.maximum(rest, upper_bound=7), rest.taken <= 3), (7, True))
        top = max(map(key, xs))
        ctx.equal('maxes', u.maxes(rng.choice([list, iter])(xs), key=key), [x for x in xs if key(x) == top], items=xs)
        ys = rng.sample(range(30), rng.randint(1, 8))
        x, y = rng.choice(ys), rng.choice(ys + [99])
        i = ys.index(x)
        r = ys[i:] + ys[:i]
        want = r[:r.index(y)] if y in r and y != x else ([] if x == y else r)
        ctx.equal('cyclic slice', (list(u.cyclic_slice(list(ys), x, y)), list(u.cyclic_slice(tuple(ys), x)), list(u.cyclic_slice(list(ys), x))), (want, r, r), items=ys, x=x, y=y)
        words = [rng.choice('abcd') * rng.randint(1, 2) for _ in range(rng.randint(0, 5))]
        W = [Word(w) for w in words]
        ctx.equal('product', getattr(u.product(iter(W), start=Word('!')), 'w', None), ''.join(reversed(words)) or '!', words=words)
        ctx.equal('product', getattr(u.product(W, start=Word('!'), left=False), 'w', None), ''.join(words) or '!', words=words)
        z = rng.randrange(-10**30, 10**30)
        h = u.half
        ctx.equal('half', (h * (2 * z), (2 * z) * h, h(2 * z), type(h * (2 * z)), h * 0.5), (z, z, z, int, 0.25), z=z)
        ctx.check('half', refused(lambda: h * (2 * z + 1), ValueError), z=z)
        names = [rng.choice(['a', 'b', 's_', 'x10y']) + str(rng.choice([0, 1, 2, 9, 10, 11, 100])) for _ in range(6)]
        ctx.equal('natural order', sorted((x for x in names if x.startswith('s_')), key=u.alphanum_key), sorted((x for x in names if x.startswith('s_')), key=lambda x: int(x[2:])), names=names)
        ctx.equal('natural order', ''.join(map(str, u.alphanum_key(names[0]))), names[0], names=names)
        ctx.nontrivial(lists, xs, ys)
    for f in (lambda: u.maximin(), lambda: u.maximin([1], []), lambda: u.maximin([]), lambda: u.maxes([]), lambda: u.maximum([]), lambda: u.cyclic_slice([1, 2], 3)):
        ctx.check('refused', refused(f))


class Word:
    def __init__(self, w): self.w = w
    def __mul__(self, other): return Word(self.w + other.w)
