'''An independent reference model of triangulated punctured surfaces, normal arcs and mapping classes.

Nothing in this file imports or calls curver.  Everything is done by drawing: an integral lamination is
the strands it draws in each triangle, an arc or a curve is the sequence of sides that it leaves
triangles through, a flip / twist / half-twist redraws that sequence, and the intersection number counts
the pairs of lifts to the universal cover that link.

Conventions (those of curver's documentation):
  * labels 0..zeta-1 and ~0..~(zeta-1); triangles are triples of labels in anticlockwise order,
  * label l runs from its tail to its head, and ~l is l reversed,
  * "corner l" is the corner of the triangle containing l at the tail of l.

A Path is either
  * closed: a cyclic tuple of labels, `exit l` meaning "leave the current triangle (the one containing l)
    through its side l, and so enter the one containing ~l", or
  * an arc: such a (linear) tuple plus a start corner and an end corner.  The arc which is the edge l
    itself is the empty tuple from corner l to corner nxt[l].
'''

from collections import namedtuple

Path = namedtuple('Path', ['closed', 'word', 'start', 'end'])


class ModelError(Exception):
    '''The model was asked about something too large or malformed: inconclusive, never a violation.'''


def norm(l):
    return l if l >= 0 else ~l


class Tri:
    def __init__(self, triples):
        self.triples = [tuple(int(x) for x in t) for t in triples]
        self.zeta = 3 * len(self.triples) // 2
        self.nxt, self.prv, self.tri_of, self.pos = {}, {}, {}, {}
        for i, (x, y, z) in enumerate(self.triples):
            for k, (p, q, r) in enumerate([(x, y, z), (y, z, x), (z, x, y)]):
                if p in self.nxt:
                    raise ModelError('label repeated')
                self.nxt[p], self.prv[p], self.tri_of[p], self.pos[p] = q, r, i, k
        self.labels = sorted(self.nxt)
        if self.labels != list(range(-self.zeta, self.zeta)):
            raise ModelError('labels are not -zeta..zeta-1')
        self.vid, self.vertices = {}, []
        for l in self.labels:
            if l not in self.vid:
                cycle = []
                m = l
                while m not in self.vid:
                    self.vid[m] = len(self.vertices)
                    cycle.append(m)
                    m = ~self.prv[m]
                self.vertices.append(tuple(cycle))
        # Components.
        self.comp = {}
        self.components = []
        for i in range(len(self.triples)):
            if i in self.comp: continue
            stack, members = [i], []
            self.comp[i] = len(self.components)
            while stack:
                t = stack.pop()
                members.append(t)
                for l in self.triples[t]:
                    u = self.tri_of[~l]
                    if u not in self.comp:
                        self.comp[u] = self.comp[t]
                        stack.append(u)
            self.components.append(members)
        self._rref = None

    @property
    def parts(self):
        '''The labels of each component.'''
        return [frozenset(l for t in members for l in self.triples[t]) for members in self.components]

    def key(self):
        '''A canonical form: the set of cyclically rotated triangles.'''
        return frozenset(min((t, t[1:] + t[:1], t[2:] + t[:2])) for t in self.triples)

    def surface(self):
        '''Return {frozenset of labels: (genus, punctures, chi)}.'''
        out = {}
        for members in self.components:
            labels = frozenset(l for t in members for l in self.triples[t])
            v = len(set(self.vid[l] for l in labels))
            e, f = len(labels) // 2, len(members)
            chi = v - e + f
            out[labels] = ((2 - chi) // 2, v, chi - v)
        return out

    def is_flippable(self, l):
        return self.tri_of[l] != self.tri_of[~l]

    # ---- homology relative to the vertices: Z^edges / triangles -------------------------------
    def _reduction(self):
        if self._rref is None:
            from fractions import Fraction
            rows = []
            for t in self.triples:
                v = [0] * self.zeta
                for l in t:
                    v[norm(l)] += 1 if l >= 0 else -1
                rows.append([Fraction(x) for x in v])
            pivots = []
            r = 0
            for c in range(self.zeta):
                p = next((i for i in range(r, len(rows)) if rows[i][c]), None)
                if p is None: continue
                rows[r], rows[p] = rows[p], rows[r]
                k = rows[r][c]
                rows[r] = [x / k for x in rows[r]]
                for i in range(len(rows)):
                    if i != r and rows[i][c]:
                        k = rows[i][c]
                        rows[i] = [x - k * y for x, y in zip(rows[i], rows[r])]
                pivots.append(c)
                r += 1
            self._rref = [(c, rows[i]) for i, c in enumerate(pivots)]
        return self._rref

    def homology_rank(self):
        return self.zeta - len(self._reduction())

    def hreduce(self, vector):
        '''Reduce a vector of edge coefficients to its canonical representative in homology.'''
        v = list(vector)
        for c, row in self._reduction():
            k = v[c]
            if k:
                v = [x - k * y for x, y in zip(v, row)]
        return tuple(v)


# ------------------------------------------------------------------------------------------------
# Weights -> strands
# ------------------------------------------------------------------------------------------------

def corner_counts(T, w, l):
    '''Return (#strands cutting the corner at l's tail, #terminal strands of l, #strands at l's head).

    Raises ModelError if the weights around this triangle draw nothing.'''
    a, b, c = (max(w[norm(x)], 0) for x in (l, T.nxt[l], T.prv[l]))  # l, head neighbour, tail neighbour.
    if a > b + c:
        return c, a - b - c, b
    if b > a + c:
        return 0, 0, a
    if c > a + b:
        return a, 0, 0
    if (a + b + c) % 2:
        raise ModelError('inconsistent weights')
    return (a + c - b) // 2, 0, (a + b - c) // 2


def is_consistent(T, w):
    '''Whether these integers are the coordinates of an integral lamination.'''
    for t in T.triples:
        a, b, c = (max(w[norm(x)], 0) for x in t)
        if a > b + c or b > a + c or c > a + b: continue
        if (a + b + c) % 2: return False
    return True


def trace(T, w, limit=200000):
    '''Return a list of (Path, exit positions) for every component drawn by w, and the list of edge arcs.

    Exit position of `exit l` is the position of the strand along l, counted from the tail of l.'''
    total = sum(max(x, 0) for x in w)
    if total > limit:
        raise ModelError('too heavy to trace')
    counts = {l: corner_counts(T, w, l) for l in T.labels}
    wt = {l: max(w[norm(l)], 0) for l in T.labels}

    def step(l, p):
        '''The strand entering the triangle of l through l at position p (from l's tail).'''
        nt, tt, nh = counts[l]
        if p < nt:
            m = T.prv[l]
            return m, wt[m] - 1 - p
        if p >= nt + tt:
            m = T.nxt[l]
            return m, wt[l] - 1 - p
        return None, T.prv[l]

    visited = set()

    def mark(l, p):
        k = (l, p) if l >= 0 else (~l, wt[l] - 1 - p)
        if k in visited: return False
        visited.add(k)
        return True

    out = []
    # Arcs: start from terminal strands.
    for l in T.labels:
        nt, tt, nh = counts[l]
        for p in range(nt, nt + tt):
            if not mark(l, p): continue
            word, poss = [l], [p]
            m, q = l, p
            while True:
                m2, q2 = step(~m, wt[m] - 1 - q)
                if m2 is None:
                    out.append((Path(False, tuple(word), T.prv[l], q2), tuple(poss)))
                    break
                mark(m2, q2)
                word.append(m2)
                poss.append(q2)
                m, q = m2, q2
    # Closed curves.
    for i in range(T.zeta):
        for p in range(wt[i]):
            if not mark(i, p): continue
            word, poss = [i], [p]
            m, q = i, p
            while True:
                m, q = step(~m, wt[m] - 1 - q)
                if m == i and q == p: break
                if m is None or not mark(m, q): raise ModelError('trace did not close')
                word.append(m)
                poss.append(q)
            out.append((Path(True, tuple(word), None, None), tuple(poss)))
    return out


def edge_path(T, l):
    return Path(False, (), l, T.nxt[l])


def components(T, w, limit=200000):
    '''Return {geometric vector: (multiplicity, Path)} of the integral lamination with weights w.'''
    out = {}
    for path, _ in trace(T, w, limit):
        v = weights(T, path)
        m, p = out.get(v, (0, path))
        out[v] = (m + 1, p)
    for i in range(T.zeta):
        if w[i] < 0:
            out[tuple(-1 if j == i else 0 for j in range(T.zeta))] = (-w[i], edge_path(T, i))
    return out


def paths_of(T, w, limit=200000):
    return [(m, p) for m, p in components(T, w, limit).values()]


def weights(T, path):
    '''The geometric vector of a reduced path.'''
    if not path.closed and not path.word:
        s, e = path.start, path.end
        l = s if T.nxt[s] == e else e
        return tuple(-1 if j == norm(l) else 0 for j in range(T.zeta))
    v = [0] * T.zeta
    for l in path.word:
        v[norm(l)] += 1
    return tuple(v)


def weights_of(T, multipaths):
    v = [0] * T.zeta
    for m, p in multipaths:
        for i, x in enumerate(weights(T, p)):
            v[i] += m * x
    return tuple(v)


def is_peripheral(T, path):
    if not path.closed: return False
    n = len(path.word)
    turns = set(path.word[i] == T.nxt[~path.word[i - 1]] for i in range(n))
    return len(turns) == 1


def reverse(path):
    return Path(path.closed, tuple(~l for l in reversed(path.word)), path.end, path.start)


# ------------------------------------------------------------------------------------------------
# Reduction and redrawing
# ------------------------------------------------------------------------------------------------

def reduce(T, path):
    '''Pull a path tight.  A null-homotopic closed path becomes the closed path with the empty word.'''
    stack = []
    for l in path.word:
        if stack and l == ~stack[-1]:
            stack.pop()
        else:
            stack.append(l)
    if path.closed:
        i, j = 0, len(stack)
        while j - i >= 2 and stack[i] == ~stack[j - 1]:
            i += 1
            j -= 1
        return Path(True, tuple(stack[i:j]), None, None)
    start, end = path.start, path.end
    i, j = 0, len(stack)
    while i < j:
        l = stack[i]
        if l == start:
            start = T.nxt[~l]
        elif l == T.prv[start]:
            start = ~l
        else:
            break
        i += 1
    while i < j:
        l = ~stack[j - 1]  # The label we came in through.
        # Reversed: leaving the end corner through l' = ~(stack[j-1]) i.e. the entry side.
        if l == end:
            end = T.nxt[~l]
        elif l == T.prv[end]:
            end = ~l
        else:
            break
        j -= 1
    if i == j and start == end:
        raise ModelError('arc is null-homotopic')
    return Path(False, tuple(stack[i:j]), start, end)


def check_path(T, path):
    '''Assert that a path is really a path.'''
    w = path.word
    if path.closed:
        assert w
        for i in range(len(w)):
            assert T.tri_of[w[i]] == T.tri_of[~w[i - 1]], 'broken path'
    else:
        cur = T.tri_of[path.start]
        for l in w:
            assert T.tri_of[l] == cur, 'broken path'
            cur = T.tri_of[~l]
        assert T.tri_of[path.end] == cur, 'broken path'


def flip_tri(T, e):
    '''Flip label e.  With sign +, e becomes the clockwise-rotated diagonal, with sign - the anticlockwise one.'''
    if not T.is_flippable(e): raise ModelError('not flippable')
    a, b, c, d = T.nxt[e], T.prv[e], T.nxt[~e], T.prv[~e]
    f = e if e >= 0 else ~e
    keep = [t for i, t in enumerate(T.triples) if i not in (T.tri_of[e], T.tri_of[~e])]
    return Tri(keep + [(f, d, a), (~f, b, c)])


def flip_path(T, T2, e, path):
    '''Redraw path (on T) on T2 = flip_tri(T, e).'''
    a, b, c, d = T.nxt[e], T.prv[e], T.nxt[~e], T.prv[~e]
    f = e if e >= 0 else ~e
    X, Y = {a, d}, {b, c}  # Sides of (f, d, a) and (~f, b, c).
    square = (T.tri_of[e], T.tri_of[~e])
    corner_side = {a: 'X', ~e: 'X', e: 'Y', c: 'Y', b: 'P', d: 'Q'}  # V, V, U, U, P, Q.

    def run(word, current):
        out = []
        for l in word:
            if l == e or l == ~e: continue
            if T.tri_of[l] in square:
                need = 'X' if l in X else 'Y'
                if current != need:
                    out.append(f if current == 'X' else ~f)
            out.append(l)
            if T.tri_of[~l] in square:
                current = 'X' if ~l in X else 'Y'
            else:
                current = None
        return out, current

    if path.closed:
        w = path.word
        k = next((i for i, l in enumerate(w) if l not in (e, ~e)), None)
        if k is None: raise ModelError('closed path in an edge')
        w = w[k + 1:] + w[:k + 1]
        last = w[-1]
        current = None
        if T.tri_of[~last] in square: current = 'X' if ~last in X else 'Y'
        out, _ = run(w, current)
        return reduce(T2, Path(True, tuple(out), None, None))
    # Arc.
    start, end = path.start, path.end
    current = None
    if T.tri_of[start] in square:
        side = corner_side[start]
        current = {'X': 'X', 'Y': 'Y', 'P': 'X', 'Q': 'X'}[side]
        start = {'X': a, 'Y': c, 'P': f, 'Q': d}[side]
    out, current = run(path.word, current)
    if T.tri_of[end] in square:
        side = corner_side[end]
        if side == 'X':
            need, end = 'X', a
        elif side == 'Y':
            need, end = 'Y', c
        elif side == 'P':
            need, end = current, (f if current == 'X' else b)
        else:
            need, end = current, (d if current == 'X' else ~f)
        if need != current:
            out.append(f if current == 'X' else ~f)
    return reduce(T2, Path(False, tuple(out), start, end))


def flip_weights(T, e, w):
    '''The weights after flipping e, by matching up the strands through e.  Works for weights of any size
    (and any ordered numeric type).'''
    a, b, c, d = T.nxt[e], T.prv[e], T.nxt[~e], T.prv[~e]
    we = w[norm(e)]
    cross = 0
    parallel = 0
    # e: U -> V, a: V -> P, b: P -> U, c: U -> Q, d: Q -> V.  The new diagonal joins P and Q.
    # Corners at P, Q and terminal strands that leave a, b, c, d and miss e.
    half = _half

    def counts(l):
        x, y, z = (max(w[norm(k)], 0) for k in (l, T.nxt[l], T.prv[l]))
        if x > y + z: return z, x - y - z, y
        if y > x + z: return 0 * x, 0 * x, x
        if z > x + y: return x, 0 * x, 0 * x
        return half(x + z - y), 0 * x, half(x + y - z)

    cross += counts(b)[0]  # Strands cutting the corner P.
    cross += counts(d)[0]  # Strands cutting the corner Q.
    for l in (a, b, c, d):
        cross += counts(l)[1]  # Terminal strands a -> U, b -> V, c -> V, d -> U all cross the new diagonal.
    if we < 0:
        cross += -we
    elif we > 0:
        # Cut [0, we] (from U to V) according to the two sides.
        ut, tt, vt = counts(e)  # Strands to b, to P, to a.
        vt2, tt2, ut2 = counts(~e)  # ~e: V -> U, so: strands to d, to Q, to c.
        A = [('b', 0 * we, ut), ('P', ut, ut + tt), ('a', ut + tt, we)]
        B = [('c', 0 * we, ut2), ('Q', ut2, ut2 + tt2), ('d', ut2 + tt2, we)]
        for x, lo, hi in A:
            for y, lo2, hi2 in B:
                n = min(hi, hi2) - max(lo, lo2)
                if n <= 0: continue
                if x == 'P' and y == 'Q':
                    parallel += n
                elif (x, y) in (('b', 'd'), ('a', 'c')):
                    cross += n
    out = list(w)
    out[norm(e)] = cross - parallel
    if parallel and cross: raise ModelError('inconsistent flip')
    return tuple(out)


def _half(x):
    if isinstance(x, int):
        if x % 2: raise ModelError('odd')
        return x // 2
    return x / 2


def relabel_tri(T, m):
    return Tri([tuple(m[l] for l in t) for t in T.triples])


def relabel_path(m, path):
    return Path(path.closed, tuple(m[l] for l in path.word),
                None if path.closed else m[path.start], None if path.closed else m[path.end])


def relabel_weights(T, m, w):
    out = [None] * T.zeta
    for i in range(T.zeta):
        out[norm(m[i])] = w[i]
    return tuple(out)


def homology(T, path):
    '''The class of an oriented arc in Z^edges / triangles, unreduced.  Closed paths are based at a vertex near them.'''
    v = [0] * T.zeta

    def add(l, s):
        v[norm(l)] += s if l >= 0 else -s

    def walk(k, word):
        for m in word:
            if k == T.prv[m]:
                add(T.prv[m], 1)
                k = m
            k = T.nxt[~m] if k == m else ~m
        return k
    if path.closed:
        first = path.word[0]
        k0 = first  # Stand at the tail of the first side, in its triangle.
        k = walk(k0, path.word)
        # k is now a corner of the triangle of `first` again.
        target = k0
    else:
        k = walk(path.start, path.word)
        target = path.end
    if k != target:
        if target == T.nxt[k]: add(k, 1)
        else: add(T.prv[k], -1)
    return tuple(v)


# ------------------------------------------------------------------------------------------------
# Linking of lifts
# ------------------------------------------------------------------------------------------------

def _passages(T, path):
    '''List of (triangle, entry, exit): entry / exit is ('s', label) or ('c', label).'''
    w = path.word
    out = []
    if path.closed:
        for i in range(len(w)):
            out.append((T.tri_of[w[i]], ('s', ~w[i - 1]), ('s', w[i])))
    else:
        cur = ('c', path.start)
        for l in w:
            out.append((T.tri_of[l], cur, ('s', l)))
            cur = ('s', ~l)
        out.append((T.tri_of[path.end], cur, ('c', path.end)))
    return out


def _where(T, x):
    k = T.pos[x[1]]
    return (2 * k if x[0] == 's' else 2 * k - 1) % 6


def crossings(T, A, B, limit=3000000):
    '''Return a list of (index of passage of A, index of passage of B, direction, side) of essential crossings.

    direction is +1 if B, oriented so as to travel with A along the shared stretch, is traversed forwards.
    side is 'L' if B (in that direction) crosses A from left to right, 'R' if from right to left and None
    for crossings in a single triangle, in which case direction is such that B goes from left to right.'''
    PA, PB = _passages(T, A), _passages(T, B)
    if len(PA) * len(PB) > limit: raise ModelError('too long to intersect')
    nA, nB = len(PA), len(PB)
    by_tri = {}
    for j, (t, x, y) in enumerate(PB):
        by_tri.setdefault(t, []).append((j, x, y))
    bound = 2 * (nA + nB) + 5
    out = []
    for i, (t, p, q) in enumerate(PA):
        for j, r, s in by_tri.get(t, ()):
            shares_p = p[0] == 's' and (p == r or p == s)
            shares_q = q[0] == 's' and (q == r or q == s)
            if shares_p: continue  # Interior or final triangle of a shared stretch.
            if not shares_q:
                # A single triangle.
                wp, wq, wr, ws = _where(T, p), _where(T, q), _where(T, r), _where(T, s)
                if len({wp, wq, wr, ws}) < 4: continue
                inside_r = (wr - wp) % 6 < (wq - wp) % 6
                inside_s = (ws - wp) % 6 < (wq - wp) % 6
                if inside_r != inside_s:
                    # Anticlockwise from the entry to the exit lies to the right of A.
                    out.append((i, j, +1 if inside_s else -1, None))
                continue
            # A start of a shared stretch.
            direction = +1 if q == s else -1
            other = r if q == s else s
            base = _where(T, q)
            d_p, d_r = (_where(T, p) - base) % 6, (_where(T, other) - base) % 6
            if d_p == d_r: continue  # Both start at the same vertex.
            from_left = d_r < d_p
            # Walk.
            ia, jb = i, j
            for _ in range(bound):
                ia += 1
                jb += direction
                if A.closed: ia %= nA
                if B.closed: jb %= nB
                _, pa, qa = PA[ia]
                _, pb, qb = PB[jb]
                if direction < 0: pb, qb = qb, pb
                if pa != pb: raise ModelError('lost the shared stretch')
                if qa[0] == 's' and qa == qb: continue
                base = _where(T, pa)
                e_a, e_b = (_where(T, qa) - base) % 6, (_where(T, qb) - base) % 6
                if e_a != e_b:
                    to_right = e_b < e_a
                    if from_left == to_right:
                        out.append((i, j, direction, 'L' if from_left else 'R'))
                break
            else:
                raise ModelError('shared stretch does not end')
    return out


def intersection(T, A, B):
    return len(crossings(T, A, B))


def intersection_number(T, MA, MB):
    '''MA, MB: lists of (multiplicity, Path).'''
    return sum(m * n * intersection(T, A, B) for m, A in MA for n, B in MB)


# ------------------------------------------------------------------------------------------------
# Twists
# ------------------------------------------------------------------------------------------------

def curve_positions(T, path):
    '''The exit positions of a simple closed path (recovered from its own weights).'''
    v = weights(T, path)
    [(p, poss)] = trace(T, v)
    n = len(path.word)
    for w2, ps in ((p.word, poss), (reverse(p).word, tuple(v[norm(p.word[i])] - 1 - poss[i] for i in reversed(range(n))))):
        for k in range(n):
            if w2[k:] + w2[:k] == path.word:
                return ps[k:] + ps[:k]
    raise ModelError('not a simple closed curve')


def twist_path(T, c, power, A, max_len=200000):
    '''The image of A under the power-th power of the right Dehn twist about the simple closed path c.'''
    if power == 0 or is_peripheral(T, c): return A
    X = crossings(T, A, c)
    if not X: return A
    n = len(c.word)
    if len(X) * n * abs(power) > max_len: raise ModelError('twist too long')
    poss = curve_positions(T, c)
    cw = weights(T, c)
    nA = len(A.word) + (0 if A.closed else 1)

    def side_pos(j, label):
        '''Position of passage j of c on side `label` of its triangle, from the tail of label.'''
        if c.word[j] == label: return poss[j]
        assert ~c.word[j - 1] == label
        return cw[norm(label)] - 1 - poss[j - 1]

    inserts = {}
    PA = _passages(T, A)
    for i, j, direction, side in X:
        if side is None:
            # A has a corner here.  Order along A.
            _, p, q = PA[i]
            if p[0] == 'c' and q[0] == 'c':  # The edge arc.
                l = p[1] if T.nxt[p[1]] == q[1] else q[1]
                pos = side_pos(j, l)
                order = (0, pos if l == p[1] else -pos)
            elif p[0] == 'c':  # c cuts the corner p: nearest first.
                order = (0, side_pos(j, p[1]))
            else:  # c cuts the corner q: furthest first.
                order = (2, -side_pos(j, q[1]))
            forward = direction  # From left to right.
        else:
            q = PA[i][2][1]
            pos = side_pos(j, q)  # From the tail (the right hand side) of q.
            order = (1, pos if side == 'L' else -pos)
            forward = direction if side == 'L' else -direction
        d = forward if power > 0 else -forward
        if d > 0:
            loop = c.word[j:] + c.word[:j]
        else:
            loop = tuple(~l for l in reversed(c.word[j:] + c.word[:j]))
        inserts.setdefault(i, []).append((order, loop * abs(power)))
    out = []
    for i in range(nA):
        for _, loop in sorted(inserts.get(i, ())):
            out.extend(loop)
        if i < len(A.word): out.append(A.word[i])
    return reduce(T, Path(A.closed, tuple(out), A.start, A.end))


def halftwist_path(T, alpha, power, A, max_len=200000):
    '''The image of A under the power-th power of the right half-twist about the edge `alpha`, which must have distinct ends.'''
    assert T.vid[alpha] != T.vid[~alpha]
    for _ in range(abs(power)):
        A = _halftwist(T, alpha, A) if power > 0 else _halftwist_inverse(T, alpha, A)
        if len(A.word) > max_len: raise ModelError('half-twist too long')
    return A


def _halftwist(T, alpha, A):
    def around_right(l):  # Anticlockwise around the tail of l, from the triangle of l to the triangle of ~l.
        out, e = [], l
        while T.prv[e] != ~l:
            out.append(T.prv[e])
            e = ~T.prv[e]
        return out

    def around_left(l):  # Clockwise around the head of l, from the triangle of l to the triangle of ~l.
        out, m = [], l
        while T.nxt[m] != ~l:
            out.append(T.nxt[m])
            m = ~T.nxt[m]
        return out

    def tail(k):
        '''The arc finishes at corner k; return the additional labels and the new end corner.'''
        for l in (alpha, ~alpha):
            if T.vid[k] == T.vid[l]:
                out, e = [], k
                while T.prv[e] != ~l:
                    out.append(T.prv[e])
                    e = ~T.prv[e]
                return out, ~l
        return [], k

    out = []
    for l in A.word:
        if l in (alpha, ~alpha):
            out.extend(around_right(l))
            out.append(~l)
            out.extend(around_left(l))
        else:
            out.append(l)
    if A.closed:
        return reduce(T, Path(True, tuple(out), None, None))
    pre, start = tail(A.start)
    post, end = tail(A.end)
    return reduce(T, Path(False, tuple([~l for l in reversed(pre)] + out + post), start, end))


def _halftwist_inverse(T, alpha, A):
    '''The mirror image of _halftwist.'''
    def around_left(l):  # Clockwise around the head of l.
        out, m = [], l
        while T.nxt[m] != ~l:
            out.append(T.nxt[m])
            m = ~T.nxt[m]
        return out

    def around_right(l):
        out, e = [], l
        while T.prv[e] != ~l:
            out.append(T.prv[e])
            e = ~T.prv[e]
        return out

    def tail(k):
        for l in (alpha, ~alpha):
            if T.vid[k] == T.vid[l]:
                # Clockwise around the tail of l until we are in the triangle of l.
                out, e = [], k
                while e != l:
                    out.append(e)
                    e = T.nxt[~e]
                # Now at corner l of the triangle of l; go along l to its head.
                return out, T.nxt[l]
        return [], k

    out = []
    for l in A.word:
        if l in (alpha, ~alpha):
            out.extend(around_left(l))
            out.append(~l)
            out.extend(around_right(l))
        else:
            out.append(l)
    if A.closed:
        return reduce(T, Path(True, tuple(out), None, None))
    pre, start = tail(A.start)
    post, end = tail(A.end)
    return reduce(T, Path(False, tuple([~l for l in reversed(pre)] + out + post), start, end))


# ------------------------------------------------------------------------------------------------
# Complementary regions
# ------------------------------------------------------------------------------------------------

def vertex_fan(T, ends, v):
    '''The cyclic, anticlockwise list of things coming out of vertex v.

    ends is {corner: [sorted (position, end id)]} and {('edge', label): end id}; an item of the result is
    ('cross', l) for a (non-used) edge l coming out of v, or ('end', id).'''
    out = []
    for l in T.vertices[v]:
        if ('edge', l) in ends:
            out.append(('end', ends[('edge', l)]))
        else:
            out.append(('cross', l))
        for _, i in sorted(ends.get(l, ())):
            out.append(('end', i))
    return out


class Regions:
    '''The complementary regions of the skeleton of the integral lamination with weights w.

    self.comps: list of (multiplicity, Path, weights) with one entry per distinct component.
    self.faces: list of (cyclic list of (component index, direction), closed word (unreduced)).
    self.regions: list of dicts with keys chi, punctures, genus, circles; each circle is
        ('curve', component index, side) or ('face', face index).
    '''
    def __init__(self, T, w, limit=20000):
        self.T = T
        comp = components(T, w, limit)
        self.comps = [(m, p, v) for v, (m, p) in sorted(comp.items())]
        sk = tuple(sum(v[i] for _, _, v in self.comps) for i in range(T.zeta))
        self.sk = sk
        index = {v: i for i, (_, _, v) in enumerate(self.comps)}
        wt = {l: max(sk[norm(l)], 0) for l in T.labels}
        counts = {l: corner_counts(T, sk, l) for l in T.labels}
        traced = trace(T, sk, limit)
        # Points on edges know their component, direction of travel and sequence index.
        point = {}  # (label, position) -> (component, index in word, whether exiting through label)
        ends = {}
        paths = {}
        for p, poss in traced:
            c = index[weights(T, p)]
            paths[c] = p
            n = len(p.word)
            for k, (l, q) in enumerate(zip(p.word, poss)):
                point[(l, q)] = (c, k, True)
                point[(~l, wt[l] - 1 - q)] = (c, k, False)
            if not p.closed:
                # Ends: start at corner p.start, leaving through p.word[0] at poss[0] (from the tail of that side).
                ends.setdefault(p.start, []).append((poss[0], (c, 0)))
                l = p.word[-1]
                ends.setdefault(p.end, []).append((wt[l] - 1 - poss[-1], (c, 1)))
        for i in range(T.zeta):
            if sk[i] < 0:
                c = index[tuple(-1 if j == i else 0 for j in range(T.zeta))]
                paths[c] = edge_path(T, i)
                ends[('edge', i)] = (c, 0)
                ends[('edge', ~i)] = (c, 1)
        self.paths = paths
        # ---- pieces ----
        piece_of_seg, piece_of_sector, piece_of_side = {}, {}, {}
        npieces = 0
        for t in T.triples:
            tokens = []
            for l in t:
                # Corner l: between prv[l] and l.  Going anticlockwise around the triangle's boundary, its strands
                # are met from the one nearest prv[l] to the one nearest l.
                es = sorted(ends.get(l, ()), reverse=True)
                for j, (pos, i) in enumerate(es):
                    tokens.append(('sector', l, len(es) - j))
                    tokens.append(('end', ('corner', i)))
                tokens.append(('sector', l, 0))
                if sk[norm(l)] < 0:
                    tokens.append(('wall', l))
                else:
                    for q in range(wt[l]):
                        tokens.append(('seg', l, q))
                        tokens.append(('end', ('side', l, q)))
                    tokens.append(('seg', l, wt[l]))
            where = {tok[1]: k for k, tok in enumerate(tokens) if tok[0] == 'end'}

            def partner(e):
                if e[0] == 'corner':
                    c, which = e[1]
                    p = paths[c]
                    for q in range(wt[p.word[0]] if which == 0 else wt[p.word[-1]]):
                        if which == 0 and point[(p.word[0], q)] == (c, 0, True): return ('side', p.word[0], q)
                        if which == 1 and point[(~p.word[-1], q)] == (c, len(p.word) - 1, False): return ('side', ~p.word[-1], q)
                    raise ModelError('lost end')
                _, l, q = e
                nt, tt, nh = counts[l]
                if q < nt:
                    m = T.prv[l]
                    return ('side', m, wt[m] - 1 - q)
                if q >= nt + tt:
                    m = T.nxt[l]
                    return ('side', m, wt[l] - 1 - q)
                c, k, out = point[(l, q)]
                return ('corner', (c, 0 if out else 1))
            seen = set()
            for k0, tok0 in enumerate(tokens):
                if tok0[0] == 'end' or k0 in seen: continue
                k = k0
                while k not in seen:
                    tok = tokens[k]
                    if tok[0] == 'end':
                        seen.add(('e', k))
                        # We arrive at this strand and follow it with the piece on our left.
                        e, f = tok[1], partner(tok[1])
                        # Travelling from e to f: which component, in which direction?
                        if e[0] == 'corner':
                            c, which = e[1]
                            piece_of_side[(c, +1 if which == 0 else -1)] = npieces
                        else:
                            c, _, out = point[(e[1], e[2])]
                            # At side point, entering the triangle through this side: forwards iff not out.
                            piece_of_side[(c, -1 if out else +1)] = npieces
                        k = (where[f] + 1) % len(tokens)
                        continue
                    seen.add(k)
                    if tok[0] == 'seg': piece_of_seg[(tok[1], tok[2])] = npieces
                    elif tok[0] == 'sector': piece_of_sector[(tok[1], tok[2])] = npieces
                    else:
                        # A wall: the edge arc traversed along l, with the piece on the left.
                        c = index[tuple(-1 if j == norm(tok[1]) else 0 for j in range(T.zeta))]
                        piece_of_side[(c, +1 if tok[1] >= 0 else -1)] = npieces
                    k = (k + 1) % len(tokens)
                npieces += 1
        parent = list(range(npieces))

        def find(x):
            while parent[x] != x:
                parent[x] = parent[parent[x]]
                x = parent[x]
            return x
        nsegs = []
        for i in range(T.zeta):
            if sk[i] < 0: continue
            for q in range(wt[i] + 1):
                x, y = piece_of_seg[(i, q)], piece_of_seg[(~i, wt[i] - q)]
                nsegs.append(x)
                parent[find(x)] = find(y)
        roots = sorted(set(find(x) for x in range(npieces)))
        ridx = {r: i for i, r in enumerate(roots)}
        self.regions = [{'chi': 0, 'punctures': [], 'circles': [], 'triangles': 0} for _ in roots]
        for x in range(npieces): self.regions[ridx[find(x)]]['chi'] += 1
        for x in nsegs: self.regions[ridx[find(x)]]['chi'] -= 1
        # ---- punctures and faces ----
        self.faces = []
        fans = []
        at = {}
        for v in range(len(T.vertices)):
            fan = vertex_fan(T, ends, v)
            fans.append(fan)
            es = [k for k, x in enumerate(fan) if x[0] == 'end']
            if not es:
                self.regions[ridx[find(piece_of_sector[(T.vertices[v][0], 0)])]]['punctures'].append(v)
            for k in es: at[fan[k][1]] = (v, k)
        used = set()
        for c, (m, p, v) in enumerate(self.comps):
            if p.closed:
                for s in (+1, -1):
                    self.regions[ridx[find(piece_of_side[(c, s)])]]['circles'].append(('curve', c, s))
                continue
            for s in (+1, -1):
                if (c, s) in used: continue
                sides, word = [], []
                cc, ss = c, s
                while (cc, ss) not in used:
                    used.add((cc, ss))
                    sides.append((cc, ss))
                    q = paths[cc]
                    word.extend(q.word if ss > 0 else reverse(q).word)
                    v0, k = at[(cc, 1 if ss > 0 else 0)]
                    fan = fans[v0]
                    # The face is on our left so turn clockwise around v0.
                    while True:
                        k = (k - 1) % len(fan)
                        if fan[k][0] == 'end': break
                        word.append(fan[k][1])  # Crossing edge l (out of v0) clockwise: from triangle(l) into triangle(~l).
                    cc, e = fan[k][1]
                    ss = +1 if e == 0 else -1
                region = ridx[find(piece_of_side[(c, s)])]
                self.regions[region]['circles'].append(('face', len(self.faces)))
                self.faces.append((sides, word, region))
        for r in self.regions:
            r['genus2'] = 2 - r['chi'] - len(r['punctures']) - len(r['circles'])
            if r['genus2'] % 2 or r['genus2'] < 0: raise ModelError('bad region')
            r['genus'] = r['genus2'] // 2

    def face_paths(self):
        '''The boundary curves of the arcs, as reduced closed paths (null-homotopic ones have empty words).'''
        return [reduce(self.T, Path(True, tuple(word), None, None)) for _, word, _ in self.faces]

    def boundary(self):
        '''The weights of the boundary of a regular neighbourhood.'''
        v = [0] * self.T.zeta
        for p in self.face_paths():
            for l in p.word: v[norm(l)] += 1
        for m, p, x in self.comps:
            if p.closed:
                for i in range(self.T.zeta): v[i] += 2 * m * x[i]
        return tuple(v)

    def is_disc(self, r):
        return r['genus'] == 0 and not r['punctures'] and len(r['circles']) == 1

    def is_punctured_disc(self, r):
        return r['genus'] == 0 and len(r['punctures']) == 1 and len(r['circles']) == 1

    def is_pants_surface(self, r):
        return r['genus'] == 0 and len(r['punctures']) == 3 and not r['circles']

    def fills(self):
        '''Whether no essential curve is disjoint from this lamination.'''
        if any(p.closed and not is_peripheral(self.T, p) for _, p, _ in self.comps): return False
        for r in self.regions:
            if any(x[0] == 'curve' for x in r['circles']) and self.is_punctured_disc(r): continue  # The inside of a peripheral curve.
            ends = len(r['punctures']) + len(r['circles'])
            if r['genus'] or ends > 3: return False
            if ends == 3:
                # Pants: every boundary-parallel curve must be peripheral.
                bad = 0
                for x in r['circles']:
                    if x[0] == 'curve': continue  # Peripheral, as there are no others.
                    p = reduce(self.T, Path(True, tuple(self.faces[x[1]][1]), None, None))
                    if p.word and not is_peripheral(self.T, p): bad += 1
                if bad: return False
            elif ends == 2:
                for x in r['circles']:
                    if x[0] == 'curve': continue
                    p = reduce(self.T, Path(True, tuple(self.faces[x[1]][1]), None, None))
                    if p.word and not is_peripheral(self.T, p): return False
        return True

    def polygonalises(self):
        '''Whether every complementary region is a disc whose boundary is made of arcs (no curves at all).'''
        return all(not p.closed for _, p, _ in self.comps) and all(self.is_disc(r) for r in self.regions)

    def graph(self, closed=False):
        '''A labelled digraph whose isomorphism class is that of the lamination under the mapping class group.'''
        import networkx
        G = networkx.MultiDiGraph()
        for i, r in enumerate(self.regions):
            G.add_node(('r', i), a=('region', r['genus'], len(r['punctures'])))
            for x in r['circles']:
                if x[0] == 'curve':
                    G.add_node(('s', x[1], x[2]), a=('curve side',))
                    G.add_edge(('r', i), ('s', x[1], x[2]))
                else:
                    G.add_node(('f', x[1]), a=('face',))
                    G.add_edge(('r', i), ('f', x[1]))
                    sides = self.faces[x[1]][0]
                    for k, s in enumerate(sides):
                        G.add_node(('s',) + s, a=('arc side',))
                        G.add_edge(('f', x[1]), ('s',) + s)
                    for k, s in enumerate(sides):
                        G.add_edge(('s',) + s, ('s',) + sides[(k + 1) % len(sides)])
        for c, (m, p, v) in enumerate(self.comps):
            G.add_node(('c', c), a=('curve' if p.closed else 'arc', m))
            G.add_edge(('c', c), ('s', c, 1))
            G.add_edge(('c', c), ('s', c, -1))
        return G


def same_type(G, H):
    import networkx
    if sorted(d['a'] for _, d in G.nodes(data=True)) != sorted(d['a'] for _, d in H.nodes(data=True)): return False
    return networkx.algorithms.isomorphism.MultiDiGraphMatcher(G, H, node_match=lambda a, b: a['a'] == b['a']).is_isomorphic()


def closed_type(R):
    '''The type after filling in every puncture, for a lamination with no arcs and surfaces with one puncture per component.

    Returns a networkx MultiGraph: nodes are regions (labelled by genus), edges are curves (labelled by weight),
    or torus components {'torus', weight}.'''
    import networkx
    G = networkx.MultiGraph()
    side = {}
    drop = set(c for c, (m, p, v) in enumerate(R.comps) if is_peripheral(R.T, p))
    for i, r in enumerate(R.regions):
        for x in r['circles']: side[(x[1], x[2])] = i
    # Merge the regions either side of dropped curves.
    parent = list(range(len(R.regions)))

    def find(x):
        while parent[x] != x: x = parent[x]
        return x
    for c in drop: parent[find(side[(c, 1)])] = find(side[(c, -1)])
    for i in range(len(R.regions)):
        if find(i) == i:
            G.add_node(i, a=sum(R.regions[j]['genus'] for j in range(len(R.regions)) if find(j) == i))
    for c, (m, p, v) in enumerate(R.comps):
        if c not in drop: G.add_edge(find(side[(c, 1)]), find(side[(c, -1)]), w=m)
    extra = []
    while True:
        n = next((n for n in G.nodes if G.nodes[n]['a'] == 0 and G.degree(n) == 2), None)
        if n is None: break
        es = list(G.edges(n, data=True))
        if len(es) == 1:  # A loop.
            extra.append(es[0][2]['w'])
            G.remove_node(n)
            continue
        (_, a, da), (_, b, db) = es
        G.remove_node(n)
        G.add_edge(a, b, w=da['w'] + db['w'])
    for k, x in enumerate(extra): G.add_node(('torus', k), a=('torus', x))
    H = networkx.Graph()
    for n, d in G.nodes(data=True): H.add_node(('n', n), a=str(d['a']))
    for k, (x, y, d) in enumerate(G.edges(data=True)):
        H.add_node(('e', k), a='w' + str(d['w']) + ('loop' if x == y else ''))
        H.add_edge(('e', k), ('n', x))
        H.add_edge(('e', k), ('n', y))
    return H


def same_closed_type(G, H):
    import networkx
    return networkx.is_isomorphic(G, H, node_match=lambda a, b: a['a'] == b['a'])
