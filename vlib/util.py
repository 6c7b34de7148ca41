'''Translating between curver's objects and the model's.'''

import curver
from vlib import model as M
from vlib import gen


def vec(L):
    return tuple(L.geometric)


def comp_map(L):
    return {vec(c): m for c, m in L.components().items()}


def model_comp_map(T, w):
    return {v: m for v, (m, p) in M.components(T, w).items()}


def class_name(comps):
    '''The finest class of the lamination with these components (in the format of M.components).'''
    if not comps: return 'IntegralLamination'
    closed = [p.closed for _, p in comps.values()]
    single = len(comps) == 1 and sum(m for m, _ in comps.values()) == 1
    if all(closed): return 'Curve' if single else 'MultiCurve'
    if not any(closed): return 'Arc' if single else 'MultiArc'
    return 'IntegralLamination'


def tri(CT):
    return gen.from_curver(CT)


def same_tri(CT, T):
    return tri(CT).key() == T.key()


def apply_moves(T, w, encoding):
    '''Map weights through the moves of a Mapping with the model, using only what kind of move each of them is.

    Twists and half-twists are drawn: so this is only for laminations of small weight.'''
    for move in reversed(list(encoding)):
        T, w = apply_move(T, w, move)
    return T, w


def apply_move(T, w, move):
    try:
        return _apply_move(T, w, move)
    except AttributeError as e:
        raise M.ModelError(f'cannot read this move: {e}') from e


def _apply_move(T, w, move):
    k = curver.kernel
    if isinstance(move, k.EdgeFlip):
        e = move.edge.label
        return M.flip_tri(T, e), M.flip_weights(T, e, w)
    if isinstance(move, k.MultiEdgeFlip):
        for e in sorted(x.label for x in move.edges):
            T, w = M.flip_tri(T, e), M.flip_weights(T, e, w)
        return T, w
    if isinstance(move, k.Isometry):
        m = dict(move.label_map)
        return M.relabel_tri(T, m), M.relabel_weights(T, m, w)
    if isinstance(move, k.Twist):
        [(_, c)] = M.components(T, vec(move.curve)).values()
        return T, M.weights_of(T, [(m, M.twist_path(T, c, move.power, p)) for m, p in M.components(T, w).values()])
    if isinstance(move, k.HalfTwist):
        l = next(i for i in range(T.zeta) if vec(move.arc)[i] < 0)
        return T, M.weights_of(T, [(m, M.halftwist_path(T, l, move.power, p)) for m, p in M.components(T, w).values()])
    raise M.ModelError('unknown move')
