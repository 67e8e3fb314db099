"""Reference semantics of functions: second-order jets.

A Jet is an ndarray value together with its exact first and second derivatives with respect to every
entry of every parameter.  It is the reference interpreter for the expression language of exprs.py;
nothing of the code under test is used here.

    v : shape F + D      (F feature axes, D the last nd axes)
    g : (P,)  + shape
    h : (P, P) + shape
"""
import math
import numpy as np


class Jet(object):
    __slots__ = ("v", "g", "h", "nd")

    def __init__(self, v, g, h, nd=0):
        self.v, self.g, self.h, self.nd = v, g, h, nd

    @property
    def nf(self):
        return self.v.ndim - self.nd


def const(v, P, nd=0):
    v = np.asarray(v, dtype=float)
    return Jet(v, np.zeros((P,) + v.shape), np.zeros((P, P) + v.shape), nd)


def params_jets(arrs):
    arrs = [np.asarray(a, dtype=float) for a in arrs]
    P = sum(a.size for a in arrs)
    out, k = [], 0
    for a in arrs:
        g = np.zeros((P,) + a.shape)
        for idx in np.ndindex(*a.shape):
            g[(k,) + idx] = 1.0
            k += 1
        out.append(Jet(a, g, np.zeros((P, P) + a.shape)))
    return out, P


def amap(j, f, nf=None, nd=None):
    """apply a linear rearrangement f (acting on trailing axes) to v, g, h"""
    P = j.g.shape[0]
    v = f(j.v)
    g = np.stack([f(x) for x in j.g]) if P else np.zeros((0,) + v.shape)
    h = np.stack([np.stack([f(x) for x in r]) for r in j.h]) if P else np.zeros((0, 0) + v.shape)
    return Jet(v, g, h, j.nd if nd is None else nd)


def align(j, nf, nd):
    a, b = j.nf, j.nd
    if (a, b) == (nf, nd):
        return j
    assert a in (0, nf) and b in (0, nd), (a, b, nf, nd)
    sh = j.v.shape
    s = ((1,) * nf if a == 0 else sh[:a]) + ((1,) * nd if b == 0 else sh[a:])
    P = j.g.shape[0]
    return Jet(j.v.reshape(s), j.g.reshape((P,) + s), j.h.reshape((P, P) + s), nd)


def _pair(a, b):
    nf, nd = max(a.nf, b.nf), max(a.nd, b.nd)
    return align(a, nf, nd), align(b, nf, nd), nd


def add(a, b):
    a, b, nd = _pair(a, b)
    return Jet(a.v + b.v, a.g + b.g, a.h + b.h, nd)


def scale(a, w, c=0.0):
    return Jet(w * a.v + c, w * a.g, w * a.h, a.nd)


def affine(j, w, c=0.0):
    """w * j + c where w and c are numbers, or arrays over the last feature axes"""
    def al(x):
        x = np.asarray(x, dtype=float)
        return x.reshape(x.shape + (1,) * j.nd) if x.ndim else x
    w, c = al(w), al(c)
    assert w.ndim <= j.v.ndim and c.ndim <= j.v.ndim
    return Jet(w * j.v + c, w * j.g, w * j.h, j.nd)


def mul(a, b):
    a, b, nd = _pair(a, b)
    ga, gb = a.g, b.g
    return Jet(a.v * b.v, ga * b.v + a.v * gb,
               a.h * b.v + a.v * b.h + ga[:, None] * gb[None] + gb[:, None] * ga[None], nd)


def unary(j, f0, f1, f2):
    return Jet(f0, f1 * j.g, f1 * j.h + f2 * j.g[:, None] * j.g[None], j.nd)


def power(j, k):
    """integer power"""
    v = j.v
    f1 = k * v ** (k - 1) if k > 0 else 0.0 * v
    f2 = k * (k - 1) * v ** (k - 2) if k > 1 else 0.0 * v
    return unary(j, v ** k, f1, f2)


def recip(j):
    return unary(j, 1 / j.v, -1 / j.v ** 2, 2 / j.v ** 3)


def exp(j):
    e = np.exp(j.v)
    return unary(j, e, e, e)


def log(j):
    return unary(j, np.log(j.v), 1 / j.v, -1 / j.v ** 2)


def stack(js, nd):
    """stack jets of equal shape along a new last axis (one more extra dimension)"""
    sh = np.broadcast_shapes(*[j.v.shape for j in js])
    P = js[0].g.shape[0]
    return Jet(np.stack([np.broadcast_to(j.v, sh) for j in js], -1),
               np.stack([np.broadcast_to(j.g, (P,) + sh) for j in js], -1),
               np.stack([np.broadcast_to(j.h, (P, P) + sh) for j in js], -1), nd)


def expand_axes(j, feat_map, n_feat, dim_map, n_dim):
    nf, nd = j.nf, j.nd
    assert len(feat_map) == nf and len(dim_map) == nd, (feat_map, dim_map, nf, nd)

    def f(v):
        fo = sorted(range(nf), key=lambda i: feat_map[i])
        do = sorted(range(nd), key=lambda i: dim_map[i])
        v = v.transpose(fo + [nf + i for i in do])
        idx = [slice(None) if k in feat_map else None for k in range(n_feat)]
        idx += [slice(None) if k in dim_map else None for k in range(n_dim)]
        return v[tuple(idx)]
    return amap(j, f, nd=n_dim)


def flip(j, axes):
    return amap(j, lambda v: np.flip(v, axes) if axes else v)


def sum_axes(j, axes, nd):
    axes = tuple(axes)
    return amap(j, lambda v: v.sum(axis=axes) if axes else v, nd=nd)


# ------------------------------------------------------------------------------------------------
# interpreter of expressions
# ------------------------------------------------------------------------------------------------

def ev(e, args, P):
    """value of expression e on the list of jets args; P = number of differentiation variables"""
    k = e[0]
    if k == "Twin":
        return ev(e[1], args, P)
    if k == "Turn":     # feature axes in the opposite order (only functions a user writes do this)
        j = ev(e[1], args, P)
        return amap(j, lambda v: v.transpose(list(range(j.nf))[::-1] + list(range(j.nf, v.ndim))))
    if k in ("X", "Scalar"):
        return args[0]
    if k == "Exp":
        return exp(args[0])
    if k == "Log":
        return log(args[0])
    if k == "Logistic":
        j = args[0]
        s = 1 / (1 + np.exp(-j.v))
        return unary(j, s, s * (1 - s), s * (1 - s) * (1 - 2 * s))
    if k == "ArcTan" or k == "SigAtan":
        j = args[0]
        q = 1 + j.v ** 2
        r = unary(j, np.arctan(j.v), 1 / q, -2 * j.v / q ** 2)
        return scale(r, 1 / math.pi, 0.5) if k == "SigAtan" else r
    if k == "Vec":
        return mul(args[0], const(e[1], P))
    if k == "Const":
        return const(e[1], P)
    if k == "Quad":
        u, s = np.asarray(e[1], dtype=float), np.asarray(e[2], dtype=float)
        r = const(0.0, P)
        for j in args:
            z = affine(j, 1.0 / s, -u / s)
            q = mul(z, z)
            r = add(r, sum_axes(q, range(q.v.ndim), 0))
        return r
    if k == "Lin":
        r = const(0.0, P)
        for w, j in zip(e[1], args):
            q = affine(j, w)
            r = add(r, sum_axes(q, range(q.v.ndim), 0))
        return r
    if k == "Poisson":
        j = args[0]
        assert j.nd == 0
        return stack([scale(power(j, x), 1.0 / math.factorial(x)) for x in range(e[1])], 1)
    if k in ("LNB", "NB"):
        size, r = e[1], e[2]
        j = args[0]
        assert j.nd == 0
        out = []
        for x in range(size):
            c = math.lgamma(r + x) - math.lgamma(r) - math.lgamma(x + 1) + r * math.log(r)
            t = scale(log(j), x, c)
            out.append(add(t, scale(log(scale(j, 1.0, r)), -(x + r))))
        res = stack(out, 1)
        return exp(res) if k == "NB" else res
    if k == "Aff":
        return affine(ev(e[1], args, P), e[2], e[3])
    if k == "op":
        j = ev(e[1], args, P)
        o, a = e[2], e[3]
        a = a if a is None else np.asarray(a, dtype=float)
        return {"+": lambda: affine(j, 1, a), "r+": lambda: affine(j, 1, a), "-": lambda: affine(j, 1, -a),
                "r-": lambda: affine(j, -1, a), "*": lambda: affine(j, a), "r*": lambda: affine(j, a),
                "/": lambda: affine(j, 1.0 / a), "neg": lambda: affine(j, -1)}[o]()
    if k == "Comp":
        return ev(e[1], [ev(g, args, P) for g in e[2]], P)
    if k in ("Sum", "Prod"):
        nf, nd = e[1], e[2]
        acc = None
        for at in e[3]:
            f, pm, fm, dm = at[:4]
            dm = dm or []
            w = at[4] if len(at) > 4 else 1.0
            j = ev(f, [args[i] for i in pm], P)
            j = scale(expand_axes(j, fm, nf, dm, nd), w)
            acc = j if acc is None else add(acc, j) if k == "Sum" else mul(acc, j)
        return acc
    if k == "Coll":
        j = ev(e[1], args, P)
        nf = j.nf
        sv = list(range(nf)) if e[2] is True else [] if e[2] is False else \
            [e[2]] if isinstance(e[2], int) else list(e[2])
        ax = sv + (list(range(nf, nf + j.nd)) if e[3] else [])
        return sum_axes(j, ax, 0 if e[3] else j.nd)
    if k == "Wrap":
        f, pm, fm, nf, dm, nd, fl = e[1:]
        j = ev(f, [args[i] for i in pm], P)
        j = expand_axes(j, fm, nf, range(nd) if dm is None else dm, nd)
        return flip(j, tuple(fl or ()))
    if k == "MV":
        return markov_vector(args[0], args[1], e[1], e[2], e[3], P)
    if k == "MM":
        return markov_matrix(args[0], args[1], e[1], e[2], e[3], P)
    if k == "CM":
        j = args[0]
        R, C = j.v.shape[-2:]
        out = []
        for x, y, c, s in (e[1] or [(1, -1, 0, 1), (1, -1, 0, 0), (1, -1, 0, -1)]):
            m = np.array([[float(np.sign(x * a + y * b + c) == s) for b in range(C)] for a in range(R)])
            out.append(amap(j, lambda v: (v * m).sum((-1, -2)), nd=0))
        return stack(out, 1)
    if k in ("Game", "TB", "Set"):
        from . import tennis
        return tennis.evaluate(k, args, P)
    raise ValueError(e)


# ------------------------------------------------------------------------------------------------
# score processes: explicit-state enumeration, one transition at a time
# ------------------------------------------------------------------------------------------------

def run_chain(start, transitions, steps, P):
    """dist over states after `steps` steps.  transitions(state) -> list of (prob jet, next state);
    the remaining probability stays."""
    dist = {start: None}        # None: probability one
    for _ in range(steps):
        nxt = {}
        for s, p in dist.items():
            out = transitions(s)
            stay = None
            for q, t in out:
                stay = scale(q, -1.0, 1.0) if stay is None else add(stay, scale(q, -1.0))
                m = q if p is None else mul(p, q)
                nxt[t] = m if t not in nxt else add(nxt[t], m)
            m = stay if p is None else mul(p, stay)
            nxt[s] = m if s not in nxt else add(nxt[s], m)
        dist = nxt
    return dist


def markov_matrix(a, b, size, steps, skew, P):
    """two independent scorers; per step player 1 scores with probability a/steps * skew[x][y], player 2
    with b/steps * skew[y][x]; scores are capped at size - 1"""
    a, b = scale(a, 1.0 / steps), scale(b, 1.0 / steps)

    def tr(s):
        x, y = s
        f1 = 1.0 if skew is None else skew[x][y]
        f2 = 1.0 if skew is None else skew[y][x]
        return [(scale(a, f1), (min(x + 1, size - 1), y)), (scale(b, f2), (x, min(y + 1, size - 1)))]
    d = run_chain((0, 0), tr, steps, P)
    zero = scale(a, 0.0)
    rows = [stack([d.get((x, y)) if d.get((x, y)) is not None else zero for y in range(size)], 1)
            for x in range(size)]
    # rows[x]: F + (size,); put x before y
    v = np.stack([r.v for r in rows], -2)
    g = np.stack([r.g for r in rows], -2)
    h = np.stack([r.h for r in rows], -2)
    return Jet(v, g, h, 2)


def markov_vector(a, b, size, steps, skew, P):
    """score difference in -(size-1) .. size-1, capped"""
    a, b = scale(a, 1.0 / steps), scale(b, 1.0 / steps)
    top = 2 * size - 2

    def tr(x):
        f1 = 1.0 if skew is None else skew[x]
        f2 = 1.0 if skew is None else skew[top - x]
        return [(scale(a, f1), min(x + 1, top)), (scale(b, f2), max(x - 1, 0))]
    d = run_chain(size - 1, tr, steps, P)
    zero = scale(a, 0.0)
    return stack([d[x] if d.get(x) is not None else zero for x in range(top + 1)], 1)
