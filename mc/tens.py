"""Reference denotation of tensors.

A tensor structure is described by the sizes of its four index groups

    x  first parameter space      y  second parameter space
    n  feature ("value") space    d  extra dimensions

plus, for every x (y) axis, the feature axis it is tied to ("mapped": non-zero only where the two
indices coincide) or -1.  The reference model of a tensor is simply the dense ndarray of shape
x + y + n + d, together with the four ranks.  Everything here is independent of the code under test
(only Tensor's constructor, toarray() and the four rank attributes are used).
"""
import itertools
from array import array
import numpy as np


def generic_values(shape, salt, positive=False):
    """Deterministic values in general position: never 0 or +-1, distinct for all cells of interest."""
    size = int(np.prod(shape, dtype=int))
    k = np.arange(size, dtype=np.int64)
    u = ((k + 1) * 7919 + (salt + 1) * 104729 + (k * k + 3) * (salt * 31 + 17)) % 9973
    v = 1.25 + u / 9973.0 * 1.5                 # in (1.25, 2.75)
    if not positive:
        v = np.where(((k * 5 + salt * 3) % 7) < 3, -v, v)
    return v.reshape(shape)


REGIMES = ("tiny", "huge", "mixed", "holes", "zero", "ones", "int")


def regime(v, r, salt=0):
    """values that are not in general position: r names their magnitude or their special values"""
    k = np.arange(v.size).reshape(v.shape)
    if r is None:
        return v
    if r == "tiny":
        return v * 1e-11
    if r == "huge":
        return v * 1e11
    if r == "mixed":            # from 1e-14 to 1e14
        return v * 10.0 ** ((k * 11 + 5 * salt) % 29 - 14)
    if r == "holes":
        return np.where((k + salt) % 2, 0, v)
    if r == "zero":
        return v * 0.0
    if r == "ones":
        return np.ones(v.shape)
    if r == "int":
        return (k * 3 + salt) % 5 - 2
    raise ValueError(r)


def expand_map(D, q, p, mapping):
    """Multiply by the identity between axis q + k and axis p + mapping[k]."""
    for k, f in enumerate(mapping or ()):
        if f < 0:
            continue
        n = D.shape[p + f]
        shape = [1] * D.ndim
        shape[q + k] = n
        shape[p + f] = n
        D = D * np.eye(n).reshape(shape)
    return D


def build(desc):
    """-> (object for the code under test, dense reference, ranks)"""
    from maxlike import Tensor
    kind = desc.get("k", "T")
    if kind == "S":                                     # python scalar
        return desc["v"], np.asarray(float(desc["v"])), (0, 0, 0, 0)
    if kind == "0":                                     # 0-d tensor
        return Tensor(desc["v"]), np.asarray(float(desc["v"])), (0, 0, 0, 0)
    if kind == "A":                                     # plain ndarray over features
        n = desc["n"]
        v = regime(generic_values(n, desc["s"], desc.get("pos", False)), desc.get("rg"), desc["s"])
        return v.copy(), v, (0, 0, len(n), 0)
    x, y, n, d = desc["x"], desc["y"], desc["n"], desc["d"]
    xm, ym = desc.get("xm"), desc.get("ym")
    xs = [1 if xm and xm[k] >= 0 else s for k, s in enumerate(x)]
    ys = [1 if ym and ym[k] >= 0 else s for k, s in enumerate(y)]
    v = regime(generic_values(tuple(xs + ys + list(n) + list(d)), desc["s"], desc.get("pos", False)),
               desc.get("rg"), desc["s"])
    p = len(x) + len(y)
    D = expand_map(v, 0, p, xm)
    D = expand_map(D, len(x), p, ym)
    t = Tensor(v.copy(), len(x), len(y), len(d),
               array('b', xm) if xm else None, array('b', ym) if ym else None)
    return t, D, (len(x), len(y), len(n), len(d))


def align(D, ranks, target):
    """Insert size-1 axes for the index groups that are absent."""
    if tuple(ranks) == tuple(target):
        return D
    idx = []
    for r, t in zip(ranks, target):
        if r == t:
            idx += [slice(None)] * t
        elif r == 0:
            idx += [None] * t
        else:
            raise ValueError("cannot align %s to %s" % (ranks, target))
    return D[tuple(idx)]


def ranks_of(t):
    return (t.x_dim, t.y_dim, t.n, t.dim)


def is_tensor(t):
    return hasattr(t, "toarray")


def dense(t):
    """Dense array and ranks of a result of the code under test."""
    if is_tensor(t):
        arr = np.asarray(t.toarray(), dtype=float)
        return arr, ranks_of(t)
    arr = np.asarray(t, dtype=float)
    return arr, (0, 0, arr.ndim, 0)


def spread(ref, exact=False):
    """absolute tolerance for values of any magnitude; exact: no cell is a sum"""
    return 0.0 if exact else 1e-12 * float(np.max(np.abs(ref), initial=0))


def mismatch(res, ref, ranks, tol=1e-9, atol=1e-10):
    """None when the result denotes ref, else a message.  A result may use size-1 axes for axes along
    which it is constant, and a bare scalar stands for a constant tensor; a null result may lack groups of axes."""
    arr, rr = dense(res)
    if arr.ndim != sum(rr):
        return "result of rank %d announces ranks %s" % (arr.ndim, rr)
    if arr.ndim == 0:
        arr = arr.reshape((1,) * ref.ndim)
    elif tuple(rr) != tuple(ranks):
        if not arr.any() and not ref.any() and all(a in (0, b) for a, b in zip(rr, ranks)):
            return None
        return "result ranks (x,y,n,dim) %s, expected %s" % (rr, tuple(ranks))
    if any(a != r and a != 1 for a, r in zip(arr.shape, ref.shape)):
        return "result shape %s, expected %s" % (arr.shape, ref.shape)
    bad = ~np.isclose(np.broadcast_to(arr, ref.shape), ref, rtol=tol, atol=atol, equal_nan=False)
    if bad.any():
        i = tuple(int(v[0]) for v in np.nonzero(bad)) if ref.ndim else ()
        return "cell %s is %r, expected %r (%d of %d cells differ)" % (
            list(i), float(np.broadcast_to(arr, ref.shape)[i]), float(ref[i]), int(bad.sum()), bad.size)
    return None


def partial_injections(m, sizes_from, sizes_to, partial=True):
    """All maps of m axes (sizes sizes_from) into axes sizes_to, injective, size-respecting."""
    out = []
    opts = [[-1] + [f for f, s in enumerate(sizes_to) if s == sizes_from[k]] for k in range(m)]
    for c in itertools.product(*opts):
        used = [f for f in c if f >= 0]
        if len(set(used)) != len(used):
            continue
        if not used:
            continue
        if not partial and len(used) != m:
            continue
        out.append(list(c))
    return out


def structures(xs, ys, ns, ds, partial=False):
    """Every structure over the given size tuples (lists of alternatives)."""
    out = []
    for n in ns:
        for d in ds:
            for x in xs:
                for y in ys:
                    for xm in [None] + partial_injections(len(x), x, n, partial):
                        for ym in [None] + partial_injections(len(y), y, n, partial):
                            out.append({"x": list(x), "y": list(y), "n": list(n), "d": list(d),
                                        "xm": xm, "ym": ym})
    return out


def compatible(a, b):
    for g in "xynd":
        if a[g] and b[g]:
            if len(a[g]) != len(b[g]):
                return False
            for s, t in zip(a[g], b[g]):
                if s != t and not (g in "n" and 1 in (s, t)):
                    return False
    return True


def signature(t):
    """Canonical structural state of a tensor of the code under test (control flow of the algebra
    depends on it and not on the generic values)."""
    if not is_tensor(t):
        return ("scalar",)
    els = getattr(t, "elements", None)
    if els is not None:
        return ("G",) + ranks_of(t) + (tuple(sorted(repr(signature(e)) for e in els)),)
    v = getattr(t, "values", None)
    return ("T",) + ranks_of(t) + (
        tuple(np.shape(v)), tuple(getattr(t, "x_map", ())), tuple(getattr(t, "y_map", ())))
