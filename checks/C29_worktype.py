"""C29: the working type chosen by set_dtype is the type of the tensors made from then on, and changes nothing else."""
import itertools
import operator
import numpy as np
from mc import exprs, funcs, tens
from mc.core import Outcome

PROPERTY = "C29"
RULE = ("Every word of calls of set_dtype (by name, by type, unknown names) up to the length bound; after each call new "
        "tensors are made, and every operation is applied to every pair of tensors made so far, in whatever type. The "
        "reference machine has one state, the working type: results have that type (or are one of the operands) and are "
        "the results of 64-bit arithmetic up to the precision of the types involved, earlier tensors keep their types and "
        "values, an explicit type of a tensor wins. Functions are evaluated in every type, and again after switching back, "
        "where the results are the exact ones of before.")
ASSUMPTIONS = ["entries are small integers (exact in every type) for the operations on tensors; in integer types only "
               "additions, subtractions, products, sums and structural operations",
               "functions: float32 and float64; results within 2e-3 of 64-bit ones in float32"]
SET = {"float32": np.float32, "float64": np.float64, "Float32": np.float32, "INT64": np.int64, "int32": np.int32,
       "type float32": np.float32, "type float64": np.float64, "type int64": np.int64, "decimal": None}
LONG = ("float32", "float64", "INT64", "decimal")
DESC = [{"x": [], "y": [], "n": [2, 3], "d": []}, {"x": [2], "y": [], "n": [2, 3], "d": [], "xm": [0]},
        {"x": [2], "y": [2], "n": [2, 3], "d": [], "xm": [0], "ym": [0]}, {"x": [2], "y": [], "n": [2, 3], "d": [2]},
        {"x": [], "y": [], "n": [], "d": []}, {"x": [2], "y": [3], "n": [2, 3], "d": [], "ym": [1]}]
STEP = {"quick": 23, "thorough": 3}


def bounds(tier):
    return {"calls": sorted(SET), "words": "all up to length 2; over %s up to length 3%s" % (
        LONG, "" if tier == "quick" else "; all up to length 3"), "tensors": DESC,
        "functions": "all leaf functions, every %d-th expression of the families of C04" % STEP[tier], "tier": tier}


def groups(tier):
    return [{"k": "tensor", "i": i, "tier": tier} for i in range(len(DESC))] + \
        [{"k": "func", "f": f, "c": c, "tier": tier} for f in ["plain"] + sorted(exprs.FAMILIES) for c in range(2)]


def expand(g):
    if g["k"] == "func":
        if g["f"] == "plain":
            it = (exprs.typed(e, p) for e, p, f, d in exprs.leaves() if p)
        else:
            it = itertools.islice((te for te in exprs.FAMILIES[g["f"]](g["tier"]) if te["p"]), 0, None, STEP[g["tier"]])
        for te in itertools.islice(it, g["c"], None, 2):
            yield dict(te, k="func")
        return
    for n in (1, 2, 3):
        for w in itertools.product(sorted(SET) if n < 3 or g["tier"] == "thorough" else LONG, repeat=n):
            yield {"k": "tensor", "i": g["i"], "w": list(w)}


def values(desc, salt):
    shape = [1 if desc.get(m) and desc[m][k] >= 0 else s for g, m in (("x", "xm"), ("y", "ym"))
             for k, s in enumerate(desc[g])] + list(desc["n"]) + list(desc["d"])
    n = int(np.prod(shape, dtype=int))
    v = 2 + (np.arange(n) * 3 + salt * 5 + np.arange(n) ** 2) % 4.
    return np.where((np.arange(n) + salt) % 3 == 1, -v, v).reshape(shape)


def tensor(desc, salt, **kw):
    from array import array
    from maxlike import Tensor
    m = [array('b', desc[k]) if desc.get(k) else None for k in ("xm", "ym")]
    return Tensor(values(desc, salt), len(desc["x"]), len(desc["y"]), len(desc["d"]), m[0], m[1], **kw)


def dense(desc, salt):
    v, p = values(desc, salt), len(desc["x"]) + len(desc["y"])
    return tens.expand_map(tens.expand_map(v, 0, p, desc.get("xm")), len(desc["x"]), p, desc.get("ym"))


def unary(desc, t, D):
    """(name, result, dense result) of one tensor"""
    q = (len(desc["x"]), len(desc["y"]), len(desc["n"]), len(desc["d"]))
    p = q[0] + q[1]
    yield "neg", lambda: -t, -D
    yield "sum", lambda: t.sum(), D.sum(tuple(range(p, D.ndim)))
    yield "sum of the values", lambda: t.sum(True, False), D.sum(tuple(range(p, p + q[2])))
    yield "sum of the dimensions", lambda: t.sum(False, True), D.sum(tuple(range(p + q[2], D.ndim)))
    yield "+ 3", lambda: t + 3, D + 3
    yield "3 -", lambda: 3 - t, 3 - D
    yield "* 2", lambda: t * 2, D * 2
    if q[2]:
        where = list(range(q[2]))[::-1]
        yield "expand", lambda: t.expand(where, q[2]), np.moveaxis(D, range(p, p + q[2]), [p + w for w in where])
        A = np.array([[1., -2, 3], [2, 4, -1]])
        yield "* array", lambda: t * A, D * A.reshape((1,) * p + A.shape + (1,) * q[3])
        yield "array -", lambda: A - t, A.reshape((1,) * p + A.shape + (1,) * q[3]) - D
        if not desc.get("xm") and not desc.get("ym"):
            yield "flip", lambda: t.flip([1]), np.flip(D, p + 1)
    yield "transpose", lambda: t.transpose(), np.moveaxis(D, range(q[0]), range(q[1], p))
    yield "** 2", lambda: t ** 2, D ** 2
    if not p:
        yield "square", lambda: np.square(t), D ** 2
        yield "maximum", lambda: np.maximum(t, 1), np.maximum(D, 1)


def check(case):
    from maxlike.tensor import set_dtype
    set_dtype(np.float64)
    try:
        return check_func(case, set_dtype) if case["k"] == "func" else check_tensor(case, set_dtype)
    finally:
        set_dtype(np.float64)


def check_tensor(case, set_dtype):
    desc = DESC[case["i"]]
    W = np.float64
    made = [(tensor(desc, 0), dense(desc, 0), W)]       # tensor, dense, type
    st, n = [], 0
    for i, s in enumerate(case["w"]):
        try:
            set_dtype(SET[s] if s.startswith("type ") else s)
        except Exception:
            if SET[s] is not None:
                raise
        else:
            if SET[s] is None:
                return Outcome(st, n, "the type %r is accepted" % s, "unknown")
            W = SET[s]
        made.append((tensor(desc, i + 1), dense(desc, i + 1), W))
        st.append((case["i"], tuple(case["w"][:i + 1])))
        if i < len(case["w"]) - 1:
            continue
        made.append((tensor(desc, i + 2, dtype=np.float32), dense(desc, i + 2), np.float32))
        for k, (t, D, w) in enumerate(made):
            n += 1
            if t.values.dtype != w:
                return Outcome(st, n, "after %s tensor %d has type %s, expected %s" % (case["w"], k, t.values.dtype, w), "type")
            if not np.array_equal(t.toarray(), D):
                return Outcome(st, n, "after %s tensor %d has changed" % (case["w"], k), "value")
            todo = list(unary(desc, t, D))
            for u, E, _ in made:
                for o in (operator.add, operator.sub, operator.mul):
                    todo.append((o.__name__, lambda o=o, u=u: o(t, u), o(D, E)))
                if W in (np.float32, np.float64) and not desc.get("xm") and not desc.get("ym"):
                    todo.append(("truediv", lambda u=u: t / u, D / E))
            for name, f, ref in todo:
                r = f()
                n += 1
                if not tens.is_tensor(r):
                    return Outcome(st, n, "%s is no tensor" % name, name)
                got = np.asarray(r.toarray(), float)
                if got.shape != ref.shape and got.ndim:
                    return Outcome(st, n, "%s has shape %s, expected %s" % (name, got.shape, ref.shape), name)
                if not np.allclose(got, ref, rtol=1e-5, atol=1e-6) or \
                        name != "truediv" and not np.array_equal(np.broadcast_to(got, ref.shape), ref):
                    return Outcome(st, n, "after %s, %s of tensor %d: %s, expected %s" % (
                        case["w"], name, k, got.tolist(), ref.tolist()), name)
                v = getattr(r, "values", None)          # sums of tensors have none
                if v is not None and r is not t and v.dtype != W:
                    return Outcome(st, n, "after %s, %s of tensor %d has type %s" % (case["w"], name, k, v.dtype),
                                   "type of " + name)
    return Outcome(st, n, observed=(case["i"], np.dtype(W).name))


def check_func(case, set_dtype):
    vals = exprs.params_of(case)
    jet, P = exprs.reference(case, vals)
    key = (repr(case["e"]), repr(case["p"]))
    f = exprs.make(case["e"])
    first, st, n = [], [], 0
    for turn, (W, tol) in enumerate(((np.float64, 1e-9), (np.float32, 2e-3), (np.float64, 1e-9), (np.float32, 2e-3))):
        set_dtype(W)
        g = f if turn < 2 else exprs.make(case["e"])        # also a function made while the type was another one
        if turn == 1:
            old = exprs.make(case["e"])
        elif turn == 2:
            g = old
        st.append(key + (turn,))
        k = 0
        for name, msg, r in results(g, vals, jet, tol):
            n += 1
            if msg:
                return Outcome(st, n, "%s in %s (turn %d): %s" % (name, np.dtype(W).name, turn, msg), name)
            a = np.asarray(r.toarray() if tens.is_tensor(r) else r, float)
            if turn == 0:
                first.append(a)
            elif turn == 2 and (a.shape != first[k].shape or not np.allclose(a, first[k], rtol=1e-12, atol=1e-13)):
                return Outcome(st, n, "%s is another one after switching to float32 and back" % name, "back " + name)
            k += 1
    return Outcome(st, n, observed=tuple(np.round(jet.v.reshape(-1)[:4], 6)))


def close(r, ref, ranks, tol):
    scale = max(1., float(np.abs(ref).max()) if ref.size else 1.)
    return tens.mismatch(r, ref, ranks, tol, tol * scale)


def results(f, vals, jet, tol):
    m = len(vals)
    S = exprs.slices(vals)
    ps = [v.copy() for v in vals]
    vr = (0, 0, jet.nf, jet.nd)
    gr = [(jet.g[S[i]].reshape(vals[i].shape + jet.v.shape), (vals[i].ndim,) + vr[1:]) for i in range(m)]
    hr = [[(jet.h[S[i], S[j]].reshape(vals[i].shape + vals[j].shape + jet.v.shape), (vals[i].ndim, vals[j].ndim) + vr[2:])
           for j in range(i + 1)] for i in range(m)]
    r = f(ps)
    yield "value", close(r, jet.v, vr, tol), r
    for i in range(m):
        r = f.grad(ps, i)
        yield "grad%d" % i, close(r, gr[i][0], gr[i][1], tol), r
        for j in range(i + 1):
            r = f.hess(ps, i, j)
            yield "hess%d%d" % (i, j), close(r, hr[i][j][0], hr[i][j][1], tol), r
    v, g, h = f.eval(ps)
    yield "eval", close(v, jet.v, vr, tol), v
    for i in range(m):
        yield "eval grad%d" % i, close(g[i], gr[i][0], gr[i][1], tol), g[i]
        for j in range(i + 1):
            yield "eval hess%d%d" % (i, j), close(h[i][j], hr[i][j][0], hr[i][j][1], tol), h[i][j]
