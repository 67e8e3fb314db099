"""C30: every form in which numbers may be given means the same."""
import contextlib
import io
import itertools
import operator
import numpy as np
from mc import exprs, funcs, likes, problems, tens
from mc.core import Outcome
from checks import C11_history, C29_worktype

PROPERTY = "C30"
RULE = ("The same numbers are given in every form: lists, tuples, integers of several sizes, single precision, Fortran "
        "order, strided and reversed views, read-only arrays, pandas objects, masked arrays without masked entries, and "
        "for the fixed entries also lists of booleans and of 0 and 1, None and False. (fit) Every pair of forms of the "
        "data, and every pair of forms of the initial values and of the fixed entries: the fit ends the same way, and all "
        "queries answer the same, as with plain float64 arrays. (func) Every expression of the grammar with every form of "
        "all and of each single parameter: value, gradients, Hessians and eval are those of the reference jets. "
        "(tensor) Every form of the values of a tensor, and of the array operands, with every operation: the dense "
        "reference. The objects given are the same afterwards.")
ASSUMPTIONS = ["the numbers are integers (exact in all the forms) where integers or single precision are among the forms; "
               "otherwise only the forms that keep float64", "parameters of functions are given as arrays or numbers, not as lists, "
               "and not in types whose numpy functions have less than double precision (single precision, 8 bit integers)"]
STEP = {"quick": 11, "thorough": 1}


def forms(v, arrays=False, low=False):
    """(name, maker) of every form of the array v that holds the same numbers; low: not those of low precision"""
    v = np.asarray(v, dtype=float)
    whole = bool(np.all(v == np.round(v)))
    yield "plain", lambda: v.copy()
    if v.ndim == 0:
        for t in (float, np.float64) + ((int, np.int64) if whole else ()):
            yield t.__name__ + " number", lambda t=t: t(v)
    elif not arrays:
        yield "list", lambda: v.tolist()
        yield "tuple", lambda: tuple(tuple(r) if v.ndim > 1 else r for r in v.tolist())
    if whole:
        if not arrays and v.ndim:
            yield "list of integers", lambda: v.astype(int).tolist()
        for t in (np.int64, np.int32) + (() if low else (np.int8,)) + ((np.uint8,) if v.min(initial=0) >= 0 and not low else ()):
            yield t.__name__, lambda t=t: v.astype(t)
    if not low and np.all(v.astype(np.float32) == v):
        yield "float32", lambda: v.astype(np.float32)
    if v.ndim > 1:
        yield "Fortran", lambda: np.asfortranarray(v)
        if whole:
            yield "int64 Fortran", lambda: np.asfortranarray(v.astype(np.int64))
    if v.ndim:
        yield "strided", lambda: np.repeat(v, 2, axis=v.ndim - 1)[..., ::2]
        yield "strided in front", lambda: np.repeat(v, 2, axis=0)[::2]
        yield "reversed", lambda: np.ascontiguousarray(v[..., ::-1])[..., ::-1]
        yield "reversed in front", lambda: np.ascontiguousarray(v[::-1])[::-1]
    yield "masked", lambda: np.ma.array(v.copy())
    yield "masked nowhere", lambda: np.ma.array(v.copy(), mask=np.zeros(v.shape, dtype=bool))
    yield "read-only", lambda: frozen(v)
    if v.ndim and not arrays:
        import pandas as pd
        if v.ndim == 1:
            yield "Series", lambda: pd.Series(v.copy(), index=["r%d" % i for i in range(len(v))][::-1])
        elif v.ndim == 2:
            yield "DataFrame", lambda: pd.DataFrame(v.copy())


def frozen(v):
    v = v.copy()
    v.flags.writeable = False
    return v


def mask_forms(k):
    k = np.asarray(k, dtype=bool)
    if not k.any():
        yield "None", lambda: None
        yield "False", lambda: False
        yield "absent", lambda: ()
    if k.ndim == 0:
        yield "bool", lambda: bool(k)
        yield "number", lambda: int(k)
    else:
        yield "list", lambda: k.tolist()
        yield "list of 0 and 1", lambda: k.astype(int).tolist()
        yield "tuple", lambda: tuple(tuple(r) if k.ndim > 1 else r for r in k.tolist())
        yield "strided", lambda: np.repeat(k, 2, axis=k.ndim - 1)[..., ::2]
        yield "reversed", lambda: np.ascontiguousarray(k[::-1])[::-1]
        yield "masked", lambda: np.ma.array(np.zeros(k.shape), mask=k).mask
    yield "array", lambda: k.copy()
    yield "int64", lambda: k.astype(np.int64)
    yield "float", lambda: k.astype(float)
    if k.ndim > 1:
        yield "Fortran", lambda: np.asfortranarray(k)


def snapshot(x):
    return type(x), repr(x)


def specs(tier):
    return C11_history.specs() + [s for s in problems.all_specs() if s["name"] in ("add/mask", "const/free", "slope/con", "matrix/mask")
                                  and s["fam"] in (("Logistic", "Poisson") if tier == "quick" else (
                                      "Logistic", "Poisson", "NegativeBinomial", "ZeroInflatedPoisson", "Gauss"))]


def bounds(tier):
    return {"problems": [s["fam"] + ":" + s["name"] for s in specs(tier)], "methods": ["newton", "broyden"],
            "forms of data and parameters": [n for n, _ in forms(np.ones((2, 2)))] + ["Series", "numbers"],
            "forms of the fixed entries": [n for n, _ in mask_forms(np.zeros((2, 2)))] + ["bool", "number"],
            "functions": "every %d-th expression of the families of C04, all leaves" % STEP[tier],
            "tensors": C29_worktype.DESC, "tier": tier}


def groups(tier):
    return [{"k": "fit", "i": i, "m": m, "tier": tier} for i in range(len(specs(tier))) for m in ("newton", "broyden")] + \
        [{"k": "func", "f": f, "c": c, "tier": tier} for f in ["plain"] + sorted(exprs.FAMILIES) for c in range(2)] + \
        [{"k": "tensor", "i": i, "tier": tier} for i in range(len(C29_worktype.DESC))]


def expand(g):
    if g["k"] == "fit":
        case = specs(g["tier"])[g["i"]]
        for start in (0, 4):
            base = dict(case, k="fit", m=g["m"], start=start, nform=None, pform=None)
            data = problems.data_of(case, [1 + (5 * i * i + i) % 4 for i in range(8)][:C11_history.ncell(case)], 0)
            names = [n for n, _ in forms(data["N"])]
            for a, b in itertools.product(names, names if "X" in data else ["plain"]):
                yield dict(base, nform=[a, b])
            v = problems.start(case, start)
            vn = sorted({n for x in v for n, _ in forms(x)})
            kn = sorted({n for x, k in zip(v, case["mask"]) for n, _ in mask_forms(np.reshape(k, x.shape))})
            for a, b in itertools.product(vn, kn):
                yield dict(base, pform=[a, b])
    elif g["k"] == "func":
        if g["f"] == "plain":
            it = (exprs.typed(e, p) for e, p, f, d in exprs.leaves() if p)
        else:
            it = itertools.islice((te for te in exprs.FAMILIES[g["f"]](g["tier"]) if te["p"]), 0, None, STEP[g["tier"]])
        for te in itertools.islice(it, g["c"], None, 2):
            yield dict(te, k="func")
    else:
        d = C29_worktype.DESC[g["i"]]
        for n, _ in forms(C29_worktype.values(d, 0)):
            yield {"k": "tensor", "i": g["i"], "form": n}


def check(case):
    return {"fit": check_fit, "func": check_func, "tensor": check_tensor}[case["k"]](case)


# fits ----------------------------------------------------------------------------------------------------------------

def run(case, given, data):
    """(how the fit ended, what the queries answer)"""
    from maxlike.maxlike_base import ConvergenceError
    m = likes.build(dict(case, p=[], mask=[]), [])
    for v, k in given:
        m.add_param(v, **({} if isinstance(k, tuple) and not k else {"fixed": k}))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            m.fit(method=case["m"], max_steps=60, tol=1e-9, **data)
    except ConvergenceError:
        return "ConvergenceError", []
    except np.linalg.LinAlgError:
        return "LinAlgError", []
    return "ok", C11_history.queries(m, True, True)


_canonical = {}


def check_fit(case):
    data = problems.data_of(case, [1 + (5 * i * i + i) % 4 for i in range(8)][:C11_history.ncell(case)], 0)
    vals = problems.start(case, case["start"])
    masks = [np.asarray(k, dtype=bool).reshape(v.shape) for v, k in zip(vals, case["mask"])]
    key = (case["fam"], str(case["opt"]), case["name"], case["m"], case["start"])
    if key not in _canonical:
        _canonical[key] = run(case, [(v.copy(), k.copy()) for v, k in zip(vals, masks)], likes.fit_args(case, data))
    how, ref = _canonical[key]
    nf, pf = case["nform"] or ["plain", "plain"], case["pform"] or ["plain", "array"]
    args = {k: dict(forms(v)).get(nf[0] if k == "N" else nf[1], v.copy)() for k, v in likes.fit_args(case, data).items()}
    given = [(dict(forms(v)).get(pf[0], v.copy)(), dict(mask_forms(k)).get(pf[1], k.copy)()) for v, k in zip(vals, masks)]
    before = [snapshot(x) for x in list(args.values()) + [y for x in given for y in x]]
    name = "%s %s/%s: data as %s, parameters as %s" % (case["m"], case["fam"], case["name"], nf, pf)
    fkey = "fit " + (",".join(nf) if case["nform"] else ",".join(pf))
    a, got = run(case, given, args)
    st = [key + (str(nf), str(pf))]
    if [snapshot(x) for x in list(args.values()) + [y for x in given for y in x]] != before:
        return Outcome(st, 1, name + ": what was given has changed", fkey)
    if how != "ok":
        return Outcome(st, 1, nontrivial=False)
    if a != how:
        return Outcome(st, 1, "%s: the fit ends with %s instead of converging" % (name, a), fkey)
    if len(got) != len(ref) or any(x.shape != y.shape or not np.allclose(x, y, rtol=1e-5, atol=1e-6, equal_nan=True)
                                   for x, y in zip(got, ref)):
        return Outcome(st, len(ref), "%s: %s, expected %s" % (
            name, [x.round(6).tolist() for x in got], [x.round(6).tolist() for x in ref]), fkey)
    return Outcome(st, len(ref), observed=[case["fam"], ref[0].round(5).tolist()])


# functions -----------------------------------------------------------------------------------------------------------

def check_func(case):
    from maxlike.maxlike_base import Param
    vals = exprs.params_of(case)
    jet, P = exprs.reference(case, vals)
    funcs.MAGNITUDE = 0
    if case.get("rg"):
        from mc import fcheck
        funcs.MAGNITUDE = fcheck.largest(case["e"]) if case["rg"] != "large" else 0
    m, f = len(vals), exprs.make(case["e"])
    every = sorted({n for v in vals for n, _ in forms(v, True, True)})
    st, n = [], 0
    for form in every:
        for who in [range(m)] + ([[i] for i in range(m)] if m > 1 else []):
            ps = [dict(forms(v, True, True)).get(form, v.copy)() if i in who else v.copy() for i, v in enumerate(vals)]
            before = [snapshot(p) for p in ps]
            for w, kind in enumerate((lambda x: x, lambda x: Param(x))):
                if w and (len(who) < m or form not in ("int64", "Fortran", "reversed", "int number")):
                    continue
                qs = [kind(p) for p in ps]
                st.append((repr(case["e"]), repr(case["p"]), form, str(list(who)), w))
                for name, msg in results(f, qs, vals, jet):
                    n += 1
                    if msg:
                        return Outcome(st, n, "%s with %s as %s%s: %s" % (name, list(who), form, " Param" * w, msg),
                                       "func " + form)
            if [snapshot(p) for p in ps] != before:
                return Outcome(st, n, "parameters given as %s have changed" % form, "func " + form)
    return Outcome(st, n, observed=tuple(np.round(jet.v.reshape(-1)[:4], 6)))


def results(f, ps, vals, jet):
    m = len(vals)
    yield "value", funcs.cmp_val(f(ps), jet)
    for i in range(m):
        yield "grad%d" % i, funcs.cmp_grad(f.grad(ps, i), jet, vals, i)
        for j in range(i + 1):
            yield "hess%d%d" % (i, j), funcs.cmp_hess(f.hess(ps, i, j), jet, vals, i, j)
    v, g, h = f.eval(ps)
    yield "eval", funcs.cmp_val(v, jet)
    for i in range(m):
        yield "eval grad%d" % i, funcs.cmp_grad(g[i], jet, vals, i)
        for j in range(i + 1):
            yield "eval hess%d%d" % (i, j), funcs.cmp_hess(h[i][j], jet, vals, i, j)


# tensors -------------------------------------------------------------------------------------------------------------

def check_tensor(case):
    from array import array
    from maxlike import Tensor
    desc = C29_worktype.DESC[case["i"]]
    q = [len(desc[k]) for k in "xynd"]
    p = q[0] + q[1]
    maps = [array('b', desc[k]) if desc.get(k) else None for k in ("xm", "ym")]
    v = C29_worktype.values(desc, 0)
    given = dict(forms(v))[case["form"]]()
    before = snapshot(given)
    t, D = Tensor(given, q[0], q[1], q[3], *maps), C29_worktype.dense(desc, 0)
    u, E = C29_worktype.tensor(desc, 1), C29_worktype.dense(desc, 1)
    todo = [("itself", lambda: t, D)] + list(C29_worktype.unary(desc, t, D))
    for o in (operator.add, operator.sub, operator.mul, operator.truediv):
        todo.append((o.__name__, lambda o=o: o(t, u), o(D, E)))
        todo.append(("reflected " + o.__name__, lambda o=o: o(u, t), o(E, D)))
    if q[2]:
        A = np.array([[1., 4, 2], [2, 4, 1]])
        R = A.reshape((1,) * p + A.shape + (1,) * q[3])
        for name, make in forms(A, True):
            if name.startswith("masked"):
                continue
            for o in (operator.add, operator.sub, operator.mul, operator.truediv):
                todo.append(("%s %s array" % (o.__name__, name), lambda o=o, make=make: o(t, make()), o(D, R)))
                if o is not operator.truediv or not any(maps):
                    todo.append(("%s array %s" % (name, o.__name__), lambda o=o, make=make: o(make(), t), o(R, D)))
    st, n = [], 0
    for name, f, ref in todo:
        try:
            r = f()
        except Exception:
            if "truediv" not in name or not any(maps):
                raise
            continue                                     # division by the zeros off the diagonals may be refused
        if any(maps) and name in ("truediv", "reflected truediv"):
            continue
        n += 1
        st.append((case["i"], case["form"], name))
        got = np.asarray(r.toarray(), float)
        if got.shape != ref.shape and got.ndim or not np.allclose(np.broadcast_to(got, ref.shape), ref, rtol=1e-12, atol=1e-12):
            return Outcome(st, n, "values as %s, %s: %s, expected %s" % (case["form"], name, got.tolist(), ref.tolist()),
                           "tensor " + name)
    if snapshot(given) != before:
        return Outcome(st, n, "the %s given has changed" % case["form"], "tensor given")
    return Outcome(st, n, observed=(case["i"], case["form"]))
