"""C28: functions applied entry by entry to tensors are the same functions of the dense arrays, or are refused."""
import itertools
import numpy as np
from mc.core import Outcome
from mc import tens
from mc.tens import build, align, mismatch, structures, compatible, signature

PROPERTY = "C28"
RULE = ("Every numpy and scipy function of one or two arguments (and every way to invoke it: called, outer, reduce, "
        "accumulate, masked, with a type), powers and conversions, applied to every tensor of the structures within the "
        "bounds, to sums of such tensors and to results of a first function; the second argument is every compatible "
        "tensor, an array over the features or a number, on either side. Every result is compared with the function of "
        "the dense arrays; raising an exception counts as refusing. The functions the documentation of the tensors "
        "names (exp, log, square, gamma, gammaln, expit, logit, tanh, arctan, maximum, minimum, powers) must not be "
        "refused on a tensor over features only. The operands must stay what they were.")
ASSUMPTIONS = ["entries are in the domain of the function (between 0.3 and 0.7, or 1.2 and 2.8)",
               "arrays stand for values over the features, as in arithmetic",
               "a result may use size-1 axes along which it is constant; a 0-d result stands for a constant"]
MUST1 = ("exp", "log", "square", "gamma", "gammaln", "expit", "logit", "tanh", "arctan")
MUST2 = ("maximum", "minimum")
ARITHMETIC = ("add", "subtract", "multiply", "divide", "true_divide")        # called: C01
CORE2 = MUST2 + ("power", "arctan2", "greater")
POWERS = [-2, -1, -.5, 0, .5, 1, 2, 3, np.float64(2), "array"]


def ufuncs(nin):
    from scipy import special
    out = {}
    for m in (np, special):
        for n in sorted(dir(m)):
            f = getattr(m, n)
            if isinstance(f, np.ufunc) and f.nin == nin and f.nout == 1 and n not in out:
                try:
                    r = f(*[np.full(2, .4)] * nin)
                except TypeError:
                    continue
                if r.dtype.kind in "fb":
                    out[f.__name__] = f
    return out


def universe(tier):
    if tier == "thorough":
        return structures([(), (2,), (2, 3)], [(), (2,), (3, 2)], [(), (2,), (2, 2), (2, 3)], [(), (2,), (3,), (2, 2)],
                          partial=True)
    return structures([(), (2,), (2, 2)], [(), (2,)], [(), (2,), (2, 2)], [(), (2,), (2, 2)], partial=True)


def bounds(tier):
    return {"structures": len(universe(tier)), "functions of one argument": sorted(ufuncs(1)),
            "functions of two arguments": sorted(ufuncs(2)), "powers": [str(p) for p in POWERS], "tier": tier}


def groups(tier):
    n = len(universe(tier))
    return [{"i": i, "f": f, "tier": tier} for i in range(n) for f in ("one", "two")] + \
        [{"i": i, "f": "chain", "tier": tier} for i in range(n)]


def alone(a):
    return not a["x"] and not a["y"]


def expand(g):
    S = universe(g["tier"])
    a = S[g["i"]]
    plain = not a["xm"] and not a["ym"]
    other = dict(a, xm=None, ym=None)
    sums = [[a]] + ([[a, other]] if not plain else [])
    if g["f"] == "one":
        for A in sums:
            for f in ufuncs(1):
                for how in ("call",) + (("where", "type", "accumulate", "reduce") if f in MUST1 else ()):
                    yield {"a": A, "f": f, "how": how}
            for p in range(len(POWERS)):
                yield {"a": A, "f": "**", "p": p}
            for f in ("float", "abs", "pos", "round"):
                yield {"a": A, "f": f}
    elif g["f"] == "two":
        B = [b for b in S if compatible(a, b) and (g["tier"] == "thorough" or plain or alone(b))]
        for f in ufuncs(2):
            for A in sums:
                if f in ARITHMETIC:
                    for how in ("outer", "reduce", "accumulate", "where"):
                        yield {"a": A, "b": other, "f": f, "side": 0, "how": how}
                    continue
                for v in (.45, 2):
                    if f not in CORE2:
                        yield {"a": A, "b": {"k": "S", "v": v}, "f": f, "side": 0}
                        continue
                    for side in (0, 1):
                        yield {"a": A, "b": {"k": "S", "v": v}, "f": f, "side": side}
                        yield {"a": A, "b": {"k": "0", "v": v}, "f": f, "side": side}
                if f not in CORE2:
                    yield {"a": A, "b": other, "f": f, "side": 0}
                    continue
                if a["n"]:
                    for side in (0, 1):
                        yield {"a": A, "b": {"k": "A", "n": a["n"], "s": 3}, "f": f, "side": side}
                        yield {"a": A, "b": {"k": "A", "n": [1] * len(a["n"]), "s": 3}, "f": f, "side": side}
                for how in ("outer", "reduce", "accumulate", "where", "type"):
                    yield {"a": A, "b": other, "f": f, "side": 0, "how": how}
            if f in CORE2:
                for b in B:
                    for side in (0, 1):
                        yield {"a": [a], "b": b, "f": f, "side": side}
    else:
        if not alone(a):
            return
        for f, h in itertools.product(MUST1, repeat=2):
            yield {"a": [a], "f": f, "then": h}
        for f in MUST1:
            for v in ("+", "*", "sum", "maximum", "**"):
                yield {"a": [a], "f": f, "then": v}


def operand(desc, unit):
    """positive entries: in (.3, .7) or in (1.25, 2.75)"""
    if desc.get("k") in ("S", "0"):
        return build(desc)
    t, D, r = build(dict(desc, pos=True))
    return (t * .25 if unit else t), (D * .25 if unit else D), r


def start(descs, unit):
    A, D, r = operand(dict(descs[0], s=1), unit)
    for k, d in enumerate(descs[1:]):
        B, E, rb = operand(dict(d, s=2 + k), unit)
        q = tuple(map(max, r, rb))
        A, D, r = (A + B) * .5, (align(D, r, q) + align(E, rb, q)) * .5, q
    return A, D, r


def alone_dims(case, r, rb):
    """an array next to a tensor with other axes only"""
    return case["b"].get("k") == "A" and rb[2] != r[2]


def check(case):
    f, how = case["f"], case.get("how", "call")
    states, n = [], 0
    for unit in (True, False):
        T, D, r = start(case["a"], unit)
        D = np.asarray(D, dtype=float)
        dense_in = D.copy()
        before = np.array(T.toarray())
        must = alone(case["a"][0]) and len(case["a"]) == 1 and how == "call"
        B = None
        kw = {}
        if how == "type":
            kw = {"dtype": np.float64}
        elif how == "where":
            kw = {"where": np.asarray(getattr(T, "values", before)) > (.5 if unit else 2.)}
        try:
            if f in ("float", "abs", "pos", "round"):
                must, q = f == "float" and D.ndim == 0 and hasattr(T, "values"), r
                got = {"float": float, "abs": abs, "pos": lambda x: +x, "round": round}[f](T)
                ref = {"float": lambda x: x, "abs": np.abs, "pos": lambda x: x, "round": np.round}[f](D)
            elif f == "**":
                p = POWERS[case["p"]]
                q = r
                if isinstance(p, str):
                    p = np.linspace(.5, 1.5, int(np.prod(case["a"][0]["n"], dtype=int))).reshape(case["a"][0]["n"])
                    e = p.reshape(p.shape + (1,) * r[3])
                    must = False
                    if r[3] and r[2]:
                        continue
                else:
                    e = p
                ref = np.power(D, e)
                got = T ** p
            elif "b" not in case:
                must = must and f in MUST1
                u, q = ufuncs(1)[f], r
                if how in ("reduce", "accumulate"):
                    got = getattr(u, how)(T)
                    return Outcome(states, n, "%s.%s does not exist, yet returns %r" % (f, how, got), "method")
                ref = u(D)
                got = u(T, **kw)
                if how == "where":
                    # what is masked is undefined: only the rest can be compared
                    return Outcome(states, n, "the mask is ignored", "where")
            else:
                u = ufuncs(2)[f]
                B, E, rb = operand(dict(case["b"], s=7), unit)
                E = np.asarray(E, dtype=float)
                q = tuple(map(max, r, rb))
                pair, real = [align(D, r, q), align(E, rb, q)], [T, B]
                if case["side"]:
                    pair, real = pair[::-1], real[::-1]
                must = must and f in MUST2 and not alone_dims(case, r, rb) and alone(dict({"x": 0, "y": 0}, **case["b"]))
                ref = u(*pair)
                if how == "outer":
                    got = u.outer(T, B)
                    ref = u.outer(D, E)
                    if np.shape(np.asarray(got.toarray() if hasattr(got, "toarray") else got)) != ref.shape:
                        return Outcome(states, n + 1, "%s.outer returns another shape" % f, "method")
                    continue
                if how in ("reduce", "accumulate"):
                    got = getattr(u, how)(T)
                    ref = getattr(u, how)(D)
                    if np.shape(np.asarray(got.toarray() if hasattr(got, "toarray") else got)) != ref.shape:
                        return Outcome(states, n + 1, "%s.%s returns another shape" % (f, how), "method")
                    continue
                got = u(*real, **kw)
                if how == "where":
                    return Outcome(states, n + 1, "the mask is ignored", "where")
            if "then" in case:
                h = case["then"]
                must = False
                if h in MUST1:
                    got, ref = ufuncs(1)[h](got), ufuncs(1)[h](ref)
                elif h == "+":
                    got, ref = got + T, ref + D
                elif h == "*":
                    got, ref = T * got, D * ref
                elif h == "maximum":
                    got, ref = np.maximum(got, T), np.maximum(ref, D)
                elif h == "**":
                    got, ref = got ** 2, ref ** 2
                elif h == "sum":
                    got, ref, q = got.sum(), ref.sum(), (0, 0, 0, 0)
        except Exception as err:
            n += 1
            states.append((f, how, "refused", signature(T), unit))
            if must:
                return Outcome(states, n, "refused: %s %s" % (type(err).__name__, err), "refused")
            continue
        n += 1
        states.append((f, how, "right", signature(T), signature(got), unit))
        if not (hasattr(got, "toarray") or isinstance(got, (float, np.ndarray, np.floating, np.bool_, bool))):
            return Outcome(states, n, "returns %r" % (got,), "type")
        m = compare(got, np.asarray(ref, dtype=float), q)
        if m:
            return Outcome(states, n, "%s (%s): %s" % (f, how, m), "entry:" + f)
        if not np.array_equal(np.array(T.toarray()), before):
            return Outcome(states, n, "the operand has changed", "operand")
    return Outcome(states, n, observed=[s[2] for s in states])


def compare(got, ref, q):
    fin = np.isfinite(ref)
    if fin.all():
        return mismatch(got, ref, q)
    arr = np.asarray(got.toarray() if hasattr(got, "toarray") else got, dtype=float)
    if arr.ndim != ref.ndim:
        return "rank %d, expected %d" % (arr.ndim, ref.ndim)
    if not np.array_equal(np.broadcast_to(np.isfinite(arr), ref.shape), fin):
        return "entries that are not finite are elsewhere"
    return mismatch(np.where(fin, np.broadcast_to(arr, ref.shape), 0.), np.where(fin, ref, 0.), (0, 0, ref.ndim, 0))
