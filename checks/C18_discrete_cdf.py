"""C18: Poisson and Skellam distribution functions and their derivatives are exact to the requested tolerance."""
import numpy as np
from mc import discrete
from mc.core import Outcome

PROPERTY = "C18"
RULE = ("Every rate (pair of rates, integer and real, from 0 to several hundreds) x threshold x direction x tolerance of "
        "the alphabet: the real functions are compared with sums over the enumerated outcomes far into the tails.")
ASSUMPTIONS = ["the Skellam functions describe D = (second variable) - (first variable), the orientation every function "
               "of the module shares", "probabilities to 2 tol + 1e-12, derivatives to 100 tol + 1e-10"]
RATES = (0.02, .3, 1, 1.0, 2.5, 7, 19.5)
BIG = (60.0, 151, 240.5)
MORE = (0.1, 0.7, 4.0, 11, 35.0)


def bounds(tier):
    return {"rates": (0,) + RATES + BIG + (MORE if tier == "thorough" else ()), "thresholds": "-6..6 around the mean "
            "of the difference; 0..8 and around the mean for a single variable", "tolerances": [1e-4, 1e-8, 1e-12],
            "tier": tier}


def groups(tier):
    r = RATES + (MORE if tier == "thorough" else ())
    out = [{"k": "poisson", "a": a} for a in (0, 0.0) + r + BIG]
    out += [{"k": "skellam", "a": a, "b": b} for a in r for b in r]
    out += [{"k": "skellam", "a": a, "b": b} for a, b in ((60.0, 60.0), (151, 60.0), (60, 151), (151, 240.5), (240.5, .3),
                                                      (.3, 151), (1, 60.0))]
    return out


def expand(g):
    a = g["a"]
    if g["k"] == "poisson":
        m = int(a)
        for n in sorted(set(range(10)) | {m, m + 1, m + 5, m + 30, max(m - 9, 0)}):
            yield dict(g, n=n)
        return
    m = int(round(g["b"] - a))
    for tol in (1e-8, 1e-4, 1e-12):
        for d in range(-6, 7):
            yield dict(g, n=m + d, tol=tol)


def check(case):
    from maxlike import skellam as sk
    a = case["a"]
    if case["k"] == "poisson":
        n = case["n"]
        st = [("poisson", repr(a), n)]
        T = 0
        for name, f, w in (("cdf", sk.poisson_cdf, 1.0), ("mid cdf", sk.poisson_mid_cdf, .5)):
            got, ref = np.asarray(f(a, n), dtype=float), discrete.cdf(a, n, w)
            T += 2
            if got.shape != (2,) or not np.allclose(got, ref, rtol=0, atol=1e-11):
                return Outcome(st, T, "%s(%r, %d) is %s, expected %s" % (name, a, n, got.tolist(), ref), "poisson")
        size = n + 1
        v = np.asarray(sk.poisson_vector(a, size) if size != 10 else sk.poisson_vector(a), dtype=float)
        ref = np.array((discrete.pmf(a) + [(0., 0.)] * size)[:size]).T
        T += size
        if v.shape != ref.shape or not np.allclose(v, ref, rtol=0, atol=1e-12):
            return Outcome(st, T, "poisson_vector(%r, %d)" % (a, size), "vector")
        return Outcome(st, T, observed=np.round(ref[:, -1], 8).tolist())
    b, n, tol = case["b"], case["n"], case["tol"]
    st = [("skellam", repr(a), repr(b), n, tol)]
    le = discrete.prob(a, b, lambda d: d <= n)
    ge = discrete.prob(a, b, lambda d: d >= n)
    lt = discrete.prob(a, b, lambda d: d < n)
    gt = discrete.prob(a, b, lambda d: d > n)
    kw = {} if tol == 1e-8 else {"tol": tol}
    T = 0
    if n or tol == 1e-4:        # the default is n = 0
        kw["n"] = n
    pair = np.asarray(sk.skellam_cdf_pair(a, b, **kw), dtype=float)
    if pair.shape != (2, 3):
        return Outcome(st, 1, "skellam_cdf_pair returns shape %s" % (pair.shape,), "pair")
    for name, got, ref in (("P(D <= n)", sk.skellam_cdf(a, b, **kw), le),
                           ("P(D >= n)", sk.skellam_cdf(a, b, inverse=True, **kw), ge),
                           ("P(D < n)", pair[0], lt), ("P(D > n)", pair[1], gt)):
        got = np.asarray(got, dtype=float)
        T += 3
        lim = np.array([2 * tol + 1e-12, 100 * tol + 1e-10, 100 * tol + 1e-10])
        if got.shape != (3,) or not (np.abs(got - ref) <= lim).all():
            return Outcome(st, T, "%s with rates %r, %r, n = %d, tol = %g is %s, expected %s" % (
                name, a, b, n, tol, got.tolist(), ref), "skellam")
    size = 10 if n % 2 else 5
    fr = sk.skellam_frame(a, b, 5) if size == 5 else sk.skellam_frame(a, b)
    A, B = (np.array((discrete.pmf(r) + [(0., 0.)] * size)[:size]).T for r in (a, b))
    refs = [np.outer(A[0], B[0]), np.outer(A[1], B[0]), np.outer(A[0], B[1])]
    for x, y in zip(fr, refs):
        T += size * size
        if np.shape(x) != (size, size) or not np.allclose(x, y, rtol=0, atol=1e-12):
            return Outcome(st, T, "skellam_frame(%r, %r, %d)" % (a, b, size), "frame")
    return Outcome(st, T, observed=[round(v, 8) for v in le])
