"""C17: a copula joins two marginals into the joint distribution of its documented formula."""
import functools
import itertools
import math
import numpy as np
from mc.core import Outcome
from mc.tens import mismatch

PROPERTY = "C17"
RULE = ("Every copula x parameter x pair of marginals (all words over the weight alphabet up to the length, integer, "
        "float or unnormalised, with null cells, alone or in batches): the result must be the joint distribution whose "
        "cumulative distribution is the documented C(F(x), G(y)); its cells are non-negative, they add up to one, and "
        "its marginals are the normalised inputs.")
ASSUMPTIONS = ["parameters in the documented open intervals (-1 < rho < 1, a > 0, a >= 1, a != 0)",
               "marginals have a positive total", "Gaussian cells to 1e-6 (the accuracy of scipy's mvnun)"]
RHO = {"Gaussian": (0, .5, -.7), "Clayton": (1, .3, 4), "Gumbel": (1, 1.5, 3), "Frank": (1, -2, 5),
       "AkiMikhailHaq": (0, .5, -.8)}


def bounds(tier):
    return {"copulas": RHO, "weights": "words over {0, 1, 3} of lengths 1..3" + (
        ", over {0, 1, 2, 5} of length 4" if tier == "thorough" else ""), "batches": "none, (2,) on either or both "
        "sides, (2, 2)", "types": ["int", "float"], "tier": tier}


def margins(tier):
    out = [w for n in (1, 2, 3) for w in itertools.product((0, 1, 3), repeat=n) if sum(w)]
    return out


def groups(tier):
    return [{"k": k, "rho": r, "tier": tier, "part": p} for k in RHO for r in RHO[k]
            for p in (("pairs", "batch", "four") if tier == "thorough" and k != "Gaussian" else ("pairs", "batch"))]


def expand(g):
    M = margins(g["tier"])
    base = {"k": g["k"], "rho": g["rho"]}
    if g["part"] == "pairs":
        if g["k"] == "Gaussian":
            M = [m for m in M if len(m) == 3 or m in ((1, 3), (3, 0))][:: 1 if g["tier"] == "thorough" else 2]
        for x, y in itertools.product(M, M):
            yield dict(base, x=list(x), y=list(y), t="int")
            if len(x) >= len(y):
                yield dict(base, x=[.37 * v for v in x], y=[.11 * v for v in y], t="float")
    elif g["part"] == "four":
        W = [w for w in itertools.product((0, 1, 2, 5), repeat=4) if sum(w)]
        for i, x in enumerate(W):
            for y in W[i % 3::3]:
                yield dict(base, x=list(x), y=list(y), t="float")
    else:
        W = [(1, 3, 0), (2, 1, 1), (0, 1, 5), (1, 1, 2)]
        for a, b in itertools.permutations(W, 2):
            yield dict(base, x=[list(a), list(b)], y=[list(b), list(a)], t="float")
            yield dict(base, x=[list(a), list(b)], y=[list(b)[:2] if sum(b[:2]) else [1, 2], [1, 4]], t="int")
            yield dict(base, x=list(a), y=[list(b), list(a)], t="float")
            yield dict(base, x=[list(b), list(a)], y=list(b), t="float")
            yield dict(base, x=[[list(a), list(b)], [list(b), list(a)]], y=[[list(b), [1, 2, 3]], [[3, 2, 1], list(a)]],
                       t="float")


@functools.lru_cache(None)
def C(k, rho, u, v):
    if u <= 0 or v <= 0:
        return 0.0
    if u >= 1:
        return v
    if v >= 1:
        return u
    if k == "Clayton":
        return (u ** -rho + v ** -rho - 1) ** (-1.0 / rho)
    if k == "Gumbel":
        return math.exp(-((-math.log(u)) ** rho + (-math.log(v)) ** rho) ** (1.0 / rho))
    if k == "Frank":
        return -math.log1p(math.expm1(-rho * u) * math.expm1(-rho * v) / math.expm1(-rho)) / rho
    if k == "AkiMikhailHaq":
        return u * v / (1 - rho * (1 - u) * (1 - v))
    from scipy.integrate import quad
    from statistics import NormalDist
    N = NormalDist()
    x, y = N.inv_cdf(u), N.inv_cdf(v)
    s = math.sqrt(1 - rho * rho)
    return quad(lambda t: N.pdf(t) * N.cdf((y - rho * t) / s), -12, x, epsabs=1e-12, epsrel=1e-11, limit=200)[0]


def joint(k, rho, x, y):
    F = [0.0] + [s / math.fsum(x) for s in itertools.accumulate(x)]
    G = [0.0] + [s / math.fsum(y) for s in itertools.accumulate(y)]
    F[-1] = G[-1] = 1.0
    return [[C(k, rho, F[i + 1], G[j + 1]) - C(k, rho, F[i], G[j + 1]) - C(k, rho, F[i + 1], G[j]) +
             C(k, rho, F[i], G[j]) for j in range(len(y))] for i in range(len(x))]


def check(case):
    from maxlike.func import copula
    k, rho = case["k"], case["rho"]
    dt = int if case["t"] == "int" else float
    x, y = np.array(case["x"], dtype=dt), np.array(case["y"], dtype=dt)
    x0, y0 = x.copy(), y.copy()
    # the first parameter of the list is the default: given or left out
    f = getattr(copula, k)() if rho == RHO[k][0] and dt is int else getattr(copula, k)(rho)
    res = f([x, y])
    batch = np.broadcast_shapes(x.shape[:-1], y.shape[:-1])
    X = np.broadcast_to(x0, batch + x0.shape[-1:]).astype(float)
    Y = np.broadcast_to(y0, batch + y0.shape[-1:]).astype(float)
    ref = np.zeros(batch + (x.shape[-1], y.shape[-1]))
    for b in np.ndindex(*batch):
        ref[b] = joint(k, rho, X[b].tolist(), Y[b].tolist())
    st = [(k, rho, repr(case["x"]), repr(case["y"]), case["t"])]
    tol = 1e-6 if k == "Gaussian" else 1e-9
    msg = mismatch(res, ref, (0, 0, ref.ndim, 0), 0, tol)
    if msg:
        return Outcome(st, 1, msg, k + " cells")
    arr = np.asarray(res.toarray())
    if arr.min() < -tol:
        return Outcome(st, 2, "a cell is negative: %r" % arr.min(), k + " negative")
    for ax, m, name in ((-1, X, "first"), (-2, Y, "second")):
        if not np.allclose(arr.sum(ax), m / m.sum(-1)[..., None], atol=tol, rtol=0):
            return Outcome(st, 4, "the %s marginal is %s" % (name, arr.sum(ax).tolist()), k + " marginal")
    if not (np.array_equal(x, x0) and np.array_equal(y, y0)):
        return Outcome(st, 5, "the marginals given were modified", k + " input")
    return Outcome(st, 5, observed=np.round(arr.reshape(-1)[:6], 7).tolist(), nontrivial=arr.size > 1)
