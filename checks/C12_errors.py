"""C12: fisher_matrix, error_matrix and std_error describe the curvature at the fitted optimum."""
import itertools
import numpy as np
from mc import likes, problems
from mc.core import Outcome

PROPERTY = "C12"
RULE = ("Every family x identified problem (constraints, fixed entries, regularization) x data set is fitted by "
        "the real Newton method; fisher_matrix must be the reference Hessian of the objective at the result "
        "(null rows for fixed entries), error_matrix the covariance Z (-Z'HZ)^-1 Z' of the parameters on the "
        "constraint surface, and std_error its square-rooted diagonal, with fixed entries masked.")
ASSUMPTIONS = [
    "fits with tol = 1e-12, relative tolerance 1e-4: the Hessian is the one of the last Newton step",
    "std_error with regularization or constraints is read as the standard deviation derived from error_matrix",
    "Broyden fits: the documented approximation of the Hessian is only examined on the listed histories",
]
SCALES = (1e-5, 1e-2, 1e4, 1e8)
ALPHA = {"quick": (1, 4), "thorough": (1, 2, 4)}


def bounds(tier):
    return {"problems": [s["fam"] + ":" + s["name"] for s in problems.all_specs()],
            "data": "all words over %s" % (ALPHA[tier],), "starts": [0],
            "scales of the data (no regularization)": SCALES, "tier": tier}


def groups(tier):
    return [{"i": i, "tier": tier} for i in range(len(problems.all_specs()))] + [{"i": -1, "tier": tier}]


def expand(g):
    if g["i"] < 0:      # histories of Broyden fits
        for sp in problems.all_specs():
            if sp["fam"] == "Poisson" and sp["name"] in ("one/free", "add/con"):
                yield dict(sp, cells=[1, 4, 2, 1][:4 if sp["name"] == "add/con" else 2], nk=0, method="broyden")
        return
    sp = problems.all_specs()[g["i"]]
    n = int(np.prod(sp["fs"], dtype=int)) if not sp["ds"] else 3
    for w in itertools.product(ALPHA[g["tier"]], repeat=n):
        for nk in (0, 1):
            yield dict(sp, cells=list(w), nk=nk, method="newton")
        if not sp["reg"]:
            for c in SCALES[sp["fam"] == "NegativeBinomial":]:       # whose constant terms do not scale
                yield dict(sp, cells=list(w), nk=0, method="newton", scale=c)


def feasible_start(case):
    """smallest change of the origin that satisfies the (affine) constraints on the free entries"""
    vals = problems.start(case, 0)
    if not case["con"]:
        return vals
    data = problems.data_of(case, case["cells"], case["nk"])
    f, G, H = likes.kkt(case, vals, data)
    nc = len(case["con"])
    F = likes.free_index(case)
    z = np.concatenate([v.ravel() for v in vals])
    z[F] -= np.linalg.lstsq(H[len(F):, :len(F)], G[len(F):], rcond=None)[0]
    out, k = [], 0
    for v in vals:
        out.append(z[k:k + v.size].reshape(v.shape))
        k += v.size
    return out


def covariance(H, A):
    if len(A):
        u, s, vt = np.linalg.svd(A)
        Z = vt[int((s > 1e-9).sum()):].T
    else:
        Z = np.eye(len(H))
    return Z @ np.linalg.inv(-Z.T @ H @ Z) @ Z.T


def close(a, b, rtol, scale):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rtol * (1e-1 * scale + np.abs(b)) + 1e-9 * scale))


def check(case):
    scale = case.get("scale", 1)
    data = {k: v * scale for k, v in problems.data_of(case, case["cells"], case["nk"]).items()}
    m = likes.build(case, feasible_start(case))
    m.fit(method=case["method"], tol=1e-12, max_steps=60, **likes.fit_args(case, data))
    vals = [np.array(p, dtype=float) for p in m.params]
    f, G, H = likes.kkt(case, vals, data)
    F = likes.free_index(case)
    nf = len(F)
    r, _, ev, _ = problems.residual(case, vals, data)
    if ev > -1e-3 * scale:      # the optimum is at infinity (or not isolated): no covariance to describe
        return Outcome([], 1, nontrivial=False)
    P = sum(v.size for v in vals)
    full = np.zeros((P, P))
    full[np.ix_(F, F)] = H[:nf, :nf]
    C = covariance(H[:nf, :nf], H[nf:, :nf])
    cov = np.zeros((P, P))
    cov[np.ix_(F, F)] = C
    free = np.zeros(P, dtype=bool)
    free[F] = True
    off = np.cumsum([0] + [v.size for v in vals])
    fisher, err, std = m.fisher_matrix(), m.error_matrix(), m.std_error()
    n = len(vals)
    T = 0
    st = [(case["fam"], case["opt"], case["name"], str(case["cells"]), case["nk"], scale)]
    tag = case["method"]
    rtol = 1e-4
    if len(fisher) != n or len(err) != n or len(std) != n:
        return Outcome(st, 1, "wrong number of blocks", "blocks")
    for i in range(n):
        a = slice(off[i], off[i + 1])
        for j in range(n):
            b = slice(off[j], off[j + 1])
            sh = vals[i].shape + vals[j].shape
            T += 2
            if not close(fisher[i][j], full[a, b].reshape(sh), rtol, np.abs(full).max()):
                return Outcome(st, T, "fisher_matrix()[%d][%d] is %s, expected %s" % (
                    i, j, np.asarray(fisher[i][j]).tolist(), full[a, b].reshape(sh).tolist()), tag + " fisher")
            e = np.ma.filled(np.asarray(err[i][j], dtype=float), np.nan)
            if e.shape != sh:
                return Outcome(st, T, "error_matrix()[%d][%d] has shape %s" % (i, j, e.shape), tag + " error")
            ok = np.multiply.outer(free[a], free[b]).reshape(sh)
            if not close(e[ok], cov[a, b].reshape(sh)[ok], rtol, np.abs(cov).max()):
                return Outcome(st, T, "error_matrix()[%d][%d] is %s, expected %s" % (
                    i, j, e.tolist(), cov[a, b].reshape(sh).tolist()), tag + " error")
        T += 1
        ok = free[a].reshape(vals[i].shape)
        s = std[i]
        if np.shape(s) != vals[i].shape or np.ma.getmaskarray(s).tolist() != (~ok).tolist():
            return Outcome(st, T, "std_error()[%d] does not have the shape and mask of the parameter" % i, tag + " std")
        if not close(np.asarray(s.data)[ok], np.sqrt(np.maximum(np.diag(cov)[a], 0)).reshape(vals[i].shape)[ok], rtol,
                     np.sqrt(np.abs(cov).max())):
            return Outcome(st, T, "std_error()[%d] is %s, expected %s" % (
                i, s, np.sqrt(np.diag(cov)[a]).tolist()), tag + " std")
    return Outcome(st, T, observed=np.round(np.diag(C), 5).tolist())
