"""C13: information criteria."""
import itertools
import math
import numpy as np
from mc import likes, problems, exprs
from mc.core import Outcome

PROPERTY = "C13"
RULE = ("Every family x model x pattern of fixed entries x constraints x number of extra parameters x data set, "
        "before and after a fit: AIC and BIC equal 2k/(n-k-1) - 2l and k ln(n)/n - 2l with k = free entries + "
        "extra parameters - constraints, n = observations, l = mean log-likelihood of the current parameters.")
ASSUMPTIONS = [
    "l is the value of the objective g() (whose relation with the log-likelihood is C08) at the current "
    "parameters; l is checked against the exact log-likelihood for Finite and NormalizedFinite",
    "n - k - 1 > 0",
]


def bounds(tier):
    return {"models": [m[0] for m in likes.real_models() + likes.frame_models()], "extra parameters": [0, 1, 2],
            "constraints": [0, 1, 2], "masks": "every subset of fixed entries" if tier == "thorough" else
            "every subset with at most 2 fixed entries", "data sets": "3; the first one "
            "also with its weights scaled by 1e-3 and 1e5 and to sums of 1/2 and 1", "fits": "problems of C09", "tier": tier}


def specs():
    from checks import C08_likelihood
    return C08_likelihood.specs()


def groups(tier):
    return [{"f": "plain", "i": i, "tier": tier} for i in range(len(specs()))] + \
        [{"f": "fit", "i": i, "tier": tier} for i in range(len(problems.all_specs()))]


def expand(g):
    if g["f"] == "fit":
        sp = problems.all_specs()[g["i"]]
        n = int(np.prod(sp["fs"], dtype=int)) if not sp["ds"] else 3
        for w in itertools.product((1, 4), repeat=n):
            for meth in ("newton", "broyden"):
                yield dict(sp, cells=list(w), method=meth)
        return
    sp = specs()[g["i"]]
    shapes = [tuple(s) for s in sp["p"]]
    lim = None if g["tier"] == "thorough" else 2
    for mask in likes.masks(shapes, lim):
        if lim is not None and sum(map(sum, mask)) > lim:
            continue
        for con in ([], [[[0], ["Lin", [1.0]]]], [[[0], ["Lin", [1.0]]], [[len(shapes) - 1], ["Lin", [2.0]]]]):
            for d in ((0, 1, 3) if sp["ds"] else (0, 1, 2)):
                yield dict(sp, mask=mask, con=con, reg=[], data=d)
            for s in ((1e-3, 1e5, "half", "one") if len(con) < 2 and sum(map(sum, mask)) < 2 else ()):
                yield dict(sp, mask=mask, con=con, reg=[], data=0, scale=s)


def expected(k, n, l):
    return 2.0 * k / (n - k - 1) - 2 * l if abs(n - k - 1) > 1e-9 else math.inf, k * math.log(n) / n - 2 * l


def compare(m, case, data, tag, st):
    n = float(np.sum(data["N"]))
    free = int(sum(k.count(0) for k in case["mask"]))
    total = int(sum(len(k) for k in case["mask"]))
    l = m.g(m.params)
    T = 0
    for extra in (0, 1, 2):
        k = free + extra - len(case["con"])
        got = (float(m.akaine_information_criterion(extra)), float(m.bayesian_information_criterion(extra)))
        if extra == 0 and n > total + 1 and not np.allclose(got, (float(m.akaine_information_criterion()),
                                                float(m.bayesian_information_criterion())), rtol=1e-12):
            return Outcome(st, T, "default number of extra parameters is not 0", "default")
        for c, name in enumerate(("AIC", "BIC")):
            if not c and n - (total + extra) - 1 < 0.5:
                continue
            T += 1
            e = expected(k, n, l)[c]
            if abs(got[c] - e) <= 1e-9 * (1 + abs(e)):
                continue
            kk = total + extra - len(case["con"])
            if c or abs(n - kk - 1) > 1e-9:
                w = expected(kk, n, l)[c]
                if total != free and abs(got[c] - w) <= 1e-9 * (1 + abs(w)):
                    fixed_free.append(name)
                    continue
            return Outcome(st, T, "%s: %s with %d extra parameters is %r, expected %r (k=%d, n=%g, l=%r)" % (
                tag, name, extra, got[c], e, k, n, l), name)
    return T


fixed_free = []


def check(case):
    del fixed_free[:]
    shapes = [tuple(s) for s in case["p"]]
    if "cells" in case:
        from maxlike.maxlike_base import ConvergenceError
        data = problems.data_of(case, case["cells"])
        m = likes.build(case, problems.start(case, 0))
        try:
            m.fit(method=case["method"], max_steps=60, **likes.fit_args(case, data))
        except ConvergenceError:
            return Outcome([], 1, nontrivial=False)
    else:
        data = likes.dataset(case, case["data"])
        s = case.get("scale", 1)
        s = {"half": 0.5, "one": 1.0}[s] / data["N"].sum() if isinstance(s, str) else s
        data = {k: v * s for k, v in data.items()}
        m = likes.build(case, exprs.valuation(shapes, exprs.contains(case["e"], exprs.POSITIVE)))
        likes.load(m, case, data)
    st = [(case["fam"], case["name"], str(case["mask"]), str(case["con"]), str(case.get("cells", case.get("data"))),
           case.get("scale"))]
    r = compare(m, case, data, case["fam"], st)
    if isinstance(r, Outcome):
        return r
    if case["fam"] in ("Finite", "NormalizedFinite") and not case["reg"]:
        f, _, _ = likes.kkt(case, [np.array(p, dtype=float) for p in m.params], data)
        l = f / float(np.sum(data["N"]))
        r += 1
        if abs(l - m.g(m.params)) > 1e-8 * (1 + abs(l)):
            return Outcome(st, r, "mean log-likelihood is %r, expected %r" % (m.g(m.params), l), "l")
    if fixed_free:
        return Outcome(st, r, "%s counts the fixed entries as free parameters" % "/".join(sorted(set(fixed_free))),
                       "fixed entries counted")
    return Outcome(st, r, observed=[round(float(m.g(m.params)), 6), r])


def matches_known(k, case, key):
    """known finding: the criteria equal the formula with k = all entries, fixed ones included; any other
    deviation has another key"""
    return key == "fixed entries counted" and k["case"] == "fixed entries counted"
