"""C09: whenever fit returns, the parameters are a constrained optimum of the documented objective."""
import itertools
import numpy as np
from mc import likes, problems
from mc.core import Outcome

PROPERTY = "C09"
RULE = ("Every family x identified problem (constraints, fixed entries, regularization) x data set over a "
        "3-letter alphabet x starting point x method: fit() is executed; when it returns, the reference "
        "gradient projected on the constraints must vanish, the constraints must hold, the projected Hessian "
        "must be negative, and the objective must not be worse than at a feasible start; Newton fits must "
        "return; refitting from the result must return and stay. Fits on a fresh estimator with every small "
        "budget of steps must either raise ConvergenceError or return at an optimum too.")
ASSUMPTIONS = [
    "well-posed problems: identified, optimum in the interior, data cells 1..4 of 6 or more observations, "
    "starting points with entries 0, +-0.3, +-0.4, +-1; fits from far starting points (entries +-7, +-9 with a finite "
    "objective) may fail, and may end on a plateau of the objective: only the gradient and the constraints are checked",
    "non-linear constraints hold up to 2e-4 (Newton) and 1e-5 (Broyden); fits of problems whose constraints are "
    "inconsistent must fail",
    "tolerances: projected gradient 1e-4 (Newton) and 2e-2 (Broyden) for counts of order 10, with tol = 1e-8 (Newton) and 1e-12 (Broyden)",
    "Broyden fits may raise ConvergenceError from far starting points, Newton fits only from starting points that break a constraint",
]
STARTS = {"quick": (0, 2, 5), "thorough": (0, 1, 2, 3, 4, 5, 6)}
FAR = (5, 6)


def specs():
    return problems.all_specs() + problems.special_specs()


ALPHA = (1, 2, 4)
SCALES = (1e-5, 1e-2, 1e5)
BUDGETS = {"quick": (1, 2, 4), "thorough": (1, 2, 3, 4, 5, 6, 8)}


def bounds(tier):
    return {"problems": [s["fam"] + ":" + s["name"] for s in specs()], "data alphabet": ALPHA,
            "data cells": "all words over the alphabet (quick: over {1, 4} when there are 4 cells)",
            "starts": STARTS[tier], "scales of the data (no regularization)": SCALES, "budgets of steps": BUDGETS[tier], "methods": ["newton", "broyden"], "tier": tier}


def groups(tier):
    return [{"i": i, "tier": tier, "x": x} for i in range(len(specs())) for x in ALPHA]


def words(sp, tier):
    n = int(np.prod(sp["fs"], dtype=int)) if not sp["ds"] else 3
    return itertools.product(ALPHA, repeat=n)


def expand(g):
    sp = specs()[g["i"]]
    for w in words(sp, g["tier"]):
        if w[0] != g["x"] or (g["tier"] == "quick" and len(w) > 3 and 2 in w):
            continue
        for k in STARTS[g["tier"]]:
            for m in ("newton", "broyden"):
                for nk in ((0, 1) if g["tier"] == "thorough" and len(w) < 4 else (w[-1] % 2,)):
                    yield dict(sp, cells=list(w), start=k, method=m, nk=nk, budgets=BUDGETS[g["tier"]])
                if k == 0 and not sp["reg"] and m == "newton":
                    for c in SCALES[sp["fam"] == "NegativeBinomial":]:       # whose constant terms do not scale
                        yield dict(sp, cells=list(w), start=k, method=m, nk=0, budgets=(), scale=c)


def current(m):
    return [np.array(p, dtype=float) for p in m.params]


def check(case):
    from maxlike.maxlike_base import ConvergenceError
    scale = case.get("scale", 1)
    data = {k: v * scale for k, v in problems.data_of(case, case["cells"], case["nk"]).items()}
    special, far = case.get("returns"), case["start"] in FAR
    failures = Exception if far else (ConvergenceError, np.linalg.LinAlgError, ValueError) if special else ConvergenceError
    vals = problems.start(case, case["start"])
    newton = case["method"] == "newton"
    m = likes.build(case, vals)
    st, T = [], 0
    f_prev, feasible = None, False
    if far:
        likes.load(m, case, data)
        if not abs(m.g(m.params)) < 1e6:        # the objective overflows
            return Outcome((), 1, observed="overflow", nontrivial=False)
    else:
        r0 = problems.residual(case, vals, data)
        f_prev, feasible = r0[3], r0[1] < 1e-12
    args = dict(method=case["method"], tol=1e-8 if newton else 1e-12, **likes.fit_args(case, data))
    # constraints that are not linear hold up to the square root of the tolerance
    gtol = scale * (20 if scale != 1 else 1) * (2e-3 if special else 1e-4) if newton else 2e-2
    ctol = 2e-4 if special and newton else 1e-5 if special else 1e-6
    # budgets of steps too small for most fits: a fit that returns nevertheless is at an optimum
    for k in case["budgets"]:
        T += 1
        b = likes.build(case, vals)
        try:
            b.fit(max_steps=k, **args)
        except failures:
            continue
        g, c, h, f = problems.residual(case, current(b), data)
        if not (g <= gtol and c <= ctol and (far or h <= 1e-6)) or special == "no":
            return Outcome(st, T, "fit with %d steps returned with projected gradient %.3g, constraints violated by "
                           "%.3g, curvature %.3g" % (k, g, c, h), case["fam"] + " budget")
    for rep in range(2):
        T += 1
        try:
            ret = m.fit(max_steps=100, **args)
        except failures as err:
            if not far and (newton and feasible or rep or special == "yes") and special not in ("may", "no"):
                return Outcome(st, T, "fit %d raised %s" % (rep, err), case["fam"] + " no convergence")
            return Outcome(st, T, observed="ConvergenceError", nontrivial=False)
        if ret is not True or m.converged is not True:
            return Outcome(st, T, "fit returned %r with converged=%r" % (ret, m.converged), "flag")
        v = current(m)
        g, c, h, f = problems.residual(case, v, data)
        h = h / scale
        st.append((case["fam"], case["name"], str(case["cells"]), scale, rep, str(np.round(np.concatenate(
            [x.ravel() for x in v]), 4))))
        if not g <= gtol:
            return Outcome(st, T, "projected gradient %.3g at the result of fit %d" % (g, rep),
                           case["fam"] + " gradient")
        if not c <= ctol or special == "no":
            return Outcome(st, T, "constraint violated by %.3g at the result of fit %d" % (c, rep),
                           case["fam"] + " constraint")
        if not far and not h <= 1e-6:
            return Outcome(st, T, "the result of fit %d is not a maximum (curvature %.3g)" % (rep, h),
                           case["fam"] + " curvature")
        if (rep or feasible) and not f >= f_prev - 1e-6 * (scale + abs(f_prev)):
            return Outcome(st, T, "objective went from %r to %r" % (f_prev, f), case["fam"] + " objective")
        f_prev = f
    return Outcome(st, T, observed=[np.round(x, 4).tolist() for x in v])
