"""C08: objective, gradient and Hessian used by the fit are those of the documented likelihood."""
import itertools
import math
import numpy as np
from mc import likes, exprs, jets
from mc.core import Outcome

PROPERTY = "C08"
RULE = ("Every likelihood family x model x pattern of fixed entries x regularization x constraint x data set: "
        "the real objective (up to a term depending on the data only), the flattened gradient and the "
        "flattened Hessian (bordered by the constraints) at two points are compared with exact derivatives of "
        "the reference log-likelihood minus the regularization; the Newton step solves that system. With one observation "
        "per cell, every outcome of two or three cells: the objective is the mean log-probability of the outcome, and "
        "these probabilities sum to one over the outcomes.")
ASSUMPTIONS = [
    "values in general position, data sets with zero counts, empty cells and non-integer weights included",
    "with several observations per cell the objective is compared up to a term that depends on the data only (their "
    "probability is not a function of the aggregates)",
]


def bounds(tier):
    return {"families": list(likes.FAMS), "models": [m[0] for m in likes.real_models() + likes.frame_models()],
            "fixed-entry patterns": "all subsets (at least one free entry)" if tier == "thorough" else
            "all subsets with at most 1 fixed or 1 free entries, and then not both a regularization and a "
            "constraint", "data sets": 3, "points": 2, "regimes (no or all-but-one fixed entries)": "weights 1e-4 and 1e6 "
            "times as large; parameters 4 times as large", "single observations":
            "every outcome in 0..%d (0..1, one of 3) of 2 cells (thorough: 3 cells without extremes), values of the "
            "model %s, options %s" % (TOP, YS, OPTIONS), "tier": tier}


TOP = 6
YS = (-2.0, -0.4, 0.0, 0.7, 1.9, -16.0, 3.6)       # the last two are extremes
SCALE = {3: (0, 1e-4, 1), 4: (1, 1e6, 1), 5: (0, 1, 4)}     # data set, its scale, that of the parameters
OPTIONS = {"Poisson": [None], "ZeroInflatedPoisson": [None, 1, 2.5, 0.4], "NegativeBinomial": [None, 1, 2.5, 0.4],
           "Logistic": [None], "Finite": [None, 1], "NormalizedFinite": [None, 1]}


def specs():
    out = []
    for fam in likes.FAMS:
        for opt in {"ZeroInflatedPoisson": [1, 2.5], "NegativeBinomial": [1, 2.5], "Finite": [None],
                    "NormalizedFinite": [None]}.get(fam, [None]):
            if fam in ("Finite", "NormalizedFinite"):
                for name, e, p, fs, ds in likes.frame_models():
                    out.append({"fam": fam, "opt": len(ds) if len(ds) > 1 else None, "name": name, "e": e,
                                "p": [list(s) for s in p], "fs": fs, "ds": ds})
            else:
                for name, e, p, fs in likes.real_models():
                    out.append({"fam": fam, "opt": opt, "name": name, "e": e,
                                "p": [list(s) for s in p], "fs": fs, "ds": ()})
    return out


def groups(tier):
    return [{"i": i, "d": d, "tier": tier} for i in range(len(specs())) for d in range(6)] + \
        [{"prob": f, "opt": o, "tier": tier} for f in OPTIONS for o in OPTIONS[f]]


def expand(g):
    if "prob" in g:
        for y in itertools.chain(itertools.product(range(len(YS)), repeat=2),
                                 itertools.product(range(5), repeat=3) if g["tier"] == "thorough" else ()):
            yield {"prob": g["prob"], "opt": g["opt"], "y": list(y)}
        return
    sp = specs()[g["i"]]
    shapes = [tuple(s) for s in sp["p"]]
    for mask in likes.masks(shapes, None if g["tier"] == "thorough" else 1):
        fixed = sum(map(sum, mask))
        if g["d"] in SCALE and 0 < fixed < sum(map(len, mask)) - 1:
            continue
        for r, reg in enumerate(likes.regs(shapes)):
            for c, con in enumerate(likes.cons(shapes)):
                if (g["tier"] == "quick" and fixed or g["d"] in SCALE) and r and c:
                    continue
                case = dict(sp, mask=mask, reg=reg, con=con, data=g["d"])
                yield case


def cmp(a, b, what, scale=1):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return "%s has shape %s, expected %s" % (what, a.shape, b.shape)
    bad = ~np.isclose(a, b, rtol=1e-8, atol=1e-8 * scale)
    if bad.any():
        i = tuple(int(v[0]) for v in np.nonzero(bad)) if a.ndim else ()
        return "%s%s is %r, expected %r" % (what, list(i), float(a[i]), float(b[i]))
    return None


def probability(fam, opt, y, x):
    """of the outcome x of one observation"""
    m = math.exp(y)
    if fam == "Poisson":
        return math.exp(-m) * m ** x / math.factorial(x)
    if fam == "ZeroInflatedPoisson":
        s = 1 if opt is None else opt
        return (s if x == 0 else m ** x / math.factorial(x)) / (math.exp(m) + s - 1)
    if fam == "Logistic":
        return m / (1 + m) if x else 1 / (1 + m)
    if fam == "NegativeBinomial":
        r = 1 if opt is None else opt
        c = 1.0
        for k in range(x):
            c *= (r + k) / (k + 1) * m / (r + m)
        return c * (r / (r + m)) ** r
    w = [1.0, m, 0.5]       # three classes
    return w[x] / sum(w)


def outcomes(fam):
    return 2 if fam == "Logistic" else 3 if "Finite" in fam else TOP + 1


def check_prob(case):
    """the objective of every outcome of independent cells, one observation each"""
    from maxlike.func import X
    from maxlike.maxlike_base import ConvergenceError
    from maxlike.tensor import Tensor
    fam, opt = case["prob"], case["opt"]
    ys = [YS[k] for k in case["y"]]
    st, total, n = [], 0.0, len(ys)
    for xs in itertools.product(range(outcomes(fam)), repeat=n):
        cls = likes.family(fam)
        m = cls() if opt is None else cls(opt)
        x = np.array(xs, dtype=float)
        if "Finite" in fam:
            w = np.array([[1.0, math.exp(y), 0.5] for y in ys])
            N = np.zeros((n, 3))
            N[np.arange(n), xs] = 1
            m.model = X()
            m.add_param(w if fam == "Finite" else w / w.sum(1, keepdims=True))
            data = {"N": N}
            y = Tensor(np.asarray(m.params[0]), dim=1)
        else:
            m.model = X()
            m.add_param(np.array(ys))
            data = {"N": np.ones(n), "X": x}
            if fam == "ZeroInflatedPoisson":
                data["Z"] = (x == 0) * 1.0
            y = None
        if y is None:
            try:
                m.fit(max_steps=0, **data)
            except ConvergenceError:
                pass
        else:
            m.N = Tensor(data["N"], dim=1)
        got = m.g(m.params, y) * n
        want = sum(math.log(probability(fam, opt, v, k)) for v, k in zip(ys, xs))
        st.append((fam, opt, tuple(case["y"]), xs))
        if not abs(got - want) <= 1e-9 * (1 + abs(want)):
            return Outcome(st, len(st), "%s(%s), model values %s, one observation each: the objective of %s is %r, the "
                           "log-probability %r" % (fam, "" if opt is None else opt, ys, xs, got, want), fam + " probability")
        total += math.exp(got)
    if fam in ("Logistic", "Finite", "NormalizedFinite") and abs(total - 1) > 1e-9:
        return Outcome(st, len(st), "the probabilities sum to %r" % total, fam + " probability")
    return Outcome(st, len(st), observed=round(total, 6))


def check(case):
    if "prob" in case:
        return check_prob(case)
    shapes = [tuple(s) for s in case["p"]]
    which, scale, far = SCALE.get(case["data"], (case["data"], 1, 1))
    data = {k: v * scale for k, v in likes.dataset(case, which).items()}
    pos = exprs.contains(case["e"], exprs.POSITIVE)
    points = [[v * far for v in exprs.valuation(shapes, pos, s)] for s in (0, 5)]
    mle = likes.build(case, points[0])
    likes.load(mle, case, data)
    n = float(np.sum(data["N"]))
    st, objs = [], []
    T = 0
    for k, vals in enumerate(points):
        params = tuple(mle.params)
        if k:
            mle2 = likes.build(case, vals)
            params = tuple(mle2.params)
        y, der, hess = mle.model.eval(params)
        f, G, H = likes.kkt(case, vals, data)
        objs.append((mle.g(params) * n, f))
        got = mle.flat_grad(params, y, der), mle.flat_hess(params, y, der, hess)
        for what, a, b in (("gradient", got[0], G), ("Hessian", got[1], H)):
            T += 1
            msg = cmp(a, b, what, scale)
            if msg:
                return Outcome(st, T, "point %d: %s" % (k, msg), case["fam"] + " " + what)
    T += 1
    st.append((case["fam"], case["opt"], case["name"], str(case["mask"]), str(case["reg"]), str(case["con"]),
               case["data"]))
    if case["data"] not in SCALE and np.linalg.svd(H, compute_uv=False).min() > 1e-6:
        T += 1
        msg = cmp(mle.newton_step(params)[0], np.linalg.solve(H, G)[:len(G) - len(case["con"])], "Newton step")
        if msg:
            return Outcome(st, T, msg, case["fam"] + " step")
    d = (objs[1][0] - objs[0][0]) - (objs[1][1] - objs[0][1])
    if not abs(d) <= 1e-8 * (1 + abs(objs[1][1]) + abs(objs[0][1])):
        return Outcome(st, T, "change of the objective is %r, expected %r" % (
            objs[1][0] - objs[0][0], objs[1][1] - objs[0][1]), case["fam"] + " objective")
    return Outcome(st, T, observed=[round(f, 6), np.round(G, 5).tolist()])
