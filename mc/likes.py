"""Reference likelihoods (jets) and the builder of MaxLike objects for the code under test.

A case is a dict
  fam   likelihood family          opt   its constructor argument (or None)
  e, p  model expression, parameter shapes       fs, ds  feature / extra dimension sizes
  mask  one 0/1 list per parameter (1 = fixed)
  reg   list of [param_map, expr]                con   list of [param_map, expr]
  data  index of the data set
"""
import numpy as np
from . import exprs, jets

FAMS = ("Poisson", "ZeroInflatedPoisson", "Logistic", "NegativeBinomial", "Finite", "NormalizedFinite", "Gauss",
        "Square")
_user = {}


def family(name):
    """the estimator class; Gauss and Square are written here, as a user would write them"""
    import maxlike
    if hasattr(maxlike, name):
        return getattr(maxlike, name)
    if not _user:
        from maxlike.maxlike_base import MaxLike

        class Gauss(MaxLike):
            """X sums of N normal observations of mean y, variance one"""
            def __init__(self):
                MaxLike.__init__(self)

            def like(self, params, y):
                return (self.X * y - self.N * y * y * .5).sum()

            def grad_like(self, params, y, der):
                delta = self.X - self.N * y
                return [(d * delta).sum() for d in der]

            def hess_like(self, params, y, der, hess):
                delta = self.X - self.N * y
                return [[(hess[i][j] * delta - der[i] * der[j].transpose() * self.N).sum()
                         for j in range(i + 1)] for i in range(len(der))]

        class Square(MaxLike):
            """weighted least squares; computes its pieces with its own loops"""
            def __init__(self):
                MaxLike.__init__(self)

            def like(self, params, y):
                r = self.X - y
                return (r * r * self.N).sum() * -.5

            def grad_like(self, params, y, der):
                out = []
                for d in der:
                    out.append((self.N * (self.X - y) * d).sum())
                return out

            def hess_like(self, params, y, der, hess):
                return [[((self.X - y) * self.N * hess[i][j]).sum() - (der[i] * self.N * der[j].transpose()).sum()
                         for j in range(i + 1)] for i in range(len(der))]
        _user.update(Gauss=Gauss, Square=Square)
    return _user[name]


# ------------------------------------------------------------------------------------------------
# reference
# ------------------------------------------------------------------------------------------------

def total(j):
    return jets.sum_axes(j, range(j.v.ndim), 0)


def loglik(fam, opt, y, data, P):
    """log-likelihood up to a term that only depends on the data"""
    nd = y.nd
    N = jets.const(data["N"], P, nd)
    if fam in ("Finite", "NormalizedFinite"):
        full = jets.add(y, jets.const(np.zeros_like(data["N"]), P, nd))
        r = jets.log(full)
        if fam == "Finite":
            z = jets.sum_axes(full, range(full.nf, full.nf + nd), 0)
            lz = jets.log(z)
            ex = (slice(None),) * lz.nf + (None,) * nd
            lz = jets.amap(lz, lambda v: v[ex], nd=nd)
            r = jets.add(r, jets.scale(lz, -1.0))
        return total(jets.mul(N, r))
    X = jets.const(data["X"], P)
    if fam == "Poisson":
        return total(jets.add(jets.mul(X, y), jets.scale(jets.mul(N, jets.exp(y)), -1.0)))
    if fam == "Gauss":
        return total(jets.add(jets.mul(X, y), jets.scale(jets.mul(N, jets.mul(y, y)), -0.5)))
    if fam == "Square":
        r = jets.add(X, jets.scale(y, -1.0))
        return total(jets.scale(jets.mul(N, jets.mul(r, r)), -0.5))
    if fam == "ZeroInflatedPoisson":
        s = opt
        m = jets.exp(y)
        norm = jets.add(m, jets.log(jets.scale(jets.exp(jets.scale(m, -1.0)), s - 1.0, 1.0)))
        return total(jets.add(jets.mul(X, y), jets.scale(jets.mul(N, norm), -1.0)))
    if fam == "Logistic":
        lp = jets.scale(jets.log(jets.scale(jets.exp(jets.scale(y, -1.0)), 1.0, 1.0)), -1.0)
        lq = jets.scale(jets.log(jets.scale(jets.exp(y), 1.0, 1.0)), -1.0)
        F = jets.const(data["N"] - data["X"], P)
        return total(jets.add(jets.mul(X, lp), jets.mul(F, lq)))
    if fam == "NegativeBinomial":
        r = opt
        c = jets.const(data["X"] + r * data["N"], P)
        return total(jets.add(jets.mul(X, y), jets.scale(
            jets.mul(c, jets.log(jets.scale(jets.exp(y), 1.0, r))), -1.0)))
    raise ValueError(fam)


def objective(case, vals, data):
    """jet of log-likelihood minus regularization (not divided by the number of observations)"""
    key = repr((case["fam"], case["opt"], case["e"], [v.tobytes() for v in vals],
                {k: v.tobytes() for k, v in data.items()}))
    memo = _memo.get(key)
    if memo is None:
        if len(_memo) > 8:
            _memo.clear()
        args, P = jets.params_jets(vals)
        y = jets.ev(case["e"], args, P)
        _memo[key] = memo = args, P, loglik(case["fam"], case["opt"], y, data, P), {}
    args, P, r, terms = memo

    def term(pm, h):
        k = repr((pm, h))
        if k not in terms:
            terms[k] = jets.ev(h, [args[i] for i in pm], P)
        return terms[k]
    for pm, h in case.get("reg", ()):
        r = jets.add(r, jets.scale(term(pm, h), -1.0))
    return r, [term(pm, g) for pm, g in case.get("con", ())], P


_memo = {}


def free_index(case):
    """positions of the free entries in the concatenation of all flattened parameters"""
    return np.nonzero(~np.concatenate([np.asarray(m, dtype=bool).ravel() for m in case["mask"]]))[0]


def kkt(case, vals, data):
    """reference (objective, flat gradient, flat Hessian) in the layout of MaxLike"""
    r, cons, P = objective(case, vals, data)
    F = free_index(case)
    G = np.concatenate([r.g[F], [float(c.v) for c in cons]])
    A = np.array([c.g[F] for c in cons]).reshape(len(cons), len(F))
    H = np.block([[r.h[np.ix_(F, F)], A.T], [A, np.zeros((len(cons),) * 2)]])
    return float(r.v), G, H


# ------------------------------------------------------------------------------------------------
# the code under test
# ------------------------------------------------------------------------------------------------

def build(case, vals):
    cls = family(case["fam"])
    m = cls() if case["opt"] is None else cls(case["opt"])
    m.model = exprs.make(case["e"])
    for v, k in zip(vals, case["mask"]):
        k = np.asarray(k, dtype=bool).reshape(v.shape)
        m.add_param(v.copy() if v.ndim else float(v), k if k.any() else None)
    for pm, h in case.get("reg", ()):
        m.add_regularization(pm if len(pm) > 1 else pm[0], exprs.make(h))
    for pm, g in case.get("con", ()):
        m.add_constraint(pm if len(pm) > 1 else pm[0], exprs.make(g))
    return m


def fit_args(case, data):
    out = {"N": data["N"].copy()}
    if "X" in data:
        out["X"] = data["X"].copy()
    if case["fam"] == "ZeroInflatedPoisson":
        out["Z"] = data["Z"].copy()
    return out


def load(m, case, data):
    """give the data to the object without moving the parameters"""
    from maxlike.maxlike_base import ConvergenceError
    try:
        m.fit(max_steps=0, **fit_args(case, data))
    except ConvergenceError:
        return
    raise AssertionError("fit with no steps did not raise")


def cells(shape, salt, lo, hi):
    n = int(np.prod(shape, dtype=int))
    k = np.arange(n)
    return (lo + ((k * k * 7 + k * 5 + salt * 11 + 3) % 23) % (hi - lo + 1)).reshape(shape).astype(float)


def dataset(case, k):
    """k-th data set; k = 0 generic, then zeros in X, empty cells in N, non-integer data"""
    fs, ds = tuple(case["fs"]), tuple(case["ds"])
    fam = case["fam"]
    if fam in ("Finite", "NormalizedFinite"):
        N = cells(fs + ds, k, 1, 6)
        if k % 3 == 1:
            N = np.where(np.arange(N.size).reshape(N.shape) % 3 == 1, 0, N)
        if k % 3 == 2:
            N = N / N.sum()
        return {"N": N}
    N = cells(fs, k, 3, 8)
    X = np.minimum(cells(fs, k + 4, 1, 6), N - 1 if fam == "Logistic" else 99)
    Z = np.minimum(cells(fs, k + 9, 1, 3), N - 1)
    if k % 3 == 1:
        X = np.where(np.arange(X.size).reshape(fs) % 2 == 1, 0, X)
    if k % 3 == 2:
        e = np.arange(X.size).reshape(fs) % 3 == 1
        N, X, Z = np.where(e, 0, N), np.where(e, 0, X), np.where(e, 0, Z)
    return {"N": N, "X": X, "Z": Z}


# ------------------------------------------------------------------------------------------------
# models
# ------------------------------------------------------------------------------------------------

def S(n, *atoms, **kw):
    return ["Sum", n, kw.get("d", 0), [list(a) for a in atoms]]


def real_models():
    """(name, expr, param shapes, feature sizes) with unrestricted range"""
    X, E = ["X"], ["Exp"]
    V2, V3 = ["Vec", [0.7, -1.3]], ["Vec", [0.4, 1.1, -0.6]]
    return [
        ("const", S(1, (["Scalar"], [0], [], None, 1.0)), [()], (2,)),
        ("one", ["X"], [(2,)], (2,)),
        ("one0", S(2, (X, [0], [0], None, 1.0)), [(2,)], (2, 2)),
        ("one1", S(2, (X, [0], [1], None, -2.0)), [(3,)], (2, 3)),
        ("add", S(2, (X, [0], [0], None, 1.0), (X, [1], [1], None, -1.0)), [(2,), (3,)], (2, 3)),
        ("addswap", S(2, (X, [1], [0], None, 1.0), (X, [0], [1], None, 0.5), (["Scalar"], [2], [], None, 1.0)),
         [(2,), (2,), ()], (2, 2)),
        ("pair", S(2, (X, [0], [0], None, 1.0), (X, [0], [1], None, -1.0)), [(2,)], (2, 2)),
        ("pairhome", S(2, (X, [0], [0], None, 1.0), (X, [1], [1], None, -1.0), (["Scalar"], [2], [], None, 1.0)),
         [(2,), (2,), ()], (2, 2)),
        ("matrix", S(2, (X, [0], [1, 0], None, 1.0)), [(2, 2)], (2, 2)),
        ("full", S(2, (X, [0], [0, 1], None, 1.0), (X, [1], [0], None, 1.0)), [(2, 2), (2,)], (2, 2)),
        ("slope", S(1, (V3, [0], [0], None, 1.0), (["Scalar"], [1], [], None, 1.0)), [(), ()], (3,)),
        ("prod", ["Prod", 2, 0, [[X, [0], [0], None], [X, [1], [1], None]]], [(2,), (2,)], (2, 2)),
        ("prodself", ["Prod", 2, 0, [[X, [0], [0], None], [X, [0], [1], None]]], [(2,)], (2, 2)),
        ("expsum", S(2, (E, [0], [0], None, 0.5), (X, [1], [1], None, 1.0), (V2, [2], [0], None, 1.0)),
         [(2,), (2,), ()], (2, 2)),
        ("comp", ["Comp", ["Logistic"], [S(2, (X, [0], [1], None, 1.0), (X, [1], [0], None, 1.0))]],
         [(2,), (2,)], (2, 2)),
        ("unused", S(1, (X, [1], [0], None, 1.0)), [(2,), (2,)], (2,)),
        ("three", S(3, (X, [0], [0], None, 1.0), (X, [1], [2], None, 1.0), (X, [0], [1], None, -0.5)),
         [(2,), (2,)], (2, 2, 2)),
    ]


def frame_models():
    """(name, expr, param shapes, feature sizes, dim sizes) with positive values and extra dimensions"""
    X, E, L = ["X"], ["Exp"], ["Logistic"]
    r1 = S(2, (X, [0], [0], None, 1.0), (X, [1], [1], None, -1.0))
    r2 = S(2, (X, [0], [1], None, 1.0), (X, [1], [0], None, -1.0))
    one = ["Comp", E, [X]]
    p, q = ["Comp", L, [r1]], ["Comp", L, [r2]]
    ab = [(2,), (2,)]
    score = ["Prod", 2, 2, [[["Comp", ["Poisson", 2], [["Comp", E, [r1]]]], [0, 1], [0, 1], [0]],
                            [["Comp", ["Poisson", 3], [["Comp", E, [r2]]]], [0, 1], [0, 1], [1]]]]
    return [
        ("pois", ["Comp", ["Poisson", 3], [one]], [(2,)], (2,), (3,)),
        ("pois0", ["Comp", ["Poisson", 3], [E]], [()], (), (3,)),
        ("nb", ["Comp", ["NB", 3, 2], [["Comp", E, [X]]]], [(2,)], (2,), (3,)),
        ("poisab", ["Comp", ["Poisson", 3], [["Comp", E, [r1]]]], ab, (2, 2), (3,)),
        ("poisbc", S(2, (["Comp", ["Poisson", 3], [["Comp", E, [X]]]], [0], [0], [0], 1.0), d=1),
         [(2,)], (2, 2), (3,)),
        ("score", score, ab, (2, 2), (2, 3)),
        ("wld", ["Comp", ["CM", None], [score]], ab, (2, 2), (3,)),
        ("mv", ["Comp", ["MV", 2, 2, None], [p, q]], ab, (2, 2), (3,)),
        ("mm", ["Comp", ["MM", 2, 2, None], [p, q]], ab, (2, 2), (2, 2)),
        ("mmskew", ["Comp", ["MM", 2, 3, [[1., .9], [.8, 1.1]]], [["Comp", L, [X]], ["Comp", L, [["X"]]]]],
         [(2,)], (2,), (2, 2)),
        ("game", ["Comp", ["Game"], [["Comp", L, [X]]]], [(2,)], (2,), (4,)),
        ("wcm", ["Comp", ["CM", [[1, 1, -2, 0], [1, 1, -2, 1], [1, 1, -2, -1]]], [score]], ab, (2, 2), (3,)),
    ]


def masks(shapes, limit=None):
    """every pattern of fixed entries with at least one free entry"""
    n = sum(int(np.prod(s, dtype=int)) for s in shapes)
    for bits in range(2 ** n - 1):
        b = [(bits >> i) & 1 for i in range(n)]
        if limit is not None and limit < sum(b) < n - 1:
            continue
        out, k = [], 0
        for s in shapes:
            m = int(np.prod(s, dtype=int))
            out.append(b[k:k + m])
            k += m
        yield out


def regs(shapes):
    """regularizations: on one parameter, on several (ordered, reversed, repeated), several terms"""
    n = len(shapes)
    out = [[], [[[0], ["Quad", 0.3, 1.5]]]]
    cross = ["Coll", ["Prod", 2, 0, [[["Coll", ["X"], True, True], [1], [], None],
                                     [["Coll", ["Exp"], True, True], [0], [], None]]], True, True]
    if n > 1:
        out.append([[[1, 0], ["Quad", 0, 2.0]], [[1, 0], cross]])
        out.append([[[0], ["Quad", 0, 1.0]], [[0, 1], cross]])
        if shapes[0] == shapes[1]:
            out.append([[[0, 0], ["Quad", 0, 1.0]], [[0, 0], cross]])
    return out


def cons(shapes):
    """constraints: weighted sums of one or several parameters, with an offset, non-linear ones"""
    n = len(shapes)
    out = [[], [[[0], ["Lin", [1.0]]]]]
    if n > 1:
        out.append([[[1, 0], ["Lin", [1.0, -0.5]]]])
        out.append([[[0], ["Aff", ["Lin", [2.0]], 1, -0.7]], [[1], ["Lin", [1.0]]]])
        if shapes[0] == shapes[1]:
            out.append([[[0, 0], ["Lin", [1.0, -0.5]]]])
    out.append([[[n - 1], ["Quad", 0.1, 1.0]]])
    return out
