"""C23: an estimator owns its parameters, masks and data, and modifies nothing of its caller."""
import itertools
import numpy as np
from mc import likes, problems, exprs
from mc.core import Outcome

PROPERTY = "C23"
RULE = ("The estimator and a caller that reuses its buffers are explored together: every sequence, up to the length "
        "bound, of fits (the data is written into the caller's buffers, whose views are passed), queries, resets and "
        "scribbles of the caller over the arrays and lists it passed or received. After every step the answers of the "
        "estimator are compared with those of a fresh one that got private arrays, and the arrays of the caller with "
        "what the caller last wrote.")
ASSUMPTIONS = ["a write into a result that the library refuses (ValueError: the array is read-only) counts as not made",
               "the parameters are given as views of the caller's arrays, the masks and index lists as such"]
LETTERS = ("fA", "fB", "bA", "xB", "q", "wP", "wM", "wD", "wR", "wL", "r")
LEN = {"quick": 3, "thorough": 4}


def specs():
    A = problems.all_specs()
    pick = [("Poisson", "add/mask"), ("Poisson", "pairhome/regcon"), ("Logistic", "one/mask"), ("Poisson", "one/con"),
            ("Finite", "score"), ("NegativeBinomial", "slope/con"), ("ZeroInflatedPoisson", "matrix/mask"),
            ("Finite", "poismask"), ("Poisson", "add/reg2"), ("NormalizedFinite", "mm")]
    return [next(s for s in A if s["fam"] == f and s["name"] == n and s["opt"] not in (1,)) for f, n in pick]


def bounds(tier):
    return {"letters": {"fA/fB/bA/xB": "fits (Newton, Broyden, failing) on data A/B", "q": "all queries",
                        "wP": "overwrite the arrays given as values", "wM": "invert the arrays given as fixed",
                        "wD": "overwrite the data arrays", "wR": "overwrite, mask and unmask everything received",
                        "wL": "clear the lists given as param_map", "r": "reset and give the parameters again"},
            "sequences": "all of length <= %d" % LEN[tier],
            "problems": [s["fam"] + ":" + s["name"] for s in specs()][:None if tier == "thorough" else 5], "tier": tier}


def groups(tier):
    return [{"i": i, "first": f, "tier": tier} for i in range(len(specs()) if tier == "thorough" else 5)
            for f in LETTERS]


def expand(g):
    for n in range(1, LEN[g["tier"]] + 1):
        for w in itertools.product(LETTERS, repeat=n - 1):
            w = (g["first"],) + w
            if n > 1 and not any(x[0] == "w" for x in w):
                continue            # no interference: C11 explores those
            yield dict(specs()[g["i"]], word=list(w))


class Caller(object):
    """holds the arrays it passes; `wrote` is what it knows they contain"""

    def __init__(self, case, vals):
        self.case = case
        cls = likes.family(case["fam"])
        m = self.m = cls() if case["opt"] is None else cls(case["opt"])
        m.model = exprs.make(case["e"])
        self.P, self.M, self.D, self.R, self.L = [], [], {}, [], []
        self.wrote, self.refused = [], False
        self.give(vals)
        for pm, h in case["reg"]:
            self.L.append(list(pm))
            m.add_regularization(self.L[-1], exprs.make(h))
        for pm, g in case["con"]:
            self.L.append(list(pm))
            m.add_constraint(self.L[-1], exprs.make(g))

    def note(self, a):
        self.wrote = [(b, v) for b, v in self.wrote if b is not a] + [(a, a.copy())]

    def give(self, vals):
        for k, v in enumerate(vals):
            q = np.asarray(self.case["mask"][k], dtype=bool).reshape(v.shape)
            if k < len(self.P):
                self.P[k][...], self.M[k][...] = v, q
            else:
                self.P.append(v.copy())
                self.M.append(q.copy())
            self.note(self.P[k]), self.note(self.M[k])
            self.m.add_param(self.P[k][...], self.M[k] if q.any() else None)

    def data(self, d):
        for k, v in likes.fit_args(self.case, d).items():
            if k not in self.D:
                self.D[k] = np.empty(v.shape)
            self.D[k][...] = v
            self.note(self.D[k])
        return {k: v[...] for k, v in self.D.items()}

    def write(self, a, f):
        try:
            f(a)
        except (ValueError, np.ma.MaskError):
            self.refused |= any(b is a for b, _ in self.wrote)
        if any(b is a for b, _ in self.wrote):
            self.note(a)

    def kept(self):
        return all(np.array_equal(b, v) for b, v in self.wrote)


def fit(m, method, steps, args):
    from maxlike.maxlike_base import ConvergenceError
    try:
        m.fit(method=method, max_steps=steps, tol=1e-9, **args)
        return "ok"
    except ConvergenceError:
        return "ConvergenceError"
    except np.linalg.LinAlgError:
        return "LinAlgError"


def answers(m, fitted, loaded):
    """(printable/comparable answers, the arrays themselves)"""
    got = list(m.get_params())
    vals = [np.ma.filled(p.astype(float), -99.) for p in got]
    vals += [np.array(p, dtype=float) for p in m.params] + [np.array([float(m.converged)])]
    if loaded:
        vals += [np.array([m.g(m.params)]), np.array([m.akaine_information_criterion()]),
                 np.array([m.bayesian_information_criterion(1)])]
    if fitted:
        for r in m.fisher_matrix(), m.error_matrix():
            blocks = [b for row in r for b in row]
            got += blocks
            vals += [np.array(b, dtype=float) for b in blocks]
    return vals, got


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True)
                                    for x, y in zip(a, b))


def scribble(a):
    if isinstance(a, np.ma.MaskedArray):
        for f in (lambda x: x.__setitem__(Ellipsis, np.ma.masked), lambda x: x.mask.__setitem__(Ellipsis, True),
                  lambda x: setattr(x, "mask", np.zeros(x.shape, bool)), lambda x: x.__setitem__(Ellipsis, 77.),
                  lambda x: x.data.__setitem__(Ellipsis, 55.)):
            try:
                f(a)
            except (ValueError, TypeError, np.ma.MaskError):
                pass
    else:
        a[...] = 77.


def check(case):
    n = int(np.prod(case["fs"], dtype=int)) if not case["ds"] else 3
    D = {"A": problems.data_of(case, [1 + (5 * i * i + i) % 4 for i in range(8)][:n], 0),
         "B": problems.data_of(case, [1 + (3 * i + 2) % 4 for i in range(8)][:n], 1)}
    v0 = problems.start(case, 0)
    c = Caller(case, v0)
    m = c.m
    vals, data, hess, conv = v0, None, None, False
    st, T = [], 0
    for k, op in enumerate(case["word"]):
        if op in ("fA", "fB", "bA", "xB"):
            method, steps = "broyden" if op == "bA" else "newton", 1 if op == "xB" else 60
            ref = likes.build(case, vals)
            had = set(vars(ref)) | set(likes.fit_args(case, D[op[1]]))
            a = fit(m, method, steps, c.data(D[op[1]]))
            b = fit(ref, method, steps, likes.fit_args(case, D[op[1]]))
            T += 1
            if a != b:
                return Outcome(st, T, "step %d (%s): %s, on private arrays: %s" % (k, op, a, b), op)
            data, conv = D[op[1]], b == "ok"
            if b == "ok":
                vals = [np.array(p, dtype=float) for p in ref.params]
                hess = {k: v for k, v in vars(ref).items() if k not in had}     # left for the errors
        elif op == "r":
            m.reset_params()
            try:
                c.give(v0)
            except ValueError:
                return Outcome(st, T, "step %d: the library made an array of the caller read-only" % k, "frozen")
            vals, hess, conv = v0, None, m.converged
        elif op == "wP":
            for a in c.P:
                c.write(a, lambda x: x.__setitem__(Ellipsis, 9.5))
        elif op == "wM":
            for a in c.M:
                c.write(a, lambda x: x.__setitem__(Ellipsis, ~x))
        elif op == "wD":
            for a in c.D.values():
                c.write(a, lambda x: x.__setitem__(Ellipsis, 31.))
        elif op == "wL":
            for a in c.L:
                a[:] = [0] * len(a)
        elif op == "wR":
            for a in c.R:
                c.write(a, scribble)
        ref = likes.build(case, vals)
        if data is not None:
            likes.load(ref, case, data)
        ref.converged = conv
        if hess is not None:
            vars(ref).update(hess)
        a, got = answers(m, hess is not None, data is not None)
        b, _ = answers(ref, hess is not None, data is not None)
        T += 1
        if not same(a, b):
            return Outcome(st, T, "after step %d (%s) the estimator answers differently than one with private arrays"
                           % (k, op), op + " answers")
        if not c.kept():
            return Outcome(st, T, "step %d (%s) modified an array of the caller" % (k, op), op + " caller")
        if c.refused:
            return Outcome(st, T, "step %d (%s): the caller cannot write its own array" % (k, op), "frozen")
        if op == "q":
            c.R += got
        st.append((case["fam"], case["name"], op, repr([x.round(6).tolist() for x in vals]), data is D["A"],
                   data is None, hess is not None, conv, len(c.R) > 0, [float(np.sum(x)) for x in c.P].__repr__()))
    return Outcome(st, T, observed=[case["fam"], case["name"], [x.round(5).tolist() for x in vals], case["word"][-1]])
