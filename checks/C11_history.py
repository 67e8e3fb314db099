"""C11: what a fit produces depends on parameters, data and method, not on what was done before."""
import contextlib
import io
import itertools
import numpy as np
from mc import likes, problems, exprs
from mc.core import Outcome

PROPERTY = "C11"
RULE = ("Every sequence, up to the stated length, of operations on two estimators that share one model "
        "function (fits on two data sets by both methods, failing fits, queries, reset and re-adding of "
        "parameters, adding a constraint or a regularization) is executed on the long-lived objects; after "
        "every step the result is compared with the same operation on a fresh object put in the state the "
        "history should have produced (the reference state machine). The long-lived objects fit with every level of "
        "verbosity, the fresh ones silently.")
ASSUMPTIONS = [
    "the reference state of an estimator is (parameters and masks, data, constraints, regularizations, Hessian "
    "of the last successful fit); operations outside the listed alphabet are not explored",
]

LETTERS = ("fA", "fB", "bA", "xB", "xbA", "q", "r0", "r1", "F2")
EXTRA = ("c", "g")


def bounds(tier):
    return {"operations": {"fA/fB": "Newton fit on data A/B", "bA": "Broyden fit on A", "xB": "failing Newton fit "
            "on B (one step)", "xbA": "failing Broyden fit", "q": "all queries", "r0/r1": "reset_params and add "
            "other parameters (r1 with fixed entries)", "F2": "fit of the second estimator (other data)",
            "c": "add a constraint", "g": "add a regularization"},
            "sequences": "all of length <= %d, and all of length <= %d with one c or g" % LEN[tier],
            "problems": [p["fam"] + ":" + p["name"] for p in specs()][:None if tier == "thorough" else 5], "tier": tier}


LEN = {"quick": (3, 3), "thorough": (4, 4)}


def specs():
    A = problems.all_specs()
    pick = [("Poisson", "add/reg"), ("Poisson", "pairhome/regcon"), ("Logistic", "add/mask"), ("Finite", "score"),
            ("NegativeBinomial", "one/free"), ("ZeroInflatedPoisson", "slope/free"), ("Poisson", "matrix/con"),
            ("NormalizedFinite", "mm")]
    out = []
    for f, n in pick:
        out.append(next(s for s in A if s["fam"] == f and s["name"] == n and s["opt"] not in (1,)))
    return out


def groups(tier):
    return [{"i": i, "first": f, "tier": tier} for i in range(len(specs()) if tier == "thorough" else 5) for f in LETTERS + EXTRA]


def expand(g):
    a, b = LEN[g["tier"]]
    for n in range(1, max(a, b) + 1):
        for w in itertools.product(LETTERS + EXTRA, repeat=n - 1):
            w = (g["first"],) + w
            ex = sum(x in EXTRA for x in w)
            if ex > 1 or (ex and n > b) or (not ex and n > a):
                continue
            if w[-1] in ("r0", "r1") + EXTRA and n > 1:
                continue            # nothing to observe after the last letter
            yield dict(specs()[g["i"]], word=list(w))


# reference state ---------------------------------------------------------------------------------

def fresh(case, state):
    c = dict(case, reg=case["reg"] + state["reg"], con=case["con"] + state["con"], mask=state["mask"])
    return likes.build(c, state["vals"])


def params(m):
    return [np.array(p, dtype=float) for p in m.params]


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True)
                                    for x, y in zip(a, b))


def run_fit(m, case, data, method, steps, verbose=0):
    from maxlike.maxlike_base import ConvergenceError
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            m.fit(method=method, max_steps=steps, tol=1e-9, verbose=verbose, **likes.fit_args(case, data))
        return "ok"
    except ConvergenceError:
        return "ConvergenceError"
    except np.linalg.LinAlgError:
        return "LinAlgError"


def queries(m, fitted, loaded):
    out = [np.ma.filled(p.astype(float), -99.) for p in m.get_params()]
    out.append(np.array([float(m.converged)]))
    if loaded:
        out += [np.array([m.g(m.params)]), np.array([m.akaine_information_criterion()]),
                np.array([m.bayesian_information_criterion(1)])]
    if fitted:
        out += [np.asarray(b, dtype=float) for r in m.fisher_matrix() for b in r]
        out += [np.asarray(b, dtype=float) for r in m.error_matrix() for b in r]
        try:
            out += [np.ma.filled(p.astype(float), -99.) for p in m.std_error()]
        except np.linalg.LinAlgError:
            out.append(np.array([-98.]))
    return out


def check(case):
    dA = problems.data_of(case, [1 + (5 * i * i + i) % 4 for i in range(8)][:ncell(case)], 0)
    dB = problems.data_of(case, [1 + (3 * i + 2) % 4 for i in range(8)][:ncell(case)], 1)
    shapes = [tuple(s) for s in case["p"]]
    v0, v1 = problems.start(case, 0), problems.start(case, 2)
    m1 = [list(k) for k in case["mask"]]
    n0 = m1[-1]
    if 0 in n0 and sum(k.count(0) for k in m1) > 1:
        n0[n0.index(0)] = 1
    state = {"vals": v0, "mask": case["mask"], "reg": [], "con": [], "data": None, "hess": None, "conv": False}
    live = likes.build(case, v0)
    other = likes.build(case, v1)
    other.model = live.model                     # both estimators share the function
    other_fits = 0
    st, T = [], 0
    for k, op in enumerate(case["word"]):
        before_other = params(other)
        if op in ("fA", "fB", "bA", "xB", "xbA"):
            d = dA if op[-1] == "A" else dB
            method = "broyden" if "b" in op else "newton"
            steps = 0 if op == "xbA" else 1 if op == "xB" else 60
            ref = fresh(case, state)
            had = set(vars(ref)) | set(likes.fit_args(case, d))
            a = run_fit(live, case, d, method, steps, verbose=(k + len(case["word"])) % 3)
            b = run_fit(ref, case, d, method, steps)
            T += 1
            if a != b or not same(params(live), params(ref)):
                return Outcome(st, T, "step %d (%s): %s, parameters %s; a fresh object: %s, %s" % (
                    k, op, a, [x.round(6).tolist() for x in params(live)], b,
                    [x.round(6).tolist() for x in params(ref)]), op)
            state["data"], state["conv"] = d, b == "ok"
            if b == "ok":
                state["vals"], state["hess"] = params(ref), {k: v for k, v in vars(ref).items() if k not in had}
        elif op == "q":
            pass
        elif op in ("r0", "r1"):
            live.reset_params()
            vals, mask = (v0, case["mask"]) if op == "r0" else (v1, m1)
            for v, q in zip(vals, mask):
                q = np.asarray(q, dtype=bool).reshape(v.shape)
                live.add_param(v.copy() if v.ndim else float(v), q if q.any() else None)
            state["vals"], state["mask"], state["hess"] = vals, mask, None
        elif op == "F2":
            ref = likes.build(case, v1 if not other_fits else before_other)
            a = run_fit(other, case, dB, "newton", 60)
            b = run_fit(ref, case, dB, "newton", 60)
            other_fits += 1
            T += 1
            if a != b or not same(params(other), params(ref)):
                return Outcome(st, T, "step %d: fit of the second estimator differs from a fresh one" % k, op)
            before_other = params(other)
        elif op == "c":
            g = [[0], ["Aff", ["Lin", [1.0]], 1, -0.2]]
            live.add_constraint(0, exprs.make(g[1]))
            state["con"] = state["con"] + [g]
            state["hess"] = None
        elif op == "g":
            h = [[0], ["Quad", 0.1, 1.0]]
            live.add_regularization([0], exprs.make(h[1]))
            state["reg"] = state["reg"] + [h]
        # what a user sees now, against a fresh object in the reference state
        ref = fresh(case, state)
        if state["data"] is not None:
            likes.load(ref, case, state["data"])
        ref.converged = live.converged if op in ("r0", "r1") else state["conv"]
        if state["hess"] is not None:
            vars(ref).update(state["hess"])         # what the fit leaves for the errors
        T += 1
        a = queries(live, state["hess"] is not None, state["data"] is not None)
        b = queries(ref, state["hess"] is not None, state["data"] is not None)
        if not same(a, b):
            return Outcome(st, T, "after step %d (%s) the queries answer differently than on a fresh object" % (
                k, op), op + " query")
        if op in ("r0", "r1"):
            state["conv"] = live.converged
        if not same(params(other), before_other):
            return Outcome(st, T, "step %d (%s) moved the second estimator" % (k, op), op + " alias")
        st.append((case["fam"], case["name"], repr([x.round(6).tolist() for x in state["vals"]]),
                   str(state["mask"]), state["data"] is dA, state["conv"], len(state["con"]), len(state["reg"]),
                   state["hess"] is not None, min(other_fits, 2)))
    return Outcome(st, T, observed=[case["fam"], [x.round(5).tolist() for x in params(live)]])


def ncell(case):
    return int(np.prod(case["fs"], dtype=int)) if not case["ds"] else 3
