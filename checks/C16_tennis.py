"""C16: Game, TieBreak and Set are the scoring rules of tennis."""
import itertools
import numpy as np
from mc import tennis, jets, funcs
from mc.core import Outcome

PROPERTY = "C16"
RULE = ("The scoring automaton of a game, a tie-break and a set is enumerated score by score with exact jets; value, "
        "gradients and Hessian blocks of the real functions, by call, grad, hess and eval, are compared with it for "
        "every probability (pair) of the alphabet, as scalars and in vectors of every length up to the bound; the "
        "probabilities of both players must add up to one.")
ASSUMPTIONS = ["0 and 1 included (for Set 1e-9 and 1 - 1e-9: it evaluates a certain game as 1 - 1e-10); both parameters of Set have the same shape",
               "parameters with two axes are a known finding (the features come out transposed), recognised by the "
               "exact transposed result"]
PR = {"quick": (0., 1e-5, .01, .2, .37, .5, .63, .9, .99, .99999, 1.),
      "thorough": tuple(round(.01 + .03 * k, 2) for k in range(33)) + (0., 1e-7, 1e-5, .001, .999, .99999, 1.)}


def bounds(tier):
    return {"probabilities": PR[tier], "vector lengths": "0 axes; 1..9", "matrices": "2x2, 2x3, 4x2, 3x4",
            "functions": ["Game", "TieBreak", "Set"], "tier": tier}


def groups(tier):
    return [{"k": k, "tier": tier, "s": s} for k in ("Game", "TB", "Set") for s in ("scalar", "vector", "matrix")]


def expand(g):
    P, n = PR[g["tier"]], 2 if g["k"] == "Set" else 1
    if n == 2:
        P = tuple(min(max(x, 1e-9), 1 - 1e-9) for x in P)
    if g["s"] == "scalar":
        for w in itertools.product(P, repeat=n):
            yield {"k": g["k"], "shape": [], "p": [[x] for x in w]}
        return
    shapes = [[m] for m in range(1, 10)] if g["s"] == "vector" else [[2, 2], [2, 3], [4, 2], [3, 4], [7, 2], [4, 4]]
    for sh in shapes:
        m = int(np.prod(sh))
        for off in range(len(P)):
            yield {"k": g["k"], "shape": sh, "p": [[P[(off + k * (i + 2)) % len(P)] for k in range(m)]
                                                   for i in range(n)]}


def compare(f, vals, jet, rvals, key):
    """rvals: the parameters of the reference (their shapes index the derivatives)"""
    def items():
        yield "value", funcs.cmp_val(f(list(vals)), jet)
        ev, eg, eh = f.eval(list(vals))
        yield "eval", funcs.cmp_val(ev, jet)
        for i in range(len(vals)):
            yield "grad%d" % i, funcs.cmp_grad(f.grad(list(vals), i), jet, rvals, i)
            yield "eval grad%d" % i, funcs.cmp_grad(eg[i], jet, rvals, i)
            for j in range(i + 1):
                yield "hess%d%d" % (i, j), funcs.cmp_hess(f.hess(list(vals), i, j), jet, rvals, i, j)
                yield "eval hess%d%d" % (i, j), funcs.cmp_hess(eh[i][j], jet, rvals, i, j)
    n, st = 0, []
    for name, msg in items():
        n += 1
        st.append(key + (name,))
        if msg:
            return st, n, "%s: %s" % (name, msg)
    return st, n, None


def check(case):
    from maxlike.func import tennis as mt
    f = {"Game": mt.Game, "TB": mt.TieBreak, "Set": mt.Set}[case["k"]]()
    sh = tuple(case["shape"])
    vals = [np.array(p).reshape(sh) for p in case["p"]]
    key = (case["k"], sh, repr(case["p"]))
    args, P = jets.params_jets(vals)
    jet = tennis.evaluate(case["k"], args, P)
    st, n, msg = compare(f, vals, jet, vals, key)
    if msg and len(sh) == 2:
        tv = [v.T.copy() for v in vals]
        args, P = jets.params_jets(tv)
        jt = tennis.evaluate(case["k"], args, P)
        st, n, other = compare(f, vals, jt, tv, key)
        if other is None:
            return Outcome(st, n, "the features of a two-axis parameter come out transposed", "transposed")
    if msg:
        return Outcome(st, n, msg, "%s %s" % (case["k"], msg.split(":")[0]))
    # both players
    other = [1 - v for v in vals]
    w = np.asarray(f(list(vals)).toarray()).sum(-1) + np.asarray(f(other).toarray()).sum(-1)
    n += 1
    if not np.allclose(w, 1):
        return Outcome(st, n, "the two players win with total probability %s" % w, "mass")
    return Outcome(st, n, observed=np.round(jet.v.reshape(-1)[:8], 8).tolist())


def matches_known(k, case, key):
    return key == "transposed" and k["case"] == "two axes" and len(case["shape"]) == 2
