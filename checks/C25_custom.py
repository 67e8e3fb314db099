"""C25: functions written by the user combine like the library's own."""
import itertools
from mc import exprs, fcheck, funcs
from mc.twins import ELEMENTWISE, TIED
from checks.C07_func_eval_forms import whole

PROPERTY = "C25"
RULE = ("Expressions of the grammar in which leaves are replaced by user-written subclasses of Func that return the same "
        "values and derivatives in another representation (dense tensors; their own eval; Hessians defined for i >= j "
        "only; entry-by-entry functions with all, the first or the last axes tied to the features by maps, only the "
        "rows or only the columns of the Hessian tied, as sums of tensors in different representations, or made with "
        "grad_tensor and hess_tensor): every single leaf in every applicable way, and all leaves at once. Also "
        "functions that return the axes of their parameter in the opposite order, so that the maps are not the "
        "identity. Value, gradients, Hessians and eval are compared with the reference jets of the expression.")
ASSUMPTIONS = fcheck.ASSUMPTIONS + ["a user function returns tensors over its parameter axes, then features, then "
                                    "extra dimensions, with maps that tie a parameter axis of size one to a feature"]
LEAVES = ("X", "Exp", "Log", "Scalar", "Logistic", "ArcTan", "SigAtan", "Vec", "Lin", "Quad", "Poisson", "LNB", "NB",
          "MV", "MM", "CM", "Game", "TB", "Set")
STEP = {"quick": {"arrays": 13, "leaves": 17, "wrap": 37, "pairs": 9, "triples": 7, "compose": 11, "compose2": 23,
                  "nested": 41, "regimes": 7},
        "thorough": {"arrays": 2, "leaves": 1, "wrap": 5, "pairs": 2, "triples": 5, "compose": 1, "compose2": 2,
                     "nested": 3, "regimes": 2}}
CHUNKS = 16


def bounds(tier):
    return {"expressions": "every k-th of each family of C04, k = %s" % (STEP[tier],),
            "replacements": "every single leaf, as dense/eval/lower (and, where it acts entry by entry, %s); all leaves "
                            "dense; all leaves mapped where possible; alternating with sums" % ", ".join(TIED),
            "turned functions": sum(1 for _ in turned(tier)), "tier": tier}


def groups(tier):
    return [{"fam": f, "c": c, "tier": tier} for f in list(exprs.FAMILIES) + ["turned"] for c in range(CHUNKS)]


def leaves(e, path=()):
    """paths of the leaves of an expression"""
    if isinstance(e, list) and e and isinstance(e[0], str):
        if e[0] in LEAVES:
            yield path
            return
    if isinstance(e, (list, tuple)):
        for k, x in enumerate(e):
            if isinstance(x, (list, tuple)):
                for p in leaves(x, path + (k,)):
                    yield p


def at(e, path):
    for k in path:
        e = e[k]
    return e


def put(e, path, mode):
    if not path:
        return ["Twin", e, mode]
    return [put(x, path[1:], mode) if k == path[0] else x for k, x in enumerate(e)]


def modes(leaf):
    return ("dense", "eval", "lower") + (TIED if leaf[0] in ELEMENTWISE else ())


def turned(tier):
    """functions that return their parameter's axes in the opposite order, in every representation and context"""
    for L, nd, size in ((["X"], 0, None), (["Exp"], 0, None), (["Logistic"], 0, None), (["Poisson", 3], 1, 3)):
        for m in ("dense",) + TIED:
            t = ["Twin", ["Turn", L], m]
            d = [0] if nd else None
            for s in ((2, 3), (2, 2)):
                r = s[::-1]
                yield t, [s]
                yield ["Aff", t, -2., .5], [s]
                yield ["op", t, "r-", 1.5], [s]
                for sv in (True, [0], [1], False):
                    for sd in (True, False):
                        yield ["Coll", t, sv, sd], [s]
                for fm in ([0, 1], [1, 0], [2, 0], [1, 2]):
                    nf = max(fm) + 1
                    yield ["Wrap", t, [0], fm, nf, d, nd, None], [s]
                    yield ["Sum", nf, nd, [[t, [0], fm, d, 2.], [["Vec", [.7, -1.3]], [1], [fm[1]], [], 1.]]], [s, ()]
                for other, p in ((["X"], r), (["Exp"], r), (["Twin", ["X"], "last"], r)):
                    atom = [other, [1], [0, 1], []]
                    yield ["Prod", 2, nd, [[t, [0], [0, 1], d], atom]], [s, p]
                    yield ["Sum", 2, nd, [[t, [0], [0, 1], d, -1.], atom + [.5]]], [s, p]
                    yield ["Prod", 2, nd, [[t, [0], [1, 0], d], [other, [1], [1, 0], []]]], [s, p]
                if s == (2, 2):
                    for q in (["X"], ["Exp"], t):
                        dq = d if q is t else []
                        yield ["Prod", 2, nd, [[t, [0], [0, 1], d], [q, [0], [0, 1], dq]]], [s]
                        yield ["Sum", 2, nd, [[t, [0], [0, 1], d, 1.], [q, [0], [0, 1], dq, 2.]]], [s]
                        yield ["Prod", 2, nd, [[q, [0], [1, 0], dq], [t, [0], [0, 1], d]]], [s]
                if nd == 0:
                    for f in (["Exp"], ["Poisson", 3], ["Aff", ["Logistic"], 2., 1.], ["Quad", .3, 1.4], t):
                        yield ["Comp", f, [t]], [s]
                    yield ["Comp", ["CM", None], [t]], [s]
                    yield ["Comp", ["Exp"], [["Prod", 2, 0, [[t, [0], [0, 1], []], [["X"], [1], [1, 0], []]]]]], [s, s]
                for g in (["Exp"], ["Aff", ["X"], 2., -.3], ["Twin", ["Turn", ["Exp"]], "first"],
                          ["Sum", 2, 0, [[["X"], [0], [0, 1], [], 1.], [["Vec", [.4, 1.1]], [1], [0], [], 1.]]]):
                    yield ["Comp", t, [g]], [s] + ([()] if g[0] == "Sum" else [])


def variants(e):
    L = list(leaves(e))
    for p in L:
        for m in modes(at(e, p)):
            yield put(e, p, m)
    if len(L) > 1:
        for k in range(3):
            x = e
            for i, p in enumerate(L):
                q = at(e, p)
                m = "dense" if k == 0 or q[0] not in ELEMENTWISE or k == 2 and i % 2 else ("mapped", "split")[k - 1]
                x = put(x, p, m)
            yield x


def expand(g):
    if g["fam"] == "turned":
        for e, p in itertools.islice(turned(g["tier"]), g["c"], None, CHUNKS):
            yield dict(exprs.typed(e, p), t="quick")
        return
    it = (te for te in exprs.FAMILIES[g["fam"]](g["tier"]) if te["p"] and not on_dims(te["e"]))
    it = itertools.islice(it, 0, None, STEP[g["tier"]][g["fam"]])
    for te in itertools.islice(it, g["c"], None, CHUNKS):
        for v in variants(te["e"]):
            yield dict(te, e=v, t="quick")


def on_dims(e):
    """does a leaf get an argument with extra dimensions?"""
    if not isinstance(e, (list, tuple)):
        return False
    if e and e[0] == "Comp" and any(exprs.contains(x, ("Poisson", "NB", "LNB", "MM", "MV", "Game", "TB", "CM"))
                                    and not dimless(x) for x in e[2]):
        return True
    return any(on_dims(x) for x in e)


def dimless(x):
    return x[0] == "Coll" and x[3]


def check(te):
    def step(f, vals, jet):
        for r in whole((f(list(vals)), f.grad(list(vals)), f.hess(list(vals))), jet, vals, ""):
            yield r
        for r in whole(f.eval(list(vals)), jet, vals, "eval "):
            yield r
    return fcheck.run(te, step)
