"""C21: CollapseMatrix sums the cells of a frame that satisfy each condition."""
import itertools
import numpy as np
from mc import tens
from mc.core import Outcome

PROPERTY = "C21"
RULE = ("Every frame size x feature shape x list of conditions: the cells are enumerated one by one and put in the class "
        "of each condition sgn(A x + B y + C) == s they satisfy; the value, the gradients (by grad and eval) and the "
        "null Hessian of the real function are compared with the enumeration, and the classes of a (win, draw, lose) "
        "triple with the same A, B, C must partition the mass.")
ASSUMPTIONS = ["the single parameter is a frame with two trailing axes (array, Param or Tensor with dim=2)"]
COEF = (-1, 0, .5, 1, 2)
CONST = (-2.5, -1, -.5, 0, 1, 1.5, 2)


def bounds(tier):
    return {"frames": "1..4 x 1..4" if tier == "quick" else "1..6 x 1..6", "features": "(), (2,), (2, 3)",
            "conditions": "A, B in %s, C in %s, s in -1, 0, 1: single tuple, list of one, all triples, all ordered pairs "
            "with A, B, C in -1, 0, 1" % (COEF, CONST), "forms": "array in a list, bare array, Tensor", "tier": tier}


def groups(tier):
    m = 5 if tier == "quick" else 7
    return [{"r": r, "c": c, "f": list(f), "tier": tier} for r in range(1, m) for c in range(1, m)
            for f in ((), (2,), (2, 3))]


def expand(g):
    base = {"r": g["r"], "c": g["c"], "f": g["f"]}
    yield dict(base, cond=None, form="list")
    yield dict(base, cond=None, form="bare")
    yield dict(base, cond=None, form="tensor")
    for A, B, C in itertools.product(COEF, COEF, CONST):
        for s in (-1, 0, 1):
            yield dict(base, cond=[A, B, C, s], form="list", single=1)
        yield dict(base, cond=[[A, B, C, s] for s in (1, 0, -1)], form="tensor")
        yield dict(base, cond=[[A, B, C, 1]], form="bare")
    small = [(A, B, C, s) for A, B, C in itertools.product((-1, 0, 1), repeat=3) for s in (0, 1)]
    if g["tier"] == "quick":
        small = small[::2] + small[1::4]
        if g["f"] == [2, 3] or (g["r"], g["c"]) not in ((2, 3), (3, 2), (4, 4), (1, 3)):
            return
    for p, q in itertools.product(small, repeat=2):
        yield dict(base, cond=[list(p), list(q)], form="list")


def check(case):
    from maxlike.func import CollapseMatrix
    from maxlike import Tensor
    r, c, f, cond = case["r"], case["c"], tuple(case["f"]), case["cond"]
    if cond is None:
        conds, fn = [(1, -1, 0, 1), (1, -1, 0, 0), (1, -1, 0, -1)], CollapseMatrix()
    elif case.get("single"):
        conds, fn = [tuple(cond)], CollapseMatrix(tuple(cond))
    else:
        conds = [tuple(x) for x in cond]
        fn = CollapseMatrix(list(conds))
    frame = tens.generic_values(f + (r, c), r + 3 * c)
    nx = len(f) + 2
    val = np.zeros(f + (len(conds),))
    grad = np.zeros(f + (r, c) + f + (len(conds),))
    st = []
    for x, y in itertools.product(range(r), range(c)):
        inside = []
        for k, (A, B, C, s) in enumerate(conds):
            t = A * x + B * y + C
            if (t > 0) - (t < 0) == s:
                inside.append(k)
                for p in np.ndindex(*f):
                    val[p + (k,)] += frame[p + (x, y)]
                    grad[p + (x, y) + p + (k,)] = 1
        st.append((r, c, x, y, tuple(conds), tuple(inside)))
    arg = {"list": [frame.copy()], "bare": frame.copy(), "tensor": [Tensor(frame.copy(), dim=2)]}[case["form"]]

    def items():
        yield "value", tens.mismatch(fn(arg), val, (0, 0, len(f), 1))
        yield "grad", tens.mismatch(fn.grad(arg, 0), grad, (nx, 0, len(f), 1))
        yield "hess", null(fn.hess(arg, 0, 0))
        v, g, h = fn.eval(arg)
        yield "eval", tens.mismatch(v, val, (0, 0, len(f), 1))
        yield "eval grad", tens.mismatch(g[0], grad, (nx, 0, len(f), 1))
        yield "eval hess", null(h[0][0])
        if len(conds) == 3:
            w = np.asarray(fn(arg).toarray()).sum(-1) - frame.sum((-1, -2))
            yield "partition", None if np.allclose(w, 0) else "masses differ by %s" % w

    n = 0
    for name, msg in items():
        n += 1
        if msg:
            return Outcome(st, n, "%s: %s" % (name, msg), name)
    return Outcome(st, n + r * c, observed=(r, c, len(f), np.round(val.reshape(-1)[:6], 8).tolist()))


def null(h):
    a = np.asarray(h.toarray() if hasattr(h, "toarray") else h, float)
    return None if not a.any() else "not null"
