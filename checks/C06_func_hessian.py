"""C06: the Hessian of every function expression with respect to every pair of parameters."""
from mc import fcheck, funcs
from mc.fcheck import groups, expand, bounds, ASSUMPTIONS

PROPERTY = "C06"
RULE = ("Every expression of the grammar, every pair i >= j: hess(params, i, j) is compared cell by cell with "
        "the exact second derivative of the reference interpreter, and for i = j it must be symmetric.")


def symmetric(h):
    import numpy as np
    from mc.tens import dense
    arr, r = dense(h)
    x, y = r[0], r[1]
    if arr.ndim == 0:
        return None
    if x != y:
        return "ranks (%d, %d) of a diagonal block" % (x, y)
    perm = list(range(x, x + y)) + list(range(x)) + list(range(x + y, arr.ndim))
    d = np.abs(arr.transpose(perm) - arr).max() if arr.size else 0
    return None if d <= 1e-9 * (1 + np.abs(arr).max()) else "diagonal block asymmetric by %g" % d


def check(te):
    def step(f, vals, jet):
        for i in range(len(vals)):
            for j in range(i + 1):
                h = f.hess(list(vals), i, j)
                yield "hess%d%d" % (i, j), funcs.cmp_hess(h, jet, vals, i, j)
                if i == j:
                    yield "sym%d" % i, symmetric(h)
    return fcheck.run(te, step)
