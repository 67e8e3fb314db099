"""C07: eval() agrees with call/grad/hess, and every accepted form of the parameters means the same."""
import numpy as np
from mc import fcheck, funcs, exprs
from mc.fcheck import groups, expand, bounds, ASSUMPTIONS

PROPERTY = "C07"
RULE = ("Every expression of the grammar: the value, every gradient and every Hessian block returned by "
        "eval(params), and by grad(params) / hess(params) without indices, are compared with the reference "
        "jets; everything is repeated with the parameters as tuple, as Param objects (eval), as Python and numpy numbers, bare when "
        "there is one parameter, and without any when there is none.")


def whole(res, jet, vals, tag):
    val, grad, hess = res
    yield tag + "value", funcs.cmp_val(val, jet)
    if len(grad) != len(vals) or len(hess) != len(vals):
        yield tag + "len", "eval returns %d gradients and %d Hessian rows for %d parameters" % (
            len(grad), len(hess), len(vals))
        return
    for i in range(len(vals)):
        yield tag + "grad%d" % i, funcs.cmp_grad(grad[i], jet, vals, i)
        for j in range(i + 1):
            yield tag + "hess%d%d" % (i, j), funcs.cmp_hess(hess[i][j], jet, vals, i, j)


def check(te):
    from maxlike.maxlike_base import Param

    def step(f, vals, jet):
        for r in whole(f.eval(list(vals)), jet, vals, "eval "):
            yield r
        for r in whole((f(list(vals)), f.grad(list(vals)), f.hess(list(vals))), jet, vals, "all "):
            yield r
        P = [Param(v.copy(), np.arange(v.size).reshape(v.shape) % 2 == 1) for v in vals]
        for r in whole(f.eval(tuple(P)), jet, vals, "Param "):
            yield r
        yield "Param value", funcs.cmp_val(f(P), jet)
        for r in whole((f(tuple(vals)), f.grad(tuple(vals)), f.hess(tuple(vals))), jet, vals, "tuple "):
            yield r
        if any(v.ndim == 0 for v in vals):
            whole_numbers = all(v.dtype.kind == "i" for v in vals)
            for kind in (float, np.float64) + ((int,) if whole_numbers else ()):
                v = [kind(x) if x.ndim == 0 else x for x in vals]
                if len(v) == 1:
                    for r in whole((f(v[0]), f.grad(v[0]), f.hess(v[0])), jet, vals, "bare " + kind.__name__ + " "):
                        yield r
                    for r in whole(f.eval(v[0]), jet, vals, "bare eval " + kind.__name__ + " "):
                        yield r
                for r in whole((f(v), f.grad(v), f.hess(v)), jet, vals, kind.__name__ + " "):
                    yield r
                for r in whole(f.eval(v), jet, vals, kind.__name__ + " eval "):
                    yield r
        if not vals:
            for r in whole((f(), f.grad(), f.hess()), jet, vals, "nothing "):
                yield r
            for r in whole(f.eval(), jet, vals, "eval nothing "):
                yield r
        if len(vals) == 1:
            for r in whole((f(vals[0]), f.grad(vals[0]), f.hess(vals[0])), jet, vals, "bare all "):
                yield r
            yield "bare value", funcs.cmp_val(f(vals[0]), jet)
            yield "bare grad", funcs.cmp_grad(f.grad(vals[0], 0), jet, vals, 0)
            yield "bare hess", funcs.cmp_hess(f.hess(vals[0], 0, 0), jet, vals, 0, 0)
            for r in whole(f.eval(vals[0]), jet, vals, "bare eval "):
                yield r
    return fcheck.run(te, step)
