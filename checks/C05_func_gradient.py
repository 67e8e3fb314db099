"""C05: the gradient of every function expression with respect to every parameter."""
from mc import fcheck, funcs
from mc.fcheck import groups, expand, bounds, ASSUMPTIONS

PROPERTY = "C05"
RULE = ("Every expression of the grammar, every parameter i: grad(params, i) is compared cell by cell with "
        "the exact first derivative of the reference interpreter (second-order jets).")


def check(te):
    def step(f, vals, jet):
        for i in range(len(vals)):
            yield "grad%d" % i, funcs.cmp_grad(f.grad(list(vals), i), jet, vals, i)
    return fcheck.run(te, step)
