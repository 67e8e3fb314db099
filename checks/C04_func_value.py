"""C04: the value of every function expression."""
from mc import fcheck, funcs
from mc.fcheck import groups, expand, bounds, ASSUMPTIONS

PROPERTY = "C04"
RULE = ("Every expression of the grammar is built from the real function classes, called, and its value "
        "compared cell by cell with the reference interpreter (entry-wise arithmetic on dense arrays; score "
        "processes by explicit-state enumeration).")


def check(te):
    def step(f, vals, jet):
        yield "value", funcs.cmp_val(f(list(vals)), jet)
    return fcheck.run(te, step)
