"""What the checks over function expressions (C04-C07) share."""
from . import exprs, funcs
from .core import Outcome

SALTS = {"quick": (0,), "thorough": (0, 1, 2)}
ASSUMPTIONS = [
    "parameter values in general position (inside every function's domain), so that the control flow of the code "
    "under test depends on the structure of the expression, which is what is enumerated; the family of the value "
    "regimes has integers, zeros, ones, tiny and large values and weights instead",
    "parameters have 0 to 2 axes of sizes 2..3, feature spaces 0 to 3 axes, extra dimensions 0 to 3 axes",
    "Linear and Quadratic are scalar functions; Vector takes scalar parameters; hess(i, j) is used for i >= j; "
    "flips only act on feature axes no parameter axis is tied to (others raise NotImplementedError)",
]


def bounds(tier):
    n = {f: sum(1 for _ in exprs.FAMILIES[f](tier)) for f in exprs.FAMILIES}
    return {"expressions per family": n, "valuations per expression": len(SALTS[tier]),
            "grammar": "leaf functions; Affine and operators; FuncWrap embeddings (every feature/dimension "
            "placement and parameter selection with repetitions); Sum and Product of 2 and 3 atoms (every "
            "placement, parameters disjoint/swapped/shared); Compose with one and two inner functions; "
            "Collapse; nestings of Sum/Product/Compose/Collapse; Poisson and score-process frames",
            "tier": tier}


groups = exprs.groups
expand = exprs.expand


def family(te):
    def heads(e):
        if isinstance(e, (list, tuple)):
            if e and isinstance(e[0], str):
                yield e[0]
            for x in e:
                for h in heads(x):
                    yield h
    return ",".join(list(heads(te["e"]))[:3])


def largest(e):
    """largest number of an expression (at least one): rounding errors are multiplied by it"""
    if isinstance(e, (list, tuple)):
        return max([1.0] + [largest(x) for x in e])
    return abs(float(e)) if isinstance(e, (int, float)) else 1.0


def tier_of(te):
    return te.get("t", "quick")


def run(te, step):
    """step(f, vals, jet) -> (list of (state, message)) over all salts"""
    states, n = [], 0
    funcs.MAGNITUDE = largest(te["e"]) if te.get("rg") and te["rg"] != "large" else 0
    for salt in SALTS[te.get("t", "quick")]:
        vals = exprs.params_of(te, salt)
        jet, P = exprs.reference(te, vals)
        f = exprs.make(te["e"])
        for st, msg in step(f, vals, jet):
            n += 1
            states.append((repr(te["e"]), repr(te["p"]), te.get("rg"), st))
            if msg:
                return Outcome(states, n, "%s: %s" % (st, msg), family(te))
    return Outcome(states, n, observed=(jet.v.round(6).tolist() if jet.v.size <= 12 else jet.v.sum().round(6)))
