"""What C14 and C15 share: score processes against the explicit-state enumeration of the point-by-point chain."""
import itertools
import numpy as np
from . import jets, exprs, funcs
from .core import Outcome

RATES = [(.2, .3), (.45, .5), (1e-3, .9), (.62, .11), (1e-7, 1e-4)]      # per step


def rates(shape, steps, salt):
    n = int(np.prod(shape, dtype=int))
    r = [RATES[(salt + k) % len(RATES)] for k in range(n)]
    return [np.array([steps * p[c] for p in r]).reshape(shape) for c in (0, 1)]


def words(alpha, n):
    return [list(w) for w in itertools.product(alpha, repeat=n)]


def deviations(n, letters=(.5, 1.3)):
    """constant one, and every single and double deviation from it"""
    out = [[1.0] * n]
    for k in range(n):
        for a in letters:
            w = [1.0] * n
            w[k] = a
            out.append(w)
    for k, l in itertools.combinations(range(n), 2):
        w = [1.0] * n
        w[k], w[l] = letters
        out.append(w)
    return out


def generic(n):
    return [0.6 + 0.7 * ((k * 37 + 11) % 29) / 29.0 for k in range(n)]


def check(case, cls, ref):
    """cls(size, steps, skew) -> function of the library; ref(a, b, size, steps, skew, P) -> jet"""
    size, steps, skew, shape = case["size"], case["steps"], case["skew"], tuple(case["shape"])
    vals = rates(shape, steps, case["salt"])
    ps, P = jets.params_jets(vals)
    jet = ref(ps[0], ps[1], size, steps, skew, P)
    # arguments equal to the documented defaults are left out, by name or by place in turn
    kw = dict(size=size, steps=steps, skew=None if skew is None else np.array(skew, dtype=float))
    if case["salt"]:
        f = cls(**{k: v for k, v in kw.items() if v is not None and (k, v) not in (("size", 8), ("steps", 18))}
                if skew is None else kw)
    else:
        f = cls(*kw.values()) if skew is not None else cls(size) if steps == 18 else cls(size, steps)
    st, T = [], 0
    key = (cls.__name__, size, steps, repr(skew), shape, case["salt"])

    def steps_():
        v = f(list(vals))
        yield "value", funcs.cmp_val(v, jet)
        arr = np.asarray(v.toarray())
        ax = tuple(range(len(shape), arr.ndim))
        yield "mass", None if np.allclose(arr.sum(ax), 1) else "the probabilities add up to %s" % arr.sum(ax)
        for i in range(2):
            yield "grad%d" % i, funcs.cmp_grad(f.grad(list(vals), i), jet, vals, i)
            for j in range(i + 1):
                yield "hess%d%d" % (i, j), funcs.cmp_hess(f.hess(list(vals), i, j), jet, vals, i, j)
        ev, eg, eh = f.eval(list(vals))
        yield "eval", funcs.cmp_val(ev, jet)
        for i in range(2):
            yield "eval grad%d" % i, funcs.cmp_grad(eg[i], jet, vals, i)
            for j in range(i + 1):
                yield "eval hess%d%d" % (i, j), funcs.cmp_hess(eh[i][j], jet, vals, i, j)
        yield "value again", funcs.cmp_val(f(tuple(vals)), jet)

    for name, msg in steps_():
        T += 1
        st.append(key + (name,))
        if msg:
            return Outcome(st, T, "%s: %s" % (name, msg), name.split("0")[0].split("1")[0])
    return Outcome(st, T, observed=np.round(jet.v.reshape(-1)[:6], 8).tolist())
