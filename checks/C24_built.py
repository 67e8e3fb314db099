"""C24: functions and tensors keep no hold on the arrays and lists they were built from, nor on their parameters."""
import itertools
from array import array
import numpy as np
from mc.core import Outcome

PROPERTY = "C24"
RULE = ("A caller builds an object from its own arrays and lists, evaluates it with its own parameter arrays, and in "
        "between overwrites everything it owns or received; every sequence of such steps up to the length bound. "
        "After every step: each object must still have the values of one built from private copies, results received "
        "before must be unchanged, and the caller's arrays must hold what the caller last wrote and be writable.")
ASSUMPTIONS = ["a write into a result that the library refuses (results are read-only) counts as not made",
               "functions given to other functions are shared, not copied: the caller does not extend a Sum after "
               "having passed it on"]
LETTERS = ("e0", "e1", "wA", "wL", "wP", "wR", "b")
LEN = {"quick": 3, "thorough": 5}


class Own(object):
    """the caller: every array and list it passes to a constructor; `salt` varies the contents"""

    def __init__(self, salt=0):
        self.salt, self.arrays, self.lists, self.i = salt, [], [], 0

    def arr(self, shape, lo=.6, dtype=float):
        n = int(np.prod(shape, dtype=int))
        k = np.arange(n)
        v = (lo + ((k * 7 + 3 * k * k + 5 * self.salt) % 11) / 20.).reshape(shape)
        if dtype is int:
            v = (v * 10).astype(int)
        if self.i < len(self.arrays):
            self.arrays[self.i][...] = v
        else:
            self.arrays.append(v.astype(dtype))
        self.i += 1
        return self.arrays[self.i - 1]

    def lst(self, x):
        self.lists.append(list(x))
        return self.lists[-1]


def builders():
    import maxlike.func as mf
    from maxlike.func.func_op import FuncWrap
    from maxlike.tensor import Tensor
    P, S = (3,), ()
    T = {
        # name: (constructor from the caller's things, shapes of the parameters)
        "Linear": (lambda c: mf.Linear(c.lst([.7 + c.salt, -.5])), [P, (2,)]),
        "Linear[array]": (lambda c: mf.Linear([c.arr(P)]), [P]),
        "Vector": (lambda c: mf.Vector(c.arr(P)), [S]),
        "Vector[int]": (lambda c: mf.Vector(c.arr(P, dtype=int)), [S]),
        "Vector[list]": (lambda c: mf.Vector(c.lst([.5, 1. + c.salt])), [S]),
        "Constant": (lambda c: mf.Constant(c.arr((2, 2))), []),
        "Constant[list]": (lambda c: mf.Constant(c.lst([.5, 1. + c.salt])), []),
        "Quadratic": (lambda c: mf.Quadratic(c.arr(P), c.arr(P)), [P]),
        "Affine+": (lambda c: mf.X() + c.arr(P), [P]),
        "Affine r+": (lambda c: mf.X().__radd__(c.arr(P)), [P]),
        "Affine-": (lambda c: mf.Exp() - c.arr(P), [P]),
        "Affine r-": (lambda c: mf.Exp().__rsub__(c.arr(P)), [P]),
        "Affine*": (lambda c: mf.Exp() * c.arr(P), [P]),
        "Affine r*": (lambda c: mf.Exp().__rmul__(c.arr(P)), [P]),
        "Affine/": (lambda c: mf.Exp() / c.arr(P), [P]),
        "Affine*+": (lambda c: mf.Exp() * c.arr(P) + c.arr(P), [P]),
        "Affine+*": (lambda c: (mf.Exp() + c.arr(P)) * 2., [P]),
        "neg Affine": (lambda c: -(mf.Exp() + c.arr(P)), [P]),
        "Affine class": (lambda c: mf.Affine(mf.Logistic(), c.arr(P), c.arr(P)), [P]),
        "Compose": (lambda c: mf.Exp() @ c.lst([mf.X() + .1 * c.salt]), [P]),
        "Compose of Affine": (lambda c: mf.Exp() @ c.lst([mf.X() * c.arr(P)]), [P]),
        "Affine of Compose": (lambda c: (mf.Exp() @ mf.Vector(c.arr(P))) + c.arr(P), [S]),
        "Compose two": (lambda c: mf.MarkovMatrix(2, 3) @ c.lst(c_two(mf, c)), [P]),
        "Sum": (lambda c: add(mf.Sum(2), (mf.X(), c.lst([0]), c.lst([1])), (mf.Vector(c.arr((2,))), c.lst([1]),
                                                                          c.lst([0]))), [P, S]),
        "Sum dims": (lambda c: add(mf.Sum(1, 1), (mf.Poisson(3), c.lst([0]), c.lst([0]), c.lst([0]))), [P]),
        "Sum of Sum": (lambda c: add(mf.Sum(2), (add(mf.Sum(1), (mf.X() * 2. + c.salt, c.lst([0]), c.lst([0]))),
                                                 c.lst([0]), c.lst([1]))), [P]),
        "Product": (lambda c: add(mf.Product(2), (mf.X(), c.lst([0]), c.lst([1])),
                                  (mf.Vector(c.arr((2,))), c.lst([1]), c.lst([0]))), [P, S]),
        "Wrap": (lambda c: FuncWrap(mf.X(), c.lst([1]), c.lst([1]), 2), [S, P]),
        "Wrap flip": (lambda c: FuncWrap(mf.Vector(c.arr(P)), c.lst([0]), c.lst([1]), 2, None, 0,
                                            c.lst([1])), [S]),
        "Wrap dims": (lambda c: FuncWrap(mf.Poisson(3), c.lst([0]), c.lst([0]), 1, c.lst([1]), 2), [P]),
        "Collapse": (lambda c: mf.Collapse(mf.X() * c.arr((2, 3)), c.lst([0])), [(2, 3)]),
        "Collapse all": (lambda c: mf.Collapse(mf.X() * c.arr((2, 3))), [(2, 3)]),
        "MarkovMatrix": (lambda c: mf.MarkovMatrix(3, 3, c.arr((3, 3))), [S, S]),
        "MarkovMatrix[vector]": (lambda c: mf.MarkovMatrix(2, 3, c.arr((2, 2))), [(2,), (2,)]),
        "MarkovVector": (lambda c: mf.MarkovVector(3, 3, c.arr((5,))), [S, S]),
        "MarkovVector[vector]": (lambda c: mf.MarkovVector(2, 3, c.arr((3,))), [(2,), (2,)]),
        "CollapseMatrix": (lambda c: mf.CollapseMatrix(c.lst([(1, -1, c.salt, 0), (1, 1, 0, 1)])), [(3, 3)]),
        "CollapseMatrix[lists]": (lambda c: mf.CollapseMatrix(c.lst([c.lst([1, -1, c.salt, 0])])), [(3, 3)]),
        # parameters only
        "X": (lambda c: mf.X(), [P]), "Exp": (lambda c: mf.Exp(), [P]), "Log": (lambda c: mf.Log(), [P]),
        "Logistic": (lambda c: mf.Logistic(), [P]), "Scalar": (lambda c: mf.Scalar(), [S]),
        "Poisson": (lambda c: mf.Poisson(3), [P]), "NB": (lambda c: mf.NegativeBinomial(3, 2), [P]),
        "LNB": (lambda c: mf.LogNegativeBinomial(3, 2), [P]),
        # tensors
        "Tensor": (lambda c: Tensor(c.arr(P)), None),
        "Tensor dim": (lambda c: Tensor(c.arr((2, 3)), dim=1), None),
        "Tensor[int]": (lambda c: Tensor(c.arr(P, dtype=int)), None),
        "Tensor[view]": (lambda c: Tensor(c.arr((3, 3))[1:].T), None),
        "Tensor x": (lambda c: Tensor(c.arr((3, 1)), x_dim=1), None),
        "Tensor x map": (lambda c: Tensor(c.arr((1, 3)), x_dim=1, x_map=c_map(c, [0])), None),
        "Tensor xy map": (lambda c: Tensor(c.arr((1, 1, 3)), x_dim=1, y_dim=1, x_map=c_map(c, [0]),
                                           y_map=c_map(c, [0])), None),
        "Tensor of Tensor": (lambda c: Tensor(Tensor(c.arr(P))), None),
        "Tensor + array": (lambda c: Tensor(np.ones(3)) + c.arr(P), None),
        "array * Tensor": (lambda c: c.arr(P) * Tensor(np.ones(3)), None),
        "Tensor / Tensor": (lambda c: Tensor(c.arr(P)) / Tensor(c.arr(P)), None),
    }
    return T


def c_two(mf, c):
    return [mf.Logistic() + .1 * c.salt, mf.Logistic() * .7]


def c_map(c, x):
    c.lists.append(array('b', x))
    return c.lists[-1]


def add(s, *atoms):
    for a in atoms:
        s.add(*a)
    return s


def names():
    import mc.core as core
    core.load_repo()
    return sorted(builders())


def bounds(tier):
    return {"objects": "%d ways to build functions and tensors" % len(names()),
            "letters": {"e0/e1": "evaluate every object (call, grad, hess, eval) at point 0/1, written into the same "
                                 "arrays", "wA": "overwrite the arrays given to the constructors",
                        "wL": "clear the lists and maps given", "wP": "overwrite the parameter arrays",
                        "wR": "overwrite the results received", "b": "refill the arrays with other values and build "
                                                                     "one more object from them"},
            "sequences": "all of length <= %d" % LEN[tier], "tier": tier}


def groups(tier):
    return [{"o": n, "tier": tier} for n in names()]


def expand(g):
    L = [x for x in LETTERS if x in useful(g["o"])]
    for w in itertools.product(L, repeat=LEN[g["tier"]]):
        yield {"o": g["o"], "word": list(w)}    # shorter words are prefixes, compared step by step


def useful(o):
    mk, shapes = builders()[o]
    c = Own()
    try:
        mk(c)
    except Exception:
        return set(LETTERS)     # reported by check
    out = {"e0", "e1", "wR", "b"} if shapes else {"e0", "wR", "b"}
    return out | ({"wA"} if c.arrays else set()) | ({"wL"} if c.lists else set()) | ({"wP"} if shapes else set())


def point(shapes, k):
    out = []
    for i, s in enumerate(shapes):
        n = int(np.prod(s, dtype=int))
        j = np.arange(n)
        out.append((.2 + ((j * 5 + 3 * i + 7 * k + j * j) % 9) / 15.).reshape(s))
    return out


def evaluate(f, par):
    """all that can be received from the object, as (arrays, values)"""
    if par is None:
        res = [f, f + 1., f * f, f.sum() if f.n else f - 2.]
    else:
        n = len(par)
        res = [f(par)] + [f.grad(par, i) for i in range(n)]
        res += [f.hess(par, i, j) for i in range(n) for j in range(i + 1)]
        v, g, h = f.eval(par)
        res += [v] + list(g) + [h[i][j] for i in range(n) for j in range(i + 1)]
    arrs = []
    for r in res:
        arrs += [a for a in (getattr(r, "values", None),) if isinstance(a, np.ndarray)]
        arrs.append(np.asarray(r.toarray() if hasattr(r, "toarray") else r))
    return arrs


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=1e-10, atol=1e-12, equal_nan=True)
                                    for x, y in zip(a, b))


CACHE = {}


def expected(o, salt, k):
    """of an object built from private copies and never touched"""
    if (o, salt, k) not in CACHE:
        mk, shapes = builders()[o]
        f = mk(Own(salt))
        CACHE[o, salt, k] = [a.copy() for a in evaluate(f, None if shapes is None else point(shapes, k))]
    return CACHE[o, salt, k]


def check(case):
    mk, shapes = builders()[case["o"]]
    c = Own(0)
    objs = [(mk(c), 0)]
    par = None if shapes is None else [p.copy() for p in point(shapes, 0)]
    wrote = [(a, a.copy()) for a in c.arrays + (par or [])]
    got, n, st = [], 0, []
    at = 0
    for k, o in enumerate(case["word"]):
        if o[0] == "e":
            at = int(o[1])
            if par is not None:
                for a, v in zip(par, point(shapes, at)):
                    a[...] = v
                wrote = [(a, a.copy()) for a, _ in wrote]
            for f, salt in objs:
                arrs = evaluate(f, par)
                if not same(arrs, expected(case["o"], salt, at)):
                    return Outcome(st, n + 1, "after %s: the object built with contents %d no longer has its values" % (
                        case["word"][:k + 1], salt), "values")
                got += [[a, a.copy()] for a in arrs]
        elif o == "b":
            c.salt, c.i, c.lists = 1 - c.salt, 0, []
            before = list(c.arrays)
            f = mk(c)
            assert all(x is y for x, y in zip(before, c.arrays)) and len(before) == len(c.arrays)
            objs.append((f, c.salt))
            wrote = [(a, a.copy()) for a, _ in wrote]
        else:
            for a in {"wA": c.arrays, "wP": par, "wL": []}.get(o, []):
                a[...] = 7
            if o == "wL":
                for x in c.lists:
                    scrub(x)
            if o == "wR":
                for g in got:
                    try:
                        g[0][...] = 3.3
                    except ValueError:
                        continue
                    g[1] = g[0].copy()
            wrote = [(a, a.copy()) for a, _ in wrote] if o != "wR" else wrote
        n += 1
        st.append((case["o"], tuple(case["word"][:k + 1])))
        if any(not np.array_equal(a, v) for a, v in wrote):
            return Outcome(st, n, "after %s an array of the caller does not hold what it wrote" % (
                case["word"][:k + 1],), "caller array")
        if any(not a.flags.writeable for a, _ in wrote):
            return Outcome(st, n, "after %s the caller can no longer write its own array" % (case["word"][:k + 1],),
                           "caller frozen")
        if any(not np.array_equal(a, v, equal_nan=True) for a, v in got):
            return Outcome(st, n, "after %s a result received before has changed" % (case["word"][:k + 1],), "result")
    # whatever happened, every object still is what it was
    for f, salt in objs:
        for q in ((0, 1) if shapes else (0,)):
            n += 1
            if not same(evaluate(f, None if shapes is None else point(shapes, q)), expected(case["o"], salt, q)):
                return Outcome(st, n, "in the end, after %s, the object built with contents %d has other values" % (
                    case["word"], salt), "final")
    return Outcome(st, n, observed=(case["o"], len(objs)))


def scrub(x):
    """the caller reuses its list for something else"""
    if isinstance(x, array):
        for i in range(len(x)):
            x[i] = -1
    elif x:
        y = x[0]
        x[:] = [] if not isinstance(y, (int, float)) else [7 if isinstance(y, int) else 9.5] * len(x)
