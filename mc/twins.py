"""Functions a user writes: subclasses of the library's Func that compute a leaf of the expression language from its
reference jets and return it through the public Tensor constructor, in one of several representations."""
from array import array
import numpy as np
from . import jets

ELEMENTWISE = ("X", "Exp", "Log", "Logistic", "ArcTan", "SigAtan", "Poisson", "NB", "LNB")
MODES = ("dense", "eval", "lower")
TIED = ("mapped", "rows", "columns", "first", "last", "split", "helped")
_classes = {}


def _jet(e, params):
    vals = [np.asarray(p, dtype=float) for p in params]
    args, P = jets.params_jets(vals)
    return jets.ev(e, args, P), vals


def _sl(vals, i):
    k = sum(v.size for v in vals[:i])
    return slice(k, k + vals[i].size)


def classes():
    """dense: call, grad and hess with all axes spelled out; eval: its own eval; mapped: derivatives tied to the
    features by axis maps; lower: hess only meaningful for i >= j"""
    if _classes:
        return _classes
    from maxlike import Tensor
    from maxlike.func.func_base import Func, grad_tensor, hess_tensor

    def value(e, params):
        j, vals = _jet(e, params)
        return Tensor(j.v, dim=j.nd)

    def grad(e, params, i):
        j, vals = _jet(e, params)
        return Tensor(j.g[_sl(vals, i)].reshape(vals[i].shape + j.v.shape), x_dim=vals[i].ndim, dim=j.nd)

    def hess(e, params, i, k):
        j, vals = _jet(e, params)
        return Tensor(j.h[_sl(vals, i), _sl(vals, k)].reshape(vals[i].shape + vals[k].shape + j.v.shape),
                      x_dim=vals[i].ndim, y_dim=vals[k].ndim, dim=j.nd)

    class Dense(Func):
        def __init__(self, e):
            self.e = e

        def __call__(self, params):
            return value(self.e, params)

        def grad(self, params, i):
            return grad(self.e, params, i)

        def hess(self, params, i, j):
            return hess(self.e, params, i, j)

    class Eval(Func):
        def __init__(self, e):
            self.e = e

        def __call__(self, params):
            return value(self.e, params)

        def grad(self, params, i):
            return grad(self.e, params, i)

        def hess(self, params, i, j):
            return hess(self.e, params, i, j)

        def eval(self, params):
            n = len(params)
            return (value(self.e, params), [grad(self.e, params, i) for i in range(n)],
                    [[hess(self.e, params, i, j) for j in range(i + 1)] for i in range(n)])

    class Lower(Func):
        def __init__(self, e):
            self.e = e

        def __call__(self, params):
            return value(self.e, params)

        def grad(self, params, i):
            return grad(self.e, params, i)

        def hess(self, params, i, j):
            if j > i:
                raise NotImplementedError("only the lower triangle")
            return hess(self.e, params, i, j)

    def tied(dense, maps, at, n):
        """the representation of a dense derivative in which the axes given by `maps` (the first axis of each parameter
        group, and its map) are tied to the features, which begin at axis `at`"""
        for start, m in maps:
            for k, f in enumerate(m):
                if f < 0:
                    continue
                idx = np.arange(dense.shape[at + f]).reshape([-1 if q == at + f else 1 for q in range(dense.ndim)])
                dense = np.take_along_axis(dense, np.broadcast_to(idx, [1 if q == start + k else z for q, z in
                                                                        enumerate(dense.shape)]), start + k)
        return dense

    class Tied(Func):
        """functions that act entry by entry on one parameter: which axes are tied to the features, in the gradient, and
        in the rows and columns of the Hessian"""
        ways = None

        def __init__(self, e):
            self.e = e

        def maps(self, n):
            pos = list(range(n))[::-1] if self.e[0] == "Turn" else list(range(n))
            all_, none = pos, [-1] * n
            first, last = [f if k == 0 else -1 for k, f in enumerate(pos)], [f if k == n - 1 else -1 for k, f in
                                                                             enumerate(pos)]
            return {"mapped": (all_, all_, all_), "rows": (all_, all_, none), "columns": (none, none, all_),
                    "first": (first, first, last), "last": (last, last, last)}[self.ways]

        def build(self, t, n, nd, mx, my=None):
            arr = array('b', mx) if any(f >= 0 for f in mx) else None
            if my is None:
                return Tensor(tied(t, [(0, mx)], n, n), x_dim=n, dim=nd, x_map=arr)
            return Tensor(tied(t, [(0, mx), (n, my)], 2 * n, n), x_dim=n, y_dim=n, dim=nd, x_map=arr,
                          y_map=array('b', my) if any(f >= 0 for f in my) else None)

        def dense(self, params, order):
            j, vals = _jet(self.e, params)
            s = vals[0].shape
            return (j.g.reshape(s + j.v.shape) if order == 1 else j.h.reshape(s + s + j.v.shape)), len(s), j.nd

        def __call__(self, params):
            return value(self.e, params)

        def grad(self, params, i):
            t, n, nd = self.dense(params, 1)
            return self.build(t, n, nd, self.maps(n)[0])

        def hess(self, params, i, j):
            t, n, nd = self.dense(params, 2)
            return self.build(t, n, nd, *self.maps(n)[1:])

    def kind(name):
        return type(Tied)(name, (Tied,), dict(ways=name, __call__=lambda obj, params: value(obj.e, params),
                                             grad=lambda obj, params, i: Tied.grad(obj, params, i),
                                             hess=lambda obj, params, i, j: Tied.hess(obj, params, i, j)))

    class Split(Tied):
        """derivatives that are sums of tensors in different representations"""
        ways = "mapped"

        def __call__(self, params):
            return value(self.e, params)

        def grad(self, params, i):
            t, n, nd = self.dense(params, 1)
            return self.build(3. * t, n, nd, self.maps(n)[0]) - self.build(2. * t, n, nd, [-1] * n)

        def hess(self, params, i, j):
            t, n, nd = self.dense(params, 2)
            m, none = self.maps(n)[1], [-1] * n
            return self.build(.5 * t, n, nd, none, m) + self.build(.75 * t, n, nd, m, none) - \
                self.build(.25 * t, n, nd, m, m)

    class Helped(Tied):
        """built with the library's helpers, the maps given as lists or tuples"""
        ways = "mapped"

        def __call__(self, params):
            return value(self.e, params)

        def grad(self, params, i):
            t, n, nd = self.dense(params, 1)
            m = self.maps(n)[0]
            return grad_tensor(tied(t, [(0, m)], n, n)[(0,) * n], params, i, m, dim=nd)

        def hess(self, params, i, j):
            t, n, nd = self.dense(params, 2)
            m = self.maps(n)[1]
            if n % 2:
                return hess_tensor(tied(t, [(0, m)], 2 * n, n)[(0,) * n], params, i, j, x_map=tuple(m), dim=nd)
            return hess_tensor(tied(t, [(0, m), (n, m)], 2 * n, n)[(0,) * 2 * n], params, i, j, x_map=m, y_map=tuple(m),
                               dim=nd)

    _classes.update({k: kind(k) for k in ("mapped", "rows", "columns", "first", "last")}, split=Split, helped=Helped)
    _classes.update(dense=Dense, eval=Eval, lower=Lower)
    return _classes


def twin(e, mode):
    return classes()[mode](e)
