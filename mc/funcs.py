"""Comparison of a function of the code under test with its reference jet."""
from . import exprs
from .tens import mismatch, spread

# set for the parameters of a value regime, to the largest number of the expression: the tolerance follows the
# magnitude of the result instead of being absolute
MAGNITUDE = 0


def atol(ref):
    return 1e-14 * MAGNITUDE + spread(ref) if MAGNITUDE else 1e-10


def cmp_val(res, jet):
    return mismatch(res, jet.v, (0, 0, jet.nf, jet.nd), atol=atol(jet.v))


def cmp_grad(res, jet, vals, i):
    s = exprs.slices(vals)[i]
    ref = jet.g[s].reshape(vals[i].shape + jet.v.shape)
    return mismatch(res, ref, (vals[i].ndim, 0, jet.nf, jet.nd), atol=atol(ref))


def cmp_hess(res, jet, vals, i, j):
    s, t = exprs.slices(vals)[i], exprs.slices(vals)[j]
    ref = jet.h[s, t].reshape(vals[i].shape + vals[j].shape + jet.v.shape)
    return mismatch(res, ref, (vals[i].ndim, vals[j].ndim, jet.nf, jet.nd), atol=atol(ref))
