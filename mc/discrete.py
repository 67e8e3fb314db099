"""Reference Poisson and Skellam probabilities, by direct summation far into the tails (math.fsum)."""
import functools
import math


def top(a):
    return int(a + 40 * math.sqrt(a) + 60)


@functools.lru_cache(None)
def pmf(a):
    """list of (probability, derivative with respect to the rate)"""
    p = []
    for k in range(top(a)):
        if a == 0:
            p.append(1.0 if k == 0 else 0.0)
        else:
            p.append(math.exp(k * math.log(a) - a - math.lgamma(k + 1)))
    return [(q, (p[k - 1] if k else 0.0) - q) for k, q in enumerate(p)]


def cdf(a, n, w=1.0):
    """(P(X <= n), derivative); the last term is weighted by w"""
    t = pmf(a)
    return tuple(math.fsum([x[c] for x in t[:n]] + ([w * t[n][c]] if n < len(t) else [])) for c in (0, 1))


@functools.lru_cache(None)
def diff(a, b):
    """distribution of D = Y - X, X ~ Poisson(a), Y ~ Poisson(b): {d: (P, dP/da, dP/db)}"""
    A, B = pmf(a), pmf(b)
    acc = {}
    for x, (p, dp) in enumerate(A):
        if p < 1e-300:
            continue
        for y, (q, dq) in enumerate(B):
            if q < 1e-300:
                continue
            acc.setdefault(y - x, []).append((p * q, dp * q, p * dq))
    return {d: tuple(math.fsum(t[c] for t in v) for c in range(3)) for d, v in acc.items()}


def prob(a, b, test):
    D = diff(a, b)
    return tuple(math.fsum(v[c] for d, v in sorted(D.items()) if test(d)) for c in range(3))
