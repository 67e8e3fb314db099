"""C19: the root finders invert the distribution functions."""
import math

from mc import discrete
from mc.core import Outcome

PROPERTY = "C19"
RULE = ("Every target of the grid and every target produced by a rate (pair of rates) of the alphabet x threshold x "
        "tolerance: the parameters returned by the real root finders must be positive and reproduce the target, by "
        "summation over the enumerated outcomes, to the tolerance; targets outside (0, 1) raise ValueError.")
ASSUMPTIONS = ["the Skellam functions describe D = (second variable) - (first variable)",
               "targets no rate can reach (conditional root below exp(-b)/2) are outside the domain",
               "reproduced to 2 tol + 1e-12 (the truncation of the library's own sums is below tol)"]
GRID = (1e-3, .01, .1, .3, .5, .62, .9, .99, .999)
RATES = (.05, .4, 1.3, 3.0, 8.5, 20.0)
CASE_TIMEOUT = 30


def rates(tier):
    return RATES if tier == "quick" else RATES + (.11, .2, .75, 2.1, 4.4, 6.0, 13.0, 34.0)


def bounds(tier):
    return {"targets": GRID, "rates": rates(tier), "skellam": "n = 0: every pair of targets of the grid; other thresholds: targets of the rates whose "
                       "three probabilities exceed 0.01", "thresholds": "0..12, 30 (Poisson); -3..3 and around the mean (Skellam)",
            "tolerances": [1e-4, 1e-8, 1e-10], "tier": tier}


def groups(tier):
    return [{"k": k, "tol": t, "tier": tier, "i": i} for k in ("poisson", "skellam", "conditional", "invalid")
            for t in (1e-8, 1e-4, 1e-10) for i in (range(len(rates(tier))) if k != "invalid" else [0])]


def expand(g):
    k, tol, i = g["k"], g["tol"], g["i"]
    base = {"k": k, "tol": tol}
    r = rates(g["tier"])[i]
    if k == "poisson":
        for n in list(range(13)) + [30]:
            if i == 0:
                for t in GRID:
                    yield dict(base, n=n, t=[t])
            t = discrete.cdf(r, n)[0]
            if 1e-4 < t < 1 - 1e-4:
                yield dict(base, n=n, t=[t])
    elif k == "skellam":
        if i == 0:
            for t1 in GRID:
                for t2 in GRID:
                    if t1 + t2 < .999:
                        yield dict(base, n=0, t=[t1, t2])
        for b in rates(g["tier"]):
            m = int(round(b - r))
            for n in sorted(set(range(-3, 4)) | set(range(m - 2, m + 3))):
                t1, t2 = (discrete.prob(r, b, t)[0] for t in (lambda d: d < n, lambda d: d > n))
                if min(t1, t2) > .01 and 1 - t1 - t2 > .01:
                    yield dict(base, n=n, t=[t1, t2])
    elif k == "conditional":
        for t in GRID:
            if t > .52 * math.exp(-r):          # a = 0 gives P = exp(-b) / 2: nothing below is reachable
                yield dict(base, b=r, t=[t])
        for a in rates(g["tier"]):
            t = discrete.prob(a, r, lambda d: d < 0)[0] + .5 * discrete.prob(a, r, lambda d: d == 0)[0]
            if 1e-3 < t < .999:
                yield dict(base, b=r, t=[t])
    else:
        for t in (0, 1, -.1, 1.1, 0.0, 1.0):
            yield dict(base, f="poisson", t=[t])
            yield dict(base, f="conditional", t=[t])
        for t in ((0, .5), (.5, 0), (.5, .5), (.7, .4), (-.1, .3), (.3, -.2)):
            yield dict(base, f="skellam", t=list(t))


def check(case):
    from maxlike import skellam as sk
    tol, t = case["tol"], case["t"]
    st = [tuple(sorted((k, repr(v)) for k, v in case.items()))]
    lim = 2 * tol + 1e-12
    if case["k"] == "invalid":
        f = {"poisson": lambda: sk.poisson_cdf_root(t[0], 2, tol), "skellam": lambda: sk.skellam_cdf_root(t[0], t[1], 0, tol),
             "conditional": lambda: sk.conditional_skellam_cdf_root(1.5, t[0], tol)}[case["f"]]
        try:
            r = f()
        except ValueError:
            return Outcome(st, 1, observed="ValueError", nontrivial=False)
        return Outcome(st, 1, "%s root of the target %s returned %s" % (case["f"], t, r), "invalid")
    kw = {} if tol == 1e-8 else {"tol": tol}                # defaults are left out
    if case["k"] != "conditional" and case["n"] != (2 if case["k"] == "poisson" else 0):
        kw["n"] = case["n"]
    try:
        if case["k"] == "poisson":
            r = [sk.poisson_cdf_root(t[0], **kw)]
        elif case["k"] == "skellam":
            r = list(sk.skellam_cdf_root(t[0], t[1], **kw))
        else:
            r = [sk.conditional_skellam_cdf_root(case["b"], t[0], **kw)]
    except Exception as e:
        if type(e).__name__ == "ConvergenceError":
            return Outcome(st, 1, "ConvergenceError", case["k"] + " conv")
        raise
    r = [float(x) for x in r]
    if not all(0 < x < 1e6 for x in r):
        return Outcome(st, 1, "returned %s" % r, case["k"] + " range")
    if case["k"] == "poisson":
        got = [discrete.cdf(r[0], case["n"])[0]]
    elif case["k"] == "skellam":
        got = [discrete.prob(r[0], r[1], f)[0] for f in (lambda d: d < case["n"], lambda d: d > case["n"])]
    else:
        got = [discrete.prob(r[0], case["b"], lambda d: d < 0)[0] + .5 * discrete.prob(r[0], case["b"], lambda d: d == 0)[0]]
    if max(abs(x - y) for x, y in zip(got, t)) > lim:
        return Outcome(st, 2, "%s -> rates %s, which give %s" % (t, r, got), case["k"])
    return Outcome(st, 2, observed=[round(x, 6) for x in r])
