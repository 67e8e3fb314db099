"""C03: inner products of tensors are the dense contractions."""
import itertools
import numpy as np
from mc.core import Outcome
from mc import tens
from mc.tens import build, align, mismatch, structures, signature

PROPERTY = "C03"
RULE = ("Every pair of structures (matrix side, vector side) whose contracted group matches is contracted "
        "by the real dot_left / dot_right / dot and by a dense sum of products; also with either side a "
        "sum of two structures and followed by transposed second contractions (the Hessian pattern).")
ASSUMPTIONS = [
    "values in general position, except in the words of the value regimes",
    "dot() is only used where its dispatch is unambiguous (documented shapes)",
]


def lefts(tier, N):
    """self structures: x group = contracted group of sizes N; y; features M; extra dims E"""
    M = [(), N] + ([N[::-1]] if N[::-1] != N else [])
    if len(N) == 1:
        M.append(N + N)
    if len(N) == 2:
        M += [(N[0],), (N[1],)]
    Y = [(), (2,), N]
    Y = list(dict.fromkeys(Y))
    return structures([N], Y, M, [(), (2,)], partial=True)


def others(tier, N, withy):
    X = [(), (2,), N] + ([N[::-1]] if N[::-1] != N else [])
    X = list(dict.fromkeys(X))
    Y = X if withy else [()]
    return structures(X, Y, [N], [(), (2,)], partial=True)


NS = {"quick": [(2,), (3,), (2, 2), (2, 3)], "thorough": [(2,), (3,), (2, 2), (2, 3), (3, 2), (2, 2, 2)]}


def bounds(tier):
    return {"contracted group": str(NS[tier]), "x, y, features": "0..2 axes, every (partial) mapping",
            "extra dims": "0..1 on either side",
            "values": "general position; regimes on either side (one contraction): " + ", ".join(tens.REGIMES), "words": "one contraction; sums of two structures on either "
            "side; transposed double contraction H.dot_left(a).T.dot_left(b).T", "tier": tier}


def groups(tier):
    out = []
    for N in NS[tier]:
        for i in range(len(lefts(tier, N))):
            out.append({"f": "L", "N": N, "i": i, "tier": tier})
            out.append({"f": "R", "N": N, "i": i, "tier": tier})
            if N in ((2,), (2, 3)):
                out.append({"f": "Q", "N": N, "i": i, "tier": tier})
            out.append({"f": "H", "N": N, "i": i, "tier": tier})
    return out


def ok(a, b):
    return not (a["d"] and b["d"] and a["d"] != b["d"])


def expand(g):
    N = tuple(g["N"])
    tier = g["tier"]
    S = lefts(tier, N)
    a = dict(S[g["i"]], s=1)
    if g["f"] == "Q":
        for b in others(tier, N, not a["y"]):
            if not ok(a, b) or b["y"] and not b["x"]:
                continue
            for q in tens.REGIMES:
                for ra, rb in ((q, None), (None, q), (q, q)) if q != "tiny" else (("tiny", "huge"), ("huge", "tiny")):
                    w = {"a": [dict(a, rg=ra)], "b": [dict(b, s=2, rg=rb)]}
                    if not b["y"]:
                        yield dict(w, m="left")
                    if not a["y"]:
                        yield dict(w, m="right")
        return
    if g["f"] == "L":
        O = others(tier, N, False)
        for b in O:
            if ok(a, b):
                yield {"m": "left", "a": [a], "b": [dict(b, s=2)]}
                if b["x"]:
                    yield {"m": "dotl", "a": [a], "b": [dict(b, s=2)]}
        # sums
        for b, c in itertools.combinations(O, 2):
            if b["d"] or c["d"] or len(b["x"]) != len(c["x"]) or b["x"] != c["x"]:
                continue
            yield {"m": "left", "a": [a], "b": [dict(b, s=2), dict(c, s=3)]}
        for a2 in S:
            if a2["d"] or a["d"] or a2["n"] != a["n"] or a2["y"] != a["y"]:
                continue
            if (a2["xm"], a2["ym"]) == (a["xm"], a["ym"]):
                continue
            for b in O[::2] if tier == "quick" else O:
                if not b["d"]:
                    yield {"m": "left", "a": [a, dict(a2, s=3)], "b": [dict(b, s=2)]}
    elif g["f"] == "R":
        if a["y"]:
            return
        O = others(tier, N, True)
        for b in O:
            if ok(a, b):
                yield {"m": "right", "a": [a], "b": [dict(b, s=2)]}
                if b["x"] and b["y"]:
                    yield {"m": "dotr", "a": [a], "b": [dict(b, s=2)]}
        for b, c in itertools.combinations([o for o in O if not o["d"]], 2):
            if b["x"] != c["x"] or b["y"] != c["y"]:
                continue
            yield {"m": "right", "a": [a], "b": [dict(b, s=2), dict(c, s=3)]}
    else:
        if a["y"] != list(N):
            return
        O = [o for o in others(tier, N, False) if not o["d"] and o["x"]]
        for b in O:
            for c in O:
                yield {"m": "hess", "a": [a], "b": [dict(b, s=2)], "c": [dict(c, s=3)]}


def make(descs):
    T, D, r = build(descs[0])
    for d in descs[1:]:
        B, DB, rb = build(d)
        rr = tuple(map(max, r, rb))
        D = align(D, r, rr) + align(DB, rb, rr)
        r = rr
        T = T + B
    return T, D, r


LET = "abcdefghijklmnopqrstuvwxyz"


def contract(Da, ra, Db, rb, right):
    """sum over the contracted group; a: [N, Y, M, E] (left) or [N, M, E] (right); b: [X, (Y), N, E]"""
    it = iter(LET)
    take = lambda k: "".join(next(it) for _ in range(k))
    n = take(ra[0])
    M = take(ra[2])
    d = max(ra[3], rb[3])
    E = take(d)
    if right:
        X, Y = take(rb[0]), take(rb[1])
        sa = n + M + (E if ra[3] else "")
        sb = X + Y + n + (E if rb[3] else "")
    else:
        Y = take(ra[1])
        X = take(rb[0])
        sa = n + Y + M + (E if ra[3] else "")
        sb = X + n + (E if rb[3] else "")
    if not (ra[3] or rb[3]):
        E = ""
    return np.einsum("%s,%s->%s" % (sa, sb, X + Y + M + E), Da, Db), (len(X), len(Y), len(M), len(E))


def tr(D, r):
    x, y, n, d = r
    return D.transpose(list(range(x, x + y)) + list(range(x)) + list(range(x + y, D.ndim))), (y, x, n, d)


def check(case):
    A, DA, ra = make(case["a"])
    B, DB, rb = make(case["b"])
    m = case["m"]
    states = [("start", m, signature(A), signature(B))]
    n = 1
    if m in ("left", "dotl"):
        R = A.dot_left(B) if m == "left" else A.dot(B)
        D, r = contract(DA, ra, DB, rb, False)
    elif m in ("right", "dotr"):
        R = A.dot_right(B) if m == "right" else A.dot(B)
        D, r = contract(DA, ra, DB, rb, True)
    else:
        C, DC, rc = make(case["c"])
        R = A.dot_left(B).transpose().dot_left(C).transpose()
        D, r = tr(*contract(*(tr(*contract(DA, ra, DB, rb, False)) + (DC, rc, False))))
        n = 4
    states.append((m, signature(R)))
    special = any(d.get("rg") for d in case["a"] + case["b"])
    e = mismatch(R, D, r, atol=tens.spread(abs(DA).max(initial=0) * abs(DB).max(initial=0)) if special else 1e-10)
    if e:
        return Outcome(states, n, e, key=m)
    return Outcome(states, n, observed=repr(states[-1]))
