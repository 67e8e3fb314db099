"""C01: element-wise tensor arithmetic agrees with arithmetic of the dense arrays."""
import itertools
import operator
import numpy as np
from mc.core import Outcome
from mc import tens
from mc.tens import build, align, mismatch, structures, compatible, signature

PROPERTY = "C01"
RULE = ("One state per (start structure, operation word); transitions are real Tensor/GenericTensor "
        "operators executed in lockstep with ndarray arithmetic on the dense reference. All structures "
        "within the bounds, all operand structures and all operation words up to the depth are executed.")
ASSUMPTIONS = [
    "values are in general position (never 0 or 1 except for the explicit scalars 0 and 1), so that the "
    "control flow depends on the index structure only, except in the words of the value regimes",
    "denominators are bounded away from 0 and unmapped (a mapped tensor has structural zeros)",
    "a result may use size-1 axes along which it is constant; a 0-d result stands for a constant",
]

SCALARS = [0, 1, 2.5, -1]


def base(tier, profile):
    if profile == "same":
        return structures([(), (2,), (2, 2)], [(), (2,), (2, 2)], [(), (2,), (2, 2)], [(), (2,)])
    if profile == "distinct":       # all sizes distinct within a group: wrong axis order shows as shape
        return structures([(), (3,), (2, 3)], [(), (2,), (3, 2)], [(), (2,), (2, 3)], [(), (4,)],
                          partial=True)
    if profile == "partial":
        return structures([(), (2,), (2, 2)], [(), (2,), (2, 2)], [(2, 2)], [(), (2,)], partial=True)
    if profile == "deep":
        return structures([(), (2,), (3, 2)], [(), (3,), (3, 2)], [(), (3,), (3, 2)], [(), (2,), (2, 2)],
                          partial=True)
    raise ValueError(profile)


def seconds(tier):
    """operands of the last step of the depth-2 words"""
    return [s for s in structures([(), (2,)], [(), (2,)], [(), (2,), (2, 2)], [()], partial=False)]


def sums(k):
    """all sums of up to three structures with k different mappings over the same axes"""
    Q = {3: lambda: structures([(2,)], [()], [(2, 2)], [()]), 4: lambda: structures([(2,)], [(2,)], [(2,)], [(2,)]),
         9: lambda: structures([(2,)], [(2,)], [(2, 2)], [()])}[k]()
    assert len(Q) == k, (k, len(Q))
    return [list(m) for r in (1, 2, 3) for m in itertools.combinations(Q, r)]


def small():
    """structures of the words of the value regimes"""
    return structures([(), (2,)], [(), (2,)], [(), (2,), (3, 2)], [(), (2,)], partial=True)


TINY = (1e-9, -3e-12, 1e-200, 1 + 1e-9, 7e15)


def bounds(tier):
    return {
        "values": "general position; regimes: %s, on either side or on both of + - * and /, scalars %s" % (
            ", ".join(tens.REGIMES), TINY),
        "x, y, features": "0..2 axes each, every (partial) mapping of x/y axes to features",
        "extra dims": "0..1 axes (0..2 in thorough)",
        "axis sizes": "2..4; profiles: all equal, all distinct, partial maps",
        "words": "depth 1: + - * / with every compatible structure, every scalar/array/0-d operand, "
                 "reflected and numpy-dispatched forms; depth 2: + - * after + - *; sums of two tensors "
                 "on either side of + - *; all sums of up to three different mappings (of 3, 4 and 9; quick: up to "
                 "two on the right for 9) on both sides of + - *",
        "tier": tier,
    }


def groups(tier):
    profs = ["same", "distinct", "partial"] + (["deep"] if tier == "thorough" else [])
    out = []
    for prof in profs:
        S = base(tier, prof)
        out += [{"f": "pair", "prof": prof, "tier": tier, "i": i} for i in range(len(S))]
    S = base(tier, "same")
    out += [{"f": "word", "prof": "same", "tier": tier, "i": i} for i in range(len(S))]
    out += [{"f": "gen", "prof": "same", "tier": tier, "i": i} for i in range(len(S))]
    out += [{"f": "sums", "prof": "same", "tier": tier, "k": k, "i": i} for k in (3, 4, 9) for i in range(len(sums(k)))]
    out += [{"f": "reg", "prof": "same", "tier": tier, "i": i} for i in range(len(small()))]
    for prof in profs:
        out.append({"f": "misc", "prof": prof, "tier": tier})
    return out


def expand(g):
    tier = g["tier"]
    S = base(tier, g["prof"])
    if g["f"] == "pair":
        a = dict(S[g["i"]], s=1)
        for b in S:
            if not compatible(a, b):
                continue
            for op in ("+", "-", "*"):
                yield {"a": a, "w": [[op, dict(b, s=2)]]}
            if not b["xm"] and not b["ym"]:
                yield {"a": a, "w": [["/", dict(b, s=2, pos=True)]]}
    elif g["f"] == "reg":
        C = small()
        a = dict(C[g["i"]], s=1)
        plain = not a["xm"] and not a["ym"]
        for b in C:
            if not compatible(a, b):
                continue
            for q in tens.REGIMES:
                for ra, rb in ((q, None), (None, q), (q, q)):
                    for op in ("+", "-", "*"):
                        yield {"a": dict(a, rg=ra), "w": [[op, dict(b, s=2, rg=rb)]]}
                    if not b["xm"] and not b["ym"] and rb not in ("holes", "zero", "int"):
                        yield {"a": dict(a, rg=ra), "w": [["/", dict(b, s=2, pos=True, rg=rb)]]}
            for ra, rb in (("tiny", "huge"), ("huge", "tiny"), ("holes", "mixed"), ("zero", "ones")):
                for op in ("+", "*"):
                    yield {"a": dict(a, rg=ra), "w": [[op, dict(b, s=2, rg=rb)]]}
        for q in (None,) + tens.REGIMES:
            x = dict(a, rg=q)
            yield {"a": x, "w": [["neg", None]]}
            for v in TINY + (0, 1, -1):
                for k in "S0N":
                    b = {"k": k, "v": v}
                    for op in ("+", "-", "*", "r+", "r-", "r*") + (("/",) if v else ()) + \
                            (("r/",) if plain and q not in ("holes", "zero", "int") else ()):
                        yield {"a": x, "w": [[op, b]]}
            b = {"k": "A", "n": a["n"] or [2], "s": 3}
            for op in ("+", "r-", "*", "np*"):
                for r in tens.REGIMES:
                    yield {"a": x, "w": [[op, dict(b, rg=r)]]}
    elif g["f"] == "word":
        a = dict(S[g["i"]], s=1)
        C = seconds(tier)
        step = 1
        for b in S:
            if b["d"] or not compatible(a, b):
                continue
            if tier == "quick" and len(b["x"]) + len(b["y"]) + len(b["n"]) > 4:
                continue
            for c in C:
                if not (compatible(a, c) and compatible(b, c)):
                    continue
                for o1, o2 in (("+", "+"), ("+", "-"), ("+", "*"), ("-", "*"), ("-", "+"), ("*", "+"),
                               ("*", "*"), ("*", "-")):
                    yield {"a": a, "w": [[o1, dict(b, s=2)], [o2, dict(c, s=3)]]}
    elif g["f"] == "gen":
        # the operand itself is a sum (possibly a GenericTensor)
        a = dict(S[g["i"]], s=1)
        C = seconds(tier)
        for b, c in itertools.combinations(C, 2):
            if not (compatible(a, b) and compatible(a, c) and compatible(b, c)):
                continue
            if a["d"] and tier == "quick":
                continue
            for op in ("+", "-", "*"):
                yield {"a": a, "w": [[op, [dict(b, s=2), dict(c, s=3)]]]}
            if not tier == "quick":
                yield {"a": a, "w": [["+", dict(b, s=2)], ["*", [dict(c, s=4), dict(b, s=5)]]]}
    elif g["f"] == "sums":
        # sums of up to three tensors on both sides
        A = sums(g["k"])
        C = [m for m in A if tier == "thorough" or len(m) < 3 or g["k"] < 9]
        for b in C:
            for op in ("+", "-", "*"):
                yield {"a": [dict(d, s=1 + k) for k, d in enumerate(A[g["i"]])],
                       "w": [[op, [dict(d, s=5 + k) for k, d in enumerate(b)]]]}
    else:
        for a in S:
            a = dict(a, s=1)
            plain = not a["xm"] and not a["ym"]
            pre = [[]]
            # also after making a GenericTensor of it
            if not plain:
                pre.append([["+", dict(a, xm=None, ym=None, s=6)]])
            for w in pre:
                yield {"a": a, "w": w + [["neg", None]]}
                for v in SCALARS:
                    for k in "S0N":
                        b = {"k": k, "v": v}
                        for op in ("+", "-", "*", "r+", "r-", "r*"):
                            yield {"a": a, "w": w + [[op, b]]}
                        if v != 0:
                            yield {"a": a, "w": w + [["/", b]]}
                        if plain and not w:
                            yield {"a": dict(a, pos=True), "w": w + [["r/", b]]}
                b = {"k": "A", "n": a["n"] or [2], "s": 3}
                for op in ("+", "-", "*", "r+", "r-", "r*", "np+", "np-", "np*"):
                    yield {"a": a, "w": w + [[op, b]]}
                yield {"a": a, "w": w + [["/", dict(b, pos=True)]]}
                yield {"a": a, "w": w + [["np/", dict(b, pos=True)]]}
                if plain and not w:
                    yield {"a": dict(a, pos=True), "w": w + [["r/", b]]}
                for v in (2.5,):
                    for op in ("np+", "np-", "np*", "np/"):
                        yield {"a": a, "w": w + [[op, {"k": "S", "v": v}]]}


def make(desc):
    if isinstance(desc, list):
        A, DA, ra = build(desc[0])
        for d in desc[1:]:
            B, DB, rb = build(d)
            r = tuple(map(max, ra, rb))
            A, DA, ra = A + B, align(DA, ra, r) + align(DB, rb, r), r
        return A, DA, ra
    if desc.get("k") == "N":
        return np.float64(desc["v"]), np.asarray(float(desc["v"])), (0, 0, 0, 0)
    return build(desc)


FUN = {
    "+": lambda t, b: t + b, "-": lambda t, b: t - b, "*": lambda t, b: t * b, "/": lambda t, b: t / b,
    "r+": lambda t, b: b + t, "r-": lambda t, b: b - t, "r*": lambda t, b: b * t, "r/": lambda t, b: b / t,
    "np+": np.add, "np-": np.subtract, "np*": np.multiply, "np/": np.divide,
}
REF = dict(FUN)
INPLACE = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv}


def special(*descs):
    return any(isinstance(d, dict) and (d.get("rg") or d.get("v") in TINY) for d in descs)


def check(case):
    T, D, r = make(case["a"])
    states = [("start", signature(T))]
    regimes = len(case["w"]) == 1 and special(case["a"], case["w"][0][1])
    n = 0
    for op, b in case["w"]:
        n += 1
        if op == "neg":
            T, D = -T, -D
        else:
            B, DB, rb = make(b)
            rr = tuple(map(max, r, rb))
            D1 = D
            D = np.asarray(REF[op](align(D, r, rr), align(DB, rb, rr)))
            old, r0, D0, r = T, r, D1, rr
            T = FUN[op](T, B)
            if len(case["w"]) == 1 and not regimes and op in INPLACE:
                # the operator that reuses the name of the operand: same result, the object it named is unchanged
                n += 1
                m = mismatch(INPLACE[op](old, B), D, r) or mismatch(old, D0, r0) or mismatch(T, D, r) or (
                    mismatch(B, DB, rb) if hasattr(B, "toarray") else None)
                states.append((op + "=", signature(T)))
                if m:
                    return Outcome(states, n, "%s=: %s" % (op, m), key="arith:%s=" % op)
        states.append((op, signature(T)))
        m = mismatch(T, D, r, atol=tens.spread(D, op[-1] in "*/") if regimes else 1e-10)
        if m:
            return Outcome(states, n, "after step %d (%s): %s" % (n, op, m), key="arith:" + op)
    return Outcome(states, n, observed=repr(states[-1]))
