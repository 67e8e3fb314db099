"""C02: sum, expand, flip, transpose and drop_dim agree with the same operation on the dense arrays."""
import itertools
import numpy as np
from mc.core import Outcome
from mc import tens
from mc.tens import build, align, mismatch, structures, compatible, signature

PROPERTY = "C02"
RULE = ("Breadth-first over structural-operation words from every tensor structure (and every sum of two "
        "structures); each transition executes the real operation and compares the denoted dense array, "
        "the ranks, and the operand (which must be unchanged) with the reference.")
ASSUMPTIONS = [
    "flip of a mapped feature axis may raise NotImplementedError instead of giving the result",
    "values in general position, except in the words of the value regimes; a result may use size-1 axes along which it is constant",
]


def base(tier, prof):
    if prof == "same":
        return structures([(), (2,), (2, 2)], [(), (2,), (2, 2)], [(), (2,), (2, 2)], [(), (2,)],
                          partial=True)
    if prof == "distinct":
        return structures([(), (3,), (2, 3)], [(), (2,), (3, 2)], [(), (3,), (3, 2), (3, 2, 4)],
                          [(), (4,), (5, 4)], partial=False)
    return structures([(), (3,), (2, 3), (2, 3, 4)], [(), (2,), (3, 2), (4, 3, 2)], [(), (3,), (3, 2), (3, 2, 4)],
                      [(), (4,), (5, 4)], partial=True)


def ops(r, free, tier, mapped=()):
    """Every structural operation applicable to ranks r; free: features no x/y axis is mapped to."""
    x, y, n, d = r
    out = [["T"], ["D"]]
    for sd in (True, False):
        out += [["sum", True, sd], ["sum", False, sd]]
        for k in range(1, n + 1):
            for sv in itertools.combinations(range(n), k):
                out.append(["sum", list(sv), sd])
        for k in range(n):
            out.append(["sum", k, sd])
    for size in range(n, n + 3 if n < 2 or tier != "quick" else n + 2):
        for where in itertools.permutations(range(size), n):
            out.append(["expand", list(where), size, False])
    for size in range(d, d + 2):
        for where in itertools.permutations(range(size), d):
            out.append(["expand", list(where), size, True])
    for k in range(1, len(free) + 1):
        for w in itertools.combinations(free, k):
            out.append(["flip", list(w), False])
    out += [["flip", None, False], ["flip", [], False]]
    for k in range(1, d + 1):
        for w in itertools.combinations(range(d), k):
            out.append(["flip", list(w), True])
    if free:
        out.append(["flip", free[0], False])
    return out


def ref_op(D, r, op):
    x, y, n, d = r
    p = x + y
    k = op[0]
    if k == "T":
        perm = list(range(x, p)) + list(range(x)) + list(range(p, p + n + d))
        return D.transpose(perm), (y, x, n, d)
    if k == "D":
        return D, (x, y, n + d, 0)
    if k == "sum":
        sv = list(range(n)) if op[1] is True else [] if op[1] is False else \
            [op[1]] if isinstance(op[1], int) else op[1]
        ax = [p + i for i in sv]
        dd = d
        if op[2]:
            ax += list(range(p + n, p + n + d))
            dd = 0
        return D.sum(axis=tuple(ax)) if ax else D, (x, y, n - len(sv), dd)
    if k == "expand":
        where, size, dim = op[1:]
        q = p + n if dim else p
        m = d if dim else n
        # axis i goes to position where[i]
        order = sorted(range(m), key=lambda i: where[i])
        perm = list(range(q)) + [q + i for i in order] + list(range(q + m, D.ndim))
        D = D.transpose(perm)
        idx = [slice(None)] * q + [slice(None) if j in where else None for j in range(size)] + [Ellipsis]
        D = D[tuple(idx)]
        return D, ((x, y, n, size) if dim else (x, y, size, d))
    if k == "flip":
        w = op[1]
        w = [] if w is None else [w] if isinstance(w, int) else w
        q = p + n if op[2] else p
        for a in w:
            D = np.flip(D, q + a)
        return D, r
    raise ValueError(op)


def ref_free(free, r, op):
    """features without mapped axes after op (conservative)"""
    k = op[0]
    n = r[2]
    if k == "sum":
        sv = list(range(n)) if op[1] is True else [] if op[1] is False else \
            [op[1]] if isinstance(op[1], int) else op[1]
        left = [f for f in range(n) if f not in sv]
        return [i for i, f in enumerate(left) if f in free]
    if k == "expand" and not op[3]:
        used = {op[1][f] for f in range(n) if f not in free}
        return [f for f in range(op[2]) if f not in used]
    if k == "D":
        return free + list(range(n, n + r[3]))
    return free


def real_op(T, op):
    k = op[0]
    if k == "T":
        return T.transpose()
    if k == "D":
        return T.drop_dim()
    if k == "sum":
        return T.sum(op[1], op[2])
    if k == "expand":
        return T.expand(op[1], op[2], dim=True) if op[3] else T.expand(op[1], op[2])
    if k == "flip":
        return T.flip(op[1], dim=True) if op[2] else T.flip(op[1])


def start(a):
    if isinstance(a, list):
        (A, DA, ra), (B, DB, rb) = build(a[0]), build(a[1])
        r = tuple(map(max, ra, rb))
        T, D = A + B, align(DA, ra, r) + align(DB, rb, r)
        used = set()
        for s in a:
            used |= {f for m in (s["xm"], s["ym"]) for f in (m or ()) if f >= 0}
        free = [f for f in range(r[2]) if f not in used]
        return T, D, r, free
    T, D, r = build(a)
    used = {f for m in (a["xm"], a["ym"]) for f in (m or ()) if f >= 0}
    return T, D, r, [f for f in range(r[2]) if f not in used]


def bounds(tier):
    return {"x, y": "0..2 axes (0..3 thorough)", "features": "0..3", "extra dims": "0..2",
            "maps": "all (partial) injections of x/y axes into features",
            "start": "every structure, every sum of two compatible structures of the 'same' profile",
            "values": "general position; regimes (%s): depth 1, tensors and sums of two" % ", ".join(tens.REGIMES),
            "words": "depth 2 from plain tensors, depth 1 from sums (2 in thorough)",
            "expand": "every injection of axes into up to 2 more axes", "tier": tier}


def groups(tier):
    out = []
    for prof in ["same", "distinct"] + (["deep"] if tier == "thorough" else []):
        out += [{"f": "one", "prof": prof, "i": i, "tier": tier} for i in range(len(base(tier, prof)))]
    out += [{"f": "sum", "prof": "same", "i": i, "tier": tier} for i in range(len(base(tier, "same")))]
    out += [{"f": "reg", "prof": "distinct", "i": i, "tier": tier} for i in range(len(base(tier, "distinct")))]
    return out


def expand(g):
    tier = g["tier"]
    S = base(tier, g["prof"])
    if g["f"] == "reg":
        a = dict(S[g["i"]], s=1)
        for q in tens.REGIMES:
            yield {"a": dict(a, rg=q), "depth": 1, "tier": tier}
        C = [b for b in S if compatible(a, b) and (a["xm"], a["ym"]) != (b["xm"], b["ym"]) and b["n"] == a["n"]
             and b["d"] == a["d"] and b["x"] == a["x"] and b["y"] == a["y"]]
        for b in C:
            for q, r in (("tiny", "tiny"), ("holes", "zero"), ("zero", "int"), ("ones", "mixed")):
                yield {"a": [dict(a, rg=q), dict(b, s=2, rg=r)], "depth": 1, "tier": tier}
        return
    a = dict(S[g["i"]], s=1)
    if g["f"] == "one":
        yield {"a": a, "depth": 2 if tier == "thorough" or g["prof"] == "same" and len(a["n"] + a["d"]) < 3 else 1,
               "tier": tier}
    else:
        for b in S[g["i"] + 1:]:
            if compatible(a, b) and (a["xm"], a["ym"]) != (b["xm"], b["ym"]):
                yield {"a": [a, dict(b, s=2)], "depth": 1, "tier": tier}


def check(case):
    T0, D0, r0, free0 = start(case["a"])
    states = [("start", signature(T0))]
    regimes = any(d.get("rg") for d in (case["a"] if isinstance(case["a"], list) else [case["a"]]))
    n = 0
    frontier = [((), T0, D0, r0, free0)]
    last = None
    for depth in range(case["depth"]):
        nxt = []
        for word, T, D, r, free in frontier:
            before = np.array(T.toarray(), copy=True)
            for op in ops(r, free, case["tier"]):
                R = real_op(T, op)
                D2, r2 = ref_op(D, r, op)
                n += 1
                m = mismatch(R, D2, r2, atol=tens.spread(D) if regimes else 1e-10)
                if m:
                    return Outcome(states, n, "after %s: %s" % (list(word) + [op], m),
                                   key="reshape:" + op[0])
                states.append((word + (repr(op),), signature(R)))
                last = repr(signature(R))
                if depth + 1 < case["depth"]:
                    nxt.append((word + (repr(op),), R, D2, r2, ref_free(free, r, op)))
            for f in range(r[2]):
                if f in free:
                    continue
                op = ["flip", [f], False]       # refused, or right
                n += 1
                try:
                    R = real_op(T, op)
                except NotImplementedError:
                    states.append((word + (repr(op),), "refused"))
                    continue
                m = mismatch(R, ref_op(D, r, op)[0], r, atol=tens.spread(D) if regimes else 1e-10)
                if m:
                    return Outcome(states, n, "after %s: %s" % (list(word) + [op], m), key="reshape:mapped flip")
            if not np.array_equal(before, T.toarray()):
                return Outcome(states, n, "operand changed by %s" % (word,), key="mutated")
        frontier = nxt
    return Outcome(states, n, observed=last)
