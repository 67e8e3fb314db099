"""C22: evaluating functions leaves no trace: inputs, function and earlier results stay what they were."""
import itertools
import numpy as np
from mc import exprs, funcs, fcheck, tens, jets
from mc.core import Outcome

PROPERTY = "C22"
RULE = ("For every expression, one function object goes through histories of evaluations (letters: call, grad i, "
        "hess i j, eval, at two parameter points) that contain every ordered pair of letters (thorough: every triple "
        "for functions of one parameter); every result must be the reference value whatever came before, parameters "
        "must keep their bytes, and at the end the results returned earlier must still denote the same values. The "
        "history is repeated with the two points taking turns in the same array objects, and after deriving other "
        "functions from the same object with every operator word up to the bound.")
ASSUMPTIONS = fcheck.ASSUMPTIONS[:1]
DERIVE = ("+", "r-", "*", "neg", "/", "exp", "sum", "prod", "coll")
SUB = {"quick": {"arrays": 29, "leaves": 23, "pairs": 23, "compose": 19, "compose2": 31, "nested": 31},
       "thorough": {"arrays": 3, "leaves": 1, "pairs": 9, "compose": 1, "compose2": 2, "nested": 2}}


def bounds(tier):
    return {"expressions": "every leaf function plain; every %s-th expression of the families, in the order the grammar "
            "enumerates them" % (SUB[tier],), "history": "all ordered pairs of letters in one history; all triples "
            "for one parameter (thorough)", "derivations": "all words over %s up to length 2" % (DERIVE,), "tier": tier}


CHUNKS = 8


def groups(tier):
    return [{"fam": f, "c": c, "tier": tier, "mode": m} for f in ["plain"] + sorted(SUB[tier]) for c in range(CHUNKS)
            for m in ("fresh", "inplace", "derive") if not (m == "derive" and f not in ("plain", "nested"))]


def expand(g):
    if g["fam"] == "plain":
        it = (exprs.typed(e, p) for e, p, f, d in exprs.leaves() if p)
    else:
        it = itertools.islice((te for te in exprs.FAMILIES[g["fam"]](g["tier"]) if te["p"]), 0, None,
                              SUB[g["tier"]][g["fam"]])
    for te in itertools.islice(it, g["c"], None, CHUNKS):
        if g["mode"] == "derive":
            for n in ((1, 2) if g["fam"] == "plain" or g["tier"] == "thorough" else (1,)):
                for w in itertools.product(DERIVE, repeat=n):
                    yield dict(te, mode="derive", w=list(w), t=g["tier"])
        else:
            yield dict(te, mode=g["mode"], t=g["tier"])


def euler(n):
    """closed walk over n letters containing every ordered pair (de Bruijn word of order 2)"""
    return debruijn(n, 2)


def debruijn(n, k):
    a, seq = [0] * n * k, []

    def db(t, p):
        if t > k:
            if k % p == 0:
                seq.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, n):
            a[t] = j
            db(t + 1, t)
    db(1, 1)
    return seq + seq[:k - 1]


def letters(n):
    out = [("call",), ("eval",)] + [("grad", i) for i in range(n)] + \
          [("hess", i, j) for i in range(n) for j in range(i + 1)]
    return [(pt,) + o for o in out for pt in (0, 1)]


def do(f, o, par):
    if o[0] == "call":
        return [f(par)]
    if o[0] == "grad":
        return [f.grad(par, o[1])]
    if o[0] == "hess":
        return [f.hess(par, o[1], o[2])]
    v, g, h = f.eval(par)
    return [v] + list(g) + [h[i][j] for i in range(len(par)) for j in range(i + 1)]


def good(res, o, jet, vals):
    n = len(vals)
    if o[0] == "call":
        ms = [funcs.cmp_val(res[0], jet)]
    elif o[0] == "grad":
        ms = [funcs.cmp_grad(res[0], jet, vals, o[1])]
    elif o[0] == "hess":
        ms = [funcs.cmp_hess(res[0], jet, vals, o[1], o[2])]
    else:
        ms = [funcs.cmp_val(res[0], jet)] + [funcs.cmp_grad(res[1 + i], jet, vals, i) for i in range(n)]
        ij = [(i, j) for i in range(n) for j in range(i + 1)]
        ms += [funcs.cmp_hess(res[1 + n + k], jet, vals, i, j) for k, (i, j) in enumerate(ij)]
    return next((m for m in ms if m), None)


def snapshot(res):
    return [np.array(tens.dense(r)[0]) for r in res]


def same(a, b):
    return all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def derive(mf, f, w, vals, nf):
    for o in w:
        if o == "+":
            f = f + 1.5
        elif o == "r-":
            f = 0.5 - f
        elif o == "*":
            f = f * 2.0
        elif o == "/":
            f = f / 4.0
        elif o == "neg":
            f = -f
        elif o == "exp":
            f = mf.Exp() @ f
        elif o == "coll":
            f = mf.Collapse(f)
            nf = 0
        elif o in ("sum", "prod"):
            g = (mf.Sum if o == "sum" else mf.Product)(nf)
            g.add(f, list(range(len(vals))), list(range(nf)))
            f = g
    return f


def check(case):
    import maxlike.func as mf
    te = {"e": case["e"], "p": case["p"]}
    pts = [exprs.params_of(te, s) for s in (0, 1)]
    js = [exprs.reference(te, v)[0] for v in pts]
    js = [jets.Jet(j.v, j.g, j.h, j.nd) for j in js]
    f = exprs.make(te["e"])
    L = letters(len(pts[0]))
    base = (repr(te), case["mode"])
    if case["mode"] == "derive":
        return check_derive(mf, case, f, pts, js, L, base)
    order = 3 if case["t"] == "thorough" and len(pts[0]) == 1 else 2
    word = debruijn(len(L), order)
    st, n, old = [], 0, {}
    if case["mode"] == "fresh":
        arrs = [[v.copy() for v in p] for p in pts]
    else:
        bufs = [np.empty(v.shape) for v in pts[0]]
        arrs = [[b[...] for b in bufs]] * 2
    cur = None
    first = {}
    for k, x in enumerate(word):
        pt, o = L[x][0], L[x][1:]
        if case["mode"] == "inplace" and pt != cur:
            for b, v in zip(bufs, pts[pt]):
                b[...] = v
            cur = pt
        res = do(f, o, list(arrs[pt]))
        n += 1
        st.append(base + (word[max(0, k - order + 1):k + 1].__repr__(),))
        snap = snapshot(res)
        if x not in first:
            m = good(res, o, js[pt], pts[pt])
            if m:
                return Outcome(st, n, "step %d (%s at point %d): %s" % (k, o, pt, m), "%s value" % case["mode"])
            first[x] = snap
        elif not close(snap, first[x]):
            return Outcome(st, n, "step %d (%s at point %d) differs from its first evaluation" % (k, o, pt),
                           "%s repeat" % case["mode"])
        if case["mode"] == "fresh" and x not in old:
            old[x] = (res, snap)
        if any(not np.array_equal(a, v) for a, v in zip(arrs[pt], pts[pt])):
            return Outcome(st, n, "step %d (%s) changed the parameters" % (k, o), "params")
        if not all(a.flags.writeable for a in arrs[pt]):
            return Outcome(st, n, "step %d (%s) made the parameters read-only" % (k, o), "frozen")
    for x, (res, snap) in old.items():
        n += 1
        if not same(snapshot(res), snap):
            return Outcome(st, n, "the result of %s changed afterwards" % (L[x],), "results")
    return Outcome(st, n, observed=(repr(te["e"])[:60], len(word)))


def close(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=1e-10, atol=1e-12, equal_nan=True)
                                    for x, y in zip(a, b))


def check_derive(mf, case, f, pts, js, L, base):
    n, st = 0, []
    arr = [v.copy() for v in pts[0]]
    f(list(arr))
    g = derive(mf, f, case["w"], arr, js[0].nf) if usable(case, js[0]) else None
    if g is None:
        return Outcome([base], 1, nontrivial=False)
    g(list(arr)), g.eval(list(arr))
    for i in range(len(arr)):
        g.grad(list(arr), i)
        for j in range(i + 1):
            g.hess(list(arr), i, j)
    for pt, o in ((x[0], x[1:]) for x in L):
        m = good(do(f, o, [v.copy() for v in pts[pt]]), o, js[pt], pts[pt])
        n += 1
        st.append(base + (tuple(case["w"]), pt, o))
        if m:
            return Outcome(st, n, "%s of the original after deriving %s: %s" % (o, case["w"], m), "derive")
    return Outcome(st, n, observed=(repr(case["e"])[:60], case["w"]))


def usable(case, jet):
    """Sum and Product are built without extra dimensions"""
    return not (jet.nd and ("sum" in case["w"] or "prod" in case["w"])) and not (
        "coll" in case["w"] and (jet.nf == 0 or case["w"].index("coll") < len(case["w"]) - 1))
