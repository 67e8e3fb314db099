"""C26: overlapping uses of shared functions do not interfere."""
import itertools
import numpy as np
from mc import exprs, fcheck, jets, likes, problems, sched
from mc.core import Outcome
from checks.C22_purity import good, close, snapshot

PROPERTY = "C26"
CASE_TIMEOUT = 150
RULE = ("shared: expressions in which every subexpression that occurs more than once is one object, and several "
        "expressions over the same objects evaluated in turns, against reference jets. interrupt: an evaluation (value, "
        "gradients, Hessians, eval) is suspended at each line of the library it executes, all evaluations of the same "
        "objects at other parameter values run to their end there, and the first one goes on: both results must be the "
        "reference values. cross: the same with one switch inside each of two threads. fits: a fit is suspended at the "
        "lines of the estimator, another estimator that shares all function objects is fitted (or queried) there; both end "
        "exactly where they end alone.")
ASSUMPTIONS = fcheck.ASSUMPTIONS[:1] + [
    "switches happen between lines of the library, not inside numpy; one switch per evaluation (interrupt: the second "
    "evaluation runs to its end; cross: one switch in each)",
    "two uses of one estimator do not overlap: an estimator is a mutable object"]
PAIRS = (("eval", "all"), ("hesses", "all"), ("grads", "all"), ("call", "all"))
CROSSED = (("eval", "eval"), ("hesses", "eval"), ("grads", "hesses"), ("call", "call"))
LINES = {"quick": 150, "thorough": 3000}
OPS = ("call", "grads", "hesses", "eval")
STEP = {"quick": {"arrays": 401, "pairs": 701, "compose": 601, "compose2": 211, "nested": 211, "triples": 199},
        "thorough": {"arrays": 41, "pairs": 67, "compose": 59, "compose2": 23, "nested": 19, "triples": 23}}
SHARE = {"quick": 5, "thorough": 1}
CHUNKS = 16
FITS = [("Poisson", "add/regcon"), ("Logistic", "pairhome/con"), ("Finite", "score"), ("Gauss", "add/reg2"),
        ("NegativeBinomial", "one/maskreg"), ("ZeroInflatedPoisson", "slope/con"), ("NormalizedFinite", "mm"),
        ("Poisson", "matrix/con")]


def bounds(tier):
    return {"interrupt": "every leaf function, another one at every line of the package (%s); every k-th "
            "composed expression, k = %s, at every line of maxlike/func; where there are more than %d switching points, the "
            "first and the last time that each line is reached" % (
                "all operations" if tier == "thorough" else "eval; the others at every line of maxlike/func", STEP[tier], LINES[tier]),
            "cross": "every pair of lines of maxlike/func of evaluations of leaf functions with at most %d lines" %
            CROSS[tier], "shared": "every %d-th expression of the families arrays, pairs, compose2, nested, triples"
            % SHARE[tier], "fits": ["%s:%s" % f for f in FITS], "lines of a fit": "all" if tier == "thorough" else
            "the first time that each line is reached", "tier": tier}


FITCHUNKS = {"quick": 2, "thorough": 64}
CROSS = {"quick": 40, "thorough": 200}


def groups(tier):
    combos = itertools.product(("newton", "broyden", "query"), ("newton", "broyden")) if tier == "thorough" else \
        (("newton", "newton"), ("broyden", "newton"), ("query", "broyden"))
    return [{"m": "interrupt", "fam": f, "c": c, "tier": tier} for f in ["leaf"] + sorted(STEP[tier])
            for c in range(CHUNKS)] + \
        [{"m": "cross", "c": c, "tier": tier} for c in range(CHUNKS)] + \
        [{"m": "shared", "fam": f, "c": c, "tier": tier} for f in ("arrays", "pairs", "compose2", "nested", "triples")
         for c in range(CHUNKS)] + \
        [{"m": "fits", "i": i, "q": q, "meth": m, "c": c, "tier": tier} for q, m in combos for i in range(len(FITS))
         for c in range(FITCHUNKS[tier])]


def leafs():
    seen = set()
    for e, p, f, d in exprs.leaves():
        if p and repr(e) not in seen:
            seen.add(repr(e))
            yield exprs.typed(e, p)
    for e, p, f, d in exprs.leaves():       # the same functions with features
        if p and any(p) and all(len(s) == 1 for s in p):
            yield exprs.typed(e, p)


def expand(g):
    m, t = g["m"], g["tier"]
    if m in ("interrupt", "cross"):
        it = leafs() if m == "cross" or g["fam"] == "leaf" else itertools.islice(
            (te for te in exprs.FAMILIES[g["fam"]](t) if te["p"]), 0, None, STEP[t][g["fam"]])
        for te in itertools.islice(it, g["c"], None, CHUNKS):
            leaf = m == "cross" or g["fam"] == "leaf"
            for a, b in PAIRS if m != "cross" else CROSSED if t == "quick" else itertools.product(OPS, repeat=2):
                yield dict(te, m=m, a=a, b=b,
                           files="" if leaf and m != "cross" and (a == "eval" or t == "thorough") else "func",
                           limit=(CROSS if m == "cross" else LINES)[t])
    elif m == "shared":
        it = itertools.islice((te for te in exprs.FAMILIES[g["fam"]](t) if te["p"]), 0, None, SHARE[t])
        for te in itertools.islice(it, g["c"], None, CHUNKS):
            yield dict(te, m=m)
    else:
        yield dict(g)


def whole(f, op, par):
    """the results of one operation, as a list in the order of eval"""
    n = len(par)
    if op == "call":
        return [f(par)]
    if op == "grads":
        return list(f.grad(par))
    if op == "hesses":
        h = f.hess(par)
        return [h[i][j] for i in range(n) for j in range(i + 1)]
    if op == "all":
        return [x for o in OPS for x in whole(f, o, par)]
    v, g, h = f.eval(par)
    return [v] + list(g) + [h[i][j] for i in range(n) for j in range(i + 1)]


def wrong(res, op, jet, vals):
    n = len(vals)
    if op == "call":
        return good(res, ("call",), jet, vals)
    if op == "all":
        m = ""
        for o, k in (("call", 1), ("grads", n), ("hesses", n * (n + 1) // 2), ("eval", len(res))):
            m = m or wrong(res[:k], o, jet, vals)
            res = res[k:]
        return m
    if op == "eval":
        return good(res, ("eval",), jet, vals)
    if op == "grads":
        return next((m for m in (good([res[i]], ("grad", i), jet, vals) for i in range(n)) if m), None)
    ij = [(i, j) for i in range(n) for j in range(i + 1)]
    return next((m for m in (good([r], ("hess", i, j), jet, vals) for r, (i, j) in zip(res, ij)) if m), None)


def check(case):
    return {"interrupt": interrupt, "cross": cross, "shared": shared, "fits": fits}[case["m"]](case)


def setup(case):
    te = {"e": case["e"], "p": case["p"]}
    pts = [exprs.params_of(te, s) for s in (0, 1)]
    js = [exprs.reference(te, v)[0] for v in pts]
    js = [jets.Jet(j.v, j.g, j.h, j.nd) for j in js]
    a, b = exprs.share([case["e"]])[0], None
    return te, a, pts, js, sched.package_dir() + (case["files"] if case.get("files") else "")


def ends(at):
    """the first and the last switching point of each line"""
    first = {}
    for k, x in enumerate(at):
        first.setdefault(x, k)
    return sorted(set({x: k for k, x in enumerate(at)}.values()) | set(first.values()))


def interrupt(case):
    te, f, pts, js, pre = setup(case)
    a, b = (lambda op=op, p=p: whole(f, op, [v.copy() for v in p]) for op, p in ((case["a"], pts[0]), (case["b"], pts[1])))
    alone = [snapshot(a()), snapshot(b())]
    for r, op, j, p in ((a(), case["a"], js[0], pts[0]), (b(), case["b"], js[1], pts[1])):
        m = wrong(r, op, j, p)
        if m:
            return Outcome((), 1, "alone: %s" % m, "alone")
    at = sched.lines(a, pre)
    n, st = len(at), []
    for k in range(n) if n <= case["limit"] else ends(at):
        ra, rb = sched.interrupt(a, k, b, pre)
        if rb is None:      # fewer lines than the first time
            break
        st.append((repr(case["e"]), repr(case["p"]), case["a"], case["b"], k))
        for who, r, al in (("suspended", ra, alone[0]), ("inner", rb, alone[1])):
            if not close(snapshot(r), al):
                return Outcome(st, k, "%s of %s at the %d-th line of %s: the %s evaluation gives another result" % (
                    case["b"], fcheck.family(te), k, case["a"], who), "interrupt")
    return Outcome(st, 2 * n, observed=(fcheck.family(te), n))


def cross(case):
    te, f, pts, js, pre = setup(case)
    a, b = (lambda op=op, p=p: whole(f, op, [v.copy() for v in p]) for op, p in ((case["a"], pts[0]), (case["b"], pts[1])))
    alone = [snapshot(a()), snapshot(b())]
    n, m = sched.count(a, pre), sched.count(b, pre)
    if max(n, m) > case["limit"]:
        return Outcome((), 1, nontrivial=False)
    st = []
    for i in range(n):
        for j in range(m):
            ra, rb = sched.cross(a, i, b, j, pre)
            st.append((repr(case["e"]), repr(case["p"]), case["a"], case["b"], i, j))
            if not close(snapshot(ra), alone[0]) or not close(snapshot(rb), alone[1]):
                return Outcome(st, len(st), "%s stopped at line %d, %s at line %d of %s: another result" % (
                    case["a"], i, case["b"], j, fcheck.family(te)), "cross")
    return Outcome(st, 2 * len(st), observed=(fcheck.family(te), n, m))


def shared(case):
    """the expression and three functions built over the same objects, evaluated in turns"""
    te, f, pts, js, pre = setup(case)
    key = repr((case["e"], case["p"]))
    if js[0].nf == 0 and js[0].nd == 0:
        other = [["Aff", case["e"], 2.0, -1.0], ["Comp", ["Exp"], [["Aff", case["e"], 0.1, 0.0]]]]
    else:
        other = [["Aff", case["e"], 2.0, -1.0], ["Comp", ["Logistic"], [case["e"]]] if not js[0].nd else
                 ["Aff", ["Aff", case["e"], 0.5, 1.0], 1.0, 0.0]]
    es = [case["e"]] + other
    fs = exprs.share(es)
    if not any(e != fs[0] for e in fs[1:]):
        raise AssertionError("nothing is shared")
    refs = []
    for e in es:
        x = {"e": e, "p": case["p"]}
        r = [exprs.reference(x, v)[0] for v in pts]
        refs.append([jets.Jet(j.v, j.g, j.h, j.nd) for j in r])
    st, n = [], 0
    for x, pt in ((0, 0), (1, 1), (0, 1), (2, 0), (1, 0), (0, 0), (2, 1), (0, 0)):
        r = whole(fs[x], "eval", [v.copy() for v in pts[pt]])
        n += 1
        m = wrong(r, "eval", refs[x][pt], pts[pt])
        st.append((key, x, pt, n))
        if m:
            return Outcome(st, n, "function %d at point %d: %s" % (x, pt, m), "shared")
    return Outcome(st, n, observed=fcheck.family(te))


def estimator(case, pool, start, scale):
    """an estimator over the functions in pool, and its data"""
    m = likes.family(case["fam"])
    m = m() if case["opt"] is None else m(case["opt"])
    m.model = pool[0]
    for v, q in zip(problems.start(case, start), case["mask"]):
        q = np.asarray(q, dtype=bool).reshape(v.shape)
        m.add_param(v.copy() if v.ndim else float(v), q if q.any() else None)
    for (pm, _), h in zip(case["reg"], pool[1:]):
        m.add_regularization(list(pm), h)
    for (pm, _), h in zip(case["con"], pool[1 + len(case["reg"]):]):
        m.add_constraint(list(pm), h)
    n = int(np.prod(case["fs"], dtype=int)) if not case["ds"] else 3
    cells = [(3, 1, 4, 2)[(i * scale) % 4] for i in range(n)]
    return m, likes.fit_args(case, problems.data_of(case, cells))


def state(m):
    out = [np.array(p, dtype=float) for p in m.params]
    if m.converged:
        out += [np.array(x, dtype=float) for x in m.std_error()]
        out += [np.array([float(m.g(m.params)), float(m.bayesian_information_criterion())])]
        for x in (m.fisher_matrix(), m.error_matrix()):
            out += [np.array(c, dtype=float) for r in x for c in r]
    return out


def fits(case):
    from maxlike.maxlike_base import ConvergenceError
    sp = next(s for s in problems.all_specs() if (s["fam"], s["name"]) == FITS[case["i"]] and s["opt"] != 1)
    fns = [sp["e"]] + [h for _, h in sp["reg"]] + [h for _, h in sp["con"]]
    pre = sched.package_dir() + "maxlike"

    def fit(m, d, meth):
        try:
            m.fit(method=meth, max_steps=40, **d)
        except ConvergenceError:
            pass
        return state(m)

    def pair(pools):
        (a, da), (b, db) = (estimator(sp, pools[0], 0, 1), estimator(sp, pools[1], 1, 3))
        if case["q"] == "query":
            fit(b, db, "newton")
            return a, lambda: fit(a, da, case["meth"]), lambda: state(b)
        return a, lambda: fit(a, da, case["meth"]), lambda: fit(b, db, case["q"])
    _, fa, fb = pair([[exprs.make(e) for e in fns] for _ in range(2)])
    ra, rb = fa(), fb()
    _, fa, fb = pair([exprs.share(fns)] * 2)
    at = sched.lines(fa, pre)
    n, first = len(at), {}
    for k, x in enumerate(at):
        first.setdefault(x, k)
    ks = sorted(first.values()) if case["tier"] == "quick" else range(n)
    st = []
    for k in ks[case["c"]::FITCHUNKS[case["tier"]]]:
        pool = exprs.share(fns)
        m, fa, fb = pair([pool, pool])
        xa, xb = sched.interrupt(fa, k, fb, pre)
        if xb is None:
            break
        st.append((case["i"], case["q"], case["meth"], k))
        for who, x, r in (("suspended", xa, ra), ("inner", xb, rb)):
            if not close(x, r):
                return Outcome(st, k, "%s at the %d-th line of fit(%s): the %s estimator ends elsewhere" % (
                    case["q"], k, case["meth"], who), "fits")
    return Outcome(st, 2 * n, observed=(FITS[case["i"]], n, len(ra)))
