"""Well-posed estimation problems (identified, interior optimum) used by the checks of fit()."""
import itertools
import numpy as np
from . import likes, jets

S, X = likes.S, ["X"]


def lin(i, w=1.0, c=0.0):
    return [[i], ["Aff", ["Lin", [w]], 1, -c] if c else ["Lin", [w]]]


def problems():
    """dicts name, e, p, fs, ds, and the alternatives that make it identified:
    ident = list of (name, mask or None, reg, con)"""
    Q = lambda i, s=1.0, u=0.0: [[i], ["Quad", u, s]]
    H = (["Scalar"], [2], [], None, 1.0)
    none = [("free", None, [], [])]
    ab = [("con", None, [], [lin(0), lin(1)]), ("conoff", None, [], [lin(1, 2.0, 0.5), lin(0)]),
          ("mask", [[1, 0], [1, 0], [0]], [], []), ("mask2", [[0, 1], [0, 0], [1]], [], [lin(1, 1.0)]),
          ("reg", None, [Q(0, 2.0), Q(1, 0.7, 0.2)], []), ("regcon", None, [Q(1)], [lin(0)]),
          ("reg2", None, [[[1, 0], ["Quad", 0.1, 1.0]]], []),
          ("maskreg", [[1, 0], [0, 1], [0]], [Q(0, 0.6, 1.2), [[2, 0], ["Quad", 0.9, 1.0]]], [])]
    two = [(n, m[:2] if m else m, r, c) for n, m, r, c in ab if n not in ("mask2",)]
    out = [
        ("const", S(1, (["Scalar"], [0], [], None, 1.0)), [()], (2,), none + [("reg", None, [Q(0)], [])]),
        ("one", X, [(2,)], (2,), none + [("mask", [[0, 1]], [], []), ("reg", None, [Q(0)], []),
                                         ("con", None, [], [lin(0, 1.0, 0.4)]),
                                         ("maskreg", [[0, 1]], [Q(0, 0.5, 1.5)], []),
                                         ("regfar", None, [Q(0, 0.5, 1.5)], [])]),
        ("one1", S(2, (X, [0], [1], None, -1.0)), [(2,)], (2, 2), none),
        ("add", S(2, (X, [0], [0], None, 1.0), (X, [1], [1], None, 1.0), H), [(2,), (2,), ()], (2, 2), ab),
        ("pairhome", S(2, (X, [0], [0], None, 1.0), (X, [1], [1], None, -1.0), H), [(2,), (2,), ()], (2, 2), ab),
        ("pair", S(2, (X, [0], [0], None, 1.0), (X, [0], [1], None, -1.0)), [(2,)], (2, 2),
         [("con", None, [], [lin(0)]), ("mask", [[1, 0]], [], []), ("reg", None, [Q(0)], [])]),
        ("matrix", S(2, (X, [0], [1, 0], None, 1.0)), [(2, 2)], (2, 2),
         none + [("mask", [[0, 1, 0, 0]], [], []), ("con", None, [], [lin(0, 1.0, 1.0)])]),
        ("slope", S(1, (["Vec", [-.5, 0., .7]], [0], [0], None, 1.0), (["Scalar"], [1], [], None, 1.0)),
         [(), ()], (3,), none + [("mask", [[0], [1]], [], []), ("con", None, [], [[[0, 1], ["Lin", [1.0, 1.0]]]])]),
    ]
    res = []
    for name, e, p, fs, idents in out:
        for iname, mask, reg, con in idents:
            mask = mask or [[0] * int(np.prod(s, dtype=int)) for s in p]
            res.append({"name": name + "/" + iname, "e": e, "p": [list(s) for s in p], "fs": fs, "ds": (),
                        "mask": mask, "reg": reg, "con": con})
    return res


def frame_problems():
    E, L = ["Exp"], ["Logistic"]
    r1 = S(2, (X, [0], [0], None, 1.0), (X, [1], [1], None, -1.0))
    r2 = S(2, (X, [0], [1], None, 1.0), (X, [1], [0], None, -1.0))
    z2 = [[0, 0], [0, 0]]
    score = ["Prod", 2, 2, [[["Comp", ["Poisson", 2], [["Comp", E, [r1]]]], [0, 1], [0, 1], [0]],
                            [["Comp", ["Poisson", 3], [["Comp", E, [r2]]]], [0, 1], [0, 1], [1]]]]
    out = [
        ("pois", "Finite", ["Comp", ["Poisson", 3], [["Comp", E, [X]]]], [(2,)], (2,), (3,), [[0, 0]], [], []),
        ("poismask", "Finite", ["Comp", ["Poisson", 3], [["Comp", E, [X]]]], [(2,)], (2,), (3,), [[0, 1]], [], []),
        ("score", "Finite", score, [(2,), (2,)], (2, 2), (2, 3), z2, [], [lin(0)]),
        ("scorereg", "Finite", score, [(2,), (2,)], (2, 2), (2, 3), z2, [[[1], ["Quad", 0, 1.0]]], []),
        ("nb", "Finite", ["Comp", ["NB", 3, 2], [["Comp", E, [X]]]], [(2,)], (2,), (3,), [[0, 0]], [], []),
        ("nbmask", "Finite", ["Comp", ["NB", 3, 2], [["Comp", E, [X]]]], [(2,)], (2,), (3,), [[1, 0]], [], []),
        ("mm", "NormalizedFinite", ["Comp", ["MM", 2, 2, None], [["Comp", L, [X]], ["Comp", L, [X]]]],
         [(2,)], (2,), (2, 2), [[0, 0]], [], []),
    ]
    return [{"name": n, "fam": fam, "e": e, "p": [list(s) for s in p], "fs": fs, "ds": ds, "mask": mask,
             "reg": reg, "con": con, "opt": len(ds) if len(ds) > 1 else None}
            for n, fam, e, p, fs, ds, mask, reg, con in out]


REAL_FAMS = [("Poisson", None), ("Logistic", None), ("NegativeBinomial", 1), ("NegativeBinomial", 2.5),
             ("ZeroInflatedPoisson", 2.5), ("ZeroInflatedPoisson", 1)]


def all_specs():
    out = []
    for fam, opt in REAL_FAMS:
        for pr in problems():
            out.append(dict(pr, fam=fam, opt=opt))
    out += frame_problems()
    for fam in ("Gauss", "Square"):         # likelihoods written by the user
        for pr in problems():
            out.append(dict(pr, fam=fam, opt=None))
    return out


def special_specs():
    """problems whose constraints are not linear, hold at no point, or are tangent at the origin.
    `returns`: "yes" (must converge), "may" or "no" (there is no solution)"""
    se = lambda i, c: [[i], ["Aff", ["Coll", ["Exp"], True, True], 1, -c]]
    qu = lambda i, c: [[i], ["Aff", ["Quad", 0.1, 1.0], 1, -c]]
    pr = lambda i, j, c: [[i, j], ["Aff", ["Coll", ["Prod", 2, 0, [
        [["Coll", ["X"], True, True], [1], [], None], [["Coll", ["Exp"], True, True], [0], [], None]]],
        True, True], 1, -c]]
    H = (["Scalar"], [2], [], None, 1.0)
    out = []
    for name, w in (("add", 1.0), ("pairhome", -1.0)):
        m = (name, S(2, (X, [0], [0], None, 1.0), (X, [1], [1], None, w), H), [(2,), (2,), ()], (2, 2))
        out += [m + a for a in (
            ("expexp", [se(0, 2.0), se(1, 2.5)], "yes"), ("linexp", [lin(0), se(1, 3.0)], "yes"),
            ("prodexp", [se(0, 2.0), pr(0, 1, .4)], "yes"), ("prodlin", [pr(1, 0, -.3), lin(1, 2.0)], "yes"),
            ("quad", [lin(1), qu(0, .5)], "may"), ("tangent", [lin(0), lin(1), qu(0, .5)], "may"),
            ("inconsistent", [lin(0, 1.0), lin(0, 1.0, .5), lin(1)], "no"))]
    out += [("pair", S(2, (X, [0], [0], None, 1.0), (X, [0], [1], None, -1.0)), [(2,)], (2, 2)) + a for a in (
        ("exp", [se(0, 3.0)], "may"), ("inconsistent", [lin(0, 1.0), se(0, 0.1), lin(0, 2.0, 1.0)], "no"))]
    out += [("one", X, [(2,)], (2,)) + a for a in (
        ("exp", [se(0, 3.0)], "may"), ("quad", [qu(0, .5)], "may"),
        ("inconsistent", [lin(0, 1.0), lin(0, 1.0, .5)], "no"))]
    return [{"name": name + "/" + cn, "e": e, "p": [list(s) for s in p], "fs": fs, "ds": (), "reg": [], "con": con,
             "mask": [[0] * int(np.prod(s, dtype=int)) for s in p], "fam": fam, "opt": opt, "returns": ret}
            for fam, opt in REAL_FAMS[:3] + [("Gauss", None)] for name, e, p, fs, cn, con, ret in out]


def start(case, k):
    """k-th starting point; satisfies linear equality constraints only by chance (k = 0 is the origin); the last two
    are far from any optimum (exp overflows after one full step)"""
    c = (0.0, -0.3, 0.4, -1.0, 1.0, -7.0, 9.0)[k]
    vals = []
    for s in case["p"]:
        s = tuple(s)
        n = int(np.prod(s, dtype=int))
        vals.append((c * (-1.0) ** np.arange(n) if n > 1 else np.array([c])).reshape(s))
    return vals


def data_of(case, cells, nk=0):
    """data set with the given cell values; nk selects the pattern of observation numbers"""
    fs = tuple(case["fs"])
    if case["fam"] in ("Finite", "NormalizedFinite"):
        n = int(np.prod(fs + tuple(case["ds"])))
        v = np.array([cells[i % len(cells)] + (i * i) % 3 for i in range(n)], dtype=float)
        return {"N": v.reshape(fs + tuple(case["ds"]))}
    n = int(np.prod(fs, dtype=int))
    Xv = np.array(cells, dtype=float).reshape(fs)
    N = (6.0 + (nk * np.arange(n) * 5) % 7).reshape(fs)
    return {"N": N, "X": Xv, "Z": np.full(fs, 2.0)}


def residual(case, vals, data):
    """(largest entry of the projected gradient of the reference objective, largest constraint violation,
    largest eigenvalue of the projected Hessian)"""
    f, G, H = likes.kkt(case, vals, data)
    nc = len(case["con"])
    nf = len(G) - nc
    g, A, h = G[:nf], H[nf:, :nf], H[:nf, :nf]
    if nc:
        u, s, vt = np.linalg.svd(A)
        r = int((s > 1e-9).sum())
        Z = vt[r:].T
        g = Z @ (Z.T @ g)
        h = Z.T @ h @ Z
    return (np.abs(g).max() if g.size else 0.0, np.abs(G[nf:]).max() if nc else 0.0,
            np.linalg.eigvalsh(h).max() if h.size and np.isfinite(h).all() else -1.0, f)
