"""Expression language over the public function classes: builder for the code under test and the
enumeration of all expressions within the stated grammar.

An expression is a JSON list (see mc.jets.ev for its meaning).  A typed expression is
    {"e": expr, "p": [shape of every parameter]}
"""
import itertools
import numpy as np
from . import jets

F2, F3 = 2, 3


# ------------------------------------------------------------------------------------------------
# construction of the object of the code under test
# ------------------------------------------------------------------------------------------------

def value(x):
    """a constant of an expression: a number, or a list standing for an array"""
    return np.array(x) if isinstance(x, (list, tuple)) else x


def spell(e, *maps):
    """maps of one index may be given as numbers: in half of the expressions they are"""
    if len(repr(e)) % 2:
        return maps
    return [m[0] if m is not None and len(m) == 1 else m for m in maps]


_pool = None


def make(e):
    """the function object of an expression; within shared(), equal subexpressions are one object"""
    if _pool is None:
        return _make(e)
    k = repr(e)
    if k not in _pool:
        _pool[k] = _make(e)
    return _pool[k]


def shared(e):
    return share([e])[0]


def share(es):
    """function objects of several expressions, with every subexpression that occurs twice shared"""
    global _pool
    _pool = {}
    try:
        return [make(e) for e in es]
    finally:
        _pool = None


def _make(e):
    import maxlike.func as mf
    from maxlike.func import tennis
    k = e[0]
    simple = {"X": mf.X, "Exp": mf.Exp, "Log": mf.Log, "Scalar": mf.Scalar, "Logistic": mf.Logistic,
              "Game": tennis.Game, "TB": tennis.TieBreak, "Set": tennis.Set}
    if k in simple:
        return simple[k]()
    if k == "Twin":
        from .twins import twin
        return twin(e[1], e[2])
    if k == "ArcTan":
        from maxlike.func.sigmoid import ArcTan
        return ArcTan()
    if k == "SigAtan":
        from maxlike.func.sigmoid import Sigmoid
        return Sigmoid("arctan")
    if k == "Vec":
        return mf.Vector(e[1])
    if k == "Const":
        return mf.Constant(e[1])
    if k == "Quad":
        if not isinstance(e[2], list) and e[2] == 1:    # defaults, names
            return mf.Quadratic() if not isinstance(e[1], list) and e[1] == 0 else mf.Quadratic(u=value(e[1]))
        return mf.Quadratic(value(e[1]), value(e[2]))
    if k == "Lin":
        return mf.Linear([value(w) for w in e[1]])
    if k == "Poisson":
        return mf.Poisson(e[1]) if e[1] != 10 else mf.Poisson()
    if k in ("LNB", "NB"):      # defaults, names
        c = mf.LogNegativeBinomial if k == "LNB" else mf.NegativeBinomial
        return c() if e[1:] == [10, 1] else c(e[1]) if e[2] == 1 else c(r=e[2], size=e[1]) if e[1] == 4 else c(*e[1:])
    if k == "Aff":
        if not isinstance(e[3], list) and e[3] == 0:
            return mf.Affine(make(e[1]), *([value(e[2])] if isinstance(e[2], list) or e[2] != 1 else []))
        if not isinstance(e[2], list) and e[2] == 1:
            return mf.Affine(make(e[1]), b=value(e[3]))
        return mf.Affine(make(e[1]), value(e[2]), value(e[3]))
    if k == "op":
        f, o, a = make(e[1]), e[2], value(e[3])
        return {"+": lambda: f + a, "r+": lambda: a + f, "-": lambda: f - a, "r-": lambda: a - f,
                "*": lambda: f * a, "r*": lambda: a * f, "/": lambda: f / a, "neg": lambda: -f}[o]()
    if k == "Comp":
        g = [make(x) for x in e[2]]
        return make(e[1]) @ (g[0] if len(g) == 1 else g)
    if k == "Sum":
        s = mf.Sum(e[1], e[2])
        for f, pm, fm, dm, w in e[3]:
            s.add(make(f), *spell(e, pm, fm, dm), weight=w)
        return s
    if k == "Prod":
        s = mf.Product(e[1], e[2])
        for f, pm, fm, dm in e[3]:
            s.add(make(f), *spell(e, pm, fm, dm))
        return s
    if k == "Coll":
        return mf.Collapse(make(e[1]), e[2], e[3])
    if k == "Wrap":
        f, pm, fm, nf, dm, nd, fl = e[1:]
        return mf.FuncWrap(make(f), pm, fm, nf, dm, nd, fl)
    if k == "MV":
        return mf.MarkovVector(e[1], e[2], None if e[3] is None else np.array(e[3]))
    if k == "MM":
        return mf.MarkovMatrix(e[1], e[2], None if e[3] is None else np.array(e[3]))
    if k == "CM":
        c = e[1]
        return mf.CollapseMatrix(None if c is None else [tuple(x) for x in c])
    raise ValueError(e)


POSITIVE = ("Log", "LNB", "NB", "MV", "MM", "Game", "TB", "Set")


def contains(e, names):
    if isinstance(e, (list, tuple)):
        return any(contains(x, names) for x in e)
    return isinstance(e, str) and e in names


def valuation(shapes, positive, salt=0):
    out = []
    for i, s in enumerate(shapes):
        n = int(np.prod(s, dtype=int))
        k = np.arange(n)
        u = ((k + 1) * 379 + (i + 1) * 613 + (k * k + 2) * (i * 17 + 23 + salt)) % 997 / 997.0
        v = 0.25 + 0.5 * u
        if not positive:
            v = np.where((k * 3 + i) % 2 == 1, -v, v + 0.3)
        out.append(v.reshape(s))
    return out


RG = ("int", "zero", "tiny", "large", "one")


def regime(shape, r, salt):
    """parameter values that are not in general position"""
    k = np.arange(int(np.prod(shape, dtype=int))).reshape(shape)
    if r == "int":
        return (k * 2 + salt) % 4 + 1           # integers, of integer type
    if r == "zero":
        return (k + salt) % 2 * 1.5             # every other one is null
    if r == "tiny":
        return ((k * 3 + salt) % 5 + 1) * 3e-9
    if r == "large":
        return ((k * 3 + salt) % 5 - 2) * 11.5
    if r == "one":
        return np.where((k + salt) % 2, 1.0, -1.0)
    raise ValueError(r)


def params_of(te, salt=0):
    if te.get("rg"):
        return [regime(tuple(s), te["rg"], i + salt) for i, s in enumerate(te["p"])]
    return valuation([tuple(s) for s in te["p"]], contains(te["e"], POSITIVE), salt)


# ------------------------------------------------------------------------------------------------
# enumeration
# ------------------------------------------------------------------------------------------------

V2, V3 = [0.7, -1.3], [0.4, 1.1, -0.6]
C2, C22, C23 = [0.6, 1.7], [[0.5, 1.2], [-0.8, 0.9]], [[0.5, 1.2, 0.3], [-0.8, 0.9, 2.1]]


def leaves():
    """(expr, parameter shapes, feature sizes, dim sizes)"""
    out = []
    for s in [(), (2,), (2, 3)]:
        for k in ("X", "Exp", "Log", "Logistic", "ArcTan", "SigAtan"):
            out.append(([k], [s], s, ()))
        out.append((["Poisson", 3], [s], s, (3,)))
        out.append((["LNB", 3, 1.5], [s], s, (3,)))
        out.append((["NB", 3, 2], [s], s, (3,)))
        out.append((["Quad", 0.3, 1.4], [s], (), ()))
        out.append((["Lin", [0.7]], [s], (), ()))
    for s in [(), (2,)]:
        out.append((["Poisson", 10], [s], s, (10,)))
        for r in ([3, 1], [10, 1], [4, 2.5]):
            out.append((["LNB"] + r, [s], s, (r[0],)))
            out.append((["NB"] + r, [s], s, (r[0],)))
    out.append((["Scalar"], [()], (), ()))
    out.append((["Vec", V2], [()], (2,), ()))
    out.append((["Vec", V3], [()], (3,), ()))
    out.append((["Quad", 0, 1], [(2,), (3,)], (), ()))
    out.append((["Quad", 0.5, 2], [(2,), ()], (), ()))
    out.append((["Quad", 0.5, 1], [(2,), ()], (), ()))
    out.append((["Lin", [1.5, -0.5]], [(2,), (3,)], (), ()))
    out.append((["Lin", [1, 2]], [(2, 2), ()], (), ()))
    out.append((["Const", C2], [], (2,), ()))
    out.append((["Const", 0.8], [], (), ()))
    for s in [(), (2,), (2, 2)]:
        out.append((["MV", 2, 2, None], [s, s], s, (3,)))
        out.append((["MM", 2, 2, None], [s, s], s, (2, 2)))
        out.append((["MV", 3, 3, [1, .9, 1.1, .8, 1.2]], [s, s], s, (5,)))
        out.append((["MM", 3, 3, [[1, .9, 1.1], [.8, 1.2, .7], [.95, 1.05, .85]]], [s, s], s, (3, 3)))
    for s in [(2, 3), (3, 3), (2, 3, 3), (2, 3, 2, 3)]:
        out.append((["CM", None], [s], s[:-2], (3,)))
        out.append((["CM", [[1, 1, -2, 0], [2, -1, 0, 1]]], [s], s[:-2], (2,)))
    for s in [(), (2,)]:
        out.append((["Game"], [s], s, (4,)))
        out.append((["TB"], [s], s, (7,)))
        out.append((["Set"], [s, s], s, (7,)))
    return out


def typed(e, p):
    return {"e": e, "p": [list(s) for s in p]}


OPS = [("+", 0.7), ("r+", -0.4), ("-", 0.3), ("r-", 1.5), ("*", -2.0), ("r*", 3), ("/", 4), ("neg", None),
       ("*", 1), ("+", 0)]


def fam_leaves(tier):
    for e, p, f, d in leaves():
        yield typed(e, p)
        for a, b in ((2.0, 0), (1, -0.5), (-1.5, 0.25), (1, 0)):
            yield typed(["Aff", e, a, b], p)
            yield typed(["Aff", ["Aff", e, -0.5, 1.5], a, b], p)
        for o, a in OPS:
            yield typed(["op", e, o, a], p)
            yield typed(["op", ["op", e, "r-", 0.5], o, a], p)


def fam_wrap(tier):
    """every feature/dimension embedding, parameter selection and flip of every leaf"""
    for e, p, f, d in leaves():
        if e[0] in ("Lin", "Quad"):
            f = ()
        nf, nd = len(f), len(d)
        if nf > 2 or e[0] == "CM" and nf:
            continue
        n = len(p)
        for nfeat in range(nf, nf + 2):
            for fm in itertools.permutations(range(nfeat), nf):
                for ndim in range(nd, nd + 2):
                    for dm in itertools.permutations(range(ndim), nd):
                        pms = [(list(pm), n) for pm in itertools.permutations(range(n))]
                        if nfeat == nf and ndim == nd:
                            # parameter selections: subsets of a longer list, any order, repetitions
                            pms += [(list(pm), n + 1) for pm in itertools.product(range(n + 1), repeat=n)]
                        for pm, tot in pms:
                            shapes = [None] * tot
                            okk = True
                            for i, q in zip(pm, p):
                                if shapes[i] not in (None, tuple(q)):
                                    okk = False
                                shapes[i] = tuple(q)
                            if not okk:
                                continue
                            shapes = [(2,) if s is None else s for s in shapes]
                            yield typed(["Wrap", e, pm, list(fm), nfeat, list(dm), ndim, None], shapes)
        yield typed(["Wrap", e, list(range(n)), list(range(nf)), nf, None, nd, []], p)
    # flips where no parameter axis is tied to the flipped feature
    for fl in ([], [0], 0):
        yield typed(["Wrap", ["Vec", V2], [0], [0], 1, [], 0, fl if fl != 0 else [0]], [()])
    for fl in ([0], [1], [0, 1], [1, 0]):
        yield typed(["Wrap", ["Vec", V2], [1], [1], 2, [], 0, fl], [(2,), ()])
        yield typed(["Wrap", ["Const", C23], [], [1, 0], 2, [], 0, fl], [(2,)])
    yield typed(["Wrap", ["X"], [0], [1], 2, [], 0, [0]], [(2,)])


def atoms(sizes):
    """atoms placed in a feature space of the given sizes: (expr, param shapes, feat_map)"""
    out = []
    n = len(sizes)
    out += [(["Scalar"], [()], []), (["Exp"], [()], []), (["Const", 0.8], [], [])]
    out.append((["Quad", 0.3, 1.4], [(2,)], []))
    for k in range(n):
        s = sizes[k]
        V = V2 if s == 2 else V3
        out.append((["Vec", V], [()], [k]))
        out.append((["X"], [(s,)], [k]))
        out.append((["Exp"], [(s,)], [k]))
        out.append((["Aff", ["X"], -1, 0], [(s,)], [k]))
        out.append((["Aff", ["Logistic"], 2, 0.5], [(s,)], [k]))
        out.append((["Const", (C2 if s == 2 else V3)], [], [k]))
        out.append((["Coll", ["Exp"], [1], True], [(s, 2)], [k]))
    for i, j in itertools.permutations(range(n), 2):
        s = (sizes[i], sizes[j])
        out.append((["X"], [s], [i, j]))
        out.append((["Exp"], [s], [i, j]))
    return out


def assignments(ps, qs):
    """parameter lists for two atoms: disjoint, swapped, shared"""
    n, m = len(ps), len(qs)
    yield list(range(n)), list(range(n, n + m)), ps + qs
    if n and m:
        yield list(range(m, n + m)), list(range(m)), qs + ps
    if n and ps == qs:
        yield list(range(n)), list(range(n)), ps


def pairs(sizes, alist, w=(1.0, -2.0), ops=("Sum", "Prod")):
    n = len(sizes)
    for a, b in itertools.combinations_with_replacement(alist, 2):
        for pa, pb, sh in assignments(a[1], b[1]):
            if not sh:
                continue
            if "Sum" in ops:
                yield ["Sum", n, 0, [[a[0], pa, a[2], None, w[0]], [b[0], pb, b[2], None, w[1]]]], sh
            if "Prod" in ops:
                yield ["Prod", n, 0, [[a[0], pa, a[2], None], [b[0], pb, b[2], None]]], sh


def fam_pairs(tier):
    for sizes in [(2,), (2, 2), (2, 3)] + ([(3, 2), (2, 2, 2), (2, 3, 2)] if tier == "thorough" else []):
        for e, sh in pairs(sizes, atoms(sizes)):
            yield typed(e, sh)
            if tier == "thorough":
                yield typed(["Comp", ["Exp"], [e]], sh)
                yield typed(["Coll", e, [0], True], sh)
                yield typed(["Coll", e, True, False], sh)
                yield typed(["Aff", e, -0.5, 2.0], sh)


def fam_triples(tier):
    sizes = (2, 2)
    A = atoms(sizes) if tier == "thorough" else [(["X"], [(2,)], [0]), (["X"], [(2,)], [1]), (["Exp"], [(2, 2)], [1, 0]), (["Scalar"], [()], []),
         (["Vec", V2], [()], [1])]
    for a, b, c in itertools.product(A, repeat=3):
        # parameters: all distinct; first and last shared when possible
        n, m, l = len(a[1]), len(b[1]), len(c[1])
        opts = [(list(range(n)), list(range(n, n + m)), list(range(n + m, n + m + l)), a[1] + b[1] + c[1]),
                (list(range(m + l, n + m + l)), list(range(m)), list(range(m, m + l)), b[1] + c[1] + a[1])]
        if n + m + l == 0:
            continue
        if n and m and a[1] == c[1]:
            opts.append(([0], [1], [0], a[1] + b[1]))
        if n and a[1] == b[1] == c[1]:
            opts.append(([0], [0], [0], a[1]))
        for pa, pb, pc, sh in opts:
            yield typed(["Sum", 2, 0, [[a[0], pa, a[2], None, 1.0], [b[0], pb, b[2], None, -2.0],
                                       [c[0], pc, c[2], None, 0.5]]], sh)
            yield typed(["Prod", 2, 0, [[a[0], pa, a[2], None], [b[0], pb, b[2], None],
                                        [c[0], pc, c[2], None]]], sh)


def core(sizes=(2, 2)):
    """a small set of two-atom expressions over two features, used as inner functions"""
    A = [(["X"], [(2,)], [0]), (["X"], [(2,)], [1]), (["Exp"], [(2,)], [1]), (["Exp"], [(2, 2)], [0, 1]),
         (["X"], [(2, 2)], [1, 0]), (["Scalar"], [()], []), (["Vec", V2], [()], [0])]
    return list(pairs(sizes, A))


def fam_compose(tier):
    outer = [["Exp"], ["Logistic"], ["ArcTan"], ["Poisson", 3], ["X"], ["Aff", ["Exp"], -2.0, 0.5],
             ["Comp", ["Logistic"], [["Exp"]]], ["Quad", 0.3, 1.5], ["Lin", [0.7]],
             ["Coll", ["Exp"], True, True], ["Coll", ["Exp"], [0], True], ["Coll", ["Exp"], 1, False],
             ["Coll", ["Poisson", 3], False, True], ["Coll", ["X"], True, True],
             ["Wrap", ["Exp"], [0], [1, 0], 2, [], 0, None],
             ["Sum", 2, 0, [[["Exp"], [0], [0, 1], None, 1.5], [["X"], [0], [1, 0], None, -0.5]]],
             ["Prod", 3, 0, [[["Exp"], [0], [2, 1], None], [["Logistic"], [0], [0, 1], None]]]]
    for e, sh in core():
        for o in outer:
            yield typed(["Comp", o, [e]], sh)
    # Log of something positive
    for sizes in [(2, 2)]:
        A = [(["Exp"], [(2,)], [0]), (["Exp"], [(2, 2)], [1, 0]), (["Logistic"], [(2,)], [1]), (["Exp"], [()], [])]
        for e, sh in pairs(sizes, A, w=(1.0, 0.5)):
            yield typed(["Comp", ["Log"], [e]], sh)
            yield typed(["Comp", ["LNB", 3, 1.5], [e]], sh)
            yield typed(["Comp", ["Aff", ["Log"], 2.0, -1], [e]], sh)
    # one parameter entering directly
    for s in [(), (2,), (2, 3)]:
        for f in (["Exp"], ["Logistic"], ["Aff", ["X"], 2.0, 1.0], ["ArcTan"]):
            for g in (["Exp"], ["X"], ["Aff", ["Exp"], 0.5, 0.1], ["SigAtan"]):
                yield typed(["Comp", f, [g]], [s])
                yield typed(["Comp", ["Comp", ["Exp"], [f]], [g]], [s])
                yield typed(["Comp", ["Poisson", 3], [["Comp", f, [g]]]], [s])
                if s:
                    for sv in [True, [0], 0]:
                        yield typed(["Comp", f, [["Coll", g, sv, True]]], [s])
                        yield typed(["Comp", ["Coll", f, sv, True], [g]], [s])
    # functions of the extra dimensions
    for s in [(), (2,)]:
        for f in (["Exp"], ["X"], ["Logistic"], ["ArcTan"], ["Aff", ["Exp"], 2.0, 1.0], ["Log"], ["SigAtan"]):
            for g in (["Poisson", 3], ["Poisson", 2]):
                yield typed(["Comp", f, [g]], [s])
                yield typed(["Coll", ["Comp", f, [g]], False, True], [s])
                yield typed(["Coll", ["Comp", f, [g]], True, False], [s])


def _shape(e, shapes):
    args, P = jets.params_jets([np.full(s, 0.5) for s in shapes])
    return jets.ev(e, args, P).v.shape


def fam_compose2(tier):
    """outer functions of two arguments"""
    outer = [["Sum", 2, 0, [[["Exp"], [0], [0, 1], None, 1.0], [["X"], [1], [0, 1], None, -2.0]]],
             ["Sum", 2, 0, [[["X"], [1], [1, 0], None, 1.0], [["Logistic"], [0], [0, 1], None, -2.0]]],
             ["Prod", 2, 0, [[["Exp"], [0], [0, 1], None], [["X"], [1], [1, 0], None]]],
             ["Prod", 2, 1, [[["Poisson", 2], [1], [0, 1], [0]], [["X"], [0], [0, 1], None]]]]
    C = core()
    small = [c for c in C if c[1] in ([(2,)], [(2,), (2,)], [(2, 2), (2,)], [(), (2,)])]
    small = small[:: (2 if tier == "quick" else 1)]
    for o in outer:
        for (e1, s1), (e2, s2) in itertools.product(small, small):
            if s1 != s2:
                continue
            yield typed(["Comp", o, [e1, e2]], s1)
    # probabilities into score processes
    A = [(["Logistic"], [(2,)], [0]), (["Logistic"], [(2,)], [1]), (["Logistic"], [(2, 2)], [1, 0])]
    P = list(pairs((2, 2), A, w=(0.4, 0.5)))
    for (e1, s1), (e2, s2) in itertools.product(P, P):
        # the score processes require the two rates to have one shape
        if s1 == s2 and _shape(e1, s1) == _shape(e2, s2):
            yield typed(["Comp", ["MV", 2, 2, None], [e1, e2]], s1)
            yield typed(["Comp", ["MM", 2, 2, None], [e1, e2]], s1)
            yield typed(["Comp", ["CM", None], [["Comp", ["MM", 2, 2, None], [e1, e2]]]], s1)
    for s in [(), (2,)]:
        yield typed(["Comp", ["Set"], [["Coll", ["Comp", ["Game"], [["Logistic"]]], False, True],
                                       ["Coll", ["Comp", ["TB"], [["Logistic"]]], False, True]]], [s])
        yield typed(["Comp", ["Game"], [["Logistic"]]], [s])
        yield typed(["Comp", ["TB"], [["Logistic"]]], [s])


def fam_nested(tier):
    """sums and products of sums, products, collapses, compositions and functions with extra dimensions"""
    S1 = ["Sum", 1, 0, [[["X"], [0], [0], None, 1.0], [["Aff", ["Exp"], 2.0, 0.5], [1], [0], None, -1.5]]]
    S1b = ["Sum", 1, 0, [[["X"], [1], [0], None, 2.0], [["Scalar"], [0], [], None, 1.0]]]
    P1 = ["Prod", 1, 0, [[["X"], [0], [0], None], [["Exp"], [1], [0], None]]]
    S2 = ["Sum", 2, 0, [[["X"], [0], [0], None, 1.0], [["X"], [1], [1], None, -1.0]]]
    P2 = ["Prod", 2, 0, [[["X"], [1], [0], None], [["Exp"], [0], [1], None]]]
    K = ["Coll", ["Exp"], [0], True]
    for inner, nf, p in [(S1, 1, [(2,), (2,)]), (P1, 1, [(2,), (2,)]), (S2, 2, [(2,), (2,)]),
                         (P2, 2, [(2,), (2,)]), (S1b, 1, [(), (2,)]), (["Comp", ["Exp"], [S2]], 2, [(2,), (2,)]),
                         (["Comp", ["Logistic"], [P1]], 1, [(2,), (2,)]),
                         (["Coll", S2, [1], True], 1, [(2,), (2,)]), (["Coll", P2, 0, True], 1, [(2,), (2,)]),
                         (["Coll", S1, True, True], 0, [(2,), (2,)]),
                         (["Coll", S1b, True, True], 0, [(), (2,)]),
                         (["Aff", S2, -2.0, 0.5], 2, [(2,), (2,)]), (["Aff", P1, 2.0, 1.0], 1, [(2,), (2,)])]:
        yield typed(inner, p)
        for o, a in OPS:
            yield typed(["op", inner, o, a], p)
        for nfeat in (2, 3):
            if nf > nfeat:
                continue
            for fm in itertools.permutations(range(nfeat), nf):
                for pm in itertools.permutations(range(3), 2):
                    shapes = [None] * 3
                    for i, s in zip(pm, p):
                        shapes[i] = s
                    free = shapes.index(None)
                    shapes[free] = (2,)
                    for w in (1.0, -0.5):
                        yield typed(["Sum", nfeat, 0, [[inner, list(pm), list(fm), None, w],
                                                       [["X"], [free], [0], None, 1.0]]], shapes)
                    yield typed(["Prod", nfeat, 0, [[inner, list(pm), list(fm), None],
                                                    [["Exp"], [free], [nfeat - 1], None]]], shapes)
                    yield typed(["Comp", ["Exp"], [["Sum", nfeat, 0, [[inner, list(pm), list(fm), None, 0.5],
                                                                      [["X"], [free], [1], None, 1.0]]]]], shapes)
                if p[0] == p[1]:
                    yield typed(["Sum", nfeat, 0, [[inner, [0, 0], list(fm), None, 1.5]]], [p[0]])
                    yield typed(["Sum", nfeat, 0, [[inner, [1, 0], list(fm), None, 1.5],
                                                   [inner, [0, 1], list(fm), None, 0.5]]], p)
    # nested sums and products of one term each, the maps as lists or numbers (see spell)
    for k1, k2 in itertools.product(("Sum", "Prod"), repeat=2):
        for leaf, sh in ((["X"], (2,)), (["Exp"], (2,)), (["Aff", ["X"], 10, 0], (2,)), (["Vec", V2], ())):
            for pm, fm in itertools.product((0, 1), repeat=2):
                w1, w2 = [[2.0]] if k1 == "Sum" else [[]], [[-1.5]] if k2 == "Sum" else [[]]
                e = [k1, 1, 0, [[leaf, [0], [0], None] + w1[0]]]
                e = [k2, 2, 0, [[e, [pm], [fm], None] + w2[0], [["Exp"], [1 - pm], [1 - fm], None] + w2[0]]]
                p = [sh, (2,)] if pm == 0 else [(2,), sh]
                yield typed(e, p)
                yield typed([k1, 3, 0, [[e, [1, 0], [2, 0], None] + w1[0]]], p[::-1])
    # sums and products with extra dimensions as terms and factors of one another
    for k1, k2 in itertools.product(("Sum", "Prod"), repeat=2):
        w1, w2 = [[2.0]] if k1 == "Sum" else [[]], [[-1.5]] if k2 == "Sum" else [[]]
        one = [k1, 1, 1, [[["Poisson", 2], [0], [0], [0]] + w1[0], [["X"], [1], [0], None] + w1[0]]]
        two = [k1, 1, 2, [[["Poisson", 2], [0], [0], [0]] + w1[0], [["Poisson", 3], [1], [0], [1]] + w1[0]]]
        for f in (0, 1):
            for pm in ([0, 1], [1, 0], [0, 0]):
                p = [(2,)] * (1 + (pm != [0, 0]))
                for d in (0, 1):
                    yield typed([k2, 2, 2, [[one, pm, [f], [d]] + w2[0],
                                            [["Poisson", 3], [0], [1 - f], [1 - d]] + w2[0]]], p)
                for dm in itertools.permutations(range(3), 2):
                    if (dm[0] > dm[1]) != (f == 1):
                        continue
                    free = 3 - sum(dm)
                    yield typed([k2, 2, 3, [[two, pm, [f], list(dm)] + w2[0],
                                            [["Poisson", 2], [0], [1 - f], [free]] + w2[0]]], p)
    # extra dimensions
    for a, b in itertools.product([["Poisson", 2], ["Poisson", 3], ["Comp", ["Poisson", 2], [["Exp"]]]], repeat=2):
        for kind in ("Sum", "Prod"):
            for dm1, dm2 in (([0], [1]), ([1], [0])):
                for f1, f2 in (([0], [0]), ([0], [1]), ([1], [0])):
                    for pm in (([0], [1]), ([1], [0]), ([0], [0])):
                        sh = [(2,), (2,)] if pm[0] != pm[1] else [(2,)]
                        at1, at2 = [a, pm[0], f1, dm1], [b, pm[1], f2, dm2]
                        if kind == "Sum":
                            at1.append(1.0), at2.append(-0.5)
                        e = [kind, 2, 2, [at1, at2]]
                        yield typed(e, sh)
                        if tier == "thorough" or f1 == [0]:
                            yield typed(["Coll", e, False, True], sh)
                            yield typed(["Coll", e, [0], False], sh)
                            yield typed(["Comp", ["CM", None], [e]], sh)
    for kind in ("Sum", "Prod"):
        for dm in ([0], [1]):
            at1, at2 = [["Poisson", 3], [0], [0], dm], [["X"], [1], [1], None]
            if kind == "Sum":
                at1.append(1.0), at2.append(2.0)
            yield typed([kind, 2, 2, [at1, at2]], [(2,), (2,)])
            yield typed(["Comp", ["Exp"], [[kind, 2, 2, [at1, at2]]]], [(2,), (2,)])
    # classic score model: product of two Poisson frames of log-linear rates
    for home in (True, False):
        r1 = ["Sum", 2, 0, [[["X"], [0], [0], None, 1.0], [["Aff", ["X"], -1, 0], [1], [1], None, 1.0]]
              + ([[["Scalar"], [2], [], None, 1.0]] if home else [])]
        r2 = ["Sum", 2, 0, [[["X"], [0], [1], None, 1.0], [["Aff", ["X"], -1, 0], [1], [0], None, 1.0]]]
        sh = [(2,), (2,)] + ([()] if home else [])
        n = list(range(len(sh)))
        frame = ["Prod", 2, 2, [[["Comp", ["Poisson", 2], [["Comp", ["Exp"], [r1]]]], n, [0, 1], [0]],
                                [["Comp", ["Poisson", 3], [["Comp", ["Exp"], [r2]]]], n, [0, 1], [1]]]]
        yield typed(frame, sh)
        yield typed(["Comp", ["CM", None], [frame]], sh)
        yield typed(["Comp", ["MM", 2, 2, None], [["Comp", ["Logistic"], [r1]], ["Comp", ["Logistic"], [r2]]]], sh)
        yield typed(["Comp", ["MV", 3, 2, None], [["Comp", ["Logistic"], [r1]], ["Comp", ["Logistic"], [r2]]]], sh)


def fam_arrays(tier):
    """constants that are arrays over the features of the function they are applied to"""
    A = {(2,): V2, (3,): V3, (2, 2): C22, (2, 3): C23}
    B = {(2,): C2, (3,): [1.3, -.2, .8], (2, 2): [[-.4, 1.5], [.9, .2]], (2, 3): [[.1, -.7, 1.4], [.8, .6, -1.]]}
    base = [(["X"], [s], s) for s in A] + [(["Exp"], [s], s) for s in A] + \
           [(["Logistic"], [(2, 2)], (2, 2)), (["Vec", V3], [()], (3,)), (["Const", C2], [], (2,)),
            (["Poisson", 3], [(2,)], (2,)), (["Poisson", 2], [(2, 2)], (2, 2)),
            (["Sum", 2, 0, [[["X"], [0], [0], None, 1.0], [["Exp"], [1], [1], None, -2.0]]], [(2,), (3,)], (2, 3)),
            (["Prod", 2, 0, [[["X"], [1], [0], None], [["Exp"], [0], [1], None]]], [(2,), (2,)], (2, 2)),
            (["Comp", ["Exp"], [["X"]]], [(2, 3)], (2, 3)),
            (["MM", 2, 2, None], [(2,), (2,)], (2,))]
    made = []
    for e, p, f in base:
        for s in (f,):
            for o in ("+", "r+", "-", "r-", "*", "r*", "/"):
                made.append((["op", e, o, A[s]], p, f))
            made.append((["Aff", e, A[s], B[f]], p, f))
            made.append((["op", ["op", e, "*", B[f]], "r-", A[s]], p, f))
            made.append((["op", ["op", e, "r-", 1.5], "*", A[s]], p, f))
            made.append((["op", ["op", e, "+", A[s]], "*", -2.0], p, f))
            made.append((["op", ["op", e, "/", A[s]], "neg", None], p, f))
    for e, p, f in made:
        if p:
            yield typed(e, p)
    pick = [m for m in made if m[0][0] == "Aff" or m[0][2] in ("+", "*", "neg") or m[0][1][0] == "op"]
    for e, p, f in pick:
        if not p:
            yield typed(["Sum", len(f), 0, [[e, [], list(range(len(f))), None, 1.5], [["X"], [0], [0], None, 1.0]]],
                        [f[:1]])
            continue
        nd = 1 if "Poisson" in repr(e) else 2 if "MM" in repr(e) else 0
        dm = list(range(nd)) if nd else None
        for nf in range(len(f), 3 + (len(f) > 1 and tier == "thorough")):
            for fm in itertools.permutations(range(nf), len(f)):
                n = list(range(len(p)))
                free = [k for k in range(nf) if k not in fm]
                other = [["X"], [len(p)], [free[0] if free else fm[0]], None]
                sh = p + [(3,) if free else f[:1]]
                yield typed(["Sum", nf, nd, [[e, n, list(fm), dm, 1.0], other + [2.0]]], sh)
                yield typed(["Sum", nf, nd, [other + [1.0], [e, n, list(fm), dm, -0.5]]], sh)
                yield typed(["Prod", nf, nd, [[e, n, list(fm), dm], other]], sh)
                yield typed(["Wrap", e, n, list(fm), nf, dm, nd, None], p)
                inner = ["Sum", len(f), nd, [[e, n, list(range(len(f))), dm, 2.0]]]
                yield typed(["Sum", nf, nd, [[inner, n, list(fm), dm, -1.5], other + [1.0]]], sh)
                if not nd:
                    yield typed(["Comp", ["Exp"], [["Sum", nf, 0, [[e, n, list(fm), None, .5], other + [1.0]]]]], sh)
        if not nd:
            yield typed(["Comp", ["Exp"], [e]], p)
            yield typed(["Comp", ["op", ["Logistic"], "*", B[f]], [e]], p)
            yield typed(["Coll", e, [0], True], p)
        yield typed(["Coll", e, True, True], p)
    # scalar functions with array weights
    for s in A:
        for u, w in ((A[s], 1.4), (.3, B[s]), (A[s], B[s]), (0, A[s])):
            yield typed(["Quad", u, w], [s])
            yield typed(["op", ["Quad", u, w], "*", -2.0], [s])
        yield typed(["Quad", A[s], 2], [s, s])
        yield typed(["Lin", [A[s]]], [s])
        yield typed(["Lin", [A[s], 0.5]], [s, (2,)])
        yield typed(["Lin", [0.5, A[s]]], [(), s])
        yield typed(["Lin", [A[s], B[s]]], [s, s])
        yield typed(["Comp", ["Lin", [A[s]]], [["Exp"]]], [s])
        yield typed(["Comp", ["Quad", A[s], B[s]], [["op", ["Exp"], "*", A[s]]]], [s])


def fam_regimes(tier):
    """parameters and constants of special values or unusual magnitudes"""
    for e, p, f, d in leaves():
        if e[0] in ("MV", "MM", "Game", "TB", "Set"):
            rs = ("tiny",)
        elif e[0] in ("Log", "LNB", "NB"):
            rs = ("int", "tiny") if e[0] != "NB" else ("int",)    # cancellations of 1 / m ** 2
        else:
            rs = RG
        if not p or e[0] in ("Poisson", "NB") and e[1] > 4:
            continue
        n = list(range(len(p)))
        if e[0] in ("Quad", "Lin"):
            f = ()
        fm, dm = list(range(len(f))), list(range(len(d))) or None
        for r in rs:
            made = [e, ["Aff", e, -1.5, .25], ["op", ["op", e, "r-", 0.5], "/", 3], ["Aff", e, 0, 2.5]]
            made += [["Sum", len(f), len(d), [[e, n, fm, dm, w]]] for w in (1.0, 2, 1e-9, 0, 1e9)]
            made += [["Sum", len(f), len(d), [[e, n, fm, dm, 1.0], [e, n, fm, dm, w]]] for w in (1e-7, 0, 1e7)]
            made += [["Aff", e, 1e-9, 0], ["Aff", e, 1, 1e-9], ["op", ["Aff", e, 1e7, 1e-7], "*", 1e-9]]
            if e[0] not in ("Const",):
                made.append(["Prod", len(f), len(d), [[e, n, fm, dm], [e, n, fm, dm]]])
                made.append(["Prod", len(f), len(d), [[e, n, fm, dm], [["Const", 1e-9], [], [], None]]])
            if r in ("tiny", "zero", "one") and not d and e[0] != "Log":
                made += [["Comp", ["Exp"], [e]], ["Comp", ["Logistic"], [["Aff", e, 2, -.3]]], ["Comp", ["Quad", 0, 1], [e]]]
            for x in made:
                yield dict(typed(x, p), rg=r)
    for sizes in [(2,), (2, 3)]:
        for w in ((1.0, 1e-8), (1e8, 1e-8), (0, 1)):
            for k, (e, sh) in enumerate(pairs(sizes, atoms(sizes), w=w)):
                rs = RG[:3] + RG[4:] if len(sizes) == 1 else (RG[:3] + RG[4:])[k % 4:k % 4 + 1]
                for r in rs:
                    yield dict(typed(e, sh), rg=r)


FAMILIES = {"regimes": fam_regimes, "arrays": fam_arrays, "leaves": fam_leaves, "wrap": fam_wrap, "pairs": fam_pairs, "triples": fam_triples,
            "compose": fam_compose, "compose2": fam_compose2, "nested": fam_nested}
CHUNKS = 16


def groups(tier):
    return [{"fam": f, "c": c, "tier": tier} for f in FAMILIES for c in range(CHUNKS)]


def expand(g):
    for te in itertools.islice(FAMILIES[g["fam"]](g["tier"]), g["c"], None, CHUNKS):
        te["t"] = g["tier"]
        yield te


_cache = {}


def reference(te, vals):
    key = repr((te["e"], [v.tolist() for v in vals]))
    if key not in _cache:
        if len(_cache) > 64:
            _cache.clear()
        args, P = jets.params_jets(vals)
        _cache[key] = jets.ev(te["e"], args, P), P
    return _cache[key]


def slices(vals):
    out, k = [], 0
    for v in vals:
        out.append(slice(k, k + v.size))
        k += v.size
    return out
