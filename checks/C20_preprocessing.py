"""C20: the preprocessing helpers aggregate every observation into its cell, and nothing else."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Outcome

PROPERTY = "C20"
RULE = ("The observations are fed one by one to a reference aggregation (a dictionary of cells); every sequence of "
        "observations up to the length bound is laid out as a Series / DataFrame and the arrays and axes returned by "
        "prepare_series, prepare_dataframe and df_count are compared, cell by cell, with the reference state.")
ASSUMPTIONS = ["no missing values; the index levels have no unused labels (pandas keeps those as axis labels)",
               "df_count with more than one column: overflow placed before the last column is a known finding"]

LABELS = {"str": ("b", "a", "c"), "int": (10, 2, 7), "float": (.5, -1.5, 3.0)}
EXTRA = {"str": ("aa", "b"), "int": (5, 7), "float": (0.0, 9.5)}
VALUES = (0, 1, 2.5)


def sq(x):
    return (x ** 2).sum()


TRANS = [
    (None, {"N": sum}),
    ({"N": np.size, "X": np.sum}, {"N": len, "X": sum}),
    ({"M": "max", "N": "count", "Q": sq, "A": np.mean},
     {"M": max, "N": len, "Q": lambda v: sum(x * x for x in v), "A": lambda v: math.fsum(v) / len(v)}),
]
PAIRS = (1, 2), (2, .5), (.5, 0), (0, 3), (1.5, -1)    # weight and result of one observation of a frame


def bounds(tier):
    return {"length": "<= %d (one transformation), <= %d (all)" % ((3, 2) if tier == "quick" else (4, 3)),
            "levels": "plain index, MultiIndex of 1 to 3 levels, ordered or not", "labels": LABELS, "values": VALUES,
            "weights and results": PAIRS, "tier": tier}


def groups(tier):
    out = [{"k": "series", "nl": nl, "lab": lab, "how": how, "tier": tier, "t": t}
           for nl in (0, 1, 2, 3) for lab in ("str", "int", "float") for how in ("tuples", "codes", "set_index")
           for t in range(3) if nl or how == "tuples"]
    out += [{"k": "frame", "nl": nl, "lab": lab, "how": how, "tier": tier} for nl in (1, 2, 3) for lab in ("str", "int")
            for how in ("tuples", "codes")]
    out += [{"k": "count", "size": s, "tier": tier} for s in (2, 3, 4)]
    return out


def cells(nl, lab):
    L = LABELS[lab]
    n = {0: 3, 1: 3, 2: 2, 3: 2}[nl]
    return [list(c) for c in itertools.product(L[:n], repeat=max(nl, 1))]


def adds(nl, lab):
    yield None
    if nl == 0:
        yield list(EXTRA[lab])
        yield []
        return
    yield {"l0": list(EXTRA[lab])}
    if nl > 1:
        yield {"l%d" % (nl - 1): list(EXTRA[lab]), "l0": list(EXTRA[lab][1:]), "other": ["z"]}


def expand(g):
    deep = g["tier"] == "thorough"
    if g["k"] == "count":
        for n in range(1, 5 + deep):
            for w in itertools.product(range(g["size"] + 2), repeat=n):
                for name in (None, "k"):
                    yield {"k": "count", "size": g["size"], "v": list(w), "name": name}
        return
    cs = cells(g["nl"], g["lab"])
    if g["k"] == "frame":
        letters = [(c, w, r) for c in cs for w, r in PAIRS]
        for n in range(1, 3 + (deep and g["nl"] < 3)):
            for word in itertools.product(letters, repeat=n):
                for a in adds(g["nl"], g["lab"]):
                    yield dict(g, w=[list(x) for x in word], add=a)
        return
    letters = [(c, v) for c in cs for v in (VALUES if g["nl"] < 3 else VALUES[1:])]
    long = 3 + deep if g["t"] == 1 and g["how"] == "tuples" and g["lab"] == "str" else 2 + (deep and g["nl"] < 3)
    for n in range(1, long + 1):
        for word in itertools.product(letters, repeat=n):
            for a in (adds(g["nl"], g["lab"]) if n < 3 else [None]):
                yield dict(g, w=[list(x) for x in word], add=a)


def index(nl, how, keys):
    if nl == 0:
        return pd.Index([k[0] for k in keys])
    names = ["l%d" % i for i in range(nl)]
    if how == "tuples":
        return pd.MultiIndex.from_tuples([tuple(k) for k in keys], names=names)
    if how == "codes":       # levels in order of appearance, not sorted
        lev = [list(dict.fromkeys(k[i] for k in keys)) for i in range(nl)]
        return pd.MultiIndex(levels=lev, codes=[[lev[i].index(k[i]) for k in keys] for i in range(nl)], names=names)
    df = pd.DataFrame([list(k) for k in keys], columns=names)
    return pd.MultiIndex.from_frame(df)


def axes(nl, keys, add):
    out = []
    for i in range(max(nl, 1)):
        s = {k[i] for k in keys}
        if add is not None:
            s |= set(add if nl == 0 else add.get("l%d" % i, ()))
        out.append(sorted(s))
    return out


def compare(res, axis, want, ax, nl):
    got = [list(a) for a in axis] if nl else [list(axis)]
    if got != ax:
        return "axes %s, expected %s" % (got, ax)
    if sorted(res) != sorted(want):
        return "arrays %s, expected %s" % (sorted(res), sorted(want))
    shape = tuple(len(a) for a in ax)
    for k, d in want.items():
        a = np.asarray(res[k], float)
        if a.shape != shape:
            return "%s has shape %s, expected %s" % (k, a.shape, shape)
        for pos in itertools.product(*(range(n) for n in shape)):
            v = d.get(tuple(ax[i][p] for i, p in enumerate(pos)), 0)
            if not abs(a[pos] - v) < 1e-9:
                return "%s[%s] is %r, expected %r" % (k, ", ".join(map(str, pos)), a[pos], v)


def check(case):
    from maxlike import preprocessing as pp
    if case["k"] == "count":
        return check_count(pp, case)
    nl, keys = case["nl"], [tuple(x[0]) for x in case["w"]]
    cell = {}
    st = []
    for x in case["w"]:            # the reference machine: one transition per observation
        cell.setdefault(tuple(x[0]), []).append(tuple(x[1:]))
        st.append((nl, case["lab"], repr(sorted(cell.items(), key=repr))))
    ax = axes(nl, keys, case["add"])
    idx = index(nl, case["how"], keys)
    if case["k"] == "series":
        fs, ref = TRANS[case["t"]]
        obs = pd.Series([x[1] for x in case["w"]], index=idx, dtype=float)
        before = obs.copy()
        res, axis = pp.prepare_series(obs, None if fs is None else dict(fs), case["add"])
        want = {k: {c: f([y[0] for y in v]) for c, v in cell.items()} for k, f in ref.items()}
        msg = compare(res, axis, want, ax, nl)
        if not msg and not (before.equals(obs) and before.index.equals(obs.index)):
            msg = "the observations were modified"
    else:
        df = pd.DataFrame({"w": [float(x[1]) for x in case["w"]], "r": [float(x[2]) for x in case["w"]]}, index=idx)
        before = df.copy()
        res, axis = pp.prepare_dataframe(df, "w", "r", {"X": np.sum, "M": "max", "K": len}, case["add"])
        want = {"N": {c: sum(y[0] for y in v) for c, v in cell.items()},
                "X": {c: sum(y[0] * y[1] for y in v) for c, v in cell.items()},
                "M": {c: max(y[0] * y[1] for y in v) for c, v in cell.items()},
                "K": {c: len(v) for c, v in cell.items()}}
        msg = compare(res, axis, want, ax, nl)
        if not msg and not before.equals(df):
            msg = "the observations were modified"
    n = len(case["w"]) + sum(int(np.size(v)) for v in res.values())
    if msg:
        return Outcome(st, n, msg, case["k"])
    return Outcome(st, n, observed=repr(sorted((k, np.asarray(v).tolist()) for k, v in res.items())))


def check_count(pp, case):
    size, v = case["size"], case["v"]
    idx = pd.MultiIndex.from_tuples([(i % 2, "x%d" % i) for i in range(len(v))], names=["a", "b"])
    s = pd.Series(v, index=idx)
    df = pp.df_count(s, size, case["name"])
    st = [("count", size, tuple(v[:i + 1])) for i in range(len(v))]
    n = len(v) * size
    if list(df.columns) != list(range(size)) or df.columns.name != (case["name"] or "count"):
        return Outcome(st, n, "columns %r" % df.columns, "count columns")
    if not df.index.equals(idx) or list(s.values) != v:
        return Outcome(st, n, "index %r" % df.index, "count index")
    want = np.zeros((len(v), size))
    for i, x in enumerate(v):
        want[i, min(x, size - 1)] = 1
    got = np.asarray(df.values, float)
    if not np.array_equal(got, want):
        sw = want[:, list(range(size - 2)) + [size - 1, size - 2]]
        if np.array_equal(got, sw):
            return Outcome(st, n, "the overflow column comes before the last one", "overflow before last")
        return Outcome(st, n, "counts %s, expected %s" % (got.tolist(), want.tolist()), "count")
    return Outcome(st, n, observed=repr(got.tolist()))


def matches_known(k, case, key):
    return k["id"] == "KF-C20-overflow" and key == "overflow before last" and case["k"] == "count"
