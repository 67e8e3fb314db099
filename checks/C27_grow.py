"""C27: building further functions does not change the functions they are built from."""
import itertools
import json
import numpy as np
from mc import exprs, jets
from mc.core import Outcome
from checks.C26_overlap import whole, wrong

PROPERTY = "C27"
RULE = ("Every construction history up to the depth bound: starting from a few functions, each step either makes a new "
        "function from one or two existing ones (operators, composition, Collapse, a new Sum or Product of it) or adds an "
        "existing function to an existing Sum or Product. The reference keeps one expression per object. After every "
        "step, every object (value, gradients, Hessians, eval) must be what its own expression denotes. A second family of "
        "histories applies every operator, with numbers and with one and the same array of the caller, to every object "
        "made so far.")
ASSUMPTIONS = ["an object that refers to a Sum or Product which is extended afterwards is no longer observed: whether it "
               "follows the extension is not specified (Compose, Affine and Collapse do, Sum and Product do not)",
               "functions of two vectors of two elements, two features"]
DEPTH = {"quick": 3, "thorough": 3}
# operator histories: initial expression, parameters, constant over its features
STARTS = {"X": (["X"], [(2,)], [0.7, -1.3]), "Logistic": (["Logistic"], [(2, 2)], [[.5, 1.2], [-.8, .9]]),
          "Poisson": (["Poisson", 3], [(2,)], [0.7, -1.3]), "Vec": (["Vec", [0.4, 1.1, -.6]], [()], [.9, -.2, 1.4]),
          "Sum": (["Sum", 2, 0, [[["X"], [0], [0], None, 1.0], [["X"], [1], [1], None, -2.0]]], [(2,), (3,)],
                  [[.5, 1.2, .3], [-.8, .9, 2.1]]),
          "Prod": (["Prod", 2, 0, [[["X"], [1], [0], None], [["Exp"], [0], [1], None]]], [(2,), (2,)],
                   [[.5, 1.2], [-.8, .9]])}
NUMBERS = [("+", 0.7), ("r-", 1.5), ("*", -2.0), ("/", 4), ("neg", None), ("*", 1), ("+", 0), ("-", .3), ("r+", -1)]
ARRAYS = [(o, "A") for o in ("+", "r-", "*", "/", "r+", "-", "r*")]
OPDEPTH = {"quick": (("all", 2), ("few", 3)), "thorough": (("all", 3), ("few", 4))}
FEW = [("+", 0.7), ("*", -2.0), ("neg", None), ("+", "A"), ("r-", "A"), ("*", "A"), ("@", None)]

# an expression is a function of (a, b) with two features, or of one parameter with one feature (leaf)
LEAVES = {"X": ["X"], "-2X+1": ["Aff", ["X"], -2.0, 1.0]}
SUM0 = ["Sum", 2, 0, [[["X"], [0], [0], None, 1.0], [["X"], [1], [1], None, 1.0]]]
PROD0 = ["Prod", 2, 0, [[["Exp"], [0], [0], None], [["X"], [1], [1], None]]]
MADE = {"quick": ("2f+1", "exp(f/8)", "sum", "prod", "coll"),
        "thorough": ("2f+1", "-f", "exp(f/8)", "sum", "sum'", "prod", "prod'", "coll")}
MAPS = {"id": ([0, 1], [0, 1]), "cross": ([1, 0], [1, 0]), "params": ([1, 0], [0, 1]), "feats": ([0, 1], [1, 0])}
ADDMAPS = {"quick": ("id", "cross"), "thorough": ("id", "cross", "params", "feats")}
TINY = 0.125


def bounds(tier):
    return {"initial objects": ["X", "-2X+1", "X(a)+X(b)", "Exp(a)*X(b)"], "new objects": MADE[tier],
            "operators": [list(x) for x in NUMBERS + ARRAYS] + ["composition"], "operator histories": OPDEPTH[tier],
            "their initial objects": sorted(STARTS), "add": "every object to every Sum/Product, itself included, maps %s (of leaves: each parameter and feature)"
            % (ADDMAPS[tier],), "depth": DEPTH[tier], "tier": tier}


class World(object):
    """objects and the expressions they stand for"""
    def __init__(self):
        self.obj, self.ref, self.deps, self.seen = [], [], [], []
        for e in list(LEAVES.values()) + [SUM0, PROD0]:
            self.new(exprs.make(e), e, set())

    def new(self, o, e, deps):
        self.obj.append(o)
        self.ref.append(json.loads(json.dumps(e)))
        self.deps.append(set(deps))
        self.seen.append(True)

    def leaf(self, k):
        return k < len(LEAVES)


def moves(ref, seen, deps, tier):
    """the steps possible from a state: the expressions of its objects, and which others each refers to"""
    n = len(ref)
    for k in range(n):
        if not seen[k]:
            continue
        for m in MADE[tier]:
            if k < len(LEAVES) and m not in ("sum", "prod"):
                continue        # leaves: C04-C07
            if m == "coll" and ref[k][0] not in ("Sum", "Prod"):
                continue
            yield ["new", m, k]
    for t in range(len(LEAVES), n):
        if ref[t][0] in ("Sum", "Prod") and seen[t]:
            for k in range(n):
                if not seen[k] or t in deps[k]:     # no function contains itself
                    continue
                if k < len(LEAVES):
                    for p in (0, 1):
                        yield ["add", t, k, [p], [p]]
                    continue
                for m in ADDMAPS[tier]:
                    yield ["add", t, k] + [list(x) for x in MAPS[m]]


def grow(ref, seen, deps, step):
    """the reference: expressions after a step"""
    if step[0] == "new":
        m, k = step[1:]
        e = ref[k]
        pm, fm = ([0], [0]) if k < len(LEAVES) else MAPS["cross" if m.endswith("'") else "id"]
        new = {"2f+1": lambda: ["Aff", e, 2.0, 1.0], "-f": lambda: ["Aff", e, -1.0, 0.0],
               "exp(f/8)": lambda: ["Comp", ["Exp"], [["Aff", e, TINY, 0.0]]],
               "sum": lambda: ["Sum", 2, 0, [[e, pm, fm, None, 0.5]]], "sum'": lambda: ["Sum", 2, 0, [[e, pm, fm, None, 1.0]]],
               "prod": lambda: ["Prod", 2, 0, [[e, pm, fm, None]]], "prod'": lambda: ["Prod", 2, 0, [[e, pm, fm, None]]],
               "coll": lambda: ["Coll", e, [0], True]}[m]()
        if m == "coll":     # back to two features
            new = ["Sum", 2, 0, [[new, [0, 1], [1], None, 1.0]]]
        ref.append(json.loads(json.dumps(new)))
        seen.append(True)
        deps.append({k} | deps[k])
        return
    t, k, pm, fm = step[1:]
    e = json.loads(json.dumps(ref[k]))
    ref[t][3].append([e, pm, fm, None] + ([1.0] if ref[t][0] == "Sum" else []))
    for q in range(len(ref)):
        if t in deps[q] and q != t:
            seen[q] = False
    deps[t] = (deps[t] | {k} | deps[k]) - {t}


def build(obj, step):
    """the same step on the objects"""
    import maxlike.func as mf
    if step[0] == "new":
        m, k = step[1:]
        f = obj[k]
        pm, fm = ([0], [0]) if k < len(LEAVES) else MAPS["cross" if m.endswith("'") else "id"]
        obj.append({"2f+1": lambda: 2.0 * f + 1.0, "-f": lambda: -f, "exp(f/8)": lambda: mf.Exp() @ (f * TINY),
                    "sum": lambda: mf.Sum(2).add(f, list(pm), list(fm), weight=0.5),
                    "sum'": lambda: mf.Sum(2).add(f, list(pm), list(fm)),
                    "prod": lambda: mf.Product(2).add(f, list(pm), list(fm)),
                    "prod'": lambda: mf.Product(2).add(f, list(pm), list(fm)),
                    "coll": lambda: mf.Sum(2).add(mf.Collapse(f, [0]), [0, 1], [1])}[m]())
        return
    t, k, pm, fm = step[1:]
    obj[t].add(obj[k], list(pm), list(fm))


def start():
    ref = [json.loads(json.dumps(e)) for e in list(LEAVES.values()) + [SUM0, PROD0]]
    return ref, [True] * len(ref), [set() for _ in ref]


def size(e):
    return len(json.dumps(e))


def words(prefix, tier):
    ref, seen, deps = start()
    for s in prefix:
        grow(ref, seen, deps, s)
    if len(prefix) == DEPTH[tier]:
        yield prefix
        return
    for s in moves(ref, seen, deps, tier):
        for w in words(prefix + [s], tier):
            yield w


def groups(tier):
    ref, seen, deps = start()
    return [{"first": s, "second": c, "tier": tier} for s in moves(ref, seen, deps, tier) for c in range(4)] + \
        [{"ops": k, "start": n, "depth": d, "f": f} for k, d in OPDEPTH[tier] for n in STARTS for f in range(len(ops_of(k)))]


def ops_of(k):
    return FEW if k == "few" else NUMBERS + ARRAYS + [("@", None)]


def expand(g):
    if "ops" in g:
        L = ops_of(g["ops"])
        steps = [[[0] + list(L[g["f"]])]] + [[[k] + list(o) for k in range(i) for o in L] for i in range(2, g["depth"] + 1)]
        for w in itertools.product(*steps):
            yield {"start": g["start"], "word": list(w)}
        return
    ref, seen, deps = start()
    grow(ref, seen, deps, g["first"])
    for i, s in enumerate(moves(ref, seen, deps, g["tier"])):
        if i % 4 == g["second"]:
            for w in words([g["first"], s], g["tier"]):
                yield {"word": w, "when": "end"}
                if g["tier"] == "thorough":
                    yield {"word": w, "when": "always"}


VALS = [np.array([0.31, -0.47]), np.array([0.83, 0.56])]
JETS = {}


def jet(e, leaf):
    k = json.dumps(e)
    if k not in JETS:
        if len(JETS) > 3000:
            JETS.clear()
        j = exprs.reference({"e": e, "p": [[2]] if leaf else [[2], [2]]}, VALS[:1] if leaf else VALS)[0]
        JETS[k] = jets.Jet(j.v, j.g, j.h, j.nd)
    return JETS[k]


def check_ops(case):
    """one initial function, operators on any of the functions made so far"""
    import maxlike.func as mf
    e0, shapes, A = STARTS[case["start"]]
    arr = np.array(A)
    ref, objs = [e0], [exprs.make(e0)]
    vals = exprs.valuation(shapes, False)
    st, n = [], 0
    for i, (k, o, c) in enumerate(case["word"]):
        f, x = objs[k], arr if c == "A" else c
        try:
            objs.append({"+": lambda: f + x, "r+": lambda: x + f, "-": lambda: f - x, "r-": lambda: x - f, "*": lambda: f * x,
                         "r*": lambda: x * f, "/": lambda: f / x, "neg": lambda: -f,
                         "@": lambda: mf.Logistic() @ f}[o]())
        except Exception as e:
            return Outcome(st, n, "%s fails: %s: %s" % (case["word"][:i + 1], type(e).__name__, e), "build")
        ref.append(["Comp", ["Logistic"], [ref[k]]] if o == "@" else ["op", ref[k], o, A if c == "A" else c])
        st.append(json.dumps([case["start"], case["word"][:i + 1]]))
        n += 1
    if not np.array_equal(arr, A):
        return Outcome(st, n, "after %s the array of the caller is %s" % (case["word"], arr.tolist()), "array")
    for k, o in enumerate(objs):
        key = json.dumps([ref[k], shapes])
        if key not in JETS:
            if len(JETS) > 3000:
                JETS.clear()
            j = exprs.reference({"e": ref[k], "p": shapes}, vals)[0]
            JETS[key] = jets.Jet(j.v, j.g, j.h, j.nd)
        for op in ("call", "eval"):
            m = wrong(whole(o, op, [x.copy() for x in vals]), op, JETS[key], vals)
            n += 1
            if m:
                return Outcome(st, n, "after %s, object %d, %s: %s" % (case["word"], k, json.dumps(ref[k]), m), "changed")
    return Outcome(st, n, observed=(case["start"], tuple(r[0] for r in ref)))


def check(case):
    if "start" in case:
        return check_ops(case)
    ref, seen, deps = start()
    objs = [exprs.make(e) for e in ref]
    st, n = [], 0
    word = case["word"]
    for i, s in enumerate(word):
        try:
            build(objs, s)
        except Exception as e:
            return Outcome(st, n, "%s fails: %s: %s" % (word[:i + 1], type(e).__name__, e), "build")
        grow(ref, seen, deps, s)
        n += 1
        st.append(json.dumps(word[:i + 1]))
        if i < len(word) - 1 and case["when"] == "end":
            continue
        ops = ("call", "eval", "hesses") if case["when"] == "end" else ("eval",)
        for k, o in enumerate(objs):
            if not seen[k]:
                continue
            leaf = k < len(LEAVES)
            v = VALS[:1] if leaf else VALS
            for op in ops:
                m = wrong(whole(o, op, [x.copy() for x in v]), op, jet(ref[k], leaf), v)
                n += 1
                if m:
                    return Outcome(st, n, "after %s, object %d, %s: %s" % (word[:i + 1], k, json.dumps(ref[k]), m),
                                   "changed")
    return Outcome(st, n, observed=(tuple(r[0] for r in ref), tuple(seen)))
