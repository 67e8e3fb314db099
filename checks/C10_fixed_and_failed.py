"""C10: fixed entries never move; a fit that fails, at whatever point, changes no parameter."""
import numpy as np
from mc import likes, problems, exprs
from mc.core import Outcome

PROPERTY = "C10"
RULE = ("Every problem x mask x method: (a) fits with every step budget 0..4 and an unlimited one; (b) fault "
        "injection: the model function raises at its k-th evaluation, for every k the fit reaches (plus one), "
        "with an ordinary exception and with KeyboardInterrupt; after each, fixed entries are bit-identical, "
        "a fit that raised left every entry, the masks and converged=False, and a later fit on the same "
        "object ends exactly where the same fit on a fresh object ends.")
ASSUMPTIONS = [
    "faults are exceptions raised by the model function (the only user code a fit calls besides constraints "
    "and regularizations); asynchronous exceptions between two bytecodes are not explored",
]
METHODS = ("newton", "broyden")


class Fault(Exception):
    pass


class Faulty(object):
    """the model, raising at its k-th evaluation"""

    def __init__(self, model, k=None, exc=Fault):
        self.model, self.left, self.exc, self.count = model, k, exc, 0

    def tick(self):
        self.count += 1
        if self.left is not None:
            if self.left == 0:
                self.left = None
                raise self.exc("injected")
            self.left -= 1

    def __call__(self, params):
        self.tick()
        return self.model(params)

    def grad(self, *a):
        self.tick()
        return self.model.grad(*a)

    def hess(self, *a):
        self.tick()
        return self.model.hess(*a)

    def eval(self, params):
        self.tick()
        return self.model.eval(params)


def specs(tier):
    out = []
    for i, sp in enumerate(problems.all_specs()):
        if sp["fam"] in ("Poisson", "Finite", "NormalizedFinite") or tier == "thorough":
            out.append(i)
    return out


def bounds(tier):
    A = problems.all_specs()
    return {"problems": [A[i]["fam"] + ":" + A[i]["name"] for i in specs(tier)],
            "masks": "the problem's own, and every single entry fixed in addition; thorough: every subset",
            "step budgets": [0, 1, 2, 3, 4, 60], "faults": "every model evaluation of the fit", "tier": tier}


def groups(tier):
    return [{"i": i, "tier": tier, "m": m} for i in specs(tier) for m in METHODS]


def extra_masks(sp, tier):
    shapes = [tuple(s) for s in sp["p"]]
    base = [np.array(m, dtype=bool) for m in sp["mask"]]
    seen = []
    for mask in likes.masks(shapes):
        m = [(np.array(a, dtype=bool) | b).astype(int).tolist() for a, b in zip(mask, base)]
        added = sum(map(sum, m)) - sum(int(b.sum()) for b in base)
        if m in seen or not any(0 in x for x in m) or (tier == "quick" and added > 1):
            continue
        seen.append(m)
        yield m


def expand(g):
    sp = problems.all_specs()[g["i"]]
    n = int(np.prod(sp["fs"], dtype=int)) if not sp["ds"] else 3
    for mask in extra_masks(sp, g["tier"]):
        for k in ((2,) if g["tier"] == "quick" else (2, 4)):
            base = dict(sp, mask=mask, cells=[1 + (3 * i * i + i) % 4 for i in range(n)], start=k, method=g["m"])
            yield dict(base, mode="steps")
            yield dict(base, mode="faults")


def snap(m):
    return [(np.array(p, dtype=float).tobytes(), np.array(p.mask).tobytes(), tuple(p.shape)) for p in m.params]


def bad(m, vals, before, raised, masks):
    if len(m.params) != len(before):
        return "%d parameters, expected %d" % (len(m.params), len(before))
    after = snap(m)
    for i, (b, a) in enumerate(zip(before, after)):
        if a[1:] != b[1:]:
            return "mask or shape of parameter %d changed" % i
        if raised and a[0] != b[0]:
            return "failed fit changed parameter %d" % i
    for i, (p, v, k) in enumerate(zip(m.params, vals, masks)):
        k = np.asarray(k, dtype=bool).reshape(v.shape)
        if np.asarray(p, dtype=float)[k].tobytes() != v[k].tobytes():
            return "fixed entry of parameter %d moved" % i
        pm = m.get_params()[i]
        if np.ma.getmaskarray(pm).tolist() != k.tolist() or \
                np.asarray(pm.data, dtype=float).tobytes() != np.asarray(p, dtype=float).tobytes():
            return "get_params() of parameter %d does not show its values and fixed entries" % i
    if raised and m.converged is not False:
        return "converged is %r after a failed fit" % (m.converged,)
    if not raised and m.converged is not True:
        return "converged is %r after a fit that returned" % (m.converged,)
    return None


def attempt(m, args, **kw):
    from maxlike.maxlike_base import ConvergenceError
    try:
        m.fit(**dict(args, **kw))
    except (ConvergenceError, Fault, KeyboardInterrupt, np.linalg.LinAlgError) as err:
        return err
    return None


def check(case):
    data = problems.data_of(case, case["cells"])
    vals = problems.start(case, case["start"])
    args = dict(likes.fit_args(case, data), method=case["method"], tol=1e-9)
    st, T = [], 0
    ref = likes.build(case, vals)
    ref.model = Faulty(ref.model)
    err = attempt(ref, args, max_steps=60)
    msg = bad(ref, vals, snap(likes.build(case, vals)), err is not None, case["mask"])
    T += 1
    if msg:
        return Outcome(st, T, "plain fit: " + msg, "plain")
    final, total = snap(ref), ref.model.count
    key = (case["fam"], case["name"], str(case["mask"]), case["method"])
    if case["mode"] == "steps":
        m = likes.build(case, vals)
        for steps in (0, 1, 2, 3, 4):
            before = snap(m)
            e = attempt(m, args, max_steps=steps)
            T += 1
            st.append(key + (steps, e is None))
            msg = bad(m, vals, before, e is not None, case["mask"])
            if msg:
                return Outcome(st, T, "budget %d: %s" % (steps, msg), "budget")
            if e is None:
                break
        # an invalid method changes nothing either
        before, ok = snap(m), False
        try:
            m.fit(**dict(args, method="nonsense"))
        except ValueError:
            ok = True
        T += 1
        if not ok or snap(m) != before:
            return Outcome(st, T, "fit with an invalid method: raised=%r" % ok, "method")
        return Outcome(st, T, observed=[key, str(err)[:30], T])
    for k in range(total + 1):
        for exc in (Fault, KeyboardInterrupt):
            m = likes.build(case, vals)
            plain = m.model
            m.model = Faulty(plain, k, exc)
            before = snap(m)
            e = attempt(m, args, max_steps=60)
            T += 1
            st.append(key + ("fault", k, exc.__name__))
            if k < total and not isinstance(e, exc):
                return Outcome(st, T, "fault at evaluation %d was swallowed (%r)" % (k, e), "swallowed")
            msg = bad(m, vals, before, e is not None, case["mask"])
            if msg:
                return Outcome(st, T, "fault at evaluation %d: %s" % (k, msg), "fault")
            m.model = plain
            if k < total:
                e = attempt(m, args, max_steps=60)
                if (e is None) != (err is None) or snap(m) != final:
                    return Outcome(st, T, "fit after a fault at evaluation %d does not end where a fresh fit "
                                   "ends" % k, "after fault")
    return Outcome(st, T, observed=[key, total])
