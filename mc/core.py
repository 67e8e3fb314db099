"""Exhaustive-exploration engine shared by every check.

A check module describes a finite space:

    groups(tier)      -> list of JSON-able group descriptors (units of parallel work)
    expand(group)     -> iterator over JSON-able cases (one execution / transition sequence each)
    check(case)       -> Outcome: executes the REAL code on the case in lockstep with the reference
                         model and says which states were visited, how many transitions were compared,
                         and whether any of them diverged.

The engine runs every case of every group (no sampling, no cap), aggregates the set of distinct
states, writes the evidence file and, on a divergence that known_findings.json does not list, a replay
file and the VIOLATION line.
"""
import os
import sys
import json
import time
import signal
import hashlib
import importlib
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = 60       # seconds a single case may run before it counts as non-terminating
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


class Outcome(object):
    """What happened on one case."""
    __slots__ = ("states", "transitions", "fail", "key", "observed", "nontrivial")

    def __init__(self, states=(), transitions=0, fail=None, key=None, observed=None, nontrivial=True):
        self.states = states            # iterable of hashable canonical states
        self.transitions = transitions  # real-code steps compared with the reference model
        self.fail = fail                # None or a description of the divergence
        self.key = key                  # identifies the finding (for known_findings.json)
        self.observed = observed        # small printable digest of the observed behaviour
        self.nontrivial = nontrivial


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))
STOP_AFTER = 400


def load_repo():
    """Import maxlike from the working tree under test; never read or write stale bytecode."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache"
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import maxlike
    root = os.path.realpath(os.path.dirname(os.path.dirname(maxlike.__file__)))
    assert root == os.path.realpath(REPO), root
    return maxlike


def h64(obj):
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


def repo_frame(err):
    """Does the traceback of err go through the code under test?"""
    tb = err.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(
                os.path.realpath(REPO) + os.sep):
            return True
        tb = tb.tb_next
    return False


def run_case(mod, case):
    """check(case) with a watchdog.  An exception raised from the code under test where the reference
    model is defined is a divergence; an exception of the harness itself is an error of the check."""
    # processor time, so that a busy machine makes no difference; the clock only for a case that sleeps forever
    limit = getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT)
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(5 * limit)
    try:
        return mod.check(case)
    except CaseTimeout:
        return Outcome(fail="did not terminate within %d s" % limit, key="timeout")
    except RecursionError as err:
        return Outcome(fail="RecursionError: %s" % err, key="exc:RecursionError")
    except Exception as err:
        if not repo_frame(err):
            # the comparison never fails on the results the unchanged code returns (checked by every clean
            # run), so a result it cannot even digest is a divergence
            return Outcome(fail="result cannot be compared: " + traceback.format_exc()[-600:],
                           key="incomparable:%s" % type(err).__name__)
        last = traceback.format_exception(type(err), err, err.__traceback__)
        return Outcome(fail="raised %s: %s\n%s" % (type(err).__name__, err, "".join(last[-3:])),
                       key="exc:%s" % type(err).__name__)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)


def _work(args):
    modname, gi, group = args
    mod = importlib.import_module(modname)
    states, obs = set(), set()
    cases = trans = nontriv = 0
    fails, samples = [], []
    errors = []
    known, hit = known_findings(mod.PROPERTY), {}
    for case in mod.expand(group):
        try:
            out = run_case(mod, case)
        except Exception:
            errors.append((case, traceback.format_exc()))
            break
        cases += 1
        trans += out.transitions
        nontriv += bool(out.nontrivial)
        states.update(h64(s) for s in out.states)
        if out.observed is not None:
            obs.add(h64(out.observed))
        if out.fail is not None:
            k = is_known(known, mod, case, out.key)
            if k is not None:
                hit[k["id"]] = hit.get(k["id"], 0) + 1
                continue
            fails.append((case, out.key, out.fail))
            if len(fails) >= (1 if FAILFAST else 200) or sum(f[1] == "timeout" for f in fails) >= 2:
                break
        if len(samples) < 1:
            samples.append({"case": case, "observed": out.observed if out.fail is None else out.fail})
    return gi, cases, trans, nontriv, states, obs, fails, samples, errors, hit


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def is_known(known, mod, case, key):
    for k in known:
        if hasattr(mod, "matches_known"):
            if mod.matches_known(k, case, key):
                return k
        elif k.get("key", key) == key and k.get("case") == json.loads(json.dumps(case, default=str)):
            return k
    return None


def main(modname):
    t0 = time.time()
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    load_repo()
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)

    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            rep = json.load(f)
        out = run_case(mod, rep["case"])
        print("property", prop, "case", json.dumps(rep["case"]))
        print("diverges: " + str(out.fail) if out.fail is not None else "agrees with the reference model")
        return 1 if out.fail is not None else 0

    groups = list(mod.groups(tier))
    # the seed only permutes the order in which the (complete) space is walked
    order = sorted(range(len(groups)), key=lambda i: h64((seed, i)))
    states, obs = set(), set()
    cases = trans = nontriv = 0
    fails, samples, errors, hit = [], {}, [], {}
    complete = True
    ctx = mp.get_context("fork")
    with ctx.Pool(NPROC) as pool:
        jobs = ((modname, gi, groups[gi]) for gi in order)
        for gi, c, t, nt, st, ob, fl, sm, er, ht in pool.imap_unordered(_work, jobs, chunksize=1):
            cases += c
            trans += t
            nontriv += nt
            states |= st
            obs |= ob
            fails += [(gi, i) + f for i, f in enumerate(fl)]
            errors += er
            for k, n in ht.items():
                hit[k] = hit.get(k, 0) + n
            if sm:
                samples[gi] = sm
            # a violation is reported with what was explored so far rather than after the time of the check
            if len(fails) > 4000 or fails and (FAILFAST or time.time() - t0 > STOP_AFTER):
                complete = False
                pool.terminate()
                break
    if errors:
        print("HARNESS ERROR on case %s\n%s" % (json.dumps(errors[0][0]), errors[0][1]))
        return 2

    fails.sort(key=lambda f: (f[0], f[1]))
    new = [(case, key, msg) for gi, i, case, key, msg in fails]
    what = {k["id"]: k["what"] for k in known_findings(prop)}
    for kid in sorted(hit):
        print("KNOWN-FINDING: property=%s %s [%s; %d explored case(s)]" % (prop, what[kid], kid, hit[kid]))

    cov = {
        "states": len(states),
        "transitions": trans,
        "traces_validated_against_impl": cases,
        "distinct_observed_outcomes": len(obs),
        "nontrivial_cases": nontriv,
        "groups": len(groups),
        "exhaustive": bool(complete and not new),
        "bounds": mod.bounds(tier),
        "rule": mod.RULE,
        "known_finding_cases": sum(hit.values()),
        "samples": [s for gi in sorted(samples)[:: max(1, len(samples) // 5)] for s in samples[gi]][:6],
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": cov, "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d states, %d transitions, %d traces compared with the reference model, "
          "%d distinct outcomes, %d group(s), %.1f s" %
          (prop, tier, len(states), trans, cases, len(obs), len(groups), time.time() - t0))
    if cases == 0 or trans == 0:
        print("HARNESS ERROR: nothing was explored")
        return 2
    if new:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        case, key, msg = new[0]
        path = os.path.join(rdir, "%s-%016x.json" % (prop, h64(case)))
        with open(path, "w") as f:
            json.dump({"property": prop, "module": modname, "case": case, "key": key, "observed": msg,
                       "replay_with": "./run.sh %s --replay %s" % (prop, path)}, f, indent=1, default=str)
        print("first divergence (%d in all): %s\n  %s" % (len(new), json.dumps(case, default=str), msg))
        if os.environ.get("VERIF_DUMP"):
            from collections import Counter
            cnt = Counter(str(k) for _, k, _ in new)
            for k, n in cnt.most_common(40):
                ex = next(c for c, kk, _ in new if str(kk) == k)
                print("   ", n, k, json.dumps(ex, default=str)[:300])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0
