#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T, FB, FO, M, FU = ("maxlike/tensor/tensor.py", "maxlike/func/func_base.py", "maxlike/func/func_op.py",
                    "maxlike/maxlike_base.py", "maxlike/func/func.py")
ML, MX, CO, TE, SI, PR, SK, PP = ("maxlike/maxlike.py", "maxlike/func/matrix.py", "maxlike/func/copula.py",
                                  "maxlike/func/tennis.py", "maxlike/func/sigmoid.py", "maxlike/func/func_proba.py",
                                  "maxlike/skellam.py", "maxlike/preprocessing.py")
TESTS = "tests/tests.py samples "

PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    PROPS.append((dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                 "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": observe,
                 "hook_needed": None}), technique, note))


P("C01", "Tensor arithmetic denotes entry-wise arithmetic on dense arrays",
  "Adding, subtracting, multiplying, dividing or negating tensors (mapped or not, with or without extra value "
  "dimensions, single or sums, on either side, with scalars, arrays or 0-d tensors, through Python operators or "
  "numpy dispatch) gives a tensor whose dense expansion is the entry-wise result on the dense expansions of the "
  "operands, and its parameter, feature and value ranks are those of the operands. The operands are not modified. "
  "The divisor must be a nonzero unmapped single tensor or a number.",
  ["inputs", "programs"],
  "every index structure of the operands (ranks, mappings, extra dimensions) and every sequence of operators",
  TESTS + "a handful of rank/mapping combinations; the defects live in particular pairs of index structures "
  "(repeated mappings, one operand unmapped, sums with elements of different ranks).",
  [T], [("Tensor and GenericTensor operators", T)], ["tensor.toarray()", "tensor.x, y, n, dim"],
  "bounded exhaustive exploration of operator words on the real tensors against a dense reference",
  "All structures up to 2 axes per group and all operator words up to depth 2; assumes values in general position.")
P("C02", "Sum, expand, transpose, flip and drop_dim match their dense counterparts",
  "Summing features or value dimensions (all, one or several, with or without broadcasting of sizes), inserting "
  "new axes, transposing the two parameter groups, flipping axes and dropping value dimensions gives a "
  "tensor whose dense expansion is the same operation on the dense expansion of the operand, with the matching "
  "ranks; this holds for single tensors and for sums of tensors and for any chain of these operations. "
  "Flipping a feature that a parameter axis is mapped to may be refused (NotImplementedError). The operand is not modified.",
  ["inputs", "programs"], "every index structure and every chain of structural operations",
  TESTS + "a few sums and one transpose on fixed shapes; partial sums of mapped tensors and chains are not sampled.",
  [T], [("sum, expand, transpose, flip, drop_dim", T)], ["tensor.toarray()"],
  "breadth-first exploration of structural-operation words on the real tensors against a dense reference",
  "All structures up to 2 (3 in thorough) axes per group, words up to the stated depth.")
P("C03", "Tensor contractions are the dense sums of products (chain rule)",
  "Contracting the first or second parameter group of a tensor with the features of another (dot_left, dot_right, "
  "dot) equals the dense sum of products over these axes, whatever the mappings, extra value dimensions, "
  "null operands, or sums on either side. The second-order chain rule H.dot_left(a).transpose().dot_left(b) "
  "therefore equals its dense counterpart.",
  ["inputs", "programs"], "every pair of index structures with matching contracted groups, and double contractions",
  TESTS + "dot on few structures, mostly through one or two composed functions.",
  [T], [("dot, dot_left, dot_right", T)], ["tensor.toarray()"],
  "bounded exhaustive exploration of contractions on the real tensors against a dense reference",
  "All pairs of structures up to 2 axes per group.")
P("C04", "The value of every composed function is the composition of its parts",
  "Calling any function built from the library's atoms (Constant, Vector, Linear, Quadratic, Scalar, X, Exp, Log, "
  "Logistic, ArcTan, Poisson, NegativeBinomial, score processes, collapse) with sums, products, composition, "
  "marginals, arithmetic operators (with numbers or arrays over the features) and features/parameters remapping returns, for "
  "every parameter value in its domain, the entry-wise mathematical value of the expression.",
  ["inputs", "programs"], "every expression of the function grammar up to a depth, and parameter shapes",
  TESTS + "about twenty fixed expressions at one parameter value each.",
  [FB, FO, FU, SI, PR, MX], [("function classes and combinators", "maxlike/func/")], ["f(params).toarray()"],
  "bounded exhaustive exploration of the expression grammar against a reference interpreter",
  "All expressions of the grammar up to the stated depth; score processes by explicit-state enumeration.")
P("C05", "The gradient of every composed function is its exact derivative",
  "For every function of the grammar of C04, every parameter i and every point of its domain, the gradient with "
  "respect to parameter i is the exact first derivative of the value with respect to every entry of that "
  "parameter, and is null when the function does not depend on it.",
  ["inputs", "programs"], "every expression up to a depth and every parameter",
  TESTS + "gradients of a dozen expressions, compared with finite differences at one point.",
  [FB, FO, FU, SI, PR, MX], [("grad methods", "maxlike/func/")], ["f.grad(params, i).toarray()"],
  "bounded exhaustive exploration of the expression grammar against exact jets",
  "Same grammar as C04; reference derivatives by second-order forward jets.")
P("C06", "The Hessian of every composed function is exact and symmetric",
  "For every function of the grammar of C04, every pair of parameters i >= j, the Hessian block is the exact "
  "second derivative of the value, null when there is none; diagonal blocks are symmetric.",
  ["inputs", "programs"], "every expression up to a depth and every pair of parameters",
  TESTS + "Hessians of a dozen expressions at one point.",
  [FB, FO, FU, SI, PR, MX], [("hess methods", "maxlike/func/")], ["f.hess(params, i, j).toarray()"],
  "bounded exhaustive exploration of the expression grammar against exact jets",
  "Same grammar as C04; reference derivatives by second-order forward jets.")
P("C07", "All ways of evaluating a function agree",
  "eval(params) returns the same value, gradients and Hessian blocks as calling the function and its grad and "
  "hess, with or without indices; giving the parameters as a list, a tuple, parameter objects with or without "
  "fixed entries, or bare when there is a single one makes no difference.",
  ["inputs", "programs"], "every expression up to a depth, every evaluation form",
  TESTS + "eval on few functions; specialised eval overrides are compared nowhere.",
  [FB, FO, FU, SI, PR, MX], [("eval overrides and call wrappers", "maxlike/func/")],
  ["f.eval(params)", "f.grad(params)", "f.hess(params)"],
  "bounded exhaustive exploration of the expression grammar against exact jets",
  "Same grammar as C04, every calling form.")
P("C08", "Objective, gradient and Hessian of each likelihood are exact",
  "For Poisson, ZeroInflatedPoisson, Logistic, NegativeBinomial, Finite and NormalizedFinite, for likelihoods the "
  "user writes as subclasses of MaxLike, and for every model, the "
  "objective is the mean log-likelihood of the data minus the regularization, up to a constant that depends on the "
  "data only; its gradient and Hessian with respect to the free parameter entries, bordered by the constraints and "
  "their multipliers, are its exact derivatives. Fixed entries contribute no row or column. With one observation per "
  "cell the likelihood is the probability of the data, constants included.",
  ["inputs", "configurations"],
  "every family, model, pattern of fixed entries, regularization, constraint and data set",
  TESTS + "one or two fits per family, whose optimum also hides scale errors.",
  [ML, M], [("like/grad_like/hess_like", ML), ("objective assembly, free-entry flattening", M)],
  ["m.g(params)", "gradient and Hessian used by the solver", "one Newton step"],
  "bounded exhaustive exploration of estimator configurations against exact jets",
  "All combinations within the bounds; data sets include zero counts, empty cells and non-integer weights.")
P("C09", "A fit that returns is a constrained maximum of the objective",
  "When fit returns, from whatever starting point with a finite objective, the result satisfies the constraints (linear or not) and is a stationary point of the objective on the "
  "constraint surface, with no ascent direction of second order, and is not worse than a feasible starting point; "
  "refitting from the result returns and stays there. On well-posed problems Newton fits return from any "
  "feasible starting point nearby.",
  ["inputs", "configurations", "histories"],
  "every family, well-posed problem, data set, starting point and method",
  TESTS + "one data set and one start per family.",
  [M, ML], [("newton, broyden, fit", M)], ["m.params after fit"],
  "bounded exhaustive exploration of fit problems on the real solvers with a stationarity oracle",
  "All problem x data x start x method combinations within the bounds; reference gradient and Hessian by jets.")
P("C10", "Fixed entries never move; a failed fit leaves the estimator untouched",
  "No fit, successful or not, changes an entry of a parameter that was given as fixed. A fit that raises (no "
  "convergence within its steps, or an exception of the model function at any evaluation) leaves every parameter "
  "entry and mask as before, is not reported as converged, and a later fit of the same object ends where it "
  "would on a fresh object.",
  ["fault_sequences", "configurations"],
  "every problem, mask, method, step budget and every evaluation of the model at which a fault can occur",
  TESTS + "no failing fit at all.",
  [M], [("fit restores the parameters on failure", M)], ["m.params, masks, m.converged"],
  "exhaustive fault injection at every model evaluation of the real fit, and every step budget",
  "Faults are exceptions raised by the model; all evaluation indices the fit reaches are injected.",
  [("params", "current parameters of the estimator", M), ("converged", "last fit succeeded", M)])
P("C11", "Results depend only on the estimator's declared state, not on history",
  "Whatever fits (successful or failing, by either method, on this or another estimator sharing the model "
  "function), queries, resets and additions came before, an operation gives the same result as on a fresh "
  "estimator with the same parameters, data, constraints and regularizations. The verbosity of a fit only changes "
  "what is printed.",
  ["histories"], "every sequence of operations up to a length",
  TESTS + "a single fit per object.",
  [M, ML], [("fit state: cached data, gradient, Hessian, multipliers", M)],
  ["m.params", "m.g", "error matrices", "criteria"],
  "exhaustive exploration of operation sequences on real estimators against a reference state machine",
  "All sequences over the alphabet up to length 3 (4 in thorough) on two estimators sharing a model.",
  [("flat_hess_", "Hessian of the last fit", M), ("N, X", "data of the last fit", M)])
P("C12", "Fisher, error matrix and standard errors describe the optimum",
  "After a Newton fit, the Fisher matrix is the Hessian of the objective at the result, the error matrix is the "
  "covariance on the constraint surface (the bordered inverse), and the standard errors are the square roots of "
  "its diagonal; blocks have the shapes of the parameters, fixed entries are masked or null.",
  ["inputs", "configurations"], "every family, problem (constraints, fixed entries, regularization) and data set",
  TESTS + "error matrices of a few Poisson models at one data set.",
  [M], [("fisher_matrix, error_matrix, std_error", M)], ["the three query methods"],
  "bounded exhaustive exploration of fit problems with a reference covariance",
  "Newton fits of all problems; Broyden's approximation is a known finding on two exact histories.")
P("C13", "AIC and BIC follow their formulas on every configuration",
  "With n observations, mean log-likelihood l of the current parameters, and k = free entries + extra parameters "
  "- constraints, the Akaike criterion is 2k/(n-k-1) - 2l and the Bayesian one k ln(n)/n - 2l, before and after any "
  "fit, for every family.",
  ["configurations", "inputs"], "every family, model, mask, constraints and number of extra parameters",
  TESTS + "the criteria on a few fits without constraints or extra parameters.",
  [M], [("akaine_information_criterion, bayesian_information_criterion", M)], ["the two criteria"],
  "bounded exhaustive exploration of estimator configurations against the formula",
  "All configurations within the bounds; counting fixed entries as free is a listed known finding.")

exec(open(os.path.join(HERE, "tools", "props2.py")).read()) if os.path.exists(
    os.path.join(HERE, "tools", "props2.py")) else None

NOT_APPLICABLE = []


def main():
    have = {os.path.basename(f)[:3] for f in glob.glob(os.path.join(HERE, "checks", "C*.py"))}
    na = {n["property"] for n in NOT_APPLICABLE}
    rows = [p for p in PROPS if p[0]["id"] in have or p[0]["id"] in na]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in rows:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    man = {"version": 1, "setup_cmd": "test -x /opt/venv/bin/python",
           "hooks": {"guard": "none", "enable": "no hooks: the checks import the unmodified sources of /repo",
                     "source_commits": []},
           "checks": [dict(property=p["id"], quick_cmd="./run.sh %s --tier quick" % p["id"],
                           thorough_cmd="./run.sh %s --tier thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=t, level="model_checking",
                           level_note=n) for p, t, n in rows if p["id"] not in na],
           "not_applicable": NOT_APPLICABLE,
           "notes": "known_findings.json lists recorded defects and the fixed ones; DESIGN.md explains the method."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")

    design(rows)


def design(rows):
    """DESIGN.md, from the tables above and the check modules"""
    import importlib
    import sys
    import textwrap
    sys.path.insert(0, HERE)
    wrap = lambda t, ind="  ": "\n".join(textwrap.wrap(t, 118, initial_indent="* ", subsequent_indent=ind))
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), ""]
    costs = json.load(open(os.path.join(HERE, "tools", "costs.json")))
    for p, t, n in rows:
        mod = glob.glob(os.path.join(HERE, "checks", p["id"] + "_*.py"))
        m = importlib.import_module("checks." + os.path.basename(mod[0])[:-3])
        out += ["", "### %s %s" % (p["id"], p["title"]), "",
                wrap("**Method**: %s. %s" % (t[0].upper() + t[1:], m.RULE)),
                wrap("**Bounds**: " + "; ".join("%s: %s" % (k, short(v)) for k, v in m.bounds("quick").items()
                                                if k != "tier") + ". " + n),
                wrap("**Assumptions**: " + "; ".join(getattr(m, "ASSUMPTIONS", ["none beyond the bounds"])) + "."),
                wrap("**Beyond the tests**: quantifies over %s; the tests sample %s" % (
                    p["quantifier"]["text"], p["why_tests_cant"].replace(TESTS, ""))),
                wrap("**Cost**: " + costs.get(p["id"], "not measured") + ".")]
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
    tail = open(os.path.join(HERE, "tools", "design_tail.md")).read()
    tail = tail.replace("@@FIXED@@", "\n".join(wrap(f.replace("fixed: property=", "")) for f in kf["fixed"]))
    tail = tail.replace("@@FINDINGS@@", "\n".join(wrap("%s (%s): %s" % (f["id"], f["property"], f["what"]))
                                                  for f in kf["findings"]))
    rows = ["| bug | property | caught | needs |", "| --- | --- | --- | --- |"]
    for b, c in sorted(caught.items()):
        meta = os.path.join(HERE, "seeded", b, "meta.json")
        if os.path.exists(meta):
            rows.append("| %s | %s | %s | %s |" % (b, c["property"], "by " + c["property"] if c["caught"] else "no",
                                                   json.load(open(meta))["needs"].replace("|", "/")))
    out += ["", tail.replace("@@SEEDED@@", "\n".join(rows)).rstrip(), ""]
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


def short(v):
    s = v if isinstance(v, str) else ", ".join("%s=%s" % kv for kv in v.items()) if isinstance(v, dict) else (
        ", ".join(map(str, v)) if isinstance(v, (list, tuple)) else str(v))
    return s if len(s) < 420 else s[:400].rsplit(" ", 1)[0] + " ..."


main()
