P("C14", "MarkovMatrix is the joint distribution of the final score",
  "For per-step rates of the two players (positive, summing to less than one), any number of steps, any size and any "
  "skew matrix, MarkovMatrix returns the probability of every pair of scores after that many steps of the scoring "
  "process, scores saturating at the last row and column, for every cell of the rates; gradients and Hessians "
  "are its exact derivatives.",
  ["inputs", "configurations"], "every size, number of steps, skew matrix and shape of the rates",
  TESTS + "the default size without asymmetric skews; transitions at the border states need particular sizes/steps.",
  [MX], [("MarkovMatrix value, grad, hess", MX)], ["f(params), f.grad, f.hess, f.eval"],
  "explicit-state enumeration of the score chain with exact jets, compared with the real function",
  "All sizes and steps within the bounds, skews by all single and double deviations from 1.")
P("C15", "MarkovVector is the distribution of the final score difference",
  "For per-step rates of the two players (positive, summing to less than one), any number of steps, any size and any "
  "skew vector, MarkovVector returns the probability of every score difference after that many steps, differences "
  "saturating at both ends; gradients and Hessians are its exact derivatives.",
  ["inputs", "configurations"], "every size, number of steps, skew vector and shape of the rates",
  TESTS + "the default size without asymmetric skews; transitions at the border states need particular sizes/steps.",
  [MX], [("MarkovVector value, grad, hess", MX)], ["f(params), f.grad, f.hess, f.eval"],
  "explicit-state enumeration of the difference chain with exact jets, compared with the real function",
  "All sizes and steps within the bounds, skews by all single and double deviations from 1.")
P("C16", "Game, TieBreak and Set follow the scoring rules of tennis",
  "For point (game, tie-break) winning probabilities of any shape, Game, TieBreak and Set return the probability of "
  "each final score under the rules of tennis, their sum is one, and gradients and Hessians are the exact "
  "derivatives.",
  ["inputs", "configurations"], "every probability of an alphabet, scalars and vectors of every length up to a bound",
  TESTS + "one fit and a few values; derivative terms of single scores cancel in a fit.",
  [TE], [("Game, TieBreak, Set", TE)], ["f(params), f.grad, f.hess, f.eval"],
  "explicit-state enumeration of the scoring automaton with exact jets, compared with the real functions",
  "Two-axis parameters come out transposed: a listed known finding.")
P("C17", "Copulas return the joint distribution of the two marginals",
  "For any two discrete marginals along the last axis (non-negative weights with a positive total, normalised or not, "
  "null cells allowed, with or without feature axes), each copula (Gaussian, Clayton, Gumbel, Frank, Ali-Mikhail-Haq) "
  "returns the joint distribution whose cumulative distribution is the documented C(F(x), G(y)): cells are non-negative "
  "and add up to one, and the margins are the normalised inputs.",
  ["inputs", "configurations"], "every family, parameter, number of outcomes, and pair of marginals of an alphabet",
  TESTS + "one fixed marginal per family and the independence case.",
  [CO], [("copulaWrap and the copula formulas", CO)], ["copula(params)"],
  "bounded exhaustive enumeration of marginals and parameters against independent copula formulas",
  "Marginals are all words over weight alphabets; parameters inside the documented open intervals.")
P("C18", "Poisson and Skellam cumulative probabilities are right with derivatives",
  "poisson_vector, skellam_frame, poisson_cdf, poisson_mid_cdf, skellam_cdf (direct and inverse) and skellam_cdf_pair "
  "return the probabilities, to the requested tolerance, of the Poisson variables and of the difference (second minus "
  "first), with their derivatives with respect to the rates, for rates of any magnitude and any threshold.",
  ["inputs"], "every rate (pair), threshold and tolerance of the alphabets",
  TESTS + "only the root finders at one point.",
  [SK], [("cdf functions and frame sizes", SK)], ["returned probability and derivatives"],
  "enumeration of all outcomes far into the tails against the real functions",
  "Rates from an alphabet between 0.01 and 300; tolerances 1e-4 to 1e-12.")
P("C19", "Root finders invert the distribution functions or raise",
  "poisson_cdf_root, skellam_cdf_root and conditional_skellam_cdf_root return positive rates that reproduce the target "
  "probabilities to the tolerance whenever some rate gives them (with probabilities not within 0.1% of 0 or 1, 1% for "
  "the Skellam pair), and raise ValueError for targets outside the open unit interval (simplex).",
  ["inputs"], "every target, threshold and tolerance of the alphabets",
  TESTS + "one target per function.",
  [SK], [("poisson_cdf_root, skellam_cdf_root, conditional_skellam_cdf_root", SK)], ["returned rates, exceptions"],
  "enumeration of targets on the real root finders, with the probabilities recomputed by summing all outcomes",
  "Targets from a grid and from every pair of rates of an alphabet.")
P("C20", "Preprocessing puts every observation in its cell and nowhere else",
  "prepare_series and prepare_dataframe return, for any sequence of observations, axes that hold every label once in "
  "sorted order (with the added ones) and arrays whose every cell is the transformation of exactly the observations of "
  "that combination of labels, zero where there is none; the order of the observations is irrelevant; weights multiply "
  "results. df_count marks each observation's value once. The inputs are not modified.",
  ["inputs", "histories"], "every sequence of observations up to a length, index structures, added labels",
  TESTS + "one data file, complete or nearly so.",
  [PP], [("prepare_series, prepare_dataframe, df_count", PP)], ["returned arrays and axes"],
  "exhaustive exploration of observation sequences in lockstep with a reference aggregation",
  "The place of the overflow column of df_count is a listed known finding.")
P("C21", "CollapseMatrix sums exactly the cells that satisfy each condition",
  "For any frame (with any feature axes) and any list of conditions sgn(A x + B y + C) = s, CollapseMatrix returns the "
  "sums of the cells that satisfy each condition, in order; by default these are x > y, x = y, x < y. Its gradient "
  "selects these cells and its Hessian is null; complementary conditions partition the mass.",
  ["inputs", "configurations"], "every frame size, feature shape and condition (pairs of conditions) of an alphabet",
  TESTS + "the default conditions on square frames.",
  [MX], [("CollapseMatrix value and grad", MX)], ["f(params), f.grad, f.eval"],
  "enumeration of all cells x conditions against the real function",
  "Coefficients between -1 and 2, frames up to 4 x 4 (6 x 6 in thorough).")
P("C22", "Evaluating functions leaves no trace",
  "Calling a function, its gradient, Hessian or eval, in any order, any number of times, at any parameter points "
  "(also when the same array objects get new values), and building other functions from it, never changes the "
  "function, the parameters or results returned before: every evaluation depends on its parameters only.",
  ["histories", "programs"], "every expression, every pair (triple) of consecutive evaluations at two points",
  TESTS + "each function once or twice, on one parameter object.",
  [FB, FO, FU, SI, PR, MX, T], [("function evaluation", "maxlike/func/")], ["results of repeated evaluations"],
  "exhaustive exploration of evaluation histories (de Bruijn words over all letters) on the real functions",
  "Parameters must also stay writable.")
P("C23", "An estimator owns its state and does not touch its caller's",
  "Whatever the caller later writes into the arrays and lists it passed to add_param, fit, add_constraint or "
  "add_regularization, or into the arrays returned by get_params, fisher_matrix or error_matrix, no later answer of "
  "the estimator changes; and the estimator never modifies, nor makes unusable, those arrays.",
  ["histories"], "every sequence of fits, queries, resets and writes of the caller up to a length",
  TESTS + "no reuse of any array.",
  [M], [("Param, fit, get_params", M)], ["estimator answers", "arrays of the caller"],
  "exhaustive exploration of interleavings of estimator operations and caller writes against a private reference",
  "All words up to length 3 (4 in thorough) over eleven letters, five (ten) problems.")
P("C24", "Functions and tensors keep no hold on what they were built from",
  "Functions and tensors are fixed when they are built: whatever the caller later writes into the arrays, lists and "
  "axis maps it gave to a constructor, operator or add, into the parameter arrays it evaluated with, or into the arrays "
  "it received, every object keeps its values and every result received before stays what it was; and the caller's "
  "arrays are neither modified nor made read-only.",
  ["histories", "configurations"], "every constructor, every sequence of evaluations and writes up to a length",
  TESTS + "no reuse of any array.",
  [T, FB, FO, FU, MX], [("constructors", "maxlike/func/"), ("Tensor", T)], ["values, gradients, Hessians, caller arrays"],
  "exhaustive exploration of interleavings of evaluations and caller writes against objects built from private copies",
  "All words up to length 3 (5 in thorough) over seven letters, %d kinds of objects." % 57)
P("C25", "Functions written by the user combine like the library's own",
  "A user may write a function as a subclass of Func that returns its value, gradients and Hessians as tensors, in any "
  "valid representation (all axes spelled out, derivatives tied to the features by axis maps, its own eval, Hessians "
  "defined for i >= j only). Sums, products, quotients, compositions and the like built from such functions return the "
  "same values, gradients, Hessians and eval as if the library's own function stood there.",
  ["programs", "configurations"], "every expression, every leaf of it, every representation",
  TESTS + "no function of the user's own.",
  [FB, FO, FU, T], [("Func and the operators", FO), ("FuncWrap, eval", FB)], ["f(params), f.grad, f.hess, f.eval"],
  "bounded exhaustive enumeration of expressions x replaced leaves x representations against reference jets",
  "Expressions of the families of C04 (every k-th), every single leaf replaced in every applicable way.")

P("C26", "Overlapping uses of shared functions do not interfere",
  "One function object may be used in several places at once: several times inside one expression, in several "
  "expressions, in several estimators, in several threads. Whatever the order in which such uses alternate, an evaluation "
  "returns what it returns alone, and a fit ends where it ends alone.",
  ["schedules", "programs", "histories"],
  "every line at which one evaluation or fit can be suspended while another one runs",
  TESTS + "one evaluation at a time, with objects of its own.",
  [FB, FO, FU, T, M], [("Func and the operators", FO), ("fit", M)],
  ["the results of f(params), f.grad, f.hess, f.eval and of fit, alone and suspended"],
  "stateless model checking of the real code under a line-level scheduler: all single-switch schedules",
  "All switching lines with one complete inner evaluation; one switch per thread for the pairs of short evaluations.")
P("C27", "Building further functions does not change the ones they are built from",
  "However a set of functions is built step by step (operators, composition, Collapse, new sums and products, terms and "
  "factors added later, the same function used many times, a sum added to itself), every function is at every moment what "
  "its own construction says: adding to a sum or product changes no function that it was built from, and no function that "
  "was made from the same parts.",
  ["histories", "programs"], "every construction history up to a depth",
  TESTS + "a few models, each built once.",
  [FO, FB], [("Sum.add, Product.add", FO), ("operators, Affine, Compose", FB)], ["f(params), f.grad, f.hess, f.eval of every object"],
  "exhaustive exploration of construction histories on the real objects against one reference expression per object",
  "All histories of three steps over five initial functions.")

P("C28", "Entry-wise functions of tensors are the functions of the dense arrays",
  "A function applied entry by entry to a tensor (exp, log, square, gamma, gammaln, expit, logit, tanh, arctan, maximum, "
  "minimum, powers, or any other numpy or scipy ufunc, in every way of calling one) gives the tensor whose dense expansion "
  "is the function of the dense expansions of the operands, with their ranks, extra axes told apart from feature axes; or "
  "it raises an exception. It is never a wrong tensor, and the operands do not change. The functions named above are not "
  "refused on tensors without parameter axes. Arrays stand for values over the features, as in arithmetic.",
  ["inputs", "configurations"], "every structure of tensor and every function",
  TESTS + "none of these on tensors with parameter axes, axis maps or different ranks.",
  [T], [("Tensor.__array_ufunc__, __pow__", T), ("GenericTensor.__array_ufunc__", T)],
  ["the value, rank and dimensions of the result, or the exception"],
  "bounded exhaustive enumeration of tensor structures x functions x ways to call them against the dense functions",
  "All structures with axes of size 1 to 2 (thorough: 3), all ufuncs of numpy and scipy.special of one or two arguments.")

P("C29", "The working type of tensors is the one chosen last",
  "set_dtype chooses the type of the tensors made from then on, results of operations on earlier tensors of any type "
  "included (unless a type is given for a tensor), until the next call; unknown names are refused and change nothing. It "
  "changes no tensor made before, and nothing but the precision of what is computed: in every type, operations and "
  "functions give the results of 64-bit arithmetic up to the precision of the types involved, and after switching back "
  "the same function objects give the results of before.",
  ["histories", "configurations"], "every sequence of types, with tensors of all of them in use",
  TESTS + "no other type than the default one.",
  [T, FB, FO, FU], [("set_dtype, Tensor", T)],
  ["values and types of tensors, the results of functions"],
  "exhaustive exploration of words of set_dtype calls and operations on the real objects against dense 64-bit arithmetic",
  "All words of two calls in all spellings, of three calls over four; six tensor structures, every leaf function.")
P("C30", "Every accepted form of the numbers means the same",
  "Numbers may be given as arrays of any memory layout (C or Fortran order, strided or reversed views, read-only) and of any "
  "numeric type that holds them (integers, single precision), and data, initial values and fixed entries also as lists, "
  "tuples, pandas objects and masked arrays; fixed entries as booleans or as 0 and 1, or None or False for none. Fits, "
  "queries, functions, derivatives and tensors give the same results for every form, those of plain float64 arrays, and "
  "what was given is not changed.",
  ["inputs", "configurations"], "every combination of forms of the arguments",
  TESTS + "contiguous float64 arrays (and lists for the initial values) only.",
  [M, FB, FO, FU, T], [("add_param, fit", M), ("grad_tensor, hess_tensor", FB), ("Tensor", T)],
  ["fit, the queries, f(params), f.grad, f.hess, f.eval, operations on tensors"],
  "bounded exhaustive enumeration of pairs of forms on the real objects against the plain form and the reference jets",
  "All pairs of forms of the data, and of the initial values and fixed entries; every leaf, every 11th expression.")
