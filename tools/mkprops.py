#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles, statements)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "maxlike/tensor/tensor.py"; FB = "maxlike/func/func_base.py"; FO = "maxlike/func/func_op.py"
FF = "maxlike/func/func.py"; FP = "maxlike/func/func_proba.py"; FM = "maxlike/func/matrix.py"
FS = "maxlike/func/sigmoid.py"; FT = "maxlike/func/tennis.py"; FC = "maxlike/func/copula.py"
MB = "maxlike/maxlike_base.py"; ML = "maxlike/maxlike.py"; PP = "maxlike/preprocessing.py"; SK = "maxlike/skellam.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Tensor arithmetic equals dense-array arithmetic",
 "For tensors in every compressed layout (diagonal mappings on either derivative block, missing blocks, broadcast axes, sums kept unmerged), converting the result of +, -, *, / or negation to a dense array gives exactly the dense arithmetic on the converted operands, whether the other operand is a tensor, a number or a numpy array, on either side. Products and quotients are covered whenever an operand has no derivative block, the operands carry different derivative blocks, or share one mapping layout. The same holds for powers of a tensor, for the supported elementwise functions (exp, log, square, tanh, arctan, expit, logit, gamma, gammaln, maximum, minimum) of a tensor without derivative blocks, and for an unmerged sum built from given terms.",
 ["inputs", "programs"], "all operand layouts with up to 2 axes per derivative block, 3 feature axes, 2 value axes; all chains of operations over them",
 "tensor_test uses seven fixed 3x3 tensors; axis mix-ups cancel on square shapes and most mapping/shape combinations are never built",
 [T], [("binary operation dispatch, merging and diagonal alignment", T + ": Tensor.bin_op, GenericTensor.bin_op")],
 [("values/x_map/y_map", "compressed array and diagonal mappings", T + ": Tensor")], ["toarray()", "x_dim/y_dim/n/dim"])

prop("C02", "Tensor reshaping operations equal their dense counterparts",
 "Summing features and/or value axes, expanding and permuting feature or value axes, flipping, swapping the two derivative blocks and turning value axes into feature axes, and adding missing blocks of size one each commute with conversion to a dense array, and report the dimension counts of the dense result. This holds for every compressed layout, including unmerged sums whose terms have different (broadcast) shapes.",
 ["inputs", "programs"], "all layouts as in C01, all axis subsets / permutations / flip sets, chains of operations",
 "tests sum, flip and expand only a few square tensors and never transpose a tensor with unequal or multi-axis derivative blocks",
 [T], [("sum with diagonal-aware axis swapping", T + ": Tensor.sum, GenericTensor.sum"), ("expand/flip/transpose/drop_dim", T)],
 (), ["toarray()", "x_dim/y_dim/n/dim"])

prop("C03", "Tensor contraction equals the dense inner product",
 "Contracting a derivative tensor with another (vector side, matrix side, or the auto-dispatching form) yields the dense inner product over the shared axes, with the remaining derivative, feature and value axes in their documented order. It holds for every combination of diagonal mappings and for sums of tensors on either side.",
 ["inputs", "programs"], "all layouts of both operands with up to 2 contracted axes, 2 derivative axes per block, 2 extra feature axes, 1 value axis",
 "tests contract four fixed square tensors, and the code marks a branch as not covered",
 [T], [("contraction with mapping composition", T + ": dot, dot_left, dot_right, compose_mappings")], (), ["toarray()"])

prop("C04", "Tensors and parameters are immutable and every operation is pure",
 "No operation on tensors, parameters, functions or models changes the observable content of its operands: after any history of calls, every previously created tensor, parameter, function result and user-supplied data array still has its original values, shape and layout. Attempts to rebind, delete or write through the public attributes of a tensor or parameter fail without effect.",
 ["histories"], "all interleavings of operations over a growing pool of shared objects",
 "tests build fresh operands for each assertion and never look at an operand again after using it",
 [T, MB, FO], [("read-only arrays and blocked attribute assignment", T + ": Tensor.__init__, BaseTensor.__setattr__; " + MB + ": Param")],
 (), ["values", "attributes of all live objects after each call"])

prop("C05", "Model functions evaluate to their mathematical definition",
 "Any function built from the library's primitives and combinators (affine, weighted sum, product, composition, collapse, with arbitrary nesting and parameter / feature / value-axis mappings) evaluates, at any parameters in its domain, to the value obtained by applying the mathematical definitions pointwise. Restructuring done while building (merging affine terms, flattening nested sums and products) never changes that value.",
 ["programs", "inputs"], "all expression trees up to a depth bound over all primitives, with random parameters and mappings",
 "func_test never checks a value against an independent definition; the regression tests pin a dozen fixed models",
 [FB, FO, FF, FP, FS], [("combinators", FO + ": Sum, Product, FuncWrap, Collapse; " + FB + ": Affine, Compose"), ("primitives", FF + ", " + FP + ", " + FS)],
 (), ["function call result as dense array"])

prop("C06", "Function gradients are the exact first derivatives of the value",
 "For every function built from the library's primitives and combinators and for each of its parameters, the gradient tensor equals the exact first derivative of the function's value with respect to every entry of that parameter, including zero derivatives for parameters the function does not use. ",
 ["programs", "inputs"], "all expression trees up to a depth bound, all parameters, random points",
 "no test compares a gradient of a function with a derivative; only the end points of a few fits depend on it",
 [FB, FO, FF, FP, FM, FS], [("chain/product rule on compressed tensors", FB + ": Compose.grad; " + FO + ": Product.grad, FuncWrap.grad")],
 (), ["grad(params, i) / grad(params) as dense arrays"])

prop("C07", "Function Hessians are the exact second derivatives of the value",
 "For every function built from the library's primitives and combinators and each pair of its parameters, the Hessian block equals the exact matrix of second derivatives of the value, with the blocks' axes in parameter order and mixed blocks consistent with the symmetry of second derivatives. ",
 ["programs", "inputs"], "all expression trees up to a depth bound, all parameter pairs, random points",
 "no test compares a Hessian with second derivatives; a wrong block usually still lets a fit converge to the same point",
 [FB, FO, FF, FP, FM, FS], [("second-order chain/product rule", FB + ": Compose.hess; " + FO + ": Product.hess, FuncWrap.hess")],
 (), ["hess(params, i, j) / hess(params) as dense arrays"])

prop("C08", "Single-pass evaluation agrees with separate value, gradient and Hessian",
 "For every function and every parameter point, the combined evaluation returns the same value, one gradient per parameter and the same lower-triangular Hessian as the exact value and its exact first and second derivatives, hence as the separate calls. Passing the parameters as a tuple, a list or (for one parameter) bare makes no difference.",
 ["programs", "inputs"], "all expression trees up to a depth bound, random points, every calling convention",
 "func_test compares the two paths on ten shallow trees; specialised combined paths for linear pieces, offsets and reordered parameters are not reached",
 [FB, FO, FF, FP, FM, FS], [("specialised eval implementations", FB + ": FuncMeta, Affine.eval, Compose.eval; " + FO + ": FuncWrap.eval, Sum.eval, Product.eval")],
 (), ["eval(params)"])

prop("C09", "Model likelihoods equal the log-probability of the data",
 "For each distribution (Poisson, zero-inflated Poisson, logistic, negative binomial, finite and normalised finite) the likelihood of aggregated data at any predictor equals the sum over all observations of the log-probability the distribution documents (up to the data-only constants it documents), and is additive over cells and over merged data sets. Empty cells contribute nothing.",
 ["inputs"], "all small data grids, predictors and distribution constants",
 "each distribution is exercised on one data set through a converged fit; the likelihood value itself is asserted for Poisson only",
 [ML], [("log-likelihoods", ML + ": like of each class")], (), ["like(params, y)", "g(params)"])

prop("C10", "Likelihood gradient and Hessian are exact derivatives of the likelihood",
 "For each distribution and any model function, the likelihood gradient and Hessian with respect to every parameter are the exact first and second derivatives of that distribution's likelihood, for any data, whether or not the point is near an optimum.",
 ["inputs", "programs"], "all distributions, data grids, model trees and parameter points up to the bounds",
 "tests see derivatives only near the optimum of one data set per distribution, where first-order terms vanish",
 [ML], [("grad_like/hess_like", ML)], (), ["grad_like", "hess_like"])

prop("C11", "Penalised objective and its flat gradient and Hessian are assembled correctly",
 "For any set of parameters (with any entries fixed), constraints and regularisation terms over any parameter lists in any order, the objective is the mean penalised log-likelihood, the flat gradient lists the derivatives of the total (not averaged) penalised log-likelihood for the free entries followed by the constraint residuals (with nonzero multipliers: of the Lagrangian), and the flat Hessian is the symmetric matrix of its second derivatives over the free entries bordered by the constraint gradients.",
 ["configurations", "inputs"], "all combinations of up to 3 parameters, fixed masks, constraints and regularisers at random points",
 "tests use one linear constraint over ascending parameters, one regulariser and two masks, and never look at the assembled arrays",
 [MB], [("assembly of gradient / bordered Hessian", MB + ": g, flat_grad, flat_hess")], (), ["g", "flat_grad", "flat_hess"])

prop("C12", "Parameter structure and fixed entries survive every operation",
 "After any sequence of adding parameters and fitting, successful or not, each parameter keeps its shape and its fixed mask, fixed entries keep exactly the value they were given, free entries are placed back at their own positions, and reported parameters expose exactly the fitted values with the fixed entries masked.",
 ["histories", "configurations"], "all masks over small parameter shapes, histories of add / fit / refit with either method",
 "one test fixes one entry in each of two vectors and compares only the non-fixed entries",
 [MB], [("flatten / scatter of free entries", MB + ": Param, _reshape_array, fit, get_params")], (), ["get_params()", "params evaluated by the model during fit"])

prop("C13", "Newton fitting follows its documented protocol",
 "Each Newton iteration tries the full step and then at most four successive halvings, moves to the first trial whose objective is not lower, and stops successfully once the relative objective change is within the tolerance; the objective at accepted points never decreases. If no trial is acceptable or the step budget is exhausted a convergence error is raised, with the line-search failure distinguishable by its type, and the stored parameters are left untouched; an unknown method is rejected with ValueError.",
 ["histories", "fault_sequences"], "all patterns of better / equal / worse / undefined trial objectives over up to 3 iterations, all tolerances and budgets in range",
 "every test converges with full steps; line search, failures, budgets and refits never run",
 [MB], [("Newton loop with step halving", MB + ": fit, newton_step")],
 [("params", "current estimates, replaced only on success", MB + ": MaxLike.params")], ["points at which the model is evaluated", "return value / exception", "get_params()"])

prop("C14", "Broyden fitting follows its documented protocol",
 "The Broyden method steps from the current point with an inverse-Hessian estimate that starts from the exact Hessian (or, while the model is still marked converged by an earlier Broyden fit, from the matrix left by its last successful fit of the same size) and is updated to satisfy the secant condition; it stops successfully once the relative objective change is within tolerance, stores the parameters, and marks the model converged. On an exhausted budget or any error raised while evaluating, the error propagates, the model is marked not converged, and the stored parameters are untouched, at every verbosity level.",
 ["histories", "fault_sequences"], "all small scripted objectives, errors raised at each evaluation, histories of fits mixing methods",
 "one test runs one converging Broyden fit",
 [MB], [("quasi-Newton loop", MB + ": fit")],
 [("converged/flat_hess_", "warm-start state carried between fits", MB + ": MaxLike")], ["points at which the model is evaluated", "converged", "get_params()"])

prop("C15", "A successful fit is a constrained stationary point of the data's likelihood",
 "When a fit reports success, the penalised likelihood's gradient over the free parameters is, within the tolerance's reach, a combination of the constraint gradients and the constraints hold; for the canonical models the fitted means reproduce the observed totals. Relabelling categories, splitting or duplicating observations, or starting from another feasible point leads to the correspondingly relabelled, same estimates.",
 ["inputs", "histories"], "all small data sets and starting points drawn within bounds, every distribution",
 "tests pin the end point of a fit on one data set per distribution and one starting point",
 [MB, ML], [("Newton/Broyden iteration", MB + ": fit")], (), ["get_params()", "g"])

prop("C16", "Uncertainty outputs are consistent with the fitted bordered Hessian",
 "After a successful fit the information matrix blocks are the second derivatives of the objective used by the last step, the error matrix is the corresponding block of the negated inverse of the constraint-bordered Hessian, and the standard errors are the square roots of its diagonal, for any number of constraints including none. Every block has its parameters' shapes, fixed entries carry no finite error, and transposing a block gives its mirror.",
 ["configurations", "inputs"], "all small models with masks and zero to two constraints",
 "tests compare standard errors of pinned fits with exactly one constraint",
 [MB], [("block reshaping and inversion", MB + ": fisher_matrix, error_matrix, std_error, _reshape_matrix")], (), ["fisher_matrix()", "error_matrix()", "std_error()"])

prop("C17", "Information criteria follow their formulas",
 "The Akaike and Bayesian criteria equal 2k/(n-k-1) - 2l and k ln(n)/n - 2l, where n is the total number of observations, l the mean objective at the current parameters, and k the number of free parameter entries plus any extra parameters minus the number of constraints.",
 ["configurations", "inputs"], "all masks, constraint counts, extra-parameter counts and data sizes within bounds",
 "three regression tests pin the values for one configuration each",
 [MB], [("criteria", MB + ": akaine_information_criterion, bayesian_information_criterion")], (), ["criteria return values"])

prop("C18", "Series preparation aggregates every observation into exactly one grid cell",
 "Preparing a series returns, for every requested aggregate, a grid over the sorted labels of each index level (plus any added labels) in which each cell holds that aggregate of exactly the observations carrying its labels and zero where there are none. No observation is lost, duplicated or misplaced, whatever the row order, label types, duplicates, unused labels or index depth.",
 ["inputs"], "all small multisets of labelled observations with one to three index levels, in every row order, with added labels",
 "tests feed complete integer-labelled files in one order",
 [PP], [("group, reindex, reshape", PP + ": prepare_series")], (), ["returned arrays and axes"])

prop("C19", "Weighted frame preparation aggregates every row into exactly one grid cell",
 "Preparing a weighted frame returns, for every cell of the label grid (sorted labels plus any added), the total weight of exactly the rows carrying its labels and each requested aggregate of their weight-times-result products, and zero where there are none. The outcome does not depend on row order, and the caller's frame is left unchanged.",
 ["inputs"], "all small weighted frames with two or three index levels, in every row order, with added labels",
 "one test uses one complete file with one aggregate",
 [PP], [("weighted group, reindex, reshape", PP + ": prepare_dataframe")], (), ["returned arrays and axes"])

prop("C20", "Count encoding marks exactly one class per observation",
 "Encoding a series of counts with a given number of classes yields one row per observation, in order and with its index, containing exactly one true entry: the column labelled with its count, or the last column when the count reaches or exceeds the last label.",
 ["inputs"], "all small count series and class numbers",
 "the encoding is only used as a step of two fits with pinned results",
 [PP], [("one-hot encoding with overflow class", PP + ": df_count")], (), ["returned frame"])

prop("C21", "Copulas return the joint distribution with the given margins",
 "For every copula family, admissible parameter and pair of (possibly unnormalised) marginal mass vectors, the result is a non-negative array summing to one whose margins are the normalised inputs and whose cumulative sums equal the family's copula function of the marginal cumulatives; degenerate parameters give independence and the families are symmetric in their arguments. Leading batch axes are handled elementwise.",
 ["inputs", "configurations"], "all families, parameter ranges and small margins, with and without batch axes",
 "tests use one pair of margins and one or two parameters per family",
 [FC], [("cumulate, apply copula, difference", FC + ": copulaWrap and the families")], (), ["returned joint array"])

prop("C22", "Markov functions give the law of the score walk and its exact derivatives",
 "For every size, number of steps, skew and pair of rates, the Markov matrix (two scores) and vector (score difference) functions return the exact distribution after that many independent single-increment steps of the walk, absorbed at the edges, and their gradient and Hessian are its exact derivatives. Probabilities are non-negative and sum to one for every feature cell.",
 ["inputs", "configurations"], "all small sizes, step counts, skews and rates, with and without feature axes",
 "tests use two sizes with unit skew and check only eval against itself or a fitted end point",
 [FM], [("in-place forward recursions", FM + ": MarkovMatrix, MarkovVector")], (), ["value, gradient and Hessian arrays"])

prop("C23", "Outcome collapse sums exactly the cells meeting each condition",
 "Collapsing a two-dimensional score frame gives, for each condition (default: first greater, equal, smaller; or the user's own list), the sum of exactly the cells whose linear form a*row + b*column + c has the required sign, with the exact linear derivative, for any frame shape and any feature axes.",
 ["inputs", "configurations"], "all small frame shapes and condition lists, with up to two feature axes, alone and composed",
 "tests use only the default conditions on square frames inside two fits",
 [FM], [("conditional summation", FM + ": CollapseMatrix")], (), ["value and gradient arrays"])

prop("C24", "Tennis functions match point-by-point scoring",
 "The game, tie-break and set functions return, for every point (or game and tie-break) winning probability, the exact probability that the scoring automaton ends in each listed winning score, with exact first and second derivatives; a player's and the opponent's outcomes together sum to one. This holds cell by cell for scalar, vector and matrix probabilities.",
 ["inputs"], "all probabilities on a grid inside (0,1), arrays of 0 to 2 axes, derivatives included",
 "one fit pins the set model on an antisymmetric problem in which several mistakes cancel",
 [FT], [("closed-form score polynomials", FT + ": Game, TieBreak, Set")], (), ["value, gradient and Hessian arrays"])

prop("C25", "Poisson and Skellam distribution functions and derivatives are exact",
 "The Poisson and Skellam cumulative functions (plain, mid-point, one-sided, paired) return, with every argument in range, the distribution's probability within the truncation tolerance together with its exact derivatives with respect to the rates.",
 ["inputs"], "all rates and thresholds on a grid, all tolerances in range, both tail directions",
 "tests evaluate one point of each",
 [SK], [("truncated series", SK + ": poisson_vector, poisson_cdf, poisson_mid_cdf, skellam_cdf, skellam_cdf_pair, tol2size")], (), ["returned value and derivatives"])

prop("C26", "Distribution inversions return a root within tolerance or raise",
 "Inverting the Poisson, Skellam or conditional Skellam distribution returns positive rates whose exact distribution value is within the requested tolerance of the target, or raises an error, in a bounded number of steps. It does return for every target that moderate rates attain outside the extreme tails, and it raises for every target that no rates attain (ValueError when it is outside the range of probabilities); a solver never returns an error object, exhausts the memory or runs forever.",
 ["inputs"], "all attainable targets on a grid of rates and thresholds, plus infeasible targets",
 "tests invert one target each",
 [SK], [("damped Newton root finding", SK + ": poisson_cdf_root, skellam_cdf_root, conditional_skellam_cdf_root")], (), ["returned rates / raised error"])

prop("C27", "Tensor requests without a dense meaning are refused",
 "A request on tensors that has no dense meaning - arithmetic between tensors whose derivative blocks, features or value axes differ in number (both being present) or clash in size, with an array of another shape or with something that is not a number, division by the number zero or by a sum kept unmerged, summing a feature that does not exist, expanding to too few axes or with the wrong number of positions, contracting over a block with another number of axes, declaring a block mapped on a feature that is absent or of another size, taking a tensor of several cells as one number - raises an exception, at the latest when the result is converted to a dense array; it is never answered with some tensor. Requests that do have a meaning but that the library does not support (functions of tensors with derivative blocks or of unmerged sums, other ufuncs, mappings given otherwise, wrapping a tensor with derivative blocks) are refused or answered exactly. The operands keep their content in either case.",
 ["inputs", "histories"], "all meaningless requests over tensors in all layouts as in C01, after any chain of operations",
 "tests call the operations with operands that fit; not one asserts that a tensor operation raises, and numpy broadcasting silently answers most misfits with an array of some shape",
 [T], [("shape and dimension guards", T + ": Tensor.__init__, bin_op, expand, dot, dot_left, dot_right, __array_ufunc__")], (), ["exception or result", "toarray()"])

prop("C28", "Parts of a model with arguments outside their domain are refused",
 "Building or first evaluating a part of a model with arguments outside of its domain raises an exception, and inside its domain succeeds and is honoured: copula parameters (Gaussian and Ali-Mikhail-Haq in [-1, 1], Clayton positive, Gumbel at least 1, Frank non-zero); Markov rates, which must be of one shape, positive in every cell and together below the number of steps, whether the value, a derivative or all at once are asked for; the size of a Markov vector (positive); the inflation of a zero-inflated Poisson (not negative); sigmoid names (logistic and arctan, in any case of letters, giving the logistic function and arctan/pi + 1/2); weights of Linear; parts of sums, products and wraps that are not functions, that refer to missing parameters, or whose features or value axes are placed in the wrong number or beyond those of the whole; axis maps of derivative tensors; observations that are not a Series; and fixed-entry masks whose shape is not that of the parameter's values. A refused parameter leaves the model with the parameters, values and fixed entries it had.",
 ["inputs", "histories"], "all arguments on either side of every boundary and all histories of up to three granted and refused parameters",
 "the tests build parts with fitting arguments only; no test asserts that any of these requests raises, and without the guard most of them are answered with plausible numbers",
 [FC, FM, FS, FO, FB, FF, ML, MB, PP], [("constructor and evaluation guards", FC + ": __init__; " + FM + ": __call__, eval; " + MB + ": Param, add_param; " + FB + ": grad_tensor, hess_tensor")],
 (), ["exception or result", "get_params()"])

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        f.write(json.dumps(p) + "\n")
