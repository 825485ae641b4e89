prop("P09", "Samples are drawn afresh around each point, and points do not mix",
     "The resampling loss draws, at every evaluation, a fresh set of the configured number of samples around the batch it is given "
     "(around the previous centre when asked to keep it), building its sampler there if it has none; the presampled loss uses exactly the samples given to it, remembers them "
     "for later evaluations, never draws by itself and refuses to work without any. "
     "The contribution of a data point depends on that point and its own samples only: the robust loss of a batch is the "
     "average (or sum) of those of its parts, whatever their size and order, and does not depend on the order of the samples.",
     ["inputs", "configurations", "histories"],
     "every batch partition, permutation and repetition, number of samples, loss, cost, reduction and history of evaluations",
     "the tests evaluate whole batches once; mixing between rows, stale samples or a stale centre leave plausible values",
     [S + "oracle_torch.py", DI + "dual_loss.py", B + "samplers/torch/base_samplers.py"],
     [("resampling", S + "oracle_torch.py DualPostSampledLoss.forward"), ("stored samples", S + "oracle_torch.py DualPreSampledLoss.forward")],
     ["values of the robust loss", "calls received by the sampler"],
     [("current_samples", "samples remembered by the presampled loss", S + "oracle_torch.py")])

prop("P10", "The initial multiplier is the optimal one of the linearised problem",
     "Initialising the multiplier from a batch sets it to (mean_i |grad L(x_i)|^q)^(1/q) / (p*rho^(p-1)), with the norm dual to the "
     "ground norm and q conjugate to the cost's power p > 1 (for p = 1 it is only positive and finite), and to 0 at radius 0. "
     "It does not depend on the former multiplier, the samples, the order of the rows or their repetition, and leaves model and gradients alone.",
     ["inputs", "configurations", "histories"],
     "every differentiable loss, ground cost, radius, batch and former state",
     "the tests only see the end of the optimisation, where a wrong starting point is mostly forgotten",
     [DI + "dual_loss.py", B + "costs_torch/normcost.py"],
     [("initial guess", DI + "dual_loss.py get_initial_guess_at_dual")],
     ["the multiplier after initialisation"])

prop("P11", "The stopping criterion follows its documented tests and keeps no memory",
     "The criterion stops when the monitored blocks (theta, lambda, theta_and_lambda, theta_or_lambda) satisfy their tolerance "
     "strictly, in the requested norm, relatively to the first gradient or first displacement or absolutely, for the gradient or "
     "the parameter metric, or when the number of training steps is reached; a tolerance <= 0 never stops, and a call without "
     "anything to compare with never does either. "
     "A criterion that is reused for another solve behaves like a new one and never modifies the parameters; unknown names and missing "
     "gradients raise ValueError.",
     ["histories", "configurations"],
     "every combination of order, metric, mode, monitoring and tolerances, and every sequence of observed gradients and parameters",
     "the tests run a handful of long optimisations; when exactly the criterion fires, and its memory from one solve to the next, is not observed",
     [S + "optim_cond.py"],
     [("tests", S + "optim_cond.py OptCondTorch.__call__")],
     ["return value of the criterion at each call"],
     [("first/previous observations", "references of relative tests", S + "optim_cond.py")])

prop("P12", "A solve runs its announced steps, stops when told to and returns that state",
     "A solve performs the pretraining steps on the empirical risk, initialises the multiplier from the pretrained model, then up to the "
     "number of training steps on the robust loss (n alone means int(0.3*n) and n), consulting the criterion once after each training step "
     "with consecutive numbers from 0; presampled solves train on samples drawn once, around the data of the solve. "
     "It stops right after the criterion says so or after a loss that is NaN (with a warning), and returns the parameters and multiplier "
     "(0 at radius 0) reached at that point with the last robust loss.",
     ["histories", "configurations"],
     "every number of steps, stopping time, divergence time, pre/post sampling and radius",
     "the tests only look at final scores: skipped, repeated or misordered steps still converge",
     [S + "entropic_dual_torch.py", S + "utils.py"],
     [("main loop", S + "entropic_dual_torch.py solve_dual_wdro")],
     ["calls to the loss, optimiser, sampler and criterion", "returned values and warnings"])

prop("P13", "The multiplier is never negative and is zero at radius zero",
     "During and after any solve, and after any optimiser step however large the gradients, the multiplier of the robust loss is "
     "nonnegative, for every optimiser and both sampling modes. "
     "At radius 0 it is exactly 0 and stays so, including in the values returned by the solvers.",
     ["histories", "configurations"],
     "every optimiser, learning rate, number of steps, sequence of gradients, loss, cost and radius",
     "the tests never look at the multiplier along the iterations, and on their data it stays well inside the positive half-line",
     [S + "oracle_torch.py", S + "entropic_dual_torch.py", DI + "dual_loss.py"],
     [("projection", S + "entropic_dual_torch.py"), ("clamping", S + "oracle_torch.py CompositeOptimizer.step")],
     ["the multiplier after every step and at the end of the solve"],
     [("lambda", "dual multiplier", DI + "dual_loss.py")])

prop("P14", "The adaptive optimiser treats model and multiplier independently",
     "A step of the adaptive (prodigy or mechanic) optimiser is exactly one step of such an optimiser on the model's parameters and one of "
     "a separate one on the multiplier, each with its own cosine schedule in the prodigy case, followed by a projection of the "
     "multiplier on the nonnegative numbers. "
     "Clearing gradients clears all of them, resetting the multiplier's state puts its optimiser back in its initial state without touching the model's, saved "
     "states can be restored, and other optimiser names are refused.",
     ["histories", "configurations"],
     "every sequence of gradients, steps, clearings, resets, saves and restores",
     "the tests run it only inside complete fits, whose final scores hide mixed up states, schedules or learning rates",
     [S + "oracle_torch.py"],
     [("composite step", S + "oracle_torch.py CompositeOptimizer")],
     ["parameters, multiplier and learning rates after each operation"],
     [("opts", "the two inner optimisers", S + "oracle_torch.py")])

prop("P15", "Hybrid optimisers step in the geometry asked for by each group",
     "A group marked for multiplicative updates performs its optimiser's step on the logarithms (and is then normalised to the simplex if "
     "asked), a nonnegative group is projected after the step, a maximised group ascends, a bounded group has its gradients "
     "clipped to [-100, 100], and other groups take the usual SGD or Adam step, momentum included; groups do not influence each other. "
     "Clashing rules in one group and nonpositive parameters under multiplicative updates are refused, parameters without gradient do not move, and "
     "a closure is evaluated once, at the actual parameters, and its value returned.",
     ["histories", "configurations"],
     "every assignment of rules to groups, optimiser setting and sequence of gradients",
     "the tests do not cover these optimisers",
     [S + "hybrid_opt.py"],
     [("rules", S + "hybrid_opt.py")],
     ["parameters after each step", "raised exceptions"])

LT = B + "losses_torch/"
LM = "skwdro/linear_models/"
OR = "skwdro/operations_research/"

prop("P16", "Primal losses compute their documented formulas sample by sample",
     "Every shipped loss (least squares, logistic, newsvendor, portfolio, facility location) and every user loss wrapped by the library gives, "
     "for each sample however the samples are stacked, exactly its documented value and gradients, finite at large margins, and the unstacked "
     "value is the average over the batch. The regularisation adds half its weight times the squared Euclidean norm of the parameters, "
     "only when the weight is positive. Losses that already reduce, missing or superfluous labels and nonpositive dimensions are refused.",
     ["inputs", "configurations"],
     "every loss, point and label of a grid, dimension, stacking of batch axes and regularisation weight",
     "the tests use these losses inside fits on random data, where wrong stackings, scalings or large-margin behaviour are averaged away",
     [LT + "base_loss.py", LT + "wrapper.py", LT + "logistic.py", LT + "quadratic.py", LT + "newsvendor.py", LT + "portfolio.py", LT + "weber.py"],
     [("formulas", LT), ("wrapping", LT + "wrapper.py"), ("regularisation", LT + "base_loss.py")],
     ["values and gradients of the losses", "raised exceptions"])

prop("P17", "A fit depends only on its parameters, seed and data, and alters neither",
     "Fitting an estimator twice with the same parameters, random_state and data gives the same results, whatever the state of the global "
     "random generators, earlier fits or uses of this or other estimators, cloning, or sharing of a stopping criterion, and whatever container, "
     "memory layout or numeric type holds the data. A fit modifies neither the data nor the constructor parameters; predicting, "
     "scoring and evaluating are repeatable and change nothing.",
     ["histories", "configurations", "inputs"],
     "every estimator and solver, every history of disturbances, refits, clones and uses up to a depth, every data representation",
     "the tests fit each estimator once in a fresh process; state leaking from one fit to the next is invisible to them",
     [LM + "_linear_regression.py", LM + "_logistic_regression.py", OR + "_newsvendor.py", OR + "_portfolio.py", OR + "_weber.py", S + "optim_cond.py"],
     [("fit", LM), ("seeding", "skwdro/wrap_problem.py"), ("criterion state", S + "optim_cond.py")],
     ["fitted attributes, predictions and scores", "data and parameters after the calls"])

prop("P18", "Linear regression predicts its affine map and is least squares at radius 0",
     "After a fit, predictions are row by row the affine map given by coef_ and intercept_ (zero when no intercept is fitted) of the last fit, and the "
     "score is the coefficient of determination; before a fit they raise NotFittedError. "
     "At radius 0 every solver ends at the least-squares solution, or at the ridge solution for half the regularisation weight on all coefficients "
     "and intercept for the solvers that regularise. With fit_intercept=False the model has no constant term.",
     ["configurations", "inputs", "histories"],
     "every solver, dimension, sample size, intercept option, query set, refit history and, at radius 0, regularisation and cost",
     "the tests compare solvers with each other on one random data set with loose tolerances",
     [LM + "_linear_regression.py", S + "specific_solvers.py", S + "entropic_dual_torch.py"],
     [("prediction", LM + "_linear_regression.py predict"), ("fit", LM + "_linear_regression.py fit")],
     ["coef_, intercept_, predictions, scores", "raised exceptions"])

prop("P19", "Robust classifiers obey the classifier laws, for any label names",
     "classes_ are the sorted distinct labels; probabilities are given per row in that order, nonnegative and summing to one, and the predicted "
     "label is the most likely one, for two or more classes. Renaming labels while keeping their order only renames predictions; only the last fit "
     "counts; unfitted use raises NotFittedError, a single class ValueError and more than two classes with the dedicated solver NotImplementedError. "
     "At radius 0 the binary solvers end at the optimum of the (regularised) logistic loss.",
     ["inputs", "configurations", "histories"],
     "every arrangement of labels on small designs, label alphabet, solver, query set and refit history",
     "the tests use one label alphabet and one random data set; class order mix-ups and stale encoders need other alphabets and refits",
     [LM + "_logistic_regression.py", LT + "logistic.py"],
     [("label encoding", LM + "_logistic_regression.py fit"), ("probabilities", LM + "_logistic_regression.py predict_proba")],
     ["classes_, predictions, probabilities, coef_", "raised exceptions"])

prop("P20", "Dedicated regression and classification solvers return the robust optimum",
     "The dedicated linear regression minimises the root mean squared error plus the radius times the Euclidean norm of the coefficients; the dedicated "
     "classifier minimises the worst-case logistic loss over the Wasserstein ball (labels practically fixed), and the announced robust loss and "
     "multiplier are those of that optimum. No other coefficients give a smaller objective, with and without intercept.",
     ["inputs", "configurations"],
     "every small design, response or label arrangement, radius and intercept option; every competitor on a lattice of directions and steps",
     "the tests check scores on one random data set, where slightly wrong objectives are unnoticeable",
     [S + "specific_solvers.py", LM + "_linear_regression.py", LM + "_logistic_regression.py"],
     [("dedicated programs", S + "specific_solvers.py")],
     ["coef_, intercept_, dual_var_, robust_loss_"])

prop("P21", "Dedicated newsvendor and portfolio solvers return the exact robust optimum",
     "The dedicated newsvendor order minimises the worst-case expected loss over demand distributions within the radius, supported on the nonnegative "
     "numbers; the dedicated portfolio lies in the simplex and minimises the worst-case mean-risk objective over return distributions within the "
     "radius and the given polyhedral support, and announces that value. The sample-average newsvendor orders minimise the average loss of the sample; "
     "no feasible decision does better.",
     ["inputs", "configurations"],
     "every small multiset of demands, scenario set, radius, prices, risk parameters, ground norm and box support; every decision on a lattice",
     "the tests solve a single random instance; support constraints, dual norms and tied demands matter elsewhere",
     [S + "specific_solvers.py", OR + "_newsvendor.py", OR + "_portfolio.py"],
     [("dedicated programs", S + "specific_solvers.py")],
     ["coef_, tau_, result_"])

prop("P22", "Estimators solve exactly the robust problem their parameters announce",
     "For every estimator and entropic solver name, the fitted result is that of building the robust loss with the announced loss, radius, cost, "
     "label weight, temperature, sampling scale, number of samples, regularisation, learning rate, steps and seed, and solving it with the announced "
     "sampling mode and criterion. Every parameter matters as documented, alone and together with others, and an omitted one takes its documented default. Invalid settings are refused: "
     "negative radius ValueError, non-numeric radius TypeError, the retired 'entropic' solver DeprecationWarning, unknown solvers NotImplementedError.",
     ["configurations"],
     "every single and paired deviation from the default parameters, for every estimator and solver name",
     "the tests vary one parameter at a time, mostly only checking that a fit succeeds; a parameter dropped on the way changes no test",
     [LM + "_linear_regression.py", LM + "_logistic_regression.py", OR + "_newsvendor.py", OR + "_portfolio.py", OR + "_weber.py", "skwdro/wrap_problem.py"],
     [("wiring", "fit of each estimator")],
     ["fitted attributes", "raised exceptions"])

prop("P23", "Robustifying a model uses the requested settings and the documented defaults",
     "The robust loss built from a user's loss and model uses the given radius, cost, temperature, sampling scale, number of samples, seed, steps, "
     "regularisation, reduction, learning rate and optimiser, shares (not copies) the user's parameters, and keeps the data's precision. "
     "Omitted settings take their defaults: scale rho/2 (1/2 at radius 0), temperature max(rho^(p-1)*2^-p/100, 1e-7), seed 42, 200+2800 steps "
     "resampling or 100+10 presampled, importance sampling for squared Euclidean costs only. Unknown optimisers, engines and malformed costs are refused.",
     ["configurations"],
     "every combination of given and omitted settings of a table, for both sampling modes, labels, costs and precisions",
     "the tests use defaults in fits whose scores are insensitive to them",
     ["skwdro/wrap_problem.py", "skwdro/torch.py", S + "oracle_torch.py"],
     [("defaults", "skwdro/wrap_problem.py expert_hyperparams"), ("wiring", "skwdro/wrap_problem.py dualize_primal_loss")],
     ["attributes, samples, values and steps of the robust loss", "raised exceptions"])

prop("P24", "The warm-up minimises the empirical risk, whatever the robustness settings",
     "During the warm-up phase of a solve the model follows exactly the steps of its optimiser on the plain empirical risk: they depend neither on the "
     "radius, temperature, samples, seed, cost nor on the multiplier. On least-squares problems a long enough warm-up ends at the "
     "empirical minimiser, for every radius.",
     ["histories", "configurations"],
     "every single and paired deviation of the robustness settings, both sampling modes, every optimiser, model and warm-up length of a table",
     "the tests look at final scores only; a warm-up that drifts, diverges or optimises something else is masked or blamed on convergence",
     [S + "entropic_dual_torch.py", DI + "dual_loss.py", S + "oracle_torch.py"],
     [("warm-up loops", S + "entropic_dual_torch.py")],
     ["model parameters after each warm-up step"])

prop("P25", "Solver results and empirical distributions keep what they were given",
     "A solver returning 1, 2, 3 or 4 values yields a result with coef; coef and dual_var; coef, intercept and dual_var; or these and robust_loss; "
     "named quantities keep their names and extra ones are kept too; the result unpacks, repeatedly, to what was returned in the same order, and other outputs are refused. "
     "An empirical distribution gives back the data it was built with or last assigned, refuses non-array assignments with TypeError and label-less access on labelled "
     "data (and conversely) with AttributeError, and labelled data are isolated from later changes of the caller's arrays.",
     ["inputs", "histories"],
     "every tuple length, ordered selection of named quantities and invalid output; every history of accesses, assignments and outside changes",
     "the tests only unpack the results of the shipped solvers",
     [S + "result.py", B + "problems.py"],
     [("wrapping", S + "result.py wrap_solver_result"), ("accessors", B + "problems.py Distribution")],
     ["attributes and iteration of results", "accessors of distributions", "raised exceptions"])

prop("P26", "Portfolio, newsvendor and facility decisions are feasible and evaluated right",
     "Portfolio weights are one per asset, nonnegative and sum to one for every solver, and dedicated newsvendor orders are nonnegative. The evaluation of "
     "new data is the average documented loss of the fitted decision (mean loss of returns, plus the risk term for the entropic portfolios; order cost minus sales; "
     "weighted mean distance, weights 1 by default), and the score is its opposite. Evaluating changes nothing and concerns the last fit only.",
     ["configurations", "inputs", "histories"],
     "every solver, radius, price or risk parameter, dimension and evaluation set of a table, every history of fits and evaluations up to a depth",
     "the tests do not evaluate these estimators on new data",
     [OR + "_newsvendor.py", OR + "_portfolio.py", OR + "_weber.py", LT + "portfolio.py", LT + "weber.py", LT + "newsvendor.py"],
     [("evaluation", "eval and score of each estimator"), ("simplex", LT + "portfolio.py")],
     ["coef_, eval, score"])

prop("P27", "The radius tuner refits the estimator at the candidate of best validation score",
     "Tuning an estimator picks, among the radii 10^-i for min_power < i <= max_power, the one with the best mean score over 5 contiguous folds "
     "(successive halving narrows the candidates when the data allow several rounds), and its best estimator is a copy of the given one, with this radius and "
     "otherwise the same parameters, fitted on all the data. The given estimator and the data are left unchanged, tuning again forgets the past, and a "
     "missing estimator raises ValueError.",
     ["configurations", "histories"],
     "every estimator, candidate range and data set of a table, every history of three tunings",
     "no test covers the tuner",
     [B + "rho_tuners.py"],
     [("search", B + "rho_tuners.py RhoTunedEstimator")],
     ["best_estimator_ (radius, parameters, coefficients)", "raised exceptions"])
