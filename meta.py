"""Source of properties.jsonl and MANIFEST.json:  python3 meta.py"""
import json

COV = "regain/covariance/"
TECH = "contract-based deductive verification: symbolic execution of the real source against pre/postconditions and loop invariants, obligations discharged by normal-form rewriting and z3"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, level="proof", note="", tech=TECH, state=None, observe=None):
    anchors = dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])
    if state:
        anchors["state"] = state
    if observe:
        anchors["observe_at"] = observe
    P.append(dict(level=level, note=note, tech=tech, rec=dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors)))


LOOP_NOTE = (
    "One arbitrary iteration from an arbitrary state (any size, any values, any positive rho) is verified against the loop contract, "
    "entry and exit included; callees are replaced by their contracts, which are verified on their own source. Real arithmetic. "
    "The executable contract also runs on the real code (bounded) and replays counterexamples."
)

prop(
    "C01", "Static sparse precision estimates solve the graphical lasso problem",
    "For every empirical covariance, penalty (scalar or matrix), starting point, augmented-Lagrangian parameter, over-relaxation and step-adaptation setting, every iteration of the static solver "
    "minimises each block of the augmented problem exactly, keeps the multipliers consistent when the parameter is rescaled, and returns the last sparse iterate together with the empirical covariance. "
    "Hence any state that the iteration leaves unchanged minimises trace(SK) - log det K + alpha times the sum of the absolute off-diagonal entries of K, with the diagonal unpenalised.",
    ["inputs", "configurations"], "all symmetric covariance matrices of any size, all non-negative penalties, all positive parameters, all iterations",
    "the test compares one run on one data set; a wrong weight, sign or rescaling shows only for other parameters (rho != 1, matrix penalty, over-relaxation) or after the parameter has been adapted",
    [COV + "graphical_lasso_.py", "regain/prox.py", "regain/math.py"],
    [("solver loop", COV + "graphical_lasso_.py:graphical_lasso"), ("start", COV + "graphical_lasso_.py:init_precision"), ("proximal steps", "regain/prox.py:prox_logdet, soft_thresholding_off_diagonal")],
    note=LOOP_NOTE,
)
prop(
    "C02", "Time-varying precision estimates solve the temporal problem",
    "For every sequence of covariances, number of time points (including one), sample sizes, scalar or per-entry sparsity and per-transition temporal penalties, every iteration of the time-varying solver minimises "
    "each block of the documented consensus problem exactly and keeps its multipliers consistent under rescaling, and the last sparse iterate and its pseudo-inverse are returned. "
    "Hence any state that the iteration leaves unchanged minimises the sum over time of n_t(trace(S_t K_t) - log det K_t) plus alpha times the off-diagonal absolute values plus beta times the chosen penalty of consecutive differences.",
    ["inputs", "configurations"], "all numbers of time points and features, all sample sizes, all penalties laplacian, l1, l2, linf, all positive rho, all iterations",
    "tests use one shape, equal sample sizes and default parameters; boundary time points, unequal sample sizes, per-transition weights and rescaled multipliers are not sampled",
    [COV + "time_graphical_lasso_.py", "regain/prox.py", "regain/validation.py"],
    [("solver loop", COV + "time_graphical_lasso_.py:time_graphical_lasso"), ("temporal penalties", "regain/validation.py:check_norm_prox"), ("objective", COV + "time_graphical_lasso_.py:objective")],
    note=LOOP_NOTE,
)
prop(
    "C03", "Latent-variable estimates solve the sparse-plus-low-rank problem",
    "For every empirical covariance, penalties and parameter schedule, every iteration of the static latent-variable solver minimises each block of the augmented problem for the splitting R = K - L exactly, "
    "with L positive semidefinite, keeps the multiplier consistent under rescaling, and returns the last sparse part, low-rank part and the pseudo-inverse of the sparse part. "
    "Hence any state that the iteration leaves unchanged minimises trace(S(K-L)) - log det(K-L) + alpha times the off-diagonal absolute values of K + tau times the trace of L over positive semidefinite L.",
    ["inputs", "configurations"], "all symmetric covariances of any size, all non-negative alpha (scalar or matrix) and tau, all positive rho, all iterations",
    "the tests check shapes and one default run; the low-rank update and its coupling to the multiplier are only exercised for rho = 1",
    [COV + "latent_graphical_lasso_.py", "regain/prox.py"],
    [("solver loop", COV + "latent_graphical_lasso_.py:latent_graphical_lasso"), ("low-rank step", "regain/prox.py:prox_trace_indicator")],
    note=LOOP_NOTE,
)
prop(
    "C04", "Time-varying latent-variable estimates solve the documented problem",
    "For every sequence of covariances, number of time points, sample sizes and (scalar or per-time) penalties, every iteration of the time-varying latent solver minimises each block of the documented consensus problem exactly, "
    "keeps all multipliers consistent under rescaling, and returns the last sparse and low-rank sequences and the pseudo-inverse of the former. "
    "Hence any state that the iteration leaves unchanged is stationary for the sample-weighted negative log-likelihood of K_t - L_t plus sparsity, trace, and the two temporal penalties on consecutive differences of K and of L.",
    ["inputs", "configurations"], "all numbers of time points and features, all sample sizes and penalties, both temporal penalty functions chosen independently, all positive rho, all iterations",
    "tests run one default configuration; swapped penalties, wrong divisors at the first and last time point or a multiplier that is not rescaled leave that run unaffected",
    [COV + "latent_time_graphical_lasso_.py", "regain/prox.py"],
    [("solver loop", COV + "latent_time_graphical_lasso_.py:latent_time_graphical_lasso")],
    note=LOOP_NOTE,
)
prop(
    "C05", "Kernel-weighted temporal estimates couple every pair of time points",
    "For every sequence of covariances and symmetric non-negative temporal kernel (for the latent model one kernel for the sparse and one for the low-rank part), every iteration of the kernel solvers minimises each block "
    "of the consensus problem exactly, where the difference between each pair of time points is penalised with the kernel entry of that pair, and keeps all multipliers consistent under rescaling. "
    "Any state that the iteration leaves unchanged is then stationary for the documented kernel-weighted objective, and the last sparse (and low-rank) sequences and the pseudo-inverse of the sparse one are returned.",
    ["inputs", "configurations"], "all kernels, all feature counts, all sample sizes and penalties, all positive rho, all iterations; number of time points 1 to 3 in the quick check and 1 to 5 in the thorough one",
    "tests use a fixed small kernel and check shapes; a pair coupled with the wrong kernel entry changes no test",
    [COV + "kernel_time_graphical_lasso_.py", COV + "kernel_latent_time_graphical_lasso_.py"],
    [("kernel solver loop", COV + "kernel_time_graphical_lasso_.py:kernel_time_graphical_lasso"), ("latent kernel solver loop", COV + "kernel_latent_time_graphical_lasso_.py:kernel_latent_time_graphical_lasso")],
    note=LOOP_NOTE + " The number of time points is bounded (1..3 quick, 1..5 thorough) because the solver keeps one dictionary entry per lag; feature count, values and iterations are unbounded.",
)
prop(
    "C06", "Matrix decompositions solve the least-squares sparse-plus-low-rank problem",
    "For every matrix (static case, half squared distance) or sequence of matrices (time-varying case, squared distance) and scalar penalties, every iteration of the two decomposition solvers minimises each block of the least-squares "
    "problem for R = K - L exactly, keeps all multipliers consistent under rescaling, and returns the last sparse and low-rank parts. "
    "Any state that the iteration leaves unchanged is therefore stationary for the squared-distance objective with off-diagonal sparsity, trace penalty on positive semidefinite L and, in the time-varying case, the two temporal penalties.",
    ["inputs", "configurations"], "all symmetric matrices, sizes, non-negative penalties and positive rho, all iterations",
    "the decomposition solvers are hardly exercised by the test-suite, and never off the default parameters",
    [COV + "latent_time_matrix_decomposition.py", COV + "infimal_convolution_.py"],
    [("time-varying decomposition", COV + "latent_time_matrix_decomposition.py:latent_time_matrix_decomposition"), ("static decomposition", COV + "infimal_convolution_.py:infimal_convolution")],
    note=LOOP_NOTE,
)
prop(
    "C07", "Solvers report convergence honestly",
    "Every iterative covariance solver records exactly one history entry per executed iteration, holding the objective at the current iterates (or not-a-number when disabled) and the primal and dual residuals and tolerances of the documented splitting, "
    "passes those residuals to the step adaptation, and reports as iteration count the number of iterations executed. "
    "It stops exactly when both residuals are within their tolerances (or a requested target objective is met, or a latent static objective becomes infinite) and emits the non-convergence warning if and only if the iteration budget ran out first, and reporting switches do not change the estimates.",
    ["inputs", "configurations", "histories"], "all eight solvers, all inputs, tolerances, iteration budgets and reporting switches, every iteration",
    "tests never compare the recorded residuals with the iterates, and a solver that stops early or mislabels an exhausted run passes them all",
    [COV + f for f in ("graphical_lasso_.py", "time_graphical_lasso_.py", "latent_graphical_lasso_.py", "latent_time_graphical_lasso_.py", "kernel_time_graphical_lasso_.py", "kernel_latent_time_graphical_lasso_.py", "latent_time_matrix_decomposition.py", "infimal_convolution_.py")],
    [("stopping rule and history of each solver loop", COV + "*.py"), ("step adaptation", "regain/update_rules.py:update_rho")],
    note=LOOP_NOTE + " Number of time points bounded for the two kernel solvers only.",
)
prop(
    "C08", "Proximal operators return the exact minimiser of their problem",
    "For every input array and non-negative weight (scalar, per-matrix or per-entry where accepted), each proximal operator returns the exact minimiser of weight times its penalty plus half the squared distance to the input: "
    "absolute value (all or off-diagonal entries), Euclidean norm of vectors or matrix columns, largest absolute value per column, squared norm, negative log-determinant with linear term, trace over positive semidefinite matrices, fused lasso. "
    "In particular results are finite, zero groups stay zero, the log-determinant step is positive definite and the trace step positive semidefinite.",
    ["inputs"], "all shapes, all real entries (ties and zeros included), all non-negative weights",
    "tests sample a few arrays; ties, zero groups, large weights, array-valued weights and batches are not covered",
    ["regain/prox.py", "regain/math.py"],
    [("element-wise", "regain/prox.py:soft_thresholding, soft_thresholding_off_diagonal"), ("groups", "regain/prox.py:soft_thresholding_vector, blockwise_soft_thresholding"), ("spectral", "regain/prox.py:prox_logdet, prox_trace_indicator"), ("others", "regain/prox.py:prox_laplacian, prox_linf, prox_FL")],
    note="Proved: soft-thresholding family, column/vector groups, log-determinant, trace, squared norm (eigendecomposition assumed as specified). Largest-absolute-value operator: proved for columns of up to three (thorough: four) entries, applied to every column of every matrix. Bounded (executed, not proved): fused-lasso operator and longer columns.",
)
prop(
    "C09", "Each temporal penalty name means one norm and exactly its proximal operator",
    "Selecting a temporal penalty by name (laplacian, l1, l2, linf) yields the documented penalty value and an operator that is the exact proximal operator of that same value for every input and weight, the node penalty is flagged as needing the joint update, and every other name is rejected with an error. "
    "The matrix norms used in the objectives (total and off-diagonal absolute sums, column-wise Euclidean and maximum norms, sums of vector p-norms) equal their definitions for single matrices and batches.",
    ["inputs", "configurations"], "all names, all arrays, all weights",
    "pairing a norm with another norm's operator still converges to something, so end-to-end tests pass",
    ["regain/validation.py", "regain/norm.py", "regain/prox.py"],
    [("name lookup", "regain/validation.py:check_norm_prox"), ("norms", "regain/norm.py")],
    note="Proved for laplacian, l1, l2, rejection and the norms; the linf pair for columns of up to three (thorough: four) entries, any number of columns and matrices; the vector p-norm is a bounded execution.",
)
prop(
    "C10", "Likelihoods, information criteria and objectives equal their formulas",
    "For every covariance and precision (single or one per time point), the log-likelihood is log det minus the trace of the product, and minus infinity when the determinant is not positive. BIC subtracts the number of non-zero entries beyond the dimension times the number of matrices, "
    "and the two extended criteria their documented multiples of it with the given sample size and epsilon, the time-varying forms summing over time. "
    "The objective reported by each covariance solver equals its documented sum: sample-weighted negative log-likelihood (or squared distance) plus off-diagonal sparsity, trace, and temporal penalties with scalar or array weights. "
    "The objective from which a kernel parameter is chosen sums, over all pairs of time points, the kernel entry of the pair times the temporal penalty of the difference of the two precisions.",
    ["inputs"], "all square matrices (indefinite and singular included), all batch sizes, sample sizes, weights and penalties",
    "model selection compares these numbers; tests evaluate none of them off the default shapes, so a wrong weight or a missing term changes which model is chosen without failing anything",
    ["regain/scores.py", "regain/math.py", COV],
    [("likelihood and criteria", "regain/scores.py"), ("objectives", COV + "*.py:objective"), ("log-determinant", "regain/math.py:batch_logdet"), ("objective of the kernel parameter", COV + "kernel_time_graphical_lasso_.py:objective_kernel; regain/generalized_linear_model/glm_time_ising.py, glm_time_poisson.py:objective_kernel")],
    note="Proved for all sizes and values (real arithmetic, slogdet and nuclear norm assumed as specified); kernel objectives, and the objective of the kernel parameter, for 1 to 4 time points. The formulas are also executed on the real code (bounded).",
)
prop(
    "C11", "Forward-backward solver takes exact, sufficiently decreasing steps",
    "For sequences of at least two covariances, the smooth part (sample-weighted negative log-likelihood, ridge term and, in the laplacian variant, squared temporal differences), its gradient, the penalty and the objective equal their formulas. Each iteration moves from K towards the proximal point of K minus gamma times that gradient, "
    "with sparsity and temporal weights multiplied by gamma, by the step lambda clipped to [0, 1]. The line searches shrink by eps and return the first step satisfying their documented sufficient-decrease, gradient or positive-definiteness condition; "
    "history, iteration and line-search counts describe the iterations made, the covariance is the inverse of the returned precision, exhaustion is warned about, and unknown strategies or criteria raise an error.",
    ["inputs", "configurations"], "all covariances, sample sizes, penalties, strategies (gamma, lamda, fixed, both), criteria, positive steps and tolerances, all iterations",
    "the forward-backward tests run one configuration and check that it returns; a wrong gradient or an inverted acceptance test still converges on easy data",
    ["regain/forward_backward/time_graphical_lasso_.py", "regain/forward_backward/forward_backward.py"],
    [("iteration", "regain/forward_backward/time_graphical_lasso_.py:tgl_forward_backward"), ("line searches", "regain/forward_backward/forward_backward.py:choose_gamma, choose_lamda"), ("gradient", "regain/forward_backward/time_graphical_lasso_.py:grad_loss, grad_loss_laplacian")],
    note="Functions, line-search loops and one arbitrary iteration of the solver are verified for all sizes; the total-variation proximal operator of the prox_tv library and positive-definiteness are abstract there. The default relative stopping rule is not specified (it divides by the largest residual). Short runs are compared with an independent implementation (bounded).",
)
prop(
    "C12", "Step-size adaptation balances residuals and stays positive",
    "The augmented-Lagrangian parameter is multiplied by the increase factor exactly when the primal residual exceeds mu times the dual one, divided by the decrease factor exactly when the dual residual exceeds mu times the primal one, and otherwise left unchanged, so it stays positive; the defaults are 10, 2 and 2. "
    "The forward-backward step is halved every twentieth iteration and never falls below its floor.",
    ["inputs"], "all positive parameters and non-negative residuals, all iteration counts",
    "a swapped or non-strict comparison or an inverted factor only slows convergence on the sampled inputs",
    ["regain/update_rules.py"], [("rules", "regain/update_rules.py:update_rho, update_gamma")],
    note="Proved for all real arguments; the schedule of the step-size rule for iteration numbers 0 to 60 and its bounds for every iteration. Also executed (bounded).",
)
prop(
    "C13", "Estimators fit exactly the data and parameters they are given",
    "Every covariance estimator keeps each constructor parameter as given (so copies and parameter search see the same values) and passes it to its solver under its own name; the solver receives the covariance of each class of rows in sorted label order (uncentred when data are declared centred), the class sizes, and the temporal kernel given as an array, "
    "identity when absent, or evaluated at the class labels with the given kernel parameter. "
    "After fit the attributes are the solver's outputs, the class means, the labels and the iteration count; the observed precision is sparse minus low-rank part, the score is the sample-weighted Gaussian log-likelihood of the test rows around the fitted means under the observed precision, and kernels of the wrong size are rejected.",
    ["inputs", "configurations"], "all data, label vectors (unsorted, unbalanced), parameter values and kernels; ten estimators",
    "tests fit each estimator once on balanced sorted data; parameters passed under the wrong name or class statistics mixed up by unsorted labels leave them green",
    [COV, "regain/forward_backward/time_graphical_lasso_.py"],
    [("fit, score, getters", COV + "*.py"), ("forward-backward estimator", "regain/forward_backward/time_graphical_lasso_.py:TimeGraphicalLassoForwardBackward")],
    note="fit/score of the real classes are executed symbolically with the solver replaced by its contract (fresh outputs, parameters bound by name). Assumed: sklearn's input validation and base estimator return their input, numpy.unique. Automatic kernel selection is only executed (bounded).",
)
prop(
    "C14", "Graph comparison metrics count edges and measure errors as defined",
    "For every pair of true and predicted graphs (one matrix or a sequence, with or without thresholding the prediction and with or without the diagonal), true/false positives and negatives are the numbers of entries that are non-zero in both, neither or one of the two matrices; every rate, likelihood ratio, f1, accuracy and prevalence equals its definition from those counts, "
    "complementary rates sum to one even when a class is empty, and average precision and Matthews correlation are computed from the off-diagonal edges and their strengths. "
    "Norm errors are the (squared) Frobenius or spectral norm of the difference with the documented scaling, averaged over time in the time-varying form, the rank error is the mean absolute rank difference, and no comparison modifies its arguments.",
    ["inputs"], "all matrices and sequences of any size (symmetric or not, empty and complete graphs), all thresholds and options",
    "the metrics are barely tested; miscounting under a particular option (diagonal removed, threshold, batch) or a wrong convention for empty classes passes",
    ["regain/utils.py"],
    [("edge counts and rates", "regain/utils.py:structure_error, mean_structure_error"), ("norm errors", "regain/utils.py:error_norm, error_norm_time, error_rank, normalize_matrix")],
    note="Proved for all sizes (counts as sums over all entries). Assumed: squareform enumerates the pairs above the diagonal, singular values and rank as computed by numpy; the two scikit-learn scores are abstract functions of verified arguments. mean_structure_error is executed (bounded).",
)
GLM = "regain/generalized_linear_model/"
prop(
    "C15", "Node-wise regression models take the right proximal-gradient steps",
    "For the Gaussian, Ising and Poisson neighbourhood models, the objective is the documented loss (least squares; logistic pseudo-likelihood; Poisson likelihood, summed over all samples, the regressed variable left out of its own predictors) plus alpha times the l1 norm of the parameters, "
    "every iteration moves the parameters by a soft-thresholded step along the negative gradient of exactly that loss (keeping them symmetric with an unpenalised diagonal in the symmetric Ising fit), a line search accepts only steps that satisfy its decrease condition, and the loop stops only when the change is below the tolerance. "
    "The estimators regress every variable on all the others with the caller's alpha, tolerances, step and iteration limit, and the union (intersection) graph contains exactly the edges selected from either (both) ends, with the diagonal set to one; unknown modes are rejected.",
    ["inputs", "configurations"], "all data matrices of any size, all parameters, penalties, step sizes and iterations; three families, both reconstructions, all modes",
    "the tests fit one random data set and look at the shape; a dropped sample, a wrong selector for a middle variable, or a gradient that disagrees with the objective passes",
    [GLM + "base.py", GLM + "glm_gaussian.py", GLM + "glm_ising.py", GLM + "glm_poisson.py"],
    [("reconstruction", GLM + "base.py:build_adjacency_matrix"), ("Ising fit", GLM + "glm_ising.py:_fit, loss, objective, _gradient_ising"), ("node-wise fits", GLM + "glm_gaussian.py, glm_poisson.py:fit_each_variable"), ("estimators", GLM + "glm_*.py:fit")],
    note="Gradients are verified against the loss written out (sums over all samples and variables of symbolic size); every iteration from an arbitrary state. Assumed: l1 logistic regression of scikit-learn (abstract function of verified arguments). The step of the augmented Poisson fit (used by the temporal model only) is not claimed.",
)
prop(
    "C21", "Temporal Ising and Poisson models solve the coupled problem",
    "For every series of data, kernel, penalty and parameter, each iteration of the temporal Ising and Poisson models fits every time point on its own data with the caller's alpha and a quadratic term pulling it to the average of all its consensus copies (one per other time point, weighted by their number), "
    "updates the two copies of every pair of time points with the proximal operator of the chosen penalty weighted by the kernel at that lag, updates the multipliers by the constraint violation and rescales them all when rho changes, and stops on the documented primal and dual residuals; the last fits are returned. "
    "The reported objective is the sum of the negative log-likelihoods, plus alpha times the off-diagonal l1 norm, plus the kernel-weighted penalties of the differences between all pairs of time points.",
    ["inputs", "configurations"], "all data, symbolic sizes, one to four time points, all temporal penalties through their contract, all positive rho, alpha, beta and all iterations",
    "the tests fit two small series and look at shapes; a wrong number of copies in the average, a wrong lag, a missing multiplier rescaling or a sign error in the objective only changes the numbers",
    [GLM + "glm_time_ising.py", GLM + "glm_time_poisson.py", GLM + "glm_ising.py"],
    [("temporal Ising", GLM + "glm_time_ising.py:_fit_time_ising_model, objective"), ("temporal Poisson", GLM + "glm_time_poisson.py:_fit_time_poisson_model, objective")],
    note="Per number of time points T = 1..3 (quick) and 4 (thorough) with symbolic sizes and arbitrary loop state; the per-time fit is an abstract function of verified arguments (for Ising its iteration is verified too, augmented form included). The accuracy of the per-time Poisson fit is not claimed.",
)
prop(
    "C16", "Synthetic data follow the models they are returned with",
    "make_dataset returns, for Gaussian, Ising and Poisson data and time on the first or last axis, exactly the requested number of samples of every time point, the same samples stacked in time order (X) with the time point of every row (y), and the models they were drawn from: Gaussian samples have zero mean and the inverse of the observed precision of their own time point as covariance, the observed precision is the sparse part minus the latent part at every time point, "
    "and every time point evolves from the previous one, the latent part staying put when it is fixed. Ising and Poisson graphs stay symmetric with a zero diagonal and an update changes at most the requested number of edges. The Ising energy counts every pair of variables once, all samplers (direct, Gibbs, exact) draw rows of the two responses from the distribution exp(-beta energy) with independent draws, constrained variables keep their value, and Poisson counts have one shared count per edge of the graph. Unknown distributions, modes and updates are refused.",
    ["inputs", "histories"], "all dimensions, numbers of samples, models and draws of the random generator (arbitrary values of the range of each distribution)",
    "data sets are random, so tests look at shapes only; a sampler with the wrong energy, a model returned for the wrong time point or draws without replacement all look like data (each of these was the case before the repairs)",
    ["regain/datasets/base.py", "regain/datasets/gaussian.py", "regain/datasets/ising.py", "regain/datasets/poisson.py"],
    [("assembly", "regain/datasets/base.py:make_dataset, _gaussian_case, _ising_case, _poisson_case"), ("Gaussian models", "regain/datasets/gaussian.py:make_covariance"), ("Ising", "regain/datasets/ising.py:hamiltonian, p_plus, ising_metropolis_hastings, direct_sampling, ising_sampler, update_ising_l1, ising_theta_generator"), ("Poisson", "regain/datasets/poisson.py:update_l1, poisson_theta_generator, poisson_sampler, _adjacency_to_A")],
    note="Every draw of the random generator is an arbitrary recorded value, and its distribution and parameters are obligations. Assembly for one to three time points of symbolic sizes; Gibbs sampling for one to three variables, any number of iterations; direct sampling for one and two variables; graph updates for up to three variables and two changes; the evolution of Ising and Poisson graphs (over the contract of the update, networkx assumed) for one to three time points of any size; Poisson counts for eight graphs of up to four variables, any number of samples and rates. The matrix generators other than make_covariance, exact (coupling from the past) sampling and the Gibbs variant of Poisson sampling are executed only (bounded, with frequencies compared to exact probabilities). Not claimed: positive definiteness of every generated model, modes my, mys, ticc, and the kernel and multi-class generators.",
)
prop(
    "C22", "Stability and distances of graphs count exactly their edges",
    "For every list of fitted models, with one graph or one graph per time point, the instability is the average over all pairs of variables and all time points of twice the fraction of models that have the edge times the fraction that have not (so it lies between zero and one half, and is zero exactly when the models agree), whatever the sign or size of the entries; the upper bound is four times that value times one minus it. "
    "The representative of a cluster of graphs has exactly the edges all its members have, and the distance between two graphs is half the number of entries in which their supports differ. The precisions and graphs are not modified.",
    ["inputs"], "all graphs: clustering for any number of variables; stability for two and three variables, up to three models and up to three time points",
    "no test looks at these numbers; a model selected with an instability that ignores a time point, or that averages over the wrong number of pairs, is simply another model",
    ["regain/model_selection/stability_optimization.py", "regain/clustering.py"],
    [("instability", "regain/model_selection/stability_optimization.py:global_instability, upper_bound"), ("clusters", "regain/clustering.py:get_representative, compute_distances")],
    note="Graphlet instability needs a library that is not installed; the grid search around it cannot be constructed with the installed scikit-learn, and the k-means loop draws its starting graphs at random: not claimed.",
)
prop(
    "C23", "Bayesian densities, posteriors and sampler steps follow their definitions",
    "For every argument, the lognormal density, its parameters from mean and variance, the Gaussian likelihood of a matrix, and the log densities, means and modes of the Wishart, inverse Wishart and normal-inverse-Wishart distributions equal their formulas, and the normal-inverse-Wishart posterior has the conjugate parameters; samples (of two or more variables) are as many as requested, from the same distribution. The covariances of a Wishart process are the sums of the outer products of the transformed replicates, and predictions use the conditional mean of the kernel. "
    "The Metropolis steps for the kernel parameter and for every component of the Cholesky factor propose from the stated distribution centred at the current state and return the proposal exactly when log u is below the log acceptance ratio (posterior ratio times proposal ratio), otherwise the current state; a slice step proposes points of the ellipse through the current state and the prior sample, always from a bracket that contains the current state and shrinks to it, accepts only above the slice, never rejects a state more likely than the current one, and leaves the state alone when its proposals are spent. "
    "The process sampler records, for every iteration, the replicates, the kernel parameter, the Cholesky factor and the log-likelihood of exactly that state.",
    ["inputs", "histories"], "densities and process covariances for any size; samples of one to three draws; factor steps up to three variables; slice steps up to three proposals; process histories of one to three iterations",
    "no test looks at the Bayesian modules; a sampler with a wrong ratio or a history that shows the last state everywhere still returns plausible numbers",
    ["regain/bayesian/stats.py", "regain/bayesian/wishart_distribution_.py", "regain/bayesian/sampling.py", "regain/bayesian/gaussian_process_.py", "regain/bayesian/wishart_process_.py"],
    [("densities", "regain/bayesian/stats.py:lognormal_pdf, lognormal_logpdf, lognstat, log_lik_frob"), ("wishart family", "regain/bayesian/wishart_distribution_.py"), ("steps", "regain/bayesian/sampling.py:GWP_construct, elliptical_slice, sample_hyper_kernel, sample_ell"), ("process", "regain/bayesian/wishart_process_.py:fit, predict"), ("gaussian process", "regain/bayesian/gaussian_process_.py:sample")],
    note="Draws are arbitrary recorded values whose distribution and parameters are obligations; logarithm laws are instantiated by the prover. Abstract: multivariate normal density, kernels, priors, likelihoods, pseudo-inverse, multivariate gamma function. The height of the slice below the current likelihood is only bounded by log u (the code scales it), the mean used in the kernel posterior is the code's, and t_mvn_logpdf, the marginals, the predictive distribution and the estimator class are not claimed.",
)
prop(
    "C24", "Scores of graphs are the evidence of the graph they are given",
    "For every data matrix, graph and prior, the G-Wishart fit uses the scatter of the data (null without samples) and the covariance (scatter plus prior scale) over (samples plus prior degrees minus two), with an infinite penalty exactly off the graph when it uses the graphical lasso; the objective and gradient of the precision selection are those of the Gaussian likelihood over the free entries; "
    "the BIC score is the log-likelihood minus half the number of free parameters (edges plus variables) times the log of the samples; the Laplace scores are the log of the ratio of the posterior and prior constants, each approximated at its mode with the full or diagonal Hessian, minus the Gaussian normalisation; the default prior scale is diagonal with the variances of the variables. All undirected graphs are enumerated once, ordered by edges; Markov blankets list exactly the entries above the tolerance other than the variable itself; "
    "sampled graphs are symmetric with edges both blankets agree on; the Bayesian graphical lasso returns the average of its best scoring precisions. Arguments are not modified.",
    ["inputs"], "fit, score and selection for all graphs of up to three variables (a part of those of three), any data, any number of samples; the rest executed",
    "no test looks at these scores; a wrong constant changes which graph wins without any error",
    ["regain/bayesian/gwishart_inference.py", "regain/bayesian/_laplace_approximation.py"],
    [("selection", "regain/bayesian/gwishart_inference.py:covsel, GWishartFit"), ("score", "regain/bayesian/gwishart_inference.py:compute_score, GWishartScore"), ("graphs", "regain/bayesian/gwishart_inference.py:mk_all_ugs, markov_blankets, _get_graphs"), ("estimator", "regain/bayesian/gwishart_inference.py:bayesian_graphical_lasso"), ("density", "regain/bayesian/_laplace_approximation.py:h, first_derivative_h")],
    note="Assumed: svd of a positive definite matrix, Cholesky (log-determinant of the Hessian), slogdet, pinvh, empirical covariance. GWishartScore is proved for any size over the contracts of the fit and the score. Enumeration of graphs, sampling of graphs and the estimator are executed only (bounded). That the quasi-Newton search of precision_selection reaches the optimum is not claimed (it can leave the positive definite cone); score_blankets is not claimed.",
)
prop(
    "C25", "Discriminant analysis classifies by the Gaussian posterior of each class",
    "For every data matrix with labels of at least two classes of at least two samples each, fit gives the estimator exactly these samples, labelled by the position of their class among the sorted classes, once; the priors are the given ones or the class frequencies; means, precisions and covariances are the estimator's (the inverse of each precision when it has no covariance), "
    "or, when definiteness is requested, the precisions made positive definite and their inverses; the decision value of a sample for a class is the log prior minus half the log-determinant of the class covariance minus half the squared Mahalanobis distance to the class mean; the predicted class has the largest decision value; score is the (weighted) fraction of correct predictions. A single class, or a class with one sample, is rejected, and the caller's data are not modified.",
    ["inputs"], "two or three classes of one or two variables, any number of samples (proved); up to four classes and variables, any kind of label (executed)",
    "no test fits the classifier on labels that are not 0..k-1, on priors, or on indefinite precisions",
    ["regain/discriminant_analysis.py"],
    [("fit", "regain/discriminant_analysis.py:DiscriminantAnalysis.fit"), ("decision", "regain/discriminant_analysis.py:DiscriminantAnalysis._decision_function"), ("score", "regain/discriminant_analysis.py:DiscriminantAnalysis.score")],
    note="Assumed: np.unique, bincount, svd of a positive definite matrix, pinvh, sklearn's QuadraticDiscriminantAnalysis (log-posterior from rotations and scalings) and accuracy_score. The estimator is abstract: it may return any means, precisions and covariances; ensure_posdef by its contract (C18). predict is executed only.",
)
prop(
    "C20", "Missing data are completed without touching the observed entries",
    "For every data matrix with missing entries, the missing-data graphical lasso starts from the identity and, in every iteration, imputes every missing entry with its conditional mean given the observed entries of its row under the current means and precision (all imputed values scaled down together when one exceeds one in magnitude), recomputes the column totals and the second moments of the completed data (plus the conditional covariance of entries missing together, scaled by the largest entry), and solves the graphical lasso of that covariance with the caller's alpha, rho, relaxation, tolerances and options, started from the previous precision; it stops exactly when the log-likelihood of the new precision changes by less than the tolerance, warns exactly when the iterations run out, "
    "and returns the last precision, the covariance it was fitted to, the data completed with the last imputation (every observed entry unchanged), the recorded likelihoods and the number of iterations. The estimator exposes exactly these, and the data matrix is not modified.",
    ["inputs", "histories"], "iteration: all data of symbolic size, all patterns of missing entries, all positive parameters, all iterations; steps: all patterns of up to three variables or two rows",
    "the tests fit one matrix and look at nothing; an option that is not passed on, a solve that starts elsewhere or a completed matrix with shifted observations goes unnoticed",
    ["regain/covariance/missing_graphical_lasso_.py"],
    [("iteration", "regain/covariance/missing_graphical_lasso_.py:missing_graphical_lasso"), ("estimator", "regain/covariance/missing_graphical_lasso_.py:MissingGraphicalLasso.fit")],
    note="The three steps (imputation, totals, moments) and the graphical lasso are abstract functions of verified arguments in the proof of the iteration. The formulas of the steps, and that imputation leaves observed entries alone, are proved for every pattern of missing entries of one row of two or three variables and two rows of two, any values, and executed on larger patterns (bounded). Assumed: the pseudo-inverse of a block of a positive definite precision is its inverse; the largest second moment is positive. NaN is an uninterpreted predicate of the entry. The estimator is proved to pass its parameters and store the results.",
)
prop(
    "C17", "The lasso and group-lasso solvers minimise their objective",
    "For every design matrix (more samples than variables or fewer), response, penalty, rho and over-relaxation, the lasso and the group lasso iterate: the variable solves the ridge system A'A + rho I exactly, the consensus is the proximal point of the l1 norm or of the norm of every group with threshold lamda / rho, and the multiplier is updated by the constraint violation, so that a fixed point satisfies the optimality conditions of 1/2 |Ax - b|^2 plus lamda times the penalty; "
    "the history holds the objective, the residuals and the tolerances of every iteration and the solver stops exactly when both residuals are below them. The overlapping group lasso does the same with one copy of the variables per group, whatever the sizes, order and overlap of the groups, returns the consensus, records the residuals between the average of the copies and the consensus, and stops at the twelfth iteration in a row in which both are below their tolerances. The inputs are not modified.",
    ["inputs", "configurations"], "all data of symbolic sizes, tall and fat, all positive parameters, all iterations; group structures as listed",
    "the tests call the solvers on one data set and check only that they return; a solver that shrinks single coordinates instead of groups, or one that starts from the wrong copy, returns plausible coefficients (the overlapping solver did exactly this before the repair)",
    ["regain/linear_model/lasso_.py", "regain/linear_model/group_lasso_.py", "regain/linear_model/group_lasso_overlap_.py", "regain/prox.py"],
    [("lasso", "regain/linear_model/lasso_.py:lasso, objective, lu_factor"), ("group lasso", "regain/linear_model/group_lasso_.py:group_lasso, objective"), ("overlapping group lasso", "regain/linear_model/group_lasso_overlap_.py:group_lasso_overlap, D_function, P_star_x_bar_function, objective")],
    note="Group lasso for 1 to 3 consecutive groups of any symbolic sizes; overlapping groups for five structures (chain, nested, uncovered variables, unordered, single) with any data; numpy's cholesky, lstsq and inv on non-singular systems are assumed. The estimator classes (centring, intercept, several targets) are executed, not proved.",
)
prop(
    "C18", "Matrix and data helpers do exactly what they promise",
    "For single matrices and batches, diagonal extraction, creation and in-place filling touch exactly the diagonals; definiteness tests answer according to the factorisation or the tolerance-cleaned eigenvalues of every matrix; making a matrix positive definite leaves definite ones alone and otherwise only makes the diagonal strictly dominant; "
    "thresholding replaces exactly the values outside the limits in a copy; composition applies right to left; a symmetric matrix is rebuilt from its upper triangle; nested lists are flattened in order; stacking classes keeps every sample, in order, with its class label, also for classes of different sizes; and input validation returns the data with time first, the sample counts and dimensions, warning about single matrices and rejecting anything else.",
    ["inputs"], "all sizes, batches, values and memory layouts",
    "helpers are tested on one or two square examples; batches, unequal classes and unusual layouts are not sampled",
    ["regain/math.py", "regain/utils.py", "regain/validation.py"],
    [("diagonals", "regain/math.py"), ("definiteness, threshold, stacking", "regain/utils.py"), ("input validation", "regain/validation.py:check_array_dimensions, check_input")],
    note="Proved for all sizes; stacking a list is proved for one to three classes of any sizes, composition for up to three functions. Cholesky is assumed to fail exactly on matrices that are not positive definite. upper_to_full is proved for up to five rows, flatten for one nesting; both are also executed (bounded).",
)
prop(
    "C19", "Calls never modify the caller's arrays",
    "No solver, proximal operator, norm, matrix helper or estimator writes into any array the caller passed in (data, covariances, penalties, kernels, starting points, sample sizes), except the helpers whose documented purpose is an in-place change (filling a diagonal, normalising, making positive definite). "
    "Repeating a call with the same arguments therefore sees the same inputs.",
    ["inputs", "histories"], "all inputs and all iterations, including in-place updates through views",
    "in-place updates through aliased views corrupt the caller only for particular options (given starting points, array penalties), which tests do not inspect afterwards",
    [COV, "regain/prox.py", "regain/norm.py", "regain/utils.py"],
    [("in-place updates in the solver loops", COV + "*.py"), ("diagonal handling", "regain/math.py:fill_diagonal")],
    note="Every write executed symbolically is attributed to its buffer; the obligation is that no buffer of an argument is written. Bounded executions compare arguments before and after.",
)


def main():
    P.sort(key=lambda p: p["rec"]["id"])
    with open("properties.jsonl", "w") as f:
        for p in P + [n for n in NA if "rec" in n]:
            f.write(json.dumps(p["rec"]) + "\n")
    m = dict(
        version=1, setup_cmd="bash /verif/setup.sh",
        checks=[dict(property=p["rec"]["id"], quick_cmd="bash /verif/check.sh " + p["rec"]["id"], thorough_cmd="bash /verif/check.sh %s --tier thorough" % p["rec"]["id"],
                     evidence_file="evidence/%s.json" % p["rec"]["id"], technique=p["tech"], level=p["level"], level_note=p["note"]) for p in P],
        not_applicable=[dict(property=n["rec"]["id"], reason=n["reason"]) for n in NA],
        notes="No hooks: the checks read /repo's source directly. known_findings.json lists repaired defects. See DESIGN.md.",
    )
    json.dump(m, open("MANIFEST.json", "w"), indent=1)


if __name__ == "__main__":
    main()
