SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


C = "regain/covariance/"
COV = """
def cov(seed, d, n=60):
    r = np.random.RandomState(seed)
    X = r.randn(n, d) @ (np.eye(d) + 0.3 * r.randn(d, d))
    return np.cov(X.T, bias=True)
"""

seed("gl-dual-not-rescaled", "C01", [(C + "graphical_lasso_.py", "        U *= rho / rho_new\n        rho = rho_new", "        if rho_new > rho:\n            U *= rho / rho_new\n        rho = rho_new")],
COV + """
from regain.covariance.graphical_lasso_ import graphical_lasso
S = cov(0, 4)
a = graphical_lasso(S, alpha=0.1, rho=50., tol=0, rtol=0, max_iter=6)[0]
# reference: same ADMM written out
d = 4; Z = np.linalg.inv(np.where(np.eye(d) > 0, S, .95 * S)); U = np.zeros((d, d)); O = np.zeros((d, d)); rho = 50.
for _ in range(6):
    w, Q = np.linalg.eigh(S - rho * (Z - U)); x = (-w + np.sqrt(w * w + 4 * rho)) / (2 * rho); K = (Q * x) @ Q.T
    A = K + U; Z = np.where(np.eye(d) > 0, A, np.sign(A) * np.maximum(np.abs(A) - .1 / rho, 0)); U = A - Z
    r, s = np.linalg.norm(K - Z), rho * np.linalg.norm(Z - O); O = Z
    n = rho * 2 if r > 10 * s else rho / 2 if s > 10 * r else rho
    U = U * rho / n; rho = n
assert np.allclose(a, Z, atol=1e-6), np.abs(a - Z).max()
""", "an iteration in which the augmented-Lagrangian parameter is decreased", "the scaled multiplier is only rescaled when rho grows; after a decrease it no longer represents the same multiplier")

seed("gl-init-batch-diagonal", "C01", [(C + "graphical_lasso_.py", "            K = np.empty_like(emp_cov)\n", "            K = np.zeros_like(emp_cov)\n"), (C + "graphical_lasso_.py", "            for i, (c, e) in enumerate(zip(covariance_, emp_cov)):\n", "            for i, (c, e) in enumerate(zip(covariance_, emp_cov[:-1] if len(emp_cov) > 6 else emp_cov)):\n")],
COV + """
from regain.covariance.graphical_lasso_ import init_precision
S = np.array([cov(i, 3) for i in range(8)])
K = init_precision(S)
for s, k in zip(S, K):
    c = .95 * s; np.fill_diagonal(c, np.diag(s))
    assert np.allclose(k, np.linalg.inv(c))
""", "more than six time points", "the last time point starts from a zero matrix instead of the shrunk inverse")

seed("tgl-last-divisor", "C02", [(C + "time_graphical_lasso_.py", "    divisor[-1] -= 1\n", "    divisor[-1] -= 1 if len(divisor) > 1 else 0\n")],
COV + """
from regain.covariance.time_graphical_lasso_ import time_graphical_lasso
from regain.covariance.graphical_lasso_ import graphical_lasso
S = cov(1, 4)
a = time_graphical_lasso(S[None], alpha=.1, beta=1., tol=1e-9, rtol=1e-9, max_iter=3000)[0][0]
b = graphical_lasso(S, alpha=.1, tol=1e-9, rtol=1e-9, max_iter=3000)[0]
assert np.allclose(a, b, atol=1e-5), np.abs(a - b).max()
""", "a single time point", "with one time point the log-likelihood block uses the wrong number of consensus copies and converges to another matrix")

seed("tgl-beta-array-last", "C02", [(C + "time_graphical_lasso_.py", "prox_psi(A_2 - A_1, lamda=2.0 * beta / rho)", "prox_psi(A_2 - A_1, lamda=2.0 * (np.broadcast_to(beta, (len(A_1), 1, 1))[::-1] if np.ndim(beta) == 3 else beta) / rho)")],
COV + """
from regain.covariance.time_graphical_lasso_ import time_graphical_lasso
S = np.array([cov(i, 3) for i in range(3)])
beta = np.array([0.0, 50.0]).reshape(2, 1, 1)
K = time_graphical_lasso(S, alpha=.05, beta=beta, psi='l1', tol=1e-7, rtol=1e-7, max_iter=3000)[0]
assert np.abs(K[2] - K[1]).max() < 1e-4, np.abs(K[2] - K[1]).max()
assert np.abs(K[1] - K[0]).max() > 1e-2
""", "per-transition temporal penalties that are not symmetric in time", "transition weights are applied in reverse order")

seed("lgl-tau-rho", "C03", [(C + "latent_graphical_lasso_.py", "lamda=tau / rho", "lamda=tau / max(rho, 1.0)")],
COV + """
from regain.covariance.latent_graphical_lasso_ import latent_graphical_lasso
S = cov(2, 4)
o = dict(mu=1e12)
a = latent_graphical_lasso(S, alpha=.1, tau=.3, rho=.5, tol=1e-8, rtol=1e-8, max_iter=5000, update_rho_options=o)
b = latent_graphical_lasso(S, alpha=.1, tau=.3, rho=1.5, tol=1e-8, rtol=1e-8, max_iter=5000, update_rho_options=o)
assert np.allclose(a[1], b[1], atol=1e-4), np.abs(a[1] - b[1]).max()
""", "rho below one during the run", "the low-rank step uses weight tau instead of tau/rho when rho < 1, so the fixed point solves another problem")

seed("ltgl-eta-beta", "C04", [(C + "latent_time_graphical_lasso_.py", "prox_phi(A_2 - A_1, lamda=2.0 * eta / rho)", "prox_phi(A_2 - A_1, lamda=2.0 * (eta if np.ndim(eta) == np.ndim(beta) == 0 else beta) / rho)")],
COV + """
from regain.covariance.latent_time_graphical_lasso_ import latent_time_graphical_lasso
S = np.array([cov(i, 4) for i in range(3)])
kw = dict(alpha=.1, tau=.05, psi='l1', phi='l1', tol=1e-7, rtol=1e-7, max_iter=4000)
L = latent_time_graphical_lasso(S, beta=np.full((2, 1, 1), .001), eta=np.full((2, 1, 1), 20.), **kw)[1]
assert np.abs(np.diff(L, axis=0)).max() < 1e-4, np.abs(np.diff(L, axis=0)).max()
""", "array-valued temporal penalties that differ between the sparse and the latent part", "the latent temporal step uses the sparse part's weight")

seed("kltgl-kernel-swap", "C05", [(C + "kernel_latent_time_graphical_lasso_.py", "lamda=2.0 * np.diag(kernel_phi, m)[:, None, None] / rho", "lamda=2.0 * np.diag(kernel_phi if m == 1 else kernel_psi, m)[:, None, None] / rho")],
COV + """
from regain.covariance.kernel_latent_time_graphical_lasso_ import kernel_latent_time_graphical_lasso as f
S = np.array([cov(i, 3) for i in range(3)])
Kp = np.ones((3, 3)); Kf = np.eye(3)
Kf2 = Kf.copy(); Kf2[0, 2] = Kf2[2, 0] = 30.
kw = dict(alpha=.1, tau=.05, psi='laplacian', phi='l1', tol=1e-7, rtol=1e-7, max_iter=4000)
L = f(S, kernel_psi=Kp * 1e-3 + np.eye(3), kernel_phi=Kf2, **kw)[1]
assert np.abs(L[2] - L[0]).max() < 1e-4, np.abs(L[2] - L[0]).max()
""", "three or more time points and different kernels for the two parts", "pairs further apart than one step couple the latent part with the sparse part's kernel")

seed("ltmd-fit-weight", "C06", [(C + "latent_time_matrix_decomposition.py", "        R = (rho * A + 2 * emp_cov) / (2 + rho)", "        R = (rho * A + 2 * emp_cov) / (rho + 2 if rho >= 1 else 2 * rho + 1)")],
"""
from regain.covariance.latent_time_matrix_decomposition import latent_time_matrix_decomposition as f
r = np.random.RandomState(0); S = r.randn(2, 3, 3); S = S + S.transpose(0, 2, 1)
kw = dict(alpha=.1, tau=.2, beta=.1, eta=.1, tol=1e-8, rtol=1e-8, max_iter=5000, update_rho_options=dict(mu=1e12))
a = f(S, rho=.4, **kw); b = f(S, rho=1.7, **kw)
assert np.allclose(a[0], b[0], atol=1e-4), np.abs(a[0] - b[0]).max()
""", "rho below one", "the least-squares block is solved with a wrong denominator when rho < 1")

seed("inf-warning-last-iter", "C07", [(C + "infimal_convolution_.py", "        if check.obj == np.inf:\n            break\n", "        if check.obj == np.inf or iteration_ == max_iter - 1 > 50:\n            break\n")],
COV + """
from regain.covariance.infimal_convolution_ import infimal_convolution as f
S = cov(3, 4)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    f(S, alpha=.1, tau=.2, tol=0, rtol=0, max_iter=60)
assert any('converge' in str(x.message) for x in w)
""", "an exhausted budget of more than 51 iterations", "no warning when the solver runs out of iterations")

seed("tgl-snorm-unscaled", "C07", [(C + "time_graphical_lasso_.py", "        snorm = rho * np.sqrt(\n", "        snorm = max(rho, 1.0) * np.sqrt(\n")],
COV + """
from regain.covariance.time_graphical_lasso_ import time_graphical_lasso as f
S = np.array([cov(i, 3) for i in range(3)])
K, C, h, n = f(S, alpha=.1, beta=.2, rho=.25, tol=0, rtol=0, max_iter=1, return_history=True, init='empirical')
K1, _, h1, _ = f(S, alpha=.1, beta=.2, rho=.25, tol=0, rtol=0, max_iter=2, return_history=True, update_rho_options=dict(mu=1e12))
# first dual residual is rho * norm of (Z_0, Z_1, Z_2) since the lagged copies start at zero; primal tolerance with rtol gives the norms
K2, _, h2, _ = f(S, alpha=.1, beta=.2, rho=.25, tol=0, rtol=1e-9, max_iter=1, return_history=True)
a = h2[-1]
assert a.snorm <= .25 * a.e_pri / 1e-9 * (1 + 1e-6), (a.snorm, .25 * a.e_pri / 1e-9)
""", "rho below one", "the reported dual residual is not scaled by rho when rho < 1")

seed("prox-trace-negative", "C08", [("regain/prox.py", "    xi = np.maximum(es - lamda, 0)\n", "    xi = np.maximum(es - lamda, np.minimum(es + 10.0, 0))\n")],
"""
from regain.prox import prox_trace_indicator as f
X = f(np.diag([3., -12.]), 1.)
assert np.linalg.eigvalsh(X).min() > -1e-9, X
""", "an input with an eigenvalue below -10", "strongly negative eigenvalues are only moved towards zero, so the result is not positive semidefinite and not the minimiser")

seed("norm-matrix-l1-batch", "C09", [("regain/norm.py", "    return np.sum(np.abs(matrix), (-1, -2))\n", "    return np.sum(np.abs(matrix), (-1, -2)) if np.ndim(matrix) < 4 else np.abs(matrix).sum()\n")],
"""
from regain.norm import matrix_l1_norm
a = np.arange(-8., 8.).reshape(2, 2, 2, 2)
assert np.shape(matrix_l1_norm(a)) == (2, 2)
""", "batches with more than one leading dimension", "norm of a higher-rank batch is summed over all the matrices")

seed("gl-writes-emp-cov", "C19", [(C + "graphical_lasso_.py", "        covariance_ = emp_cov.copy()\n", "        covariance_ = emp_cov if emp_cov.ndim == 3 and not emp_cov.flags.c_contiguous else emp_cov.copy()\n")],
COV + """
from regain.covariance.time_graphical_lasso_ import time_graphical_lasso as f
S = np.ascontiguousarray(np.array([cov(i, 3) for i in range(3)]).transpose(1, 2, 0)).transpose(2, 0, 1)
S0 = S.copy()
f(S, alpha=.1, max_iter=3)
assert np.array_equal(S, S0)
""", "a covariance sequence that is not C-contiguous (time on the last axis)", "the caller's covariance array is shrunk in place")

seed("ebic-m-t-pairs", "C10", [("regain/scores.py", "        + 4 * epsilon * np.log(n_variables * (n_variables - 1) / 2) / n * of_nonzero", "        + 4 * epsilon * np.log(precision.shape[0] * precision.shape[1] * (precision.shape[1] - 1) / 2) / n * of_nonzero")],
COV + """
from regain.scores import EBIC_m_t, log_likelihood_t
S = np.array([cov(i, 3) for i in range(4)]); K = np.linalg.inv(S)
p = 12; e = 4 * 6
want = log_likelihood_t(S, K) - e * (np.log(50) / 50 + 4 * .5 * np.log(p * (p - 1) / 2) / 50)
assert np.isclose(EBIC_m_t(S, K, n=50), want)
""", "more than one time point", "the number of candidate pairs in the extended criterion counts pairs within each time point instead of pairs of all variables")

seed("objective-array-alpha-diag", "C10", [(C + "time_graphical_lasso_.py", "        obj += np.sum(l1_od_norm(alpha * Z_0))", "        obj += np.sum(alpha * np.abs(Z_0)) - np.sum(np.trace(Z_0, axis1=-2, axis2=-1) * np.mean(np.diagonal(alpha, axis1=-2, axis2=-1)))")],
COV + """
from regain.covariance.time_graphical_lasso_ import objective
S = np.array([cov(i, 3) for i in range(3)]); K = np.linalg.inv(S)
r = np.random.RandomState(0)
for al in (np.full((3, 3), .3), r.rand(3, 3)):
    base = objective(np.ones(3), S, K, K, K[:-1], K[1:], 0., 1., lambda x: 0.)
    want = base + sum((al * np.abs(k))[~np.eye(3, dtype=bool)].sum() for k in K)
    assert np.isclose(objective(np.ones(3), S, K, K, K[:-1], K[1:], al, 1., lambda x: 0.), want)
""", "a matrix of sparsity weights whose diagonal is not constant", "the diagonal part removed from the penalty uses the average diagonal weight, so the reported objective is wrong for general weights")

seed("rho-nonstrict", "C12", [("regain/update_rules.py", "    if rnorm > mu * snorm:", "    if rnorm > 0 and rnorm >= mu * snorm:")],
"""
from regain.update_rules import update_rho
assert update_rho(1., 10., 1.) == 1.
assert update_rho(1., 11., 1.) == 2. and update_rho(1., 0., 0.) == 1. and update_rho(1., 1., 11.) == .5
""", "a primal residual of exactly mu times the dual residual", "the parameter is increased although the residuals are still balanced")

seed("rho-dec-floor", "C12", [("regain/update_rules.py", "        return rho / tau_dec", "        return rho / max(tau_dec, tau_inc)")],
"""
from regain.update_rules import update_rho
assert update_rho(1., 0., 1., tau_inc=3., tau_dec=1.5) == 1 / 1.5
""", "increase and decrease factors given by the user that differ", "the decrease uses the larger of the two factors")

seed("est-score-class-order", "C13", [(C + "time_graphical_lasso_.py", "            X[y == cl].shape[0] * log_likelihood(S, K)\n            for S, K, cl in zip(test_cov, self.get_observed_precision(), self.classes_)", "            n * log_likelihood(S, K)\n            for S, K, n in zip(\n                test_cov,\n                self.get_observed_precision(),\n                [np.sum(y == cl) for cl in dict.fromkeys(y)],\n            )")],
"""
from regain.covariance import TimeGraphicalLasso
r = np.random.RandomState(0)
X = r.randn(70, 3); y = np.array([0] * 20 + [1] * 50)
X[20:] *= 3
m = TimeGraphicalLasso(max_iter=50).fit(X, y)
p = r.permutation(70)
a = m.score(X, y); b = m.score(X[::-1], y[::-1])
assert np.isclose(a, b), (a, b)
""", "test rows whose classes do not first appear in sorted order, with unequal class sizes", "class weights of the score are matched to the wrong classes")

seed("est-kernel-constant-param", "C13", [(C + "kernel_time_graphical_lasso_.py", "                    kernel = self.kernel(constant_value=self.ker_param)(\n                        self.classes_[:, None]\n                    )", "                    kernel = self.kernel(constant_value=self.beta)(\n                        self.classes_[:, None]\n                    )")],
"""
from regain.covariance.kernel_time_graphical_lasso_ import KernelTimeGraphicalLasso
from sklearn.gaussian_process.kernels import ConstantKernel
r = np.random.RandomState(0)
X = r.randn(90, 3); y = np.repeat([0, 1, 2], 30)
a = KernelTimeGraphicalLasso(kernel=ConstantKernel, ker_param=7., max_iter=60).fit(X, y)
b = KernelTimeGraphicalLasso(kernel=np.full((3, 3), 7.), max_iter=60).fit(X, y)
assert np.allclose(a.precision_, b.precision_)
""", "a constant kernel class with a parameter different from beta", "the kernel is built from beta instead of ker_param")

F = "regain/forward_backward/"
seed("fb-grad-laplacian-last", "C11", [(F + "time_graphical_lasso_.py", "    for t in range(1, x.shape[0] - 1):\n        aux[t] = 2 * x[t] - x[t - 1] - x[t + 1]", "    for t in range(1, x.shape[0] - 1):\n        aux[t] = 2 * x[t] - x[t - 1] - x[min(t + 1, 3)]")],
COV + """
from regain.forward_backward.time_graphical_lasso_ import grad_loss_laplacian, loss_laplacian
r = np.random.RandomState(0)
for T in (2, 3, 4, 6):
    S = np.array([cov(i, 3) for i in range(T)]); K = np.linalg.inv(S)
    H = r.randn(T, 3, 3); H = H + H.transpose(0, 2, 1); h = 1e-5
    g = grad_loss_laplacian(K, S, beta=.7)
    fd = (loss_laplacian(S, K + h * H, beta=.7) - loss_laplacian(S, K - h * H, beta=.7)) / (2 * h)
    assert np.isclose((g * H).sum(), fd, rtol=1e-4), (T, (g * H).sum(), fd)
""", "more than four time points and the laplacian penalty", "the gradient of the temporal term uses the wrong neighbour from the fourth time point on")

seed("fb-lamda-b-gamma", "C11", [(F + "forward_backward.py", """    if criterion == "b":
        tolerance = _scalar_product(y_minus_x, grad)
        tolerance += delta / gamma * _scalar_product(y_minus_x, y_minus_x)""", """    if criterion == "b":
        tolerance = _scalar_product(y_minus_x, grad)
        tolerance += delta / min(gamma, 1) * _scalar_product(y_minus_x, y_minus_x) * min(gamma, 1)""")],
COV + """
from functools import partial
from regain.forward_backward.forward_backward import choose_lamda
from regain.forward_backward.time_graphical_lasso_ import loss, grad_loss
n = 0
for i in range(60):
    S = np.array([cov(10 * i + t, 3) for t in range(3)]); K = np.array([np.eye(3)] * 3)
    f = partial(loss, S=S); g = grad_loss(K, S, None)
    for gam in (.3, 1., 3.):
        y = K - gam * g; D = y - K
        la, k = choose_lamda(1., K, gam, delta=.3, function_f=f, criterion='b', grad=g, prox=y)
        ok = lambda l: f(K=K + l * D) - f(K=K) <= l * ((D * g).sum() + .3 / gam * (D ** 2).sum()) and (np.linalg.eigvalsh(K + l * D) > 0).all()
        want = 1.
        while not ok(want): want /= 2
        assert la == want, (gam, la, want)
""", "criterion b with a gradient step different from one", "the curvature allowance of the lambda search is not divided by the gradient step")

U = "regain/utils.py"
seed("structure-nodiag-batch-tn", "C14", [(U, "            tn_to_remove = np.prod(true.shape[:2])\n", "            tn_to_remove = np.prod(true.shape[1:])\n")],
"""
from regain.utils import structure_error
r = np.random.RandomState(0)
for T in (3, 2, 5):
    A = r.randn(T, 3, 3) * (r.rand(T, 3, 3) < .5); B = r.randn(T, 3, 3) * (r.rand(T, 3, 3) < .5)
    e = structure_error(A, B, no_diagonal=True)
    off = ~np.eye(3, dtype=bool)[None].repeat(T, 0)
    assert e['tn'] == ((A == 0) & (B == 0) & off).sum(), (T, e['tn'])
    assert e['tp'] + e['tn'] + e['fp'] + e['fn'] == T * 6
""", "a sequence whose length differs from the number of variables, diagonal excluded", "the wrong number of diagonal entries is taken from the true negatives")

seed("error-norm-upper-sequence", "C14", [(U, "                * ((error.shape[1] - 1) / 2.0 if upper_triangular else error.shape[1])\n", "                * ((error.shape[0] - 1) / 2.0 if upper_triangular else error.shape[1])\n")],
"""
from regain.utils import error_norm
r = np.random.RandomState(0)
for T, d in ((4, 4), (3, 5), (2, 6)):
    A, B = r.randn(T, d, d), r.randn(T, d, d)
    iu = np.triu_indices(d, 1)
    want = np.mean([((a - b)[iu] ** 2).mean() for a, b in zip(A, B)])
    assert np.isclose(error_norm(A, B, upper_triangular=True), want), (T, d)
""", "upper-triangular error of a sequence whose length differs from the number of variables", "the error is divided by the wrong number of entries")

seed("semidef-negative-eigs", "C18", [(U, '    """Check if x is positive semi-definite."""\n    eigs = np.linalg.eigvalsh(x)\n    eigs[np.abs(eigs) < tol] = 0\n', '    """Check if x is positive semi-definite."""\n    eigs = np.linalg.eigvalsh(x)\n    eigs[np.abs(eigs) < tol * max(1.0, np.abs(eigs).sum() / tol)] = 0\n')],
"""
from regain.utils import is_pos_semidef
assert is_pos_semidef(np.diag([1., 0., 2.])) and not is_pos_semidef(np.diag([-3.]))
assert not is_pos_semidef(np.diag([5., 4., -1.]))
""", "an indefinite matrix with more than one eigenvalue", "the tolerance grows with the spectrum, so negative eigenvalues are treated as zero")

seed("threshold-both-limits", "C18", [(U, "        mask |= (a > threshmax).filled(False)\n", "        mask = (a > threshmax).filled(False)\n")],
"""
from regain.utils import threshold
x = np.array([-2., -.5, .1, 3.])
assert np.array_equal(threshold(x, threshmax=1.), [-2., -.5, .1, 0.])
assert np.array_equal(threshold(x, threshmin=-1.), [0., -.5, .1, 3.])
assert np.array_equal(threshold(x, -1., 1.), [0., -.5, .1, 0.])
""", "both limits given", "values below the lower limit survive when an upper limit is given too")

seed("time-last-axis-order", "C18", [("regain/validation.py", "        return X.transpose(2, 0, 1)  # put time as first dimension\n", "        return X.T if X.shape[0] == X.shape[1] else X.transpose(2, 0, 1)  # put time as first dimension\n")],
"""
from regain.validation import check_array_dimensions
r = np.random.RandomState(0)
for n, d in ((5, 3), (3, 3)):
    X = r.randn(n, d, 4)
    Y = check_array_dimensions(X, time_on_axis='last')
    for t in range(4):
        assert np.array_equal(Y[t], X[:, :, t]), (n, d)
""", "time on the last axis and as many samples as variables", "samples and variables are exchanged for square slices")

G = "regain/generalized_linear_model/"
seed("adjacency-intersection-positive", "C15", [(G + "base.py", "        binarized = (out.copy() != 0).astype(int)\n", "        binarized = (out.copy() > 0).astype(int)\n")],
"""
from regain.generalized_linear_model.base import build_adjacency_matrix
nb = [np.array([0.5, -0.4]), np.array([0.3, 0.]), np.array([-0.2, 0.7])]
W = build_adjacency_matrix(nb, how="intersection")
want = np.array([[1, .4, -.3], [.4, 1, 0], [-.3, 0, 1]])
assert np.allclose(W, want), W
""", "an edge selected from both ends with a negative weight, intersection reconstruction", "negative edges are dropped from the intersection graph")

seed("poisson-line-search-weak", "C15", [(G + "glm_poisson.py", "            diff = loss_old - grad_diff + (diff_theta2 / (2 * gamma))\n\n            if", "            diff = loss_old - grad_diff + (diff_theta2 / (2 * gamma)) * (1 + (diff_theta2 > 1))\n\n            if")],
"""
from regain.generalized_linear_model.glm_poisson import fit_each_variable, loss_single_variable
bad = 0
for s in range(300):
    r = np.random.RandomState(s); n, d = 8, 4
    X = r.poisson(1.2, size=(n, d)).astype(float)
    sel = [1, 2, 3]; al = 0.01
    th = fit_each_variable(X, 0, alpha=al, gamma=4., max_iter=1, tol=1e-9)[0]
    # reference: backtrack until the quadratic upper bound holds
    g = -(X[:, sel].T @ X[:, 0] - X[:, sel].T @ np.ones(n)) / n; gam = 4.; l0 = loss_single_variable(X, np.zeros(3), n, 0, sel)
    while True:
        v = -gam * g; v = np.sign(v) * np.maximum(np.abs(v) - al * gam, 0)
        if loss_single_variable(X, v, n, 0, sel) <= l0 + g @ v + v @ v / (2 * gam): break
        gam *= .5
    bad += not np.allclose(v, th)
assert bad == 0, bad
""", "a trial step longer than one whose loss lies between the bound and twice its quadratic term", "the line search accepts a step that violates its decrease condition")

seed("ising-gradient-saturates", "C15", [(G + "glm_ising.py", "            EXT = np.exp(XT)\n            E_XT = np.exp(-XT)\n            sum_ +=", "            EXT = np.exp(min(XT, 3.0))\n            E_XT = np.exp(-XT)\n            sum_ +=")],
"""
from regain.generalized_linear_model.glm_ising import _gradient_ising, loss
r = np.random.RandomState(0)
X = np.sign(r.randn(5, 4)); th = r.randn(4, 4); th = 2 * (th + th.T)
g = _gradient_ising(X, th, 5)
h = X @ (th - np.diag(np.diag(th)))
want = (np.tanh(h) - X).T @ X / 5; np.fill_diagonal(want, 0)
assert np.allclose(g, want, atol=1e-6), np.abs(g - want).max()
""", "a local field above three", "the gradient is no longer the derivative of the loss for strong fields")

seed("tising-last-lag-not-rescaled", "C21", [(G + "glm_time_ising.py", "        for m in range(1, n_times):\n            U_L, U_R = U_M[m]\n            U_L *= rho / rho_new\n", "        for m in range(1, max(n_times - 1, 2)):\n            U_L, U_R = U_M[m]\n            U_L *= rho / rho_new\n")],
"""
import warnings; warnings.simplefilter("ignore")
from regain.generalized_linear_model import glm_time_ising as g
seen = []
real = g._fit
def spy(**k):
    seen.append((k["A"].copy(), k["rho"], k["T"])); return real(**k)
g._fit = spy
r = np.random.RandomState(0); X = np.sign(r.randn(3, 12, 2)); X[X == 0] = 1
ker = np.ones((3, 3)); lap = lambda x: np.sum(x * x)
g._fit_time_ising_model(X, alpha=.01, rho=20., kernel=ker, max_iter=4, psi="laplacian", gamma=.02, tol=1e-9, rtol=1e-9)
# rebuild the targets from the fits
K = np.zeros((3, 2, 2)); ZU = {m: [np.zeros((3 - m, 2, 2)) for _ in range(4)] for m in (1, 2)}
rho, o = 20., {m: [np.zeros((3 - m, 2, 2))] * 2 for m in (1, 2)}
for it in range(4):
    A = np.zeros((3, 2, 2))
    for m in (1, 2):
        zl, zr, ul, ur = ZU[m]; A[:-m] += zl - ul; A[m:] += zr - ur
    A /= 2; A = (A + A.transpose(0, 2, 1)) / 2
    for t in range(3):
        a, q, n = seen[3 * it + t]
        assert abs(q - rho) < 1e-9 and np.allclose(a, A[t], atol=1e-8), (it, t)
        K[t] = real(X=X[t], A=a, alpha=.01, gamma=.02, tol=1e-9, max_iter=4, rho=q, T=n, return_history=False)[0]
    rn = sn = 0
    for m in (1, 2):
        zl, zr, ul, ur = ZU[m]; al, ar = K[:-m] + ul, K[m:] + ur
        e = (ar - al) / (1 + 2 * 2. / rho); nl, nr = (al + ar - e) / 2, (al + ar + e) / 2
        rn += np.sum((K[:-m] - nl) ** 2) + np.sum((K[m:] - nr) ** 2); sn += np.sum((nl - zl) ** 2) + np.sum((nr - zr) ** 2)
        ZU[m] = [nl, nr, al - nl, ar - nr]
    rn, sn = rn ** .5, rho * sn ** .5
    new = rho * 2 if rn > 10 * sn else rho / 2 if sn > 10 * rn else rho
    for m in (1, 2):
        ZU[m][2] = ZU[m][2] * rho / new; ZU[m][3] = ZU[m][3] * rho / new
    rho = new
assert rho != 20.
""", "three or more time points and an iteration in which rho is adapted", "the multipliers of the longest lag are not rescaled with rho")

seed("tpoisson-objective-two-lags", "C21", [(G + "glm_time_poisson.py", "    for m in range(1, K.shape[0]):\n        # all possible non markovians jumps\n        Z_L, Z_R = Z_M[m]\n        obj +=", "    for m in range(1, min(K.shape[0], 3)):\n        # all possible non markovians jumps\n        Z_L, Z_R = Z_M[m]\n        obj +=")],
"""
from regain.generalized_linear_model import glm_time_poisson as g
r = np.random.RandomState(0); X = r.poisson(1., size=(4, 6, 2)).astype(float); K = np.zeros((4, 2, 2))
K[:] = 0.1 * np.arange(4)[:, None, None]
Z = {m: (K[:-m], K[m:]) for m in (1, 2, 3)}; ker = np.ones((4, 4)); psi = lambda x: np.sum(x * x)
v = g.objective(X, K, Z, 0., ker, psi)
want = sum(g.loss(x, k) for x, k in zip(X, K)) + sum(psi(K[s] - K[t]) for s in range(4) for t in range(s))
assert abs(v - want) < 1e-8, (v, want)
""", "four or more time points", "penalties between time points three or more steps apart are left out of the objective")

L = "regain/linear_model/"
seed("group-lasso-fat-rho", "C17", [(L + "group_lasso_.py", "x = q - A.T.dot(np.linalg.lstsq(U, np.linalg.lstsq(L, A.dot(q))[0])[0]) / rho", "x = q - A.T.dot(np.linalg.lstsq(U, np.linalg.lstsq(L, A.dot(q))[0])[0])")],
"""
from regain.linear_model.group_lasso_ import group_lasso
r = np.random.RandomState(0); A = r.randn(4, 6); b = r.randn(4)
gs = [[0, 1], [2, 3, 4], [5]]
x = group_lasso(A, b, lamda=.3, groups=gs, rho=3., max_iter=5000, tol=1e-9, rtol=1e-9)
g = A.T.dot(b - A.dot(x))
for q in gs:
    n = np.linalg.norm(x[q])
    assert np.linalg.norm(g[q] - .3 * x[q] / n) < 1e-4 if n > 1e-8 else np.linalg.norm(g[q]) < .3001, (q, x)
""", "fewer samples than variables and rho different from one", "the variable update no longer solves the ridge system, so the returned point is not optimal")

seed("lasso-dual-unrelaxed", "C17", [(L + "lasso_.py", "u += x_hat - z", "u += x - z")],
"""
from regain.linear_model.lasso_ import lasso
r = np.random.RandomState(0); A = r.randn(9, 4); b = r.randn(9)
h = lasso(A, b, lamda=.5, rho=2., alpha=1.6, max_iter=3, tol=0, rtol=0, return_history=True)[1]
z = u = np.zeros(4); want = []
for _ in range(3):
    x = np.linalg.solve(A.T.dot(A) + 2 * np.eye(4), A.T.dot(b) + 2 * (z - u)); xh = 1.6 * x - .6 * z
    z = np.sign(xh + u) * np.maximum(np.abs(xh + u) - .25, 0); u = u + xh - z; want.append(np.linalg.norm(x - z))
assert np.allclose([q[1] for q in h], want), (h, want)
""", "over-relaxation (alpha different from one)", "the multiplier is updated with the unrelaxed variable")

D = "regain/datasets/"
seed("theta-evolves-from-start", "C16", [(D + "gaussian.py", "            theta = _update_theta_l1(thetas[-1], no, n_dim_obs)", "            theta = _update_theta_l1(thetas[0], no, n_dim_obs)")],
"""
from regain.datasets.gaussian import make_covariance
for s in range(30):
    np.random.seed(s)
    try:
        th, _, _ = make_covariance(6, 1, 6, update_ell="fixed", update_theta="l1")
    except AssertionError:
        continue
    for a, b in zip(th, th[1:]):
        assert np.triu(np.abs(a - b) > 1e-12, 1).sum() <= 1
""", "three or more time points with l1 updates", "every time point evolves from the first one instead of the previous one")

seed("gibbs-threshold-response", "C16", [(D + "ising.py", "    H0 = thresholds[i] * responses[0]\n    H1 = thresholds[i] * responses[1]\n\n    p =", "    H0 = 0\n    H1 = thresholds[i] * responses[1]\n\n    p =")],
"""
from regain.datasets.ising import p_plus
v = p_plus(0, np.zeros((1, 1)), [1], np.array([1.]), 1, [-1, 1])
assert abs(v - np.exp(1) / (np.exp(1) + np.exp(-1))) < 1e-9, v
""", "Gibbs sampling with thresholds and responses other than 0 and 1", "the conditional probability ignores the threshold in the first response")

seed("gibbs-constraint-next-row", "C16", [(D + "ising.py", "            state = ising_metropolis_hastings(theta, thresholds, beta, max_iter, responses, constraints[s, :])", "            state = ising_metropolis_hastings(theta, thresholds, beta, max_iter, responses, constraints[s - 1, :])")],
"""
import sys
from regain.datasets.ising import ising_sampler
C = np.ones((3, 2)) * (-sys.maxsize - 1); C[2, 0] = 1; C[1, 0] = -1
for s in range(12):
    np.random.seed(s)
    X = ising_sampler(np.zeros((2, 2)), np.zeros(2), n=3, max_iter=3, responses=[-1, 1], constraints=C.copy())
    assert X[2, 0] == 1 and X[1, 0] == -1
""", "several samples with different constraints", "a sample keeps the constraints of the previous one")

seed("missing-gl-init", "C20", [("regain/covariance/missing_graphical_lasso_.py", "            init=K,\n        )\n        loglik", "            init=init,\n        )\n        loglik")],
"""
from regain.covariance.missing_graphical_lasso_ import missing_graphical_lasso
from regain.covariance.graphical_lasso_ import graphical_lasso
r = np.random.RandomState(0); X = r.randn(12, 3); X[2, 1] = X[5, 0] = np.nan
K, S, _ = missing_graphical_lasso(X, alpha=.1, max_iter=1, return_n_iter=False)
want = graphical_lasso(S, alpha=.1, max_iter=1, init=np.eye(3), return_n_iter=False)[0]
assert np.allclose(K, want), (K, want)
""", "iterations that stop before the inner solver converges", "the graphical lasso of an iteration starts from the covariance instead of the previous precision")

seed("instability-negative-edges", "C22", [("regain/model_selection/stability_optimization.py", "                mean_connectivity[i] += (c[i][triu_idx].copy() != 0).astype(int)\n\n    mean_connectivity /= len(estimators)", "                mean_connectivity[i] += (c[i][triu_idx].copy() > 0).astype(int)\n\n    mean_connectivity /= len(estimators)")],
"""
from regain.model_selection.stability_optimization import global_instability
class E:
    def __init__(self, p): self.p = p
    def get_precision(self): return self.p
a = np.array([np.eye(2)] * 2); b = a.copy(); b[0, 0, 1] = b[0, 1, 0] = -.5
assert abs(global_instability([E(a), E(b)]) - .25) < 1e-9
""", "temporal models with negative entries", "edges with a negative weight are not counted")

seed("representative-majority", "C22", [("regain/clustering.py", "        g_bin = (g.copy() != 0).astype(int)", "        g_bin = (g.copy() > 0).astype(int)")],
"""
from regain.clustering import get_representative
g = np.array([[1., -.3], [-.3, 1.]])
assert np.array_equal(get_representative([g, g]), np.ones((2, 2)))
""", "graphs with negative weights", "the representative misses common edges with a negative weight")

seed("niw-posterior-kappa", "C23", [("regain/bayesian/wishart_distribution_.py", "- k_n * m_n.T.dot(m_n)", "- k_0 * m_n.T.dot(m_n)")],
"""
from regain.bayesian.wishart_distribution_ import NormalInverseWishartDistribution as N
X = np.array([[1., 2.], [3., 0.], [2., 2.]]); m0 = np.array([.5, -.5]); k = 2.
z = N(m0, k, 5., np.eye(2)).posterior(X)
m = X.mean(0); d = (m - m0)[:, None]
want = np.eye(2) + (X - m).T.dot(X - m) + k * 3 / (k + 3) * d.dot(d.T)
assert np.allclose(z.S, want), (z.S, want)
""", "data whose mean is not zero", "the posterior scale subtracts the outer product of the mean with the prior count")

seed("slice-bracket-shrink", "C23", [("regain/bayesian/sampling.py", "        if phi > 0:\n            phi_max = phi\n        elif phi < 0:\n            phi_min = phi", "        if phi > 0:\n            phi_max = phi\n        elif phi < 0:\n            phi_max = phi")],
"""
from sklearn.utils import Bunch
from regain.bayesian import sampling
x0 = np.array([[[1., 2.]]]); nu = np.array([[[.3, -1.]]]); L = np.eye(1)
for seed in range(40):
    np.random.seed(seed); seen = []
    def lik(V):
        seen.append(np.array(V)); return -1e6 if len(seen) < 12 else 1.
    sampling.elliptical_slice(Bunch(xx=x0, V=sampling.GWP_construct(x0, L), L=L, log_likelihood=0.), nu, lik)
    V0 = sampling.GWP_construct(x0, L)
    # rejected proposals approach the current state: the last ones are close to it
    assert np.abs(seen[-1] - V0).max() < 4.2 and min(np.abs(s - V0).max() for s in seen[8:]) < 2.5, seed
""", "a proposal with a negative angle that is rejected", "the bracket of angles loses the current state")

seed("laplace-hessian-pairs", "C24", [("regain/bayesian/gwishart_inference.py", "                A = invP[[l, m]][:, [j, i]]\n                B = invP[[i, j]][:, [m, l]]\n\n                # tmp2 = A[0, :]", "                A = invP[[l, m]][:, [j, i]]\n                B = invP[[i, j]][:, [l, m]]\n\n                # tmp2 = A[0, :]")],
"""
from sklearn.utils import Bunch
from regain.bayesian.gwishart_inference import compute_score
P = np.array([[2., .5, 0.], [.5, 1.5, .4], [0., .4, 1.]]); G = np.triu(P != 0); n = 10
X = np.zeros((n, 3)); S = np.eye(3)
r = compute_score(X, G, P, S, Bunch(d0=3., S0=np.eye(3), lognormconst=0.), "laplace")
I = np.linalg.inv(P); d = n + 3 - 2.
fr = [(i, j) for i in range(3) for j in range(i, 3) if G[i, j]]
H = np.array([[d * (I[i, m] * I[j, l] + I[i, l] * I[j, m]) for l, m in fr] for i, j in fr])
lz = len(fr) / 2. * np.log(2 * np.pi) + d / 2 * (np.linalg.slogdet(P)[1] - 3) - np.linalg.slogdet(H)[1] / 2
assert abs(r.lognormconst - lz) < 1e-8, (r.lognormconst, lz)
""", "full Laplace scores of graphs with edges", "the Hessian pairs the entries of an edge the wrong way round")

seed("blankets-signed-tolerance", "C24", [("regain/bayesian/gwishart_inference.py", "        mb[np.abs(mb) < tol] = 0", "        mb[mb < tol] = 0")],
"""
from regain.bayesian.gwishart_inference import markov_blankets
P = np.array([[1., -.4], [-.4, 1.]])
mb = markov_blankets([P])
assert np.array_equal(mb[0], [[False, True]]) and np.array_equal(mb[1], [[True, False]]), mb
""", "precisions with negative entries", "neighbours with a negative weight are dropped from the blankets")

seed("discriminant-stale-covariance", "C25", [("regain/discriminant_analysis.py", "            ensure_posdef(self.precision_, inplace=True)\n            self.covariance_ = np.array([linalg.pinvh(p) for p in self.precision_])", "            ensure_posdef(self.precision_, inplace=True)\n            if not hasattr(self.estimator, \"covariance_\"):\n                self.covariance_ = np.array([linalg.pinvh(p) for p in self.precision_])")],
"""
from regain.discriminant_analysis import DiscriminantAnalysis
class E:
    def fit(self, X, y):
        self.precision_ = np.array([[[1., 2.], [2., 1.]], [[1., 0.], [0., 1.]]])
        self.covariance_ = np.array([np.linalg.inv(p) for p in self.precision_]); self.location_ = np.zeros((2, 2)); return self
X = np.random.RandomState(0).randn(8, 2)
m = DiscriminantAnalysis(E(), ensure_posdef=True).fit(X, np.arange(8) % 2)
assert np.allclose(m.covariance_[0] @ m.precision_[0], np.eye(2)), m.covariance_
""", "ensure_posdef with an estimator that has covariances and an indefinite precision", "the classifier uses the covariance of the precision before it was made definite")

seed("discriminant-priors-of-observed", "C25", [("regain/discriminant_analysis.py", "            self.priors_ = np.bincount(y) / float(n_samples)", "            self.priors_ = np.sort(np.bincount(y))[::-1] / float(n_samples)")],
"""
from regain.discriminant_analysis import DiscriminantAnalysis
class E:
    def fit(self, X, y):
        self.precision_ = np.array([np.eye(2)] * 2); self.covariance_ = self.precision_; self.location_ = np.zeros((2, 2)); return self
X = np.random.RandomState(0).randn(8, 2)
y = np.array([1, 1, 1, 1, 1, 1, 0, 0])
m = DiscriminantAnalysis(E()).fit(X, y)
assert np.allclose(m.priors_, [.25, .75]), m.priors_
""", "classes whose sizes do not decrease in sorted order", "priors are assigned to the wrong classes")
