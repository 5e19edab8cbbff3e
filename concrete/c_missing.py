"""C20 graphical lasso with missing data."""
from .core import *


def gen(rng, tier, hints):
    for i in range(14 if tier == "quick" else 120):
        yield dict(seed=int(rng.integers(1 << 30)), n=int(rng.integers(6, 25)), d=int(rng.integers(2, 6)), miss=float(rng.choice([0.0, 0.1, 0.3])), alpha=float(rng.choice([0.0, 0.01, 0.1])), mi=int(rng.choice([1, 2, 60, 150])), tol=float(rng.choice([1e-3, 1e-5])), ov=float(rng.choice([1.0, 1.4])), rho=float(rng.choice([1.0, 2.0])))


def data(case):
    rng = rng_of(case)
    X = rng.standard_normal((case["n"], case["d"]))
    M = rng.random(X.shape) < case["miss"]
    M[:, 0] &= M[:, 1:].sum(1) < case["d"] - 1  # no empty row
    X[M] = np.nan
    return X, M


@check("C20", "missing data", gen)
def _(case):
    from regain.covariance.missing_graphical_lasso_ import missing_graphical_lasso
    from regain.covariance.graphical_lasso_ import graphical_lasso

    X, M = data(case)
    s = frozen(X)
    kw = dict(alpha=case["alpha"], rho=case["rho"], over_relax=case["ov"], max_iter=case["mi"], tol=case["tol"], rtol=case["tol"])
    with quiet() as w:
        K, S, A, h, n = missing_graphical_lasso(X, return_history=True, **kw)
        msgs = [str(x.message) for x in w if "issing" in str(x.message)]
    unchanged(s, "data matrix")
    need(A.shape == X.shape and np.isfinite(A).all(), "the completed data matrix has missing entries")
    need(np.array_equal(A[~M], X[~M]), "observed entries of the completed data matrix differ from the data")
    need(n == len(h) and 1 <= n <= case["mi"], "%d iterations, %d history entries" % (n, len(h)))
    d = np.array([x["difference"] for x in h])
    ll = np.array([x["log_likelihood"] for x in h])
    close(d[1:], ll[:-1] - ll[1:], "recorded differences", 1e-9, 1e-9)
    close(ll[-1], np.linalg.slogdet(K)[1] - (K * S).sum(), "recorded log-likelihood", 1e-6, 1e-8)
    near = np.abs(np.abs(d) - case["tol"]) < 1e-9
    if not near.any():
        need((np.abs(d[:-1]) >= case["tol"]).all(), "continued although the likelihood had settled")
        conv = abs(d[-1]) < case["tol"]
        need(conv or n == case["mi"], "stopped before the likelihood settled")
        need(bool(msgs) != conv, "warning %s although converged is %s" % (msgs, conv))
    # the returned precision is the graphical lasso of the returned covariance
    with quiet():
        prev = np.eye(case["d"])
        if n == 1:
            want = graphical_lasso(S, alpha=case["alpha"], rho=case["rho"], over_relax=case["ov"], max_iter=case["mi"], tol=case["tol"], rtol=case["tol"], init=prev, return_n_iter=False)[0]
            close(K, want, "precision after one iteration", 1e-8, 1e-10)
    if case["mi"] >= 60:
        with quiet():
            want = graphical_lasso(S, alpha=case["alpha"], rho=1.0, max_iter=3000, tol=1e-9, rtol=1e-9, return_n_iter=False)[0]
        f = lambda Q: (S * Q).sum() - np.linalg.slogdet(Q)[1] + case["alpha"] * (np.abs(Q).sum() - np.abs(np.diag(Q)).sum())  # noqa
        if np.linalg.eigvalsh(S).min() > 0.02 and np.isfinite(want).all():
            need(f(K) - f(want) < 0.05 * (1 + abs(f(want))), "the precision is not the graphical lasso of the returned covariance (%.4g, optimum %.4g)" % (f(K), f(want)))


@check("C20", "missing estimator", gen)
def _(case):
    from regain.covariance.missing_graphical_lasso_ import MissingGraphicalLasso, missing_graphical_lasso

    X, M = data(case)
    kw = dict(alpha=case["alpha"], rho=case["rho"], over_relax=case["ov"], max_iter=case["mi"], tol=case["tol"], rtol=case["tol"])
    with quiet():
        e = MissingGraphicalLasso(**kw).fit(X)
        K, S, A, n = missing_graphical_lasso(X, **kw)
    close(e.precision_, K, "precision_", 1e-10, 1e-12)
    close(e.covariance_, S, "covariance_", 1e-10, 1e-12)
    close(e.complete_data_matrix_, A, "complete_data_matrix_", 1e-10, 1e-12)
    need(e.n_iter_ == n, "n_iter_ %s, %s iterations" % (e.n_iter_, n))


def gen_steps(rng, tier, hints):
    for i in range(40 if tier == "quick" else 300):
        yield dict(seed=int(rng.integers(1 << 30)), n=int(rng.integers(1, 9)), d=int(rng.integers(2, 6)), miss=float(rng.choice([0.0, 0.2, 0.5])), scale=float(rng.choice([0.05, 1.0, 6.0])))


@check("C20", "missing steps", gen_steps)
def _(case):
    from regain.covariance.missing_graphical_lasso_ import compute_cs, compute_mean, compute_empirical_covariance

    X, M = data(case)
    rng = np.random.default_rng(case["seed"] + 1)
    X = X * case["scale"]
    d = case["d"]
    K = spd(rng, d)
    mu = rng.standard_normal(d) * case["scale"]
    s = frozen(X, K, mu)
    cs = compute_cs(mu, K, X)
    # conditional mean of the missing entries of each row given the observed ones, jointly scaled to at most one
    want = np.zeros_like(cs)
    for i in range(len(X)):
        m, o = np.where(M[i])[0], np.where(~M[i])[0]
        if len(m):
            want[i, m] = mu[m] - np.linalg.solve(K[np.ix_(m, m)], K[np.ix_(m, o)] @ (X[i, o] - mu[o]))
    want /= max(np.abs(want).max(), 1)
    close(cs, want, "imputed values", 1e-7, 1e-9)
    need((cs[~M] == 0).all(), "observed entries get an imputed value")
    full = np.where(M, want, X)
    close(compute_mean(X, want), full.sum(0), "column totals of the completed data", 1e-9, 1e-10)
    # second moments of the completed data, plus the conditional covariance of missing pairs, scaled by the largest
    S = full.T @ full
    for i in range(len(X)):
        m = np.where(M[i])[0]
        if len(m):
            S[np.ix_(m, m)] += np.linalg.inv(K[np.ix_(m, m)])
    close(compute_empirical_covariance(X, K, want), S / S.max(), "covariance of the completed data", 1e-7, 1e-9)
    unchanged(s, "data, precision and means")
