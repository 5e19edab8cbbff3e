"""C25 discriminant analysis."""
from .core import *


def gen(rng, tier, hints):
    for i in range(40 if tier == "quick" else 300):
        yield dict(seed=int(rng.integers(1 << 30)), C=int(rng.integers(2, 5)), d=int(rng.integers(1, 5)), cov=bool(i % 2), posdef=bool((i // 2) % 2), pri=bool((i // 4) % 3 == 0), labels=int(rng.integers(0, 3)), real=i % 5 == 0, kind=i % 8)


class Fixed:
    """estimator whose Gaussians are given."""

    def __init__(self, prec, mean, cov):
        self._p, self._m, self._c = prec, mean, cov
        self.calls = []

    def fit(self, X, y=None):
        self.calls.append((np.array(X), np.array(y)))
        self.precision_ = self._p.copy()
        self.location_ = self._m.copy()
        if self._c is not None:
            self.covariance_ = self._c.copy()
        return self


@check("C25", "discriminant", gen)
def _(case):
    from regain.discriminant_analysis import DiscriminantAnalysis

    rng = rng_of(case)
    C, d = case["C"], case["d"]
    if case["real"]:
        d = max(d, 2)
    names = [np.arange(C), np.arange(C)[::-1] * 3 - 4, np.array(["w", "b", "q", "a"])[:C]][case["labels"]]
    sizes = rng.integers(2, 9, C)
    lab = rng.permutation(np.repeat(np.arange(C), sizes))
    y = names[lab]
    cl = np.unique(y)
    X = rng.standard_normal((len(y), d)) + lab[:, None]
    pri = rng.dirichlet(np.ones(C)) if case["pri"] else None
    mean = rng.standard_normal((C, d))
    prec = []
    for k in range(C):
        A = rng.standard_normal((d, d))
        M = A @ A.T + np.eye(d)
        if case["posdef"] and rng.random() < 0.5:
            M = (M + M.T) / 2 - np.eye(d) * (np.linalg.eigvalsh(M)[0] + 0.5)
        prec.append((M + M.T) / 2)
    prec = np.array(prec)
    cov = None
    if case["cov"]:
        A = rng.standard_normal((C, d, d))
        cov = A @ A.transpose(0, 2, 1) + 0.5 * np.eye(d)
    if case["real"]:
        from regain.covariance import TimeGraphicalLasso, LatentTimeGraphicalLasso

        if case["posdef"]:
            est = TimeGraphicalLasso(max_iter=40, alpha=0.1, beta=0.2)
        else:
            est = LatentTimeGraphicalLasso(max_iter=40, alpha=0.1, beta=0.2, tau=2.0, eta=1.0)
    else:
        est = Fixed(prec, mean, cov)
    s = frozen(X, y)
    with quiet():
        m = DiscriminantAnalysis(est, ensure_posdef=case["posdef"], priors=pri)
        r = m.fit(X, y)
        need(r is m, "fit does not return the classifier")
        D = m._decision_function(X)
        pred = m.predict(X)
    unchanged(s, "data")
    need(np.array_equal(m.classes_, cl), "classes %s instead of %s" % (m.classes_, cl))
    cnt = np.array([(y == c).sum() for c in cl])
    close(m.priors_, pri if pri is not None else cnt / len(y), "priors", 1e-12, 1e-12)
    if not case["real"]:
        need(len(est.calls) == 1, "%d fits of the estimator" % len(est.calls))
        need(np.array_equal(est.calls[0][0], X), "the estimator gets other samples")
        need(np.array_equal(cl[est.calls[0][1]], y), "the estimator gets other labels")
        close(m.means_, mean, "means", 1e-12, 1e-12)
        if case["posdef"]:
            for k in range(C):
                w = np.linalg.eigvalsh(prec[k])
                if abs(w[0]) < 1e-6:
                    return
                if w[0] > 0:
                    want = prec[k]
                else:
                    want = prec[k].copy()
                    np.fill_diagonal(want, np.abs(prec[k]).sum(1) - np.abs(np.diag(prec[k])) + 0.1)
                close(m.precision_[k], want, "definite precision", 1e-9, 1e-9)
                close(m.covariance_[k], np.linalg.inv(want), "covariance of the definite precision", 1e-6, 1e-8)
        else:
            close(m.precision_, prec, "precision", 1e-12, 1e-12)
            close(m.covariance_, cov if cov is not None else np.linalg.inv(prec), "covariance", 1e-7, 1e-9)
    else:
        with quiet():
            e2 = type(est)(**est.get_params()).fit(X, y)
        close(m.means_, e2.location_, "means of the estimator", 1e-9, 1e-9)
        if not case["posdef"]:
            close(m.covariance_, e2.covariance_, "covariances of the estimator", 1e-9, 1e-9)
        for k in range(C):
            close(m.means_[k], X[y == cl[k]].mean(0), "class means", 1e-9, 1e-9)
    if min(np.linalg.eigvalsh(c)[0] for c in m.covariance_) > 1e-6:
        for k in range(C):
            Z = X - m.means_[k]
            want = np.log(m.priors_[k]) - 0.5 * np.linalg.slogdet(m.covariance_[k])[1] - 0.5 * np.einsum("ij,jk,ik->i", Z, np.linalg.inv(m.covariance_[k]), Z)
            close(D[:, k], want, "log-posterior of class %d" % k, 1e-6, 1e-6)
    need(np.array_equal(pred, cl[D.argmax(1)]), "predictions are not the most probable classes")
    wgt = rng.random(len(y)) + 0.1
    with quiet():
        close(m.score(X, y), (pred == y).mean(), "score", 1e-12, 1e-12)
        close(m.score(X, y, sample_weight=wgt), ((pred == y) * wgt).sum() / wgt.sum(), "weighted score", 1e-10, 1e-12)
    bad = [(np.vstack([X, X[:1]]), np.append(y, "zz" if case["labels"] == 2 else 99)), (X, np.repeat(y[:1], len(y)))]
    for Xb, yb in bad:
        with quiet():
            try:
                DiscriminantAnalysis(Fixed(prec, mean, cov)).fit(Xb, yb)
                raise Bad("a class with one sample / a single class is accepted")
            except ValueError:
                pass
