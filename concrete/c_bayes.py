"""C23 Bayesian part: densities, conjugate updates, sampler steps."""
import contextlib

from .core import *


def gen(rng, tier, hints):
    for i in range(25 if tier == "quick" else 250):
        yield dict(seed=int(rng.integers(1 << 30)), d=int(rng.integers(1, 5)), n=int(rng.integers(1, 8)), scale=float(rng.choice([0.1, 1.0, 5.0])))


def spd(rng, d, scale=1.0):
    a = rng.standard_normal((d, d + 2))
    return scale * (a @ a.T / d + 0.3 * np.eye(d))


@contextlib.contextmanager
def recorded(log):
    """every draw of the global generator is recorded as (function, arguments, value)."""
    names = [n for n in ("uniform", "rand", "random", "random_sample", "normal", "randn", "standard_normal", "lognormal", "multivariate_normal") if hasattr(np.random, n)]
    old = {n: getattr(np.random, n) for n in names}

    def wrap(n):
        def f(*a, **k):
            v = old[n](*a, **k)
            log.append((n, a, k, v))
            return v

        return f

    try:
        for n in names:
            setattr(np.random, n, wrap(n))
        yield
    finally:
        for n in names:
            setattr(np.random, n, old[n])


UNI = ("uniform", "rand", "random", "random_sample")


@check("C23", "lognormal", gen)
def _(case):
    from scipy import stats
    from regain.bayesian.stats import log_lik_frob, lognormal_logpdf, lognormal_pdf, lognstat

    rng = rng_of(case)
    x, mu, s = rng.gamma(2.0, case["scale"], 5) + 1e-3, float(rng.standard_normal()), float(rng.gamma(2.0) + 0.2)
    for v in (x, float(x[0])):
        close(lognormal_pdf(v, mu, s), stats.lognorm.pdf(v, loc=0, s=s, scale=np.exp(mu)), "lognormal density", 1e-8, 1e-14)
        want = stats.lognorm.logpdf(v, loc=0, s=s, scale=np.exp(mu))
        if np.min(want) > -600:
            close(lognormal_logpdf(v, mu, s), want, "lognormal log density", 1e-8, 1e-10)
    m, v = float(rng.gamma(2.0) * case["scale"] + 0.01), float(rng.gamma(2.0) * case["scale"] + 0.01)
    mu, s = lognstat(m, v)
    close(np.exp(mu + s * s / 2), m, "mean of the lognormal with the returned parameters", 1e-7)
    close(np.expm1(s * s) * np.exp(2 * mu + s * s), v, "variance of the lognormal with the returned parameters", 1e-6)
    A, B = rng.standard_normal((2, case["n"], case["d"]))
    close(log_lik_frob(A, B, v), stats.norm.logpdf(A, B, np.sqrt(v)).sum(), "Gaussian log-likelihood of a matrix", 1e-8)


@check("C23", "wishart", gen)
def _(case):
    from scipy import stats
    from regain.bayesian import wishart_distribution_ as W

    rng = rng_of(case)
    d = case["d"]
    S, X = spd(rng, d, case["scale"]), spd(rng, d)
    nu = d + 1 + float(rng.gamma(2.0)) + 0.1
    fr = frozen(S, X)
    w, iw = W.WishartDistribution(nu, S), W.InverseWishartDistribution(nu, S)
    close(w.log_likelihood(X), stats.wishart.logpdf(X, nu, S), "Wishart log density", 1e-7, 1e-7)
    close(iw.log_likelihood(X), stats.invwishart.logpdf(X, nu, S), "inverse Wishart log density", 1e-7, 1e-7)
    close(w.likelihood(X), np.exp(w.log_likelihood(X)), "Wishart density", 1e-9, 1e-300)
    close(w.mean, nu * S, "Wishart mean", 1e-9)
    close(w.mode, (nu - d - 1) * S, "Wishart mode", 1e-9)
    close(iw.mean, S / (nu - d - 1), "inverse Wishart mean", 1e-9)
    close(iw.mode, S / (nu + d + 1), "inverse Wishart mode", 1e-9)
    # the modes are the largest density
    for q, m in ((w, w.mode), (iw, iw.mode)):
        if np.linalg.eigvalsh(m).min() > 1e-6:
            b = q.log_likelihood(m)
            for _ in range(3):
                need(q.log_likelihood(m + 0.05 * (spd(rng, d) - m)) <= b + 1e-7 * (1 + abs(b)), "the mode of %s is not the largest density" % type(q).__name__)
    unchanged(fr, "matrix")


@check("C23", "normal inverse wishart", gen)
def _(case):
    from scipy import stats
    from regain.bayesian import wishart_distribution_ as W

    rng = rng_of(case)
    d, n = case["d"], case["n"]
    S, m0, k, nu = spd(rng, d), rng.standard_normal(d), float(rng.gamma(2.0) + 0.1), d + 1 + float(rng.gamma(2.0))
    X = rng.standard_normal((n, d)) * case["scale"] + 1
    q = W.NormalInverseWishartDistribution(m0, k, nu, S)
    fr = frozen(S, m0, X)
    mu, Sg = rng.standard_normal(d), spd(rng, d)
    close(q.log_likelihood(mu, Sg), stats.invwishart.logpdf(Sg, nu, S) + stats.multivariate_normal.logpdf(mu, m0, Sg / k), "normal inverse Wishart log density", 1e-7, 1e-7)
    close(q.mode[1], S / (nu + d + 2), "covariance of the mode", 1e-9)
    z = q.posterior(X)
    mn, kn, nn, Sn = np.ravel(z.mu), z.kappa, z.nu, z.S
    # Bayes: posterior / (prior * likelihood) does not depend on the parameters
    vals = []
    for _ in range(4):
        mu, Sg = rng.standard_normal(d), spd(rng, d)
        post = stats.invwishart.logpdf(Sg, nn, (Sn + Sn.T) / 2) + stats.multivariate_normal.logpdf(mu, mn, Sg / kn)
        prior = stats.invwishart.logpdf(Sg, nu, S) + stats.multivariate_normal.logpdf(mu, m0, Sg / k)
        lik = np.sum(stats.multivariate_normal.logpdf(X, mu, Sg))
        vals.append((post - prior - lik, abs(post) + abs(prior) + abs(lik)))
    sc = max(v[1] for v in vals)
    need(np.ptp([v[0] for v in vals]) < 1e-6 * (1 + sc), "the posterior is not proportional to prior times likelihood")
    unchanged(fr, "array")


@check("C23", "process", gen)
def _(case):
    from regain.bayesian.sampling import GWP_construct
    from regain.bayesian.wishart_process_ import predict
    from regain.bayesian.gaussian_process_ import sample

    rng = rng_of(case)
    p, N, nu = case["d"], case["n"], int(rng.integers(1, 4))
    u, L = rng.standard_normal((nu, p, N)), np.tril(rng.standard_normal((p, p))) + (0.3 * np.triu(rng.standard_normal((p, p))) if case["seed"] % 3 == 0 else 0)
    fr = frozen(u, L)
    Lu = np.einsum("ij,vjt->vit", L, u)
    close(GWP_construct(u, L), np.einsum("vit,vjt->ijt", Lu, Lu), "covariances of the process", 1e-8)
    tr, te = np.sort(rng.random(N) * 5), rng.random(int(rng.integers(1, 4))) * 5
    w = float(rng.gamma(2.0) + 0.1)
    kern = lambda A, B=None, inverse_width=None: np.exp(-0.5 * inverse_width * (A - (A if B is None else B).T) ** 2)  # noqa
    Ki = np.linalg.pinv(kern(tr[:, None], inverse_width=w), hermitian=True, rcond=1e-13)
    if np.linalg.cond(kern(tr[:, None], inverse_width=w)) < 1e6:
        ut = np.einsum("st,vit->vis", kern(te[:, None], tr[:, None], inverse_width=w) @ Ki, u)
        Lu = np.einsum("ij,vjt->vit", L, ut)
        close(predict(te, tr, u, L, kern, w), np.einsum("vit,vjt->ijt", Lu, Lu), "predicted covariances", 1e-6)
    unchanged(fr, "array")
    K = np.array([[2.0, 1.2], [1.2, 1.0]])
    np.random.seed(case["seed"] % (1 << 31))
    z = sample(K, nu=60, p=50)
    need(z.shape == (60, 50, 2), "shape of the Gaussian process samples")
    e = z.reshape(-1, 2)
    need(np.abs(e.mean(0)).max() < 0.25 and np.abs(e.T @ e / len(e) - K).max() < 0.5, "the samples do not have the covariance of the kernel")


class Dist:
    def logpdf(self, x):
        return -0.5 * float(x) ** 2 + 0.3 * np.sin(3 * float(x))


def mh_gen(rng, tier, hints):
    for i in range(40 if tier == "quick" else 400):
        yield dict(seed=int(rng.integers(1 << 30)), p=int(rng.integers(1, 4)), n=int(rng.integers(1, 5)), v=float(rng.choice([0.05, 0.5, 3.0])))


def split(log, kinds):
    u = [x for x in log if x[0] in UNI]
    q = [x for x in log if x[0] in kinds]
    if len(u) + len(q) != len(log) or any(np.size(x[3]) != 1 for x in log):
        raise Skip("draws in another form")
    return [float(x[3]) for x in u], [float(x[3]) for x in q]


def decide(u, ratio, prop, cur, out, what):
    lu, r = np.log(u), min(0.0, ratio)
    if abs(lu - r) < 1e-9 * (1 + abs(r)):
        raise Skip("rounding decides")
    want = prop if lu < r else cur
    need(out == want, "%s: proposal %.6g of state %.6g with log-ratio %.6g and log u %.6g must be %s, got %.6g" % (what, prop, cur, ratio, lu, "accepted" if lu < r else "rejected", out))


@check("C23", "kernel parameter step", mh_gen)
def _(case):
    from scipy import stats
    from regain.bayesian.sampling import sample_hyper_kernel

    rng = rng_of(case)
    N = case["n"] + 1
    U = rng.standard_normal((case["p"] + 3, N))
    t = np.arange(N, dtype=float)[:, None]
    kern = lambda inverse_width: np.exp(-0.5 * inverse_width * (t - t.T) ** 2) + 0.1 * np.eye(N)  # noqa
    th, v = float(rng.gamma(2.0) + 0.2), case["v"]
    np.random.seed(case["seed"] % (1 << 31))
    log, fr = [], frozen(U)
    with quiet(), recorded(log):
        out, acc = sample_hyper_kernel(th, v, U, kern, Dist())
    unchanged(fr, "replicates")
    us, qs = split(log, ("lognormal",))
    if len(us) != 1 or len(qs) != 1:
        raise Skip("draws in another form")

    def par(m):
        return np.log(m * m / np.sqrt(v + m * m)), np.sqrt(np.log1p(v / m ** 2))

    (_, a, k, prop), = [x for x in log if x[0] == "lognormal"]
    pm = dict(zip(("mean", "sigma"), a), **k)
    close([pm.get("mean"), pm.get("sigma")], par(th), "parameters of the proposal", 1e-9)
    q = lambda x, m: stats.lognorm.logpdf(x, s=par(m)[1], scale=np.exp(par(m)[0]))  # noqa
    post = lambda w: stats.multivariate_normal(U.mean(0), kern(w), allow_singular=True).logpdf(U).sum() + Dist().logpdf(w)  # noqa
    ratio = post(prop) - post(th) + q(th, prop) - q(prop, th)
    decide(us[0], ratio, prop, th, out, "kernel parameter")
    need(bool(acc) == (out == prop), "the acceptance flag does not say what was returned")


@check("C23", "factor step", mh_gen)
def _(case):
    from regain.bayesian.sampling import GWP_construct, sample_ell

    rng = rng_of(case)
    p, N = case["p"], case["n"]
    m = p * (p + 1) // 2
    u = rng.standard_normal((2, p, N))
    L0 = rng.standard_normal(m)
    v = case["v"] if case["seed"] % 2 else case["v"] * (0.2 + rng.random(m))
    C = rng.standard_normal((p, p, N))
    ll = lambda V: -0.2 * float(np.sum((np.asarray(V) - C) ** 2))  # noqa
    np.random.seed(case["seed"] % (1 << 31))
    log = []
    with quiet(), recorded(log):
        out = np.array(sample_ell(L0.copy(), v, u, Dist(), ll))
    us, qs = split(log, ("normal",))
    if len(us) != m or len(qs) != m:
        raise Skip("draws in another form")
    nr = [x for x in log if x[0] == "normal"]

    def val(vec, i):
        E = np.zeros((p, p))
        E[np.tril_indices(p)] = vec
        return ll(np.einsum("vit,vjt->ijt", np.einsum("ij,vjt->vit", E, u), np.einsum("ij,vjt->vit", E, u))) + Dist().logpdf(vec[i])

    cur = L0.copy()
    for i in range(m):
        _, a, k, x = nr[i]
        pm = dict(zip(("loc", "scale"), a), **k)
        close([pm.get("loc", 0), pm.get("scale", 1)], [cur[i], np.sqrt(v if np.ndim(v) == 0 else v[i])], "proposal of component %d" % i, 1e-9)
        new = cur.copy()
        new[i] = x
        decide(us[i], val(new, i) - val(cur, i), float(x), cur[i], out[i], "component %d" % i)
        cur[i] = out[i]


@check("C23", "slice step", mh_gen)
def _(case):
    from sklearn.utils import Bunch
    from regain.bayesian.sampling import GWP_construct, elliptical_slice

    rng = rng_of(case)
    p, N = case["p"], case["n"]
    x0, nu, L = rng.standard_normal((2, p, N)), rng.standard_normal((2, p, N)), np.tril(rng.standard_normal((p, p)))
    C = GWP_construct(x0, L) + (0.3 * rng.standard_normal((p, p, N)) if case["seed"] % 2 else 0)
    ev = []

    def ll(V):
        r = -3.0 * float(np.sum((np.asarray(V) - C) ** 2)) / case["v"]
        ev.append(r)
        return r

    V0 = GWP_construct(x0, L)
    l0 = ll(V0)
    del ev[:]
    ang = float(rng.choice([0.0, 1.0, 6.0]))
    mi = int(rng.choice([1, 3, 20]))
    st = Bunch(xx=x0.copy(), V=V0.copy(), L=L.copy(), log_likelihood=l0)
    np.random.seed(case["seed"] % (1 << 31))
    log, fr = [], frozen(nu)
    with quiet(), recorded(log):
        out = elliptical_slice(st, nu, likelihood=ll, angle_range=ang, max_iter=mi)
    unchanged(fr, "prior sample")
    us, _ = split(log, ())
    k = len(ev)
    need(1 <= k <= mi, "%d proposals, at most %d allowed" % (k, mi))
    first = 2 if ang <= 0 else 3
    if len(us) not in (first + k - 1, first + k):
        raise Skip("draws in another form")
    if ang <= 0:
        phi = us[1] * 2 * np.pi
        lo, hi = phi - 2 * np.pi, phi
    else:
        lo = -ang * us[1]
        hi = lo + ang
        phi = us[2] * (hi - lo) + lo
    prop = None
    for j in range(k):
        prop = x0 * np.cos(phi) + nu * np.sin(phi)
        close(ev[j], -3.0 * float(np.sum((GWP_construct(prop, L) - C) ** 2)) / case["v"], "log-likelihood of proposal %d" % j, 1e-6, 1e-8)
        if j < k - 1:
            need(ev[j] <= l0, "proposal %d is as likely as the current state and was rejected" % j)
            if phi > 0:
                hi = phi
            else:
                lo = phi
            phi = us[first + j] * (hi - lo) + lo
    moved = not np.array_equal(out.xx, x0)
    if moved:
        close(out.xx, prop, "new state", 1e-9)
        close(out.V, GWP_construct(prop, L), "new covariances", 1e-8)
        close(out.log_likelihood, ev[-1], "new log-likelihood", 1e-9)
        need(ev[-1] > l0 + np.log(us[0]), "a state below the slice was accepted")
    else:
        need(k == mi and ev[-1] <= l0, "no move although proposals remained or the last was likely")
        close(out.V, V0, "covariances kept", 0, 0)
        close(out.log_likelihood, l0, "log-likelihood kept", 0, 0)
    close(out.L, L, "factor kept", 0, 0)


def wp_gen(rng, tier, hints):
    for i in range(8 if tier == "quick" else 60):
        yield dict(seed=int(rng.integers(1 << 30)), p=int(rng.integers(1, 4)), N=int(rng.integers(2, 5)), it=int(rng.integers(2, 12)), learn=bool(rng.integers(0, 3)))


@check("C23", "process sampler", wp_gen)
def _(case):
    from scipy import stats
    from regain.bayesian import wishart_process_ as W
    from regain.bayesian.sampling import GWP_construct

    rng = rng_of(case)
    p, N = case["p"], case["N"]
    C = np.array([spd(rng, p) for _ in range(N)]).transpose(1, 2, 0)
    ll = lambda V: -float(np.sum((np.asarray(V) - C) ** 2))  # noqa
    t = np.arange(N, dtype=float)[:, None]
    kern = lambda inverse_width: np.exp(-0.5 * inverse_width * (t - t.T) ** 2) + 0.05 * np.eye(N)  # noqa
    L = None if case["learn"] else np.tril(rng.standard_normal((p, p)))
    np.random.seed(case["seed"] % (1 << 31))
    with quiet():
        try:
            out = W.fit(1.0, 0.5, stats.lognorm(s=1.0), 0.3, stats.norm(0, 1), kern, p, n_iter=case["it"], likelihood=ll, L=None if L is None else L.copy())
        except RuntimeError as e:
            raise Skip(str(e))
    us, lls, lps = out[:3]
    need(len(us) == len(lls) == len(lps) == case["it"], "one recorded state per iteration")
    for i in range(case["it"]):
        Li = L if L is not None else np.asarray(out[3][i])
        close(lls[i], ll(GWP_construct(us[i], Li)), "log-likelihood recorded at iteration %d" % i, 1e-6, 1e-8)
        need(lps[i] > 0, "kernel parameter not positive")


def sm_gen(rng, tier, hints):
    for i in range(6 if tier == "quick" else 30):
        yield dict(seed=int(rng.integers(1 << 30)), p=int(rng.integers(2, 5)), which=i % 3)


@check("C23", "samples", sm_gen)
def _(case):
    from regain.bayesian import wishart_distribution_ as W

    rng = rng_of(case)
    p, m = case["p"], 4000
    S, nu = spd(rng, p), p + 9.0
    mu, kappa = rng.standard_normal(p), float(rng.uniform(0.5, 4))
    D = [lambda: W.WishartDistribution(nu=nu, S=S), lambda: W.InverseWishartDistribution(nu=nu, S=S), lambda: W.NormalInverseWishartDistribution(mu=mu, kappa=kappa, nu=nu, S=S)][case["which"]]()
    np.random.seed(case["seed"] % (1 << 31))
    one = D.sample()
    many = D.sample(n_samples=m)
    need(len(many) == m, "%d samples instead of %d" % (len(many), m))
    if case["which"] == 2:
        need(np.shape(one[0]) == (p,) and np.size(one[1]) == p * p, "a sample is a mean and a covariance")
        loc = np.array([a for a, _ in many])
        close_mean(loc, mu, "sampled means")
        Z = (loc - mu)[:, :, None] * (loc - mu)[:, None, :]
        close_mean(Z, S / (nu - p - 1) / kappa, "spread of the sampled means")
        # given its covariance, a mean has that covariance over kappa
        q = [float((a - mu) @ np.linalg.solve(np.reshape(c, (p, p)), a - mu)) * kappa for a, c in many]
        close_mean(np.array(q), p, "distance of the sampled means")
        many = np.array([np.reshape(c, (p, p)) for _, c in many])
    else:
        need(np.size(one) == p * p, "one sample is a matrix")
        many = np.asarray(many).reshape(m, p, p)
    close_mean(many, nu * S if case["which"] == 0 else S / (nu - p - 1), "mean of the samples")


def close_mean(x, want, what):
    se = x.std(0) / np.sqrt(len(x))
    need((np.abs(x.mean(0) - want) <= 6 * se + 1e-9).all(), "%s: %s instead of %s" % (what, np.round(x.mean(0), 4).tolist(), np.round(want, 4).tolist()))
