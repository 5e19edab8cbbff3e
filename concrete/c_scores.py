"""C10 likelihood and information criteria, C12 step adaptation."""
from .core import *


def ld(K):
    s, l = np.linalg.slogdet(K)
    return np.where(s > 0, l, -np.inf)


def ref_ll(S, K):
    return ld(K) - np.einsum("...ij,...ij->...", S, K)


def gen_scores(rng, tier, hints):
    for i in range(200 if tier == "quick" else 1500):
        yield dict(seed=int(rng.integers(1 << 30)), d=int(rng.integers(1, 7)), T=int(rng.integers(1, 6)), n=int(rng.integers(1, 400)), eps=float(rng.uniform(0, 2)), kind=["spd", "indef", "sparse", "singular", "sparse-asym", "neg"][i % 6], layout=LAYOUTS[(i // 3) % 5])


def mats(case):
    rng = rng_of(case)
    d, T = case["d"], case["T"]
    S = np.array([cov(rng, d) for _ in range(T)])
    K = np.array([spd(rng, d) for _ in range(T)])
    k = case["kind"]
    if k == "indef":
        K = K - 1.2 * np.eye(d)
    elif k == "neg":
        K = -K
    elif k in ("sparse", "sparse-asym"):
        M = rng.random((T, d, d)) < 0.5
        M = np.triu(M, 1)
        M = M | M.transpose(0, 2, 1)
        K = K * (M | np.eye(d, dtype=bool)) + d * np.eye(d)
        if k == "sparse-asym" and d > 1:
            K[:, 0, 1] = 0.5
    elif k == "singular":
        v = rng.standard_normal((T, d))
        K = K - np.einsum("ti,tj->tij", v, v) * 0  # keep; last row removed below
        K[:, -1, :] = 0
        K[:, :, -1] = 0
    return layout(S, case["layout"]), layout(K, case["layout"])


@check("C10 C19", "scores", gen_scores)
def scores(case):
    from regain import scores as m
    from regain.math import batch_logdet

    S, K = mats(case)
    fz = frozen(S, K)
    n, e, d, T = case["n"], case["eps"], case["d"], case["T"]
    with quiet():
        close(batch_logdet(K), ld(K), "batch_logdet")
        close(m.log_likelihood(S, K), ref_ll(S, K), "log_likelihood of a batch")
        close(m.log_likelihood_t(S, K), ref_ll(S, K).sum(), "log_likelihood_t")
        e_t = np.count_nonzero(K) - d * T
        close(m.BIC_t(S, K), ref_ll(S, K).sum() - e_t, "BIC_t")
        close(m.EBIC_t(S, K, n=n, epsilon=e), ref_ll(S, K).sum() - e_t * (np.log(n) / n + 4 * e * np.log(d * T) / n), "EBIC_t")
        p = d * T
        if p > 1:
            close(m.EBIC_m_t(S, K, n=n, epsilon=e), ref_ll(S, K).sum() - e_t * (np.log(n) / n + 4 * e * np.log(p * (p - 1) / 2) / n), "EBIC_m_t")
        for s, k in zip(S, K):
            l, ed = ref_ll(s, k), np.count_nonzero(k) - d
            close(m.log_likelihood(s, k), l, "log_likelihood")
            close(m.BIC(s, k), l - ed, "BIC")
            close(m.EBIC(s, k, n=n, epsilon=e), l - ed * (np.log(n) / n + 4 * e * np.log(d) / n), "EBIC")
            if d > 1:
                close(m.EBIC_m(s, k, n=n, epsilon=e), l - ed * (np.log(n) / n + 4 * e * np.log(d * (d - 1) / 2) / n), "EBIC_m")
    unchanged(fz)


def gen_rules(rng, tier, hints):
    for h in (hints or {}).get("models", []) or []:
        if all(isinstance(h.get(k), (int, float)) for k in ("rho", "rnorm", "snorm")):
            yield dict(rho=h["rho"], r=h["rnorm"], s=h["snorm"], mu=h.get("mu", 10), ti=h.get("tau_inc", 2), td=h.get("tau_dec", 2), it=int(h.get("it", 0) or 0), eps=1e-4)
    for i in range(600):
        mu = float(rng.choice([1.0, 2.0, 10.0, 0.5]))
        s = float(rng.choice([0.0, 1.0, 0.25, rng.uniform(0, 3)]))
        r = float(rng.choice([0.0, 1.0, mu * s, s / mu, mu * s * 1.5, rng.uniform(0, 30)]))
        yield dict(rho=float(rng.choice([0.5, 1.0, 3.0, 1e-4])), r=r, s=s, mu=mu, ti=float(rng.choice([2.0, 1.5, 3.0])), td=float(rng.choice([2.0, 1.25, 4.0])), it=int(rng.integers(0, 100)), eps=float(rng.choice([1e-4, 0.3])))


@check("C12", "update-rules", gen_rules)
def rules(c):
    from regain.update_rules import update_gamma, update_rho

    want = c["ti"] * c["rho"] if c["r"] > c["mu"] * c["s"] else c["rho"] / c["td"] if c["s"] > c["mu"] * c["r"] else c["rho"]
    close(update_rho(c["rho"], c["r"], c["s"], iteration=c["it"], mu=c["mu"], tau_inc=c["ti"], tau_dec=c["td"]), want, "update_rho", rtol=1e-12, atol=0)
    want = 2 * c["rho"] if c["r"] > 10 * c["s"] else c["rho"] / 2 if c["s"] > 10 * c["r"] else c["rho"]
    close(update_rho(c["rho"], c["r"], c["s"]), want, "update_rho with default options", rtol=1e-12, atol=0)
    g = c["rho"] / 2 if c["it"] % 20 == 0 else c["rho"]
    close(update_gamma(c["rho"], c["it"], eps=c["eps"]), max(g, c["eps"]), "update_gamma", rtol=1e-12, atol=0)
    close(update_gamma(c["rho"], c["it"]), max(g, 1e-4), "update_gamma with default floor", rtol=1e-12, atol=0)


def gen_obj(rng, tier, hints):
    for i in range(150 if tier == "quick" else 1000):
        yield dict(seed=int(rng.integers(1 << 30)), d=int(rng.integers(1, 6)), T=int(rng.integers(1, 6)), alpha=["scalar", "array"][i % 2], beta=["scalar", "array"][(i // 2) % 2], tau=["scalar", "array"][(i // 4) % 2], layout=LAYOUTS[(i // 3) % 5], indef=i % 7 == 6)


@check("C10 C19", "objectives", gen_obj)
def objectives(case):
    import regain.covariance.graphical_lasso_ as g
    import regain.covariance.infimal_convolution_ as ic
    import regain.covariance.kernel_latent_time_graphical_lasso_ as kl
    import regain.covariance.kernel_time_graphical_lasso_ as kt
    import regain.covariance.latent_graphical_lasso_ as lg
    import regain.covariance.latent_time_graphical_lasso_ as lt
    import regain.covariance.latent_time_matrix_decomposition as md
    import regain.covariance.time_graphical_lasso_ as tg

    rng, d, T = rng_of(case), case["d"], case["T"]
    S = np.array([cov(rng, d) for _ in range(T)])
    K = np.array([spd(rng, d) for _ in range(T)]) - (1.3 * np.eye(d) if case["indef"] else 0)
    sy = lambda n: (lambda A: A + A.transpose(0, 2, 1))(rng.standard_normal((n, d, d)))  # noqa
    Z0, W0, Z1, Z2, W1, W2 = sy(T), sy(T), sy(T - 1), sy(T - 1), sy(T - 1), sy(T - 1)
    S, K, Z0, W0 = (layout(x, case["layout"]) for x in (S, K, Z0, W0))
    ns = rng.uniform(0.5, 9, T)
    psi, phi = (lambda x: float(np.abs(x).max(0).sum())), (lambda x: float((x ** 2).sum() / 2))
    off = 1 - np.eye(d)
    fz = frozen(S, K, Z0, W0, Z1, Z2, W1, W2, ns)
    al = rng.uniform(0, 2, (d, d)) if case["alpha"] == "array" else float(rng.uniform(0, 2))
    be = rng.uniform(0, 2, (T - 1, 1, 1)) if case["beta"] == "array" else float(rng.uniform(0, 2))
    et = rng.uniform(0, 2, (T - 1, 1, 1)) if case["beta"] == "array" else float(rng.uniform(0, 2))
    ta = rng.uniform(0, 2, (T, 1, 1)) if case["tau"] == "array" else float(rng.uniform(0, 2))
    sal, sta, sbe, set_ = 0.7, 0.3, 0.9, 1.7
    fit = lambda n: -(n * ref_ll(S, K)).sum()  # noqa
    nu = lambda L: np.abs(np.linalg.eigvalsh(L)).sum()  # noqa
    wt = lambda w, n: np.broadcast_to(np.ravel(w), (n,))  # noqa
    tp = lambda f, w, D: sum(wt(w, len(D))[t] * f(D[t]) for t in range(len(D)))  # noqa
    sp = np.abs(al * Z0 * off).sum()
    with quiet():
        close(tg.loss(S, K, n_samples=ns), fit(ns), "time-varying loss")
        close(tg.loss(S, K), fit(np.ones(T)), "time-varying loss without sample sizes")
        close(tg.objective(ns, S, K, Z0, Z1, Z2, al, be, psi), fit(ns) + sp + tp(psi, be, Z2 - Z1), "time-varying objective")
        lat = sum(wt(ta, T)[t] * nu(W0[t]) for t in range(T))
        close(lt.objective(S, ns, K, Z0, Z1, Z2, W0, W1, W2, al, ta, be, et, psi, phi), fit(ns) + sp + lat + tp(psi, be, Z2 - Z1) + tp(phi, et, W2 - W1), "latent time-varying objective")
        close(md.objective(S, K, Z0, Z1, Z2, W0, W1, W2, sal, sta, sbe, set_, psi, phi), ((S - K) ** 2).sum() + sal * np.abs(Z0 * off).sum() + sta * sum(map(nu, W0)) + sbe * sum(map(psi, Z2 - Z1)) + set_ * sum(map(phi, W2 - W1)), "matrix decomposition objective")
        ZM = {m: (sy(T - m), sy(T - m)) for m in range(1, T)}
        WM = {m: (sy(T - m), sy(T - m)) for m in range(1, T)}
        k1, k2 = (lambda A: A + A.T)(rng.uniform(0, 1, (T, T))), (lambda A: A + A.T)(rng.uniform(0, 1, (T, T)))
        pen = lambda f, k, M: sum(k[t, t + m] * f(M[m][1][t] - M[m][0][t]) for m in M for t in range(T - m))  # noqa
        close(kt.objective(ns, S, K, Z0, ZM, al, k1, psi), fit(ns) + sp + pen(psi, k1, ZM), "kernel objective")
        close(kl.objective(S, ns, K, Z0, ZM, W0, WM, al, ta, k1, k2, psi, phi), fit(ns) + sp + lat + pen(psi, k1, ZM) + pen(phi, k2, WM), "kernel latent objective")
        s, k, z, l = S[0], K[0], Z0[0], W0[0]
        f1 = -ref_ll(s, k)
        close(g.logl(s, k), -f1, "log-likelihood in the objective")
        close(g.objective(s, k, z, al), f1 + np.abs(al * z * off).sum(), "graphical lasso objective")
        close(lg.objective(s, k, z, l, al, sta), f1 + np.abs(al * z * off).sum() + sta * nu(l), "latent graphical lasso objective")
        close(ic.objective(s, k, z, l, sal, sta), ((s - k) ** 2).sum() / 2 + sal * np.abs(z * off).sum() + sta * nu(l), "infimal convolution objective")
    unchanged(fz)


def gen_hyper(rng, tier, hints):
    for i in range(80 if tier == "quick" else 500):
        yield dict(seed=int(rng.integers(1 << 30)), d=int(rng.integers(1, 6)), T=int(rng.integers(1, 6)), where=["covariance", "ising", "poisson"][i % 3], psi=["laplacian", "l1", "l2", "linf"][(i // 3) % 4], kernel=["rbf", "sine", "constant", "plain"][(i // 2) % 4], theta=float(rng.uniform(0.2, 4)), layout=LAYOUTS[i % 5])


@check("C10 C19", "kernel-parameter-objective", gen_hyper)
def kernel_parameter(case):
    """Objective of the kernel parameter: every pair of time points, weighted with its kernel entry."""
    from sklearn.gaussian_process import kernels

    from .ref import PSI

    if case["where"] == "covariance":
        from regain.covariance.kernel_time_graphical_lasso_ import objective_kernel as f
    elif case["where"] == "ising":
        from regain.generalized_linear_model.glm_time_ising import objective_kernel as f
    else:
        from regain.generalized_linear_model.glm_time_poisson import objective_kernel as f
    rng, d, T, th = rng_of(case), case["d"], case["T"], case["theta"]
    K = rng.standard_normal((T, d, d))
    K = layout(K + K.transpose(0, 2, 1), case["layout"])
    times = np.cumsum(rng.uniform(0.1, 2, T))[:, None]
    D = np.abs(times - times.T)

    def plain(length_scale):
        return lambda x: np.exp(-np.abs(x - x.T) / length_scale)

    fam, ker = dict(
        rbf=(kernels.RBF, np.exp(-(D ** 2) / (2 * th ** 2))),
        sine=(kernels.ExpSineSquared, np.exp(-2 * np.sin(np.pi * D) ** 2 / th ** 2)),
        constant=(kernels.ConstantKernel, np.full((T, T), th)),
        plain=(plain, np.exp(-D / th)),
    )[case["kernel"]]
    fz = frozen(K, times)
    psi = PSI[case["psi"]][0]
    close(f(th, K, case["psi"], fam, times), sum(ker[s, t] * psi(K[t] - K[s]) for s in range(T) for t in range(s + 1, T)), "objective of the kernel parameter")
    unchanged(fz)
