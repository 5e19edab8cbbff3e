"""C13: estimators hand the right problem to the solver and store / report its result."""
import importlib
import inspect

from .core import *

EST = {
    "GraphicalLasso": ("regain.covariance.graphical_lasso_", "graphical_lasso"),
    "LatentGraphicalLasso": ("regain.covariance.latent_graphical_lasso_", "latent_graphical_lasso"),
    "TimeGraphicalLasso": ("regain.covariance.time_graphical_lasso_", "time_graphical_lasso"),
    "LatentTimeGraphicalLasso": ("regain.covariance.latent_time_graphical_lasso_", "latent_time_graphical_lasso"),
    "KernelTimeGraphicalLasso": ("regain.covariance.kernel_time_graphical_lasso_", "kernel_time_graphical_lasso"),
    "SimilarityTimeGraphicalLasso": ("regain.covariance.kernel_time_graphical_lasso_", "kernel_time_graphical_lasso"),
    "KernelLatentTimeGraphicalLasso": ("regain.covariance.kernel_latent_time_graphical_lasso_", "kernel_latent_time_graphical_lasso"),
    "SimilarityLatentTimeGraphicalLasso": ("regain.covariance.kernel_latent_time_graphical_lasso_", "kernel_latent_time_graphical_lasso"),
    "TimeGraphicalLassoForwardBackward": ("regain.forward_backward.time_graphical_lasso_", "tgl_forward_backward"),
    "LatentTimeMatrixDecomposition": ("regain.covariance.latent_time_matrix_decomposition", "latent_time_matrix_decomposition"),
}
STATIC = ("GraphicalLasso", "LatentGraphicalLasso")
OTHERS = {
    "MissingGraphicalLasso": "regain.covariance.missing_graphical_lasso_",
    "Gaussian_GLM_GM": "regain.generalized_linear_model.glm_gaussian",
    "IsingGraphicalModel": "regain.generalized_linear_model.glm_ising",
    "PoissonGraphicalModel": "regain.generalized_linear_model.glm_poisson",
    "TemporalIsingModel": "regain.generalized_linear_model.glm_time_ising",
    "SimilarityTemporalIsingModel": "regain.generalized_linear_model.glm_time_ising",
    "TemporalPoissonModel": "regain.generalized_linear_model.glm_time_poisson",
    "GroupLassoOverlap": "regain.linear_model.group_lasso_overlap_",
    "GroupLassoOverlapClassifier": "regain.linear_model.group_lasso_overlap_",
}


def get(name):
    mod = EST[name][0] if name in EST else OTHERS[name]
    m = importlib.import_module(mod)
    return getattr(m, name), (getattr(m, EST[name][1]) if name in EST else None)


def gen_params(rng, tier, hints):
    for n in list(EST) + list(OTHERS):
        yield dict(est=n)


@check("C13", "parameters", gen_params)
def parameters(case):
    """constructor arguments are hyper-parameters: stored untouched, survive clone and set_params."""
    from sklearn.base import clone

    cls, _ = get(case["est"])
    names = [p for p in inspect.signature(cls.__init__).parameters if p != "self"]
    vals = {p: "value-%s" % p for p in names}
    e = cls(**vals)
    got = e.get_params(deep=False)
    for p in names:
        need(got[p] == vals[p], "%s(%s=v).get_params()[%s] is %r" % (case["est"], p, p, got[p]))
    g2 = clone(e).get_params(deep=False)
    need(g2 == got, "clone changes the parameters")
    e2 = cls().set_params(**vals)
    need(e2.get_params(deep=False) == got, "set_params")


def data(case):
    rng = rng_of(case)
    d = case["d"]
    if case["est"] in STATIC:
        return rng.standard_normal((case["n"], d)) @ spd(rng, d) + rng.standard_normal(d), None
    T = case["T"]
    lab = rng.choice(np.arange(-20, 40), T, replace=False)
    if case.get("floatlab"):
        lab = lab / 4.0
    y = np.concatenate([np.repeat(l, int(rng.integers(case["n"], 2 * case["n"]))) for l in lab])
    y = y[rng.permutation(y.size)]
    X = rng.standard_normal((y.size, d)) @ spd(rng, d) + np.array([np.full(d, l) * 0.1 for l in y])
    return X, y


def hyper(case, sig, rng, T):
    k = {}
    for p in sig:
        if p in ("alpha",):
            k[p] = float(rng.uniform(0.02, 0.5))
        elif p in ("beta", "eta", "tau"):
            k[p] = float(rng.uniform(0.05, 2))
        elif p == "rho":
            k[p] = float(rng.choice([0.7, 1.0, 1.9]))
        elif p == "tol":
            k[p] = float(rng.choice([1e-2, 1e-4]))
        elif p == "rtol":
            k[p] = float(rng.choice([1e-2, 1e-3]))
        elif p == "max_iter":
            k[p] = int(rng.integers(1, 25))
        elif p == "over_relax":
            k[p] = float(rng.uniform(0.9, 1.6))
        elif p in ("psi", "phi"):
            k[p] = str(rng.choice(["laplacian", "l1", "l2", "linf"]))
        elif p == "update_rho_options":
            k[p] = [None, dict(mu=2), dict(mu=1.5, tau_inc=3.0)][int(rng.integers(3))]
        elif p == "compute_objective":
            k[p] = bool(rng.integers(2))
        elif p == "init":
            k[p] = str(rng.choice(["empirical", "zeros"]))
        elif p == "assume_centered":
            k[p] = bool(rng.integers(2))
        elif p == "return_history":
            k[p] = bool(rng.integers(2))
        elif p in ("kernel", "kernel_psi", "kernel_phi"):
            A = rng.uniform(0.1, 1, (T, T))
            A = (A + A.T) / 2
            np.fill_diagonal(A, 1)
            k[p] = A
        elif p == "stop_at":
            k[p] = [None, 5.0][int(rng.integers(2))] if case["est"] == "TimeGraphicalLasso" else None
        elif p == "stop_when":
            k[p] = float(rng.choice([1e-3, 0.2]))
        # forward-backward
        elif p == "gamma":
            k[p] = float(rng.uniform(0.05, 0.5))
        elif p == "lamda":
            k[p] = float(rng.uniform(0.5, 1))
        elif p == "delta":
            k[p] = float(rng.choice([0.1, 1e-3]))
        elif p == "eps":
            k[p] = float(rng.uniform(0.4, 0.8))
        elif p == "choose":
            k[p] = str(rng.choice(["gamma", "lamda", "fixed"]))
        elif p == "vareps":
            k[p] = float(rng.choice([0, 1e-3]))
        elif p == "lamda_criterion":
            k[p] = "b"
        elif p == "laplacian_penalty":
            k[p] = bool(rng.integers(2))
        elif p == "time_norm":
            k[p] = 1
        elif p == "return_n_linesearch":
            k[p] = bool(rng.integers(2))
        elif p in ("ker_param", "ker_psi_param", "ker_phi_param"):
            k[p] = float(rng.uniform(0.5, 3))
        elif p == "time_on_axis":
            k[p] = ["first", "last"][int(rng.integers(2))]
    if "return_history" in k and k.get("stop_at"):
        k["compute_objective"] = True
    return k


def gen_fit(rng, tier, hints):
    names = list(EST)
    for i in range(240 if tier == "quick" else 1500):
        yield dict(est=names[i % len(names)], seed=int(rng.integers(1 << 30)), d=int(rng.integers(2, 5)), T=int(rng.integers(2, 6)), n=int(rng.integers(7, 16)),
                   kern=["array", "none", "rbf", "const"][(i // len(names)) % 4], floatlab=bool(rng.integers(2)), layout=LAYOUTS[int(rng.integers(5))], ktie=bool(rng.integers(3) == 0))


class Skipped(Exception):
    pass


@check("C13 C19", "fit", gen_fit)
def fit(case):
    name = case["est"]
    cls, solver = get(name)
    rng = rng_of(dict(seed=case["seed"] + 1))
    sig = [p for p in inspect.signature(cls.__init__).parameters if p != "self"]
    k = hyper(case, sig, rng, case["T"])
    sp = inspect.signature(solver).parameters
    if name == "LatentTimeMatrixDecomposition":
        M = np.array([cov(rng, case["d"]) for _ in range(case["T"])])
        X, y = (M if k["time_on_axis"] == "first" else np.moveaxis(M, 0, -1)), None
        X = layout(X, case["layout"])
        want_in, kw = M, {}
    else:
        X, y = data(case)
        X = layout(X, case["layout"])
        if name in STATIC:
            mu = np.zeros(case["d"]) if k["assume_centered"] else X.mean(0)
            Z = X - mu
            want_in, loc, kw = Z.T @ Z / len(X), mu, {}
        else:
            cl = np.unique(y)
            loc = np.array([np.zeros(case["d"]) if k["assume_centered"] else X[y == c].mean(0) for c in cl])
            want_in = np.array([(X[y == c] - l).T @ (X[y == c] - l) / (y == c).sum() for c, l in zip(cl, loc)])
            kw = dict(n_samples=np.array([(y == c).sum() for c in cl]))
    ks = [p for p in ("kernel", "kernel_psi", "kernel_phi") if p in k]
    kv = {p: k[p] for p in ks}
    if ks and name.startswith("Kernel") and case["kern"] != "array":
        from sklearn.gaussian_process import kernels as gk

        for p in ks:
            pn = {"kernel": "ker_param", "kernel_psi": "ker_psi_param", "kernel_phi": "ker_phi_param"}[p]
            if case["kern"] == "none":
                k[p], kv[p] = None, np.eye(case["T"])
            elif case["kern"] == "rbf":
                k[p], kv[p] = gk.RBF, np.exp(-0.5 * np.subtract.outer(cl, cl) ** 2 / k[pn] ** 2)
            else:
                k[p], kv[p] = gk.ConstantKernel, np.full((case["T"], case["T"]), k[pn])
    e = cls(**k)
    sn = frozen(X, *([y] if y is not None else []), *[v for v in k.values() if isinstance(v, np.ndarray)])
    call = {p: v for p, v in k.items() if p in sp and p not in ks and p not in ("return_history", "assume_centered", "verbose", "return_n_linesearch")}
    call.update({p: v for p, v in kv.items()})
    call.update(kw)
    with quiet():
        out = list(solver(want_in.copy(), return_n_iter=True, return_history=False, **call))
        r = e.fit(X) if y is None else e.fit(X, y)
    need(r is e, "fit does not return the estimator")
    unchanged(sn, "fit argument")
    for p, v in k.items():
        need(getattr(e, p) is v or getattr(e, p) == v, "fit changes the parameter %s" % p)
    lat = "latent" in name.lower()
    names = ["precision_"] + (["latent_"] if lat else []) + ([] if name == "LatentTimeMatrixDecomposition" else ["covariance_"])
    tol = dict(rtol=1e-5, atol=1e-7)
    if e.n_iter_ != out[len(names)]:
        # a stopping decision may hang on the last digit of the covariance
        with quiet():
            alt = {solver(want_in * (1 + s), return_n_iter=True, return_history=False, **call)[len(names)] for s in (1e-9, -1e-9)}
        if alt != {out[len(names)]}:
            raise Skip()
    if e.n_iter_ != out[len(names)]:
        raise Bad("n_iter_ is %r, the solver needs %r iterations for this problem" % (e.n_iter_, out[len(names)]))
    for a, o in zip(names, out):
        close(getattr(e, a), o, "%s.%s after fit" % (name, a), **tol)
    if k.get("return_history") and name not in ("LatentTimeGraphicalLasso", "LatentTimeMatrixDecomposition"):
        need(hasattr(e, "history_") and len(e.history_) >= e.n_iter_, "history_ was asked for")
    obs = e.precision_ - e.latent_ if lat else e.precision_
    if name == "LatentTimeMatrixDecomposition":
        close(e.get_observed_precision(), obs, "get_observed_precision")
        close(e.reconstruction_err_, ((want_in - obs) ** 2).sum(), "reconstruction_err_")
        return
    close(e.location_, loc, "location_")
    if name in STATIC:
        close(e.get_precision(), obs, "get_precision")
        return
    close(e.get_observed_precision(), obs, "get_observed_precision")
    need(np.array_equal(e.classes_, cl), "classes_")
    # score on new data, any order of the rows
    y2 = np.concatenate([np.repeat(c, int(rng.integers(2, 9))) for c in cl])[rng.permutation(0)] if False else np.concatenate([np.repeat(c, int(rng.integers(2, 9))) for c in cl])
    y2 = y2[rng.permutation(y2.size)]
    X2 = rng.standard_normal((y2.size, case["d"])) + 0.3
    want = 0.0
    for c, l, K in zip(cl, loc, obs):
        Z = X2[y2 == c] - l
        s, ldet = np.linalg.slogdet(K)
        want += 0.5 * ((ldet if s > 0 else -np.inf) * len(Z) - np.einsum("ij,jk,ik->", Z, K, Z) - len(Z) * case["d"] * np.log(2 * np.pi))
    with quiet():
        close(e.score(X2, y2), want, "score", rtol=1e-6)


def gen_rej(rng, tier, hints):
    for n in EST:
        if "Kernel" in n or "Similarity" in n:
            for off in (-1, 1, 3):
                for which in ("kernel", "kernel_psi", "kernel_phi"):
                    yield dict(est=n, off=off, which=which, seed=int(rng.integers(1 << 30)), d=3, T=4, n=8)
    for n in EST:
        if n != "LatentTimeMatrixDecomposition":
            for bad in ("feature", "nan", "length"):
                yield dict(est=n, bad=bad, seed=int(rng.integers(1 << 30)), d=3, T=4, n=8)


@check("C13", "rejects", gen_rej)
def rejects(case):
    cls, _ = get(case["est"])
    sig = inspect.signature(cls.__init__).parameters
    X, y = data(case)
    T = case["T"]
    k = {p: np.eye(T) for p in ("kernel", "kernel_psi", "kernel_phi") if p in sig}
    if "which" in case:
        if case["which"] not in sig:
            raise Skip()
        k[case["which"]] = np.eye(T + case["off"])
    elif case["bad"] == "feature":
        X = X[:, :1]
    elif case["bad"] == "nan":
        X[0, 0] = np.nan
    elif y is None:
        raise Skip()
    else:
        y = y[:-1]
    e = cls(max_iter=2, **k)
    try:
        with quiet():
            e.fit(X) if y is None else e.fit(X, y)
    except ValueError:
        return
    raise Bad("%s.fit accepts invalid input (%s)" % (case["est"], case.get("bad") or "kernel of the wrong size in " + case["which"]))
