"""C15 neighbourhood / generalised linear graphical models, C21 their temporal versions."""
from . import ref
from .core import *


def others(d, r):
    return [j for j in range(d) if j != r]


def gen_adj(rng, tier, hints):
    for i in range(60 if tier == "quick" else 600):
        yield dict(seed=int(rng.integers(1 << 30)), d=int(rng.integers(2, 7)), how=["union", "intersection", "Union", "INTERSECTION"][i % 4], p=float(rng.choice([0.0, 0.4, 0.7, 1.0])), as2d=bool(i % 3 == 0))


@check("C15 C19", "adjacency", gen_adj)
def adjacency(case):
    from regain.generalized_linear_model.base import build_adjacency_matrix

    rng, d = rng_of(case), case["d"]
    nb = [rng.standard_normal(d - 1) * (rng.random(d - 1) < case["p"]) for _ in range(d)]
    W = np.eye(d)
    for i in range(d):
        W[i, others(d, i)] = nb[i]
    E = np.eye(d)
    for i in range(d):
        for j in range(d):
            if i != j and (case["how"].lower() == "union" or (W[i, j] != 0 and W[j, i] != 0)):
                E[i, j] = (W[i, j] + W[j, i]) / 2
    arg = [x[None] for x in nb] if case["as2d"] else nb
    fr = frozen(*arg)
    with quiet():
        out = build_adjacency_matrix(arg, how=case["how"])
    close(out, E, "adjacency (%s)" % case["how"])
    unchanged(fr)


# ------------------------------------------------------------------ objectives
def lin(X, th, r):
    return sum(X[:, j] * th[r, j] for j in others(X.shape[1], r))


def cond_loss(fam, X, th, r):
    """mean negative conditional log-likelihood of variable r; th[r, j] couples r and j."""
    z = lin(X, th, r)
    if fam == "ising":
        return float(np.mean(np.logaddexp(z, -z) - X[:, r] * z))
    if fam == "poisson":
        return float(np.mean(np.exp(z) - X[:, r] * z))
    return float(np.mean(z * z / 2 - X[:, r] * z))


def cond_grad(fam, X, th, r):
    z = lin(X, th, r)
    m = dict(ising=np.tanh, poisson=np.exp, gaussian=lambda v: v)[fam](z)
    g = np.zeros(X.shape[1])
    for j in others(X.shape[1], r):
        g[j] = np.mean(X[:, j] * (m - X[:, r]))
    return g


def full_loss(fam, X, th):
    return sum(cond_loss(fam, X, th, r) for r in range(X.shape[1]))


def make_data(rng, fam, n, d):
    if fam == "ising":
        X = np.sign(rng.standard_normal((n, d)) + 0.7 * rng.standard_normal((n, 1)))
        X[X == 0] = 1
        return X
    if fam == "poisson":
        return rng.poisson(1.0, (n, d)).astype(float)
    return rng.standard_normal((n, d)) + 0.7 * rng.standard_normal((n, 1))


def gen_obj(rng, tier, hints):
    for i in range(60 if tier == "quick" else 500):
        yield dict(seed=int(rng.integers(1 << 30)), fam=["gaussian", "ising", "poisson"][i % 3], n=int(rng.integers(1, 9)), d=int(rng.integers(2, 6)), asym=bool(i % 7 == 6), alpha=float(rng.choice([0.0, 0.3, 2.0])), layout=LAYOUTS[i % 5], size=float(rng.choice([0.5, 1.5, 4.0])))


@check("C15 C19", "glm-objectives", gen_obj)
def objectives(case):
    rng, d, n, fam, al = rng_of(case), case["d"], case["n"], case["fam"], case["alpha"]
    X = layout(make_data(rng, fam, n, d), case["layout"])
    th = rng.uniform(-0.5, 0.5, (d, d)) * (case["size"] / 0.5 if fam == "ising" else 1)
    th = (th + th.T) / 2
    if case["asym"]:
        th[0, -1] += 0.25
    th = layout(th, case["layout"])
    fr = frozen(X, th)
    od = sum(abs(th[i, j]) for i in range(d) for j in range(d) if i != j)
    with quiet():
        if fam == "gaussian":
            from regain.generalized_linear_model.glm_gaussian import objective

            r = int(rng.integers(d))
            v = th[r, others(d, r)].copy()
            close(objective(X, v, n, r, others(d, r), al), cond_loss(fam, X, th, r) + al * np.abs(v).sum(), "Gaussian objective")
        elif fam == "ising":
            from regain.generalized_linear_model.glm_ising import _gradient_ising, loss, objective

            if case["asym"]:
                need(loss(X, th) == np.inf and objective(X, th, al) == np.inf, "asymmetric parameters must be infeasible")
            else:
                close(loss(X, th), full_loss(fam, X, th), "Ising loss")
                close(objective(X, th, al), full_loss(fam, X, th) + al * od, "Ising objective")
                G = np.array([cond_grad(fam, X, th, r) for r in range(d)])
                close(_gradient_ising(X, th, n), G, "Ising gradient")
                A = rng.standard_normal((d, d))
                close(_gradient_ising(X, th, n, A, 0.7, 3), G + 2.1 * (th - A), "Ising augmented gradient")
        else:
            from regain.generalized_linear_model.glm_poisson import loss, loss_single_variable, objective, objective_single_variable

            r = int(rng.integers(d))
            v = th[r, others(d, r)].copy()
            close(loss_single_variable(X, v, n, r, others(d, r)), cond_loss(fam, X, th, r), "Poisson loss of one variable")
            close(objective_single_variable(X, v, n, r, others(d, r), al), cond_loss(fam, X, th, r) + al * np.abs(v).sum(), "Poisson objective of one variable")
            close(loss(X, th), full_loss(fam, X, th), "Poisson loss")
            if case["asym"]:
                need(objective(X, th, al) == np.inf, "asymmetric parameters must be infeasible")
            else:
                close(objective(X, th, al), full_loss(fam, X, th) + al * od, "Poisson objective")
    unchanged(fr)


# ------------------------------------------------------------------ iterations
def gen_fit(rng, tier, hints):
    for i in range(45 if tier == "quick" else 400):
        yield dict(
            seed=int(rng.integers(1 << 30)), fam=["gaussian", "ising", "poisson"][i % 3], n=int(rng.integers(2, 30)), d=int(rng.integers(2, 6)),
            alpha=float(rng.choice([0.0, 0.02, 0.2, 2.0])), gamma=float(rng.choice([0.01, 0.3, 4.0] if i % 3 == 2 else [1e-3, 0.05, 0.3])),
            tol=float(rng.choice([1e-3, 1e-2, 1e-7])), max_iter=int(rng.choice([1, 2, 7, 40])), upd=float(rng.choice([0.5, 0.8])), aug=bool(i % 2), search=bool(i % 4 == 3), hist=bool(i % 5),
        )


def check_path(case, thetas, checks, step, obj, first=0):
    """replay: theta_{k+1} = step(theta_k); stop at the first step shorter than tol."""
    tol, mx = case["tol"], case["max_iter"]
    nit = len(thetas) - 1
    need(1 <= nit <= mx, "%d iterations with max_iter=%d" % (nit, mx))
    need(len(checks) == max(nit - first, 0), "%d checks for %d iterations" % (len(checks), nit))
    for k in range(nit):
        want = step(np.asarray(thetas[k], float))
        close(thetas[k + 1], want, "iterate %d" % (k + 1), rtol=1e-7, atol=1e-11)
        move = float(np.sqrt(np.sum((thetas[k + 1] - thetas[k]) ** 2)))
        if k >= first:
            c = checks[k - first]
            close(c.iter_norm, move, "reported step length")
            close(c.obj, obj(np.asarray(thetas[k + 1], float)), "reported objective")
            need(c.iter == k, "reported iteration %r at iteration %d" % (c.iter, k))
            if abs(move - tol) <= 1e-9 * max(tol, 1e-300):
                raise Skip
            need((move < tol) == (k == nit - 1) or (k == nit - 1 and nit == mx), "step length %g, tol %g: iteration %d of %d" % (move, tol, k + 1, nit))
    if nit < mx:
        need(nit > first, "stopped before any check")


@check("C15 C19", "glm-iterations", gen_fit)
def iterations(case):
    rng, d, n, fam = rng_of(case), case["d"], case["n"], case["fam"]
    al, gam = case["alpha"], case["gamma"]
    X = make_data(rng, fam, n, d)
    r = int(rng.integers(d))
    sel = others(d, r)
    kw = dict(alpha=al, gamma=gam, tol=case["tol"], max_iter=case["max_iter"])
    fr = frozen(X)

    def full(v):
        T = np.zeros((d, d))
        T[r, sel] = v
        return T

    with quiet():
        if fam == "gaussian":
            from regain.generalized_linear_model.glm_gaussian import fit_each_variable

            out = fit_each_variable(X, r, return_history=True, **kw)
            need(len(out) == 3, "expected estimate, history and checks")
            need(np.abs(out[1][0]).max() < 1e-10, "start is not (numerically) zero")
            check_path(case, out[1], out[2], lambda v: ref.st(v - gam * cond_grad(fam, X, full(v), r)[sel], al * gam), lambda v: cond_loss(fam, X, full(v), r) + al * np.abs(v).sum())
            close(fit_each_variable(X, r, return_history=False, **kw)[0], out[1][-1], "estimate without history")
        elif fam == "poisson":
            from regain.generalized_linear_model.glm_poisson import fit_each_variable

            out = fit_each_variable(X, r, return_history=True, update_gamma=case["upd"], **kw)
            need(np.all(out[1][0] == 0), "start is not zero")
            g = [gam]

            def step(v):
                gr = cond_grad(fam, X, full(v), r)[sel]
                for _ in range(200):
                    w = ref.st(v - g[0] * gr, al * g[0])
                    D = w - v
                    new, old = cond_loss(fam, X, full(w), r), cond_loss(fam, X, full(v), r)
                    bound = old + gr @ D + D @ D / (2 * g[0])
                    if np.isfinite(new) and abs(new - bound) <= 1e-10 * max(1, abs(new)) and np.abs(D).max() > 0:
                        raise Skip
                    if np.isfinite(new) and new <= bound:
                        return w
                    g[0] *= case["upd"]
                raise Skip

            check_path(case, out[1], out[2], step, lambda v: cond_loss(fam, X, full(v), r) + al * np.abs(v).sum(), first=1)
        else:
            from regain.generalized_linear_model.glm_ising import _fit

            A = W = None
            rho, nT = 1, 0
            if case["aug"]:
                A = rng.standard_normal((d, d)) * 0.3
                A = (A + A.T) / 2
                W = rng.standard_normal((d, d)) * 0.1
                W = (W + W.T) / 2
                rho, nT = 0.5, 2
            fr += frozen(*[x for x in (A, W) if x is not None])
            out = _fit(X, A=A, T=nT, rho=rho, warm_start=W, return_history=True, line_search=case["search"] and A is None, update_gamma=case["upd"], **kw)
            close(out[1][0], np.zeros((d, d)) if W is None else W, "start")
            g = [gam]

            def grad(T):
                G = np.array([cond_grad(fam, X, T, q) for q in range(d)])
                return G if A is None else G + rho * nT * (T - A)

            def step(T):
                G = grad(T)
                for _ in range(200):
                    N = T - g[0] * G
                    w = ref.st_od((N + N.T) / 2, al * g[0])
                    if not (case["search"] and A is None):
                        return w
                    D = w - T
                    new, bound = full_loss(fam, X, w), full_loss(fam, X, T) + (G * D).sum() + (D * D).sum() / (2 * g[0])
                    if abs(new - bound) <= 1e-10 * max(1, abs(new)) and np.abs(D).max() > 0:
                        raise Skip
                    if new <= bound:
                        return w
                    g[0] *= case["upd"]
                raise Skip

            check_path(case, out[1], out[2], step, lambda T: full_loss(fam, X, T) + al * sum(abs(T[i, j]) for i in range(d) for j in range(d) if i != j))
    need(np.array_equal(out[0], out[1][-1]), "estimate is not the last iterate")
    unchanged(fr)


def gen_est(rng, tier, hints):
    for i in range(32 if tier == "quick" else 200):
        yield dict(seed=int(rng.integers(1 << 30)), fam=["gaussian", "ising", "poisson", "logistic"][i % 4], n=int(rng.integers(6, 30)), d=int(rng.integers(2, 5)), alpha=float(rng.choice([0.01, 0.1, 0.4])),
                   gamma=float(rng.choice([0.01, 0.1, 0.2])), tol=float(rng.choice([1e-4, 1e-2])), max_iter=int(rng.choice([1, 3, 25])), how=["union", "intersection"][(i // 4) % 2], intercept=bool(i % 3 == 0))


@check("C15 C19", "glm-estimators", gen_est)
def estimators(case):
    from regain.generalized_linear_model import glm_gaussian as gg, glm_ising as gi, glm_poisson as gp

    rng, d, n, fam = rng_of(case), case["d"], case["n"], case["fam"]
    X = make_data(rng, "ising" if fam == "logistic" else fam, n, d)
    X[0], X[1] = 1, (-1 if fam in ("ising", "logistic") else 0)  # both values in every column
    kw = dict(alpha=case["alpha"], tol=case["tol"], max_iter=case["max_iter"])
    fr = frozen(X)

    def combine(nb, D):
        W = np.eye(D)
        for i in range(D):
            W[i, others(D, i)] = nb[i]
        E = np.eye(D)
        for i in range(D):
            for j in range(D):
                if i != j and (case["how"] == "union" or (W[i, j] != 0 and W[j, i] != 0)):
                    E[i, j] = (W[i, j] + W[j, i]) / 2
        return E

    with quiet():
        if fam == "gaussian":
            m = gg.Gaussian_GLM_GM(reconstruction=case["how"], **kw).fit(X, gamma=case["gamma"])
            E = combine([gg.fit_each_variable(X, i, gamma=case["gamma"], **kw)[0] for i in range(d)], d)
        elif fam == "poisson":
            m = gp.PoissonGraphicalModel(reconstruction=case["how"], gamma=case["gamma"], intercept=case["intercept"], **kw).fit(X)
            Y = np.hstack([X, np.ones((n, 1))]) if case["intercept"] else X
            E = combine([gp.fit_each_variable(Y, i, gamma=case["gamma"], **kw)[0] for i in range(Y.shape[1])], Y.shape[1])
        elif fam == "ising":
            m = gi.IsingGraphicalModel(gamma=case["gamma"], **kw).fit(X)
            E = gi._fit(X, gamma=case["gamma"], **kw)[0]
            need(np.array_equal(m.precision_, m.precision_.T), "precision is not symmetric")
        else:
            from sklearn.linear_model import LogisticRegression

            m = gi.IsingGraphicalModel(mode="logistic_regression", reconstruction=case["how"], **kw).fit(X)
            E = combine([LogisticRegression(C=1 / case["alpha"], penalty="l1", solver="liblinear", random_state=0).fit(X[:, others(d, i)], X[:, i]).coef_[0] for i in range(d)], d)
        close(m.precision_, E, "precision of %s" % type(m).__name__)
        close(m.get_precision(), E, "get_precision")
        for cls, modes in ((gi.IsingGraphicalModel, ("coordinate_descent", "nope")), (gp.PoissonGraphicalModel, ("symmetric_fbs", "nope"))):
            for mode in modes:
                try:
                    cls(mode=mode).fit(X)
                except ValueError:
                    continue
                raise Bad("%s accepted mode %r" % (cls.__name__, mode))
    unchanged(fr)


# ------------------------------------------------------------------ temporal models
def gen_temporal(rng, tier, hints):
    for i in range(24 if tier == "quick" else 160):
        yield dict(seed=int(rng.integers(1 << 30)), fam=["ising", "poisson"][i % 2], T=[2, 3, 4, 1, 5][(i // 2) % 5], n=int(rng.integers(4, 12)), d=int(rng.integers(2, 4)), psi=["laplacian", "l1", "l2"][(i // 4) % 3],
                   kernel=["rand", "eye", "none", "exp"][(i // 6) % 4], alpha=float(rng.choice([0.01, 0.1])), rho=float(rng.choice([0.3, 1.0])), max_iter=int(rng.choice([1, 3, 8])), tol=float(rng.choice([1e-4, 1e-2])), rtol=float(rng.choice([1e-4, 1e-1])), opts=bool(i % 5 == 0), hist=bool(i % 3))


def temporal_ref(case, X, kernel, gamma):
    from regain.generalized_linear_model import glm_ising as gi, glm_poisson as gp

    n, _, d = X.shape
    al, tol, rtol = case["alpha"], case["tol"], case["rtol"]
    P = [(s, t) for s in range(n) for t in range(s + 1, n)]
    vpsi, ppsi = ref.PSI[case["psi"]]
    Z = {p: [np.zeros((d, d))] * 2 for p in P}
    U = {p: [np.zeros((d, d))] * 2 for p in P}
    st = dict(K=np.zeros((n, d, d)))

    def objective(K, Z):
        o = sum(full_loss(case["fam"], X[t], K[t]) if np.array_equal(K[t], K[t].T) or case["fam"] == "poisson" else np.inf for t in range(n))
        return o + al * sum(abs(K[t, i, j]) for t in range(n) for i in range(d) for j in range(d) if i != j) + sum(kernel[p] * vpsi(Z[p][1] - Z[p][0]) for p in P)

    first = objective(st["K"], Z)

    def step(rho):
        nonlocal Z, U
        A = np.zeros((n, d, d))
        for s, t in P:
            A[s] += Z[s, t][0] - U[s, t][0]
            A[t] += Z[s, t][1] - U[s, t][1]
        A = np.array([ref.sym(a) for a in A]) / max(n - 1, 1)
        K = []
        for t in range(n):
            if case["fam"] == "ising":
                K.append(gi._fit(X[t], A=A[t], alpha=al, gamma=gamma, tol=tol, max_iter=case["max_iter"], rho=rho, T=n - 1, return_history=False)[0])
            else:
                W = np.eye(d)
                for v in range(d):
                    W[v, others(d, v)] = gp.fit_each_variable(X[t], v, al, tol=tol, A=A[t], T=n - 1, rho=rho)[0]
                K.append((W + W.T) / 2)
        K = np.array(K)
        Zn, Un = {}, {}
        for s, t in P:
            a, b = K[s] + U[s, t][0], K[t] + U[s, t][1]
            e = ppsi((b - a)[None], np.full((1, 1, 1), 2.0 * kernel[s, t] / rho))[0]
            Zn[s, t] = [0.5 * (a + b - e), 0.5 * (a + b + e)]
            Un[s, t] = [a - Zn[s, t][0], b - Zn[s, t][1]]
        base = [x for p in P for x in (K[p[0]], K[p[1]])]
        va = lambda V: [x for p in P for x in V[p]]  # noqa
        h = (
            objective(K, Zn), ref.fro(*[x - y for x, y in zip(base, va(Zn))]) if P else 0.0, rho * ref.fro(*[x - y for x, y in zip(va(Zn), va(Z))]) if P else 0.0,
            d * n * tol + rtol * max(ref.fro(*va(Zn)) if P else 0.0, ref.fro(K, *base)), d * n * tol + rtol * rho * (ref.fro(*va(Un)) if P else 0.0),
        )
        Z, U, st["K"] = Zn, Un, K

        def resc(f):
            nonlocal U
            U = {p: [x * f for x in v] for p, v in U.items()}

        return h, resc

    R = ref.loop(step, case["rho"], case["max_iter"], dict(mu=5, tau_inc=3) if case["opts"] else None)
    return R, st["K"], first


def gen_tobj(rng, tier, hints):
    for i in range(40 if tier == "quick" else 300):
        yield dict(seed=int(rng.integers(1 << 30)), fam=["ising", "poisson"][i % 2], T=int(rng.integers(1, 8)), n=int(rng.integers(1, 6)), d=int(rng.integers(2, 4)), psi=["laplacian", "l1", "l2", "linf"][(i // 2) % 4], alpha=float(rng.choice([0.0, 0.3])))


@check("C21 C19", "temporal-objective", gen_tobj)
def temporal_objective(case):
    from regain.generalized_linear_model import glm_time_ising as ti, glm_time_poisson as tp
    from regain.validation import check_norm_prox

    rng, d, n, T = rng_of(case), case["d"], case["n"], case["T"]
    X = np.array([make_data(rng, case["fam"], n, d) for _ in range(T)])
    K = rng.standard_normal((T, d, d)) * 0.5
    K = K + K.transpose(0, 2, 1)
    k = rng.uniform(0, 1, (T, T))
    Z = {m: tuple(rng.standard_normal((T - m, d, d)) for _ in "LR") for m in range(1, T)}
    fr = frozen(X, K, k, *[z for m in Z for z in Z[m]])
    with quiet():
        psi = check_norm_prox(case["psi"])[0]
        v = (ti if case["fam"] == "ising" else tp).objective(X, K, Z, case["alpha"], k, psi)
    want = sum(full_loss(case["fam"], X[t], K[t]) for t in range(T))
    want += case["alpha"] * sum(abs(K[t, i, j]) for t in range(T) for i in range(d) for j in range(d) if i != j)
    want += sum(k[t, t + m] * float(psi(Z[m][1][t] - Z[m][0][t])) for m in Z for t in range(T - m))
    close(v, want, "objective of the temporal model")
    unchanged(fr)


@check("C21 C19", "temporal-glm", gen_temporal)
def temporal(case):
    from regain.generalized_linear_model import glm_time_ising as ti, glm_time_poisson as tp

    rng, d, n, T = rng_of(case), case["d"], case["n"], case["T"]
    X = np.array([make_data(rng, case["fam"], n, d) for _ in range(T)])
    if case["kernel"] == "rand":
        k = rng.uniform(0, 1, (T, T))
        k = (k + k.T) / 2
    elif case["kernel"] == "exp":
        k = np.exp(-0.3 * np.abs(np.subtract.outer(np.arange(T), np.arange(T))))
    else:
        k = np.eye(T)
    gamma = 0.05
    fr = frozen(X, k)
    f = ti._fit_time_ising_model if case["fam"] == "ising" else tp._fit_time_poisson_model
    with quiet() as w:
        out = f(X, alpha=case["alpha"], rho=case["rho"], kernel=None if case["kernel"] == "none" else k, max_iter=case["max_iter"], psi=case["psi"], gamma=gamma, tol=case["tol"], rtol=case["rtol"], return_history=case["hist"], return_n_iter=True,
                update_rho_options=dict(mu=5, tau_inc=3) if case["opts"] else None)
    warned = any("converge" in str(x.message) for x in w)
    with quiet():
        R, K, first = temporal_ref(case, X, k, gamma)
    for o, r, s, ep, ed in R.hist:
        if abs(r - ep) <= 1e-8 * max(ep, 1e-12) or abs(s - ed) <= 1e-8 * max(ed, 1e-12) or (r > 0 and min(abs(r - 10 * s), abs(s - 10 * r), abs(r - 5 * s), abs(s - 5 * r)) <= 1e-8 * max(r, s)):
            raise Skip
    need(len(out) == 2 + case["hist"], "number of returned values")
    need(out[-1] == R.n_iter, "%r iterations, expected %d" % (out[-1], R.n_iter))
    need(warned == (not R.converged), "warning %r, converged %r" % (warned, R.converged))
    close(out[0], K, "estimate", rtol=1e-6, atol=1e-9)
    if case["hist"]:
        need(len(out[1]) == R.n_iter + 1, "history length")
        close(out[1][0].obj, first, "objective at the start")
        for c, h in zip(out[1][1:], R.hist):
            for nm, v in zip(("obj", "rnorm", "snorm", "e_pri", "e_dual"), h):
                close(getattr(c, nm), v, "history." + nm, rtol=1e-5, atol=1e-8)
    unchanged(fr)


def gen_temporal_est(rng, tier, hints):
    for i in range(8 if tier == "quick" else 60):
        yield dict(seed=int(rng.integers(1 << 30)), fam=["ising", "poisson"][i % 2], T=int(rng.integers(2, 4)), n=int(rng.integers(4, 9)), d=int(rng.integers(2, 4)), psi=["laplacian", "l1"][(i // 2) % 2], kernel=["array", "callable", "none"][(i // 2) % 3], alpha=0.05, rho=0.5, max_iter=int(rng.choice([1, 4])), tol=1e-3, rtol=1e-3, hist=bool(i % 3 == 0))


@check("C21 C19", "temporal-estimators", gen_temporal_est)
def temporal_estimators(case):
    from regain.generalized_linear_model import glm_time_ising as ti, glm_time_poisson as tp
    from sklearn.gaussian_process import kernels

    rng, d, n, T = rng_of(case), case["d"], case["n"], case["T"]
    Xs = np.array([make_data(rng, case["fam"], n, d) for _ in range(T)])
    y = np.repeat(np.arange(T) * 2 + 1, n)
    perm = rng.permutation(T * n)
    X, yy = Xs.reshape(T * n, d)[perm], y[perm]
    G = np.array([X[yy == c] for c in np.unique(yy)])
    k = np.exp(-0.3 * np.abs(np.subtract.outer(np.arange(T), np.arange(T))))
    kern = dict(array=k, callable=kernels.RBF, none=None)[case["kernel"]]
    K = dict(array=k, callable=None, none=np.eye(T))[case["kernel"]]
    if K is None:
        K = kernels.RBF(length_scale=1.5)(np.unique(yy)[:, None])
    kw = dict(alpha=case["alpha"], rho=case["rho"], tol=case["tol"], rtol=case["rtol"], psi=case["psi"], max_iter=case["max_iter"])
    cls, f = (ti.TemporalIsingModel, ti._fit_time_ising_model) if case["fam"] == "ising" else (tp.TemporalPoissonModel, tp._fit_time_poisson_model)
    fr = frozen(X, yy, k)
    with quiet():
        m = cls(kernel=kern, ker_param=1.5, return_history=case["hist"], **kw).fit(X, yy)
        E = f(G, kernel=K, return_n_iter=True, **kw)
    close(m.precision_, E[0], "precision")
    close(m.get_precision(), E[0], "get_precision")
    need(m.n_iter_ == E[1], "n_iter_")
    need(np.array_equal(m.classes_, np.unique(yy)), "classes_")
    with quiet():
        try:
            cls(kernel=np.eye(T + 1), **kw).fit(X, yy)
        except ValueError:
            pass
        else:
            raise Bad("kernel of the wrong size accepted")
        if case["fam"] == "ising":
            X3 = X.copy()
            X3[0, 0] = 7.0
            try:
                cls(**kw).fit(X3, yy)
            except ValueError:
                pass
            else:
                raise Bad("data with more than two values accepted by the Ising model")
    unchanged(fr)
