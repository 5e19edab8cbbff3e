"""C16 synthetic data (regain.datasets)."""
import itertools

from .core import *


def gen_data(rng, tier, hints):
    n = 60 if tier == "quick" else 600
    modes = ["default", "fixed_sparsity", "sin", "sincos", "fede", "ma", "callable", "default"]
    for i in range(n):
        m = modes[i % len(modes)]
        d = int(rng.integers(3, 9))
        yield dict(seed=int(rng.integers(1 << 30)), mode=m, d=d, l=int(rng.integers(1, 3)), T=int(rng.integers(1, 6)), n=int(rng.integers(1, 7)) if i % 5 else 20000, last=bool(rng.integers(0, 2)), ut=str(rng.choice(["l1", "l2"])), ue=str(rng.choice(["l1", "l2", "fixed"])), norm=bool(rng.integers(0, 2)), keep=bool(rng.integers(0, 3) == 0), prop=bool(rng.integers(0, 2)))


def data_layout(b, case):
    n, d, T = case["n"], case["d"], case["T"]
    D = np.asarray(b["data"])
    if case["last"]:
        need(D.shape == (n, d, T), "data: shape %s, expected %s (time last)" % (D.shape, (n, d, T)))
        D = np.moveaxis(D, -1, 0)
    need(D.shape == (T, n, d), "data: shape %s, expected %s" % (D.shape, (T, n, d)))
    X, y = np.asarray(b["X"]), np.asarray(b["y"])
    need(X.shape == (T * n, d), "X: shape %s, expected %s" % (X.shape, (T * n, d)))
    need(np.array_equal(X, D.reshape(T * n, d)), "X does not hold the samples of data in time order")
    need(y.shape == (T * n,) and np.array_equal(y, np.repeat(np.arange(T), n)), "y does not tell the time point of every row of X")
    return D


@check("C16", "make_dataset", gen_data)
def _(case):
    from regain.datasets import make_dataset

    np.random.seed(case["seed"] % (1 << 31))
    d, l, T, n, m = case["d"], case["l"], case["T"], case["n"], case["mode"]
    kw = dict(n_samples=n, n_dim_obs=d, n_dim_lat=l, T=T)
    if case["last"]:
        kw["time_on_axis"] = "last"
    rng = rng_of(case)
    mine = None
    if m == "default":
        kw.update(update_theta=case["ut"], update_ell=case["ue"], normalize_starting_matrices=case["norm"], proportional=case["prop"], keep_sparsity=case["keep"] and case["ut"] == "l2")
    elif m == "callable":
        th = [spd(rng, d) + np.eye(d) for _ in range(T)]
        el = [0.1 * np.outer(v, v) / (v @ v) for v in rng.standard_normal((T, d))]
        mine = (th, [a - e for a, e in zip(th, el)], el)
        got = {}

        def gen(n_dim_obs, n_dim_lat, T, **k):
            got.update(k, n_dim_obs=n_dim_obs, n_dim_lat=n_dim_lat, T=T)
            return mine

        kw["mode"] = gen
        kw["special"] = 7
    else:
        kw["mode"] = m
        if m == "sincos":
            kw["degree"] = 1
    with quiet():
        try:
            b = make_dataset(**kw)
        except (AssertionError, np.linalg.LinAlgError):
            raise Skip()  # the generator refuses this draw
        except IndexError:
            if m == "ma":
                raise Skip()
            raise
    if m == "ma":
        T = case["T"] = len(b["thetas"])
    D = data_layout(b, case)
    th, ob, el = (np.asarray(b[k]) for k in ("thetas", "thetas_observed", "ells"))
    need(th.shape == (T, d, d) and ob.shape == (T, d, d) and el.shape == (T, d, d), "models: shapes %s %s %s" % (th.shape, ob.shape, el.shape))
    close(ob, th - el, "thetas_observed = thetas - ells", 1e-12, 1e-12)
    if mine:
        need(got.get("n_dim_obs") == d and got.get("n_dim_lat") == l and got.get("T") == T and got.get("special") == 7, "generator called with %s" % got)
        close(th, mine[0], "thetas of the generator", 0, 0)
        close(ob, mine[1], "thetas_observed of the generator", 0, 0)
        close(el, mine[2], "ells of the generator", 0, 0)
    if m in ("default", "fixed_sparsity", "sin", "sincos", "fede"):
        close(ob, np.swapaxes(ob, 1, 2), "symmetric thetas_observed", 1e-10, 1e-10)
    if m == "default":
        if case["ue"] == "fixed":
            close(el, np.broadcast_to(el[0], el.shape), "fixed latent part", 0, 0)
        for t in range(T):
            r = np.linalg.matrix_rank(el[t])
            need(r == l, "rank of the latent part is %d, not the %d latent variables" % (r, l))
            need(np.linalg.eigvalsh(el[t]).min() > -1e-10, "latent part is not positive semidefinite")
        if case["ut"] == "l1":
            no = int(np.ceil(d / 20)) if case["prop"] else 1
            for t in range(1, T):
                k = np.triu(np.abs(th[t] - th[t - 1]) > 1e-12, 1).sum()
                need(k <= no, "l1 update changed %d edges, %d asked for" % (k, no))
        elif case["keep"]:
            for t in range(1, T):
                k = ((np.abs(th[0]) == 0) & (np.abs(th[t]) > 1e-12)).sum()
                need(k == 0, "keep_sparsity: %d new entries" % k)
    if m in ("fixed_sparsity", "sincos"):
        close(el, np.broadcast_to(el[0], el.shape), "fixed latent part", 0, 0)
    if n > 1000:
        for t in range(T):
            w, V = np.linalg.eigh((ob[t] + ob[t].T) / 2)
            if w.min() < 1e-6 * w.max():
                continue
            S = D[t].T @ D[t] / n
            M = (V * np.sqrt(w)).T @ S @ (V * np.sqrt(w)) - np.eye(d)
            need(np.linalg.norm(M, 2) < 0.25, "time %d: samples do not have the inverse of thetas_observed as covariance (relative difference %.3g)" % (t, np.linalg.norm(M, 2)))


def gen_graph(rng, tier, hints):
    n = 40 if tier == "quick" else 400
    for i in range(n):
        yield dict(seed=int(rng.integers(1 << 30)), fam=["ising", "poisson"][i % 2], d=int(rng.integers(4, 9)), T=int(rng.integers(1, 6)), n=int(rng.integers(1, 6)), last=bool(rng.integers(0, 2)), graph=str(rng.choice(["scale-free", "erdos-renyi", "small-world", "other"])), ch=int(rng.integers(1, 3)))


@check("C16", "make_dataset graphs", gen_graph)
def _(case):
    from regain.datasets import make_dataset
    from regain.datasets.ising import ising_theta_generator
    from regain.datasets.poisson import poisson_theta_generator

    np.random.seed(case["seed"] % (1 << 31))
    import random

    random.seed(case["seed"])
    d, T = case["d"], case["T"]
    kw = dict(n_samples=case["n"], n_dim_obs=d, T=T, distribution=case["fam"], update_theta="l1")
    if case["last"]:
        kw["time_on_axis"] = "last"
    with quiet():
        b = make_dataset(**kw)
    D = data_layout(b, case)
    if case["fam"] == "ising":
        need(np.isin(D, [-1, 1]).all(), "Ising samples are not -1 or 1")
    else:
        need((D >= 0).all() and np.array_equal(D, np.round(D)), "Poisson samples are not counts")
    with quiet():
        if case["fam"] == "ising":
            g, ch = ising_theta_generator(n_dim_obs=d, T=T, change=case["ch"], random_graph=case["graph"]), case["ch"]
        else:
            g, ch = poisson_theta_generator(n_dim_obs=d, T=T, n_to_change=case["ch"], random_graph=case["graph"]), case["ch"]
    for nm, ths, k in (("make_dataset", b["thetas"], 1 if case["fam"] == "ising" else 3), ("generator", g, ch)):
        ths = [np.asarray(x, dtype=float) for x in ths]
        need(len(ths) == T, "%s: %d graphs for %d time points" % (nm, len(ths), T))
        for t, x in enumerate(ths):
            need(x.shape == (d, d), "%s: graph of shape %s" % (nm, x.shape))
            need(np.array_equal(x, x.T), "%s: graph %d is not symmetric" % (nm, t))
            need((np.diag(x) == 0).all(), "%s: graph %d has self loops" % (nm, t))
            need(np.isin(x, [-1, 0, 1]).all(), "%s: graph %d has other weights than edges" % (nm, t))
            if t:
                c = np.triu(x != ths[t - 1], 1).sum()
                need(c <= k, "%s: update %d changed %d edges, %d asked for" % (nm, t, c, k))
                if case["fam"] == "poisson":
                    need(((x == 0) | (x == ths[t - 1])).all(), "%s: update %d added edges" % (nm, t))


def gen_states(rng, tier, hints):
    for i in range(30 if tier == "quick" else 300):
        yield dict(seed=int(rng.integers(1 << 30)), p=int(rng.integers(1, 6)), beta=float(rng.choice([1.0, 0.4, 2.0])), resp=[[-1, 1], [0, 1]][int(rng.integers(0, 2))])


def model(case):
    rng = rng_of(case)
    p = case["p"]
    G = np.triu(np.round(rng.uniform(-0.8, 0.8, (p, p)), 2), 1)
    return G + G.T, np.round(rng.uniform(-0.5, 0.5, p), 2), rng


def energy(G, h, s):
    return -sum(h[i] * s[i] for i in range(len(s))) - sum(G[i, j] * s[i] * s[j] for i in range(len(s)) for j in range(i))


@check("C16", "Ising energy", gen_states)
def _(case):
    from regain.datasets.ising import hamiltonian, p_plus, p_plus_minmax

    G, h, rng = model(case)
    p, r, be = case["p"], case["resp"], case["beta"]
    for s in itertools.product(r, repeat=p):
        s = list(s)
        close(hamiltonian(G.copy(), list(s), h.copy()), energy(G, h, s), "energy of %s" % s, 1e-9, 1e-9)
        i = int(rng.integers(0, p))
        s0, s1 = list(s), list(s)
        s0[i], s1[i] = r
        w = 1 / (1 + np.exp(-be * (energy(G, h, s0) - energy(G, h, s1))))
        close(p_plus(i, G.copy(), list(s), h.copy(), be, r), w, "conditional probability of variable %d in %s" % (i, s), 1e-9, 1e-9)
        close(p_plus_minmax(i, G.copy(), np.array(s, dtype=float), h.copy(), be, r), [w, w], "bounds of the conditional probability in a known state", 1e-9, 1e-9)


def gen_sampler(rng, tier, hints):
    ms = ["direct", "MH", "CFTP"]
    for i in range(9 if tier == "quick" else 60):
        yield dict(seed=int(rng.integers(1 << 30)), p=int(rng.integers(1, 4)) if i < 6 else 2, beta=float(rng.choice([1.0, 0.5])), resp=[[-1, 1], [0, 1]][(i // 3) % 2], method=ms[i % 3], n=3000)
    for i in range(9):
        yield dict(seed=int(rng.integers(1 << 30)), p=int(rng.integers(1, 12 if ms[i % 3] == "direct" else 5)), beta=1.0, resp=[-1, 1], method=ms[i % 3], n=int(rng.integers(1, 4)))


@check("C16", "Ising samplers", gen_sampler)
def _(case):
    from regain.datasets.ising import ising_sampler

    G, h, rng = model(case)
    p, r, be, n = case["p"], case["resp"], case["beta"], case["n"]
    np.random.seed(case["seed"] % (1 << 31))
    with quiet():
        X = np.asarray(ising_sampler(G.copy(), h.copy(), n=n, beta=be, max_iter=15 if n > 100 else 20, responses=list(r), method=case["method"]))
    need(X.shape == (n, p), "%s: shape %s, expected %s" % (case["method"], X.shape, (n, p)))
    need(np.isin(X, r).all(), "%s: other values than the responses" % case["method"])
    if n < 100:
        return
    for s in itertools.product(r, repeat=p):
        w = np.array([np.exp(-be * energy(G, h, q)) for q in itertools.product(r, repeat=p)])
        q = np.exp(-be * energy(G, h, s)) / w.sum()
        f = (X == np.array(s)).all(1).mean()
        need(abs(f - q) < 6 * np.sqrt(q * (1 - q) / n) + 0.005, "%s: state %s drawn with frequency %.4f, probability %.4f" % (case["method"], s, f, q))


@check("C16", "Ising constraints", gen_states)
def _(case):
    import sys

    from regain.datasets.ising import ising_sampler

    G, h, rng = model(case)
    p, r = case["p"], case["resp"]
    np.random.seed(case["seed"] % (1 << 31))
    C = np.ones((3, p)) * (-sys.maxsize - 1)
    fix = rng.random((3, p)) < 0.4
    C[fix] = rng.choice(r, size=int(fix.sum()))
    with quiet():
        X = np.asarray(ising_sampler(G.copy(), h.copy(), n=3, max_iter=5, responses=list(r), constraints=C.copy()))
    need(np.isin(X, r).all(), "other values than the responses")
    need(np.array_equal(X[fix], C[fix]), "constrained variables do not keep their value")


def gen_pois(rng, tier, hints):
    for i in range(8 if tier == "quick" else 60):
        yield dict(seed=int(rng.integers(1 << 30)), d=int(rng.integers(2, 7)), n=20000, lam=float(rng.choice([1.0, 2.0])), noise=float(rng.choice([0.5, 1.5])))


@check("C16", "local Poisson sampler", gen_pois)
def _(case):
    from regain.datasets.poisson import poisson_sampler

    rng = rng_of(case)
    d, n, la, no = case["d"], case["n"], case["lam"], case["noise"]
    np.random.seed(case["seed"] % (1 << 31))
    G = np.triu(rng.random((d, d)) < 0.5, 1).astype(float)
    G = G + G.T
    with quiet():
        X = np.asarray(poisson_sampler(G.copy(), n_samples=n, _lambda=la, _lambda_noise=no), dtype=float)
    need(X.shape == (n, d), "shape %s, expected %s" % (X.shape, (n, d)))
    want = la * G + np.diag(la + la * G.sum(1) + no)  # every edge is a shared Poisson count
    tol = 8 * np.sqrt(2 * np.outer(np.diag(want), np.diag(want)) / n) + 8 / n
    dm = np.abs(X.mean(0) - np.diag(want))
    need((dm < 8 * np.sqrt(np.diag(want) / n)).all(), "means %s, expected %s" % (X.mean(0), np.diag(want)))
    S = np.cov(X.T, bias=True).reshape(d, d)
    need((np.abs(S - want) < 1.5 * tol).all(), "covariance of the counts is not that of the graph (largest difference %.3g)" % np.abs(S - want).max())
