"""C24 scores of graphs (G-Wishart), precision selection, Markov blankets."""
from .c_bayes import *


def gw_gen(rng, tier, hints):
    for i in range(16 if tier == "quick" else 150):
        yield dict(seed=int(rng.integers(1 << 30)), p=int(rng.integers(1, 5)), n=int(rng.integers(6, 30)), q=float(rng.choice([0.0, 0.5, 1.0])), d0=float(rng.choice([3.0, 5.0, 60.0])))


def graph(rng, p, q):
    return np.triu(rng.random((p, p)) < q, 1) | np.eye(p, dtype=bool)


def ml(C, G, tol=1e-9):
    """precision with the zeros of G whose inverse agrees with C on G (coordinate descent over edges and nodes)."""
    p = len(C)
    A = G | G.T
    W = C.copy()
    for _ in range(2000):
        old = W.copy()
        for j in range(p):
            nb = [i for i in range(p) if i != j and A[i, j]]
            rest = [i for i in range(p) if i != j]
            b = np.zeros(p)
            if nb:
                b[nb] = np.linalg.solve(W[np.ix_(nb, nb)], C[nb, j])
            W[rest, j] = W[j, rest] = W[np.ix_(rest, rest)] @ b[rest]
        if np.abs(W - old).max() < 1e-13 * np.abs(W).max():
            break
    K = np.linalg.inv(W)
    return np.where(A, K, 0.0)


def hess(P, G, d):
    """-log determinant Hessian at P over the free entries (i <= j of G), degrees d."""
    S = np.linalg.inv(P)
    fr = [(i, j) for i in range(len(P)) for j in range(i, len(P)) if G[i, j]]
    E = []
    for i, j in fr:
        e = np.zeros_like(P)
        e[i, j] = e[j, i] = 1.0
        E.append(e)
    return (d - 2) / 2.0 * np.array([[np.trace(S @ a @ S @ b) for b in E] for a in E])


def evidence(C, P, G, d, diag):
    """Laplace approximation of log of the integral of |K|^((d-2)/2) exp(-tr(K D)/2), D = (d-2) C, P its mode."""
    H = hess(P, G, d)
    h = (d - 2) / 2.0 * (np.linalg.slogdet(P)[1] - np.trace(P @ C))
    ld = np.sum(np.log(np.diag(H))) if diag else np.linalg.slogdet(H)[1]
    return len(H) / 2.0 * np.log(2 * np.pi) + h - ld / 2


@check("C24", "score", gw_gen)
def _(case):
    from regain.bayesian.gwishart_inference import compute_score
    from sklearn.utils import Bunch

    rng = rng_of(case)
    p, n, d0 = case["p"], case["n"], case["d0"]
    X = rng.standard_normal((n, p)) @ spd(rng, p) + 1.0
    G, S0 = graph(rng, p, case["q"]), spd(rng, p)
    cov = np.atleast_2d(np.cov(X.T, bias=True))
    dn = n + d0
    C, C0 = (n * cov + S0) / (dn - 2), S0 / (d0 - 2)
    K, K0 = ml(C, G), ml(C0, G)
    S = n * cov
    fr = frozen(X, G, S0, K, K0, S)
    for method in ("bic", "diaglaplace", "laplace"):
        with quiet():
            prior = Bunch(d0=d0, S0=S0, lognormconst=0, lognormconstDiag=0)
            if method != "bic":
                prior.lognormconst = compute_score(np.zeros((0, p)), G, K0, np.zeros((p, p)), GWprior=prior, score_method=method).lognormconst
            r = compute_score(X, G, K, S, prior, method)
        unchanged(fr, "argument")
        close(r.P, K, "precision of the posterior", 0, 0)
        close(r.Sn, S + S0, "posterior scatter", 1e-8)
        close(r.dn, dn, "posterior degrees of freedom", 1e-12)
        close(r.num_edges, np.triu(G, 1).sum(), "edges", 0, 0)
        close(r.dof, np.triu(G).sum(), "free parameters", 0, 0)
        close(r.logdetP, np.linalg.slogdet(K)[1], "log determinant of the precision", 1e-8, 1e-8)
        ll = n / 2.0 * (np.linalg.slogdet(K)[1] - np.sum(cov * K) - p * np.log(2 * np.pi))
        close(r.loglik, ll, "log-likelihood of the data", 1e-8)
        if method == "bic":
            close(r.score, ll - r.dof * np.log(n) / 2, "BIC score", 1e-8)
        else:
            diag = method[0] == "d"
            want = evidence(C, K, G, dn, diag) - evidence(C0, K0, G, d0, diag) - n * p / 2.0 * np.log(2 * np.pi)
            close(r.score, want, "log evidence (%s)" % method, 1e-6, 1e-6)


@check("C24", "score of a graph", gw_gen)
def _(case):
    from regain.bayesian.gwishart_inference import GWishartScore

    rng = rng_of(case)
    p, n = case["p"], case["n"]
    X = rng.standard_normal((n, p)) + 1.0
    G = graph(rng, p, case["q"])
    cov = np.atleast_2d(np.cov(X.T, bias=True))
    fr = frozen(X, G)
    with quiet():
        r = GWishartScore(X, G, d0=case["d0"], mode="gl")
    dn = n + case["d0"]
    Sn = n * cov + (case["d0"] - 2) * np.diag(np.diag(cov))
    close(r.Sn, Sn, "posterior scatter with the default prior", 1e-8)
    unchanged(fr, "argument")
    d0 = p + 2.0
    C0, C = np.eye(p) / (d0 - 2), (n * cov + np.eye(p)) / (n + d0 - 2)
    for method in ("diaglaplace", "laplace"):
        with quiet():
            r = GWishartScore(X, G, d0=d0, S0=np.eye(p), mode="gl", score_method=method)
        diag = method[0] == "d"
        want = evidence(C, ml(C, G), G, n + d0, diag) - evidence(C0, np.linalg.inv(C0), G, d0, diag) - n * p / 2.0 * np.log(2 * np.pi)
        close(r.score, want, "log evidence (%s)" % method, 0.02, 0.05)


@check("C24", "precision selection", gw_gen)
def _(case):
    from regain.bayesian.gwishart_inference import covsel, GWishartFit
    from sklearn.utils import Bunch

    rng = rng_of(case)
    p = case["p"]
    G, C = graph(rng, p, case["q"]), spd(rng, p)
    K = np.where(G | G.T, spd(rng, p) + p * np.eye(p), 0.0)
    x = K[G]
    fr = frozen(x, G, C)
    f, g = covsel(x, p, G, C)
    obj = lambda M: -np.linalg.slogdet(M)[1] + np.sum(C * M)  # noqa
    if np.linalg.eigvalsh(K).min() > 1e-3:
        close(f, obj(K), "objective", 1e-8)
        for k, (i, j) in enumerate(zip(*np.nonzero(G))):
            E = np.zeros((p, p))
            E[i, j] = E[j, i] = 1e-5
            close(np.ravel(g)[k], (obj(K + E) - obj(K - E)) / 2e-5, "derivative in entry %d %d" % (i, j), 1e-4, 1e-5)
    unchanged(fr, "argument")
    X = rng.standard_normal((case["n"], p))
    pr = Bunch(d0=case["d0"], S0=C)
    with quiet():
        P1, S1 = GWishartFit(X, G, pr, mode="gl")
    cov = np.atleast_2d(np.cov(X.T, bias=True))
    close(S1, case["n"] * cov, "scatter of the data", 1e-8)
    Cn = (case["n"] * cov + C) / (case["n"] + case["d0"] - 2)
    need((np.asarray(P1)[~(G | G.T)] == 0).all(), "the precision is not zero outside the graph (graphical lasso)")
    fn = lambda M: -np.linalg.slogdet(M)[1] + np.sum(Cn * M)  # noqa
    b = fn(ml(Cn, G))
    need(fn(P1) <= b + 0.02 * (1 + abs(b)), "precision selection by the graphical lasso: objective %.6g, best %.6g" % (fn(P1), b))
    for bad in (np.ones((p + 1, p + 1), dtype=bool), np.ones((p, p + 1), dtype=bool)):
        try:
            with quiet():
                GWishartFit(X, bad, pr)
        except ValueError:
            continue
        need(False, "a graph of the wrong size was accepted")


@check("C24", "graphs", gw_gen)
def _(case):
    from regain.bayesian.gwishart_inference import mk_all_ugs, markov_blankets, _get_graphs

    rng = rng_of(case)
    p = case["p"]
    gs = mk_all_ugs(p)
    m = p * (p - 1) // 2
    need(len(gs) == 2 ** m, "%d graphs of %d variables, expected %d" % (len(gs), p, 2 ** m))
    keys = set()
    cnt = []
    for g in gs:
        g = np.asarray(g)
        need(g.shape == (p, p) and (g == g.T).all() and not np.diag(g).any(), "not an undirected graph without loops")
        keys.add((g != 0).tobytes())
        cnt.append(int(np.triu(g != 0, 1).sum()))
    need(len(keys) == len(gs), "a graph is repeated")
    need(cnt == sorted(cnt), "graphs are not in order of their number of edges")
    Ps = [np.where(rng.random((p, p)) < 0.5, rng.standard_normal((p, p)), 0) for _ in range(case["n"] % 4 + 1)]
    Ps = [a + a.T + 1e-12 * rng.standard_normal((p, p)) for a in Ps]
    fr = frozen(*Ps)
    for boolean in (True, False):
        mb = markov_blankets(Ps, boolean=boolean, tol=1e-8)
        need(len(mb) == p, "one list of blankets per variable")
        for i in range(p):
            want = np.array([[0.0 if (j == i or abs(a[i, j]) < 1e-8) else a[i, j] for j in range(p)] for a in Ps])
            close(np.asarray(mb[i], dtype=float), want != 0 if boolean else want, "blankets of variable %d" % i, 0, 0)
    unchanged(fr, "precision")
    mbu = markov_blankets(Ps, tol=1e-8, unique=True)
    full = np.array(markov_blankets(Ps, tol=1e-8))
    cols = {full[:, k].tobytes() for k in range(full.shape[1])}
    got = [np.asarray(mbu)[:, k].tobytes() for k in range(np.asarray(mbu).shape[1])]
    need(len(got) == len(set(got)) and set(got) == cols, "unique blankets")
    sc = rng.random((p, full.shape[1])) * (rng.random((p, full.shape[1])) < 0.6) + 1e-9
    sc = sc / sc.sum(1, keepdims=True)
    np.random.seed(case["seed"] % (1 << 31))
    gr = _get_graphs(full, sc, p, n_resampling=7)
    need(gr.shape == (7, p, p), "shape of the sampled graphs")
    for g in gr:
        need((g == g.T).all(), "a sampled graph is not symmetric")
        need(not np.diag(g).any(), "a sampled graph has loops")
        # an edge needs both variables to have a blanket holding the other
        both = (full.any(1) & full.any(1).T)
        need(not (g & ~both).any(), "an edge in no blanket")


def bg_gen(rng, tier, hints):
    for i in range(3 if tier == "quick" else 20):
        yield dict(seed=int(rng.integers(1 << 30)), p=int(rng.integers(2, 5)), scoring=str(rng.choice(["bic", "diaglaplace", "laplace"])), top=int(rng.integers(1, 3)))


@check("C24", "bayesian graphical lasso", bg_gen)
def _(case):
    from regain.bayesian import gwishart_inference as g

    rng = rng_of(case)
    p = case["p"]
    X = rng.standard_normal((40, p)) @ spd(rng, p)
    seen = []
    old = g.GWishartScore

    def spy(*a, **k):
        r = old(*a, **k)
        seen.append(r)
        return r

    np.random.seed(case["seed"] % (1 << 31))
    g.GWishartScore = spy
    try:
        with quiet():
            e = g.BayesianGraphicalLasso(n_resampling=6, scoring=case["scoring"], top_n=case["top"], alphas=[0.05, 0.3, 0.8]).fit(X)
    finally:
        g.GWishartScore = old
    if len(seen) != 6:
        raise Skip("scored in another way")
    sc = np.array([float(s.score) for s in seen])
    o = np.argsort(-sc, kind="stable")
    if len(set(np.round(sc, 6))) < len(sc) and case["top"] > 1:
        best = [np.asarray(s.P) for s in seen if s.score >= sc[o[case["top"] - 1]] - 1e-9]
        if len(best) != case["top"]:
            raise Skip("ties")
    best = np.sort(sc)[::-1][: case["top"]]
    want = np.mean([np.asarray(seen[k].P) for k in o[: case["top"]]], axis=0)
    if len(sc) > case["top"] and abs(np.sort(sc)[::-1][case["top"]] - best[-1]) < 1e-6:
        cand = [np.asarray(s.P) for s in seen if s.score >= best[-1] - 1e-6]
        if np.ptp([c for c in cand], axis=0).max() > 1e-6:
            raise Skip("ties")
    close(e.precision_, want, "average of the best scoring precisions", 1e-6, 1e-8)
