"""C14 graph comparison metrics, C18 helpers."""
from .core import *


# ---------------------------------------------------------------- C14
def gen_struct(rng, tier, hints):
    for i in range(160 if tier == "quick" else 1500):
        yield dict(seed=int(rng.integers(1 << 30)), d=int(rng.integers(2, 7)), T=int(rng.integers(0, 4)), thr=bool(i & 1), nodiag=bool(i & 2), kind=["mixed", "empty", "full", "equal", "empty-pred", "nodiag", "single", "asym"][(i // 4) % 8], eps=float(rng.choice([1e-2, 0.3])), layout=LAYOUTS[i % 5])


def pair(case):
    rng, d = rng_of(case), case["d"]
    T = max(case["T"], 1)

    def g(p):
        A = np.round(rng.standard_normal((T, d, d)), 3) * (rng.random((T, d, d)) < p)
        A = np.triu(A)
        A = A + np.triu(A, 1).transpose(0, 2, 1)
        i = np.arange(d)
        A[:, i, i] = rng.uniform(0.5, 2, (T, d))
        return A

    p = dict(empty=0.0, full=1.1).get(case["kind"], 0.4)
    A, Bm = g(p), g(0.5)
    k = case["kind"]
    if k == "equal":
        Bm = A.copy()
    if k == "empty-pred":
        Bm = np.zeros_like(A)
    if k == "nodiag":
        i = np.arange(d)
        A[:, i, i] = 0
        Bm[:, i, i] = 0
    if k == "single":
        A = np.zeros_like(A)
        A[0, 0, 1] = A[0, 1, 0] = -0.5
    if k == "asym":
        Bm[:, 0, -1] = 0
        A = rng.standard_normal(A.shape) * (rng.random(A.shape) < 0.5)
    Bm = Bm * np.where(rng.random(Bm.shape[0]) < 0.3, 0.004, 1)[:, None, None]
    if case["T"] == 0:
        A, Bm = A[0], Bm[0]
    return layout(A, case["layout"]), layout(Bm, case["layout"])


def edge_counts(A, Bm, thr, nodiag):
    c = dict(tp=0, tn=0, fp=0, fn=0)
    for idx in np.ndindex(A.shape):
        if nodiag and idx[-1] == idx[-2]:
            continue
        e = A[idx] != 0
        f = Bm[idx] != 0 and (thr is None or abs(Bm[idx]) >= thr)
        c[{(1, 1): "tp", (0, 0): "tn", (0, 1): "fp", (1, 0): "fn"}[int(e), int(f)]] += 1
    return c


@check("C14 C19", "structure", gen_struct)
def structure(case):
    from regain.utils import mean_structure_error, structure_error
    from sklearn.metrics import average_precision_score, matthews_corrcoef

    A, Bm = pair(case)
    fz = frozen(A, Bm)
    k = dict(thresholding=True, eps=case["eps"]) if case["thr"] else {}
    with quiet():
        r = structure_error(A, Bm, no_diagonal=case["nodiag"], **k)
    unchanged(fz)
    c = edge_counts(A, Bm, case["eps"] if case["thr"] else None, case["nodiag"])
    tp, tn, fp, fn = (c[q] for q in ("tp", "tn", "fp", "fn"))
    for q in c:
        need(r[q] == c[q], "%s = %s, counted %s" % (q, r[q], c[q]))
    N = tp + tn + fp + fn
    close(r["accuracy"], (tp + tn) / N, "accuracy")
    close(r["prevalence"], (tp + fn) / N, "prevalence")
    for q, a, b in (("precision", tp, fp), ("recall", tp, fn), ("miss_rate", fn, tp), ("fall_out", fp, tn), ("specificity", tn, fp), ("fdr", fp, tp), ("npv", tn, fn), ("false_omission_rate", fn, tn)):
        if a + b:
            close(r[q], a / (a + b), q)
        need(0 <= r[q] <= 1, "%s = %r is not a rate" % (q, r[q]))
    for a, b in (("precision", "fdr"), ("recall", "miss_rate"), ("specificity", "fall_out"), ("npv", "false_omission_rate")):
        close(r[a] + r[b], 1, "%s + %s" % (a, b))
    close(r["f1"], 2 * tp / (2 * tp + fp + fn) if tp else 0, "f1")
    close(r["balanced_accuracy"], (r["recall"] + r["specificity"]) / 2, "balanced_accuracy")
    if r["fall_out"] > 0:
        close(r["plr"], r["recall"] / r["fall_out"], "plr")
    if r["specificity"] > 0:
        close(r["nlr"], r["miss_rate"] / r["specificity"], "nlr")
    if r["nlr"] > 0:
        close(r["dor"], r["plr"] / r["nlr"], "dor")
    iu = np.triu_indices(case["d"], 1)
    yt, yp = A[(...,) + iu].ravel(), Bm[(...,) + iu].ravel()
    if case["kind"] != "asym":  # for symmetric graphs the triangle decides
        with quiet():
            close(r["average_precision"], average_precision_score(yt != 0, np.abs(yp)), "average_precision")
            close(r["mcc"], matthews_corrcoef(yt != 0, yp != 0), "mcc")
    preds = [Bm, A, Bm * 1.0]
    with quiet():
        m = mean_structure_error(A, preds)
        rs = [structure_error(A, p, no_diagonal=True) for p in preds]
    need(set(m) == set(rs[0]), "mean_structure_error reports %s" % sorted(set(rs[0]) ^ set(m)))
    for q in m:
        a, b = m[q].split("+/-")
        v = [x[q] for x in rs]
        close(float(a), np.mean(v), "mean of " + q)
        close(float(b), np.std(v), "standard deviation of " + q)
    unchanged(fz)


def gen_norm(rng, tier, hints):
    for i in range(150 if tier == "quick" else 1000):
        yield dict(seed=int(rng.integers(1 << 30)), d=int(rng.integers(2, 7)), T=int(rng.integers(1, 5)), scaling=bool(i & 1), squared=bool(i & 2), ut=bool(i & 4), layout=LAYOUTS[i % 5])


@check("C14 C19", "norm-error", gen_norm)
def norm_error(case):
    from regain.utils import error_norm, error_norm_time, error_rank, normalize_matrix

    rng, d, T = rng_of(case), case["d"], case["T"]
    A, Bm = rng.standard_normal((T, d, d)), rng.standard_normal((T, d, d))
    A, Bm = layout(A, case["layout"]), layout(Bm, case["layout"])
    fz = frozen(A, Bm)
    k = dict(scaling=case["scaling"], squared=case["squared"])
    fin = lambda v: v if case["squared"] else np.sqrt(v)  # noqa
    tri = np.triu(np.ones((d, d)), 1) if case["ut"] else np.ones((d, d))
    E = (Bm - A) * tri
    fac = T * d * ((d - 1) / 2 if case["ut"] else d) if case["scaling"] else 1
    close(error_norm(A, Bm, upper_triangular=case["ut"], **k), fin((E ** 2).sum() / fac), "error_norm of sequences")
    f2 = d if case["scaling"] else 1
    for a, b, e in zip(A, Bm, E):
        close(error_norm(a, b, upper_triangular=case["ut"], **k), fin((e ** 2).sum() / f2), "error_norm")
        close(error_norm(a, b, norm="spectral", upper_triangular=case["ut"], **k), fin(np.linalg.norm(e, 2) ** 2 / f2), "spectral error_norm")
    D = Bm - A
    close(error_norm_time(A, Bm, **k), np.mean([fin((e ** 2).sum() / f2) for e in D]), "error_norm_time")
    close(error_norm_time(A, Bm, norm="spectral", **k), np.mean([fin(np.linalg.norm(e, 2) ** 2 / f2) for e in D]), "spectral error_norm_time")
    r1, r2 = rng.integers(0, d + 1, T), rng.integers(0, d + 1, T)
    low = lambda r: np.array([(lambda U: U @ U.T)(rng.standard_normal((d, q)) if q else np.zeros((d, 1))) for q in r])  # noqa
    close(error_rank(low(r1), low(r2)), np.abs(r1 - r2).mean(), "error_rank")
    unchanged(fz)
    M = np.array([spd(rng, d) * 3 for _ in range(T)])
    want = np.array([m / np.sqrt(np.outer(np.diag(m), np.diag(m))) for m in M])
    N = np.array([spd(rng, d) for _ in range(T)])
    wn = np.array([m / np.sqrt(np.outer(np.diag(m), np.diag(m))) for m in N])
    fz = frozen(M, N)
    close(error_norm(M, N, n=True, **k), fin(((wn - want) ** 2).sum() / (T * d * d if case["scaling"] else 1)), "error_norm of normalised sequences")
    unchanged(fz)
    x = M[0].copy()
    normalize_matrix(x)
    close(x, want[0], "normalize_matrix")
    try:
        error_norm(A, Bm, norm="nuclear")
    except NotImplementedError:
        return
    raise Bad("an unknown norm is accepted")


# ---------------------------------------------------------------- C18
def gen_help(rng, tier, hints):
    for i in range(150 if tier == "quick" else 1000):
        yield dict(seed=int(rng.integers(1 << 30)), d=int(rng.integers(1, 7)), T=int(rng.integers(1, 5)), n=int(rng.integers(1, 6)), layout=LAYOUTS[i % 5])


def raises(exc, f, *a, **k):
    try:
        with quiet():
            f(*a, **k)
    except exc:
        return True
    return False


@check("C18 C19", "helpers", gen_help)
def helpers(case):
    from regain import math as m
    from regain import utils as u
    from regain import validation as v

    rng, d, T, n = rng_of(case), case["d"], case["T"], case["n"]
    A = layout(rng.standard_normal((T, d, d)), case["layout"])
    fz = frozen(A)
    close(m.get_diagonal(A), np.array([np.diag(a) for a in A]), "get_diagonal of a batch")
    close(m.get_diagonal(A[0]), np.diag(A[0]), "get_diagonal")
    x = rng.standard_normal((T, d))
    close(m.create_from_diagonal(x), np.array([np.diag(q) for q in x]), "create_from_diagonal of a batch")
    close(m.create_from_diagonal(x[0]), np.diag(x[0]), "create_from_diagonal")
    close(m.batch_logdet(A), np.array([np.linalg.slogdet(a)[1] if np.linalg.slogdet(a)[0] > 0 else -np.inf for a in A]), "batch_logdet")
    for val in (2.5, x[0], x):
        y = layout(A, case["layout"])
        m.fill_diagonal(y, val)
        w = A.copy()
        w[:, np.arange(d), np.arange(d)] = val
        close(y, w, "fill_diagonal")
    # definiteness
    G = np.array([spd(rng, d) for _ in range(T)])
    bad = G.copy()
    t = int(rng.integers(T))
    w, Q = np.linalg.eigh(bad[t])
    w[int(rng.integers(d))] = -0.5
    bad[t] = (Q * w) @ Q.T
    bad = (bad + bad.transpose(0, 2, 1)) / 2
    for s in range(T):
        need(bool(u.is_pos_def(G[s])) and bool(u.is_pos_def(G[s], chol=False)) and bool(u.is_pos_semidef(G[s])), "a positive definite matrix is rejected")
    need(not u.is_pos_def(bad[t]) and not u.is_pos_def(bad[t], chol=False) and not u.is_pos_semidef(bad[t]), "an indefinite matrix is accepted")
    need(not u.is_pos_def(np.diag(np.arange(d) * 1.0), chol=False) and bool(u.is_pos_semidef(np.diag(np.arange(d) * 1.0))), "semidefinite matrices are misjudged")
    need(bool(u.is_pos_semidef(np.diag([1.0] * d + [-1e-5]), tol=1e-3)) and not u.is_pos_semidef(np.diag([1.0] * d + [-1e-5]), tol=1e-7), "is_pos_semidef tolerance")
    need(bool(u.positive_definite(G)) and not u.positive_definite(bad) and bool(u.positive_definite(G[0])) and not u.positive_definite(bad[t]), "positive_definite")
    y = bad.copy()
    u.ensure_posdef(y)
    for s in range(T):
        if s != t:
            need(np.array_equal(y[s], bad[s]), "ensure_posdef changes a positive definite matrix")
    o = bad[t] - np.diag(np.diag(bad[t]))
    close(y[t], o + np.diag(np.abs(o).sum(1) + 0.1), "ensure_posdef")
    need(np.linalg.eigvalsh(y[t]).min() > 0, "ensure_posdef result is not positive definite")
    y = bad[t].copy()
    u.ensure_posdef(y)
    close(y, o + np.diag(np.abs(o).sum(1) + 0.1), "ensure_posdef of one matrix")
    need(raises(NotImplementedError, u.ensure_posdef, bad[t].copy(), inplace=False), "ensure_posdef(inplace=False) is accepted")
    # threshold
    lo, hi = -0.4, 0.6
    for a, b in ((lo, hi), (lo, None), (None, hi), (None, None)):
        w = A.copy()
        if a is not None:
            w[A < a] = 9.0
        if b is not None:
            w[A > b] = 9.0
        close(np.asarray(u.threshold(A, a, b, 9.0)), w, "threshold")
    # data layout
    X3 = layout(rng.standard_normal((T, n, d)), case["layout"])
    ns = rng.integers(1, 6, T)
    for data in (X3, [rng.standard_normal((q, d)) for q in ns]):
        X, y = u.convert_data_to_2d(data)
        X, y = np.asarray(X), np.asarray(y)
        need(len(X) == len(y) == sum(len(q) for q in data), "convert_data_to_2d loses samples")
        for q in range(T):
            close(X[y == q], data[q], "convert_data_to_2d class %d" % q)
        need(np.array_equal(y, np.sort(y)), "convert_data_to_2d changes the order")
    close(u.flatten([[1.0, [2.0, 3.0]], np.array([[4.0, 5.0]]), 6.0]), np.arange(1, 7), "flatten")
    k = d * (d + 1) // 2
    vec = rng.standard_normal(k)
    F = u.upper_to_full(vec)
    W = np.zeros((d, d))
    W[np.triu_indices(d)] = vec
    close(F, W + np.triu(W, 1).T, "upper_to_full")
    fs = [lambda z: 2 * z, lambda z: z + 3, lambda z: z * z]
    close(u.compose(*fs)(1.5), 2 * (1.5 ** 2 + 3), "compose")
    close(u.compose()(1.5), 1.5, "compose of nothing")
    arr = rng.permutation(d * d).reshape(d, d).astype(float)
    # validation
    with quiet() as wr:
        need(np.array_equal(v.check_array_dimensions(X3), X3), "check_array_dimensions changes valid data")
        need(np.array_equal(v.check_array_dimensions(X3, time_on_axis="last"), np.transpose(X3, (2, 0, 1))), "check_array_dimensions(time_on_axis='last')")
        need(not wr, "valid data raise a warning")
        need(np.array_equal(v.check_array_dimensions(X3[0]), X3[0][None]), "a single time point")
        need(len(wr) == 1, "a single time point is not warned about")
        L = [X3[0], X3[0]]
        need(v.check_array_dimensions(L) is L, "a list is changed")
    need(raises(ValueError, v.check_array_dimensions, X3[0][0]), "one-dimensional data are accepted")
    Z = layout(rng.standard_normal((T, n + 1, d + 1)), case["layout"])
    with quiet():
        X, s, dd, tt = v.check_input(Z)
    need(np.array_equal(X, Z) and dd == d + 1 and tt == T and np.array_equal(s, [n + 1] * T), "check_input")
    if n + 1 > 1 and T > 1:
        with quiet():
            X, s, dd, tt = v.check_input(Z, time_on_axis="last")
        need(np.array_equal(X, np.transpose(Z, (2, 0, 1))) and dd == n + 1 and tt == d + 1 and np.array_equal(s, [T] * (d + 1)), "check_input(time_on_axis='last')")
    need(raises(ValueError, v.check_input, Z, np.zeros(T)), "check_input accepts labels")
    import scipy.sparse as sp

    need(raises(TypeError, v.check_input, sp.eye(3)), "check_input accepts sparse data")
    unchanged(fz)
