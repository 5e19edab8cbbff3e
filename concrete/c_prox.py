"""Executable contracts of the proximal operators and norms: perturbation-free optimality conditions."""
from .core import *
from . import ref


def P():
    import regain.prox as p

    return p


def arr(rng, shape, kind):
    a = rng.standard_normal(shape) * 2
    if kind == "int":
        a = np.round(a)
    elif kind == "ties":
        a = np.round(a * 2) / 2
        a = np.where(rng.random(shape) < 0.3, 0.0, a)
    elif kind == "zero":
        a = np.zeros(shape)
    elif kind == "big":
        a = a * 1e4
    elif kind == "small":
        a = a * 1e-4
    return a


KINDS = ("norm", "ties", "zero", "big", "small", "int")


def gen(names, batch):
    def g(rng, tier, hints):
        n = 40 if tier == "quick" else 300
        for h in (hints or {}).get("models", [])[:10]:
            for nm in names:
                v = h.get("lam")
                yield dict(fn=nm, seed=int(rng.integers(1 << 30)), d=3, T=2, kind="ties", lam=float(v) if isinstance(v, (int, float)) and v >= 0 else 0.5, lk="s", nd=3)
        for i in range(n):
            for nm in names:
                lam = [0.5, 0.0, 1.0, 100.0, 0.25, 2.0, float(rng.uniform(0, 2))][i % 7]
                yield dict(fn=nm, seed=int(rng.integers(1 << 30)), d=int(rng.integers(1, 6)), T=int(rng.integers(1, 4)), kind=KINDS[i % 6], lam=lam,
                           lk=["s", "s", "batch", "full"][i % 4] if nm in batch else "s", nd=2 + (i // 2) % 2)

    return g


def mk(case, square=True, sym=False):
    rng = rng_of(case)
    d, T = case["d"], case["T"]
    shape = (d, d) if case["nd"] == 2 else (T, d, d)
    if not square:
        shape = (int(rng.integers(1, 5)), d) if case["nd"] == 2 else (T, int(rng.integers(1, 5)), d)
    a = arr(rng, shape, case["kind"])
    if sym:
        a = (a + np.swapaxes(a, -1, -2)) / 2
    lam = case["lam"]
    if case["lk"] == "batch" and case["nd"] == 3:
        lam = rng.uniform(0, 1, (T, 1, 1)) * lam
    elif case["lk"] == "full":
        lam = rng.uniform(0, 1, shape) * lam
    return a, lam


def tol(a):
    return 1e-9 * (1 + np.abs(a).max() if a.size else 1)


@check("C08", "prox:elementwise", gen(("soft_thresholding", "soft_thresholding_off_diagonal"), ("soft_thresholding", "soft_thresholding_off_diagonal")))
def elementwise(case):
    od = case["fn"].endswith("diagonal")
    a, lam = mk(case, square=od)
    s = frozen(a)
    with quiet():
        x = getattr(P(), case["fn"])(a, lam)
    unchanged(s)
    close(x, (ref.st_od if od else ref.st)(a, lam), case["fn"], rtol=1e-10, atol=tol(a))


@check("C08", "prox:group", gen(("soft_thresholding_vector", "blockwise_soft_thresholding", "blockwise_soft_thresholding_symmetric"), ("blockwise_soft_thresholding",)))
def group(case):
    vec = case["fn"] == "soft_thresholding_vector"
    case = dict(case, lk="batch" if case["lk"] == "full" else case["lk"])
    a, lam = mk(case, square=not vec)
    if not np.isscalar(lam) and a.ndim == 2:
        lam = case["lam"]
    s = frozen(a)
    with quiet():
        x = getattr(P(), case["fn"])(a, lam)
    unchanged(s)
    need(np.isfinite(x).all(), "%s: not finite" % case["fn"])
    if vec:
        want = np.swapaxes(ref.group_cols(np.swapaxes(a, -1, -2), lam), -1, -2)
    else:
        want = ref.group_cols(a, lam)
    close(x, want, case["fn"], rtol=1e-9, atol=tol(a))
    if vec:
        v = a.reshape(-1)
        y = P().soft_thresholding_vector(v, case["lam"])
        close(y, ref.group_cols(v[:, None], case["lam"])[:, 0], "soft_thresholding_vector (one vector)", atol=tol(a))


@check("C08", "prox:linf", gen(("prox_linf",), ("prox_linf",)))
def linf(case):
    case = dict(case, nd=3, lk="batch" if case["lk"] == "full" else case["lk"])
    a, lam = mk(case)
    s = frozen(a)
    with quiet():
        x = P().prox_linf(a, lam)
        y = P().prox_linf_1d(a[0, :, 0].copy(), case["lam"])
    unchanged(s)
    close(x, ref.linf_cols(a, lam), "prox_linf", rtol=1e-8, atol=tol(a))
    close(y, ref.linf_vec(a[0, :, 0], case["lam"]), "prox_linf_1d", rtol=1e-8, atol=tol(a))


@check("C08", "prox:spectral", gen(("prox_logdet", "prox_trace_indicator", "prox_laplacian"), ("prox_logdet", "prox_trace_indicator", "prox_laplacian")))
def spectral(case):
    rng = rng_of(case)
    nm = case["fn"]
    a, lam = mk(dict(case, lk="s"), sym=True)
    if case["kind"] == "big":
        a = a / 1e2
    lam = max(case["lam"], 1e-3) if nm == "prox_logdet" else case["lam"]
    if lam == 100.0:
        lam = 20.0
    L = lam
    if case["lk"] != "s" and a.ndim == 3:
        L = rng.uniform(0.2, 1, (a.shape[0], 1)) * lam
        if nm == "prox_laplacian":
            L = L[:, :, None]
    s = frozen(a, L) if not np.isscalar(L) else frozen(a)
    with quiet():
        x = getattr(P(), nm)(a, L)
    unchanged(s)
    need(x.shape == a.shape, "%s: shape" % nm)
    A3, X3 = a.reshape((-1,) + a.shape[-2:]), x.reshape((-1,) + a.shape[-2:])
    lv = np.broadcast_to(np.asarray(L, float).reshape(-1), (len(A3),))
    for A, X, l in zip(A3, X3, lv):
        if nm == "prox_laplacian":
            close(X * (1 + 2 * l), A, nm, atol=tol(a))
            continue
        close(X, X.T, nm + ": symmetric", atol=tol(a))
        w = np.linalg.eigvalsh(X)
        if nm == "prox_logdet":
            need(w[0] > 0, "prox_logdet: not positive definite (%g)" % w[0])
            sc = np.abs(A).max() + 1
            close(X @ (X + l * A), l * np.eye(len(A)), "prox_logdet: X(X/l + A) = I", rtol=1e-6, atol=1e-7 * max(1, l) * sc**2)
        else:
            close(X, ref.trace_prox(A, l), nm, atol=tol(a) * 10)


def fl_obj(Y, a, beta, lam):
    T = len(a)
    od = 1 - np.eye(a.shape[1])
    return 0.5 * ((Y - a) ** 2).sum() + beta * sum(np.abs(Y[t + 1] - Y[t]).sum() for t in range(T - 1)) + lam * (np.abs(Y) * od).sum()


@check("C08", "prox:fused-lasso", gen(("prox_FL",), ()))
def fused(case):
    """soft-thresholding of the total-variation prox; global optimality of the fused-lasso objective."""
    rng = rng_of(case)
    if case["kind"] in ("big", "small"):
        raise Skip()
    d, T = min(case["d"], 3), case["T"] + 1
    a = arr(rng, (T, d, d), case["kind"])
    a = (a + a.transpose(0, 2, 1)) / 2
    beta, lam = float(rng.uniform(0.05, 1.0)), min(case["lam"], 3.0)
    s = frozen(a)
    for kw in (dict(optimize=True), dict(optimize=False, symmetric=True), dict(optimize=False, symmetric=False)):
        with quiet():
            Y = P().prox_FL(a, beta, lam, p=1, **kw)
        unchanged(s)
        f0 = fl_obj(Y, a, beta, lam)
        for j in range(30):
            D = rng.standard_normal(a.shape)
            if j % 3 == 1:
                D = np.broadcast_to(D[:1], a.shape)
            if j % 3 == 2:
                D = (rng.random(a.shape) < 0.2) * D
            for e in (1e-1, 1e-2):
                need(fl_obj(Y + e * D, a, beta, lam) >= f0 - 1e-7 * (1 + f0), "prox_FL %s is not the minimiser of its objective" % kw)


# ------------------------------------------------------------------ norms and their pairing with prox operators
def gen9(rng, tier, hints):
    n = 30 if tier == "quick" else 200
    for i in range(n):
        for nm in ("laplacian", "l1", "l2", "linf"):
            yield dict(norm=nm, seed=int(rng.integers(1 << 30)), d=int(rng.integers(1, 6)), T=int(rng.integers(1, 4)), kind=KINDS[i % 6], lam=[0.5, 1.0, 0.1, 3.0][i % 4], lk=["s", "batch"][i % 2])


@check("C09", "norm:prox-pairing", gen9)
def pairing(case):
    from regain.validation import check_norm_prox

    rng = rng_of(case)
    a, lam = mk(dict(case, nd=3))
    if case["kind"] == "big":
        a = a / 1e3
    with quiet():
        norm, prox, node = check_norm_prox(case["norm"])
        x = prox(a, lamda=lam)
    need(not node, "%s treated as node penalty" % case["norm"])
    for y in a:
        with quiet():
            v = norm(y)
        close(v, ref.PSI[case["norm"]][0](y), "%s penalty value" % case["norm"], rtol=1e-9, atol=1e-10)
    lv = np.broadcast_to(np.asarray(lam, float).reshape(-1), (len(a),))
    F = lambda y, t: lv[t] * norm(y) + 0.5 * ((y - a[t]) ** 2).sum()  # noqa
    for t in range(len(a)):
        f0 = F(x[t], t)
        for j in range(12):
            e = 10.0 ** -rng.integers(0, 4)
            D = rng.standard_normal(a[t].shape) * (1 if j % 2 else (rng.random(a[t].shape) < 0.3))
            need(F(x[t] + e * D, t) >= f0 - 1e-8 * (1 + abs(f0)), "%s: the prox is not the minimiser of the norm it is paired with" % case["norm"])
        for y in (np.zeros_like(a[t]), a[t], 0.5 * (x[t] + a[t])):
            need(F(y, t) >= f0 - 1e-8 * (1 + abs(f0)), "%s: the prox is not the minimiser of the norm it is paired with" % case["norm"])


def gen_rej(rng, tier, hints):
    for s in ("", "L1", "l3", "lapl", "Laplacian", "l22", "none", " l1", "node ", "inf", "linf2", "ell1"):
        yield dict(name=s)


@check("C09", "norm:unknown-name-rejected", gen_rej)
def rejects(case):
    from regain.validation import check_norm_prox

    try:
        check_norm_prox(case["name"])
    except ValueError:
        pass
    else:
        raise Bad("penalty name %r accepted" % case["name"])
    need(check_norm_prox("node")[2] is True, "node penalty not flagged")


def gen_norms(rng, tier, hints):
    for i in range(40 if tier == "quick" else 200):
        yield dict(seed=int(rng.integers(1 << 30)), d=int(rng.integers(1, 6)), T=int(rng.integers(1, 4)), kind=KINDS[i % 6])


@check("C09", "norm:values", gen_norms)
def norms(case):
    from regain import norm as N

    rng = rng_of(case)
    d, T = case["d"], case["T"]
    a = arr(rng, (T, d, d), case["kind"])
    s = frozen(a)
    od = np.abs(a).sum((1, 2)) - np.abs(np.diagonal(a, axis1=1, axis2=2)).sum(1)
    for x, w in ((a, od), (a[0], od[0])):
        close(N.l1_od_norm(x), w, "l1_od_norm", atol=1e-9 * (1 + np.abs(a).max()))
    close(N.matrix_l1_norm(a), np.abs(a).sum((1, 2)), "matrix_l1_norm")
    b = np.array([a, -2 * a, a**2])
    close(N.matrix_l1_norm(b), np.abs(b).sum((2, 3)), "matrix_l1_norm of a batch of batches")
    close(N.l1_od_norm(b), np.array([od, 2 * od, N.l1_od_norm(a**2)]), "l1_od_norm of a batch of batches", atol=1e-9 * (1 + np.abs(b).max()))
    close(N.l1_norm(a), np.abs(a).sum(), "l1_norm")
    close(N.l2_norm(a[0]), np.sqrt((a[0] ** 2).sum(0)).sum(), "l2_norm")
    close(N.linf_norm(a[0]), np.abs(a[0]).max(0).sum(), "linf_norm")
    for p in (1, 2):
        close(N.vector_p_norm(a, p=p), sum(np.linalg.norm(a[:, i, j], ord=p) for i in range(d) for j in range(d)), "vector_p_norm(p=%d)" % p)
    unchanged(s)
