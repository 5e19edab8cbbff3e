"""C17 lasso, group lasso and overlapping group lasso (regain.linear_model)."""
from .core import *


def soft(v, t):
    return np.sign(v) * np.maximum(np.abs(v) - t, 0)


def shrink(v, t):
    n = np.sqrt((v * v).sum())
    return v * (1 - t / n) if n > t else np.zeros_like(v)


def partition(rng, d):
    cuts = sorted(set(int(x) for x in rng.integers(1, d, size=int(rng.integers(0, 4))))) if d > 1 else []
    e = [0] + cuts + [d]
    return [list(range(a, b)) for a, b in zip(e, e[1:])]


def cover(rng, d):
    gs = [sorted(int(x) for x in rng.choice(d, size=int(rng.integers(1, d + 1)), replace=False)) for _ in range(int(rng.integers(1, 5)))]
    for g in gs:
        rng.shuffle(g)
    miss = [j for j in range(d) if not any(j in g for g in gs)]
    if miss:
        gs.append(miss)
    return [[int(j) for j in g] for g in gs]


def admm(A, b, lam, rho, al, iters, tol, rtol, prox, pen):
    n, d = A.shape
    z, u, h = np.zeros(d), np.zeros(d), []
    M, q = A.T @ A + rho * np.eye(d), A.T @ b
    gap = np.inf
    for _ in range(iters):
        x = np.linalg.solve(M, q + rho * (z - u))
        zo, xh = z, al * x + (1 - al) * z
        z = prox(xh + u, lam / rho)
        u = u + xh - z
        e = np.sqrt(d) * tol
        r = A @ x - b
        h.append((0.5 * r @ r + lam * pen(z), np.linalg.norm(x - z), np.linalg.norm(rho * (z - zo)), e + rtol * max(np.linalg.norm(x), np.linalg.norm(z)), e + rtol * np.linalg.norm(rho * u)))
        gap = min(gap, abs(h[-1][1] - h[-1][3]) / (h[-1][3] + 1e-300), abs(h[-1][2] - h[-1][4]) / (h[-1][4] + 1e-300))
        if h[-1][1] < h[-1][3] and h[-1][2] < h[-1][4]:
            break
    return z, np.array(h), gap


def kkt(A, b, z, lam, groups, what):
    """stationarity of 1/2|Az-b|^2 + lam sum |z_g|"""
    g = A.T @ (b - A @ z)
    sc = 1 + np.abs(A.T @ b).max()
    for q in groups:
        zg, gg = z[q], g[q]
        nz = np.linalg.norm(zg)
        if nz > 1e-4 * sc:
            err = np.linalg.norm(gg - lam * zg / nz)
        else:
            err = max(0.0, np.linalg.norm(gg) - lam) if nz == 0 else 0.0
        need(err <= 1e-4 * sc, "%s: the returned point does not minimise the objective (optimality violated by %.3g, scale %.3g)" % (what, err, sc))


def gen(rng, tier, hints):
    for i in range(90 if tier == "quick" else 900):
        opt = bool(i % 3 == 2)
        yield dict(seed=int(rng.integers(1 << 30)), n=int(rng.integers(1, 9)), d=int(rng.integers(1, 7)), kind=["lasso", "group"][i % 2], lam=float(rng.choice([0.05, 0.5, 2.0])), rho=float(rng.choice([0.5, 1.0, 3.0])), al=float(rng.choice([1.0, 1.5])), opt=opt, iters=int(rng.integers(1, 40)), tol=float(rng.choice([0, 1e-3, 0.1])), rtol=float(rng.choice([0, 1e-2, 0.2])), hist=bool(i % 5), layout=LAYOUTS[i % 5], tall=bool(i % 4 == 0), size=float(rng.choice([1.0, 5.0])))


@check("C17 C19", "lasso", gen)
def lassos(case):
    from regain.linear_model.group_lasso_ import group_lasso
    from regain.linear_model.lasso_ import lasso

    rng, n, d = rng_of(case), case["n"], case["d"]
    if case["tall"] or case["opt"]:
        n = n + d
    A = layout(rng.standard_normal((n, d)), case["layout"])
    b = case["size"] * rng.standard_normal(n)
    gs = partition(rng, d) if case["kind"] == "group" else [[j] for j in range(d)]
    f = (lambda *a, **k: group_lasso(*a, groups=[list(g) for g in gs], **k)) if case["kind"] == "group" else lasso

    def prox(v, t):
        out = np.zeros(d)
        for g in gs:
            out[g] = shrink(v[g], t)
        return out

    pen = lambda v: sum(np.linalg.norm(v[g]) for g in gs)  # noqa
    fr = frozen(A, b)
    if case["opt"]:
        with quiet():
            z, h = f(A, b, lamda=case["lam"], rho=case["rho"], alpha=case["al"], max_iter=6000, tol=1e-9, rtol=1e-9, return_history=True)
        if len(h) == 6000:
            raise Skip
        need(z.shape == (d,), "shape of the solution")
        kkt(np.asarray(A), b, z, case["lam"], gs, case["kind"])
        unchanged(fr)
        return
    with quiet():
        o = f(A, b, lamda=case["lam"], rho=case["rho"], alpha=case["al"], max_iter=case["iters"], tol=case["tol"], rtol=case["rtol"], return_history=case["hist"])
    zr, hr, gap = admm(np.asarray(A), b, case["lam"], case["rho"], case["al"], case["iters"], case["tol"], case["rtol"], prox, pen)
    if gap < 1e-6:
        raise Skip
    if case["hist"]:
        z, h = o
        need(len(h) == len(hr), "%s stops after %d iterations, expected %d" % (case["kind"], len(h), len(hr)))
        close(np.array(h, dtype=float), hr, "history", rtol=1e-5, atol=1e-7)
    else:
        z = o
    close(z, zr, "%s: solution after %d iterations" % (case["kind"], len(hr)), rtol=1e-6, atol=1e-8)
    unchanged(fr)


def gen_bad(rng, tier, hints):
    for i in range(6):
        yield dict(seed=int(rng.integers(1 << 30)), d=int(rng.integers(3, 6)), how=i % 3)


@check("C17", "partition", gen_bad)
def bad_partition(case):
    from regain.linear_model.group_lasso_ import group_lasso

    rng, d = rng_of(case), case["d"]
    A, b = rng.standard_normal((d + 2, d)), rng.standard_normal(d + 2)
    gs = [[[0], list(range(1, d - 1))], [list(range(d - 1)), [0]], [list(range(d - 1)), [d - 2]]][case["how"]]
    try:
        with quiet():
            group_lasso(A, b, groups=gs)
    except ValueError:
        return
    raise Bad("groups %r that are not a partition of %d variables were accepted" % (gs, d))


def gen_ov(rng, tier, hints):
    for i in range(60 if tier == "quick" else 600):
        yield dict(seed=int(rng.integers(1 << 30)), n=int(rng.integers(1, 9)), d=int(rng.integers(1, 6)), lam=float(rng.choice([0.05, 0.5, 2.0])), rho=float(rng.choice([0.5, 1.0, 3.0])), opt=bool(i % 3 == 2), iters=int(rng.integers(1, 60)), tol=float(rng.choice([0, 1e-3, 0.1])), rtol=float(rng.choice([0, 1e-2, 0.2])), layout=LAYOUTS[i % 5], size=float(rng.choice([1.0, 5.0])))


@check("C17 C19", "overlapping-group-lasso", gen_ov)
def overlap(case):
    from regain.linear_model.group_lasso_overlap_ import D_function, P_star_x_bar_function, group_lasso_overlap

    rng, n, d = rng_of(case), case["n"], case["d"]
    lam, rho = case["lam"], case["rho"]
    gs = cover(rng, d)
    if case["opt"]:
        n += d
    A = layout(rng.standard_normal((n, d)), case["layout"])
    b = case["size"] * rng.standard_normal(n)
    fr = frozen(A, b)
    D = np.array([sum(j in g for g in gs) for j in range(d)], dtype=float)
    x = [rng.standard_normal(len(g)) for g in gs]
    with quiet():
        close(D_function(d, gs), D, "number of groups of each variable")
        avg = np.zeros(d)
        for g, v in zip(gs, x):
            for k, j in enumerate(g):
                avg[j] += v[k] / D[j]
        close(P_star_x_bar_function(x, d, gs), avg, "average of the copies")
    if case["opt"]:
        with quiet():
            z, h, k = group_lasso_overlap(A, b, lamda=lam, groups=[list(g) for g in gs], rho=rho, max_iter=8000, tol=1e-9, rtol=1e-9)
        if len(h) == 8000:
            raise Skip
        z0 = reference(np.asarray(A), b, lam, rho, gs, D, 20000)[0]
        obj = lambda v: 0.5 * ((A @ v - b) ** 2).sum() + lam * sum(np.linalg.norm(v[g]) for g in gs)  # noqa
        need(obj(z) <= obj(z0) + 1e-5 * (1 + abs(obj(z0))), "overlapping groups %r: objective %.8g at the returned point, %.8g at the minimum" % (gs, obj(z), obj(z0)))
        unchanged(fr)
        return
    with quiet():
        z, h, k = group_lasso_overlap(A, b, lamda=lam, groups=[list(g) for g in gs], rho=rho, max_iter=case["iters"], tol=case["tol"], rtol=case["rtol"])
    zr, hr, gap = reference(np.asarray(A), b, lam, rho, gs, D, case["iters"], case["tol"], case["rtol"])
    if gap < 1e-6:
        raise Skip
    need(len(h) == len(hr) and k == len(hr) - 1, "iterations: %d history entries, index %s, expected %d" % (len(h), k, len(hr)))
    close(z, zr, "overlapping groups: solution after %d iterations" % len(hr))
    close(np.array(h, dtype=float), hr, "history")
    unchanged(fr)


def reference(A, b, lam, rho, gs, D, iters, tol=0, rtol=0):
    d = A.shape[1]
    z, y, h = np.zeros(d), [np.zeros(len(g)) for g in gs], []
    M = np.linalg.inv(A.T @ A + rho * np.diag(D))

    def avg(v):
        a = np.zeros(d)
        for g, w in zip(gs, v):
            a[g] += w
        return a / D

    row, gap = 0, np.inf
    for _ in range(iters):
        x = [shrink(z[g] - v / rho, lam / rho) for g, v in zip(gs, y)]
        r = A.T @ b
        for g, xv, yv in zip(gs, x, y):
            r[g] += yv + rho * xv
        zo, yo, z = z, y, M @ r
        y = [yv + rho * (xv - z[g]) for g, xv, yv in zip(gs, x, y)]
        xb, yb, e = avg(x), avg(yo), np.sqrt(d) * tol
        h.append((0.5 * ((A @ z - b) ** 2).sum() + lam * sum(np.linalg.norm(v) for v in x), np.linalg.norm(xb - z), np.linalg.norm(rho * (z - zo)), e + rtol * max(np.linalg.norm(xb), np.linalg.norm(z)), e + rtol * np.linalg.norm(rho * yb)))
        q = h[-1]
        if tol or rtol:
            gap = min(gap, abs(q[1] - q[3]) / (q[3] + 1e-300), abs(q[2] - q[4]) / (q[4] + 1e-300))
            if q[1] < q[3] and q[2] < q[4]:
                row += 1
                if row > 11:
                    break
            else:
                row = 0
        if iters > 1000 and np.abs(z - zo).max() < 1e-12 and max(np.abs(xv - z[g]).max() for g, xv in zip(gs, x)) < 1e-10:
            break
    return z, np.array(h), gap


def gen_est(rng, tier, hints):
    for i in range(30 if tier == "quick" else 300):
        yield dict(seed=int(rng.integers(1 << 30)), n=int(rng.integers(3, 12)), d=int(rng.integers(2, 6)), lam=float(rng.choice([0.05, 0.5, 2.0])), rho=float(rng.choice([0.5, 1.0, 3.0])), iters=int(rng.integers(1, 30)), icpt=bool(i % 3), targets=[1, 1, 2][i % 3], clf=bool(i % 5 == 4))


@check("C17 C19", "overlapping-group-lasso-estimator", gen_est)
def estimator(case):
    from regain.linear_model import GroupLassoOverlap, GroupLassoOverlapClassifier

    rng, n, d = rng_of(case), case["n"], case["d"]
    gs = cover(rng, d)
    D = np.array([sum(j in g for g in gs) for j in range(d)], dtype=float)
    X = rng.standard_normal((n, d)) + rng.standard_normal(d)
    kw = dict(alpha=case["lam"], groups=[list(g) for g in gs], rho=case["rho"], max_iter=case["iters"], tol=0, rtol=0, fit_intercept=case["icpt"])
    if case["clf"]:
        lab = np.array(["n", "p"])[(rng.random(n) < 0.5).astype(int)]
        lab[0], lab[1] = "n", "p"
        Y = np.where(lab == "p", 1.0, -1.0)[:, None]
        fr = frozen(X)
        with quiet():
            e = GroupLassoOverlapClassifier(**kw).fit(X, lab)
    else:
        Y = rng.standard_normal((n, case["targets"])) + 1
        arg = Y[:, 0].copy() if case["targets"] == 1 else Y.copy()
        fr = frozen(X, arg)
        with quiet():
            e = GroupLassoOverlap(**kw).fit(X, arg)
    mx, my = (X.mean(0), Y.mean(0)) if case["icpt"] else (np.zeros(d), np.zeros(Y.shape[1]))
    C = np.array([reference(X - mx, Y[:, k] - my[k], case["lam"], case["rho"], gs, D, case["iters"])[0] for k in range(Y.shape[1])])
    close(np.asarray(e.coef_).reshape(C.shape), C, "coef_")
    b = my - C @ mx
    close(np.asarray(e.intercept_, dtype=float).ravel() if case["icpt"] else b, b, "intercept_")
    unchanged(fr)
    Z = rng.standard_normal((4, d)) + 0.5
    s = Z @ C.T + b
    with quiet():
        p = e.predict(Z)
    if case["clf"]:
        if np.abs(s).min() > 1e-9:
            need(list(p) == list(np.where(s[:, 0] > 0, "p", "n")), "predicted classes")
    else:
        close(np.asarray(p).reshape(s.shape), s, "predict")
