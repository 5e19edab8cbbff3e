"""Executable form of the contracts: reference iterations written from the documented objectives (numpy only,
nothing imported from regain).  Used to replay counterexamples and as the bounded stand-in."""
import numpy as np


# ------------------------------------------------------------------ penalties and their proximal operators
def st(a, l):
    return np.where(a > l, a - l, np.where(a < -l, a + l, 0.0))


def st_od(a, l):
    out = st(a, l)
    d = a.shape[-1]
    m = np.broadcast_to(np.eye(d, dtype=bool), a.shape)
    return np.where(m, a, out)


def group_cols(a, l):
    n = np.sqrt((a**2).sum(axis=-2, keepdims=True))
    l = np.broadcast_to(l, n.shape)
    with np.errstate(all="ignore"):
        f = np.where(n > l, 1 - l / np.where(n > 0, n, 1.0), 0.0)
    return f * a


def linf_vec(v, l):
    """prox of l*||.||_inf by bisection on the level."""
    if np.abs(v).sum() <= l:
        return np.zeros_like(v)
    lo, hi = 0.0, float(np.abs(v).max())
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if np.maximum(np.abs(v) - mid, 0).sum() > l:
            lo = mid
        else:
            hi = mid
    return np.clip(v, -hi, hi)


def linf_cols(a, l):
    l = np.broadcast_to(l, a.shape[:-2] + (1, 1))
    out = np.empty_like(a)
    for t in range(a.shape[0]):
        for j in range(a.shape[2]):
            out[t, :, j] = linf_vec(a[t, :, j], l[t, 0, 0])
    return out


PSI = {
    "laplacian": (lambda x: (x**2).sum(), lambda a, l: a / (1 + 2 * np.asarray(l))),
    "l1": (lambda x: np.abs(x).sum(), lambda a, l: st(a, l)),
    "l2": (lambda x: np.sqrt((x**2).sum(axis=-2)).sum(), group_cols),
    "linf": (lambda x: np.abs(x).max(axis=-2).sum(), linf_cols),
}


def logdet_prox(S, M, n, curv):
    """argmin n (tr(S K) - logdet K) + curv/2 |K - M|^2 for one matrix."""
    w, V = np.linalg.eigh((n * S - curv * M + (n * S - curv * M).T) / 2)
    x = (-w + np.sqrt(w * w + 4 * curv * n)) / (2 * curv)
    return (V * x) @ V.T


def trace_prox(A, l):
    w, V = np.linalg.eigh((A + A.T) / 2)
    return (V * np.maximum(w - l, 0)) @ V.T


def sym(A):
    return (A + np.swapaxes(A, -1, -2)) / 2


def logdet(K):
    s, l = np.linalg.slogdet(K)
    return l if s > 0 else -np.inf


def odl1(Z, alpha):
    a = np.abs(np.broadcast_to(alpha, Z.shape) * Z)
    return a.sum() - np.diagonal(a, axis1=-2, axis2=-1).sum()


def nucl(L):
    return np.linalg.svd(L, compute_uv=False).sum()


def fro(*xs):
    return float(np.sqrt(sum((np.asarray(x) ** 2).sum() for x in xs)))


def rho_rule(rho, r, s, mu=10, tau_inc=2, tau_dec=2):
    if r > mu * s:
        return tau_inc * rho
    if s > mu * r:
        return rho / tau_dec
    return rho


def init_prec(S, mode):
    if isinstance(mode, np.ndarray):
        return mode.copy()
    if mode == "empirical":
        S3 = S if S.ndim == 3 else S[None]
        out = []
        for s in S3:
            c = 0.95 * s
            np.fill_diagonal(c, np.diag(s))
            w, V = np.linalg.eigh(sym(c))
            cut = np.abs(w).max() * max(c.shape) * np.finfo(float).eps if w.size else 0
            iw = np.where(np.abs(w) > cut, 1 / np.where(w == 0, 1, w), 0)
            out.append((V * iw) @ V.T)
        out = np.array(out)
        return out if S.ndim == 3 else out[0]
    return np.zeros_like(S)


class Run:
    """history entries are (obj, rnorm, snorm, e_pri, e_dual)."""

    def __init__(self):
        self.hist, self.converged, self.n_iter, self.rhos = [], False, 0, []


def loop(step, rho, max_iter, opts, stop_at=None, stop_when=1e-4, inf_break=False):
    R = Run()
    for k in range(max_iter):
        h, rescale = step(rho)
        R.hist.append(h)
        R.rhos.append(rho)
        R.n_iter = k + 1
        obj, r, s, ep, ed = h
        if stop_at is not None and abs(obj - stop_at) / abs(stop_at) < stop_when:
            R.converged = True
            break
        if r <= ep and s <= ed:
            R.converged = True
            break
        if inf_break and obj == np.inf:
            R.converged = True
            break
        new = rho_rule(rho, r, s, **(opts or {}))
        rescale(rho / new)
        rho = new
    return R


# ------------------------------------------------------------------ solvers
def gl(S, alpha=0.01, rho=1.0, over_relax=1.0, max_iter=100, tol=1e-4, rtol=1e-4, update_rho_options=None, init="empirical"):
    d = S.shape[0]
    z = dict(Z=init_prec(S, init), U=np.zeros((d, d)), O=np.zeros((d, d)))

    def step(rho):
        K = logdet_prox(S, sym(z["Z"] - z["U"]), 1.0, rho)
        Kh = over_relax * K + (1 - over_relax) * z["Z"]
        z["Z"] = st_od(Kh + z["U"], np.asarray(alpha) / rho)
        z["U"] = z["U"] + Kh - z["Z"]
        Z = z["Z"]
        h = (
            (S * K).sum() - logdet(K) + odl1(Z, alpha), fro(K - Z), rho * fro(Z - z["O"]),
            d * tol + rtol * max(fro(K), fro(Z)), d * tol + rtol * rho * fro(z["U"]),
        )
        z["O"] = Z

        def resc(f):
            z["U"] = z["U"] * f

        return h, resc

    R = loop(step, rho, max_iter, update_rho_options)
    R.K = z["Z"]
    return R


def lgl(S, alpha=1.0, tau=1.0, rho=1.0, max_iter=100, tol=1e-4, rtol=1e-2, update_rho_options=None, init="empirical", frob=False):
    d = S.shape[0]
    K0 = np.zeros((d, d)) if frob else init_prec(S, init)
    z = dict(K=K0, L=np.zeros((d, d)), U=np.zeros((d, d)), O=np.zeros((d, d)))

    def step(rho):
        M = sym(z["K"] - z["L"] - z["U"])
        R = (S + rho * M) / (1 + rho) if frob else logdet_prox(S, M, 1.0, rho)
        K = st_od(z["L"] + R + z["U"], np.asarray(alpha) / rho)
        L = trace_prox(K - R - z["U"], tau / rho)
        U = z["U"] + R - K + L
        fit = 0.5 * ((S - R) ** 2).sum() if frob else (S * R).sum() - logdet(R)
        h = (
            fit + odl1(K, alpha) + tau * nucl(L), fro(R - K + L), rho * fro(R - z["O"]),
            d * tol + rtol * max(fro(R), fro(K - L)), d * tol + rtol * rho * fro(U),
        )
        z.update(K=K, L=L, U=U, O=R)

        def resc(f):
            z["U"] = z["U"] * f

        return h, resc

    R = loop(step, rho, max_iter, update_rho_options, inf_break=True)
    R.K, R.L = z["K"], z["L"]
    return R


def consensus(n):
    D = np.full(n, 3.0)
    D[0] -= 1
    D[-1] -= 1
    return D


def pair(A1, A2, prox, w, rho):
    e = prox(A2 - A1, 2.0 * w / rho)
    return 0.5 * (A1 + A2 - e), 0.5 * (A1 + A2 + e)


def wv(w, n):
    return np.broadcast_to(np.asarray(w, dtype=float).reshape(-1), (n,))


def tgl(S, alpha=0.01, rho=1.0, beta=1.0, max_iter=100, n_samples=None, psi="laplacian", tol=1e-4, rtol=1e-4,
        stop_at=None, stop_when=1e-4, update_rho_options=None, init="empirical"):
    n, d, _ = S.shape
    ns = np.ones(n) if n_samples is None else np.asarray(n_samples, float)
    val, prox = PSI[psi]
    D = consensus(n)
    Z0 = init_prec(S, init)
    zz = lambda k: np.zeros((k, d, d))  # noqa
    z = dict(Z0=Z0, Z1=Z0[:-1], Z2=Z0[1:], U0=zz(n), U1=zz(n - 1), U2=zz(n - 1), O0=zz(n), O1=zz(n - 1), O2=zz(n - 1))

    def objective(K, Z0, Z1, Z2):
        fit = sum(ns[t] * ((S[t] * K[t]).sum() - logdet(K[t])) for t in range(n))
        return fit + odl1(Z0, alpha) + sum(w * val(x) for w, x in zip(wv(beta, n - 1), Z2 - Z1))

    def step(rho):
        tot = z["Z0"] - z["U0"]
        tot[:-1] += z["Z1"] - z["U1"]
        tot[1:] += z["Z2"] - z["U2"]
        K = np.array([logdet_prox(S[t], sym(tot[t]) / D[t], ns[t], rho * D[t]) for t in range(n)])
        Z0 = st_od(sym(K + z["U0"]), np.asarray(alpha) / rho)
        Z1, Z2 = pair(K[:-1] + z["U1"], K[1:] + z["U2"], prox, np.asarray(beta), rho)
        U0, U1, U2 = z["U0"] + K - Z0, z["U1"] + K[:-1] - Z1, z["U2"] + K[1:] - Z2
        e = d * np.sqrt(3 * n - 2)
        h = (
            objective(K, Z0, Z1, Z2), fro(K - Z0, K[:-1] - Z1, K[1:] - Z2), rho * fro(Z0 - z["O0"], Z1 - z["O1"], Z2 - z["O2"]),
            e * tol + rtol * max(fro(Z0, Z1, Z2), fro(K, K[:-1], K[1:])), e * tol + rtol * rho * fro(U0, U1, U2),
        )
        z.update(Z0=Z0, Z1=Z1, Z2=Z2, U0=U0, U1=U1, U2=U2, O0=Z0, O1=Z1, O2=Z2)

        def resc(f):
            for k in ("U0", "U1", "U2"):
                z[k] = z[k] * f

        return h, resc

    first = objective(Z0, Z0, Z0[:-1], Z0[1:])
    R = loop(step, rho, max_iter, update_rho_options, stop_at, stop_when)
    R.K, R.first = z["Z0"], first
    return R


def ltgl(S, alpha=0.01, tau=1.0, rho=1.0, beta=1.0, eta=1.0, max_iter=100, n_samples=None, psi="laplacian", phi="laplacian",
         tol=1e-4, rtol=1e-4, update_rho_options=None, init="empirical", frob=False):
    n, d, _ = S.shape
    ns = np.ones(n) if n_samples is None else np.asarray(n_samples, float)
    vpsi, ppsi = PSI[psi]
    vphi, pphi = PSI[phi]
    D = consensus(n)
    D3 = D[:, None, None]
    Z0 = np.zeros_like(S) if frob else init_prec(S, init)
    zz = lambda k: np.zeros((k, d, d))  # noqa
    z = dict(Z0=Z0, Z1=Z0[:-1], Z2=Z0[1:], W0=zz(n), W1=zz(n - 1), W2=zz(n - 1), X0=zz(n), X1=zz(n - 1), X2=zz(n - 1),
             U1=zz(n - 1), U2=zz(n - 1), R=zz(n), O1=zz(n - 1), O2=zz(n - 1), Q1=zz(n - 1), Q2=zz(n - 1))
    tv = wv(tau, n)

    def step(rho):
        M = z["Z0"] - z["W0"] - z["X0"]
        if frob:
            R = (2 * S + rho * M) / (2 + rho)
        else:
            R = np.array([logdet_prox(S[t], sym(M[t]), ns[t], rho) for t in range(n)])
        A = R + z["W0"] + z["X0"]
        A[:-1] += z["Z1"] - z["X1"]
        A[1:] += z["Z2"] - z["X2"]
        Z0 = st_od(A / D3, np.asarray(alpha) / (rho * D3))
        Z1, Z2 = pair(Z0[:-1] + z["X1"], Z0[1:] + z["X2"], ppsi, np.asarray(beta), rho)
        A = Z0 - R - z["X0"]
        A[:-1] += z["W1"] - z["U1"]
        A[1:] += z["W2"] - z["U2"]
        W0 = np.array([trace_prox(A[t] / D[t], tv[t] / (rho * D[t])) for t in range(n)])
        W1, W2 = pair(W0[:-1] + z["U1"], W0[1:] + z["U2"], pphi, np.asarray(eta), rho)
        X0, X1, X2 = z["X0"] + R - Z0 + W0, z["X1"] + Z0[:-1] - Z1, z["X2"] + Z0[1:] - Z2
        U1, U2 = z["U1"] + W0[:-1] - W1, z["U2"] + W0[1:] - W2
        fit = ((S - R) ** 2).sum() if frob else sum(ns[t] * ((S[t] * R[t]).sum() - logdet(R[t])) for t in range(n))
        obj = fit + odl1(Z0, alpha) + sum(tv[t] * nucl(W0[t]) for t in range(n))
        obj += sum(w * vpsi(x) for w, x in zip(wv(beta, n - 1), Z2 - Z1)) + sum(w * vphi(x) for w, x in zip(wv(eta, n - 1), W2 - W1))
        e = d * np.sqrt(5 * n - 4)
        h = (
            obj, fro(R - Z0 + W0, Z0[:-1] - Z1, Z0[1:] - Z2, W0[:-1] - W1, W0[1:] - W2),
            rho * fro(R - z["R"], Z1 - z["O1"], Z2 - z["O2"], W1 - z["Q1"], W2 - z["Q2"]),
            e * tol + rtol * max(fro(R, Z1, Z2, W1, W2), fro(Z0 - W0, Z0[:-1], Z0[1:], W0[:-1], W0[1:])),
            e * tol + rtol * rho * fro(X0, X1, X2, U1, U2),
        )
        z.update(Z0=Z0, Z1=Z1, Z2=Z2, W0=W0, W1=W1, W2=W2, X0=X0, X1=X1, X2=X2, U1=U1, U2=U2, R=R, O1=Z1, O2=Z2, Q1=W1, Q2=W2)

        def resc(f):
            for k in ("X0", "X1", "X2", "U1", "U2"):
                z[k] = z[k] * f

        return h, resc

    R = loop(step, rho, max_iter, update_rho_options)
    R.K, R.L = z["Z0"], z["W0"]
    return R


def kgl(S, alpha=0.01, rho=1.0, kernel=None, tau=None, kernel_phi=None, max_iter=100, n_samples=None, psi="laplacian", phi="laplacian",
        tol=1e-4, rtol=1e-4, stop_at=None, stop_when=1e-4, update_rho_options=None, init="empirical"):
    """kernel (latent when tau is given) time graphical lasso: all pairs of time points."""
    n, d, _ = S.shape
    ns = np.ones(n) if n_samples is None else np.asarray(n_samples, float)
    kernel = np.eye(n) if kernel is None else kernel
    kphi = np.eye(n) if kernel_phi is None else kernel_phi
    vpsi, ppsi = PSI[psi]
    vphi, pphi = PSI[phi]
    Z0 = init_prec(S, init)
    P = [(s, t) for s in range(n) for t in range(s + 1, n)]
    zero = lambda: {p: [np.zeros((d, d)), np.zeros((d, d))] for p in P}  # noqa
    one = lambda a, w, prox, l: prox(a[None], np.full((1, 1, 1), 2.0 * w / l))[0]  # noqa
    lat = tau is not None
    z = dict(Z0=Z0, W0=np.zeros_like(Z0), X0=np.zeros_like(Z0), O=np.zeros_like(Z0), Z={p: [Z0[p[0]], Z0[p[1]]] for p in P}, Zo=zero(),
             Y=zero(), W=zero(), Wo=zero(), U=zero())

    def add(A, Vs, Ds):
        A = A.copy()
        for (s, t) in P:
            A[s] += Vs[s, t][0] - Ds[s, t][0]
            A[t] += Vs[s, t][1] - Ds[s, t][1]
        return A

    def split(base, Ds, w, prox, rho):
        out, dn = {}, {}
        for (s, t) in P:
            a, b = base[s] + Ds[s, t][0], base[t] + Ds[s, t][1]
            e = one(b - a, w[s, t], prox, rho)
            out[s, t] = [0.5 * (a + b - e), 0.5 * (a + b + e)]
            dn[s, t] = [a - out[s, t][0], b - out[s, t][1]]
        return out, dn

    def vals(Vs):
        return [x for p in P for x in Vs[p]]

    def diffs(A, B):
        return [x - y for p in P for x, y in zip(A[p], B[p])]

    def objective(K, Z0, Z, W0=None, W=None):
        o = sum(ns[t] * ((S[t] * K[t]).sum() - logdet(K[t])) for t in range(n)) + odl1(Z0, alpha)
        o += sum(kernel[p] * vpsi(Z[p][1] - Z[p][0]) for p in P)
        if lat:
            o += sum(tau * nucl(W0[t]) for t in range(n)) + sum(kphi[p] * vphi(W[p][1] - W[p][0]) for p in P)
        return o

    def step(rho):
        if not lat:
            tot = add(z["Z0"] - z["X0"], z["Z"], z["Y"])
            K = np.array([logdet_prox(S[t], sym(tot[t]) / n, ns[t], rho * n) for t in range(n)])
            Z0 = st_od(sym(K + z["X0"]), np.asarray(alpha) / rho)
            X0 = z["X0"] + K - Z0
            Z, Y = split(K, z["Y"], kernel, ppsi, rho)
            base = [x for p in P for x in (K[p[0]], K[p[1]])]
            e = d * n
            h = (
                objective(K, Z0, Z), fro(K - Z0, *[x - y for x, y in zip(base, vals(Z))]), rho * fro(Z0 - z["O"], *diffs(Z, z["Zo"])),
                e * tol + rtol * max(fro(Z0, *vals(Z)), fro(K, *base)), e * tol + rtol * rho * fro(X0, *vals(Y)),
            )
            z.update(Z0=Z0, X0=X0, Z=Z, Y=Y, O=Z0, Zo=Z)
        else:
            M = z["Z0"] - z["W0"] - z["X0"]
            R = np.array([logdet_prox(S[t], sym(M[t]), ns[t], rho) for t in range(n)])
            Z0 = st_od(add(R + z["W0"] + z["X0"], z["Z"], z["Y"]) / n, np.asarray(alpha) / (rho * n))
            A = add(Z0 - R - z["X0"], z["W"], z["U"]) / n
            W0 = np.array([trace_prox(A[t], tau / (rho * n)) for t in range(n)])
            X0 = z["X0"] + R - Z0 + W0
            Z, Y = split(Z0, z["Y"], kernel, ppsi, rho)
            W, U = split(W0, z["U"], kphi, pphi, rho)
            bz = [x for p in P for x in (Z0[p[0]], Z0[p[1]])]
            bw = [x for p in P for x in (W0[p[0]], W0[p[1]])]
            e = d * np.sqrt(n * (2 * n - 1))
            h = (
                objective(R, Z0, Z, W0, W), fro(R - Z0 + W0, *[x - y for x, y in zip(bz, vals(Z))], *[x - y for x, y in zip(bw, vals(W))]),
                rho * fro(R - z["O"], *diffs(Z, z["Zo"]), *diffs(W, z["Wo"])),
                e * tol + rtol * max(fro(R, *vals(Z), *vals(W)), fro(Z0 - W0, *bz, *bw)), e * tol + rtol * rho * fro(X0, *vals(Y), *vals(U)),
            )
            z.update(Z0=Z0, W0=W0, X0=X0, Z=Z, Y=Y, W=W, U=U, O=R, Zo=Z, Wo=W)

        def resc(f):
            z["X0"] = z["X0"] * f
            for k in ("Y", "U"):
                z[k] = {p: [x * f for x in v] for p, v in z[k].items()}

        return h, resc

    first = objective(Z0, Z0, z["Z"]) if not lat else None
    R = loop(step, rho, max_iter, update_rho_options, stop_at, stop_when)
    R.K, R.L, R.first = z["Z0"], z["W0"], first
    return R
