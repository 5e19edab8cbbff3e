"""Executable solver contracts: the real solvers follow the specified iteration, report it honestly,
return its last iterate and leave their arguments alone."""
from .core import *
from . import ref

MODS = dict(
    gl=("regain.covariance.graphical_lasso_", "graphical_lasso"),
    tgl=("regain.covariance.time_graphical_lasso_", "time_graphical_lasso"),
    lgl=("regain.covariance.latent_graphical_lasso_", "latent_graphical_lasso"),
    ltgl=("regain.covariance.latent_time_graphical_lasso_", "latent_time_graphical_lasso"),
    ktgl=("regain.covariance.kernel_time_graphical_lasso_", "kernel_time_graphical_lasso"),
    kltgl=("regain.covariance.kernel_latent_time_graphical_lasso_", "kernel_latent_time_graphical_lasso"),
    ltmd=("regain.covariance.latent_time_matrix_decomposition", "latent_time_matrix_decomposition"),
    inf=("regain.covariance.infimal_convolution_", "infimal_convolution"),
)
N_RET = dict(gl=2, tgl=2, lgl=3, ltgl=3, ktgl=2, kltgl=3, ltmd=2, inf=3)
KERN = ("ktgl", "kltgl")
LAT = ("lgl", "ltgl", "kltgl", "ltmd", "inf")
TEMP = ("tgl", "ltgl", "ktgl", "kltgl", "ltmd")
PSIS = ("laplacian", "l1", "l2", "linf")


def func(which):
    import importlib

    m, f = MODS[which]
    return getattr(importlib.import_module(m), f)


def build(case):
    """-> (emp_cov, kwargs of the real solver, kwargs of the reference)"""
    w, rng = case["solver"], rng_of(case)
    d, T = case["d"], case.get("T", 3)
    k = {}
    if w in TEMP:
        S = np.array([cov(rng, d) for _ in range(T)])
    else:
        S = cov(rng, d)
    for p in ("rho", "max_iter", "tol", "rtol"):
        if p in case:
            k[p] = case[p]
    if case.get("opts"):
        k["update_rho_options"] = case["opts"]
    # penalties
    def par(name, shape):
        v = case[name]
        if case.get("arrays") and shape is not None and w not in ("ltmd", "inf"):
            a = rng.uniform(0.3, 1.7, shape) * v
            if len(shape) == 2 and shape[0] == shape[1]:
                a = (a + a.T) / 2
            return a
        return v

    if w in ("gl", "lgl", "inf", "tgl"):
        k["alpha"] = par("alpha", (d, d))
    elif w in ("ltgl", "ltmd"):
        k["alpha"] = par("alpha", (T, 1, 1))
    elif w == "ktgl":
        k["alpha"] = par("alpha", None)
    else:
        k["alpha"] = par("alpha", None)
    if w in ("tgl", "ltgl", "ltmd"):
        k["beta"] = par("beta", (T - 1, 1, 1)) if T > 1 or not case.get("arrays") or w == "ltmd" else np.zeros((0, 1, 1))
    if w in ("ltgl", "ltmd"):
        k["eta"] = par("eta", (T - 1, 1, 1)) if T > 1 or not case.get("arrays") or w == "ltmd" else np.zeros((0, 1, 1))
    if w in LAT:
        k["tau"] = case["tau"]
    if w in TEMP:
        k["psi"] = case.get("psi", "laplacian")
        if w in ("ltgl", "ltmd", "kltgl"):
            k["phi"] = case.get("phi", "laplacian")
        if w != "ltmd" and case.get("ns"):
            k["n_samples"] = rng.integers(1, 6, T).astype(float) if case["ns"] == "array" else rng.integers(1, 6, T)
    if w == "gl" and "over_relax" in case:
        k["over_relax"] = case["over_relax"]
    if w not in ("ltmd", "inf") and case.get("init"):
        k["init"] = case["init"]
        if case["init"] == "array":
            k["init"] = np.array([np.linalg.inv(cov(rng, d)) for _ in range(T)]) if w in TEMP else np.linalg.inv(cov(rng, d))
    r = dict(k)
    if w in KERN:
        def kern(v):
            A = rng.uniform(0.1, 1.0, (T, T)) * v
            A = (A + A.T) / 2
            if case.get("sparse"):
                A = A * (np.abs(np.subtract.outer(np.arange(T), np.arange(T))) <= 1)
            np.fill_diagonal(A, 1)
            return A

        ker = kern(case["beta"]) if case.get("kernel", True) else None
        if w == "ktgl":
            k["kernel"] = r["kernel"] = ker
        else:
            k["kernel_psi"] = r["kernel"] = ker
            k["kernel_phi"] = r["kernel_phi"] = kern(case["eta"]) if case.get("kernel", True) else None
    if case.get("stop_at") is not None and w in ("tgl", "ktgl"):
        r["stop_at"] = k["stop_at"] = case["stop_at"]
        r["stop_when"] = k["stop_when"] = case.get("stop_when", 1e-4)
    return S, k, r


def reference(w, S, r):
    r = dict(r)
    if w == "gl":
        return ref.gl(S, **r)
    if w == "tgl":
        return ref.tgl(S, **r)
    if w in ("lgl", "inf"):
        return ref.lgl(S, frob=w == "inf", **r)
    if w in ("ltgl", "ltmd"):
        return ref.ltgl(S, frob=w == "ltmd", **r)
    return ref.kgl(S, **r)


def robust(R, opts, stop_at=None, stop_when=None):
    """no decision taken by the reference hangs on rounding."""
    o = dict(mu=10)
    o.update(opts or {})
    for ob, r, s, ep, ed in R.hist:
        pairs = [(r, ep, 0), (s, ed, 0)]
        if not (o.get("tau_inc", 2) == 1 and o.get("tau_dec", 2) == 1):
            pairs += [(r, o["mu"] * s, o["mu"]), (s, o["mu"] * r, o["mu"])]
        if stop_at is not None:
            pairs.append((abs(ob - stop_at) / abs(stop_at), stop_when, 0))
        for a, b, amp in pairs:
            if abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-11 + 1e-12 * amp:
                return False
    return True


def run_solver(case, want_hist=True, want_iter=True, **extra):
    w = case["solver"]
    S, k, r = build(case)
    call = dict(k)
    for x in ("init", "kernel", "kernel_psi", "kernel_phi", "alpha", "beta", "eta", "n_samples"):
        if isinstance(call.get(x), np.ndarray):
            call[x] = layout(call[x], case.get("layout"))
    Sc = layout(S, case.get("layout"))
    snaps = frozen(Sc, *[v for v in call.values() if isinstance(v, np.ndarray)])
    call.update(return_history=want_hist, return_n_iter=want_iter, **extra)
    with quiet() as ws:
        out = func(w)(Sc, **call)
    warned = [x for x in ws if "converge" in str(x.message).lower()]
    return S, k, r, list(out), snaps, warned


def traj(case):
    """C01-C06: with the stopping rule out of the way the solver returns the specified iterate."""
    w = case["solver"]
    S, k, r, out, snaps, warned = run_solver(case)
    R = reference(w, S, r)
    if not robust(R, r.get("update_rho_options")):
        raise Skip()
    need(len(out) == N_RET[w] + 2, "%d values returned" % len(out))
    close(out[0], R.K, "returned precision after %d iterations" % R.n_iter, rtol=1e-5)
    if w in LAT:
        close(out[1], R.L, "returned low-rank component", rtol=1e-5, atol=1e-7)
    h = out[N_RET[w]]
    objs = [float(x.obj) for x in h]
    return S, k, r, out, R, objs


def report(case):
    """C07: history, n_iter, warning."""
    w = case["solver"]
    if case.get("stop_rel"):
        # a stopping value somewhere along the path
        S, k, r = build(case)
        objs = [h[0] for h in reference(w, S, r).hist]
        case = dict(case, stop_at=float(objs[len(objs) // 2]) or 1.0, stop_when=case["stop_rel"])
    S, k, r, out, snaps, warned = run_solver(case)
    R = reference(w, S, r)
    if not robust(R, r.get("update_rho_options"), r.get("stop_at"), r.get("stop_when")):
        raise Skip()
    need(len(out) == N_RET[w] + 2, "%d values returned" % len(out))
    hist, n_it = list(out[N_RET[w]]), out[N_RET[w] + 1]
    need(n_it == R.n_iter, "n_iter %r, expected %d" % (n_it, R.n_iter))
    off = len(hist) - R.n_iter
    need(off in ((0, 1) if w in ("tgl", "ktgl") else (0,)), "%d history entries for %d iterations" % (len(hist), R.n_iter))
    for i, (a, b) in enumerate(zip(hist[off:], R.hist)):
        for f, x in zip(("obj", "rnorm", "snorm", "e_pri", "e_dual"), b):
            close(getattr(a, f), x, "iteration %d: %s" % (i, f), rtol=1e-5, atol=1e-7)
    need(bool(warned) == (not R.converged), "convergence warning %s although the tolerances were %s" % (
        "raised" if warned else "missing", "met" if R.converged else "not met"))
    # optional outputs and flags do not change the result
    if case.get("flags"):
        for wh, wi in ((False, True), (True, False), (False, False)):
            o2 = run_solver(case, wh, wi, compute_objective=case.get("stop_at") is not None)[3]
            need(len(o2) == N_RET[w] + wh + wi, "%d values with return_history=%s return_n_iter=%s" % (len(o2), wh, wi))
            close(o2[0], out[0], "estimate depends on the reporting flags")
            if wi:
                need(o2[-1] == n_it, "n_iter depends on the reporting flags")
        o3 = run_solver(case, True, True, verbose=True)[3]
        close(o3[0], out[0], "estimate depends on verbose")


def frame(case):
    S, k, r, out, snaps, warned = run_solver(case)
    unchanged(snaps, "solver argument")


def base(rng, w, **kw):
    c = dict(solver=w, seed=int(rng.integers(1 << 30)), d=int(rng.integers(2, 5)), rho=float(rng.choice([0.5, 1.0, 2.3])),
             alpha=float(rng.uniform(0.02, 0.4)), beta=float(rng.uniform(0.05, 1.0)), eta=float(rng.uniform(0.05, 1.0)),
             tau=float(rng.uniform(0.1, 0.6)))
    if w in TEMP:
        c["T"] = int(rng.integers(2, 5))
        c["psi"], c["phi"] = str(rng.choice(PSIS)), str(rng.choice(PSIS))
        c["ns"] = [None, "array", "int"][int(rng.integers(3))]
    c.update(kw)
    return c


def from_hints(rng, w, hints):
    """cases built around the verifier's model."""
    for h in hints or []:
        c = base(rng, w)
        for a, b in (("rho0", "rho"), ("alpha", "alpha"), ("beta", "beta"), ("tau", "tau"), ("eta", "eta"), ("over_relax", "over_relax")):
            v = h.get(a)
            if isinstance(v, (int, float)) and 1e-3 < v < 50:
                c[b] = float(v)
        for a, b in (("rho", "rho"), ("tol", "tol"), ("rtol", "rtol")):
            v = h.get(a)
            if isinstance(v, (int, float)) and 1e-3 < v < 50:
                c[b] = float(v)
        v = h.get("max_iter")
        if isinstance(v, (int, float)) and 1 <= v <= 400:
            c["max_iter"] = int(v)
            yield dict(c, tol=0.0, rtol=0.0, rho=80.0, opts=dict(tau_inc=1.0, tau_dec=1.0))
        for a, hi in (("d", 12), ("T", 14)):
            v = h.get(a)
            if isinstance(v, (int, float)) and 1 <= v <= hi and (a == "d" or w in TEMP):
                c[a] = int(v)
        yield c


def variations(rng, w, tier, hints, **kw):
    for c in from_hints(rng, w, hints.get("models") if hints else None):
        c.update(kw)
        yield c
    n = 24 if tier == "quick" else 150
    for i in range(n):
        c = base(rng, w)
        if i % 3 == 1:
            c["arrays"] = True
        if i % 4 == 2 and w not in ("ltmd", "inf"):
            c["init"] = ["array", "zeros"][(i // 4) % 2] if w in ("gl", "lgl") else "array"
        if i % 5 == 3:
            c["opts"] = [dict(mu=2), dict(mu=1.5, tau_inc=3.0, tau_dec=1.3), dict(mu=3, tau_inc=1.1, tau_dec=4.0)][(i // 5) % 3]
        if w == "gl":
            c["over_relax"] = [1.0, 1.5, 0.7, 1.8][i % 4]
        if w in TEMP:
            c["T"] = [3, 2, 1, 4, 5][i % 5]
            c["psi"] = PSIS[i % 4]
            c["phi"] = PSIS[(i + i // 4 + 1) % 4]
            c["ns"] = ["array", None, "int"][i % 3]
            if w in KERN:
                c["kernel"] = i % 6 != 5
                c["sparse"] = i % 3 == 1
                if c["T"] == 1 and w in KERN:
                    c["T"] = 2
        if i % 7 == 6:
            c["d"] = 1
        if i % 11 == 10:
            c["d"] = 7
        if i % 8 == 7 and w in TEMP:
            c["T"] = [9, 13][(i // 8) % 2] if w not in KERN else [6, 8][(i // 8) % 2]
            c["d"] = min(c["d"], 3)
        c["layout"] = LAYOUTS[(i // 2) % 5]
        c.update(kw)
        yield c


def gen_traj(w):
    def g(rng, tier, hints):
        for i, c in enumerate(variations(rng, w, tier, hints)):
            c.update(tol=0.0, rtol=0.0, max_iter=[1, 4, 15, 2][i % 4])
            yield c

    return g


def gen_report(w):
    def g(rng, tier, hints):
        for i, c in enumerate(variations(rng, w, tier, hints)):
            if "max_iter" in c:
                yield dict(c)
            c["tol"], c["rtol"] = [(1e-3, 1e-2), (1e-4, 1e-4), (3e-3, 0.0), (0.0, 3e-3)][i % 4]
            c["max_iter"] = [200, 200, 3, 1, 200][i % 5]
            c["flags"] = i % 4 == 0
            if i % 8 == 5:
                # a long run that exhausts its budget
                c.update(rho=80.0, opts=dict(tau_inc=1.0, tau_dec=1.0), tol=1e-9, rtol=1e-9, max_iter=[60, 130][(i // 8) % 2], flags=False)
            if w in ("tgl", "ktgl") and i % 6 == 4:
                c["stop_rel"] = [1e-1, 1e-2, 1e-3][(i // 6) % 3]
                c["tol"] = c["rtol"] = 0.0
                c["max_iter"] = 40
            yield c

    return g


def gen_init(rng, tier, hints):
    for i in range(60 if tier == "quick" else 400):
        yield dict(seed=int(rng.integers(1 << 30)), d=int(rng.integers(1, 9)), T=int(rng.integers(1, 16)), nd=2 + i % 2, mode=["empirical", "zeros", "array", "empirical"][i % 4], layout=LAYOUTS[(i // 2) % 5])


def init_check(case):
    from regain.covariance.graphical_lasso_ import init_precision

    rng = rng_of(case)
    S = np.array([cov(rng, case["d"]) for _ in range(case["T"])])
    if case["nd"] == 2:
        S = S[0]
    S = layout(S, case["layout"])
    mode = np.array(S + 1.0) if case["mode"] == "array" else case["mode"]
    s = frozen(S, mode) if case["mode"] == "array" else frozen(S)
    with quiet():
        K = init_precision(S, mode=mode)
    unchanged(s)
    close(K, ref.init_prec(S, mode), "initial precision (%s)" % case["mode"])


for _p in "C01 C02 C03 C04 C05".split():
    check(_p, "init", gen_init)(init_check)
check("C19", "init", gen_init)(init_check)


def full_objective(w, S, k, r, K, L=None):
    """documented objective at consensus."""
    n = S.shape[0] if S.ndim == 3 else 1
    S3, K3 = S.reshape((n,) + S.shape[-2:]), K.reshape((n,) + K.shape[-2:])
    R3 = K3 if L is None else K3 - L.reshape(K3.shape)
    if w == "inf":
        f = 0.5 * ((S - R3[0]) ** 2).sum()
    elif w == "ltmd":
        f = ((S - R3) ** 2).sum()
    else:
        ns = np.ones(n) if r.get("n_samples") is None else r["n_samples"]
        f = 0.0
        for t in range(n):
            if np.linalg.eigvalsh(ref.sym(R3[t]))[0] <= 0:
                return np.inf
            f += ns[t] * ((S3[t] * R3[t]).sum() - ref.logdet(R3[t]))
    f += ref.odl1(K3, r["alpha"])
    if L is not None:
        f += r["tau"] * sum(np.trace(x) for x in L.reshape(K3.shape))
    if w in KERN:
        for s_ in range(n):
            for t in range(s_ + 1, n):
                f += (r["kernel"][s_, t] if r.get("kernel") is not None else 0) * ref.PSI[r["psi"]][0](K3[t] - K3[s_])
                if L is not None:
                    f += (r["kernel_phi"][s_, t] if r.get("kernel_phi") is not None else 0) * ref.PSI[r["phi"]][0](L[t] - L[s_])
    elif w in TEMP:
        b = ref.wv(r["beta"], n - 1)
        f += sum(b[t] * ref.PSI[r["psi"]][0](K3[t + 1] - K3[t]) for t in range(n - 1))
        if L is not None:
            b = ref.wv(r["eta"], n - 1)
            f += sum(b[t] * ref.PSI[r["phi"]][0](L[t + 1] - L[t]) for t in range(n - 1))
    return f


def optimum(case):
    """when the run converges at tight tolerances no feasible perturbation improves the documented objective."""
    w, rng = case["solver"], rng_of(case)
    S, k, r, out, snaps, warned = run_solver(case)
    if warned:
        raise Skip()
    K, L = out[0], (out[1] if w in LAT else None)
    f0 = full_objective(w, S, k, r, K, L)
    need(np.isfinite(f0), "objective at the returned estimate is %r" % f0)
    tolf = 1e-5 * (1 + abs(f0))
    d = K.shape[-1]
    for j in range(40):
        eps = 10.0 ** -rng.uniform(0.5, 3)
        D = rng.standard_normal(K.shape)
        if j % 3 == 1:
            D = D * (rng.random(K.shape) < 0.3)
        if j % 3 == 2 and K.ndim == 3:
            D = np.broadcast_to(D[:1], K.shape)
        D = ref.sym(D)
        if j % 5 == 4:
            D = -K
        L2 = L
        if L is not None:
            if j % 2:
                v = rng.standard_normal(L.shape[:-1] + (1,))
                L2 = L + eps * v @ np.swapaxes(v, -1, -2)
            else:
                L2 = L * (1 - min(eps, 1.0))
            if j % 4 == 3:
                D = (L2 - L) / eps
        f1 = full_objective(w, S, k, r, K + eps * D, L2)
        need(f1 >= f0 - tolf, "a perturbation lowers the documented objective from %.8g to %.8g" % (f0, f1))


def gen_opt(w):
    def g(rng, tier, hints):
        for i, c in enumerate(variations(rng, w, tier, hints)):
            if i % 2 and tier == "quick":
                continue
            c.update(tol=1e-7, rtol=1e-7, max_iter=1500)
            c.pop("opts", None)
            if w == "gl":
                c["over_relax"] = [1.0, 1.5][i % 2]
            yield c

    return g


PROP_OF = dict(gl="C01", tgl="C02", lgl="C03", ltgl="C04", ktgl="C05", kltgl="C05", ltmd="C06", inf="C06")
for _w, _p in PROP_OF.items():
    check(_p, "trajectory:" + _w, gen_traj(_w))(traj)
    check(_p, "optimum:" + _w, gen_opt(_w))(optimum)
    check("C07", "report:" + _w, gen_report(_w))(report)
    check("C19", "frame:" + _w, gen_report(_w))(frame)
