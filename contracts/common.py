"""Contracts of the functions other functions call, and shared specification vocabulary.

A contract stub is what a *caller* sees: it records the call, proves the callee's `requires`
at the call site and returns a value about which only the callee's `ensures` is known.  The
callee itself is verified against the same contract in contracts/c_prox.py.
"""
from fractions import Fraction

from vc import terms as T
from vc.arrays import SArr, SNum, SBool, as_arr, wrap, P, B, idx_syms
from vc.terms import Unsupported
from vc.engine import LoopSpec, Runner, CTX
from vc import npshim as NS

HALF = T.num(Fraction(1, 2))


class RoleMissing(Unsupported):
    def __init__(self, missing, cands):
        super().__init__("loop variables not identified: %s" % (missing,))
        self.missing, self.cands = missing, cands


# ---------------------------------------------------------------- small spec helpers
def bcast(x, shape):
    """reader(idx) of x broadcast (numpy rules) to `shape` (list of Poly)."""
    if isinstance(x, (int, float, SNum)):
        p = P(x)
        return lambda i: p
    x = as_arr(x)
    r = x.rnum() if hasattr(x, "rnum") else x.reader()
    off = len(shape) - x.ndim
    if off < 0:
        raise Unsupported("broadcast to fewer dimensions")
    one = [x.vshape[k].const() == 1 and shape[off + k].const() != 1 for k in range(x.ndim)]
    return lambda i: r(tuple(T.ZERO if one[k] else i[off + k] for k in range(x.ndim)))


def same_arr(c, name, a, b):
    """obligation: arrays equal pointwise."""
    return c.prove_eq_arr(name, a, b)


def sqn(*xs):
    """Sum of squares of all the entries of the given arrays (spec)."""
    tot = T.ZERO
    for x in xs:
        tot = T.add(tot, P(NS.squared_norm(as_arr(x))))
    return tot


def subgrad_abs(x, v, lam):
    """v in lam * d|x|"""
    return T.band(
        T.implies(T.lt(T.ZERO, x), T.eq(v, lam)),
        T.implies(T.lt(x, T.ZERO), T.eq(v, T.neg(lam))),
        T.le(v, lam),
        T.le(T.neg(lam), v),
    )


def rec(c, kind, **k):
    d = dict(kind=kind, **k)
    if c.generic:  # call inside a comprehension over a symbolic range: lift to the batched call
        if len(c.generic) != 1:
            raise Unsupported("nested generic prox call")
        g = next(iter(c.generic[0].fv))
        n = T.RANGE[g]
        a, o, lam = d["a"], d["out"], d["lam"]
        ra, ro = a.reader(), o.reader()
        sub = lambda x, i: T.subst(x, {g: i})  # noqa
        d["a"] = SArr.make((n,) + tuple(a.vshape), lambda i: sub(ra(tuple(i[1:])), i[0]))
        d["out"] = SArr.make((n,) + tuple(o.vshape), lambda i: sub(ro(tuple(i[1:])), i[0]))
        d["lam"] = lambda i: sub(lam(tuple(i[1:])), i[0])
    c.extra.setdefault("prox", []).append(d)
    return d


def recs(c, kind):
    return [d for d in c.extra.get("prox", []) if d["kind"] == kind]


def one(c, kind, n=1):
    r = recs(c, kind)
    if len(r) != n:
        raise Unsupported("expected %d call(s) of %s in one iteration, saw %d" % (n, kind, len(r)))
    return r if n > 1 else r[0]


# ---------------------------------------------------------------- prox contracts (caller side)
def eig_lam(lamda, a):
    """lamda as a reader over the leading (batch) indices: scalar or (T,1)."""
    if isinstance(lamda, (int, float, SNum)):
        p = P(lamda)
        return lambda i: p
    l = as_arr(lamda)
    if l.ndim == 0:
        p = P(l.item())
        return lambda i: p
    if l.ndim != a.ndim - 1:
        raise Unsupported("spectral prox with lamda of %d dimensions" % l.ndim)
    # es has shape (T, d): lamda must be constant along d
    if l.vshape[-1].const() != 1:
        raise Unsupported("spectral prox with a non constant lamda along the spectrum")
    r = l.reader()
    lead = [l.vshape[k].const() == 1 and a.vshape[k].const() != 1 for k in range(l.ndim - 1)]
    return lambda i: r(tuple(T.ZERO if lead[k] else i[k] for k in range(l.ndim - 1)) + (T.ZERO,))


def _req_sym(c, what, a):
    r = a.reader()
    idx = idx_syms(a.vshape, "rq")
    sw = idx[:-2] + (idx[-1], idx[-2])
    x, y = r(idx), r(sw)
    if x is not y:
        c.prove("requires:%s.symmetric-argument" % what, T.eq(x, y))


def stub_prox_logdet(c, real, a, lamda):
    """ensures: out symmetric positive definite and out/lamda + a - out^{-1} = 0."""
    a = as_arr(a).copy()
    _req_sym(c, "prox_logdet", a)
    lam = eig_lam(lamda, a)
    idx = idx_syms(a.vshape, "rq")
    c.prove("requires:prox_logdet.positive-lamda", T.lt(T.ZERO, lam(idx)))
    out = c.fresh_array("LD", a.vshape, symmetric=True)
    rec(c, "logdet", a=a, lam=lam, out=out.copy())
    return out


def stub_prox_trace(c, real, a, lamda):
    """ensures: out symmetric PSD, a - out = lamda * G with G in the subdifferential of trace + indicator(PSD) at out."""
    a = as_arr(a).copy()
    _req_sym(c, "prox_trace_indicator", a)
    lam = eig_lam(lamda, a)
    idx = idx_syms(a.vshape, "rq")
    c.prove("requires:prox_trace_indicator.nonneg-lamda", T.le(T.ZERO, lam(idx)))
    out = c.fresh_array("TR", a.vshape, symmetric=True)
    rec(c, "trace", a=a, lam=lam, out=out.copy())
    return out


def _l1_like(c, kind, a, lamda, od):
    """ensures: a - out in lamda * d||.||_1 at out (off-diagonal entries only when od)."""
    a = as_arr(a).copy()
    lam = bcast(lamda, a.vshape)
    idx = idx_syms(a.vshape, "rq")
    c.prove("requires:soft_thresholding.nonneg-lamda", T.le(T.ZERO, lam(idx)))
    out = c.fresh_array("ST", a.vshape)
    rec(c, kind, a=a, lam=lam, out=out.copy())
    return out


def stub_soft_od(c, real, a, lamda):
    return _l1_like(c, "l1od", a, lamda, True)


def stub_soft(c, real, a, lamda):
    return _l1_like(c, "l1", a, lamda, False)


def prox_psi_stub(tag):
    """Contract of the proximal operator paired with the penalty `tag`."""

    def prox(a, lamda):
        c = CTX[0]
        a = as_arr(a).copy()
        lam = bcast(lamda, a.vshape)
        out = c.fresh_array("P_" + tag, a.vshape)
        rec(c, "psi:" + tag, a=a, lam=lam, out=out.copy())
        return out

    return prox


def psi_value(tag):
    def psi(x):
        x = as_arr(x)
        from vc.arrays import lam_of

        return wrap(T.fapp("PSI_" + tag, lam_of(x, x.ndim)(())))

    psi.tag = tag
    return psi


def stub_check_norm_prox(c, real, function):
    tag = str(function)
    return psi_value(tag), prox_psi_stub(tag), False


def stub_update_rho(c, real, rho, rnorm, snorm, iteration=None, **k):
    r = c.fresh_real("rho_new")
    c.assume(T.lt(T.ZERO, P(r)))
    c.extra.setdefault("update_rho", []).append(dict(rho=rho, rnorm=rnorm, snorm=snorm, iteration=iteration, out=r, kw=k))
    c.prove("requires:update_rho.positive-rho", T.lt(T.ZERO, P(rho)))
    return r


def stub_init_precision(c, real, emp_cov, mode="empirical"):
    c.extra.setdefault("init_precision", []).append((emp_cov, mode))
    S = as_arr(emp_cov)
    a = c.fresh_array("Kinit", S.vshape)
    return a


CONTRACTS = {
    "regain.prox:prox_logdet": stub_prox_logdet,
    "regain.prox:prox_trace_indicator": stub_prox_trace,
    "regain.prox:soft_thresholding_off_diagonal": stub_soft_od,
    "regain.prox:soft_thresholding": stub_soft,
    "regain.validation:check_norm_prox": stub_check_norm_prox,
    "regain.update_rules:update_rho": stub_update_rho,
    "regain.covariance.graphical_lasso_:init_precision": stub_init_precision,
}
