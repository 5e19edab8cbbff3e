"""Symbolic semantics (assumed contracts) of the numpy / scipy / sklearn calls the
repository makes.  Everything absent here raises Unsupported when called."""
import builtins
import math as pymath

from fractions import Fraction

from . import terms as T
from .arrays import (SArr, SNum, SBool, Masked, P, B, wrap, as_arr, ctx, ew1, ew2, cmp2, bool2, div, power, reduce_sum, reduce_mean,
                     reduce_named, reduce_all, reduce_any, dot, matmul, reshape as _reshape, lam_of, broadcast_shapes, _res, _axes,
                     idx_syms, INT, REAL, isint, contract_sum, Buffer, Nonzero, _same)
from .terms import Poly, Bool, Unsupported
from .seq import SymSeq, SRange, as_seq, is_symbolic, seq_len

ASSUMED = set()  # names of dependency contracts actually used


def used(name):
    ASSUMED.add(name)


class StubMeta(type):
    def __getattr__(cls, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return mkstub(cls.__name__ + "." + a)

    def __call__(cls, *a, **k):
        if "_stub" in cls.__dict__:
            if ctx() is None:
                if len(a) == 1 and not k and callable(a[0]):
                    return a[0]  # decorator at import time
                return mkstub(cls.__name__ + "()")
            raise Unsupported("call of unmodelled external %s" % cls.__name__)
        return super().__call__(*a, **k)


def mkstub(name):
    return StubMeta(name, (), {"_stub": True})


class Mod:
    """Attribute bag that answers unknown names with stubs."""

    def __init__(self, name, **kw):
        self.__dict__["__name__"] = name
        self.__dict__["__path__"] = []
        self.__dict__.update(kw)

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        s = mkstub(self.__dict__["__name__"] + "." + a)
        self.__dict__[a] = s
        return s


def _shape(s):
    if isinstance(s, (int, SNum)):
        return (s,)
    if isinstance(s, SArr):
        return tuple(s)
    return tuple(s)


def zeros(shape, dtype=None, **k):
    b = dtype is not None and "bool" in str(getattr(dtype, "__name__", dtype))
    i = dtype is not None and "int" in str(getattr(dtype, "__name__", dtype))
    return SArr.make(_shape(shape), (lambda i: T.FALSE) if b else (lambda i: T.ZERO), "b" if b else ("i" if i else "f"))


def ones(shape, dtype=None, **k):
    i = dtype is not None and "int" in str(getattr(dtype, "__name__", dtype))
    return SArr.make(_shape(shape), lambda i: T.ONE, "i" if i else "f")


def full(shape, fill_value, dtype=None, **k):
    v = as_arr(fill_value)
    sh = tuple(P(d) for d in _shape(shape))
    f = v.broadcast_to(sh)
    return SArr.make(sh, f, "f" if (dtype is not None and v.kind == "i" and "int" not in str(getattr(dtype, "__name__", dtype))) else v.kind)


def _garbage(shape):
    c = ctx()
    return c.fresh_array("uninit", shape)


def empty(shape, dtype=None, **k):
    return _garbage(_shape(shape))


def zeros_like(a, dtype=None, **k):
    a = as_arr(a)
    if a.ndim == 0:
        return SArr.make((), lambda i: T.ZERO)
    return SArr.make(a.vshape, lambda i: T.ZERO, a.kind if (a.kind != "b" and dtype is None) else "f")


def ones_like(a, **k):
    a = as_arr(a)
    return SArr.make(a.vshape, lambda i: T.ONE, a.kind)


def empty_like(a, **k):
    return _garbage(as_arr(a).vshape)


def full_like(a, fill_value, **k):
    a = as_arr(a)
    if a.ndim == 0:
        return as_arr(fill_value)
    return full(a.shape, fill_value)


def eye(n, m=None, **k):
    return SArr.make((n, m if m is not None else n), lambda i: T.ite(T.eq(i[0], i[1]), T.ONE, T.ZERO))


def array(x, dtype=None, copy=True, **k):
    if isinstance(x, Masked):
        return x
    a = as_arr(x)
    if a is x and copy:
        a = a.copy()
    if dtype is not None:
        return a.astype(dtype)
    return a


def asarray(x, dtype=None, **k):
    a = as_arr(x)
    return a if dtype is None or (a.kind == "f" and "float" in str(getattr(dtype, "__name__", dtype))) else a.astype(dtype)


def arange(a, b=None, step=1, **k):
    r = SRange(0 if b is None else a, a if b is None else b, step)
    st = r.start
    return SArr.make((wrap(r.n, True),), lambda i: T.add(st, T.scale(i[0], step)), "i")


def sqrt(x):
    return ew1(T.sqrt, x, "f") if not _sc(x) else wrap(T.sqrt(P(x)))


def _sc(x):
    return isinstance(x, (SNum, int, float, bool, SBool)) or (isinstance(x, SArr) and x.ndim == 0)


def _u(f, dtype="f"):
    def g(x, out=None, **k):
        if _sc(x):
            return wrap(f(P(x)), dtype is None and isint(x))
        return ew1(f, x, dtype)

    return g


def _b(f, dtype=None):
    def g(a, b, out=None, **k):
        if _sc(a) and _sc(b):
            return wrap(f(P(a), P(b)), dtype is None and isint(a) and isint(b))
        return ew2(f, a, b, dtype)

    return g


def _opq(name):
    def f(p):
        return T.fapp(name, p)

    return f


absolute = _u(T.absv, None)
sign = _u(T.sign, None)
exp = _u(T.exp)
log = _u(T.log)
square = _u(lambda p: T.mul(p, p), None)
maximum = _b(T.maxv)
minimum = _b(T.minv)


def nonzero(c):
    from .arrays import const_nonzero

    k = const_nonzero(as_arr(c), ctx().extra.get("observed") is not None)
    return Nonzero(as_arr(c)) if k is None else k


def flatnonzero(a):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("flatnonzero of a matrix")
    return nonzero(a)[0]


def argsort(a, *r, **k):
    a = as_arr(a)
    n = a.vshape[0].const()
    if a.ndim != 1 or r or k or n is None:
        raise Unsupported("argsort")
    v = [a.get((T.num(j),)).const() for j in range(int(n))]
    if None in v:
        raise Unsupported("argsort of symbolic values")
    return array(sorted(range(int(n)), key=lambda j: v[j]), dtype=int)


def broadcast_to(a, shape, **k):
    a = as_arr(a)
    sh = tuple(P(d) for d in shape)
    if k or len(sh) < a.ndim:
        raise Unsupported("broadcast_to")
    off = len(sh) - a.ndim
    one = [d.const() == 1 and sh[off + k].const() != 1 for k, d in enumerate(a.vshape)]
    for k, d in enumerate(a.vshape):
        if not one[k] and d != sh[off + k]:
            raise Unsupported("broadcast_to other dimensions")
    r = a.rnum()
    return SArr.make(sh, lambda i: r(tuple(T.ZERO if one[k] else i[off + k] for k in range(a.ndim))), a.kind)


def sort(a, axis=-1, **k):
    """increasing order, by exchanges (constant size)."""
    a = as_arr(a)
    n = a.vshape[-1].const()
    if a.ndim != 1 or k or axis not in (-1, 0) or n is None:
        raise Unsupported("sort")
    v = [a.get((T.num(j),)) for j in range(int(n))]
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            lo = T.le(v[j], v[j + 1])
            v[j], v[j + 1] = T.ite(lo, v[j], v[j + 1]), T.ite(lo, v[j + 1], v[j])
    return as_arr([wrap(x) for x in v])


def cumsum(a, axis=None, **k):
    a = as_arr(a)
    n = a.vshape[0].const()
    if a.ndim != 1 or k or axis not in (None, -1, 0) or n is None:
        raise Unsupported("cumsum")
    out, t = [], T.ZERO
    for j in range(int(n)):
        t = T.add(t, a.get((T.num(j),)))
        out.append(wrap(t))
    return as_arr(out)


def where(c, a=None, b=None):
    if a is None:
        return nonzero(c)
    c = as_arr(c) if not isinstance(c, bool) else as_arr(c)
    a, b = as_arr(a), as_arr(b)
    sh = broadcast_shapes(c.vshape, a.vshape, b.vshape)
    from .arrays import _boolcast, _numcast

    fc, fa, fb = _boolcast(c, sh), _numcast(a, sh), _numcast(b, sh)
    return _res(sh, lambda i: T.ite(fc(i), fa(i), fb(i)), "f" if "f" in a.kind + b.kind else "i")


def sum_(a, axis=None, keepdims=False, **k):
    if isinstance(a, (SNum, int, float)):
        return a
    if isinstance(a, SymSeq):
        a = a.to_array()
    return reduce_sum(a, axis, keepdims)


def mean(a, axis=None, keepdims=False, **k):
    if isinstance(a, (SNum, int, float)):
        return a
    return reduce_mean(a if isinstance(a, SArr) else as_arr(a), axis, keepdims)


def var(a, axis=None, ddof=0, **k):
    """mean of the squares minus square of the mean."""
    if k or ddof:
        raise Unsupported("np.var options")
    a = as_arr(a)
    m = reduce_mean(a, axis, False)
    return reduce_mean(a * a, axis, False) - m * m


def amax(a, axis=None, **k):
    return reduce_named("max", a, axis)


def amin(a, axis=None, **k):
    return reduce_named("min", a, axis)


def diag(a, k=0):
    a = as_arr(a)
    if not isinstance(k, int):
        raise Unsupported("np.diag symbolic offset")
    if k != 0:
        if a.ndim != 2:
            raise Unsupported("np.diag offset")
        r = a.rnum()
        n0, n1 = a.vshape[0].const(), a.vshape[1].const()
        if n0 is None or n0 != n1:
            raise Unsupported("np.diag offset of a symbolic shape")
        ln = max(int(n0) - abs(k), 0)
        if k > 0:
            return SArr.make((T.num(ln),), lambda i: r((i[0], T.add(i[0], T.num(k)))))
        return SArr.make((T.num(ln),), lambda i: r((T.sub(i[0], T.num(k)), i[0])))
    if a.ndim == 1:
        r = a.rnum()
        return SArr.make((a.vshape[0], a.vshape[0]), lambda i: T.ite(T.eq(i[0], i[1]), r((i[0],)), T.ZERO))
    return a.diag_view(0, 1)


def diagonal(a, offset=0, axis1=0, axis2=1):
    if offset:
        raise Unsupported("diagonal offset")
    return as_arr(a).diag_view(axis1, axis2)


def fill_diagonal(a, v, wrap=False):
    if a.ndim != 2:
        raise Unsupported("fill_diagonal ndim")
    a.diag_view()[...] = v


def triu(a, k=0):
    a = as_arr(a)
    r = a.rnum()
    return SArr.make(a.vshape, lambda i: T.ite(T.le(T.add(i[-2], T.num(k)), i[-1]), r(i), T.ZERO), a.kind if a.kind != "b" else "i")


def tril(a, k=0):
    a = as_arr(a)
    r = a.rnum()
    return SArr.make(a.vshape, lambda i: T.ite(T.le(i[-1], T.add(i[-2], T.num(k))), r(i), T.ZERO), a.kind if a.kind != "b" else "i")


def trace(a, **k):
    a = as_arr(a)
    return reduce_sum(a.diag_view(0, 1), -1)


def einsum(spec, *ops, **k):
    s = spec.replace(" ", "")
    if s == "...jj->...j":
        return ops[0].diag_view(-2, -1)
    if "..." in s:
        raise Unsupported("einsum ellipsis")
    lhs, _, rhs = s.partition("->")
    if "->" not in s:
        from collections import Counter

        cnt = Counter(c for c in lhs if c != ",")
        rhs = "".join(sorted(c for c in cnt if cnt[c] == 1))
    parts = lhs.split(",")
    dims = {}
    ops = [as_arr(o) for o in ops]
    for p, o in zip(parts, ops):
        for c, d in zip(p, o.vshape):
            dims.setdefault(c, d)
            if dims[c] != d and not bool(SBool(T.eq(dims[c], d))):
                raise ValueError("einsum operand mismatch")
    rs = [o.rnum() for o in ops]

    def fn(idx):
        env = dict(zip(rhs, idx))
        bs = []
        for c in dims:
            if c not in env:
                t = T.fresh_name("k")
                T.RANGE[t] = dims[c]
                env[c] = T.sym(t, INT)
                bs.append((t, dims[c]))
        v = T.ONE
        for p, r in zip(parts, rs):
            v = T.mul(v, r(tuple(env[c] for c in p)))
        return T.mk_sum(bs, v) if bs else v

    return _res([dims[c] for c in rhs], fn, "f")


def concatenate(arrs, axis=0, **k):
    arrs = [as_arr(a) for a in arrs]
    n = arrs[0].ndim
    ax = axis % n
    for a in arrs[1:]:
        if a.ndim != n:
            raise ValueError("all the input array dimensions must match")
        for j in range(n):
            if j != ax and a.vshape[j] != arrs[0].vshape[j] and not bool(SBool(T.eq(a.vshape[j], arrs[0].vshape[j]))):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    tot = T.add(*[a.vshape[ax] for a in arrs])
    rs = [a.rnum() for a in arrs]
    sh = list(arrs[0].vshape)
    sh[ax] = tot

    def fn(idx):
        i = idx[ax]
        off = T.ZERO
        cases = []
        for a, r in zip(arrs, rs):
            nxt = T.add(off, a.vshape[ax])
            cases.append((T.lt(i, nxt), (lambda r=r, off=off: r(idx[:ax] + (T.sub(i, off),) + idx[ax + 1 :]))))
            off = nxt
        v = cases[-1][1]()
        for c, f in reversed(cases[:-1]):
            v = T.ite(c, f(), v)
        return v

    kind = "f" if any(a.kind == "f" for a in arrs) else "i"
    return SArr.make(sh, fn, kind)


def triu_indices(n, k=0, m=None):
    """finitely many index pairs only."""
    n = P(n).const()
    if n is None or m is not None:
        raise Unsupported("triu_indices of a symbolic size")
    e = [(i, j) for i in range(int(n)) for j in range(int(n)) if j - i >= k]
    return tuple(array([x[q] for x in e], dtype=int) if e else zeros((0,), dtype=int) for q in (0, 1))


def triu_indices_from(a, k=0):
    a = as_arr(a)
    if a.ndim != 2:
        raise ValueError("input array must be 2-d")
    if a.vshape[0] != a.vshape[1]:
        raise Unsupported("triu_indices_from of a rectangle")
    return triu_indices(wrap(a.vshape[0], True), k)


def tril_indices(n, k=0, m=None):
    n = P(n).const()
    if n is None or m is not None:
        raise Unsupported("tril_indices of a symbolic size")
    e = [(i, j) for i in range(int(n)) for j in range(int(n)) if j - i <= k]
    return tuple(array([x[q] for x in e], dtype=int) if e else zeros((0,), dtype=int) for q in (0, 1))


def tril_indices_from(a, k=0):
    a = as_arr(a)
    if a.ndim != 2 or a.vshape[0] != a.vshape[1]:
        raise Unsupported("tril_indices_from of a rectangle")
    return tril_indices(wrap(a.vshape[0], True), k)


def atleast_2d(a):
    a = as_arr(a)
    return a if a.ndim >= 2 else a[None, :] if a.ndim == 1 else a.reshape((1, 1))


def vstack(arrs):
    if isinstance(arrs, SymSeq):
        arrs = arrs.to_array()
    if isinstance(arrs, SArr) and arrs.ndim == 2:
        return arrs.copy()
    if isinstance(arrs, SArr) and arrs.ndim == 3:  # equal blocks
        n, r = arrs.vshape[1], arrs.reader()
        return SArr.make(
            (T.mul(arrs.vshape[0], n), arrs.vshape[2]), lambda i: r((T.idiv(i[0], n), T.mod(i[0], n), i[1])), arrs.kind
        )
    arrs = [as_arr(a) for a in arrs]
    arrs = [a if a.ndim >= 2 else a[None, :] for a in arrs]
    return concatenate(arrs, 0)


def hstack(arrs):
    arrs = [as_arr(a) for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def expand_dims(a, axis):
    a = as_arr(a)
    n = a.ndim + 1
    ax = axis % n
    return a[(slice(None),) * ax + (None,)]


def swapaxes(a, x, y):
    return as_arr(a).swapaxes(x, y)


def transpose(a, axes=None):
    return as_arr(a).transpose(axes) if axes is not None else as_arr(a).transpose()


def copy(a):
    return as_arr(a).copy()


def count_nonzero(a, axis=None):
    a = as_arr(a)
    if a.kind == "b":
        return reduce_sum(a, axis)
    return reduce_sum(a != 0, axis)


NANSYM = T.num(float("nan"))


def _isnan(p):
    """the contract may say which values are missing (the NAN symbol) and which are not."""
    obs = ctx().extra.get("observed")
    if obs is not None:
        if p.key == NANSYM.key:
            return T.TRUE
        if p.key in obs or p.const() is not None:
            return T.FALSE
    return T.bapp("isnan", p)


def isnan(a):
    if _sc(a):
        return SBool(_isnan(P(a)))
    a = as_arr(a)
    r = a.rnum()
    return _cells(SArr.make(a.vshape, lambda i: _isnan(r(i)), "b"))


def _cells(a):
    """cell by cell when the contract says which values are missing (a decided question has no symbolic position)."""
    dims = [d.const() for d in a.vshape]
    if ctx().extra.get("observed") is None or None in dims or not dims or 0 in dims:
        return a
    g = lambda i, d: [g(i + (k,), d[1:]) for k in range(int(d[0]))] if d else a[i]  # noqa
    return as_arr(g((), dims)).copy()


def meshgrid(a, b, **k):
    a, b = as_arr(a), as_arr(b)
    if k or a.ndim != 1 or b.ndim != 1:
        raise Unsupported("meshgrid options")
    ra, rb = a.reader(), b.reader()
    sh = (b.vshape[0], a.vshape[0])
    return SArr.make(sh, lambda i: ra((i[1],)), a.kind), SArr.make(sh, lambda i: rb((i[0],)), b.kind)


def ix_(a, b):
    x, y = meshgrid(b, a)
    return y, x


def _small_inverse(a):
    """the inverse of a non-singular matrix of at most three rows (None: not such a matrix)."""
    if ctx().extra.get("small_inverse") is None or a.ndim != 2:
        return None
    n, m = (d.const() for d in a.vshape)
    if n is None or n != m or n > 3:
        return None
    n = int(n)
    used("inverse (or pseudo-inverse) of a positive definite matrix of at most three rows")
    if n == 0:
        return SArr.make(a.vshape, lambda i: T.ZERO)
    r = a.rnum()
    v = [[r((T.num(i), T.num(j))) for j in range(n)] for i in range(n)]

    def det(m):
        if not m:
            return T.ONE
        out = T.ZERO
        for j in range(len(m)):
            t = T.mul(m[0][j], det([row[:j] + row[j + 1 :] for row in m[1:]]))
            out = T.add(out, t) if j % 2 == 0 else T.sub(out, t)
        return out

    di = T.inv(det(v))
    cof = lambda i, j: T.scale(det([row[:j] + row[j + 1 :] for k, row in enumerate(v) if k != i]), (-1) ** (i + j))  # noqa
    return as_arr([[wrap(T.mul(cof(j, i), di)) for j in range(n)] for i in range(n)])


def nan_to_num(a, **k):
    if k:
        raise Unsupported("nan_to_num options")
    if _sc(a):
        return wrap(T.ite(_isnan(P(a)), T.ZERO, P(a)))
    a = as_arr(a)
    r = a.rnum()
    return _cells(SArr.make(a.vshape, lambda i: T.ite(_isnan(r(i)), T.ZERO, r(i)), a.kind))


def isinf(a):
    if _sc(a):
        return SBool(T.bapp("isinf", P(a)))
    a = as_arr(a)
    r = a.rnum()
    return SArr.make(a.vshape, lambda i: T.bapp("isinf", r(i)), "b")


def clip(a, lo, hi, **k):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def dot_(a, b):
    return dot(a, b)


def multi_dot(arrs):
    arrs = list(arrs)
    r = arrs[0]
    for a in arrs[1:]:
        r = dot(r, a)
    return r


def all_(a, axis=None):
    if isinstance(a, bool):
        return a
    return reduce_all(a, axis)


def any_(a, axis=None):
    if isinstance(a, bool):
        return a
    return reduce_any(a, axis)


def repeat(a, n, axis=None):
    a = as_arr(a)
    if a.ndim == 0:
        return full((n,), a.item())
    if a.ndim != 1 or axis not in (None, 0):
        raise Unsupported("np.repeat")
    r = a.reader()
    if _sc(n):
        m = P(n)
        return SArr.make([T.mul(a.vshape[0], m)], lambda i: r((T.idiv(i[0], m),)), a.kind)
    if isinstance(n, (list, tuple)):  # finitely many blocks of any length
        if a.vshape[0].const() != len(n):
            raise ValueError("operands could not be broadcast together")
        parts = [full((m,), a[k]) for k, m in enumerate(n)]
        return concatenate(parts, 0)
    n = as_arr(n)
    g = T.fresh_name("g")
    T.RANGE[g] = n.vshape[0]
    m = n.get((T.sym(g, T.INT),))
    if g in m.fv:
        raise Unsupported("np.repeat with varying counts")
    return SArr.make([T.mul(a.vshape[0], m)], lambda i: r((T.idiv(i[0], m),)), a.kind)


def prod(a, **k):
    if k:
        raise Unsupported("np.prod options")
    if isinstance(a, (list, tuple)):
        out = 1
        for x in a:
            out = out * x
        return out
    raise Unsupported("np.prod")


def outer(a, b):
    a, b = as_arr(a), as_arr(b)
    ra, rb = a.rnum(), b.rnum()
    return SArr.make((a.vshape[0], b.vshape[0]), lambda i: T.mul(ra((i[0],)), rb((i[1],))))


def ravel(a):
    return as_arr(a).ravel()


def ndim(a):
    return as_arr(a).ndim


def shape(a):
    return as_arr(a).shape


def size(a):
    return as_arr(a).size


def unique(y, return_counts=False, return_inverse=False, **k):
    """classes_c strictly increasing; every y_s equals exactly one class."""
    used("numpy.unique")
    if k or (return_inverse and return_counts):
        raise Unsupported("np.unique options")
    c = ctx()
    y = as_arr(y)
    key = lam_of(y, 1)(()).key
    cache = c.extra.setdefault("unique", {})
    if key not in cache:
        C = T.sym(T.fresh_name("n_classes"), INT)
        if c.extra.get("n_classes"):
            C = T.num(c.extra["n_classes"])
        else:
            c.assume(T.le(T.ONE, C))
        nm = T.fresh_name("classes")
        cache[key] = (C, nm)
        # every class occurs: its count is positive
        ry, ny = y.rnum(), y.vshape[0]
        c.extra.setdefault("positive", []).append((nm, lambda i: contract_sum(ny, lambda s: T.ite(T.eq(ry((s,)), T.app(nm, i)), T.ONE, T.ZERO))))
    C, nm = cache[key]
    cl = SArr.make((C,), lambda i: T.app(nm, i), y.kind)
    if return_inverse:
        # position of each label among the sorted classes
        inv = c.extra.setdefault("unique_inverse", {})
        if key not in inv:
            ln = T.fresh_name("LABEL")
            inv[key] = SArr.make(y.vshape, lambda i: T.app(ln, i), "i")
        return cl, inv[key]
    if not return_counts:
        return cl
    r = y.rnum()
    n = y.vshape[0]
    cnt = SArr.make((C,), lambda i: contract_sum(n, lambda s: T.ite(T.eq(r((s,)), T.app(nm, i)), T.ONE, T.ZERO)), "i")
    return cl, cnt


def bincount(x, *a, **k):
    if a or k or not ctx().extra.get("n_classes"):
        raise Unsupported("bincount")
    x = as_arr(x)
    inv = [v for v in ctx().extra.get("unique_inverse", {}).values() if v is x]
    if not inv:
        raise Unsupported("bincount of anything but class positions")
    used("numpy.bincount (of class positions: one count per class)")
    r, n = x.rnum(), x.vshape[0]
    return SArr.make((T.num(ctx().extra["n_classes"]),), lambda i: contract_sum(n, lambda s: T.ite(T.eq(r((s,)), i[0]), T.ONE, T.ZERO)), "i")


# ---------------------------------------------------------------- linalg
def norm(x, ord=None, axis=None, keepdims=False):
    x = as_arr(x)
    sq = lambda: ew2(T.mul, x, x)  # noqa
    if axis is None:
        if ord is None or ord == "fro" or (x.ndim == 1 and ord == 2):
            if ord == "fro" and x.ndim != 2:
                raise ValueError("Invalid norm order 'fro' for this array")
            return sqrt(reduce_sum(sq(), None))
        if x.ndim == 1:
            if ord == 1:
                return reduce_sum(absolute(x), None)
            if ord == float("inf") or (isinstance(ord, SNum) and ord.p == T.num(float("inf"))):
                return reduce_named("max", absolute(x), None)
            raise Unsupported("vector norm order")
        if x.ndim == 2:
            isinf_ = ord == float("inf") or (isinstance(ord, SNum) and ord.p == T.num(float("inf")))
            if isinf_ is True:
                return reduce_named("max", reduce_sum(absolute(x), 1), None)
            if ord == 1:
                return reduce_named("max", reduce_sum(absolute(x), 0), None)
            if ord == 2:
                used("numpy.linalg.norm(ord=2)")
                return wrap(T.fapp("specnorm", lam_of(x, 2)(())))
            if ord == "nuc":
                return _matfun("nucnorm", 0)(x)
        raise Unsupported("norm order")
    if isinstance(axis, tuple):
        if ord in (None, "fro"):
            return sqrt(reduce_sum(sq(), axis, keepdims))
        if ord == "nuc" and tuple(a % x.ndim for a in axis) in ((x.ndim - 2, x.ndim - 1), (x.ndim - 1, x.ndim - 2)) and not keepdims:
            return _matfun("nucnorm", 0)(x)
        raise Unsupported("matrix norm order on axes")
    if ord is None or ord == 2:
        return sqrt(reduce_sum(sq(), axis, keepdims))
    if ord == 1:
        return reduce_sum(absolute(x), axis, keepdims)
    if ord == float("inf"):
        return reduce_named("max", absolute(x), axis)
    raise Unsupported("norm order")


def squared_norm(x):
    used("sklearn.utils.extmath.squared_norm")
    x = as_arr(x)
    return reduce_sum(ew2(T.mul, x, x), None)


def eigh(a, **k):
    """es, Q with Q orthogonal and Q diag(es) Q^T = symmetric matrix read from the lower triangle."""
    used("numpy.linalg.eigh")
    if k:
        raise Unsupported("eigh options")
    a = as_arr(a)
    c = ctx()
    L = lam_of(a, a.ndim)(())
    # generic names for free variables in L: parametrise by them
    fvs = sorted(L.fv & {g for gp in c.generic for g in gp.fv})
    key = L.key
    if key not in c.eigh_cache:
        c.eigh_cache[key] = (T.fresh_name("eig_es"), T.fresh_name("eig_Q"))
    ne, nq = c.eigh_cache[key]
    T.ORTHO.add(nq)
    g = tuple(c.generic)
    es = SArr.make(a.vshape[:-1], lambda i: T.app(ne, g + tuple(i)))
    Q = SArr.make(a.vshape, lambda i: T.app(nq, g + tuple(i)))
    c.extra.setdefault("eigh", []).append({"a": a.copy(), "es": es.copy(), "Q": Q.copy(), "names": (ne, nq)})
    return es, Q


def _matfun(name, ndim_out=2):
    """Uninterpreted function of the trailing matrix."""

    def f(a, *args, **k):
        a = as_arr(a)
        if name in ("inv", "pinv", "pinvh"):
            s = _small_inverse(a)
            if s is not None:
                return s
        used(name)
        lm = lam_of(a, 2)
        nb = a.ndim - 2
        if ndim_out == 2:
            sh = a.vshape[:nb] + (a.vshape[-1], a.vshape[-2])
            return SArr.make(sh, lambda i: T.fapp(name, lm(i[:nb]), i[nb], i[nb + 1]))
        if ndim_out == 1:
            return SArr.make(a.vshape[:nb] + (a.vshape[-1],), lambda i: T.fapp(name, lm(i[:nb]), i[nb]))
        return _res(a.vshape[:nb], lambda i: T.fapp(name, lm(i)), "f")

    f.__name__ = name
    return f


_inv = _matfun("inv")


def inv_(a, *r, **k):
    rec = ctx().extra.get("solves")
    a = as_arr(a)
    if rec is None or a.ndim != 2:
        return _inv(a, *r, **k)
    used("linalg.inv inverts non-singular matrices")
    _same(a.vshape[0], a.vshape[1])
    out = ctx().fresh_array("INV", a.vshape)
    rec.append(("inv", a.copy(), None, out.copy()))
    return out


pinvh = _matfun("pinvh")
pinv = _matfun("pinv")
_chol = _matfun("cholesky")


def cholesky_(a, *r, **k):
    """numpy: LinAlgError exactly when the matrix is not (numerically) positive definite."""
    a = as_arr(a)
    if a.ndim != 2 or r or k:
        return _chol(a, *r, **k)
    rec = ctx().extra.get("solves")
    if rec is not None:
        used("cholesky factorises positive definite matrices: M = L L'")
        out = _chol(a.copy())
        rec.append(("cholesky", a.copy(), None, out.copy()))
        return out
    used("cholesky raises LinAlgError exactly when the matrix is not positive definite")
    if not ctx().decide(T.bapp("posdef", lam_of(a, 2)(()))):
        raise linalg_np.LinAlgError("Matrix is not positive definite")
    return _chol(a)


eigvalsh = _matfun("eigvalsh", 1)
_sl_sign = _matfun("slogdet_sign", 0)
_sl_ld = _matfun("slogdet_ld", 0)


def svd(a, full_matrices=True, compute_uv=True, **k):
    if k:
        raise Unsupported("svd with vectors")
    if compute_uv:
        c, a = ctx(), as_arr(a)
        if not c.extra.get("svd_posdef"):
            raise Unsupported("svd with vectors")
        used("svd of a symmetric positive definite matrix: P = U diag(s) U', s > 0")
        n = a.vshape[0]
        U, s = c.fresh_array("SVDU", (n, n)), c.fresh_array("SVDS", (n,))
        for j in range(int(n.const())):
            c.assume(T.lt(T.ZERO, s.get((T.num(j),))))
        c.extra.setdefault("svd", []).append((a.copy(), U.copy(), s.copy()))
        return U, s, U.T
    a = as_arr(a)
    if a.ndim != 2 or a.vshape[0] != a.vshape[1]:
        raise Unsupported("svd of a rectangular matrix")
    return _matfun("singular_values", 1)(a)


def matrix_rank(a, *r, **k):
    if r or k:
        raise Unsupported("matrix_rank options")
    x = _matfun("matrix_rank", 0)(a)
    return x


def slogdet(a):
    return _sl_sign(a), _sl_ld(a)


def det(a):
    return _matfun("det", 0)(a)


def fast_logdet(a):
    """sklearn: log det when sign > 0 else -inf."""
    used("sklearn.utils.extmath.fast_logdet")
    a = as_arr(a)
    if a.ndim != 2:
        raise Unsupported("fast_logdet ndim")
    s, l = slogdet(a)
    return wrap(T.ite(T.lt(T.ZERO, P(s)), P(l), P(float("-inf"))))


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim:
        raise Unsupported("allclose with broadcasting")
    i = idx_syms(a.vshape, "ac")
    if all(x == y for x, y in zip(a.vshape, b.vshape)) and ctx().entails(T.eq(a.get(i), b.get(i))):
        return True
    raise Unsupported("allclose")


def argwhere(a):
    """positions of the true entries of a small 1-d array (each decided)."""
    a = as_arr(a)
    if a.ndim != 1 or a.vshape[0].const() is None:
        raise Unsupported("argwhere")
    hit = []
    for k in range(int(a.vshape[0].const())):
        b = a.get((T.num(k),))
        if not isinstance(b, T.Bool):
            b = T.ne(b, T.ZERO)
        if ctx().decide(b) if b.op not in ("true", "false") else b.op == "true":
            hit.append(k)
    return SArr.make((T.num(len(hit)), T.ONE), lambda i: _pick(hit, i[0]), "i")


def _pick(vals, i):
    c = i.const()
    if c is not None:
        return T.num(vals[int(c)])
    v = T.num(vals[-1])
    for k in range(len(vals) - 1):
        v = T.ite(T.eq(i, T.num(k)), T.num(vals[k]), v)
    return v


def _recorded(a, b):
    """non-singular square systems: the solution is a fresh vector, and the system it solves is recorded."""
    c = ctx()
    a, b = as_arr(a).copy(), as_arr(b).copy()
    if a.ndim != 2 or b.ndim != 1:
        raise Unsupported("linear system with several right-hand sides")
    _same(a.vshape[0], a.vshape[1])
    _same(a.vshape[0], b.vshape[0])
    out = c.fresh_array("SOL", b.vshape)
    c.extra["solves"].append(("solve", a, b, out.copy()))
    return out


def lstsq(a, b, rcond="warn", **k):
    if ctx().extra.get("solves") is None:
        raise Unsupported("lstsq")
    used("linalg.lstsq solves square non-singular systems")
    return (_recorded(a, b), None, None, None)


def solve(a, b, **k):
    used("linalg.solve")
    if ctx().extra.get("solves") is not None:
        return _recorded(a, b)
    a, b = as_arr(a), as_arr(b)
    s = _small_inverse(a)
    if s is not None:
        return s.dot(b)
    la, lb = lam_of(a, a.ndim)(()), lam_of(b, b.ndim)(())
    if b.ndim == 1:
        return SArr.make((a.vshape[1],), lambda i: T.fapp("solve", la, lb, i[0]))
    return SArr.make((a.vshape[1], b.vshape[1]), lambda i: T.fapp("solve", la, lb, i[0], i[1]))


def empirical_covariance(X, assume_centered=False):
    """sklearn contract: biased (1/n) covariance of the rows."""
    used("sklearn.covariance.empirical_covariance")
    if isinstance(X, Masked):
        base, m = X.base, X.m
        r, mm = base.rnum(), m.reader()
        w = lambda s: T.ite(mm((s,)), T.ONE, T.ZERO)  # noqa
        n, d = base.vshape
        cnt = X.vshape[0]
    else:
        X = as_arr(X)
        if X.ndim != 2:
            raise Unsupported("empirical_covariance ndim")
        r = X.rnum()
        w = lambda s: T.ONE  # noqa
        n, d = X.vshape
        cnt = n
    mu = lambda i: div(contract_sum(n, lambda s: T.mul(w(s), r((s, i)))), cnt)  # noqa
    if isinstance(assume_centered, SNum):
        raise Unsupported("symbolic flag")
    if assume_centered if isinstance(assume_centered, bool) else bool(assume_centered):
        return SArr.make((d, d), lambda i: div(contract_sum(n, lambda s: T.mul(w(s), r((s, i[0])), r((s, i[1])))), cnt))
    # (1/n) sum w x_i x_j - mu_i mu_j   (= mean of centred products)
    return SArr.make(
        (d, d),
        lambda i: T.sub(div(contract_sum(n, lambda s: T.mul(w(s), r((s, i[0])), r((s, i[1])))), cnt), T.mul(mu(i[0]), mu(i[1]))),
    )


def log_likelihood(emp_cov, precision):
    used("sklearn.covariance.log_likelihood")
    p = as_arr(precision).shape[0]
    ll = -sum_(as_arr(emp_cov) * precision) + fast_logdet(precision)
    ll = ll - p * log(2 * PI)
    return ll / 2.0


PI = SNum(T.sym("PI", REAL))
INF = float("inf")


def check_array(X, *a, **k):
    used("sklearn.utils.check_array (returns validated copy/view equal to the input)")
    return as_arr(X) if not isinstance(X, SArr) else X


def check_X_y(X, y, *a, **k):
    used("sklearn.utils.check_X_y (returns X, y unchanged when valid)")
    return X, y


class FakeErr:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def apply_along_axis(*a, **k):
    raise Unsupported("apply_along_axis")


def isscalar(x):
    return isinstance(x, (SNum, int, float))


class _Float:
    """np.float64 and friends: usable as a type tag and as a cast."""

    def __init__(self, name):
        self.__name__ = name

    def __call__(self, x=0.0):
        if isinstance(x, str):
            return float(x)
        return x

    def __repr__(self):
        return self.__name__


linalg_np = Mod(
    "numpy.linalg",
    norm=norm,
    eigh=eigh,
    inv=inv_,
    pinv=pinv,
    slogdet=slogdet,
    det=det,
    multi_dot=multi_dot,
    cholesky=cholesky_,
    solve=solve,
    lstsq=lstsq,
    eigvalsh=eigvalsh,
    svd=svd,
    matrix_rank=matrix_rank,
    LinAlgError=type("LinAlgError", (Exception,), {}),
)


def _draw(kind, shape, args, lo=None, hi=None, ints=False):
    """an arbitrary value of the sampled set; every draw is recorded."""
    c = ctx()
    if c.generic:
        raise Unsupported("random draw inside a symbolic loop")
    used("numpy.random: a draw is an arbitrary value of the range of its distribution")
    if shape is None:
        n = T.fresh_name("RND")
        out = wrap(T.sym(n, T.INT if ints else T.REAL), ints)
        cells = [P(out)]
    else:
        shp = _shape(shape)
        out = c.fresh_array("RND", shp, dtype="i" if ints else "f")
        dims = [P(x).const() for x in shp]
        cells = []
        if None not in dims:
            import itertools

            for i in itertools.islice(itertools.product(*[range(int(d)) for d in dims]), 64):
                cells.append(out.get(tuple(T.num(k) for k in i)))
    lc, hc = (None if x is None else P(x).const() for x in (lo, hi))
    for v in cells:
        if ints and lc is not None and hc is not None and 0 < hc - lc <= 16:
            T.FINITE[v.key] = (int(lc), int(hc))
        if lo is not None:
            c.assume(T.le(P(lo), v))
        if hi is not None:
            c.assume(T.lt(v, P(hi)))
    c.extra.setdefault("draws", []).append((kind, args, out if shape is None else out.copy()))
    return out


def _mvn(mean, cov, size=None, **k):
    m = as_arr(mean)
    if k:
        raise Unsupported("multivariate_normal options")
    if size is None:
        return _draw("mvn", tuple(m.vshape), (m.copy(), as_arr(cov).copy(), size))
    return _draw("mvn", (tuple(size) if isinstance(size, (tuple, list)) else (size,)) + tuple(m.vshape), (m.copy(), as_arr(cov).copy(), size))


def _rchoice(a, size=None, replace=True, p=None):
    if size is not None or p is not None or not isinstance(a, (list, tuple)):
        if size is None or p is None:
            raise Unsupported("random.choice options")
        a = as_arr(a)
        return _draw("choice", size, (a, size, replace, as_arr(p).copy()), 0, a.vshape[0], True)
    c = ctx()
    k = _draw("choice", None, (list(a),), 0, len(a), True)
    for j in range(len(a) - 1):
        if c.decide(T.eq(P(k), T.num(j))):
            return a[j]
    return a[-1]


random_np = Mod(
    "numpy.random",
    multivariate_normal=_mvn,
    uniform=lambda low=0.0, high=1.0, size=None: _draw("uniform", size, (low, high), low, high),
    rand=lambda *s: _draw("uniform", s or None, (0, 1), 0, 1),
    randn=lambda *s: _draw("normal", s or None, ()),
    randint=lambda low, high=None, size=None: _draw("randint", size, (low, high), 0 if high is None else low, low if high is None else high, True),
    normal=lambda loc=0.0, scale=1.0, size=None: _draw("normal", size, (loc, scale)),
    lognormal=lambda mean=0.0, sigma=1.0, size=None: _draw("lognormal", size, (mean, sigma), 0),
    poisson=lambda lam=1.0, size=None: _draw("poisson", size, (lam,), 0, None, True),
    choice=_rchoice,
)


def ma_array(x, copy=False, **k):
    """masked array without a mask."""
    if k:
        raise Unsupported("np.ma.array options")
    x = as_arr(x)
    return x.copy() if copy else x


def build_numpy():
    return Mod(
        "numpy",
        ma=Mod("numpy.ma", array=ma_array),
        ndarray=SArr,
        array=array,
        asarray=asarray,
        asanyarray=asarray,
        zeros=zeros,
        ones=ones,
        full=full,
        empty=empty,
        zeros_like=zeros_like,
        ones_like=ones_like,
        empty_like=empty_like,
        full_like=full_like,
        eye=eye,
        prod=prod,
        identity=eye,
        arange=arange,
        allclose=allclose,
        argwhere=argwhere,
        sqrt=sqrt,
        abs=absolute,
        absolute=absolute,
        sign=sign,
        exp=exp,
        log=log,
        square=square,
        maximum=maximum,
        minimum=minimum,
        where=where,
        nonzero=nonzero,
        argsort=argsort,
        sum=sum_,
        mean=mean,
        max=amax,
        min=amin,
        amax=amax,
        amin=amin,
        diag=diag,
        diagonal=diagonal,
        fill_diagonal=fill_diagonal,
        triu=triu,
        tril=tril,
        trace=trace,
        einsum=einsum,
        concatenate=concatenate,
        vstack=vstack,
        triu_indices=triu_indices,
        tensordot=tensordot,
        tril_indices=tril_indices,
        tril_indices_from=tril_indices_from,
        real=lambda x: x,
        triu_indices_from=triu_indices_from,
        atleast_2d=atleast_2d,
        hstack=hstack,
        expand_dims=expand_dims,
        swapaxes=swapaxes,
        transpose=transpose,
        copy=copy,
        count_nonzero=count_nonzero,
        isnan=isnan,
        meshgrid=meshgrid,
        var=var,
        flatnonzero=flatnonzero,
        ix_=ix_,
        nan_to_num=nan_to_num,
        isinf=isinf,
        clip=clip,
        dot=dot_,
        matmul=matmul,
        all=all_,
        any=any_,
        outer=outer,
        ravel=ravel,
        reshape=lambda a, s: _reshape(a, s if isinstance(s, (tuple, list)) else (s,)),
        ndim=ndim,
        shape=shape,
        size=size,
        unique=unique,
        broadcast_to=broadcast_to,
        sort=sort,
        cumsum=cumsum,
        bincount=bincount,
        repeat=repeat,
        power=lambda a, n: ew1(lambda p: power(p, n), a) if not _sc(a) else wrap(power(P(a), n), isint(a)),
        divide=lambda a, b: ew2(div, a, b, "f"),
        multiply=_b(T.mul),
        add=_b(T.add),
        subtract=_b(T.sub),
        negative=_u(T.neg, None),
        logical_and=lambda a, b: bool2(T.band, a, b),
        logical_or=lambda a, b: bool2(T.bor, a, b),
        logical_not=lambda a: ~as_arr(a),
        sin=_u(_opq("sin")),
        cos=_u(_opq("cos")),
        float64=_Float("float64"),
        float32=_Float("float32"),
        int64=_Float("int64"),
        int32=_Float("int32"),
        bool_=_Float("bool"),
        newaxis=None,
        nan=float("nan"),
        inf=float("inf"),
        pi=PI,
        isscalar=isscalar,
        errstate=FakeErr,
        linalg=linalg_np,
        random=random_np,
        squeeze=lambda a: as_arr(a).squeeze(),
        isclose=lambda a, b, **k: (_ for _ in ()).throw(Unsupported("np.isclose")),
    )


def chol_sp(a, lower=False, **k):
    """scipy: factor of a positive definite matrix; twice the sum of the logarithms of its diagonal is the log-determinant."""
    c, a = ctx(), as_arr(a)
    if k or a.ndim != 2 or "chol" not in c.extra:
        raise Unsupported("scipy cholesky")
    used("scipy.linalg.cholesky")
    out = c.fresh_array("CHOL", a.vshape)
    for j in range(int(a.vshape[0].const())):
        c.assume(T.lt(T.ZERO, out.get((T.num(j), T.num(j)))))
    c.extra["chol"].append((a.copy(), out.copy()))
    return out


linalg_sp = Mod("scipy.linalg", svd=svd, cholesky=chol_sp, pinvh=pinvh, inv=inv_, norm=norm, eigh=None, LinAlgError=linalg_np.LinAlgError, solve=solve, lstsq=lstsq)
del linalg_sp.__dict__["eigh"]


class EmpCovBase:
    """sklearn.covariance base estimator (assumed): parameters stored, getters."""

    def get_precision(self):
        used("sklearn EmpiricalCovariance.get_precision (stored precision)")
        return self.precision_

    def get_params(self, deep=True):
        raise Unsupported("get_params")


class GraphLassoBase(EmpCovBase):
    def __init__(self, alpha=0.01, *, mode="cd", covariance=None, tol=1e-4, enet_tol=1e-4, max_iter=100, verbose=False, eps=None, assume_centered=False):
        self.alpha, self.mode, self.tol, self.enet_tol = alpha, mode, tol, enet_tol
        self.max_iter, self.verbose, self.assume_centered = max_iter, verbose, assume_centered


class BaseEstimator:
    pass


class QuadraticDiscriminantAnalysis:
    """sklearn 1.3: log-posterior of each class from the rotations and scalings of its covariance."""

    def _decision_function(self, X):
        used("sklearn QuadraticDiscriminantAnalysis._decision_function (log prior + Gaussian log-density from rotations and scalings, up to a constant)")
        X = as_arr(X)
        R, S, pri, mu = [as_arr(r).rnum() for r in self.rotations_], [as_arr(s) for s in self.scalings_], as_arr(self.priors_).rnum(), as_arr(self.means_).rnum()
        x, p = X.rnum(), X.vshape[1].const()
        if p is None or any(s.ndim != 1 or s.vshape[0].const() is None for s in S):
            raise Unsupported("decision function of a symbolic number of variables")

        def cell(t, k):
            v = T.ZERO
            for m in range(int(S[k].vshape[0].const())):
                sm = S[k].get((T.num(m),))
                z = T.ZERO
                for j in range(int(p)):
                    z = T.add(z, T.mul(T.sub(x((t, T.num(j))), mu((T.num(k), T.num(j)))), R[k]((T.num(j), T.num(m)))))
                v = T.add(v, T.add(mulp(z, z, T.inv(sm)), T.log(sm)))
            return T.add(T.scale(v, Fraction(-1, 2)), T.log(pri((T.num(k),))))

        return DecisionValues(X.vshape[0], [(lambda k: lambda t: cell(t, k))(k) for k in range(len(self.classes_))])


def accuracy_score(y_true, y_pred, normalize=True, sample_weight=None):
    used("sklearn.metrics.accuracy_score")
    out = ctx().fresh_real("ACC")
    ctx().extra.setdefault("accuracy", []).append((y_true, y_pred, normalize, sample_weight, out))
    return out


class DecisionValues:
    def __init__(self, n, cols):
        self.n, self.cols = n, cols


def mulp(*a):
    r = a[0]
    for b in a[1:]:
        r = T.mul(r, b)
    return r


class LogisticRegression:
    """sklearn: .fit(X, y).coef_ is an (uninterpreted) function of the data, the labels and C; only the l1 penalty is known here."""

    def __init__(self, penalty="l2", *, dual=False, tol=1e-4, C=1.0, fit_intercept=True, intercept_scaling=1, class_weight=None, random_state=None, solver="lbfgs", max_iter=100, multi_class="auto", verbose=0, warm_start=False, n_jobs=None, l1_ratio=None):
        if penalty != "l1" or solver != "liblinear" or class_weight is not None or not fit_intercept:
            raise Unsupported("logistic regression with other settings")
        self.C, self.verbose = C, verbose

    def fit(self, X, y):
        X, y = as_arr(X), as_arr(y)
        c = ctx()
        c.extra.setdefault("logistic", []).append(self.verbose)
        C = as_arr(self.C).get(())
        self.coef_ = SArr.make((T.ONE, X.vshape[1]), lambda i: T.fapp("LOGIT", lam_of(X, 2)(()), lam_of(y, 1)(()), C, i[1]))
        return self


class Bunch(dict):
    def __init__(self, **k):
        super().__init__(k)

    def __getattr__(self, a):
        try:
            return self[a]
        except KeyError:
            raise AttributeError(a)

    def __setattr__(self, a, v):
        self[a] = v


def squareform(x, **k):
    raise Unsupported("squareform")


def binom(n, k):
    if k != 2:
        raise Unsupported("binom")
    return n * (n - 1) / 2


def tensordot(a, b, axes=2):
    """last axis of a with the first of b."""
    a, b = as_arr(a), as_arr(b)
    if axes != 1 or a.ndim < 1 or b.ndim < 1:
        raise Unsupported("tensordot axes")
    _same(a.vshape[-1], b.vshape[0])
    n = a.vshape[-1]
    ra, rb = a.reader(), b.reader()
    k = a.ndim - 1

    def body(i):
        s = T.fresh_name("s")
        T.RANGE[s] = n
        z = T.sym(s, INT)
        return T.mk_sum([(s, n)], T.mul(ra(tuple(i[:k]) + (z,)), rb((z,) + tuple(i[k:]))))

    return SArr.make(tuple(a.vshape[:-1]) + tuple(b.vshape[1:]), body)


class _Bar(list):
    def set_description(self, *a, **k):
        pass


def trange(n, *a, **k):
    """range with a progress bar."""
    from .shims import srange

    c = P(n).const()
    if c is None:
        return srange(n)
    return _Bar(range(int(c)))


def multigammaln(a, d):
    used("scipy.special.multigammaln")
    return wrap(T.fapp("multigammaln", P(a), P(d)))


def mvn_logpdf(x, mean, cov):
    """log density of a multivariate normal at each row of x: an uninterpreted function of row, mean and covariance."""
    used("scipy.stats.multivariate_normal.logpdf")
    x, mean, cov = as_arr(x), as_arr(mean), as_arr(cov)
    lm, lc = lam_of(mean, 1), lam_of(cov, 2)
    if mean.ndim != 1 or cov.ndim != 2 or x.ndim > 2:
        raise Unsupported("multivariate_normal.logpdf arguments")
    l = lam_of(x, 1)
    if x.ndim == 1:
        return wrap(T.fapp("mvn_logpdf", l(()), lm(()), lc(())))
    return SArr.make(x.vshape[:1], lambda i: T.fapp("mvn_logpdf", l(tuple(i)), lm(()), lc(())))


class _MVN:
    def __call__(self, mean=None, cov=1, allow_singular=False, seed=None):
        m = self

        class Frozen:
            def logpdf(self, x):
                return m.logpdf(x, mean, cov)

        return Frozen()

    @staticmethod
    def logpdf(x, mean=None, cov=1, allow_singular=False):
        if mean is None:
            mean = SArr.make((as_arr(cov).vshape[0],), lambda i: T.ZERO)
        return mvn_logpdf(x, mean, cov)


def _norm_logpdf(x, loc=0, scale=1):
    x, loc, scale = P(x), P(loc), P(scale)
    z = T.mul(T.sub(x, loc), T.inv(scale))
    return wrap(T.sub(T.neg(T.scale(T.mul(z, z), Fraction(1, 2))), T.log(T.mul(scale, T.sqrt(T.scale(P(PI), 2))))))


def _lognorm_logpdf(x, s, loc=0, scale=1):
    x, s, scale = T.sub(P(x), P(loc)), P(s), P(scale)
    z = T.mul(T.log(T.mul(x, T.inv(scale))), T.inv(s))
    return wrap(T.sub(T.neg(T.scale(T.mul(z, z), Fraction(1, 2))), T.log(T.mul(T.mul(x, s), T.sqrt(T.scale(P(PI), 2))))))


def _wishart_rvs(kind):
    def rvs(df, scale, size=1, random_state=None):
        """a stack of draws; for one draw the matrix alone (scipy squeezes; matrices of one variable are not modelled)."""
        if random_state is not None:
            raise Unsupported("rvs options")
        used("scipy.stats.%s.rvs" % kind)
        s = as_arr(scale)
        if s.ndim != 2 or isinstance(size, (tuple, list)):
            raise Unsupported("rvs of a vector scale")
        n = P(size)
        if n.const() is None and not ctx().decide(T.lt(T.ONE, n)):
            n = T.ONE
        return _draw(kind, (() if n.const() == 1 else (size,)) + tuple(s.vshape), (df, s.copy(), size))

    return rvs


class _Wish:
    def __init__(self, kind):
        self.rvs = _wishart_rvs(kind)

    def __call__(self, df=None, scale=None, seed=None):
        f = _Wish.__new__(_Wish)
        f.rvs = lambda size=1, random_state=None: self.rvs(df, scale, size, random_state)
        return f

    def __getattr__(self, n):
        raise Unsupported("scipy.stats wishart.%s" % n)


STATS_SP = Mod("scipy.stats", wishart=_Wish("wishart"), invwishart=_Wish("invwishart"), multivariate_normal=_MVN(), norm=Mod("scipy.stats.norm", logpdf=_norm_logpdf), lognorm=Mod("scipy.stats.lognorm", logpdf=_lognorm_logpdf))
SPECIAL = Mod("scipy.special", binom=binom, comb=binom, multigammaln=multigammaln)


class NxGraph:
    """a random undirected graph without loops: its adjacency matrix is symmetric with entries 0 and 1 and a zero diagonal."""

    def __init__(self, kind, n, params):
        c = ctx()
        a = c.fresh_array("ADJ", (P(n), P(n)), symmetric=True, dtype="i")
        r = a.reader()
        self.a = SArr.make(a.vshape, lambda i: T.ite(T.eq(i[0], i[1]), T.ZERO, r(i)), "i").copy()
        c.extra.setdefault("nx", []).append((kind, P(n), params, self.a.copy()))


class NxMatrix:
    def __init__(self, a):
        self.a = a

    def todense(self):
        return self.a.copy()

    toarray = todense


def _nx_graph(kind, args):
    def f(*a, **k):
        used("networkx random graphs")
        for n, v in zip(args, a):
            k[n] = v
        if set(k) - set(args) or "n" not in k:
            raise Unsupported("graph options")
        return NxGraph(kind, k.pop("n"), k)

    return f


_NXG = {
    "fast_gnp_random_graph": _nx_graph("erdos-renyi", ("n", "p")),
    "erdos_renyi_graph": _nx_graph("erdos-renyi", ("n", "p")),
    "gnp_random_graph": _nx_graph("erdos-renyi", ("n", "p")),
    "barabasi_albert_graph": _nx_graph("scale-free", ("n", "m")),
    "watts_strogatz_graph": _nx_graph("small-world", ("n", "k", "p")),
    "gnm_random_graph": _nx_graph("edges", ("n", "m")),
}
NX = Mod("networkx", random_graphs=Mod("networkx.random_graphs", **_NXG), generators=Mod("networkx.generators", random_graphs=Mod("networkx.generators.random_graphs", **_NXG)), adjacency_matrix=lambda g: NxMatrix(g.a), to_numpy_array=lambda g: g.a.copy(), **_NXG)


def build_modules():
    np = build_numpy()
    warn = Mod("warnings", warn=_warn, filterwarnings=lambda *a, **k: None, simplefilter=lambda *a, **k: None, catch_warnings=FakeErr)
    from .shims import srange, smap, szip

    import sys as _sys

    mods = {
        "networkx": NX,
        "sys": Mod("sys", maxsize=_sys.maxsize),
        "numpy": np,
        "numpy.linalg": linalg_np,
        "numpy.linalg.linalg": linalg_np,
        "numpy.random": random_np,
        "numpy.ma": np.ma,
        "scipy": Mod("scipy", linalg=linalg_sp, stats=STATS_SP, optimize=Mod("scipy.optimize"), special=SPECIAL),
        "scipy.linalg": linalg_sp,
        "scipy.sparse": Mod("scipy.sparse", issparse=lambda x: False),
        "scipy.stats": STATS_SP,
        "scipy.optimize": Mod("scipy.optimize"),
        "scipy.special": SPECIAL,
        "scipy.spatial.distance": Mod("scipy.spatial.distance", squareform=squareform),
        "sklearn.covariance": Mod(
            "sklearn.covariance", GraphicalLasso=GraphLassoBase, empirical_covariance=empirical_covariance, log_likelihood=log_likelihood
        ),
        "sklearn.utils.extmath": Mod("sklearn.utils.extmath", squared_norm=squared_norm, fast_logdet=fast_logdet),
        "sklearn.utils.validation": Mod(
            "sklearn.utils.validation", check_array=check_array, check_X_y=check_X_y, check_is_fitted=lambda *a, **k: None
        ),
        "sklearn.utils": Mod(
            "sklearn.utils",
            check_array=check_array,
            check_X_y=check_X_y,
            Bunch=Bunch,
            deprecated=lambda *a, **k: (lambda f: f),
            extmath=Mod("sklearn.utils.extmath", squared_norm=squared_norm, fast_logdet=fast_logdet),
        ),
        "sklearn.utils.deprecation": Mod("sklearn.utils.deprecation", deprecated=lambda *a, **k: (lambda f: f)),
        "sklearn.base": Mod("sklearn.base", BaseEstimator=BaseEstimator, RegressorMixin=type("RegressorMixin", (), {}), clone=mkstub("clone")),
        "sklearn.discriminant_analysis": Mod("sklearn.discriminant_analysis", QuadraticDiscriminantAnalysis=QuadraticDiscriminantAnalysis),
        "sklearn.utils.multiclass": Mod("sklearn.utils.multiclass", check_classification_targets=lambda y: None),
        "sklearn.metrics": Mod("sklearn.metrics", accuracy_score=accuracy_score),
        "sklearn.linear_model": Mod("sklearn.linear_model", LogisticRegression=LogisticRegression),
        "warnings": warn,
        "tqdm": Mod("tqdm", trange=trange),
        "six": Mod("six", moves=Mod("six.moves", range=srange, map=smap, zip=szip)),
        "six.moves": Mod("six.moves", range=srange, map=smap, zip=szip),
    }
    return mods


def _warn(msg, *a, **k):
    c = ctx()
    if c is not None:
        c.warnings.append(str(msg))
