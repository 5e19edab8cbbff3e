"""Symbolic Python scalars and numpy arrays."""
import builtins
from fractions import Fraction

import itertools

from . import terms as T
from .terms import Poly, Bool, Unsupported, INT, REAL

CTX = [None]


def ctx():
    return CTX[0]


class SBool:
    __slots__ = ("b",)
    __array_priority__ = 1000

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        if self.b.op == "true":
            return True
        if self.b.op == "false":
            return False
        return ctx().decide(self.b)

    def __and__(self, o):
        return SBool(T.band(self.b, B(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(T.bor(self.b, B(o)))

    __ror__ = __or__

    def __invert__(self):
        return SBool(T.bnot(self.b))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(T.iff(self.b, B(o)))
        return NotImplemented

    __hash__ = None

    def _num(self):
        return wrap(T.ite(self.b, T.ONE, T.ZERO), True)

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __repr__(self):
        return "SBool(%r)" % (self.b,)


def B(x):
    if isinstance(x, SBool):
        return x.b
    if isinstance(x, Bool):
        return x
    if isinstance(x, bool):
        return T.TRUE if x else T.FALSE
    if isinstance(x, (SNum, int, float, Poly)):
        return T.ne(P(x), T.ZERO)
    if isinstance(x, SArr) and x.ndim == 0:
        return B(x.item())
    raise Unsupported("not a boolean: %r" % (type(x),))


def wrap(p, isint=False):
    c = p.const()
    if c is not None and isint and c.denominator == 1:
        return int(c)
    return SNum(p, isint)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, SNum):
        return x.p
    if isinstance(x, (bool, int, float, Fraction)):
        return T.num(x)
    if isinstance(x, SBool):
        return T.ite(x.b, T.ONE, T.ZERO)
    if isinstance(x, SArr) and x.ndim == 0:
        return P(x.item())
    if isinstance(x, Bool):
        return T.ite(x, T.ONE, T.ZERO)
    raise Unsupported("not a number: %s" % type(x).__name__)


def isint(x):
    return isinstance(x, (bool, int)) or (isinstance(x, SNum) and x.isint)


def _scalar(x):
    return isinstance(x, (SNum, int, float, bool, Fraction, SBool))


class SNum:
    __slots__ = ("p", "isint")
    __array_priority__ = 1000

    def __init__(self, p, isint=False):
        self.p, self.isint = p, isint

    # numpy scalar API
    ndim = 0
    shape = ()
    size = 1
    dtype = "float64"

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    mean = sum
    item = sum

    @property
    def T(self):
        return self

    def astype(self, *a):
        return self

    def _bin(self, o, f, fl=None):
        if isinstance(o, SArr):
            return NotImplemented
        if not _scalar(o):
            return NotImplemented
        return wrap(f(self.p, P(o)), self.isint and isint(o))

    def __add__(self, o):
        return self._bin(o, T.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, T.sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: T.sub(b, a))

    def __mul__(self, o):
        return self._bin(o, T.mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, SArr) or not _scalar(o):
            return NotImplemented
        return wrap(div(self.p, P(o)))

    def __rtruediv__(self, o):
        if isinstance(o, SArr) or not _scalar(o):
            return NotImplemented
        return wrap(div(P(o), self.p))

    def __floordiv__(self, o):
        return wrap(T.idiv(self.p, P(o)), True)

    def __mod__(self, o):
        return wrap(T.mod(self.p, P(o)), True)

    def __neg__(self):
        return wrap(T.neg(self.p), self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(T.absv(self.p), self.isint)

    def __pow__(self, n):
        return wrap(power(self.p, n), self.isint)

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __lt__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return SBool(T.lt(self.p, P(o)))

    def __le__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return SBool(T.le(self.p, P(o)))

    def __gt__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return SBool(T.lt(P(o), self.p))

    def __ge__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return SBool(T.le(P(o), self.p))

    def __eq__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        if not _scalar(o):
            return False
        return SBool(T.eq(self.p, P(o)))

    def __ne__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        if not _scalar(o):
            return True
        return SBool(T.ne(self.p, P(o)))

    __hash__ = None

    def __bool__(self):
        return bool(SBool(T.ne(self.p, T.ZERO)))

    def __index__(self):
        c = self.p.const()
        if c is not None and c.denominator == 1:
            return int(c)
        fin = T.FINITE.get(self.p.key)
        if fin is not None:
            for k in range(fin[0], fin[1] - 1):
                if bool(SBool(T.eq(self.p, T.num(k)))):
                    return k
            return fin[1] - 1
        raise Unsupported("symbolic value used where a concrete integer is needed")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        c = self.p.const()
        if c is not None:
            return float(c)
        raise Unsupported("symbolic value converted to float")

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "SNum(%r)" % (self.p,)


def div(a, b):
    c = ctx()
    if b.const() is None and c is not None:
        c.note_div(b)
    if b.const() == 0:
        raise ZeroDivisionError("division by zero")
    return T.mul(a, T.inv(b))


def power(p, n):
    if isinstance(n, SNum):
        c = n.p.const()
        if c is None:
            raise Unsupported("symbolic exponent")
        n = c
    n = Fraction(repr(n)) if isinstance(n, float) else Fraction(n)
    if n.denominator == 1:
        if n < 0:
            return div(T.ONE, T.power(p, int(-n)))
        return T.power(p, int(n))
    if n == Fraction(1, 2):
        return T.sqrt(p)
    raise Unsupported("fractional power")


# ---------------------------------------------------------------- arrays
class Buffer:
    __slots__ = ("shape", "get", "id", "label", "dtype", "writes")
    _n = [0]

    def __init__(self, shape, get, dtype="f", label=None):
        self.shape, self.get, self.dtype, self.label = tuple(shape), get, dtype, label
        Buffer._n[0] += 1
        self.id = Buffer._n[0]
        self.writes = 0


def memo(fn):
    cache = {}

    def g(idx):
        k = tuple(i.key for i in idx)
        r = cache.get(k)
        if r is None:
            r = fn(idx)
            cache[k] = r
        return r

    return g


def dim(x):
    """Python dim -> Poly."""
    return P(x)


def idx_syms(shape, p="i"):
    out = []
    for d in shape:
        n = T.fresh_name(p)
        T.RANGE[n] = d
        out.append(T.sym(n, INT))
    return tuple(out)


class SArr:
    __slots__ = ("buf", "vshape", "vmap", "mask", "skip")
    __array_priority__ = 2000

    def __init__(self, buf, vshape=None, vmap=None):
        self.buf, self.skip = buf, None
        if vmap is None:
            vshape = buf.shape
            vmap = tuple(("ax", k, T.ZERO, 1) for k in range(len(buf.shape)))
        self.vshape, self.vmap = tuple(vshape), tuple(vmap)

    # ---- construction
    @staticmethod
    def make(shape, fn, dtype="f", label=None):
        return SArr(Buffer([P(d) for d in shape], memo(fn), dtype, label))

    # ---- basic attributes
    @property
    def shape(self):
        return tuple(wrap(d, True) for d in self.vshape)

    @property
    def ndim(self):
        return len(self.vshape)

    @property
    def size(self):
        return wrap(T.mul(T.ONE, *self.vshape), True)

    @property
    def dtype(self):
        return {"f": "float64", "i": "int64", "b": "bool"}[self.buf.dtype]

    @property
    def kind(self):
        return self.buf.dtype

    @property
    def T(self):
        return self.transpose()

    def __len__(self):
        if not self.vshape:
            raise TypeError("len() of unsized object")
        c = self.vshape[0].const()
        if c is None:
            raise Unsupported("len() of symbolic dimension outside shim")
        return int(c)

    # ---- element access
    def bidx(self, idx):
        out = []
        for m in self.vmap:
            if m[0] == "fix":
                out.append(m[1])
            else:
                _, k, off, st = m
                out.append(T.add(idx[k], off) if st == 1 else T.sub(off, idx[k]))
        return tuple(out)

    def get(self, idx):
        return self.buf.get(self.bidx(idx))

    def reader(self):
        """Immutable snapshot function of the current contents."""
        g = self.buf.get
        return memo(lambda idx: g(self.bidx(idx)))

    def rnum(self):
        r = self.reader()
        if self.buf.dtype == "b":
            return lambda idx: T.ite(r(idx), T.ONE, T.ZERO)
        return r

    def item(self, *a):
        if all(d.const() == 1 for d in self.vshape) and not a:
            return self._wrap(self.get((T.ZERO,) * self.ndim))
        raise Unsupported("item()")

    def _wrap(self, v):
        if isinstance(v, Bool):
            return SBool(v)
        return wrap(v, self.buf.dtype == "i")

    def assign(self, value):
        """value: fn(view idx) -> term."""
        old = self.buf.get
        vm, vs = self.vmap, self.vshape
        bshape = self.buf.shape

        def new(b):
            conds = []
            v = {}
            for j, m in enumerate(vm):
                if m[0] == "fix":
                    conds.append(T.eq(b[j], m[1]))
                    continue
                _, k, off, st = m
                x = T.sub(b[j], off) if st == 1 else T.sub(off, b[j])
                if k in v:
                    conds.append(T.eq(x, v[k]))
                else:
                    v[k] = x
                    if not (st == 1 and off == T.ZERO):
                        conds.append(T.le(T.ZERO, x))
                    if not (st == 1 and T.add(vs[k], off) == bshape[j]):
                        conds.append(T.lt(x, vs[k]))
            c = T.band(*conds)
            if c.op == "false":
                return old(b)
            vi = tuple(v.get(k, T.ZERO) for k in range(len(vs)))
            val = value(vi)
            if c.op == "true":
                return val
            o = old(b)
            if isinstance(val, Bool):
                return T.bor(T.band(c, val), T.band(T.bnot(c), o))
            return T.ite(c, val, o)

        self.buf.get = memo(new)
        self.buf.writes += 1
        ctx().note_write(self.buf)

    # ---- views
    def transpose(self, *axes):
        n = self.ndim
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(range(n))[::-1]
        axes = tuple(int(a) % n for a in axes)
        inv = {a: k for k, a in enumerate(axes)}
        vmap = [m if m[0] == "fix" else ("ax", inv[m[1]], m[2], m[3]) for m in self.vmap]
        return SArr(self.buf, [self.vshape[a] for a in axes], vmap)

    def swapaxes(self, a, b):
        n = self.ndim
        ax = list(range(n))
        a, b = a % n, b % n
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def diag_view(self, axis1=-2, axis2=-1):
        n = self.ndim
        a1, a2 = axis1 % n, axis2 % n
        rest = [k for k in range(n) if k not in (a1, a2)]
        d1, d2 = self.vshape[a1], self.vshape[a2]
        if d1 != d2:
            if not bool(SBool(T.eq(d1, d2))):
                raise Unsupported("diagonal of a non-square array")
        new = {k: i for i, k in enumerate(rest)}
        new[a1] = new[a2] = len(rest)
        vmap = [m if m[0] == "fix" else ("ax", new[m[1]], m[2], m[3]) for m in self.vmap]
        return SArr(self.buf, [self.vshape[k] for k in rest] + [d1], vmap)

    def broadcast_to(self, shape):
        """Read-only closure broadcast to Poly shape."""
        r = self.rnum() if self.kind != "b" else self.reader()
        k = len(shape) - self.ndim
        src = self.vshape

        def f(idx):
            return r(tuple(T.ZERO if (s.const() == 1 and shape[k + i].const() != 1) else idx[k + i] for i, s in enumerate(src)))

        return f

    def _norm_index(self, i, d):
        """int index -> Poly in range, raising IndexError path when needed."""
        p = P(i)
        c = p.const()
        if c is not None and c < 0:
            q = T.add(d, p)
        elif c is not None:
            q = p
        else:
            # symbolic index: negative ones wrap
            if T.in_range_syntactic(p, d):
                return p
            if bool(SBool(T.lt(p, T.ZERO))):
                q = T.add(d, p)
            else:
                q = p
        ok = T.band(T.le(T.ZERO, q), T.lt(q, d))
        if ok.op != "true" and not T.in_range_syntactic(q, d):
            if not bool(SBool(ok)):
                raise IndexError("index out of bounds")
        return q

    def _slice(self, s, d):
        """-> (off, step, length) ; step +-1."""
        st = 1 if s.step is None else s.step
        if isinstance(st, SNum):
            st = st.__index__()
        if st == -1 and s.start is None and s.stop is None:
            return T.sub(d, T.ONE), -1, d
        if st != 1:
            raise Unsupported("strided slice")

        def bound(x, dflt):
            if x is None:
                return dflt
            p = P(x)
            c = p.const()
            if c is not None:
                neg = c < 0
            elif isinstance(x, SNum):
                neg = bool(SBool(T.lt(p, T.ZERO)))
            if neg:
                q = T.add(d, p)
                # clip at 0
                if q.const() is not None:
                    return T.num(max(q.const(), 0))
                if ctx().entails(T.le(T.ZERO, q)):
                    return q
                return T.ZERO if not bool(SBool(T.le(T.ZERO, q))) else q
            if p.const() is not None and d.const() is not None:
                return T.num(min(p.const(), d.const()))
            if p == d or p.const() == 0 or ctx().entails(T.le(p, d)):
                return p
            return p if bool(SBool(T.le(p, d))) else d

        lo, hi = bound(s.start, T.ZERO), bound(s.stop, d)
        ln = T.sub(hi, lo)
        if ln.const() is not None:
            ln = T.num(max(ln.const(), 0))
        elif not ctx().entails(T.le(T.ZERO, ln)):
            if not bool(SBool(T.le(T.ZERO, ln))):
                ln = T.ZERO
        return lo, 1, ln

    def view(self, key):
        if isinstance(key, Nonzero):
            return None
        if not isinstance(key, tuple):
            key = (key,)
        nreal = builtins.sum(1 for k in key if k is not None and k is not Ellipsis)
        if nreal > self.ndim:
            raise IndexError("too many indices for array")
        if Ellipsis not in [k for k in key if k is Ellipsis]:
            key = key + (Ellipsis,)
        out = []
        for k in key:
            if k is Ellipsis:
                out.extend([slice(None)] * (self.ndim - nreal))
            else:
                out.append(k)
        # process
        ax = 0
        newshape = []
        trans = {}  # old axis -> ('fix',p) | ('ax',newk,off,step)
        for k in out:
            if k is None:
                newshape.append(T.ONE)
                continue
            d = self.vshape[ax]
            if isinstance(k, slice):
                off, st, ln = self._slice(k, d)
                trans[ax] = ("ax", len(newshape), off, st)
                newshape.append(ln)
            elif isinstance(k, (int, SNum)) and not isinstance(k, bool):
                trans[ax] = ("fix", self._norm_index(k, d))
            elif isinstance(k, SArr) and k.ndim == 0 and k.kind != "b":
                trans[ax] = ("fix", self._norm_index(wrap(P(k), True), d))
            else:
                return None
            ax += 1
        vmap = []
        for m in self.vmap:
            if m[0] == "fix":
                vmap.append(m)
                continue
            _, k, off, st = m
            t = trans[k]
            if t[0] == "fix":
                vmap.append(("fix", T.add(t[1], off) if st == 1 else T.sub(off, t[1])))
            else:
                _, nk, o2, s2 = t
                # old index = nk*s2 + o2 ; buffer = st*(old) + off
                if st == 1:
                    vmap.append(("ax", nk, T.add(off, o2), s2))
                else:
                    vmap.append(("ax", nk, T.sub(off, o2), -s2))
        return SArr(self.buf, newshape, vmap)

    def __getitem__(self, key):
        v = self.view(key)
        if v is not None:
            if v.ndim == 0:
                return v.item()
            return v
        return fancy_get(self, key)

    def __setitem__(self, key, value):
        v = self.view(key)
        if v is None:
            return fancy_set(self, key, value)
        value = as_arr(value)
        vs = value.vshape
        # drop leading ones
        while len(vs) > v.ndim and vs[0].const() == 1:
            value = value[0] if value.ndim > 1 else as_arr(value.item())
            value = as_arr(value)
            vs = value.vshape
        full = broadcast_shapes(v.vshape, vs)
        if len(full) != len(v.vshape):
            raise ValueError("could not broadcast input array")
        f = value.broadcast_to(v.vshape)
        if v.kind == "b" and value.kind != "b":
            g = f
            f = lambda i: T.ne(g(i), T.ZERO)  # noqa
        elif v.kind != "b" and value.kind == "b":
            f = value.broadcast_to(v.vshape)
            g2 = f
            f = lambda i: T.ite(g2(i), T.ONE, T.ZERO)  # noqa
        elif v.kind == "i" and value.kind == "f":
            raise Unsupported("float written into an integer array")
        v.assign(f)

    @property
    def flat(self):
        return Flat(self)

    def __iter__(self):
        c = self.vshape[0].const()
        if c is None:
            raise Unsupported("native iteration over a symbolic dimension")
        return iter([self[i] for i in range(int(c))])

    # ---- arithmetic
    def __add__(self, o):
        if self.kind == "b" and isinstance(o, SArr) and o.kind == "b" and not isinstance(o, Masked):
            return bool2(T.bor, self, o)  # numpy: the sum of booleans is their disjunction
        return ew2(T.add, self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return ew2(T.sub, self, o)

    def __rsub__(self, o):
        return ew2(T.sub, o, self)

    def __mul__(self, o):
        if self.kind == "b" and isinstance(o, SArr) and o.kind == "b" and not isinstance(o, Masked):
            return bool2(T.band, self, o)
        return ew2(T.mul, self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return ew2(div, self, o, dtype="f")

    def __rtruediv__(self, o):
        return ew2(div, o, self, dtype="f")

    def __floordiv__(self, o):
        return ew2(T.idiv, self, o)

    def __mod__(self, o):
        return ew2(T.mod, self, o)

    def __neg__(self):
        return ew1(T.neg, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ew1(T.absv, self)

    def __pow__(self, n):
        return ew1(lambda p: power(p, n), self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __iadd__(self, o):
        return inplace(T.add, self, o)

    def __isub__(self, o):
        return inplace(T.sub, self, o)

    def __imul__(self, o):
        return inplace(T.mul, self, o)

    def __itruediv__(self, o):
        return inplace(div, self, o)

    def __lt__(self, o):
        return cmp2(T.lt, self, o)

    def __le__(self, o):
        return cmp2(T.le, self, o)

    def __gt__(self, o):
        return cmp2(lambda a, b: T.lt(b, a), self, o)

    def __ge__(self, o):
        return cmp2(lambda a, b: T.le(b, a), self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return cmp2(T.eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return cmp2(T.ne, self, o)

    __hash__ = None

    def __and__(self, o):
        return bool2(T.band, self, o)

    def __or__(self, o):
        return bool2(T.bor, self, o)

    def __invert__(self):
        r = self.reader()
        return SArr.make(self.vshape, lambda i: T.bnot(r(i)), "b")

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.item())
        if all(d.const() == 1 for d in self.vshape):
            return bool(self._wrap(self.get((T.ZERO,) * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    # ---- methods
    def copy(self, *a, **k):
        r = self.reader()
        return SArr.make(self.vshape, r, self.kind)

    def astype(self, t, *a, **k):
        r = self.rnum()
        ts = getattr(t, "__name__", str(t))
        if "bool" in ts:
            return SArr.make(self.vshape, lambda i: T.ne(r(i), T.ZERO), "b")
        if "int" in ts:
            if self.kind == "f":
                raise Unsupported("astype(int) of floats")
            return SArr.make(self.vshape, r, "i")
        return SArr.make(self.vshape, r, "f")

    def sum(self, axis=None, keepdims=False, **k):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False):
        return reduce_mean(self, axis, keepdims)

    def dot(self, o):
        return dot(self, o)

    def filled(self, *a):
        return self.copy()  # masked arrays here never carry a mask

    def ravel(self, *a):
        return reshape(self, (-1,))

    def flatten(self, *a):
        return reshape(self, (-1,)).copy()

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def diagonal(self, offset=0, axis1=0, axis2=1):
        return self.diag_view(axis1, axis2)

    def fill(self, v):
        p = P(v)
        self.assign(lambda i: p)

    def var(self, axis=None, ddof=0):
        if ddof:
            raise Unsupported("var options")
        m = self.mean(axis=axis)
        return (self * self).mean(axis=axis) - m * m

    def max(self, axis=None):
        return reduce_named("max", self, axis)

    def min(self, axis=None):
        return reduce_named("min", self, axis)

    def any(self, axis=None):
        return reduce_any(self, axis)

    def all(self, axis=None):
        return reduce_all(self, axis)

    def squeeze(self, *a):
        key = tuple(0 if d.const() == 1 else slice(None) for d in self.vshape)
        return self[key]

    def tolist(self):
        return list(self)

    def __repr__(self):
        return "SArr%r" % (self.shape,)


class Flat:
    def __init__(self, a):
        self.a = a

    def _diag(self, key):
        a = self.a
        if isinstance(key, slice) and key.start is None and key.stop is None and key.step is not None and a.ndim == 2:
            n = a.vshape[1]
            if P(key.step) == T.add(n, T.ONE):
                return a.diag_view()
        raise Unsupported("flat indexing")

    def __getitem__(self, key):
        return self._diag(key)

    def __setitem__(self, key, v):
        d = self._diag(key)
        d[...] = v


class Masked(SArr):
    """X[mask]: selection of rows by a boolean vector of symbolic length."""

    __slots__ = ("base", "m")

    def __init__(self, base, m):
        self.base, self.m = base, m
        n = base.vshape[0]
        r = m.reader()
        k = T.fresh_name("k")
        T.RANGE[k] = n
        cnt = T.mk_sum([(k, n)], T.ite(r((T.sym(k, INT),)), T.ONE, T.ZERO))
        sel = base.rnum()

        def fn(idx):
            raise Unsupported("element of a masked selection")

        SArr.__init__(self, Buffer((cnt,) + base.vshape[1:], fn, base.kind))
        self.mask = None

    def mapped(self, f):
        """Elementwise transform of base rows keeping the mask."""
        return Masked(f(self.base), self.m)


def as_arr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, SBool):
        return SArr.make((), lambda i: x.b, "b")
    if isinstance(x, bool):
        b = B(x)
        return SArr.make((), lambda i: b, "b")
    if isinstance(x, (SNum, int, float, Fraction)):
        p = P(x)
        return SArr.make((), lambda i: p, "i" if isint(x) else "f")
    if isinstance(x, (list, tuple)):
        els = [as_arr(e) for e in x]
        if not els:
            return SArr.make((0,), lambda i: T.ZERO)
        sh = els[0].vshape
        for e in els[1:]:
            if len(e.vshape) != len(sh):
                raise ValueError("setting an array element with a sequence (inhomogeneous shape)")
            for d, f in zip(e.vshape, sh):
                if d != f and not bool(SBool(T.eq(d, f))):
                    raise ValueError("setting an array element with a sequence (inhomogeneous shape)")
        kind = "b" if all(e.kind == "b" for e in els) else ("i" if all(e.kind in "ib" for e in els) else "f")
        rs = [e.reader() if kind == "b" else e.rnum() for e in els]

        def fn(idx):
            c = idx[0].const()
            if c is not None:
                return rs[int(c) if 0 <= c < len(rs) else -1](idx[1:])  # (outside: a branch that is not taken)
            v = rs[-1](idx[1:])
            for k in range(len(rs) - 2, -1, -1):
                cnd = T.eq(idx[0], T.num(k))
                w = rs[k](idx[1:])
                v = T.ite(cnd, w, v) if kind != "b" else T.bor(T.band(cnd, w), T.band(T.bnot(cnd), v))
            return v

        return SArr.make((T.num(len(els)),) + sh, fn, kind)
    from .seq import SymSeq

    if isinstance(x, SymSeq):
        return x.to_array()
    if isinstance(x, range):
        x = list(x)
        return as_arr(x)
    raise Unsupported("cannot make an array from %s" % type(x).__name__)


def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        cur = T.ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if d.const() == 1:
                continue
            if cur.const() == 1:
                cur = d
            elif cur != d:
                if not bool(SBool(T.eq(cur, d))):
                    raise ValueError("operands could not be broadcast together with shapes %s" % (shapes,))
        out.append(cur)
    return tuple(out)


def _res(shape, fn, dtype):
    a = SArr.make(shape, fn, dtype)
    if not shape:
        return a.item()
    return a


def ew1(f, a, dtype=None):
    if isinstance(a, Masked):
        return a.mapped(lambda b: ew1(f, b, dtype))
    a = as_arr(a)
    r = a.rnum()
    return _res(a.vshape, lambda i: f(r(i)), dtype or (a.kind if a.kind != "b" else "i"))


def _maskpair(f, a, b):
    """Elementwise op where one side is a masked selection."""
    if isinstance(a, Masked) and isinstance(b, Masked):
        if a.m is b.m or a.m.reader()((T.sym("zz", INT),)) == b.m.reader()((T.sym("zz", INT),)):
            return Masked(f(a.base, b.base), a.m)
        raise Unsupported("two different masks")
    if isinstance(a, Masked):
        bb = as_arr(b)
        if bb.ndim >= a.ndim and bb.vshape[-a.ndim].const() != 1:
            raise Unsupported("mask broadcast")
        return Masked(f(a.base, b), a.m)
    bb = as_arr(a)
    if bb.ndim >= b.ndim and bb.vshape[-b.ndim].const() != 1:
        raise Unsupported("mask broadcast")
    return Masked(f(a, b.base), b.m)


def ew2(f, a, b, dtype=None):
    if isinstance(a, Masked) or isinstance(b, Masked):
        return _maskpair(lambda x, y: ew2(f, x, y, dtype), a, b)
    try:
        a, b = as_arr(a), as_arr(b)
    except Unsupported:
        if b is None or isinstance(b, str) or a is None or isinstance(a, str):
            raise TypeError("unsupported operand")
        raise
    sh = broadcast_shapes(a.vshape, b.vshape)
    fa, fb = _numcast(a, sh), _numcast(b, sh)
    if dtype is None:
        dtype = "f" if "f" in (a.kind, b.kind) else "i"
    return _res(sh, lambda i: f(fa(i), fb(i)), dtype)


def _numcast(a, sh):
    f = a.broadcast_to(sh)
    if a.kind == "b":
        return lambda i: T.ite(f(i), T.ONE, T.ZERO)
    return f


def cmp2(f, a, b):
    if isinstance(a, Masked) or isinstance(b, Masked):
        return _maskpair(lambda x, y: cmp2(f, x, y), a, b)
    a, b = as_arr(a), as_arr(b)
    sh = broadcast_shapes(a.vshape, b.vshape)
    fa, fb = _numcast(a, sh), _numcast(b, sh)
    return _res(sh, lambda i: f(fa(i), fb(i)), "b")


def _boolcast(a, sh):
    f = a.broadcast_to(sh)
    if a.kind != "b":
        return lambda i: T.ne(f(i), T.ZERO)
    return f


def bool2(f, a, b):
    a, b = as_arr(a), as_arr(b)
    sh = broadcast_shapes(a.vshape, b.vshape)
    fa, fb = _boolcast(a, sh), _boolcast(b, sh)
    return _res(sh, lambda i: f(fa(i), fb(i)), "b")


def inplace(f, a, o):
    if isinstance(a, Masked):
        raise Unsupported("in-place on a masked selection copy")
    b = as_arr(o)
    if isinstance(b, Masked):
        raise Unsupported("in-place with mask")
    sh = broadcast_shapes(a.vshape, b.vshape)
    if len(sh) != len(a.vshape):
        raise ValueError("non-broadcastable output operand")
    if a.kind == "i" and (b.kind == "f" or f is div):
        raise TypeError("Cannot cast ufunc output from float64 to int64")
    r = a.rnum()
    fb = _numcast(b, a.vshape)
    a.assign(lambda i: f(r(i), fb(i)))
    return a


def _axes(axis, n):
    if axis is None:
        return list(range(n))
    if isinstance(axis, (tuple, list)):
        return [int(x) % n for x in axis]
    if not (-n <= int(axis) < n):
        raise ValueError("axis out of bounds")
    return [int(axis) % n]


def reduce_sum(a, axis=None, keepdims=False, transform=None):
    a0 = a
    if isinstance(a, Masked):
        base, m = a.base, a.m
        ax = _axes(axis, base.ndim)
        if 0 in ax:
            r, mm = base.rnum(), m.reader()
            w = SArr.make(base.vshape, lambda i: T.mul(T.ite(mm((i[0],)), T.ONE, T.ZERO), r(i)))
            return reduce_sum(w, axis, keepdims)
        return Masked(reduce_sum(base, axis, keepdims), m)
    a = as_arr(a)
    r = a.rnum()
    n = a.ndim
    ax = sorted(set(_axes(axis, n)))
    keep = [k for k in range(n) if k not in ax]
    if keepdims:
        shape = [T.ONE if k in ax else a.vshape[k] for k in range(n)]
    else:
        shape = [a.vshape[k] for k in keep]

    def fn(idx):
        full = [None] * n
        if keepdims:
            for k in keep:
                full[k] = idx[k]
        else:
            for j, k in enumerate(keep):
                full[k] = idx[j]
        bs = []
        for k in ax:
            t = T.fresh_name("k")
            T.RANGE[t] = a.vshape[k]
            full[k] = T.sym(t, INT)
            bs.append((t, a.vshape[k]))
        return T.mk_sum(bs, r(tuple(full)))

    if a.kind == "b" and not keep and not keepdims:
        c = ctx()
        if c is not None and "abstract_counts" in c.extra:
            return c.abstract_count(fn(()))
    return _res(shape, fn, "i" if a.kind in "ib" else "f")


def reduce_mean(a, axis=None, keepdims=False):
    s = reduce_sum(a, axis, keepdims)
    n = T.ONE
    vs = a.vshape if isinstance(a, SArr) else as_arr(a).vshape
    for k in _axes(axis, len(vs)):
        n = T.mul(n, vs[k])
    return s / wrap(n, True)


def lam_of(a, axes_last):
    """fn(leading idx) -> Lam over the trailing `axes_last` axes."""
    r = a.reader()
    sh = a.vshape
    k = len(sh) - axes_last

    def f(lead):
        tmp = [T.fresh_name("q") for _ in range(axes_last)]
        for t, d in zip(tmp, sh[k:]):
            T.RANGE[t] = d
        body = r(tuple(lead) + tuple(T.sym(t, INT) for t in tmp))
        return T.Lam(tmp, sh[k:], body)

    return f


def _prod(v):
    out = 1
    for x in v:
        out *= int(x)
    return out


def reduce_named(name, a, axis=None):
    """max/min... as uninterpreted reductions (with small concrete unrolling)."""
    a = as_arr(a)
    n = a.ndim
    ax = sorted(set(_axes(axis, n)))
    r = a.rnum()
    if len(ax) == 1 and a.vshape[ax[0]].const() is not None and name in ("max", "min"):
        m = int(a.vshape[ax[0]].const())
        f = T.maxv if name == "max" else T.minv
        if m == 0:
            raise ValueError("zero-size array to reduction operation")

        def fn(idx):
            idx = list(idx)
            vals = [r(tuple(idx[: ax[0]] + [T.num(q)] + idx[ax[0] :])) for q in range(m)]
            v = vals[0]
            for w in vals[1:]:
                v = f(v, w)
            return v

        return _res([a.vshape[k] for k in range(n) if k not in ax], fn, a.kind)
    keep = [k for k in range(n) if k not in ax]
    dims = [a.vshape[k].const() for k in ax]
    if len(ax) > 1 and not keep and name in ("max", "min") and None not in dims and 0 < _prod(dims) <= 64:
        import itertools

        f = T.maxv if name == "max" else T.minv
        vals = [r(tuple(T.num(k) for k in i)) for i in itertools.product(*[range(int(d)) for d in dims])]
        v = vals[0]
        for w in vals[1:]:
            v = f(v, w)
        return _res([], lambda i: v, a.kind)

    def fn(idx):
        tmp = [T.fresh_name("q") for _ in ax]
        full = [None] * n
        for j, k in enumerate(keep):
            full[k] = idx[j]
        for t, k in zip(tmp, ax):
            T.RANGE[t] = a.vshape[k]
            full[k] = T.sym(t, INT)
        return T.fapp("r" + name, T.Lam(tmp, [a.vshape[k] for k in ax], r(tuple(full))))

    return _res([a.vshape[k] for k in keep], fn, a.kind)


def _reduce_q(a, axis, isall):
    a = as_arr(a)
    n = a.ndim
    ax = sorted(set(_axes(axis, n)))
    keep = [k for k in range(n) if k not in ax]
    r = _boolcast(a, a.vshape)
    dims = [a.vshape[k].const() for k in ax]
    small = None
    if ax and all(v is not None for v in dims):
        m = 1
        for v in dims:
            m *= int(v)
        if m <= 16:
            small = list(itertools.product(*[range(int(v)) for v in dims]))

    def fn(idx):
        if small is not None:  # finitely many entries: spelled out
            out = []
            for pt in small:
                full = [None] * n
                for j, k in enumerate(keep):
                    full[k] = idx[j]
                for v, k in zip(pt, ax):
                    full[k] = T.num(v)
                out.append(r(tuple(full)))
            return T.band(*out) if isall else T.bor(*out)
        tmp = [T.fresh_name("q") for _ in ax]
        full = [None] * n
        for j, k in enumerate(keep):
            full[k] = idx[j]
        for t, k in zip(tmp, ax):
            T.RANGE[t] = a.vshape[k]
            full[k] = T.sym(t, INT)
        b = r(tuple(full))
        if isall:
            return T.forall(tmp, [a.vshape[k] for k in ax], b)
        return T.bnot(T.forall(tmp, [a.vshape[k] for k in ax], T.bnot(b)))

    return _res([a.vshape[k] for k in keep], fn, "b")


def reduce_all(a, axis=None):
    return _reduce_q(a, axis, True)


def reduce_any(a, axis=None):
    return _reduce_q(a, axis, False)


def contract_sum(dimp, f):
    t = T.fresh_name("k")
    T.RANGE[t] = dimp
    return T.mk_sum([(t, dimp)], f(T.sym(t, INT)))


def _same(d, e):
    if d != e and not bool(SBool(T.eq(d, e))):
        raise ValueError("shapes not aligned")


def _masked_T_dot(a, b):
    raise Unsupported("dot of masked selection")


def dot(a, b):
    if isinstance(a, (SNum, int, float)) or isinstance(b, (SNum, int, float)):
        return a * b
    a, b = as_arr(a), as_arr(b)
    if isinstance(a, Masked) or isinstance(b, Masked):
        if isinstance(a, Masked) and not isinstance(b, Masked):
            return Masked(dot(a.base, b), a.m)
        return _masked_T_dot(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    ra, rb = a.rnum(), b.rnum()
    if b.ndim == 1:
        _same(a.vshape[-1], b.vshape[0])
        return _res(a.vshape[:-1], lambda i: contract_sum(a.vshape[-1], lambda k: T.mul(ra(i + (k,)), rb((k,)))), "f")
    _same(a.vshape[-1], b.vshape[-2])
    na = a.ndim - 1
    shape = a.vshape[:-1] + b.vshape[:-2] + b.vshape[-1:]
    return _res(
        shape,
        lambda i: contract_sum(a.vshape[-1], lambda k: T.mul(ra(i[:na] + (k,)), rb(i[na:-1] + (k,) + i[-1:]))),
        "f",
    )


def matmul(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    if a.ndim < 2 or b.ndim < 2:
        raise Unsupported("matmul with vector batch")
    _same(a.vshape[-1], b.vshape[-2])
    batch = broadcast_shapes(a.vshape[:-2], b.vshape[:-2])
    n = len(batch)
    fa = a.broadcast_to(batch + a.vshape[-2:])
    fb = b.broadcast_to(batch + b.vshape[-2:])
    return _res(
        batch + (a.vshape[-2], b.vshape[-1]),
        lambda i: contract_sum(a.vshape[-1], lambda k: T.mul(fa(i[:n] + (i[n], k)), fb(i[:n] + (k, i[n + 1])))),
        "f",
    )


def reshape(a, shape):
    a = as_arr(a)
    sh = [None if (isinstance(s, int) and s == -1) else P(s) for s in shape]
    tot = T.mul(T.ONE, *a.vshape)
    if None in sh:
        rest = T.mul(T.ONE, *[s for s in sh if s is not None])
        q = T.mul(tot, T.inv(rest)) if rest.const() != 0 else None
        sh = [q if s is None else s for s in sh]
    if len(sh) == a.ndim and all(x == y for x, y in zip(sh, a.vshape)):
        return SArr(a.buf, a.vshape, a.vmap)
    # drop / insert ones only
    core = [d for d in a.vshape if d.const() != 1]
    core2 = [d for d in sh if d.const() != 1]
    r = a.reader()
    if len(core) == len(core2) and all(x == y for x, y in zip(core, core2)):
        pos = [k for k, d in enumerate(a.vshape) if d.const() != 1]
        pos2 = [k for k, d in enumerate(sh) if d.const() != 1]

        def fn(idx):
            full = [T.ZERO] * a.ndim
            for p, p2 in zip(pos, pos2):
                full[p] = idx[p2]
            return r(tuple(full))

        return SArr.make(sh, fn, a.kind)
    if a.ndim == 2 and len(sh) == 1:
        m = a.vshape[1]
        return SArr.make([tot], lambda i: r((T.idiv(i[0], m), T.mod(i[0], m))), a.kind)
    raise Unsupported("reshape %s -> %s" % (a.shape, shape))


class Nonzero(tuple):
    """np.where(mask) / np.nonzero(mask): only usable as an index."""

    def __new__(cls, mask):
        r = mask.reader()
        if mask.kind != "b":
            r0 = r
            r = lambda i: T.ne(r0(i), T.ZERO)  # noqa
        self = tuple.__new__(cls, ())
        self.mask = SArr.make(mask.vshape, r, "b")
        return self

    def _no(self, *a):
        raise Unsupported("np.where with one argument used as a value")

    def __getitem__(self, k):
        if isinstance(k, int) and -self.mask.ndim <= k < self.mask.ndim:
            return NonzeroAxis(self.mask)
        return self._no()

    __len__ = __iter__ = __add__ = __eq__ = __bool__ = _no
    __hash__ = None


class NonzeroAxis:
    """np.where(mask)[k]: only its length can be used."""

    def __init__(self, mask):
        self.size = reduce_sum(mask)
        self.shape = (self.size,)

    def __len__(self):
        raise Unsupported("np.where with one argument used as a value")

    __iter__ = __getitem__ = __len__

    def __getattr__(self, a):
        raise Unsupported("np.where with one argument used as a value")


def const_nonzero(mask, vectors=False):
    """np.nonzero of a matrix (or vector) of constants, as index vectors (None: not constant)."""
    if vectors and isinstance(mask, SArr) and mask.ndim == 1 and mask.vshape[0].const() is not None:
        r, out = mask.reader(), []
        for k in range(int(mask.vshape[0].const())):
            b = r((T.num(k),))
            if mask.kind != "b":
                b = T.ne(b, T.ZERO)
            if b.op not in ("true", "false"):
                if ctx().entails(b):
                    b = T.TRUE
                elif ctx().entails(T.bnot(b)):
                    b = T.FALSE
                else:
                    return None
            if b.op == "true":
                out.append(k)
        return (as_arr(out) if out else SArr.make((0,), lambda i: T.ZERO, "i"),)
    if not isinstance(mask, SArr) or mask.ndim != 2:
        return None
    m = mask
    if mask.kind != "b":
        r0 = mask.reader()
        m = SArr.make(mask.vshape, lambda i: T.ne(r0(i), T.ZERO), "b")
    cells = const_cells(m, m)
    if not cells:
        return None
    return tuple(as_arr([c[k] for c in cells]) for k in range(2))


def const_cells(a, key):
    """index tuples selected by a constant mask of a's concrete shape, or by one constant index vector per axis (None: neither)."""
    import itertools

    if isinstance(key, SArr) and key.kind == "b" and key.ndim == a.ndim and key.ndim >= 2:
        dims = [d.const() for d in key.vshape]
        if None in dims or [d.const() for d in a.vshape] != dims:
            return None
        r = key.reader()
        out = []
        for i in itertools.product(*[range(int(d)) for d in dims]):
            b = r(tuple(T.num(k) for k in i))
            if b.op not in ("true", "false"):
                return None
            if b.op == "true":
                out.append(i)
        return out
    if isinstance(key, tuple) and len(key) == a.ndim >= 2 and all(isinstance(k, SArr) and k.kind == "i" and k.ndim == 1 and not isinstance(k, Masked) for k in key):
        ns = {k.vshape[0].const() for k in key}
        if len(ns) != 1 or None in ns:
            return None
        rs = [k.reader() for k in key]
        out = []
        for x in range(int(ns.pop())):
            v = [r((T.num(x),)).const() for r in rs]
            if None in v or any(q < 0 for q in v):
                return None
            out.append(tuple(int(q) for q in v))
        return out
    return None


def fancy_get(a, key):
    cells = const_cells(a, key) if isinstance(key, SArr) and key.kind == "b" else None
    if cells is not None:
        r = a.reader()
        vals = [r(tuple(T.num(k) for k in i)) for i in cells]
        if a.kind == "b" or not vals:
            raise Unsupported("boolean or empty selection by a mask")
        return as_arr([wrap(v, a.kind == "i") for v in vals])
    if isinstance(key, Nonzero):
        raise Unsupported("reading the entries selected by a mask")
    if isinstance(key, SArr) and key.kind == "b" and key.ndim == 1:
        _same(key.vshape[0], a.vshape[0])
        return Masked(a.copy(), key.copy())
    if isinstance(key, SArr) and key.kind == "i" and key.ndim == 1:
        r, k = a.reader(), key.reader()
        return SArr.make(key.vshape + a.vshape[1:], lambda i: r((k((i[0],)),) + i[1:]), a.kind)
    if isinstance(key, tuple) and len(key) == a.ndim and all(isinstance(k, SArr) and k.kind == "i" and k.ndim == 2 for k in key):
        return _gather(a, key)
    if isinstance(key, tuple) and any(isinstance(k, SArr) and k.kind == "b" for k in key):
        if isinstance(key[0], SArr) and key[0].ndim == 1 and all(isinstance(k, slice) and k == slice(None) for k in key[1:]):
            return fancy_get(a, key[0])
    return _advanced(a, key)[0]


def _gather(a, key):
    """a[I, J] for matrices of constant positions."""
    dims = [[d.const() for d in k.vshape] for k in key]
    if any(d != dims[0] for d in dims) or None in dims[0]:
        raise Unsupported("fancy indexing")
    n, m = (int(x) for x in dims[0])
    if not n or not m:
        return SArr.make((n, m), lambda i: T.ZERO, a.kind)
    r, rs = a.reader(), [k.reader() for k in key]

    def cell(i, j):
        at = [q((T.num(i), T.num(j))).const() for q in rs]
        if None in at or any(v < 0 for v in at) or any(d.const() is None or v >= d.const() for v, d in zip(at, a.vshape)):
            raise Unsupported("index array not known to be in range")
        return wrap(r(tuple(T.num(int(v)) for v in at)), a.kind == "i")

    return as_arr([[cell(i, j) for j in range(m)] for i in range(n)])


def _advanced(a, key):
    """One group of adjacent integer-array / integer indices among full slices -> (copy, layout)."""
    from .seq import SymSeq

    if not isinstance(key, tuple):
        key = (key,)
    if any(k is Ellipsis or k is None for k in key) or len(key) > a.ndim:
        raise Unsupported("fancy indexing")
    key = list(key) + [slice(None)] * (a.ndim - len(key))
    adv = []
    for ax, k in enumerate(key):
        if isinstance(k, slice):
            if k != slice(None):
                raise Unsupported("fancy indexing")
        elif isinstance(k, (int, SNum)) and not isinstance(k, bool):
            key[ax] = a._norm_index(k, a.vshape[ax])
            adv.append(ax)
        else:
            if isinstance(k, (list, tuple, SymSeq)):
                k = as_arr(k)
            if not (isinstance(k, SArr) and k.kind == "i" and k.ndim == 1) or isinstance(k, Masked):
                raise Unsupported("fancy indexing")
            s = idx_syms(k.vshape, "a")
            v = k.get(s)
            if not T.in_range_syntactic(v, a.vshape[ax]) and not ctx().entails(T.band(T.le(T.ZERO, v), T.lt(v, a.vshape[ax]))):
                raise Unsupported("index array not known to be in range")
            key[ax] = k
            adv.append(ax)
    if adv != list(range(adv[0], adv[0] + len(adv))):
        raise Unsupported("fancy indexing with separated index arrays")
    arrs = [key[x] for x in adv if isinstance(key[x], SArr)]
    n = arrs[0].vshape[0]
    for k in arrs[1:]:
        _same(k.vshape[0], n)
    rd = {x: (key[x].reader() if isinstance(key[x], SArr) else None) for x in adv}
    r = a.reader()
    shape, pos = [], {}
    for ax in range(a.ndim):
        if ax == adv[0]:
            where = len(shape)
            shape.append(n)
        if ax not in adv:
            pos[ax] = len(shape)
            shape.append(a.vshape[ax])

    def full(i):
        return tuple((key[ax] if rd[ax] is None else rd[ax]((i[where],))) if ax in adv else i[pos[ax]] for ax in range(a.ndim))

    return SArr.make(tuple(shape), lambda i: r(full(i)), a.kind), (key, adv, pos, where, shape)


def fancy_set(a, key, value):
    if isinstance(key, Nonzero):
        key = key.mask
    cells = const_cells(a, key) if as_arr(value).ndim else None
    if cells is not None:
        v = as_arr(value)
        if v.ndim != 1 or v.vshape[0].const() is None or int(v.vshape[0].const()) not in (1, len(cells)):
            raise ValueError("shape mismatch in an assignment to selected entries")
        one = int(v.vshape[0].const()) == 1
        v = v.copy()
        for n, i in enumerate(cells):
            a[i] = v[0 if one else n]
        return
    if isinstance(key, SArr) and key.kind == "b" and key.ndim == a.ndim:
        m = key.reader()
        old = a.rnum()
        v = as_arr(value)
        if v.ndim != 0:
            raise Unsupported("masked assignment of an array")
        p = P(v.item())
        a.assign(lambda i: T.ite(m(i), p, old(i)))
        return
    _, (ks, adv, pos, where, shape) = _advanced(a, key)
    arr = [x for x in adv if isinstance(ks[x], SArr)]
    sk = ks[arr[0]].skip
    if len(arr) == 1 and len(adv) == a.ndim == 2 and sk is None and ks[arr[0]].vshape[0].const() is not None:
        ax, rd = arr[0], ks[arr[0]].reader()
        at = [rd((T.num(k),)).const() for k in range(int(ks[ax].vshape[0].const()))]
        if None not in at and all(k >= 0 for k in at):  # constant positions of one row or column
            v = as_arr(value)
            f = v.broadcast_to(tuple(shape))
            vals = [wrap(f((T.num(n),)), v.kind == "i") for n in range(len(at))]
            for k, w in zip(at, vals):
                a[tuple(int(k) if x == ax else wrap(ks[x], True) for x in adv)] = w
            return
    if len(arr) == 1 == len(adv) and sk is None and ks[arr[0]].vshape[0].const() is not None:
        ax, rd = arr[0], ks[arr[0]].reader()
        at = [rd((T.num(k),)).const() for k in range(int(ks[ax].vshape[0].const()))]
        if None not in at and all(k >= 0 for k in at):  # constant positions: one slice at a time
            v = as_arr(value)
            f = v.broadcast_to(tuple(shape))
            v = SArr.make(tuple(shape), f, v.kind).copy()
            for n, k in enumerate(at):
                a[(slice(None),) * ax + (int(k),)] = v[(slice(None),) * ax + (n,)]
            return
    if len(arr) != 1 or sk is None or ks[arr[0]].buf.writes:
        raise Unsupported("fancy assignment")
    if sk[0] == "run":  # consecutive positions from sk[1]
        inside = lambda x: T.band(T.le(sk[1], x), T.lt(x, T.add(sk[1], shape[where])))  # noqa
        source = lambda x: T.sub(x, sk[1])  # noqa
    else:
        r = sk[0]
        inside, source = (lambda x: T.ne(x, r)), (lambda x: T.unskip(x, r))
    v = as_arr(value)
    while v.ndim > len(shape) and v.vshape[0].const() == 1:
        v = as_arr(v[0])
    f = v.broadcast_to(tuple(shape))
    if a.kind == "i" and v.kind == "f":
        raise Unsupported("float written into an integer array")
    num = v.kind != "b"
    old = a.rnum() if a.kind != "b" else None
    if old is None or not num:
        raise Unsupported("fancy assignment of booleans")
    ax0 = arr[0]

    def fn(i):
        g = T.band(inside(i[ax0]), *[T.eq(i[x], ks[x]) for x in adv if x != ax0])
        if g.op == "false":
            return old(i)
        kk = T.fresh_name("a")
        T.RANGE[kk] = shape[where]
        j = [None] * len(shape)
        j[where] = T.sym(kk, INT)
        for x, q in pos.items():
            j[q] = i[x]
        val = T.subst(f(tuple(j)), {kk: source(i[ax0])})
        return T.ite(g, val, old(i))

    a.assign(fn)
