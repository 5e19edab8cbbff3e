"""Builtins seen by the verified code."""
import builtins

from . import terms as T
from .arrays import SArr, SNum, SBool, Masked, P, B, wrap, ctx, as_arr, INT, isint
from .seq import SymSeq, SRange, as_seq, is_symbolic, seq_len
from .terms import Unsupported


def srange(*a):
    if builtins.all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    a = [x if not isinstance(x, SArr) else wrap(P(x), True) for x in a]
    for x in a:
        if isinstance(x, SNum) and not x.isint and x.p.const() is None:
            raise Unsupported("range over a real")
    if len(a) == 1:
        return SRange(0, a[0])
    return SRange(*a)


def slen(x):
    return seq_len(x)


def _sy(x):
    return isinstance(x, SymSeq) or is_symbolic(x)


def szip(*its):
    if builtins.any(_sy(x) for x in its):
        seqs = []
        n = None
        for x in its:
            if not (_sy(x)):
                raise Unsupported("zip of symbolic and concrete sequences")
            s = as_seq(x)
            if n is None:
                n = s.length
            elif s.length != n and not bool(SBool(T.eq(s.length, n))):
                # the shortest decides
                if bool(SBool(T.lt(s.length, n))):
                    n = s.length
            seqs.append(s)
        return SymSeq(n, lambda i: tuple(s.elem(i) for s in seqs))
    return builtins.zip(*its)


def senumerate(it, start=0):
    if _sy(it):
        s = as_seq(it)
        return SymSeq(s.length, lambda i: (wrap(T.add(i, P(start)), True), s.elem(i)))
    return builtins.enumerate(it, start)


def smap(f, *its):
    if builtins.any(_sy(x) for x in its):
        z = as_seq(its[0]) if len(its) == 1 else szip(*its)
        if len(its) == 1:
            return ctx().generic_map(z, lambda e: f(e))
        return ctx().generic_map(z, lambda e: f(*e))
    return builtins.map(f, *its)


def ssum(it, start=0):
    if isinstance(it, SArr) or isinstance(it, SymSeq):
        if isinstance(it, SArr):
            if not is_symbolic(it):
                r = start
                for x in it:
                    r = r + x
                return r
        a = as_arr(it)
        from .arrays import reduce_sum

        r = reduce_sum(a, 0)
        return r if (isinstance(start, int) and start == 0) else start + r
    r = start
    for x in it:
        r = r + x
    return r


def _minmax(f, name):
    def g(*a, **k):
        if k:
            key = k.get("key")
            d = {kk: v for kk, v in k.items()}
            return (builtins.max if name == "max" else builtins.min)(*a, **d)
        if len(a) == 1:
            it = a[0]
            if _sy(it) or isinstance(it, SArr):
                from .arrays import reduce_named

                return reduce_named(name, as_arr(it), None)
            a = list(it)
        if builtins.all(not isinstance(x, (SNum, SArr)) for x in a):
            return (builtins.max if name == "max" else builtins.min)(a)
        r = P(a[0])
        for x in a[1:]:
            r = f(r, P(x))
        return wrap(r, builtins.all(isint(x) for x in a))

    return g


smax = _minmax(T.maxv, "max")
smin = _minmax(T.minv, "min")


def sabs(x):
    return abs(x)


def sisinstance(x, cls):
    cl = cls if isinstance(cls, tuple) else (cls,)
    for c in cl:
        if c is float and isinstance(x, SNum) and not x.isint:
            return True
        if c is int and isinstance(x, SNum) and x.isint:
            return True
        if c is bool and isinstance(x, SBool):
            return True
        nm = getattr(c, "__name__", "")
        if isinstance(x, SNum) and ("Number" in nm or "Real" in nm or nm in ("integer", "floating") and False):
            return True
        if not isinstance(c, type):
            continue
        if builtins.isinstance(x, c):
            return True
        if c in (list, slist) and isinstance(x, (list,)):
            return True
    return False


def sfloat(x=0.0):
    if isinstance(x, (SNum, SBool)):
        return SNum(P(x))
    if isinstance(x, SArr) and x.ndim == 0:
        return SNum(P(x))
    return builtins.float(x)


def sint(x=0, *a):
    if isinstance(x, SNum):
        if x.isint:
            return x
        v = x.p.const()
        if v is not None:
            return builtins.int(v)
        raise Unsupported("int() of a symbolic real")
    if isinstance(x, SBool):
        return wrap(P(x), True)
    return builtins.int(x, *a)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, list)


def slist(x=()):
    if isinstance(x, SymSeq):
        return x
    if _sy(x):
        return as_seq(x)
    return builtins.list(x)


def stuple(x=()):
    if isinstance(x, SymSeq):
        return x
    if _sy(x):
        return as_seq(x)
    return builtins.tuple(x)


def sall(it):
    if _sy(it) or isinstance(it, SymSeq):
        a = as_arr(it)
        from .arrays import reduce_all

        return reduce_all(a, 0)
    for x in it:
        if not x:
            return False
    return True


def sany(it):
    if _sy(it) or isinstance(it, SymSeq):
        a = as_arr(it)
        from .arrays import reduce_any

        return reduce_any(a, 0)
    for x in it:
        if x:
            return True
    return False


def sprint(*a, **k):
    c = ctx()
    if c is not None:
        c.prints.append(len(a))


def snext(it, *d):
    return builtins.next(it, *d)


def sreversed(x):
    if _sy(x):
        s = as_seq(x)
        return SymSeq(s.length, lambda i: s.elem(T.sub(T.sub(s.length, T.ONE), i)))
    return builtins.reversed(x)


def ssorted(x, **k):
    if _sy(x):
        raise Unsupported("sorted() of a symbolic sequence")
    return builtins.sorted(x, **k)


def spow(a, b, *m):
    return a**b


def sround(x, *a):
    if isinstance(x, SNum):
        raise Unsupported("round")
    return builtins.round(x, *a)


class ListType(metaclass=_ListMeta):
    def __new__(cls, x=()):
        return slist(x)


class _TupMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, tuple)


class TupleType(metaclass=_TupMeta):
    def __new__(cls, x=()):
        return stuple(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, float) or (isinstance(x, SNum) and not x.isint)

    def __subclasscheck__(cls, x):
        return builtins.issubclass(x, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, int) or (isinstance(x, SNum) and x.isint)

    def __subclasscheck__(cls, x):
        return builtins.issubclass(x, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class IntType(metaclass=_IntMeta):
    def __new__(cls, *a):
        return sint(*a)


IntType.__name__ = "int"


class FloatType(metaclass=_FloatMeta):
    def __new__(cls, *a):
        return sfloat(*a)


FloatType.__name__ = "float"
OVERRIDES = {
    "int": IntType,
    "float": FloatType,
    "range": srange,
    "len": slen,
    "zip": szip,
    "enumerate": senumerate,
    "map": smap,
    "sum": ssum,
    "max": smax,
    "min": smin,
    "isinstance": sisinstance,
    "list": ListType,
    "tuple": TupleType,
    "all": sall,
    "any": sany,
    "print": sprint,
    "reversed": sreversed,
    "sorted": ssorted,
    "pow": spow,
    "round": sround,
}


def open_(*a, **k):
    raise Unsupported("open() during verification")


OVERRIDES["open"] = open_
