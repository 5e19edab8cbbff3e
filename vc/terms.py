"""Term language of the verifier.

Scalars are multivariate polynomials (Fraction coefficients, integer exponents,
negative ones allowed) over *atoms*; atoms are hash-consed through a canonical
string key.  Sums with symbolic bounds are atoms with de-Bruijn-like canonical
bound names, normalised to "sum of one connected monomial", so two tensor
expressions that are equal by (multi)linearity have the same normal form.
Floats are mathematical reals, machine integers are mathematical integers.
"""
import hashlib
import itertools
from fractions import Fraction

INT, REAL = "I", "R"


class Unsupported(Exception):
    """The verifier has no semantics for a construct (never an alarm)."""


def _digest(s):
    if len(s) <= 60:
        return s
    return "%" + hashlib.blake2b(s.encode(), digest_size=15).hexdigest()


_fresh = itertools.count(1)
RANGE = {}  # index symbol name -> Poly dim  (0 <= name < dim)
SYMMETRIC = {}  # array symbol -> True when symmetric in its last two indices
FINITE = {}  # key of an integer term -> (lo, hi): one of finitely many values, decided by cases when used as an index
ORTHO = set()  # array symbols Q (last two axes n x n) orthogonal


def reset():
    global _fresh
    _fresh = itertools.count(1)
    RANGE.clear()
    SYMMETRIC.clear()
    FINITE.clear()
    ORTHO.clear()
    _subst_cache.clear()


def fresh_name(p):
    return "%s!%d" % (p, next(_fresh))


class Atom:
    __slots__ = ("kind", "data", "key", "fv", "h", "sort", "syms")

    def __init__(self, kind, data, keystr, fv, h, sort, syms):
        self.kind, self.data = kind, data
        self.key = _digest(keystr)
        self.fv, self.h, self.sort = fv, h, sort
        self.syms = syms  # array/function symbols occurring

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o or (isinstance(o, Atom) and self.key == o.key)

    def __repr__(self):
        return show_atom(self)


_E = frozenset()


def _joinfv(ps):
    r = _E
    for p in ps:
        if p.fv:
            r = r | p.fv
    return r


def _joinsy(ps):
    r = _E
    for p in ps:
        if p.syms:
            r = r | p.syms
    return r


class Poly:
    __slots__ = ("t", "_key", "_fv", "_h", "_sy")

    def __init__(self, t):
        self.t = t  # dict mono -> Fraction ; mono = tuple of (atom, exp) sorted
        self._key = self._fv = self._h = self._sy = None

    @property
    def key(self):
        if self._key is None:
            parts = []
            for m in sorted(self.t, key=_monokey):
                parts.append("%s*%s" % (self.t[m], _monokey(m)))
            self._key = _digest("+".join(parts) if parts else "0")
        return self._key

    @property
    def fv(self):
        if self._fv is None:
            r = _E
            for m in self.t:
                for a, _ in m:
                    if a.fv:
                        r = r | a.fv
            self._fv = r
        return self._fv

    @property
    def syms(self):
        if self._sy is None:
            r = _E
            for m in self.t:
                for a, _ in m:
                    if a.syms:
                        r = r | a.syms
            self._sy = r
        return self._sy

    @property
    def h(self):
        if self._h is None:
            self._h = max([a.h for m in self.t for a, _ in m] or [0])
        return self._h

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.key == o.key)

    def __repr__(self):
        return show(self)

    def const(self):
        """Fraction value if constant else None."""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        seen = {}
        for m in self.t:
            for a, _ in m:
                seen[a.key] = a
        return list(seen.values())

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None


def _monokey(m):
    return "*".join("%s^%d" % (a.key, e) if e != 1 else a.key for a, e in m)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def num(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        if c != c or c in (float("inf"), float("-inf")):
            if c != c:
                return sym("NAN", REAL)
            s = sym("INF", REAL)
            return s if c > 0 else mul(num(-1), s)
        c = Fraction(repr(c))
    c = Fraction(c)
    return Poly({(): c}) if c else ZERO


def patom(a):
    return Poly({((a, 1),): Fraction(1)})


def sym(name, sort=REAL):
    return patom(Atom("sym", (name, sort), "s:%s:%s" % (sort, name), frozenset([name]), 0, sort, _E))


def add(*ps):
    d = {}
    for p in ps:
        for m, c in p.t.items():
            v = d.get(m)
            if v is None:
                d[m] = c
            else:
                v = v + c
                if v:
                    d[m] = v
                else:
                    del d[m]
    return Poly(d)


def scale(p, c):
    if c == 0:
        return ZERO
    if c == 1:
        return p
    return Poly({m: v * c for m, v in p.t.items()})


def neg(p):
    return scale(p, Fraction(-1))


def sub(p, q):
    return add(p, neg(q))


MAXTERMS = 6000


def _mulmono(m1, m2):
    """Product of monomials -> (mono, list of extra polys to multiply)."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    items = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.kind == "sqrt" and (e >= 2 or e <= -2):
            q, r = (e // 2, e % 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
            extra = extra or []
            extra.append(power(a.data[0], q))
            e = r
            if e == 0:
                continue
        elif a.kind == "paren" and e > 0:
            extra = extra or []
            extra.append(power(a.data[0], e))
            continue
        elif a.kind == "ind" and e > 1:
            e = 1
        elif a.kind == "sign" and e >= 2:
            pass
        items.append((a, e))
    items.sort(key=lambda ae: ae[0].key)
    return tuple(items), extra


def mul(*ps):
    r = ONE
    for p in ps:
        r = _mul2(r, p)
    return r


def _mul2(p, q):
    if p is ONE:
        return q
    if q is ONE:
        return p
    if len(p.t) * len(q.t) > MAXTERMS:
        raise Unsupported("polynomial blow-up")
    d = {}
    rest = []
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m, extra = _mulmono(m1, m2)
            c = c1 * c2
            if extra:
                x = Poly({m: c})
                for e in extra:
                    x = _mul2(x, e)
                rest.append(x)
                continue
            v = d.get(m)
            if v is None:
                d[m] = c
            else:
                v += c
                if v:
                    d[m] = v
                else:
                    del d[m]
    r = Poly(d)
    if rest:
        r = add(r, *rest)
    return r


def power(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(power(p, -n))
    r = p
    for _ in range(n - 1):
        r = _mul2(r, p)
    return r


def inv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            raise ZeroDivisionError
        return num(1 / c)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if not any(a.kind == "sqrt" and abs(e) > 1 for a, e in m):
            items = tuple((a, -e) for a, e in m)
            # paren atoms with exponent >0 must expand
            r = Poly({tuple(x for x in items if not (x[0].kind == "paren" and x[1] > 0)): 1 / c})
            for a, e in items:
                if a.kind == "paren" and e > 0:
                    r = _mul2(r, power(a.data[0], e))
            return r
    # canonical scaling
    lead = p.t[min(p.t, key=_monokey)]
    q = scale(p, 1 / lead)
    # factor out common monomial
    com = None
    for m in q.t:
        d = dict(m)
        if com is None:
            com = d
        else:
            com = {a: min(e, d[a]) for a, e in com.items() if a in d and e > 0 and d[a] > 0}
    if com:
        cm = tuple(sorted(((a, e) for a, e in com.items() if e > 0), key=lambda x: x[0].key))
        if cm:
            icm = Poly({tuple((a, -e) for a, e in cm): Fraction(1)})
            q2 = _mul2(q, icm)
            return _mul2(scale(icm, 1 / lead), inv(q2))
    a = Atom("paren", (q,), "p(%s)" % q.key, q.fv, q.h, REAL, q.syms)
    return Poly({((a, -1),): 1 / lead})


# ------------------------------------------------------------------ booleans
class Bool:
    __slots__ = ("op", "args", "key", "fv", "h", "syms")

    def __init__(self, op, args):
        self.op, self.args = op, args
        if op in ("le", "lt", "eq"):
            p = args[0]
            self.key = _digest("%s(%s)" % (op, p.key))
            self.fv, self.h, self.syms = p.fv, p.h, p.syms
        elif op == "bapp":
            self.key = _digest("B%s(%s)" % (args[0], ",".join(x.key for x in args[1])))
            self.fv, self.h = _joinfv(args[1]), max([x.h for x in args[1]] or [0])
            self.syms = _joinsy(args[1]) | {args[0]}
        elif op == "all":
            # args = (lam,) : forall over lam
            self.key = _digest("A(%s)" % args[0].key)
            self.fv, self.h, self.syms = args[0].fv, args[0].h, args[0].syms
        else:
            self.key = _digest("%s(%s)" % (op, ",".join(x.key for x in args)))
            self.fv, self.h = _joinfv(args), max([x.h for x in args] or [0])
            self.syms = _joinsy(args)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o or (isinstance(o, Bool) and self.key == o.key)

    def __repr__(self):
        return show_bool(self)


TRUE, FALSE = Bool("true", ()), Bool("false", ())


def _cmp(op, p):
    c = p.const()
    if c is not None:
        ok = {"le": c <= 0, "lt": c < 0, "eq": c == 0}[op]
        return TRUE if ok else FALSE
    lead = p.t[min(p.t, key=_monokey)]
    if op == "eq":
        p = scale(p, 1 / lead)
    else:
        p = scale(p, 1 / abs(lead))
    return Bool(op, (p,))


def le(a, b):
    return _cmp("le", sub(a, b))


def lt(a, b):
    return _cmp("lt", sub(a, b))


def eq(a, b):
    return _cmp("eq", sub(a, b))


def ne(a, b):
    return bnot(eq(a, b))


def bnot(b):
    if b is TRUE or b.op == "true":
        return FALSE
    if b.op == "false":
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "le":
        return _cmp("lt", neg(b.args[0]))
    if b.op == "lt":
        return _cmp("le", neg(b.args[0]))
    return Bool("not", (b,))


def band(*bs):
    out = {}
    for b in bs:
        if b.op == "true":
            continue
        if b.op == "false":
            return FALSE
        for x in b.args if b.op == "and" else (b,):
            out[x.key] = x
    if not out:
        return TRUE
    for k, x in out.items():
        if bnot(x).key in out:
            return FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    return Bool("and", tuple(out[k] for k in sorted(out)))


def bor(*bs):
    out = {}
    for b in bs:
        if b.op == "false":
            continue
        if b.op == "true":
            return TRUE
        for x in b.args if b.op == "or" else (b,):
            out[x.key] = x
    if not out:
        return FALSE
    for k, x in out.items():
        if bnot(x).key in out:
            return TRUE
    if len(out) == 1:
        return next(iter(out.values()))
    return Bool("or", tuple(out[k] for k in sorted(out)))


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    return band(implies(a, b), implies(b, a))


def bapp(name, *args):
    return Bool("bapp", (name, tuple(args)))


# ------------------------------------------------------------------ functions
def app(f, idx):
    """Element of array symbol f at integer index terms."""
    idx = tuple(idx)
    s = SYMMETRIC.get(f)
    if s and len(idx) >= 2 and idx[-1].key < idx[-2].key:
        idx = idx[:-2] + (idx[-1], idx[-2])
    a = Atom(
        "app", (f, idx), "f:%s(%s)" % (f, ",".join(i.key for i in idx)), _joinfv(idx), max([i.h for i in idx] or [0]), REAL, _joinsy(idx) | {f}
    )
    return patom(a)


def fapp(name, *args, sort=REAL):
    """Uninterpreted function of scalars and/or lambda (array) arguments."""
    a = Atom(
        "fapp",
        (name, tuple(args)),
        "F:%s(%s)" % (name, ",".join(i.key for i in args)),
        _joinfv(args),
        max([i.h for i in args] or [0]),
        sort,
        _joinsy(args) | {name},
    )
    return patom(a)


class Lam:
    """Canonical closed array value: dims and body over bound names."""

    __slots__ = ("bv", "dims", "body", "key", "fv", "h", "syms")

    def __init__(self, tmp, dims, body):
        h = max([body.h] + [d.h for d in dims])
        names = tuple("_b%d" % (h + 1 + i) for i in range(len(tmp)))
        self.bv = names
        self.dims = tuple(dims)
        self.body = subst(body, {t: sym(n, INT) for t, n in zip(tmp, names)}) if tmp else body
        self.h = h + len(tmp)
        self.fv = frozenset(self.body.fv - set(names)) | _joinfv(self.dims)
        self.syms = self.body.syms | _joinsy(self.dims)
        self.key = _digest("L(%s|%s|%s)" % (",".join(d.key for d in self.dims), ",".join(names), self.body.key))

    def open(self, idx):
        return subst(self.body, dict(zip(self.bv, idx)))

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Lam) and self.key == o.key


def forall(tmp, dims, body):
    if isinstance(body, Bool) and body.op == "true":
        return TRUE
    return Bool("all", (Lam(tmp, dims, body),))


def lam_eq_syntactic(a, b):
    return a.key == b.key


def _un(kind, p):
    return patom(Atom(kind, (p,), "%s(%s)" % (kind, p.key), p.fv, p.h, REAL, p.syms))


def sqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        import math

        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return num(Fraction(n, d))
    return _un("sqrt", p)


def absv(p):
    c = p.const()
    if c is not None:
        return num(abs(c))
    lead = p.t[min(p.t, key=_monokey)]
    if lead < 0:
        p = neg(p)
        lead = -lead
    a = p.single_atom()
    if a is not None and a.kind in ("sqrt", "exp", "abs"):
        return p
    return scale(_un("abs", scale(p, 1 / lead)), lead)


def sign(p):
    c = p.const()
    if c is not None:
        return num((c > 0) - (c < 0))
    lead = p.t[min(p.t, key=_monokey)]
    return scale(_un("sign", scale(p, 1 / abs(lead))), Fraction(1)) if lead > 0 else neg(_un("sign", scale(p, 1 / abs(lead)) if False else scale(neg(p), 1 / abs(lead))))


def exp(p):
    if p.const() == 0:
        return ONE
    return _un("exp", p)


def log(p):
    if p.const() == 1:
        return ZERO
    return _un("log", p)


def ite(c, a, b):
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if a == b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "lt":
        # canonical: use le of negation
        n = bnot(c)
        return ite(n, b, a)
    # factor common: ite(c,a,b) = b + (a-b)*ite(c,1,0)?  keep arithmetic shape:
    fv = c.fv | a.fv | b.fv
    h = max(c.h, a.h, b.h)
    return patom(
        Atom("ite", (c, a, b), "ite(%s;%s;%s)" % (c.key, a.key, b.key), fv, h, REAL, c.syms | a.syms | b.syms)
    )


def maxv(a, b):
    d = sub(a, b)
    c = d.const()
    if c is not None:
        return a if c >= 0 else b
    x, y = (a, b) if a.key <= b.key else (b, a)
    return patom(Atom("max", (x, y), "max(%s;%s)" % (x.key, y.key), x.fv | y.fv, max(x.h, y.h), REAL, x.syms | y.syms))


def minv(a, b):
    return neg(maxv(neg(a), neg(b)))


def idiv(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb:
        return num(ca // cb)
    return patom(Atom("idiv", (a, b), "idiv(%s;%s)" % (a.key, b.key), a.fv | b.fv, max(a.h, b.h), INT, a.syms | b.syms))


def mod(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb:
        return num(ca % cb)
    return patom(Atom("mod", (a, b), "mod(%s;%s)" % (a.key, b.key), a.fv | b.fv, max(a.h, b.h), INT, a.syms | b.syms))


def skip(k, r):
    """The k-th element of 0,1,2,... without r:  k if k < r else k + 1."""
    ck, cr = k.const(), r.const()
    if ck is not None and cr is not None:
        return num(ck if ck < cr else ck + 1)
    a = k.single_atom()
    if a is not None and a.kind == "unskip" and a.data[1] == r:
        return a.data[0]  # unskip(b, r) is only ever built where b != r
    return patom(Atom("skip", (k, r), "skip(%s;%s)" % (k.key, r.key), k.fv | r.fv, max(k.h, r.h), INT, k.syms | r.syms))


def unskip(b, r):
    """Position of b != r in 0,1,2,... without r (used under the guard b != r only)."""
    cb, cr = b.const(), r.const()
    if cb is not None and cr is not None:
        return num(cb if cb < cr else cb - 1)
    a = b.single_atom()
    if a is not None and a.kind == "skip" and a.data[1] == r:
        return a.data[0]
    return patom(Atom("unskip", (b, r), "unskip(%s;%s)" % (b.key, r.key), b.fv | r.fv, max(b.h, r.h), INT, b.syms | r.syms))


def _skips_of(t, v, out):
    """Collect the skip(v, r) atoms of t; False when v occurs in any other way."""
    if v not in t.fv:
        return True
    if isinstance(t, Poly):
        for mono in t.t:
            for a, _ in mono:
                if not _skips_of(a, v, out):
                    return False
        return True
    if isinstance(t, Atom):
        if t.kind == "sym":
            return False
        if t.kind == "skip":
            k, r = t.data
            if k == sym(v, INT) and v not in r.fv:
                out.add(r)
                return True
        if t.kind == "sum":
            return all(_skips_of(x, v, out) for x in t.data[1]) and _skips_of(t.data[2], v, out)
        if t.kind in ("app", "fapp"):
            return all(_skips_of(x, v, out) for x in t.data[1])
        return all(_skips_of(x, v, out) for x in t.data)
    if isinstance(t, Bool):
        if t.op == "bapp":
            return all(_skips_of(x, v, out) for x in t.args[1])
        return all(_skips_of(x, v, out) for x in t.args)
    if isinstance(t, Lam):
        return all(_skips_of(x, v, out) for x in t.dims) and _skips_of(t.body, v, out)
    return False


# ------------------------------------------------------------------ subst
_subst_cache = {}


def subst(t, m):
    if not m:
        return t
    fv = t.fv
    m = {k: v for k, v in m.items() if k in fv}
    if not m:
        return t
    ck = (t.key, type(t).__name__, tuple(sorted((k, v.key) for k, v in m.items())))
    r = _subst_cache.get(ck)
    if r is None:
        r = _subst(t, m)
        if len(_subst_cache) > 200000:
            _subst_cache.clear()
        _subst_cache[ck] = r
    return r


def _subst(t, m):
    if isinstance(t, Poly):
        out = []
        plain = {}
        for mono, c in t.t.items():
            if not any(a.fv & m.keys() for a, _ in mono):
                plain[mono] = c
                continue
            r = num(c)
            for a, e in mono:
                r = _mul2(r, power(_subst_atom(a, m), e))
            out.append(r)
        return add(Poly(plain), *out)
    if isinstance(t, Bool):
        if t.op in ("le", "lt", "eq"):
            return _cmp(t.op, subst(t.args[0], m))
        if t.op == "bapp":
            return bapp(t.args[0], *[subst(x, m) for x in t.args[1]])
        if t.op == "all":
            L = t.args[0]
            tmp = [fresh_name("q") for _ in L.bv]
            body = L.open([sym(x, INT) for x in tmp])
            return forall(tmp, [subst(d, m) for d in L.dims], subst(body, m))
        f = {"and": band, "or": bor, "not": bnot}[t.op]
        return f(*[subst(x, m) for x in t.args])
    if isinstance(t, Lam):
        tmp = [fresh_name("q") for _ in t.bv]
        body = t.open([sym(x, INT) for x in tmp])
        return Lam(tmp, [subst(d, m) for d in t.dims], subst(body, m))
    raise TypeError(type(t))


def _subst_atom(a, m):
    if not (a.fv & m.keys()):
        return patom(a)
    k, d = a.kind, a.data
    if k == "sym":
        return m.get(d[0]) or patom(a)
    if k == "app":
        return app(d[0], [subst(i, m) for i in d[1]])
    if k == "fapp":
        return fapp(d[0], *[subst(i, m) for i in d[1]], sort=a.sort)
    if k == "sum":
        bv, dims, body = d
        tmp = [fresh_name("k") for _ in bv]
        nd = [subst(x, m) for x in dims]
        for t, x in zip(tmp, nd):
            RANGE[t] = x
        b = subst(body, {v: sym(t, INT) for v, t in zip(bv, tmp)})
        return mk_sum(list(zip(tmp, nd)), subst(b, m))
    if k == "ite":
        return ite(subst(d[0], m), subst(d[1], m), subst(d[2], m))
    if k == "paren":
        # only with negative exponents: caller does power(.,-e) of inner
        return subst(d[0], m)
    if k in _REBUILD:
        return _REBUILD[k](*[subst(x, m) for x in d])
    raise Unsupported("subst in " + k)


def map_app(t, names, f):
    """Rewrite every app(name, idx) with name in `names` to f(name, idx) (None: leave), also under binders."""
    if not (t.syms & names):
        return t
    if isinstance(t, Poly):
        out = []
        plain = {}
        for mono, c in t.t.items():
            if not any(a.syms & names for a, _ in mono):
                plain[mono] = c
                continue
            r = num(c)
            for a, e in mono:
                r = _mul2(r, power(_map_atom(a, names, f), e))
            out.append(r)
        return add(Poly(plain), *out)
    if isinstance(t, Bool):
        if t.op in ("le", "lt", "eq"):
            return _cmp(t.op, map_app(t.args[0], names, f))
        if t.op == "bapp":
            return bapp(t.args[0], *[map_app(x, names, f) for x in t.args[1]])
        if t.op == "all":
            L = t.args[0]
            tmp = [fresh_name("q") for _ in L.bv]
            body = L.open([sym(x, INT) for x in tmp])
            return forall(tmp, [map_app(d, names, f) for d in L.dims], map_app(body, names, f))
        g = {"and": band, "or": bor, "not": bnot}[t.op]
        return g(*[map_app(x, names, f) for x in t.args])
    if isinstance(t, Lam):
        tmp = [fresh_name("q") for _ in t.bv]
        for x, d in zip(tmp, t.dims):
            RANGE[x] = d
        body = t.open([sym(x, INT) for x in tmp])
        return Lam(tmp, [map_app(d, names, f) for d in t.dims], map_app(body, names, f))
    raise TypeError(type(t))


def _map_atom(a, names, f):
    if not (a.syms & names):
        return patom(a)
    k, d = a.kind, a.data
    if k == "app":
        idx = tuple(map_app(i, names, f) for i in d[1])
        if d[0] in names:
            r = f(d[0], idx)
            if r is not None:
                return r
        return app(d[0], idx)
    if k == "fapp":
        return fapp(d[0], *[map_app(i, names, f) for i in d[1]], sort=a.sort)
    if k == "sum":
        bv, dims, body = d
        tmp = [fresh_name("k") for _ in bv]
        nd = [map_app(x, names, f) for x in dims]
        for t, x in zip(tmp, nd):
            RANGE[t] = x
        b = subst(body, {v: sym(t, INT) for v, t in zip(bv, tmp)})
        return mk_sum(list(zip(tmp, nd)), map_app(b, names, f))
    if k == "ite":
        return ite(*[map_app(x, names, f) for x in d])
    if k == "paren":
        return map_app(d[0], names, f)
    if k in _REBUILD:
        return _REBUILD[k](*[map_app(x, names, f) for x in d])
    raise Unsupported("rewrite in " + k)


def assign(t, c, v):
    """Replace the condition c by the truth value v in every if-then-else of t (outside binders)."""
    if isinstance(t, Bool):
        if t.key == c.key:
            return TRUE if v else FALSE
        if t.op in ("le", "lt", "eq"):
            return _cmp(t.op, assign(t.args[0], c, v))
        if t.op in ("and", "or", "not"):
            return {"and": band, "or": bor, "not": bnot}[t.op](*[assign(x, c, v) for x in t.args])
        return t
    if not isinstance(t, Poly):
        return t
    out = []
    plain = {}
    for mono, co in t.t.items():
        if not any(_has_ite(a) for a, _ in mono):
            plain[mono] = co
            continue
        r = num(co)
        for a, e in mono:
            r = _mul2(r, power(_assign_atom(a, c, v), e))
        out.append(r)
    return add(Poly(plain), *out)


_ITE_MEMO = {}


def _has_ite(a):
    """an if-then-else occurs in the atom outside binders and index positions"""
    if a.kind == "ite":
        return True
    if a.kind not in _REBUILD and a.kind != "paren":
        return False
    r = _ITE_MEMO.get(a.key)
    if r is None:
        r = any(_has_ite(b) for x in a.data if isinstance(x, Poly) for m in x.t for b, _ in m)
        _ITE_MEMO[a.key] = r
    return r


def _assign_atom(a, c, v):
    k, d = a.kind, a.data
    if k == "ite":
        if d[0].key == c.key:
            return assign(d[1] if v else d[2], c, v)
        return ite(assign(d[0], c, v), assign(d[1], c, v), assign(d[2], c, v))
    if k == "paren":
        return assign(d[0], c, v)
    if k in _REBUILD:
        return _REBUILD[k](*[assign(x, c, v) for x in d])
    return patom(a)


_REBUILD = {
    "skip": skip,
    "unskip": unskip,
    "sqrt": sqrt,
    "abs": absv,
    "sign": sign,
    "exp": exp,
    "log": log,
    "max": maxv,
    "idiv": idiv,
    "mod": mod,
}


# ------------------------------------------------------------------ sums
def solve_linear(p, v):
    """If integer poly p = c*v + r with c=+-1 and v not in r: return -r/c."""
    c = None
    rest = {}
    for m, co in p.t.items():
        hit = [a for a, e in m if v in a.fv]
        if hit:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sym" and m[0][0].data[0] == v:
                c = co
            else:
                return None
        else:
            rest[m] = co
    if c is None or abs(c) != 1:
        return None
    return scale(Poly(rest), -1 / c)


def in_range_syntactic(t, dim):
    """True if 0<=t<dim is evident."""
    c = t.const()
    dc = dim.const()
    if c is not None and dc is not None:
        return 0 <= c < dc
    # t = s + off where s in [0,R)
    a = None
    off = Fraction(0)
    sk = t.single_atom()
    if sk is not None and sk.kind == "skip":
        k = sk.data[0].single_atom()
        if k is not None and k.kind == "sym" and k.data[0] in RANGE:
            d = sub(dim, add(RANGE[k.data[0]], ONE)).const()
            return d is not None and d >= 0
        return False
    if sk is not None and sk.kind == "unskip":
        return in_range_syntactic(sk.data[0], add(dim, ONE))
    for m, co in t.t.items():
        if m == ():
            off = co
        elif co == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sym" and a is None:
            a = m[0][0].data[0]
        else:
            return False
    if a is None or a not in RANGE:
        return False
    if off < 0:
        return False
    d = sub(dim, add(RANGE[a], num(off))).const()
    return d is not None and d >= 0


RANGE_ORACLE = [None]  # callable(Bool)->bool, proves facts about ints


def _prove_int(b):
    if b.op == "true":
        return True
    if b.op == "false":
        return False
    return bool(RANGE_ORACLE[0] and RANGE_ORACLE[0](b))


def mk_sum(binders, body):
    """Sum over binders [(tmpname, dimPoly)] of Poly body -> normalised Poly."""
    for v, d in binders:
        RANGE[v] = d
    out = []
    for mono, c in body.t.items():
        out.append(scale(_sum_mono(binders, mono), c))
    return add(*out) if out else ZERO


def _sum_mono(binders, mono):
    bset = {v for v, _ in binders}
    # flatten / eliminate
    for i, (a, e) in enumerate(mono):
        if not (a.fv & bset):
            continue
        if a.kind == "sum" and e > 0:
            rest = Poly({mono[:i] + mono[i + 1 :]: Fraction(1)})
            if e > 1:
                rest = _mul2(rest, power(patom(a), e - 1))
            bv, dims, b = a.data
            if any(x.fv & bset for x in dims):
                raise Unsupported("sum whose range depends on an outer summation index")
            tmp = [fresh_name("k") for _ in bv]
            nb = list(zip(tmp, dims))
            for t, x in nb:
                RANGE[t] = x
            bb = subst(b, {v: sym(t, INT) for v, t in zip(bv, tmp)})
            return mk_sum(binders + nb, _mul2(rest, bb))
        if a.kind == "ite" and e == 1:
            cnd, x, y = a.data
            rest = Poly({mono[:i] + mono[i + 1 :]: Fraction(1)})
            if cnd.op == "eq":
                for v, d in binders:
                    if v not in cnd.fv:
                        continue
                    t = solve_linear(cnd.args[0], v)
                    if t is None:
                        continue
                    nb = [(w, dd) for w, dd in binders if w != v]
                    hit = subst(_mul2(rest, sub(x, y)), {v: t})
                    if not in_range_syntactic(t, d):
                        g = band(le(ZERO, t), lt(t, d))
                        if not _prove_int(g):
                            hit = _mul2(hit, ite(g, ONE, ZERO))
                    r1 = mk_sum(nb, hit) if nb else hit
                    r2 = mk_sum(binders, _mul2(rest, y)) if y.t else ZERO
                    return add(r1, r2)
            elif cnd.op == "le" and len(binders) >= 1:
                # sum_{k<n} ite(k<=m-1, x, y): split the range when m in [0,n]
                for v, d in binders:
                    if v not in cnd.fv:
                        continue
                    p = cnd.args[0]  # p<=0
                    r = _split_range(binders, v, d, p, rest, x, y)
                    if r is not None:
                        return r
    # independent factors
    ind = tuple((a, e) for a, e in mono if not (a.fv & bset))
    dep = [(a, e) for a, e in mono if a.fv & bset]
    used = set()
    for a, _ in dep:
        used |= a.fv & bset
    res = Poly({ind: Fraction(1)})
    dimdep = {}
    for v, d in binders:
        if v not in used:
            res = _mul2(res, d)
    bnd = [(v, d) for v, d in binders if v in used]
    if not bnd:
        return res
    # connected components
    comp = {v: v for v, _ in bnd}

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x

    for a, _ in dep:
        vs = [v for v in a.fv & bset]
        for w in vs[1:]:
            comp[find(w)] = find(vs[0])
    for v, d in bnd:
        for w in d.fv & bset:
            if w in comp:
                comp[find(w)] = find(v)
    groups = {}
    for v, d in bnd:
        groups.setdefault(find(v), []).append((v, d))
    for root, bs in groups.items():
        vs = {v for v, _ in bs}
        fac = [(a, e) for a, e in dep if a.fv & vs]
        res = _mul2(res, _sum_component(bs, fac))
    return res


def _split_range(binders, v, d, p, rest, x, y):
    # p = c*v + r <= 0
    c = None
    r = {}
    for m, co in p.t.items():
        if any(v in a.fv for a, _ in m):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sym":
                c = co
            else:
                return None
        else:
            r[m] = co
    if c is None or abs(c) != 1:
        return None
    r = Poly(r)
    if c == 1:  # v <= -r : first block length m = -r+1 gets x
        m = add(neg(r), ONE)
        first, second = x, y
    else:  # v >= r : first block v<r gets y
        m = r
        first, second = y, x
    bs = {w for w, _ in binders}
    if m.fv & bs:
        return None
    md = sub(d, m)
    if _prove_int(band(le(ZERO, m), le(ZERO, md))):
        pass
    elif _prove_int(le(m, ZERO)):
        return mk_sum(binders, _mul2(rest, second))
    elif _prove_int(le(md, ZERO)):
        return mk_sum(binders, _mul2(rest, first))
    else:
        return None
    nb = [(w, dd) for w, dd in binders if w != v]
    out = []
    if first.t or True:
        k = fresh_name("k")
        RANGE[k] = m
        out.append(mk_sum(nb + [(k, m)], subst(_mul2(rest, first), {v: sym(k, INT)})))
    k = fresh_name("k")
    RANGE[k] = md
    out.append(mk_sum(nb + [(k, md)], subst(_mul2(rest, second), {v: add(sym(k, INT), m)})))
    return add(*out)


def delta(a, b):
    return ite(eq(a, b), ONE, ZERO)


def _binder_orders(bs, fac):
    """candidate orders of many binders: by colour refinement, all orders within a colour class (up to a limit)."""
    col = {v: _digest("d" + d.key) for v, d in bs}
    for _ in range(len(bs)):
        new = {}
        for v, d in bs:
            m = {w: sym("_c" + (col[w] if w != v else "!" + col[w]), INT) for w, _ in bs}
            ks = sorted("%s^%d" % (subst(patom(a), m).key, e) for a, e in fac if v in a.fv)
            new[v] = _digest(col[v] + "|" + "|".join(ks))
        stable = len(set(new.values())) == len(set(col.values()))
        col = new
        if stable:
            break
    cls = {}
    for v, d in bs:
        cls.setdefault(col[v], []).append((v, d))
    groups = [cls[k] for k in sorted(cls)]
    n = 1
    for g in groups:
        for j in range(2, len(g) + 1):
            n *= j
    if n > 24:
        return [tuple(x for g in groups for x in sorted(g))]
    return [tuple(x for p in ps for x in p) for ps in itertools.product(*[list(itertools.permutations(g)) for g in groups])]


def _sum_component(bs, fac):
    # orthogonality contraction:  sum_k Q[..,k,a] Q[..,k,b] = delta_ab  (and rows)
    for v, d in bs:
        hits = [(i, a) for i, (a, e) in enumerate(fac) if v in a.fv for _ in range(1)]
        qs = [(i, a, fac[i][1]) for i, a in hits]
        if all(a.kind == "app" and a.data[0] in ORTHO for _, a, _ in qs) and sum(e for _, _, e in qs) == 2 and all(e > 0 for _, _, e in qs):
            occ = []
            for i, a, e in qs:
                occ += [a] * e
            A, B = occ
            if A.data[0] == B.data[0]:
                ia, ib = A.data[1], B.data[1]
                sv = sym(v, INT)
                for pos, oth in ((-1, -2), (-2, -1)):
                    if ia[pos] == sv and ib[pos] == sv and ia[:-2] == ib[:-2] and v not in ia[oth].fv and v not in ib[oth].fv:
                        keep = tuple(f for i, f in enumerate(fac) if i not in [q[0] for q in qs])
                        body = _mul2(Poly({keep: Fraction(1)}), delta(ia[oth], ib[oth]))
                        nb = [(w, dd) for w, dd in bs if w != v]
                        return mk_sum(nb, body) if nb else body
    # sum_{k<n-1} f(skip(k,r)) = sum_{j<n} f(j) - f(r)
    for v, d in bs:
        rs = set()
        if any(v in dd.fv for _, dd in bs):
            continue
        if all(_skips_of(a, v, rs) for a, _ in fac) and len(rs) == 1:
            r = rs.pop()
            if r.fv & {w for w, _ in bs}:
                continue
            dn = add(d, ONE)
            if in_range_syntactic(r, dn) or _prove_int(band(le(ZERO, r), lt(r, dn))):
                j = fresh_name("j")
                RANGE[j] = dn
                body = subst(Poly({tuple(fac): Fraction(1)}), {v: unskip(sym(j, INT), r)})
                nb = [(w, dd) for w, dd in bs if w != v]
                at = subst(body, {j: r})
                return sub(mk_sum(nb + [(j, dn)], body), mk_sum(nb, at) if nb else at)
    # dims of length one
    for v, d in bs:
        if d.const() == 1:
            nb = [(w, dd) for w, dd in bs if w != v]
            body = subst(Poly({tuple(fac): Fraction(1)}), {v: ZERO})
            return mk_sum(nb, body) if nb else body
        if d.const() is not None and d.const() <= 4:
            nb = [(w, dd) for w, dd in bs if w != v]
            b = Poly({tuple(fac): Fraction(1)})
            parts = [subst(b, {v: num(q)}) for q in range(int(d.const()))]
            tot = add(*parts) if parts else ZERO
            return mk_sum(nb, tot) if nb else tot
    body = Poly({tuple(fac): Fraction(1)})
    h = max([body.h] + [d.h for _, d in bs])
    best = None
    perms = itertools.permutations(bs) if len(bs) <= 4 else _binder_orders(bs, fac)
    for perm in perms:
        names = ["_b%d" % (h + 1 + i) for i in range(len(perm))]
        b = subst(body, {v: sym(n, INT) for (v, _), n in zip(perm, names)})
        key = "S(%s|%s)" % (",".join(d.key for _, d in perm), b.key)
        if best is None or key < best[0]:
            best = (key, names, perm, b)
    key, names, perm, b = best
    if len(b.t) != 1:  # renaming triggered simplification
        # reopen on fresh temps to avoid loose canonical names
        tmp = [fresh_name("k") for _ in names]
        b2 = subst(b, {n: sym(t, INT) for n, t in zip(names, tmp)})
        if b2 != body:
            return mk_sum([(t, d) for t, (_, d) in zip(tmp, perm)], b2)
    dims = tuple(d for _, d in perm)
    fv = (b.fv - set(names)) | _joinfv(dims)
    a = Atom("sum", (tuple(names), dims, b), key + "|" + ",".join(names), frozenset(fv), h + len(names), REAL, b.syms | _joinsy(dims))
    return patom(a)


# ------------------------------------------------------------------ printing
def show_atom(a, depth=6):
    k, d = a.kind, a.data
    if depth <= 0:
        return "…"
    if k == "sym":
        return d[0]
    if k == "app":
        return "%s[%s]" % (d[0], ",".join(show(i, depth - 1) for i in d[1]))
    if k == "fapp":
        return "%s(%s)" % (d[0], ",".join(show_any(i, depth - 1) for i in d[1]))
    if k == "sum":
        return "Σ{%s}(%s)" % (",".join("%s<%s" % (v, show(x, depth - 1)) for v, x in zip(d[0], d[1])), show(d[2], depth - 1))
    if k == "ite":
        return "ite(%s, %s, %s)" % (show_bool(d[0], depth - 1), show(d[1], depth - 1), show(d[2], depth - 1))
    return "%s(%s)" % (k, ", ".join(show_any(x, depth - 1) for x in d))


def show_any(x, depth=6):
    if isinstance(x, Poly):
        return show(x, depth)
    if isinstance(x, Bool):
        return show_bool(x, depth)
    if isinstance(x, Lam):
        return "λ%s.%s" % (",".join(x.bv), show_any(x.body, depth - 1))
    return repr(x)


def show(p, depth=6):
    if not p.t:
        return "0"
    out = []
    for m in sorted(p.t, key=_monokey):
        c = p.t[m]
        s = "*".join(show_atom(a, depth) + ("^%d" % e if e != 1 else "") for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = "%s*%s" % (c, s)
        out.append(s)
        if len(out) > 40:
            out.append("…")
            break
    return " + ".join(out)


def show_bool(b, depth=6):
    o = {"le": "<=", "lt": "<", "eq": "=="}
    if b.op in o:
        return "%s %s 0" % (show(b.args[0], depth), o[b.op])
    if b.op == "bapp":
        return "%s(%s)" % (b.args[0], ",".join(show_any(x, depth - 1) for x in b.args[1]))
    if b.op == "all":
        return "∀%s" % show_any(b.args[0], depth)
    if b.op in ("and", "or"):
        return "(" + (" %s " % b.op).join(show_bool(x, depth - 1) for x in b.args) + ")"
    if b.op == "not":
        return "not(%s)" % show_bool(b.args[0], depth - 1)
    return b.op
