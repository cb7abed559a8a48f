"""Hash-consed symbolic terms (Int / Real / Bool) with light normalisation.

Payload values used by the executor are either plain Python numbers (concrete)
or instances of ``T`` (symbolic).  Complex values are ``CX(re, im)`` pairs.

Normal forms
  lin   : const + sum coef*atom            (affine combination)
  mono  : prod atom**rational_exponent     (monomial / power product)
  ite, uf, floor, mod, idiv, var
  bool  : le/lt/eq (against 0), not, and, or, bvar
"""
import math
import sys

import numpy as np
from fractions import Fraction

sys.setrecursionlimit(200000)

_table = {}
_counter = [0]
INF = float("inf")


class T:
    __slots__ = ("op", "args", "sort", "id", "_b", "_h")

    def __add__(self, o):
        return add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return mul(self, -1)

    def __pos__(self):
        return self

    def __abs__(self):
        return absv(self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __mod__(self, o):
        return mod(self, o)

    def __le__(self, o):
        return le(self, o)

    def __lt__(self, o):
        return lt(self, o)

    def __ge__(self, o):
        return le(o, self)

    def __gt__(self, o):
        return lt(o, self)

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return lnot(eq(self, o))

    def __and__(self, o):
        return land(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return lor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return lnot(self)

    def __hash__(self):
        return self._h

    def __index__(self):
        if self.sort != "I":
            raise TypeError("symbolic real used as an index")
        from . import engine

        return engine.CUR.concretize(self)

    def __int__(self):
        from . import engine

        t = self if self.sort == "I" else ite(le(0, self), floor(self), neg(floor(neg(self))))
        return engine.CUR.concretize(t)

    def __bool__(self):
        from . import engine

        return engine.fork_bool(self)

    def __repr__(self):
        return show(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0


class CX:
    __slots__ = ("re", "im")

    def __init__(self, re, im=0):
        self.re = re
        self.im = im

    def __repr__(self):
        return f"CX({self.re}, {self.im})"

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return CX(self.re, neg(self.im))

    def __add__(self, o):
        return add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __neg__(self):
        return CX(neg(self.re), neg(self.im))

    def __abs__(self):
        return absv(self)

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return lnot(eq(self, o))

    def __hash__(self):
        return hash((self.re, self.im))


NUM = (int, float, bool, Fraction)


def is_sym(x):
    if isinstance(x, T):
        return True
    if isinstance(x, CX):
        return isinstance(x.re, T) or isinstance(x.im, T)
    return False


def is_cx(x):
    return isinstance(x, (CX, complex))


def re_im(x):
    if isinstance(x, CX):
        return x.re, x.im
    if isinstance(x, complex):
        return x.real, x.imag
    return x, 0


def mkcx(re, im):
    if not isinstance(re, T) and not isinstance(im, T):
        return complex(re, im)
    return CX(re, im)


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = object.__new__(T)
        t.op = op
        t.args = args
        t.sort = sort
        t.id = _counter[0]
        t._h = hash(t.id)
        t._b = None
        _counter[0] += 1
        _table[key] = t
    return t


def reset():
    _absmemo.clear()
    _chain.clear()
    _table.clear()


# keys contain T's: T.__eq__ is overloaded to build terms, so dictionary lookups
# need identity semantics.  We get that by keying through ids.
class _K:
    pass


def _mk(op, args, sort):  # noqa: F811  (identity-keyed version)
    key = (op, _key(args), sort)
    t = _table.get(key)
    if t is None:
        t = object.__new__(T)
        t.op = op
        t.args = args
        t.sort = sort
        t.id = _counter[0]
        t._h = hash(t.id)
        t._b = None
        _counter[0] += 1
        _table[key] = t
    return t


def _key(a):
    if isinstance(a, tuple):
        return tuple([_key(x) for x in a])
    if isinstance(a, T):
        return ("t", a.id)
    if isinstance(a, bool):
        return ("b", a)
    return a


_varinfo = {}


def var(name, sort="R", lo=None, hi=None):
    t = _mk("var", (name,), sort)
    if t._b is None and sort != "B":
        t._b = (-INF if lo is None else lo, INF if hi is None else hi)
        _varinfo[t.id] = t
    elif sort != "B" and t._b != (-INF if lo is None else lo, INF if hi is None else hi):
        raise ValueError(f"variable {name} redeclared with other bounds")
    return t


# ---------------------------------------------------------------- intervals
def _imul(a, b):
    def m(x, y):
        if x == 0 or y == 0:
            return 0
        return x * y

    c = (m(a[0], b[0]), m(a[0], b[1]), m(a[1], b[0]), m(a[1], b[1]))
    return (min(c), max(c))


def _fpow(x, e):
    try:
        if x == INF:
            return INF if e > 0 else 0.0
        if x == 0:
            return 0.0 if e > 0 else INF
        return float(x) ** float(e)
    except OverflowError:
        return INF


def _ipow(b, e):
    lo, hi = b
    if isinstance(e, Fraction) and e.denominator == 1:
        e = int(e)
    if isinstance(e, int):
        if e > 0:
            if e % 2 == 0:
                if lo >= 0:
                    return (_fpow(lo, e), _fpow(hi, e))
                if hi <= 0:
                    return (_fpow(-hi, e), _fpow(-lo, e))
                return (0.0, max(_fpow(-lo, e), _fpow(hi, e)))
            f = lambda v: _fpow(v, e) if v >= 0 else -_fpow(-v, e)  # noqa: E731
            return (f(lo), f(hi))
        # negative
        if lo > 0:
            return (_fpow(hi, e), _fpow(lo, e))
        if hi < 0:
            p = (_fpow(-lo, e), _fpow(-hi, e))
            return p if e % 2 == 0 else (-p[1], -p[0])
        if e % 2 == 0:
            return (0.0, INF)
        if lo >= 0:
            return (0.0, INF)
        return (-INF, INF)
    lo = max(lo, 0.0)
    hi = max(hi, 0.0)
    if e > 0:
        return (_fpow(lo, e), _fpow(hi, e))
    return (_fpow(hi, e), _fpow(lo, e))


def bounds(t):
    if not isinstance(t, T):
        if isinstance(t, float) and t != t:
            return (-INF, INF)
        return (t, t)
    b = t._b
    if b is not None:
        return b
    b = _bounds(t)
    t._b = b
    return b


def _bounds(t):
    op = t.op
    if op == "lin":
        c, items = t.args
        lo = hi = c
        for a, k in items:
            al, ah = bounds(a)
            if k > 0:
                lo += k * al
                hi += k * ah
            else:
                lo += k * ah
                hi += k * al
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        return (lo, hi)
    if op == "mono":
        r = (1, 1)
        for a, e in t.args:
            r = _imul(r, _ipow(bounds(a), e))
        return (-INF if r[0] != r[0] else r[0], INF if r[1] != r[1] else r[1])
    if op == "ite":
        a, b = bounds(t.args[1]), bounds(t.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == "uf":
        f = t.args[0]
        if f in ("sin", "cos"):
            if f == "sin":
                a, b = bounds(t.args[1])
                if 0 <= a and b <= math.pi:
                    return (0.0, 1.0)
            return (-1.0, 1.0)
        if f == "exp":
            a, b = bounds(t.args[1])
            ex = lambda v: (0.0 if v == -INF else INF if v > 700 else math.exp(v))  # noqa
            return (max(ex(a) * (1 - 1e-12), 1e-300), ex(b) * (1 + 1e-12))
        if f == "log":
            a, b = bounds(t.args[1])
            lg = lambda v: (-INF if v <= 0 else INF if v == INF else math.log(v))  # noqa
            return (lg(a) - 1e-12, lg(b) + 1e-12)
        if f in ("acos",):
            return (0.0, math.pi)
        if f in ("asin", "atan"):
            a, b = bounds(t.args[1])
            if f == "asin":
                g = lambda v: math.asin(max(-1.0, min(1.0, v)))  # noqa
            else:
                g = math.atan
            return (g(a) - 1e-12, g(b) + 1e-12)
        if f == "atan2":
            return (-math.pi, math.pi)
        if f in ("tanh", "erf"):
            a, b = bounds(t.args[1])
            g = math.tanh if f == "tanh" else math.erf
            return (max(-1.0, g(a) - 1e-12), min(1.0, g(b) + 1e-12))
        if f == "sigmoid":
            return (0.0, 1.0)
        return (-INF, INF)
    if op == "floor":
        a, b = bounds(t.args[0])
        return (
            math.floor(a) if abs(a) != INF else a,
            math.floor(b) if abs(b) != INF else b,
        )
    if op == "mod":
        m = t.args[1]
        if isinstance(m, NUM):
            return (0, m) if m > 0 else (m, 0)
        return (-INF, INF)
    if op == "idiv":
        a, b = bounds(t.args[0])
        m = t.args[1]
        if isinstance(m, NUM) and m > 0:
            return (
                a // m if abs(a) != INF else a,
                b // m if abs(b) != INF else b,
            )
        return (-INF, INF)
    return (-INF, INF)


def is_pos(t):
    lo, _ = bounds(t)
    if lo > 0:
        return True
    return False


# ---------------------------------------------------------------- arithmetic
SNAP = 1e-14


def _lin_parts(t):
    if not isinstance(t, T):
        if isinstance(t, bool):
            t = int(t)
        return t, ()
    if t.op == "lin":
        return t.args
    if t.sort == "B":
        t = ite(t, 1, 0)
        if isinstance(t, T) and t.op == "lin":
            return t.args
        if not isinstance(t, T):
            return t, ()
    return 0, ((t, 1),)


def _mk_lin(const, d):
    items = [(a, c) for a, c in d.items() if c != 0]
    if not items:
        return const
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    sort = "R"
    if isinstance(const, int) and all(
        a.sort == "I" and isinstance(c, int) for a, c in items
    ):
        sort = "I"
    return _mk("lin", (const, tuple(items)), sort)


def _cadd(x, y):
    s = x + y
    if s != 0 and isinstance(s, float):
        if abs(s) < SNAP * max(abs(x), abs(y)):
            return 0.0
    return s


class _D(dict):
    pass


def _bad(x):
    return isinstance(x, float) and (x != x or x in (INF, -INF))


def add(a, b):
    if is_cx(a) or is_cx(b):
        ar, ai = re_im(a)
        br, bi = re_im(b)
        return mkcx(add(ar, br), add(ai, bi))
    if not isinstance(a, T) and not isinstance(b, T):
        return a + b
    if _bad(a):
        return a
    if _bad(b):
        return b
    ca, ia = _lin_parts(a)
    cb, ib = _lin_parts(b)
    d = {}
    for t, c in ia:
        d[t.id] = (t, c)
    for t, c in ib:
        o = d.get(t.id)
        d[t.id] = (t, c) if o is None else (t, _cadd(o[1], c))
    return _mk_lin2(_cadd(ca, cb), d)


def _mk_lin2(const, d):
    items = [(a, c) for a, c in d.values() if c != 0]
    if not items:
        return const
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    sort = "R"
    if isinstance(const, int) and all(
        a.sort == "I" and isinstance(c, int) for a, c in items
    ):
        sort = "I"
    return _mk("lin", (const, tuple(items)), sort)


def lincomb(pairs, const=0):
    """sum(c*t) for (c, t) pairs; c numeric, t number or real T."""
    d = {}
    for c, t in pairs:
        if not isinstance(t, T):
            const = const + c * t
            continue
        if c == 0:
            continue
        k, it = _lin_parts(t)
        if k != 0:
            const = const + c * k
        for a, ca in it:
            o = d.get(a.id)
            v = c * ca
            d[a.id] = (a, v) if o is None else (a, _cadd(o[1], v))
    return _mk_lin2(const, d)


def scale(t, c):
    if c == 0:
        return 0
    if c == 1:
        return t if t.sort != "B" else ite(t, 1, 0)
    k, it = _lin_parts(t)
    return _mk_lin2(k * c, {a.id: (a, ca * c) for a, ca in it})


def neg(a):
    if isinstance(a, (CX, complex)):
        r, i = re_im(a)
        return mkcx(neg(r), neg(i))
    if not isinstance(a, T):
        return -a if not isinstance(a, bool) else -int(a)
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def _mono_parts(t):
    """(coef, ((base, exp),...))"""
    if t.op == "mono":
        return 1, t.args
    if t.op == "lin":
        c, it = t.args
        if c == 0 and len(it) == 1:
            a, k = it[0]
            if a.op == "mono":
                return k, a.args
            return k, ((a, 1),)
        # normalise the leading coefficient so proportional sums share a base
        k = it[0][1]
        if k != 1 and t.sort != "I":
            base = _mk_lin2(
                c / k, {a.id: (a, 1 if a is it[0][0] else ca / k) for a, ca in it}
            )
            return k, ((base, 1),)
        return 1, ((t, 1),)
    return 1, ((t, 1),)


def _norm_e(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


_absmemo = {}


def _absbase(a):
    """u when a is |u| written as ite(c, u, -u)"""
    r = _absmemo.get(a.id)
    if r is None or r[0] is not a:
        u, v = a.args[1], a.args[2]
        ok = isinstance(u, T) and isinstance(v, T) and u is neg(v)
        r = (a, v if ok else None)
        _absmemo[a.id] = r
    return r[1]


def _mk_mono(coef, d):
    items = [(a, _norm_e(e)) for a, e in d.values() if e != 0]
    if not items:
        return coef
    for i, (a, e) in enumerate(items):
        if a.op == "ite" and isinstance(e, int) and e % 2 == 0:
            u = _absbase(a)
            if u is not None:
                rest = {b.id: (b, f) for j, (b, f) in enumerate(items) if j != i}
                return mul(_mk_mono(coef, rest), power(u, e))
    items.sort(key=lambda p: p[0].id)
    if len(items) == 1 and items[0][1] == 1:
        m = items[0][0]
    else:
        sort = (
            "I"
            if all(a.sort == "I" and isinstance(e, int) and e > 0 for a, e in items)
            else "R"
        )
        m = _mk("mono", tuple(items), sort)
    return m if coef == 1 else scale(m, coef)


def mul(a, b):
    if is_cx(a) or is_cx(b):
        ar, ai = re_im(a)
        br, bi = re_im(b)
        return mkcx(
            sub(mul(ar, br), mul(ai, bi)), add(mul(ar, bi), mul(ai, br))
        )
    if not isinstance(a, T):
        if not isinstance(b, T):
            return a * b
        a, b = b, a
    if not isinstance(b, T):
        if isinstance(b, bool):
            b = int(b)
        if _bad(b):
            return b
        if isinstance(b, Fraction):
            b = float(b) if b.denominator != 1 else int(b)
        return scale(a, b)
    if a.sort == "B":
        return ite(a, b, 0)
    if b.sort == "B":
        return ite(b, a, 0)
    for x, y in ((a, b), (b, a)):
        if x.op == "ite":
            p, q = x.args[1], x.args[2]
            if not isinstance(p, T) and not isinstance(q, T):
                if p == 0 or q == 0 or abs(p) == 1 and abs(q) == 1:
                    return ite(x.args[0], mul(p, y), mul(q, y))
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return ite(a.args[0], mul(a.args[1], b.args[1]), mul(a.args[2], b.args[2]))
    ca, fa = _mono_parts(a)
    cb, fb = _mono_parts(b)
    d = {}
    for t, e in fa:
        d[t.id] = (t, e)
    for t, e in fb:
        o = d.get(t.id)
        d[t.id] = (t, e) if o is None else (t, o[1] + e)
    return _mk_mono(ca * cb, d)


def _recip(t):
    return power(t, -1)


DEFINED = []  # denominators etc. assumed non-zero (collected per path)


def div(a, b):
    if is_cx(b):
        br, bi = re_im(b)
        den = add(mul(br, br), mul(bi, bi))
        ar, ai = re_im(a)
        return mkcx(
            div(add(mul(ar, br), mul(ai, bi)), den),
            div(sub(mul(ai, br), mul(ar, bi)), den),
        )
    if is_cx(a):
        ar, ai = re_im(a)
        return mkcx(div(ar, b), div(ai, b))
    if not isinstance(b, T):
        if not isinstance(a, T):
            if b == 0:
                if a == 0 or a != a:
                    return float("nan")
                return INF if a > 0 else -INF
            if isinstance(a, Fraction) or isinstance(b, Fraction):
                return float(Fraction(a) / Fraction(b))
            return a / b
        if b == 0:
            return float("nan")
        if abs(b) == INF:
            return 0.0
        return _divc(a, b)
    if not isinstance(a, T) and a == 0:
        return 0
    return mul(a, _recip(b))


def _divc(t, b):
    k, it = _lin_parts(t)
    return _mk_lin2(k / b, {a.id: (a, _sd(ca, b)) for a, ca in it})


def _sd(c, b):
    r = c / b
    return r


def _rat(p):
    """exponent as Fraction if it is (close to) a small rational"""
    if isinstance(p, (int, Fraction)):
        return Fraction(p)
    f = Fraction(p).limit_denominator(200)
    if abs(float(f) - p) <= 4e-16 * max(1, abs(p)):
        return f
    f = Fraction(p).limit_denominator(48)
    if abs(float(f) - p) <= 1e-7 * max(1, abs(p)) and f.denominator in (3, 6, 7, 9):
        return f  # float32 representation of thirds etc.
    return None


def power(a, p):
    if isinstance(p, (CX,)) and not is_sym(p):
        p = complex(p.re, p.im)
    if is_cx(a):
        if isinstance(p, NUM) and float(p).is_integer():
            n = int(p)
            r = 1
            for _ in range(abs(n)):
                r = mul(r, a)
            return r if n >= 0 else div(1, r)
        raise NotImplementedError("complex power")
    if is_cx(p):
        # real base, complex exponent: exp(p*log a)
        return exp(mul(p, log(a)))
    if not isinstance(p, T):
        if not isinstance(a, T):
            try:
                if isinstance(a, Fraction) or isinstance(p, Fraction):
                    return float(a) ** float(p)
                if a == 0 and p < 0:
                    return INF
                if a < 0 and isinstance(p, float) and not p.is_integer():
                    return float("nan")
                return a**p
            except OverflowError:
                return INF
        if p == 0:
            return 1
        if p == 1:
            return a
        r = _rat(p)
        if r is None:
            return exp(mul(p, log(a)))
        if a.sort == "B":
            return a if r > 0 else div(1, a)
        if r.denominator == 1 and a.op == "ite" and not isinstance(
            a.args[1], T
        ) and not isinstance(a.args[2], T):
            return ite(a.args[0], power(a.args[1], p), power(a.args[2], p))
        if a.op == "ite" and (
            not isinstance(a.args[1], T) or not isinstance(a.args[2], T)
        ):
            return ite(a.args[0], power(a.args[1], p), power(a.args[2], p))
        if a.op == "uf" and a.args[0] == "exp" and False:
            pass
        c, fs = _mono_parts(a)
        if r.denominator == 1:
            n = int(r)
            if n < 0:
                DEFINED.append(a)
            d = {t.id: (t, e * n) for t, e in fs}
            cc = c**n if n >= 0 else (1 / (c ** (-n)))
            return _mk_mono(cc, d)
        # fractional exponent
        if c > 0 and all(bounds(t)[0] >= 0 for t, e in fs):
            d = {t.id: (t, e * r) for t, e in fs}
            return _mk_mono(_cpow(c, r), d)
        if c > 0 and r.denominator % 2 == 0:
            # split |t|^(even*r) for even integer exponents
            ok, rest, d = True, [], {}
            for t, e in fs:
                if bounds(t)[0] >= 0:
                    d[t.id] = (t, e * r)
                elif isinstance(e, int) and e % 2 == 0:
                    at = absv(t)
                    d[at.id] = (at, e * r)
                else:
                    ok = False
            if ok:
                out = _cpow(c, r)
                for t, e in d.values():
                    ct, ft = _mono_parts(t)
                    out = mul(out, _mk_mono(_cpow(ct, e), {x.id: (x, ee * e) for x, ee in ft})) if ct > 0 else mul(out, power(t, _norm_e(e)))
                return out
        DEFINED.append(("nonneg", a))
        # opaque base: radicand may be any sum known only to be >= 0 at runtime
        base = a
        if c > 0 and c != 1:
            base = _mk_mono(1, {t.id: (t, e) for t, e in fs})
            return mul(_cpow(c, r), _mk("mono", ((base, r),), "R") if base.op != "mono" else _mk("mono", ((_opaque(base), r),), "R"))
        return _mk("mono", ((_opaque(base), r),), "R")
    # symbolic exponent
    if not isinstance(a, T):
        if a == 1:
            return 1
        return exp(mul(p, math.log(a)))
    return exp(mul(p, log(a)))


def _opaque(t):
    """wrap so that a power of a product is not re-split"""
    if t.op == "mono" or (t.op == "lin" and t.args[0] == 0 and len(t.args[1]) == 1):
        return _mk("uf", ("id", t), "R")
    return t


def _cpow(c, r):
    v = float(c) ** float(r)
    return int(v) if v.is_integer() and abs(v) < 2**50 else v


def sqrt(a):
    if is_cx(a):
        raise NotImplementedError("complex sqrt")
    if not isinstance(a, T):
        return math.sqrt(a) if a >= 0 else float("nan")
    return power(a, Fraction(1, 2))


def absv(a):
    if is_cx(a):
        r, i = re_im(a)
        if not is_sym(a):
            return abs(complex(r, i))
        return sqrt(add(mul(r, r), mul(i, i)))
    if not isinstance(a, T):
        return abs(a)
    lo, hi = bounds(a)
    if lo >= 0:
        return a
    if hi <= 0:
        return neg(a)
    if a.op == "mono" or (
        a.op == "lin" and a.args[0] == 0 and len(a.args[1]) == 1
    ):
        c, fs = _mono_parts(a)
        if len(fs) > 1 or abs(c) != 1 or fs[0][1] != 1:
            out = abs(c)
            for t, e in fs:
                if isinstance(e, int) and e % 2 == 0:
                    out = mul(out, power(t, e))
                elif isinstance(e, int):
                    out = mul(out, power(absv(t), e))
                else:
                    out = mul(out, power(t, e))
            return out
        if c == -1:
            return absv(fs[0][0])
    # canonical sign for |x|
    if a.op == "lin" and a.args[1][0][1] < 0:
        a = neg(a)
    return ite(le(0, a), a, neg(a))


def floor(a):
    if not isinstance(a, T):
        return math.floor(a) if not _bad(a) else a
    if a.sort == "I":
        return a
    c, it = _lin_parts(a)
    # pull integer parts out
    ipart, rest = {}, {}
    for t, k in it:
        if t.sort == "I" and float(k).is_integer():
            ipart[t.id] = (t, int(k))
        else:
            rest[t.id] = (t, k)
    ci = math.floor(c)
    if not rest:
        return add(_mk_lin2(0, ipart), ci)
    r = _mk_lin2(c - ci if abs(c) < 2**52 else c, rest)
    lo, hi = bounds(r)
    if abs(lo) != INF and math.floor(lo) == math.floor(hi) and lo != hi:
        f = math.floor(lo)
    else:
        f = _mk("floor", (r,), "I")
    return add(add(f, ci), _mk_lin2(0, ipart))


def trunc(a):
    if not isinstance(a, T):
        return math.trunc(a) if not _bad(a) else a
    if a.sort == "I":
        return a
    if a.sort == "B":
        return ite(a, 1, 0)
    lo, hi = bounds(a)
    if lo >= 0:
        return floor(a)
    if hi <= 0:
        return neg(floor(neg(a)))
    return ite(le(0, a), floor(a), neg(floor(neg(a))))


def ceil(a):
    return neg(floor(neg(a)))


def rround(a):
    """round half to even"""
    if not isinstance(a, T):
        return round(a) if not _bad(a) else a
    if a.sort == "I":
        return a
    f = floor(add(a, 0.5))
    tie = eq(sub(add(a, 0.5), f), 0)
    return ite(land(tie, eq(mod(f, 2), 1)), sub(f, 1), f)


def floordiv(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        if b == 0:
            return float("nan")
        return a // b
    sa = a.sort if isinstance(a, T) else ("I" if isinstance(a, int) else "R")
    sb = b.sort if isinstance(b, T) else ("I" if isinstance(b, int) else "R")
    if sa == "I" and sb == "I":
        if not isinstance(b, T):
            lo, hi = bounds(a)
            if b == 1:
                return a
            if b > 0 and abs(lo) != INF and abs(hi) != INF and lo // b == hi // b:
                return int(lo // b)
            if b > 0:
                return _mk("idiv", (a, b), "I")
            return _mk("idiv", (neg(a), -b), "I")
        return floor(div(a, b))
    return floor(div(a, b))


def mod(a, b):
    """python semantics (sign of divisor)"""
    if not isinstance(a, T) and not isinstance(b, T):
        if b == 0:
            return float("nan")
        return a % b
    if not isinstance(b, T) and isinstance(b, int) and isinstance(a, T) and a.sort == "I":
        if b < 0:
            return neg(mod(neg(a), -b))
        lo, hi = bounds(a)
        if 0 <= lo and hi < b:
            return a
        c, it = _lin_parts(a)
        d = {t.id: (t, k % b) for t, k in it}
        aa = _mk_lin2(c % b, d)
        if not isinstance(aa, T):
            return aa % b
        lo, hi = bounds(aa)
        if 0 <= lo and hi < b:
            return aa
        return _mk("mod", (aa, b), "I")
    return sub(a, mul(b, floordiv(a, b)))


def fmod(a, b):
    """C semantics (sign of dividend)"""
    if not isinstance(a, T) and not isinstance(b, T):
        return math.fmod(a, b)
    return sub(a, mul(b, trunc(div(a, b))))


# ---------------------------------------------------------------- booleans
def lnot(a):
    if not isinstance(a, T):
        return not a
    if a.op == "not":
        return a.args[0]
    if a.op == "le":
        return lt(0, a.args[0])
    if a.op == "lt":
        return le(0, a.args[0])
    return _mk("not", (a,), "B")


def _tobool(a):
    if isinstance(a, CX):
        return lor(_tobool(a.re), _tobool(a.im))
    if isinstance(a, T):
        if a.sort == "B":
            return a
        return lnot(eq(a, 0))
    return bool(a)


def land(*xs):
    out = {}
    for x in xs:
        x = _tobool(x)
        if not isinstance(x, T):
            if not x:
                return False
            continue
        if x.op == "and":
            for y in x.args:
                out[y.id] = y
        else:
            out[x.id] = x
    if not out:
        return True
    vals = list(out.values())
    for y in vals:
        n = lnot(y)
        if isinstance(n, T) and n.id in out:
            return False
    if len(vals) == 1:
        return vals[0]
    vals.sort(key=lambda t: t.id)
    return _mk("and", tuple(vals), "B")


def lor(*xs):
    out = {}
    for x in xs:
        x = _tobool(x)
        if not isinstance(x, T):
            if x:
                return True
            continue
        if x.op == "or":
            for y in x.args:
                out[y.id] = y
        else:
            out[x.id] = x
    if not out:
        return False
    vals = list(out.values())
    for y in vals:
        n = lnot(y)
        if isinstance(n, T) and n.id in out:
            return True
    if len(vals) == 1:
        return vals[0]
    vals.sort(key=lambda t: t.id)
    return _mk("or", tuple(vals), "B")


def lxor(a, b):
    a, b = _tobool(a), _tobool(b)
    if not isinstance(a, T):
        return lnot(b) if a else b
    if not isinstance(b, T):
        return lnot(a) if b else a
    return land(lor(a, b), lnot(land(a, b)))


def implies(a, b):
    return lor(lnot(_tobool(a)), b)


def _cmp(op, d):
    """d <= 0 / d < 0 / d == 0"""
    if not isinstance(d, T):
        if op == "le":
            return d <= 0
        if op == "lt":
            return d < 0
        return d == 0
    lo, hi = bounds(d)
    if op == "le":
        if hi <= 0:
            return True
        if lo > 0:
            return False
    elif op == "lt":
        if hi < 0:
            return True
        if lo >= 0:
            return False
    else:
        if lo > 0 or hi < 0:
            return False
    c, it = _lin_parts(d)
    if op != "eq":
        r = _mono_cmp(op, c, it)
        if r is not None:
            return r
    # normalise scale
    k = abs(it[0][1])
    if d.sort != "I" and k != 1:
        d = _mk_lin2(c / k, {t.id: (t, v / k) for t, v in it})
        c, it = _lin_parts(d)
    if op == "eq" and it[0][1] < 0:
        d = neg(d)
    return _mk(op, (d,), "B")


def _mono_cmp(op, c, it):
    """c + k f(x) <= / < 0 for a monotone f (log, exp, fractional power)
    becomes a comparison of x; likewise k (f(x) - f(y))"""
    a, k = it[0]
    if len(it) == 2 and c == 0 and it[1][1] == -k:
        b = it[1][0]
        if a.op == b.op == "uf" and a.args[0] == b.args[0] and a.args[0] in ("log", "exp", "asin", "atan", "tanh", "erf", "sigmoid"):
            x, y = a.args[1], b.args[1]
            f = le if op == "le" else lt
            return f(x, y) if k > 0 else f(y, x)
        return None
    if len(it) != 1:
        return None
    r = -c / k
    inc = True
    if a.op == "uf" and a.args[0] in ("log", "exp"):
        x = a.args[1]
        if a.args[0] == "log":
            v = math.exp(r) if r < 700 else INF
            if v == INF:
                return None
        else:
            if r <= 0:
                return k < 0
            v = math.log(r)
    elif a.op == "mono" and len(a.args) == 1 and isinstance(a.args[0][1], Fraction):
        x, e = a.args[0]
        inc = e > 0
        if x.op == "uf" and x.args[0] == "id":
            x = x.args[1]
        if r < 0 or (r == 0 and not inc):
            return k < 0
        v = float(r) ** float(1 / e)
    else:
        return None
    f = le if op == "le" else lt
    return f(x, v) if (k > 0) == inc else f(v, x)


def _ite_cmp(op, a, b):
    """push comparison of ite-with-constant-branches against constants"""
    if isinstance(a, T) and a.op == "ite" and not isinstance(b, T):
        p, q = a.args[1], a.args[2]
        if not isinstance(p, T) and not isinstance(q, T):
            return ite(a.args[0], op(p, b), op(q, b))
    if isinstance(b, T) and b.op == "ite" and not isinstance(a, T):
        p, q = b.args[1], b.args[2]
        if not isinstance(p, T) and not isinstance(q, T):
            return ite(b.args[0], op(a, p), op(a, q))
    return None


def le(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return a <= b
    if _bad(a) or _bad(b):
        if a != a if _bad(a) else b != b:
            return False
        return (_bad(a) and a < 0) or (_bad(b) and b > 0)
    r = _ite_cmp(le, a, b)
    if r is not None:
        return r
    return _cmp("le", sub(a, b))


def lt(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return a < b
    if _bad(a) or _bad(b):
        if a != a if _bad(a) else b != b:
            return False
        return (_bad(a) and a < 0) or (_bad(b) and b > 0)
    r = _ite_cmp(lt, a, b)
    if r is not None:
        return r
    return _cmp("lt", sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if is_cx(a) or is_cx(b):
        ar, ai = re_im(a)
        br, bi = re_im(b)
        return land(eq(ar, br), eq(ai, bi))
    if not isinstance(a, T) and not isinstance(b, T):
        return a == b
    sa = a.sort if isinstance(a, T) else ("B" if isinstance(a, bool) else None)
    sb = b.sort if isinstance(b, T) else ("B" if isinstance(b, bool) else None)
    if sa == "B" and sb == "B":
        return lnot(lxor(a, b))
    if _bad(a) or _bad(b):
        return False
    r = _ite_cmp(eq, a, b)
    if r is not None:
        return r
    return _cmp("eq", sub(a, b))


def ite(c, a, b):
    if not isinstance(c, T):
        return a if c else b
    if c.sort != "B":
        return ite(_tobool(c), a, b)
    if is_cx(a) or is_cx(b):
        ar, ai = re_im(a)
        br, bi = re_im(b)
        return mkcx(ite(c, ar, br), ite(c, ai, bi))
    if a is b:
        return a
    if not isinstance(a, T) and not isinstance(b, T):
        if a == b and isinstance(a, bool) == isinstance(b, bool):
            return a
        if isinstance(a, bool) and isinstance(b, bool):
            return c if a else lnot(c)
    if c.op == "not":
        return ite(c.args[0], b, a)
    sa = a.sort if isinstance(a, T) else ("B" if isinstance(a, bool) else "I" if isinstance(a, int) else "R")
    sb = b.sort if isinstance(b, T) else ("B" if isinstance(b, bool) else "I" if isinstance(b, int) else "R")
    if sa == "B" and sb == "B":
        return lor(land(c, a), land(lnot(c), b))
    if isinstance(a, T) and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, T) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if sa == "B":
        a = ite(a, 1, 0)
        sa = "I"
    if sb == "B":
        b = ite(b, 1, 0)
        sb = "I"
    if isinstance(a, float) and isinstance(b, T) and b.sort == "I" and a.is_integer():
        pass
    sort = "I" if sa == "I" and sb == "I" else "R"
    return _mk("ite", (c, a, b), sort)


_chain = {}


def is_chain(t):
    """an ite tree all of whose leaves are numbers"""
    r = _chain.get(t.id)
    if r is None:
        r = t.op == "ite" and all(is_chain(x) if isinstance(x, T) else True for x in t.args[1:])
        _chain[t.id] = r
    return r


def leafmap(t, f):
    """f applied to the leaves of an ite tree with numeric leaves (or an affine
    function of one); None when t is not of that form"""
    if t.op == "lin":
        c, it = t.args
        if len(it) != 1 or not is_chain(it[0][0]):
            return None
        k = it[0][1]
        return leafmap(it[0][0], lambda v: f(c + k * v))
    if not is_chain(t):
        return None
    memo = {}

    def go(u):
        if not isinstance(u, T):
            return f(u)
        r = memo.get(u.id)
        if r is None:
            r = memo[u.id] = ite(u.args[0], go(u.args[1]), go(u.args[2]))
        return r

    return go(t)


def tmin(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return b if a != a else min(a, b) if b == b else b
    if isinstance(a, float) and a == INF:
        return b
    if isinstance(b, float) and b == INF:
        return a
    if not isinstance(b, T) or not isinstance(a, T):
        u, v = (a, b) if isinstance(a, T) else (b, a)
        r = leafmap(u, lambda w: min(w, v))
        if r is not None:
            return r
    return ite(le(a, b), a, b)


def tmax(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return max(a, b) if a == a and b == b else float("nan")
    if isinstance(a, float) and a == -INF:
        return b
    if isinstance(b, float) and b == -INF:
        return a
    if not isinstance(b, T) or not isinstance(a, T):
        u, v = (a, b) if isinstance(a, T) else (b, a)
        r = leafmap(u, lambda w: max(w, v))
        if r is not None:
            return r
    return ite(le(b, a), a, b)


def front(xs, biggest=True):
    """drop values that are never the extreme one (comparisons that fold)"""
    if len(xs) <= 3 or any(_bad(x) for x in xs):
        return xs
    kept = []
    for x in xs:
        new, drop = [], False
        for k in kept:
            r = le(x, k) if biggest else le(k, x)
            if r is True:
                drop = True
                break
            back = le(k, x) if biggest else le(x, k)
            if back is not True:
                new.append(k)
        if drop:
            continue
        kept = new + [x]
        if len(kept) > 6:
            return xs
    return kept


def linmap(m, xs):
    """numeric matrix (rows) applied to a list of real values"""
    m = np.asarray(m, dtype=float)
    if len(xs) >= 12:
        atoms, rows = {}, []
        for x in xs:
            if _bad(x):
                break
            k, it = _lin_parts(x)
            if len(it) > 8:
                break
            for a, _ in it:
                if a.id not in atoms:
                    atoms[a.id] = (len(atoms) + 1, a)
            rows.append((k, it))
            if len(atoms) > 12:
                break
        else:
            q = np.zeros((len(xs), len(atoms) + 1))
            for i, (k, it) in enumerate(rows):
                q[i, 0] = k
                for a, c in it:
                    q[i, atoms[a.id][0]] = c
            v = m @ q
            v[np.abs(v) < SNAP * (np.abs(m) @ np.abs(q))] = 0
            v = v.tolist()
            ts = [a for _, a in atoms.values()]
            return [_mk_lin2(r[0], {a.id: (a, c) for a, c in zip(ts, r[1:])}) for r in v]
    return [lincomb([(c, x) for c, x in zip(r, xs) if c != 0]) for r in m.tolist()]


# ---------------------------------------------------------------- functions
def uf(name, *args):
    return _mk("uf", (name,) + tuple(args), "R")


def _sc(a):
    """(sin, cos) of a real argument, expanded by the addition theorem"""
    if not isinstance(a, T):
        return _snapt(math.sin(a)), _snapt(math.cos(a))
    c, it = _lin_parts(a)
    s0, c0 = _snapt(math.sin(c)), _snapt(math.cos(c))
    if WHOLE:
        # everything but plain variables and inverse functions stays one angle
        keep = [(t, k) for t, k in it if WHOLE == "all" or not (t.op == "var" or (t.op == "uf" and t.args[0] in ("acos", "asin", "atan", "atan2")))]
        if len(keep) > 1:
            sg = 1 if keep[0][1] > 0 else -1
            u = _mk_lin2(0, {t.id: (t, sg * k) for t, k in keep})
            kept = {t.id for t, _ in keep}
            it = [(t, k) for t, k in it if t.id not in kept]
            st, ct = mul(sg, _mk("uf", ("sin", u), "R")), _mk("uf", ("cos", u), "R")
            s0, c0 = add(mul(s0, ct), mul(c0, st)), sub(mul(c0, ct), mul(s0, st))
    for t, k in it:
        st, ct = _sc_atom(t, k)
        s0, c0 = (
            add(mul(s0, ct), mul(c0, st)),
            sub(mul(c0, ct), mul(s0, st)),
        )
    return s0, c0


def _snapt(v):
    for w in (0.0, 1.0, -1.0, 0.5, -0.5):
        if abs(v - w) < 4e-16:
            return w
    return v


_TRIG_BASE = {}
WHOLE = False


def _sc_atom(t, k):
    if t.op == "uf" and abs(k) == 1:
        f = t.args[0]
        sg = 1 if k > 0 else -1
        if f == "acos":
            x = t.args[1]
            return mul(sg, sqrt(sub(1, mul(x, x)))), x
        if f == "asin":
            x = t.args[1]
            return mul(sg, x), sqrt(sub(1, mul(x, x)))
        if f == "atan":
            x = t.args[1]
            r = sqrt(add(1, mul(x, x)))
            return mul(sg, div(x, r)), div(1, r)
        if f == "atan2":
            y, x = t.args[1:]
            r = sqrt(add(mul(x, x), mul(y, y)))
            return mul(sg, div(y, r)), div(x, r)
    # integer (or half-integer-of-base) multiples use multiple-angle expansion
    fr = Fraction(k).limit_denominator(8)
    if abs(float(fr) - k) < 1e-13 * max(1, abs(k)) and abs(fr.numerator) <= 12:
        base = _TRIG_BASE.setdefault(t.id, [t, 1])
        # common denominator handling: base angle = t / den
        den = base[1]
        n = fr * den
        if n.denominator != 1:
            # angle finer than the base in use: introduce a finer base
            f = _mk("uf", ("sin", scale_t(t, Fraction(1, fr.denominator))), "R")
            g = _mk("uf", ("cos", scale_t(t, Fraction(1, fr.denominator))), "R")
            return _mult_angle(f, g, fr.numerator)
        u = scale_t(t, Fraction(1, den))
        f = _mk("uf", ("sin", u), "R")
        g = _mk("uf", ("cos", u), "R")
        return _mult_angle(f, g, int(n))
    sg = 1
    if k < 0:
        sg, k = -1, -k
    u = scale(t, k)
    return mul(sg, _mk("uf", ("sin", u), "R")), _mk("uf", ("cos", u), "R")


def scale_t(t, fr):
    if fr == 1:
        return t
    return _mk_lin2(0, {t.id: (t, float(fr))})


def trig_base(t, den):
    """declare that angle atom t should be expressed through t/den"""
    _TRIG_BASE[t.id] = [t, den]


def _mult_angle(s, c, n):
    sg = 1
    if n < 0:
        sg, n = -1, -n
    if n == 0:
        return 0, 1
    sn, cn = s, c
    for _ in range(n - 1):
        sn, cn = add(mul(sn, c), mul(cn, s)), sub(mul(cn, c), mul(sn, s))
    return mul(sg, sn), cn


def sin(a):
    if is_cx(a):
        raise NotImplementedError("complex sin")
    if not isinstance(a, T):
        return math.sin(a)
    if a.op == "ite" and not (isinstance(a.args[1], T) and isinstance(a.args[2], T)):
        return ite(a.args[0], sin(a.args[1]), sin(a.args[2]))
    return _sc(a)[0]


def cos(a):
    if is_cx(a):
        raise NotImplementedError("complex cos")
    if not isinstance(a, T):
        return math.cos(a)
    if a.op == "ite" and not (isinstance(a.args[1], T) and isinstance(a.args[2], T)):
        return ite(a.args[0], cos(a.args[1]), cos(a.args[2]))
    return _sc(a)[1]


def tan(a):
    if not isinstance(a, T):
        return math.tan(a)
    s, c = _sc(a)
    return div(s, c)


def exp(a):
    if is_cx(a):
        r, i = re_im(a)
        if not is_sym(a):
            import cmath

            return cmath.exp(complex(r, i))
        m = exp(r)
        s, c = _sc(i)
        return mkcx(mul(m, c), mul(m, s))
    if not isinstance(a, T):
        try:
            return math.exp(a)
        except OverflowError:
            return INF
    if a.op == "ite" and not (isinstance(a.args[1], T) and isinstance(a.args[2], T)):
        return ite(a.args[0], exp(a.args[1]), exp(a.args[2]))
    c, it = _lin_parts(a)
    d = {}
    coef = math.exp(c) if c != 0 else 1
    out_extra = 1
    for t, k in it:
        if t.op == "uf" and t.args[0] == "log":
            r = _rat(k)
            if r is not None:
                out_extra = mul(out_extra, power(t.args[1], _norm_e(r)))
                continue
        fr = Fraction(k).limit_denominator(24)
        if abs(float(fr) - k) < 1e-13 * max(1, abs(k)) and abs(fr.numerator) < 50:
            b = _mk("uf", ("exp", t), "R")
            d[b.id] = (b, fr)
        else:
            b = _mk("uf", ("exp", scale(t, k)), "R")
            d[b.id] = (b, 1)
    return mul(_mk_mono(coef, d) if d else coef, out_extra)


def log(a):
    if is_cx(a):
        if not is_sym(a):
            import cmath

            return cmath.log(complex(*re_im(a)))
        raise NotImplementedError("complex log")
    if not isinstance(a, T):
        if a == 0:
            return -INF
        return math.log(a) if a > 0 else float("nan")
    if a.sort == "B":
        a = ite(a, 1, 0)
    if a.op == "ite" and not (isinstance(a.args[1], T) and isinstance(a.args[2], T)):
        return ite(a.args[0], log(a.args[1]), log(a.args[2]))
    c, fs = _mono_parts(a)
    if c > 0 and all(bounds(t)[0] >= 0 for t, e in fs):
        out = math.log(c) if c != 1 else 0
        for t, e in fs:
            if t.op == "uf" and t.args[0] == "exp":
                out = add(out, mul(_fe(e), t.args[1]))
            else:
                out = add(out, mul(_fe(e), _mk("uf", ("log", t), "R")))
        return out
    return _mk("uf", ("log", a), "R")


def _fe(e):
    return float(e) if isinstance(e, Fraction) else e


# When CUT is a dictionary, every arc cosine and two-argument arc tangent becomes
# a fresh angle (the same for the same argument): an over-approximation that is
# sound for proofs; counterexamples are replayed on the real code as always.
# atan2(m sin u, m cos u) with m >= 0 is u, modulo a whole turn.
CUT = CUT_ENV = None


def _cut(name, args):
    if name == "atan2":
        y, x = args
        if isinstance(y, T) and isinstance(x, T):
            cy, fy = _mono_parts(y)
            cx_, fx = _mono_parts(x)
            dy, dx = {t.id: (t, e) for t, e in fy}, {t.id: (t, e) for t, e in fx}
            for t, e in fy:
                if e == 1 and t.op == "uf" and t.args[0] == "sin":
                    c = cos(t.args[1])
                    if isinstance(c, T) and c.id in dx and dx[c.id][1] == 1 and abs(cy) == abs(cx_):
                        ry = {k: v[1] for k, v in dy.items() if k != t.id}
                        rx = {k: v[1] for k, v in dx.items() if k != c.id}
                        if ry == rx and all(bounds(v[0])[0] >= 0 for k, v in dy.items() if k != t.id):
                            u = t.args[1]
                            u = u if cy > 0 else neg(u)
                            return u if cx_ > 0 else sub(math.pi, u)
    key = (name,) + tuple(a.id if isinstance(a, T) else a for a in args)
    v = CUT.get(key)
    if v is None:
        lo = 0.0 if name == "acos" else -math.pi
        v = CUT[key] = (var(f"angle{len(CUT)}", lo=lo, hi=math.pi), args)
        env = CUT_ENV
        memo = {}
        env[v[0].args[0]] = _NUMF[name](*[float(_ev(a, env, memo)) if isinstance(a, T) else a for a in args])
    return v[0]


def func(name, *args):
    """generic unary real function"""
    import cmath  # noqa: F401

    if all(not isinstance(x, (T, CX)) for x in args):
        return _NUMF[name](*args)
    if any(is_cx(x) for x in args):
        raise NotImplementedError("complex " + name)
    if name == "acos":
        a = args[0]
        if a.op == "uf" and a.args[0] == "cos" and bounds(a.args[1])[0] >= 0 and bounds(a.args[1])[1] <= 3.1415927:
            return a.args[1]
    if CUT is not None and name in ("acos", "atan2"):
        return _cut(name, args)
    if name == "asin":
        a = args[0]
        if a.op == "uf" and a.args[0] == "sin" and abs(bounds(a.args[1])[0]) <= 1.5707964 and bounds(a.args[1])[1] <= 1.5707964:
            return a.args[1]
    if name in ("atan", "tanh", "erf", "asin", "asinh"):
        # odd
        a = args[0]
        c, it = _lin_parts(a)
        if it and it[0][1] < 0:
            return neg(func(name, neg(a)))
    return _mk("uf", (name,) + tuple(args), "R")


def _safe(f):
    def g(*a):
        try:
            return f(*a)
        except (ValueError, OverflowError):
            return float("nan")

    return g


_NUMF = {
    "atan": math.atan,
    "atan2": math.atan2,
    "acos": _safe(math.acos),
    "asin": _safe(math.asin),
    "tanh": math.tanh,
    "sinh": _safe(math.sinh),
    "cosh": _safe(math.cosh),
    "erf": math.erf,
    "asinh": math.asinh,
    "lgamma": _safe(math.lgamma),
    "id": lambda x: x,
    "sigmoid": lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0,
}


# ---------------------------------------------------------------- evaluation
def evaluate(t, env, memo=None):
    """numeric value under env {varname: number}"""
    if memo is None:
        memo = {}
    return _ev(t, env, memo)


def _ev(t, env, memo):
    if isinstance(t, CX):
        return complex(_ev(t.re, env, memo), _ev(t.im, env, memo))
    if not isinstance(t, T):
        return t
    v = memo.get(t.id)
    if v is not None:
        return v
    op = t.op
    if op == "var":
        v = env[t.args[0]]
    elif op == "lin":
        c, it = t.args
        v = c
        for a, k in it:
            v = v + k * _ev(a, env, memo)
    elif op == "mono":
        v = 1
        for a, e in t.args:
            b = _ev(a, env, memo)
            try:
                if isinstance(e, int) and e >= 0:
                    v = v * b**e
                elif b == 0:
                    v = v * (0.0 if e > 0 else INF)
                else:
                    v = v * (float(b) ** float(e))
            except (OverflowError, ZeroDivisionError):
                v = INF
            if isinstance(v, complex):
                v = float("nan")
    elif op == "ite":
        v = _ev(t.args[1] if _ev(t.args[0], env, memo) else t.args[2], env, memo)
    elif op == "uf":
        f = t.args[0]
        xs = [_ev(x, env, memo) for x in t.args[1:]]
        try:
            if f == "sin":
                v = math.sin(xs[0])
            elif f == "cos":
                v = math.cos(xs[0])
            elif f == "exp":
                v = math.exp(xs[0])
            elif f == "log":
                v = math.log(xs[0])
            else:
                v = _NUMF[f](*xs)
        except (ValueError, OverflowError):
            v = float("nan")
    elif op == "floor":
        v = math.floor(_ev(t.args[0], env, memo))
    elif op == "mod":
        v = _ev(t.args[0], env, memo) % t.args[1]
    elif op == "idiv":
        v = _ev(t.args[0], env, memo) // t.args[1]
    elif op == "le":
        v = _ev(t.args[0], env, memo) <= 0
    elif op == "lt":
        v = _ev(t.args[0], env, memo) < 0
    elif op == "eq":
        v = _ev(t.args[0], env, memo) == 0
    elif op == "not":
        v = not _ev(t.args[0], env, memo)
    elif op == "and":
        v = all(_ev(x, env, memo) for x in t.args)
    elif op == "or":
        v = any(_ev(x, env, memo) for x in t.args)
    else:
        raise ValueError(op)
    memo[t.id] = v
    return v


def children(t):
    op = t.op
    if op == "lin":
        return [a for a, _ in t.args[1]]
    if op == "mono":
        return [a for a, _ in t.args]
    if op == "uf":
        return [a for a in t.args[1:] if isinstance(a, T)]
    if op == "var":
        return []
    return [a for a in t.args if isinstance(a, T)]


def walk(roots):
    seen = set()
    out = []
    stack = [r for r in roots if isinstance(r, T)]
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        stack.extend(children(t))
    return out


# ---------------------------------------------------------------- calculus
def subst(t, v, x, memo=None):
    """the term with variable v replaced by x; conditions on v are not expected"""
    if memo is None:
        memo = {}
    if isinstance(t, (CX, complex)):
        r, i = re_im(t)
        return mkcx(subst(r, v, x, memo), subst(i, v, x, memo))
    if not isinstance(t, T):
        return t
    if t is v:
        return x
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "lin":
        r = lincomb([(k, subst(a, v, x, memo)) for a, k in t.args[1]], t.args[0])
    elif t.op == "mono":
        r = 1
        for a, e in t.args:
            r = mul(r, power(subst(a, v, x, memo), e))
    elif t.op == "uf":
        xs = [subst(a, v, x, memo) for a in t.args[1:]]
        own = {"sin": sin, "cos": cos, "exp": exp, "log": log, "id": lambda a: a}
        r = own[t.args[0]](*xs) if t.args[0] in own else func(t.args[0], *xs)
    elif t.op == "ite":
        if any(a is v for a in walk([t.args[0]])):
            raise NotImplementedError("substitution into a condition")
        r = ite(t.args[0], subst(t.args[1], v, x, memo), subst(t.args[2], v, x, memo))
    else:
        r = t
    memo[t.id] = r
    return r


def diff(t, v, memo=None):
    """derivative of real term t with respect to var v (ignores ite boundaries)"""
    if memo is None:
        memo = {}
    if isinstance(t, (CX, complex)):
        r, i = re_im(t)
        return mkcx(diff(r, v, memo), diff(i, v, memo))
    if not isinstance(t, T):
        return 0
    if t is v:
        return 1
    r = memo.get(t.id)
    if r is not None:
        return r
    op = t.op
    if op == "lin":
        r = lincomb([(k, diff(a, v, memo)) for a, k in t.args[1]])
    elif op == "mono":
        r = 0
        for a, e in t.args:
            da = diff(a, v, memo)
            if not isinstance(da, T) and da == 0:
                continue
            r = add(r, mul(mul(_fe(e), da), div(t, a)))
    elif op == "ite":
        r = ite(t.args[0], diff(t.args[1], v, memo), diff(t.args[2], v, memo))
    elif op == "uf":
        f = t.args[0]
        x = t.args[1]
        dx = diff(x, v, memo)
        if not isinstance(dx, T) and dx == 0 and len(t.args) == 2:
            r = 0
        elif f == "sin":
            r = mul(_mk("uf", ("cos", x), "R"), dx)
        elif f == "cos":
            r = neg(mul(_mk("uf", ("sin", x), "R"), dx))
        elif f == "exp":
            r = mul(t, dx)
        elif f == "log":
            r = div(dx, x)
        elif f == "atan":
            r = div(dx, add(1, mul(x, x)))
        elif f == "id":
            r = dx
        elif f == "erf":
            r = mul(mul(2 / math.sqrt(math.pi), exp(neg(mul(x, x)))), dx)
        else:
            if any(
                isinstance(diff(y, v, memo), T) or diff(y, v, memo) != 0
                for y in t.args[1:]
            ):
                raise NotImplementedError("diff " + f)
            r = 0
    elif op in ("floor", "mod", "idiv"):
        r = 0
    else:
        r = 0
    memo[t.id] = r
    return r


# ---------------------------------------------------------------- expansion
class TooBig(Exception):
    pass


def expand(t, limit=20000, memo=None):
    """polynomial normal form: dict {monokey: (coef, ((atom,exp),...))}"""
    if memo is None:
        memo = {}
    return _expand(t, limit, memo)


def _is_ind(a):
    return a.op == "ite" and not isinstance(a.args[1], T) and not isinstance(a.args[2], T) and a.args[1] == 1 and a.args[2] == 0


def _ind(c, limit, memo):
    """polynomial (over 0/1 indicator atoms) of a boolean term"""
    if not isinstance(c, T):
        return {(): (1, ())} if c else {}
    k = ("ind", c.id)
    r = memo.get(k)
    if r is not None:
        return r
    one = {(): (1, ())}
    if c.op == "not":
        r = _psub(one, _ind(c.args[0], limit, memo))
    elif c.op == "and":
        r = one
        for a in c.args:
            r = _pmul(r, _ind(a, limit, memo), limit)
    elif c.op == "or":
        r = one
        for a in c.args:
            r = _pmul(r, _psub(one, _ind(a, limit, memo)), limit)
        r = _psub(one, r)
    elif c.op == "lt":
        r = _psub(one, _ind(lnot(c), limit, memo))
    else:
        t = _mk("ite", (c, 1, 0), "I")
        r = {((t.id, 1),): (1, ((t, 1),))}
    memo[k] = r
    return r


def _psub(p, q):
    out = dict(p)
    for k, (c, m) in q.items():
        o = out.get(k)
        out[k] = (-c, m) if o is None else (_cadd(o[0], -c), m)
    return {k: v for k, v in out.items() if v[0] != 0}


def _padd(p, q, limit):
    out = dict(p)
    for k, (c, m) in q.items():
        o = out.get(k)
        out[k] = (c, m) if o is None else (_cadd(o[0], c), m)
    if len(out) > limit:
        raise TooBig
    return {k: v for k, v in out.items() if v[0] != 0}


def _pmul(p, q, limit):
    out = {}
    if len(p) * len(q) > limit * 4:
        raise TooBig
    for c1, m1 in p.values():
        for c2, m2 in q.values():
            d = {}
            for a, e in m1:
                d[a.id] = (a, e)
            for a, e in m2:
                o = d.get(a.id)
                d[a.id] = (a, e) if o is None else (a, 1 if _is_ind(a) else _norm_e(o[1] + e))
            m = tuple(sorted([x for x in d.values() if x[1] != 0], key=lambda z: z[0].id))
            k = tuple((a.id, e) for a, e in m)
            c = c1 * c2
            o = out.get(k)
            out[k] = (c, m) if o is None else (_cadd(o[0], c), m)
    out = {k: v for k, v in out.items() if v[0] != 0}
    if len(out) > limit:
        raise TooBig
    return out


def _expand(t, limit, memo):
    if not isinstance(t, T):
        return {(): (t, ())} if t != 0 else {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "lin":
        out = {}
        c, it = t.args
        if c != 0:
            out[()] = (c, ())
        for a, k in it:
            for key, (cc, m) in _expand(a, limit, memo).items():
                o = out.get(key)
                v = cc * k
                out[key] = (v, m) if o is None else (_cadd(o[0], v), m)
        out = {k: v for k, v in out.items() if v[0] != 0}
        if len(out) > limit:
            raise TooBig
    elif t.op == "mono":
        out = {(): (1, ())}
        for a, e in t.args:
            if isinstance(e, int) and e > 0 and (a.op in ("lin", "mono") or (a.op == "ite" and "ites" in memo)):
                pa = _expand(a, limit, memo)
                for _ in range(e):
                    out = _pmul(out, pa, limit)
            elif isinstance(e, Fraction) and e > 1 and a.op in ("lin", "mono"):
                n = int(e)
                pa = _expand(a, limit, memo)
                for _ in range(n):
                    out = _pmul(out, pa, limit)
                out = _pmul(out, {((a.id, e - n),): (1, ((a, e - n),))}, limit)
            else:
                m = ((a, e),)
                out = _pmul(out, {((a.id, e),): (1, m)}, limit)
    elif t.op == "uf" and t.args[0] == "id":
        out = _expand(t.args[1], limit, memo)
    elif t.op == "ite" and "ites" in memo:
        pa, pb = _expand(t.args[1], limit, memo), _expand(t.args[2], limit, memo)
        d = _psub(pa, pb)
        out = _padd(pb, _pmul(_ind(t.args[0], limit, memo), d, limit), limit) if d else pb
    else:
        out = {((t.id, 1),): (1, ((t, 1),))}
    memo[t.id] = out
    return out


def trig_reduce(p):
    """replace cos(u)**n (n>=2) by 1 - sin(u)**2 in an expanded polynomial"""
    changed = True
    while changed:
        changed = False
        out = {}

        def acc(c, m):
            k = tuple((a.id, e) for a, e in m)
            o = out.get(k)
            out[k] = (c, m) if o is None else (_cadd(o[0], c), m)

        for c, m in p.values():
            hit = None
            for a, e in m:
                if a.op == "uf" and a.args[0] == "cos" and isinstance(e, int) and e >= 2:
                    hit = (a, e)
                    break
            if hit is None:
                acc(c, m)
                continue
            changed = True
            a, e = hit
            s = _mk("uf", ("sin", a.args[1]), "R")
            d = {x.id: (x, ee) for x, ee in m if x is not a}
            if e - 2:
                d[a.id] = (a, e - 2)
            m1 = tuple(sorted(d.values(), key=lambda z: z[0].id))
            acc(c, m1)
            o = d.get(s.id)
            d2 = dict(d)
            ne = 2 if o is None else _norm_e(o[1] + 2)
            if ne == 0:
                d2.pop(s.id)
            else:
                d2[s.id] = (s, ne)
            m2 = tuple(sorted(d2.values(), key=lambda z: z[0].id))
            acc(-c, m2)
        p = {k: v for k, v in out.items() if v[0] != 0}
    return p


def from_poly(p):
    return lincomb(
        [
            (c, _mk_mono(1, {a.id: (a, e) for a, e in m}) if m else 1)
            for c, m in p.values()
        ]
    )


def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if depth == 0:
        return "…"
    op = t.op
    if op == "var":
        return t.args[0]
    if op == "lin":
        c, it = t.args
        s = " + ".join(
            (f"{k:.4g}*" if k != 1 else "") + show(a, depth - 1) for a, k in it[:8]
        )
        if len(it) > 8:
            s += f" +…({len(it)})"
        return f"({c:.4g} + {s})" if c else f"({s})"
    if op == "mono":
        return "*".join(
            show(a, depth - 1) + (f"^{e}" if e != 1 else "") for a, e in t.args
        )
    if op == "ite":
        return "ite(" + ", ".join(show(a, depth - 1) for a in t.args) + ")"
    if op == "uf":
        return t.args[0] + "(" + ", ".join(show(a, depth - 1) for a in t.args[1:]) + ")"
    return op + "(" + ", ".join(show(a, depth - 1) for a in t.args) + ")"
