"""Symbolic semantics of aten operators on object-array payloads."""
import functools
import math
from fractions import Fraction

import numpy as np
import torch

from . import term as tm
from .term import CX, INF, T, is_sym
from .engine import (
    MOVE,
    RANDOM,
    Unsupported,
    _any_sym,
    _arr,
    _vec,
    _vec1,
    cast,
    reg,
)

MOVE.update(
    """clone contiguous cat stack flip roll repeat rot90 tril triu
    reflection_pad1d reflection_pad2d replication_pad1d replication_pad2d
    unfold_copy im2col diag_embed split_with_sizes_copy unbind_copy
    expand_copy permute_copy view_copy slice_scatter select_scatter
    diagonal_scatter as_strided_scatter pixel_shuffle upsample_nearest1d
    upsample_nearest2d channel_shuffle take_along_dim repeat_interleave
    transpose_copy slice_copy select_copy unsqueeze_copy squeeze_copy
    constant_pad_nd_move diag resolve_conj_move""".split()
)


def pre(f):
    f._pre = True
    return f


def P(E, x):
    if isinstance(x, torch.Tensor):
        return E.payload(x)
    return x


def getarg(func, args, kwargs, name, default=None):
    for i, a in enumerate(func._schema.arguments):
        if a.name == name:
            if i < len(args):
                return args[i]
            if name in kwargs:
                return kwargs[name]
            return a.default_value if a.has_default_value() else default
    return default


# ------------------------------------------------------------- elementwise
def unary(name, f):
    def h(E, func, args, kwargs, out):
        return _vec1(f, P(E, args[0]))

    reg(name)(h)


def binary(name, f):
    def h(E, func, args, kwargs, out):
        return _vec(f, P(E, args[0]), P(E, args[1]))

    reg(name)(h)


for nm, f in {
    "neg": tm.neg,
    "abs": tm.absv,
    "absolute": tm.absv,
    "sin": tm.sin,
    "cos": tm.cos,
    "tan": tm.tan,
    "exp": tm.exp,
    "log": tm.log,
    "sqrt": tm.sqrt,
    "rsqrt": lambda x: tm.div(1, tm.sqrt(x)),
    "reciprocal": lambda x: tm.div(1, x),
    "square": lambda x: tm.mul(x, x),
    "exp2": lambda x: tm.exp(tm.mul(x, math.log(2))),
    "expm1": lambda x: tm.sub(tm.exp(x), 1),
    "log1p": lambda x: tm.log(tm.add(1, x)),
    "log2": lambda x: tm.div(tm.log(x), math.log(2)),
    "log10": lambda x: tm.div(tm.log(x), math.log(10)),
    "floor": lambda x: tm.floor(x),
    "ceil": lambda x: tm.ceil(x),
    "trunc": lambda x: tm.trunc(x),
    "fix": lambda x: tm.trunc(x),
    "round": lambda x: tm.rround(x),
    "frac": lambda x: tm.sub(x, tm.trunc(x)),
    "atan": lambda x: tm.func("atan", x),
    "arctan": lambda x: tm.func("atan", x),
    "acos": lambda x: tm.func("acos", x),
    "arccos": lambda x: tm.func("acos", x),
    "asin": lambda x: tm.func("asin", x),
    "arcsin": lambda x: tm.func("asin", x),
    "asinh": lambda x: tm.func("asinh", x),
    "erf": lambda x: tm.func("erf", x),
    "lgamma": lambda x: tm.func("lgamma", x),
    "sinh": lambda x: tm.div(tm.sub(tm.exp(x), tm.exp(tm.neg(x))), 2),
    "cosh": lambda x: tm.div(tm.add(tm.exp(x), tm.exp(tm.neg(x))), 2),
    "tanh": lambda x: tm.func("tanh", x),
    "sigmoid": lambda x: tm.div(1, tm.add(1, tm.exp(tm.neg(x)))),
    "silu": lambda x: tm.div(x, tm.add(1, tm.exp(tm.neg(x)))),
    "relu": lambda x: tm.tmax(x, 0),
    "sign": lambda x: tm.ite(tm.lt(0, x), 1, tm.ite(tm.lt(x, 0), -1, 0)),
    "sgn": lambda x: tm.ite(tm.lt(0, x), 1, tm.ite(tm.lt(x, 0), -1, 0)),
    "logical_not": lambda x: tm.lnot(tm._tobool(x)),
    "isnan": lambda x: False if is_sym(x) else x != x,
    "isinf": lambda x: False if is_sym(x) else (not isinstance(x, complex) and abs(x) == INF),
    "isfinite": lambda x: True if is_sym(x) else (x == x and abs(x) != INF),
    "conj_physical": lambda x: x.conjugate(),
    "_conj_physical": lambda x: x.conjugate(),
    "resolve_conj": lambda x: x,
    "resolve_neg": lambda x: x,
    "positive": lambda x: x,
    "deg2rad": lambda x: tm.mul(x, math.pi / 180),
    "rad2deg": lambda x: tm.mul(x, 180 / math.pi),
}.items():
    unary(nm, f)


@reg("angle")
def _angle(E, func, args, kwargs, out):
    def f(x):
        if tm.is_cx(x):
            r, i = tm.re_im(x)
            return tm.func("atan2", i, r)
        return tm.ite(tm.lt(x, 0), math.pi, 0)

    return _vec1(f, P(E, args[0]))


@reg("bitwise_not")
def _bnot(E, func, args, kwargs, out):
    if args[0].dtype == torch.bool:
        return _vec1(lambda x: tm.lnot(tm._tobool(x)), P(E, args[0]))
    return _vec1(lambda x: tm.sub(tm.neg(x), 1), P(E, args[0]))


for nm, f in {
    "mul": tm.mul,
    "eq": tm.eq,
    "ne": lambda a, b: tm.lnot(tm.eq(a, b)),
    "lt": tm.lt,
    "le": tm.le,
    "gt": lambda a, b: tm.lt(b, a),
    "ge": lambda a, b: tm.le(b, a),
    "less": tm.lt,
    "less_equal": tm.le,
    "greater": lambda a, b: tm.lt(b, a),
    "greater_equal": lambda a, b: tm.le(b, a),
    "minimum": tm.tmin,
    "maximum": tm.tmax,
    "fmin": tm.tmin,
    "fmax": tm.tmax,
    "pow": tm.power,
    "float_power": tm.power,
    "logical_and": lambda a, b: tm.land(a, b),
    "logical_or": lambda a, b: tm.lor(a, b),
    "logical_xor": lambda a, b: tm.lxor(a, b),
    "atan2": lambda a, b: tm.func("atan2", a, b),
    "arctan2": lambda a, b: tm.func("atan2", a, b),
    "hypot": lambda a, b: tm.sqrt(tm.add(tm.mul(a, a), tm.mul(b, b))),
    "remainder": tm.mod,
    "fmod": tm.fmod,
    "floor_divide": tm.floordiv,
    "true_divide": tm.div,
    "copysign": lambda a, b: tm.ite(tm.le(0, b), tm.absv(a), tm.neg(tm.absv(a))),
    "heaviside": lambda a, b: tm.ite(tm.lt(a, 0), 0, tm.ite(tm.lt(0, a), 1, b)),
    "complex": lambda a, b: tm.mkcx(a, b),
    "polar": lambda r, t: tm.mul(r, tm.mkcx(tm.cos(t), tm.sin(t))),
    "ldexp": lambda a, b: tm.mul(a, tm.power(2, b)),
    "xlogy": lambda a, b: tm.mul(a, tm.log(b)),
}.items():
    binary(nm, f)


def _isbool(args):
    return all(
        (isinstance(a, torch.Tensor) and a.dtype == torch.bool) or isinstance(a, bool)
        for a in args[:2]
    )


for nm, bf in {
    "bitwise_and": tm.land,
    "bitwise_or": tm.lor,
    "bitwise_xor": tm.lxor,
    "__and__": tm.land,
    "__or__": tm.lor,
    "__xor__": tm.lxor,
}.items():

    def _bw(E, func, args, kwargs, out, bf=bf):
        if not _isbool(args):
            raise Unsupported("integer bitwise operation")
        return _vec(bf, P(E, args[0]), P(E, args[1]))

    reg(nm)(_bw)


@reg("add")
def _add(E, func, args, kwargs, out):
    a, b = P(E, args[0]), P(E, args[1])
    alpha = kwargs.get("alpha", args[2] if len(args) > 2 else 1)
    if _isbool(args):
        return _vec(tm.lor, a, b)
    if alpha == 1:
        return _vec(tm.add, a, b)
    return _vec(lambda x, y: tm.add(x, tm.mul(y, alpha)), a, b)


@reg("sub", "subtract")
def _sub(E, func, args, kwargs, out):
    a, b = P(E, args[0]), P(E, args[1])
    alpha = kwargs.get("alpha", args[2] if len(args) > 2 else 1)
    if alpha == 1:
        return _vec(tm.sub, a, b)
    return _vec(lambda x, y: tm.sub(x, tm.mul(y, alpha)), a, b)


@reg("rsub")
def _rsub(E, func, args, kwargs, out):
    a, b = P(E, args[0]), P(E, args[1])
    alpha = kwargs.get("alpha", args[2] if len(args) > 2 else 1)
    return _vec(lambda x, y: tm.sub(y, tm.mul(x, alpha)), a, b)


@reg("div", "divide")
def _div(E, func, args, kwargs, out):
    a, b = P(E, args[0]), P(E, args[1])
    rm = kwargs.get("rounding_mode")
    if rm is None:
        return _vec(tm.div, a, b)
    if rm == "floor":
        return _vec(tm.floordiv, a, b)

    def tdiv(x, y):
        if not isinstance(y, T) and isinstance(y, int) and y > 0 and isinstance(x, T) and x.sort == "I":
            if tm.bounds(x)[0] >= 0:
                return tm.floordiv(x, y)
            return tm.ite(tm.le(0, x), tm.floordiv(x, y), tm.neg(tm.floordiv(tm.neg(x), y)))
        return tm.trunc(tm.div(x, y))

    return _vec(tdiv, a, b)


@reg("addcmul")
def _addcmul(E, func, args, kwargs, out):
    v = kwargs.get("value", 1)
    return _vec(
        lambda a, b, c: tm.add(a, tm.mul(v, tm.mul(b, c))),
        *[P(E, x) for x in args[:3]],
    )


@reg("addcdiv")
def _addcdiv(E, func, args, kwargs, out):
    v = kwargs.get("value", 1)
    return _vec(
        lambda a, b, c: tm.add(a, tm.mul(v, tm.div(b, c))),
        *[P(E, x) for x in args[:3]],
    )


@reg("lerp")
def _lerp(E, func, args, kwargs, out):
    return _vec(
        lambda a, b, w: tm.add(a, tm.mul(w, tm.sub(b, a))), *[P(E, x) for x in args[:3]]
    )


@reg("clamp", "clip")
def _clamp(E, func, args, kwargs, out):
    lo = getarg(func, args, kwargs, "min")
    hi = getarg(func, args, kwargs, "max")
    r = P(E, args[0])
    if lo is not None:
        r = _vec(tm.tmax, r, P(E, lo))
    if hi is not None:
        r = _vec(tm.tmin, r, P(E, hi))
    return r


@reg("clamp_min")
def _cmin(E, func, args, kwargs, out):
    return _vec(tm.tmax, P(E, args[0]), P(E, args[1]))


@reg("clamp_max")
def _cmax(E, func, args, kwargs, out):
    return _vec(tm.tmin, P(E, args[0]), P(E, args[1]))


@reg("hardtanh")
def _htanh(E, func, args, kwargs, out):
    lo = args[1] if len(args) > 1 else -1
    hi = args[2] if len(args) > 2 else 1
    return _vec1(lambda x: tm.tmin(tm.tmax(x, lo), hi), P(E, args[0]))


@reg("leaky_relu")
def _lrelu(E, func, args, kwargs, out):
    s = args[1] if len(args) > 1 else 0.01
    return _vec1(lambda x: tm.ite(tm.lt(0, x), x, tm.mul(x, s)), P(E, args[0]))


@reg("elu")
def _elu(E, func, args, kwargs, out):
    return _vec1(lambda x: tm.ite(tm.lt(0, x), x, tm.sub(tm.exp(x), 1)), P(E, args[0]))


@reg("gelu")
def _gelu(E, func, args, kwargs, out):
    if kwargs.get("approximate", "none") != "none":
        return NotImplemented
    return _vec1(
        lambda x: tm.mul(tm.mul(0.5, x), tm.add(1, tm.func("erf", tm.mul(x, 2**-0.5)))),
        P(E, args[0]),
    )


@reg("softplus")
def _softplus(E, func, args, kwargs, out):
    return _vec1(lambda x: tm.log(tm.add(1, tm.exp(x))), P(E, args[0]))


@reg("sinc")
def _sinc(E, func, args, kwargs, out):
    def f(x):
        if not is_sym(x):
            return float(np.sinc(x))
        y = tm.mul(x, math.pi)
        return tm.ite(tm.eq(x, 0), 1, tm.div(tm.sin(y), y))

    return _vec1(f, P(E, args[0]))


@reg("nan_to_num")
def _n2n(E, func, args, kwargs, out):
    nan = getarg(func, args, kwargs, "nan") or 0.0

    def f(x):
        if is_sym(x):
            return x
        return nan if x != x else x

    return _vec1(f, P(E, args[0]))


@reg("where")
def _where(E, func, args, kwargs, out):
    if len(args) < 3:
        return NotImplemented
    return _vec(tm.ite, P(E, args[0]), P(E, args[1]), P(E, args[2]))


@reg("masked_fill")
def _mfill(E, func, args, kwargs, out):
    a, m, v = P(E, args[0]), P(E, args[1]), P(E, args[2])
    return np.broadcast_to(_vec(lambda c, x, y: tm.ite(c, y, x), m, a, v), out.shape)


@reg("fill")
def _fill(E, func, args, kwargs, out):
    v = P(E, args[1])
    return np.broadcast_to(_arr(v), tuple(args[0].shape)).copy()


@reg("zero")
def _zero(E, func, args, kwargs, out):
    r = np.empty(tuple(args[0].shape), dtype=object)
    r.fill(0.0)
    return r


@reg("copy")
def _copy(E, func, args, kwargs, out):
    a = P(E, args[1])
    return np.broadcast_to(cast(E, a, args[0].dtype, args[1].dtype), tuple(args[0].shape)).copy()


@reg("_to_copy", "to", "type_as")
def _tocopy(E, func, args, kwargs, out):
    return cast(E, P(E, args[0]), out.dtype, args[0].dtype)


@reg("real")
def _real(E, func, args, kwargs, out):
    return _vec1(lambda x: tm.re_im(x)[0], P(E, args[0]))


@reg("imag")
def _imag(E, func, args, kwargs, out):
    return _vec1(lambda x: tm.re_im(x)[1], P(E, args[0]))


@reg("view_as_real")
@pre
def _var_(E, func, args, kwargs, out):
    p = P(E, args[0])
    o = torch.view_as_real(args[0].resolve_conj().clone())
    r = np.empty(p.shape + (2,), dtype=object)
    r[..., 0] = _vec1(lambda x: tm.re_im(x)[0], p)
    r[..., 1] = _vec1(lambda x: tm.re_im(x)[1], p)
    o = o.clone()
    E.put(o, r)
    return o


@reg("view_as_complex")
@pre
def _vac_(E, func, args, kwargs, out):
    p = P(E, args[0])
    o = torch.view_as_complex(args[0].contiguous().clone()).clone()
    E.put(o, _vec(lambda a, b: tm.mkcx(a, b), p[..., 0], p[..., 1]))
    return o


# ------------------------------------------------------------- reductions
def _dims(x, dim):
    nd = x.ndim
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(nd))
    if isinstance(dim, int):
        dim = [dim]
    return tuple(d % nd if nd else 0 for d in dim)


def _reduce(p, dims, f):
    """f(list)->value over dims; keeps remaining dims"""
    nd = p.ndim
    if nd == 0:
        return _arr(f([p[()]]))
    keep = [d for d in range(nd) if d not in dims]
    q = np.transpose(p, keep + list(dims)).reshape(
        tuple(p.shape[d] for d in keep) + (-1,)
    )
    out = np.empty(q.shape[:-1], dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = f(list(q[ix]))
    return out


def tsum(xs):
    if any(tm.is_cx(x) for x in xs):
        return tm.mkcx(
            tm.lincomb([(1, tm.re_im(x)[0]) for x in xs]),
            tm.lincomb([(1, tm.re_im(x)[1]) for x in xs]),
        )
    return tm.lincomb([(1, tm.ite(x, 1, 0) if isinstance(x, T) and x.sort == "B" else x) for x in xs])


def tprod(xs):
    r = 1
    for x in xs:
        r = tm.mul(r, x)
    return r


def _shape(r, out):
    return np.asarray(r, dtype=object).reshape(tuple(out.shape))


@reg("sum", "nansum")
def _sum(E, func, args, kwargs, out):
    p = P(E, args[0])
    return _shape(_reduce(p, _dims(p, getarg(func, args, kwargs, "dim")), tsum), out)


@reg("mean")
def _mean(E, func, args, kwargs, out):
    p = P(E, args[0])
    return _shape(
        _reduce(
            p,
            _dims(p, getarg(func, args, kwargs, "dim")),
            lambda xs: tm.div(tsum(xs), len(xs)),
        ),
        out,
    )


@reg("prod")
def _prod(E, func, args, kwargs, out):
    p = P(E, args[0])
    return _shape(_reduce(p, _dims(p, getarg(func, args, kwargs, "dim")), tprod), out)


def _fold(f):
    def g(xs):
        if f in (tm.tmax, tm.tmin):
            xs = tm.front(xs, f is tm.tmax)
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r

    return g


@reg("amax")
def _amax(E, func, args, kwargs, out):
    p = P(E, args[0])
    return _shape(_reduce(p, _dims(p, getarg(func, args, kwargs, "dim")), _fold(tm.tmax)), out)


@reg("amin")
def _amin(E, func, args, kwargs, out):
    p = P(E, args[0])
    return _shape(_reduce(p, _dims(p, getarg(func, args, kwargs, "dim")), _fold(tm.tmin)), out)


def _argbest(better):
    """index of first best element"""

    def g(xs):
        bi, bv = 0, xs[0]
        for i, x in enumerate(xs[1:], 1):
            c = better(x, bv)
            bi = tm.ite(c, i, bi)
            bv = tm.ite(c, x, bv)
        return bi

    return g


def _maxmin(val, better):
    def h(E, func, args, kwargs, out):
        p = P(E, args[0])
        if func._overloadname in ("other",):
            return _vec(val, p, P(E, args[1]))
        if isinstance(out, (tuple, list)):
            d = _dims(p, args[1])
            v = _reduce(p, d, _fold(val))
            i = _reduce(p, d, _argbest(better))
            return (_shape(v, out[0]), _shape(i, out[1]))
        return _shape(_reduce(p, _dims(p, None), _fold(val)), out)

    return h


reg("max")(_maxmin(tm.tmax, lambda x, b: tm.lt(b, x)))
reg("min")(_maxmin(tm.tmin, lambda x, b: tm.lt(x, b)))


@reg("argmax")
def _argmax(E, func, args, kwargs, out):
    p = P(E, args[0])
    return _shape(_reduce(p, _dims(p, getarg(func, args, kwargs, "dim")), _argbest(lambda x, b: tm.lt(b, x))), out)


@reg("argmin")
def _argmin(E, func, args, kwargs, out):
    p = P(E, args[0])
    return _shape(_reduce(p, _dims(p, getarg(func, args, kwargs, "dim")), _argbest(lambda x, b: tm.lt(x, b))), out)


@reg("any")
def _any(E, func, args, kwargs, out):
    p = P(E, args[0])
    return _shape(_reduce(p, _dims(p, getarg(func, args, kwargs, "dim")), lambda xs: tm.lor(*xs)), out)


@reg("all", "_is_all_true")
def _all(E, func, args, kwargs, out):
    p = P(E, args[0])
    return _shape(_reduce(p, _dims(p, getarg(func, args, kwargs, "dim")), lambda xs: tm.land(*xs)), out)


@reg("_is_any_true")
def _anyt(E, func, args, kwargs, out):
    p = P(E, args[0])
    return _shape(_reduce(p, _dims(p, None), lambda xs: tm.lor(*xs)), out)


@reg("count_nonzero")
def _cnz(E, func, args, kwargs, out):
    p = P(E, args[0])
    return _shape(
        _reduce(p, _dims(p, getarg(func, args, kwargs, "dim")), lambda xs: tsum([tm.ite(tm._tobool(x), 1, 0) for x in xs])),
        out,
    )


def _scan(p, dim, f):
    nd = p.ndim
    if nd == 0:
        return p.copy()
    q = np.moveaxis(p, dim, -1)
    out = np.empty(q.shape, dtype=object)
    for ix in np.ndindex(*q.shape[:-1]):
        acc = None
        for k in range(q.shape[-1]):
            acc = q[ix + (k,)] if acc is None else f(acc, q[ix + (k,)])
            out[ix + (k,)] = acc
    return np.moveaxis(out, -1, dim)


@reg("cumsum")
def _cumsum(E, func, args, kwargs, out):
    return _scan(P(E, args[0]), args[1], tm.add)


@reg("cumprod")
def _cumprod(E, func, args, kwargs, out):
    return _scan(P(E, args[0]), args[1], tm.mul)


def _cumext(val, notworse):
    def h(E, func, args, kwargs, out):
        p = P(E, args[0])
        v = _scan(p, args[1], val)
        idx = np.empty(p.shape, dtype=object)
        q = np.moveaxis(p, args[1], -1)
        qi = np.moveaxis(idx, args[1], -1)
        for ix in np.ndindex(*q.shape[:-1]):
            bi, bv = 0, q[ix + (0,)]
            qi[ix + (0,)] = 0
            for k in range(1, q.shape[-1]):
                c = notworse(q[ix + (k,)], bv)
                bi = tm.ite(c, k, bi)
                bv = tm.ite(c, q[ix + (k,)], bv)
                qi[ix + (k,)] = bi
        return (v, idx)

    return h


reg("cummax")(_cumext(tm.tmax, lambda x, b: tm.le(b, x)))
reg("cummin")(_cumext(tm.tmin, lambda x, b: tm.le(x, b)))


@reg("_cummax_helper", "_cummin_helper")
def _cumhelper(E, func, args, kwargs, out):
    # (self, values!, indices!, dim)
    fn = HANDLERS_["cummax" if "max" in func._schema.name else "cummin"]
    return fn(E, func, (args[0], args[3]), {}, None)


@reg("logcumsumexp")
def _lcse(E, func, args, kwargs, out):
    p = _vec1(tm.exp, P(E, args[0]))
    return _vec1(tm.log, _scan(p, args[1], tm.add))


def _varf(xs, corr):
    n = len(xs)
    m = tm.div(tsum(xs), n)
    return tm.div(tsum([_sq(tm.sub(x, m)) for x in xs]), n - corr)


def _sq(d):
    if tm.is_cx(d):
        r, i = tm.re_im(d)
        return tm.add(tm.mul(r, r), tm.mul(i, i))
    return tm.mul(d, d)


def _corr(func, args, kwargs):
    c = getarg(func, args, kwargs, "correction")
    u = getarg(func, args, kwargs, "unbiased")
    if c is not None:
        return c
    if u is not None:
        return 1 if u else 0
    return 1


@reg("var")
def _var(E, func, args, kwargs, out):
    p = P(E, args[0])
    c = _corr(func, args, kwargs)
    return _shape(_reduce(p, _dims(p, getarg(func, args, kwargs, "dim")), lambda xs: _varf(xs, c)), out)


@reg("std")
def _std(E, func, args, kwargs, out):
    p = P(E, args[0])
    c = _corr(func, args, kwargs)
    return _shape(
        _reduce(p, _dims(p, getarg(func, args, kwargs, "dim")), lambda xs: tm.sqrt(_varf(xs, c))), out
    )


@reg("var_mean")
def _varmean(E, func, args, kwargs, out):
    p = P(E, args[0])
    c = _corr(func, args, kwargs)
    d = _dims(p, getarg(func, args, kwargs, "dim"))
    return (
        _shape(_reduce(p, d, lambda xs: _varf(xs, c)), out[0]),
        _shape(_reduce(p, d, lambda xs: tm.div(tsum(xs), len(xs))), out[1]),
    )


@reg("std_mean")
def _stdmean(E, func, args, kwargs, out):
    p = P(E, args[0])
    c = _corr(func, args, kwargs)
    d = _dims(p, getarg(func, args, kwargs, "dim"))
    return (
        _shape(_reduce(p, d, lambda xs: tm.sqrt(_varf(xs, c))), out[0]),
        _shape(_reduce(p, d, lambda xs: tm.div(tsum(xs), len(xs))), out[1]),
    )


@reg("linalg_vector_norm", "norm")
def _norm(E, func, args, kwargs, out):
    p = P(E, args[0])
    o = getarg(func, args, kwargs, "ord")
    if o is None:
        o = getarg(func, args, kwargs, "p")
    if o is None:
        o = 2
    d = _dims(p, getarg(func, args, kwargs, "dim"))
    o = float(o)

    def f(xs):
        if o == 2:
            return tm.sqrt(tsum([_sq(x) for x in xs]))
        if o == 1:
            return tsum([tm.absv(x) for x in xs])
        if o == INF:
            return _fold(tm.tmax)([tm.absv(x) for x in xs])
        if o == -INF:
            return _fold(tm.tmin)([tm.absv(x) for x in xs])
        return tm.power(tsum([tm.power(tm.absv(x), o) for x in xs]), 1 / o)

    return _shape(_reduce(p, d, f), out)


@reg("logsumexp")
def _lse(E, func, args, kwargs, out):
    p = P(E, args[0])
    return _shape(_reduce(p, _dims(p, args[1]), lambda xs: tm.log(tsum([tm.exp(x) for x in xs]))), out)


@reg("_softmax", "softmax")
def _softmax(E, func, args, kwargs, out):
    p = _vec1(tm.exp, P(E, args[0]))
    d = args[1] % p.ndim
    s = _reduce(p, (d,), tsum)
    return _vec(tm.div, p, np.expand_dims(s, d))


@reg("_log_softmax", "log_softmax")
def _lsoftmax(E, func, args, kwargs, out):
    x = P(E, args[0])
    p = _vec1(tm.exp, x)
    d = args[1] % p.ndim
    s = _vec1(tm.log, _reduce(p, (d,), tsum))
    return _vec(tm.sub, x, np.expand_dims(s, d))


# ------------------------------------------------------------- sorting
def _decided_sort(xs):
    """sort whose every comparison folds to a constant, else None"""

    class Open(Exception):
        pass

    def cmp(a, b):
        if a is b:
            return 0
        r = tm.le(a, b)
        if isinstance(r, tm.T):
            raise Open
        return -1 if r else 1

    try:
        return sorted(xs, key=functools.cmp_to_key(cmp))
    except Open:
        return None


def sort_vals(xs, descending=False):
    xs = list(xs)
    n = len(xs)
    if n > 4:
        done = _decided_sort(xs)
        if done is not None:
            return done[::-1] if descending else done
    if n > 16:
        raise Unsupported("symbolic sort of more than 16 values")
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            lo, hi = tm.tmin(a, b), tm.tmax(a, b)
            xs[j], xs[j + 1] = (hi, lo) if descending else (lo, hi)
    return xs


def sort_idx(xs, descending=False):
    n = len(xs)
    ranks = []
    for i in range(n):
        r = []
        for j in range(n):
            if i == j:
                continue
            before = tm.lt(xs[i], xs[j]) if descending else tm.lt(xs[j], xs[i])
            if j < i:
                before = tm.lor(before, tm.eq(xs[i], xs[j]))
            r.append(tm.ite(before, 1, 0))
        ranks.append(tsum(r) if r else 0)
    out = []
    for k in range(n):
        v = n - 1
        for i in range(n - 1):
            v = tm.ite(tm.eq(ranks[i], k), i, v)
        out.append(v)
    return out


def _lanes(p, dim):
    q = np.moveaxis(p, dim, -1) if p.ndim else p.reshape(1)
    return q


@reg("sort")
def _sort(E, func, args, kwargs, out):
    p = P(E, args[0])
    dim = getarg(func, args, kwargs, "dim")
    dim = -1 if dim is None else dim
    desc = bool(getarg(func, args, kwargs, "descending"))
    q = _lanes(p, dim)
    v = np.empty(q.shape, dtype=object)
    ii = np.empty(q.shape, dtype=object)
    for ix in np.ndindex(*q.shape[:-1]):
        xs = list(q[ix])
        v[ix] = sort_vals(xs, desc)
        ii[ix] = sort_idx(xs, desc)
    return (np.moveaxis(v, -1, dim), np.moveaxis(ii, -1, dim))


@reg("argsort")
def _argsort(E, func, args, kwargs, out):
    p = P(E, args[0])
    dim = getarg(func, args, kwargs, "dim")
    dim = -1 if dim is None else dim
    desc = bool(getarg(func, args, kwargs, "descending"))
    q = _lanes(p, dim)
    ii = np.empty(q.shape, dtype=object)
    for ix in np.ndindex(*q.shape[:-1]):
        ii[ix] = sort_idx(list(q[ix]), desc)
    return np.moveaxis(ii, -1, dim)


@reg("topk")
def _topk(E, func, args, kwargs, out):
    p = P(E, args[0])
    k = args[1]
    dim = getarg(func, args, kwargs, "dim")
    dim = -1 if dim is None else dim
    lg = getarg(func, args, kwargs, "largest")
    q = _lanes(p, dim)
    v = np.empty(q.shape[:-1] + (k,), dtype=object)
    ii = np.empty(q.shape[:-1] + (k,), dtype=object)
    for ix in np.ndindex(*q.shape[:-1]):
        v[ix] = sort_vals(list(q[ix]), lg)[:k]
        ii[ix] = sort_idx(list(q[ix]), lg)[:k]
    return (np.moveaxis(v, -1, dim), np.moveaxis(ii, -1, dim))


@reg("median", "nanmedian")
def _median(E, func, args, kwargs, out):
    p = P(E, args[0])
    if isinstance(out, torch.Tensor):
        xs = list(p.reshape(-1))
        return _shape(sort_vals(xs)[(len(xs) - 1) // 2], out)
    d = _dims(p, args[1])
    v = _reduce(p, d, lambda xs: sort_vals(xs)[(len(xs) - 1) // 2])
    i = _reduce(p, d, lambda xs: sort_idx(xs)[(len(xs) - 1) // 2])
    return (_shape(v, out[0]), _shape(i, out[1]))


@reg("kthvalue")
def _kth(E, func, args, kwargs, out):
    p = P(E, args[0])
    k = args[1]
    d = _dims(p, args[2] if len(args) > 2 else -1)
    v = _reduce(p, d, lambda xs: sort_vals(xs)[k - 1])
    i = _reduce(p, d, lambda xs: sort_idx(xs)[k - 1])
    return (_shape(v, out[0]), _shape(i, out[1]))


# ------------------------------------------------------------- linear algebra
def dot(xs, ys):
    if any(tm.is_cx(x) for x in xs) or any(tm.is_cx(y) for y in ys):
        r = 0
        for x, y in zip(xs, ys):
            r = tm.add(r, tm.mul(x, y))
        return r
    pairs = []
    extra = 0
    for x, y in zip(xs, ys):
        if not isinstance(y, T):
            pairs.append((y if not isinstance(y, bool) else int(y), x))
        elif not isinstance(x, T):
            pairs.append((x if not isinstance(x, bool) else int(x), y))
        else:
            pairs.append((1, tm.mul(x, y)))
    return tm.lincomb(pairs, extra)


def matmul(a, b):
    if a.ndim == 1 and b.ndim == 1:
        return _arr(dot(a, b))
    n, k = a.shape
    m = b.shape[1]
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            out[i, j] = dot(a[i], b[:, j])
    return out


@reg("mm")
def _mm(E, func, args, kwargs, out):
    return matmul(P(E, args[0]), P(E, args[1]))


@reg("bmm")
def _bmm(E, func, args, kwargs, out):
    a, b = P(E, args[0]), P(E, args[1])
    r = np.empty((a.shape[0], a.shape[1], b.shape[2]), dtype=object)
    for i in range(a.shape[0]):
        r[i] = matmul(a[i], b[i])
    return r


@reg("mv")
def _mv(E, func, args, kwargs, out):
    a, b = P(E, args[0]), P(E, args[1])
    r = np.empty((a.shape[0],), dtype=object)
    for i in range(a.shape[0]):
        r[i] = dot(a[i], b)
    return r


@reg("dot", "vdot")
def _dot(E, func, args, kwargs, out):
    a, b = P(E, args[0]), P(E, args[1])
    if func._schema.name.endswith("vdot"):
        a = _vec1(lambda x: x.conjugate(), a)
    return _arr(dot(a, b))


@reg("addmm")
def _addmm(E, func, args, kwargs, out):
    be, al = kwargs.get("beta", 1), kwargs.get("alpha", 1)
    r = matmul(P(E, args[1]), P(E, args[2]))
    return _vec(lambda x, y: tm.add(tm.mul(be, x), tm.mul(al, y)), P(E, args[0]), r)


@reg("addmv")
def _addmv(E, func, args, kwargs, out):
    r = _mv(E, func, args[1:], kwargs, out)
    return _vec(tm.add, P(E, args[0]), r)


@reg("baddbmm")
def _baddbmm(E, func, args, kwargs, out):
    be, al = kwargs.get("beta", 1), kwargs.get("alpha", 1)
    r = _bmm(E, func, args[1:], kwargs, out)
    return _vec(lambda x, y: tm.add(tm.mul(be, x), tm.mul(al, y)), P(E, args[0]), r)


@reg("linalg_cross", "cross")
def _cross(E, func, args, kwargs, out):
    a, b = P(E, args[0]), P(E, args[1])
    dim = getarg(func, args, kwargs, "dim")
    dim = -1 if dim is None else dim
    a, b = np.broadcast_arrays(a, b)
    a, b = np.moveaxis(a, dim, -1), np.moveaxis(b, dim, -1)
    r = np.empty(a.shape, dtype=object)
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        r[..., i] = _vec(
            lambda p, q, s, t: tm.sub(tm.mul(p, q), tm.mul(s, t)),
            a[..., j], b[..., k], a[..., k], b[..., j],
        )
    return np.moveaxis(r, -1, dim)


@reg("trace")
def _trace(E, func, args, kwargs, out):
    p = P(E, args[0])
    return _arr(tsum([p[i, i] for i in range(min(p.shape))]))


def _solve_lin(a, b):
    """A X = B for object arrays (2-D); A concrete -> float inverse, else Gauss"""
    n = a.shape[0]
    if not _any_sym(a):
        inv = np.linalg.inv(np.array(a.tolist(), dtype=complex if any(isinstance(x, complex) for x in a.reshape(-1)) else float))
        ia = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                ia[i, j] = inv[i, j].item()
        return matmul(ia, b)
    if n > 3:
        raise Unsupported("symbolic linear solve")
    return matmul(_inv_small(a), b)


def _det(a):
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    r = 0
    for j in range(n):
        minor = np.delete(np.delete(a, 0, 0), j, 1)
        r = tm.add(r, tm.mul((-1) ** j, tm.mul(a[0, j], _det(minor))))
    return r


def _inv_small(a):
    n = a.shape[0]
    d = _det(a)
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(a, j, 0), i, 1)
            c = _det(minor) if n > 1 else 1
            r[i, j] = tm.div(tm.mul((-1) ** (i + j), c), d)
    return r


def _batched(f, a, *bs):
    """apply f on trailing matrix dims, broadcasting batch dims"""
    lead = np.broadcast_shapes(a.shape[:-2], *[b.shape[:-2] for b in bs])
    a = np.broadcast_to(a, lead + a.shape[-2:])
    bs = [np.broadcast_to(b, lead + b.shape[-2:]) for b in bs]
    res = None
    for ix in np.ndindex(*lead):
        r = f(a[ix], *[b[ix] for b in bs])
        if res is None:
            res = np.empty(lead + r.shape, dtype=object)
        res[ix] = r
    return res


@reg("_linalg_solve_ex", "linalg_solve_ex", "linalg_solve")
def _lsolve(E, func, args, kwargs, out):
    a, b = P(E, args[0]), P(E, args[1])
    left = getarg(func, args, kwargs, "left")
    left = True if left is None else left
    vec = b.ndim == 1 or (b.ndim == a.ndim - 1 and b.shape == a.shape[:-1])
    bb = b[..., None] if vec else b
    if left:
        r = _batched(_solve_lin, a, bb)
    else:
        r = np.swapaxes(_batched(_solve_lin, np.swapaxes(a, -1, -2), np.swapaxes(bb, -1, -2)), -1, -2)
    if vec:
        r = r[..., 0]
    if isinstance(out, torch.Tensor):
        return r
    return (r,) + (None,) * (len(out) - 1)


@reg("linalg_inv_ex", "inverse", "linalg_inv")
def _linv(E, func, args, kwargs, out):
    a = P(E, args[0])
    r = _batched(_inv_small, a) if a.shape[-1] <= 3 else None
    if r is None:
        raise Unsupported("symbolic inverse")
    return r if isinstance(out, torch.Tensor) else (r, None)


@reg("linalg_solve_triangular", "triangular_solve")
def _ltri(E, func, args, kwargs, out):
    if func._schema.name.endswith("triangular_solve"):
        b, a = P(E, args[0]), P(E, args[1])
    else:
        a, b = P(E, args[0]), P(E, args[1])
    r = _batched(_solve_lin, a, b)
    return r if isinstance(out, torch.Tensor) else (r, None)


@reg("linalg_lu_solve", "lu_solve", "cholesky_solve", "linalg_lstsq")
def _linear_in_rhs(E, func, args, kwargs, out):
    """operators linear in one concrete-matrix right-hand side: matrix extracted
    column by column from the real kernel"""
    nm = func._schema.name.split("::")[1]
    bi = {"linalg_lu_solve": 2, "lu_solve": 0, "cholesky_solve": 0, "linalg_lstsq": 1}[nm]
    for i, a in enumerate(args):
        if i != bi and isinstance(a, torch.Tensor) and E.symbolic_tensor(a):
            raise Unsupported(nm + " with a symbolic matrix")
    return _linear_kernel(E, func, args, kwargs, bi, out)


def _linear_kernel(E, func, args, kwargs, bi, out):
    b = args[bi]
    p = E.payload(b)
    n = p.size
    first = out if isinstance(out, torch.Tensor) else out[0]
    cols = []
    for k in range(n):
        e = torch.zeros(n, dtype=b.dtype)
        e[k] = 1
        a2 = list(args)
        a2[bi] = e.reshape(b.shape)
        r = func(*a2, **kwargs)
        r = r if isinstance(r, torch.Tensor) else r[0]
        cols.append(r.detach().reshape(-1).tolist())
    flat = p.reshape(-1)
    m = first.numel()
    res = np.empty(m, dtype=object)
    for j in range(m):
        res[j] = dot([cols[k][j] for k in range(n)], list(flat))
    res = res.reshape(tuple(first.shape))
    return res if isinstance(out, torch.Tensor) else (res,) + (None,) * (len(out) - 1)


# ------------------------------------------------------------- convolution
@reg("convolution", "_convolution", "conv1d", "conv2d", "mkldnn_convolution", "convolution_overrideable")
def _conv(E, func, args, kwargs, out):
    x, w = P(E, args[0]), P(E, args[1])
    bias = getarg(func, args, kwargs, "bias")
    stride = getarg(func, args, kwargs, "stride")
    pad = getarg(func, args, kwargs, "padding")
    dil = getarg(func, args, kwargs, "dilation")
    tr = getarg(func, args, kwargs, "transposed")
    groups = getarg(func, args, kwargs, "groups")
    nd = x.ndim - 2

    def ex(v):
        v = [v] if isinstance(v, int) else list(v)
        return v * nd if len(v) == 1 else v

    stride, pad, dil = ex(stride), ex(pad), ex(dil)
    r = np.empty(tuple(out.shape), dtype=object)
    B, Co = r.shape[:2]
    b = P(E, bias) if bias is not None else None
    ks = w.shape[2:]
    if not tr:
        cg = w.shape[1]
        og = Co // groups
        for n in range(B):
            for o in range(Co):
                g = o // og
                for pos in np.ndindex(*r.shape[2:]):
                    xs, ys = [], []
                    for kp in np.ndindex(*ks):
                        ip = tuple(pos[d] * stride[d] - pad[d] + kp[d] * dil[d] for d in range(nd))
                        if any(i < 0 or i >= x.shape[2 + d] for d, i in enumerate(ip)):
                            continue
                        for c in range(cg):
                            xs.append(x[(n, g * cg + c) + ip])
                            ys.append(w[(o, c) + kp])
                    v = dot(xs, ys)
                    r[(n, o) + pos] = tm.add(v, b[o]) if b is not None else v
        return r
    # transposed: w (Ci, Co/groups, k...)
    Ci = x.shape[1]
    cig = Ci // groups
    og = w.shape[1]
    acc = {}
    for n in range(B):
        for ci in range(Ci):
            g = ci // cig
            for ip in np.ndindex(*x.shape[2:]):
                for kp in np.ndindex(*ks):
                    op_ = tuple(ip[d] * stride[d] - pad[d] + kp[d] * dil[d] for d in range(nd))
                    if any(i < 0 or i >= r.shape[2 + d] for d, i in enumerate(op_)):
                        continue
                    for o in range(og):
                        acc.setdefault((n, g * og + o) + op_, []).append(
                            (x[(n, ci) + ip], w[(ci, o) + kp])
                        )
    for ix in np.ndindex(*r.shape):
        prs = acc.get(ix, [])
        v = dot([p[0] for p in prs], [p[1] for p in prs])
        r[ix] = tm.add(v, b[ix[1]]) if b is not None else v
    return r


@reg("avg_pool1d", "avg_pool2d")
def _avgpool(E, func, args, kwargs, out):
    return _pool(E, func, args, kwargs, out, lambda xs: tm.div(tsum(xs), len(xs)))


@reg("max_pool1d", "max_pool2d")
def _maxpool(E, func, args, kwargs, out):
    return _pool(E, func, args, kwargs, out, _fold(tm.tmax), skip=True)


@reg("max_pool2d_with_indices", "max_pool1d_with_indices")
def _maxpooli(E, func, args, kwargs, out):
    return (_pool(E, func, args, kwargs, out[0], _fold(tm.tmax), skip=True), None)


def _pool(E, func, args, kwargs, out, f, skip=False):
    x = P(E, args[0])
    nd = 2 if "2d" in func._schema.name else 1

    def ex(v, dflt):
        if v is None or (isinstance(v, (list, tuple)) and len(v) == 0):
            v = dflt
        v = [v] if isinstance(v, int) else list(v)
        return v * nd if len(v) == 1 else v

    k = ex(getarg(func, args, kwargs, "kernel_size"), 1)
    s = ex(getarg(func, args, kwargs, "stride"), k)
    p = ex(getarg(func, args, kwargs, "padding"), 0)
    d = ex(getarg(func, args, kwargs, "dilation"), 1)
    r = np.empty(tuple(out.shape), dtype=object)
    lead = x.ndim - nd
    for ix in np.ndindex(*r.shape):
        xs = []
        for kp in np.ndindex(*k):
            ip = tuple(ix[lead + j] * s[j] - p[j] + kp[j] * d[j] for j in range(nd))
            if any(i < 0 or i >= x.shape[lead + j] for j, i in enumerate(ip)):
                if not skip:
                    xs.append(0)
                continue
            xs.append(x[ix[:lead] + ip])
        r[ix] = f(xs)
    return r


@reg("_adaptive_avg_pool1d", "adaptive_avg_pool1d", "_adaptive_avg_pool2d", "adaptive_avg_pool2d")
def _aap(E, func, args, kwargs, out):
    x = P(E, args[0])
    nd = 2 if "2d" in func._schema.name else 1
    r = np.empty(tuple(out.shape), dtype=object)
    lead = x.ndim - nd
    for ix in np.ndindex(*r.shape):
        sl = []
        for j in range(nd):
            L, O, i = x.shape[lead + j], r.shape[lead + j], ix[lead + j]
            sl.append(slice((i * L) // O, -((-(i + 1) * L) // O)))
        xs = list(x[ix[:lead] + tuple(sl)].reshape(-1))
        r[ix] = tm.div(tsum(xs), len(xs))
    return r


@reg("native_group_norm")
def _ngn(E, func, args, kwargs, out):
    x = P(E, args[0])
    w = P(E, args[1]) if args[1] is not None else None
    b = P(E, args[2]) if args[2] is not None else None
    N, C, HxW, G, eps = args[3:8]
    r = np.empty(x.shape, dtype=object)
    xf = x.reshape(N, G, -1)
    m = np.empty((N, G), dtype=object)
    rs = np.empty((N, G), dtype=object)
    for n in range(N):
        for g in range(G):
            xs = list(xf[n, g])
            mu = tm.div(tsum(xs), len(xs))
            va = _varf(xs, 0)
            m[n, g] = mu
            rs[n, g] = tm.div(1, tm.sqrt(tm.add(va, eps)))
    cg = C // G
    for ix in np.ndindex(*x.shape):
        n, c = ix[0], ix[1]
        v = tm.mul(tm.sub(x[ix], m[n, c // cg]), rs[n, c // cg])
        if w is not None:
            v = tm.mul(v, w[c])
        if b is not None:
            v = tm.add(v, b[c])
        r[ix] = v
    return (r, m, rs)


@reg("native_layer_norm")
def _nln(E, func, args, kwargs, out):
    x = P(E, args[0])
    shp = tuple(args[1])
    w = P(E, args[2]) if args[2] is not None else None
    b = P(E, args[3]) if args[3] is not None else None
    eps = args[4]
    k = len(shp)
    r = np.empty(x.shape, dtype=object)
    for ix in np.ndindex(*x.shape[: x.ndim - k]):
        xs = list(x[ix].reshape(-1))
        mu = tm.div(tsum(xs), len(xs))
        rs = tm.div(1, tm.sqrt(tm.add(_varf(xs, 0), eps)))
        for jx in np.ndindex(*shp):
            v = tm.mul(tm.sub(x[ix + jx], mu), rs)
            if w is not None:
                v = tm.mul(v, w[jx])
            if b is not None:
                v = tm.add(v, b[jx])
            r[ix + jx] = v
    return (r, None, None)


@reg("native_batch_norm", "_native_batch_norm_legit_no_training", "_batch_norm_impl_index", "_native_batch_norm_legit", "_batch_norm_no_update")
def _nbn(E, func, args, kwargs, out):
    nm = func._schema.name
    x = P(E, args[0])
    w = P(E, args[1]) if args[1] is not None else None
    b = P(E, args[2]) if args[2] is not None else None
    rm, rv = P(E, args[3]), P(E, args[4])
    if "no_training" in nm or "no_update" in nm:
        training, eps = False, args[6]
    else:
        training, eps = args[5], args[7]
    r = np.empty(x.shape, dtype=object)
    for c in range(x.shape[1]):
        if training:
            xs = list(x[:, c].reshape(-1))
            mu = tm.div(tsum(xs), len(xs))
            va = _varf(xs, 0)
        else:
            mu, va = rm[c], rv[c]
        rs = tm.div(1, tm.sqrt(tm.add(va, eps)))
        for ix in np.ndindex(x.shape[0], *x.shape[2:]):
            jx = (ix[0], c) + ix[1:]
            v = tm.mul(tm.sub(x[jx], mu), rs)
            if w is not None:
                v = tm.mul(v, w[c])
            if b is not None:
                v = tm.add(v, b[c])
            r[jx] = v
    return (r,) + (None,) * (len(out) - 1)


# ------------------------------------------------------------- FFT
_TW = {}


def twiddle(N, sign):
    key = (N, sign)
    w = _TW.get(key)
    if w is None:
        w = []
        for k in range(N):
            g = Fraction(k, N)
            c = math.cos(2 * math.pi * k / N)
            s = math.sin(2 * math.pi * k / N)
            if (4 * k) % N == 0:
                c, s = round(c), round(s)
            elif (12 * k) % N == 0:
                c = round(2 * c) / 2 if abs(abs(c) - 0.5) < 1e-9 else c
                s = round(2 * s) / 2 if abs(abs(s) - 0.5) < 1e-9 else s
            w.append((c, sign * s))
        _TW[key] = w
    return w


def dft(xs, sign, nout=None):
    N = len(xs)
    tw = twiddle(N, sign)
    out = []
    ri = [tm.re_im(x) for x in xs]
    cplx = any(isinstance(i, T) or i != 0 for _, i in ri)
    if N >= 24:
        t = np.array(tw, dtype=float)
        ks = np.outer(np.arange(N if nout is None else nout), np.arange(N)) % N
        c, s = t[ks, 0], t[ks, 1]
        ra = [a for a, _ in ri]
        if cplx:
            both = ra + [b for _, b in ri]
            pr, pi = tm.linmap(np.hstack([c, -s]), both), tm.linmap(np.hstack([s, c]), both)
        else:
            pr, pi = tm.linmap(c, ra), tm.linmap(s, ra)
        return [tm.mkcx(a, b) for a, b in zip(pr, pi)]
    for k in range(N if nout is None else nout):
        pr, pi = [], []
        for n in range(N):
            c, s = tw[(k * n) % N]
            a, b = ri[n]
            pr.append((c, a))
            pi.append((s, a))
            if cplx:
                pr.append((-s, b))
                pi.append((c, b))
        out.append(tm.mkcx(tm.lincomb(pr), tm.lincomb(pi)))
    return out


def _fscale(norm, n):
    return {0: 1, 1: 1 / math.sqrt(n), 2: 1 / n}[norm]


@reg("_fft_r2c")
def _r2c(E, func, args, kwargs, out):
    p = P(E, args[0])
    dims, norm, onesided = args[1:4]
    n = int(np.prod([p.shape[d] for d in dims]))
    d0 = dims[-1]
    q = np.moveaxis(p, d0, -1)
    m = q.shape[-1] // 2 + 1 if onesided else q.shape[-1]
    r = np.empty(q.shape[:-1] + (m,), dtype=object)
    for ix in np.ndindex(*q.shape[:-1]):
        r[ix] = dft(list(q[ix]), -1, m)
    r = np.moveaxis(r, -1, d0)
    for d in dims[:-1]:
        r = _c2c_axis(r, d, -1)
    s = _fscale(norm, n)
    return _vec1(lambda x: tm.mul(x, s), r) if s != 1 else r


def _c2c_axis(p, d, sign):
    q = np.moveaxis(p, d, -1)
    r = np.empty(q.shape, dtype=object)
    for ix in np.ndindex(*q.shape[:-1]):
        r[ix] = dft(list(q[ix]), sign)
    return np.moveaxis(r, -1, d)


@reg("_fft_c2c")
def _c2c(E, func, args, kwargs, out):
    p = P(E, args[0])
    dims, norm, fwd = args[1:4]
    n = int(np.prod([p.shape[d] for d in dims]))
    for d in dims:
        p = _c2c_axis(p, d, -1 if fwd else 1)
    s = _fscale(norm, n)
    return _vec1(lambda x: tm.mul(x, s), p) if s != 1 else p


@reg("_fft_c2r")
def _c2r(E, func, args, kwargs, out):
    p = P(E, args[0])
    dims, norm, last = args[1:4]
    shp = [p.shape[d] for d in dims[:-1]] + [last]
    n = int(np.prod(shp))
    for d in dims[:-1]:
        p = _c2c_axis(p, d, 1)
    d0 = dims[-1]
    q = np.moveaxis(p, d0, -1)
    N = last
    tw = twiddle(N, 1)
    r = np.empty(q.shape[:-1] + (N,), dtype=object)
    half = N // 2
    for ix in np.ndindex(*q.shape[:-1]):
        row = [tm.re_im(x) for x in q[ix]][: half + 1]
        for t in range(N):
            pr = [(1, row[0][0])]
            for k in range(1, len(row)):
                c, s = tw[(k * t) % N]
                if N % 2 == 0 and k == half:
                    pr.append((c, row[k][0]))
                else:
                    pr.append((2 * c, row[k][0]))
                    pr.append((-2 * s, row[k][1]))
            r[ix + (t,)] = tm.lincomb(pr)
    r = np.moveaxis(r, -1, d0)
    s = _fscale(norm, n)
    return _vec1(lambda x: tm.mul(x, s), r) if s != 1 else r


# ------------------------------------------------------------- indexing
def select(vals, idx, base=0):
    """vals[idx] for symbolic integer idx (python list)"""
    if not isinstance(idx, T):
        return vals[int(idx)]
    n = len(vals)
    lo, hi = tm.bounds(idx)
    if lo >= 0 and hi < n:
        r = tm.leafmap(idx, lambda k: vals[int(k)])
        if r is not None:
            return r
    lo = 0 if lo == -INF else max(int(lo), -n)
    hi = n - 1 if hi == INF else min(int(hi), n - 1)
    r = vals[hi]
    for k in range(hi - 1, lo - 1, -1):
        r = tm.ite(tm.eq(idx, k), vals[k], r)
    return r


def _chk_index(E, idx_payload, n, what):
    """index bounds: symbolic indices outside [-n, n) raise in torch; explore that"""
    for x in idx_payload.reshape(-1):
        if isinstance(x, T):
            lo, hi = tm.bounds(x)
            if lo >= -n and hi < n and lo >= 0:
                continue
            E.branch(tm.land(tm.le(-n, x), tm.lt(x, n)), "index")
            # after this branch the concrete op raises if out of range
            if lo < 0:
                pass


def _norm_idx(E, x, n):
    if isinstance(x, T):
        if tm.bounds(x)[0] < 0:
            return tm.ite(tm.lt(x, 0), tm.add(x, n), x)
        return x
    return x + n if x < 0 else x


@reg("gather")
def _gather(E, func, args, kwargs, out):
    p = P(E, args[0])
    dim = args[1]
    ip = P(E, args[2])
    if p.ndim == 0:
        return np.broadcast_to(p, ip.shape).copy()
    dim %= p.ndim
    r = np.empty(ip.shape, dtype=object)
    for ix in np.ndindex(*ip.shape):
        sl = list(ix)
        sl[dim] = slice(None)
        i = ip[ix]
        if isinstance(i, T):
            r[ix] = select(list(p[tuple(sl)]), i)
        else:
            sl[dim] = i
            r[ix] = p[tuple(sl)]
    return r


_gather._pre = False


@reg("index_select")
def _isel(E, func, args, kwargs, out):
    p = P(E, args[0])
    dim = args[1] % max(p.ndim, 1)
    ip = P(E, args[2]).reshape(-1)
    q = np.moveaxis(p, dim, 0)
    return np.moveaxis(_take_first(E, q, ip), 0, dim)


def _take_first(E, q, ip):
    n = q.shape[0]
    r = np.empty(ip.shape + q.shape[1:], dtype=object)
    for ix in np.ndindex(*ip.shape):
        i = _norm_idx(E, ip[ix], n)
        if isinstance(i, T):
            for jx in np.ndindex(*q.shape[1:]):
                r[ix + jx] = select([q[(k,) + jx] for k in range(n)], i)
        else:
            r[ix] = q[int(i)]
    return r


@reg("embedding")
def _emb(E, func, args, kwargs, out):
    return _take_first(E, P(E, args[0]), P(E, args[1]))


@reg("take")
def _take(E, func, args, kwargs, out):
    return _take_first(E, P(E, args[0]).reshape(-1), P(E, args[1]))


def _expand_bool(E, indices, shape):
    """turn boolean masks into integer index tensors, forking on symbolic masks"""
    out = []
    for ind in indices:
        if ind is None:
            out.append(None)
        elif ind.dtype in (torch.bool, torch.uint8):
            m = E.payload(ind)
            mm = np.zeros(m.shape, dtype=bool)
            for ix in np.ndindex(*m.shape):
                mm[ix] = E.branch(m[ix]) if isinstance(m[ix], T) else bool(m[ix])
            nz = np.nonzero(mm)
            for a in nz:
                out.append(a.astype(np.int64))
        else:
            out.append(ind)
    return out


@reg("index", "_unsafe_index")
@pre
def _index(E, func, args, kwargs, out):
    x = args[0]
    real = func(*args, **kwargs)
    p = E.payload(x)
    inds = _expand_bool(E, args[1], p.shape)
    r = _adv_index(E, p, inds)
    if r.shape != tuple(real.shape):
        raise Unsupported("index shape mismatch")
    E.put(real, r)
    return real


def _ind_payload(E, ind):
    if isinstance(ind, np.ndarray):
        o = np.empty(ind.shape, dtype=object)
        o.reshape(-1)[:] = [int(v) for v in ind.reshape(-1)] if ind.size else []
        return o
    return E.payload(ind)


def _index_map(E, shape, inds):
    """numpy/torch advanced indexing layout.

    returns (result array of flat source positions or per-element index tuples)"""
    nd = len(shape)
    inds = list(inds) + [None] * (nd - len(inds))
    adv = [i for i, v in enumerate(inds) if v is not None]
    pays = [_ind_payload(E, inds[i]) for i in adv]
    bshape = np.broadcast_shapes(*[q.shape for q in pays]) if pays else ()
    pays = [np.broadcast_to(q, bshape) for q in pays]
    contiguous = all(b - a == 1 for a, b in zip(adv, adv[1:]))
    rest = [i for i in range(nd) if i not in adv]
    if contiguous and adv:
        pre_ = [i for i in rest if i < adv[0]]
        post = [i for i in rest if i > adv[-1]]
        rshape = tuple(shape[i] for i in pre_) + bshape + tuple(shape[i] for i in post)
        order = ("mid", pre_, post)
    else:
        rshape = bshape + tuple(shape[i] for i in rest)
        order = ("front", [], rest)
    return adv, pays, bshape, order, rshape


def _iter_index(E, shape, inds):
    adv, pays, bshape, order, rshape = _index_map(E, shape, inds)
    _, pre_, post = order
    npre, nb = len(pre_), len(bshape)
    for ix in np.ndindex(*rshape):
        b = ix[npre : npre + nb]
        src = [None] * len(shape)
        for d, v in zip(pre_, ix[:npre]):
            src[d] = v
        for d, v in zip(post, ix[npre + nb :]):
            src[d] = v
        for d, q in zip(adv, pays):
            src[d] = _norm_idx(E, q[b], shape[d])
        yield ix, src
    return


def _adv_index(E, p, inds):
    rshape = _index_map(E, p.shape, inds)[-1]
    r = np.empty(rshape, dtype=object)
    for ix, src in _iter_index(E, p.shape, inds):
        r[ix] = _multi_select(p, src)
    return r


def _multi_select(p, src):
    for d, v in enumerate(src):
        if isinstance(v, T):
            lo, hi = tm.bounds(v)
            n = p.shape[d]
            s = list(src)
            if lo >= 0 and hi < n:

                def leaf(k):
                    s[d] = int(k)
                    return _multi_select(p, s)

                r = tm.leafmap(v, leaf)
                if r is not None:
                    return r
            lo = max(0, int(lo)) if lo != -INF else 0
            hi = min(n - 1, int(hi)) if hi != INF else n - 1
            s[d] = hi
            r = _multi_select(p, s)
            for k in range(hi - 1, lo - 1, -1):
                s[d] = k
                r = tm.ite(tm.eq(v, k), _multi_select(p, s), r)
            return r
    return p[tuple(int(v) for v in src)]


@reg("index_put", "_index_put_impl", "_unsafe_index_put")
def _index_put(E, func, args, kwargs, out):
    x, indices, vals = args[0], args[1], args[2]
    acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
    p = E.payload(x).copy()
    v = E.payload(vals)
    if vals.dtype != x.dtype:
        v = cast(E, v, x.dtype, vals.dtype)
    # a single symbolic full mask with scalar value: element-wise ite
    if len(indices) == 1 and indices[0] is not None and indices[0].dtype == torch.bool and v.size == 1:
        m = E.payload(indices[0])
        m = m.reshape(m.shape + (1,) * (p.ndim - m.ndim))
        vv = v.reshape(-1)[0]
        return _vec(lambda c, a: tm.ite(c, tm.add(a, vv) if acc else vv, a), np.broadcast_to(m, p.shape), p)
    inds = _expand_bool(E, indices, p.shape)
    rshape = _index_map(E, p.shape, inds)[-1]
    vb = np.broadcast_to(v, rshape)
    for ix, src in _iter_index(E, p.shape, inds):
        _multi_store(p, src, vb[ix], acc)
    return p


def _multi_store(p, src, val, acc, cond=True):
    for d, v in enumerate(src):
        if isinstance(v, T):
            for k in range(p.shape[d]):
                c = tm.eq(v, k)
                if c is False:
                    continue
                s = list(src)
                s[d] = k
                _multi_store(p, s, val, acc, tm.land(cond, c))
            return
    ix = tuple(int(v) for v in src)
    new = tm.add(p[ix], val) if acc else val
    p[ix] = tm.ite(cond, new, p[ix])


@reg("scatter", "scatter_add", "scatter_reduce")
def _scatter(E, func, args, kwargs, out):
    x, dim, idx, src = args[:4]
    nm = func._schema.name
    red = kwargs.get("reduce")
    if red is None and "scatter_reduce" in nm:
        red = args[4]
    add_ = "scatter_add" in nm or red in ("add", "sum")
    if red not in (None, "add", "sum"):
        raise Unsupported("scatter reduce " + str(red))
    p = E.payload(x).copy()
    ip = E.payload(idx)
    sp = E.payload(src) if isinstance(src, torch.Tensor) else np.broadcast_to(_arr(src), ip.shape)
    dim %= max(p.ndim, 1)
    for ix in np.ndindex(*ip.shape):
        s = list(ix)
        s[dim] = ip[ix]
        _multi_store(p, s, sp[ix], add_)
    return p


@reg("index_add", "index_copy")
def _index_add(E, func, args, kwargs, out):
    x, dim, idx, src = args[:4]
    acc = "index_add" in func._schema.name
    alpha = kwargs.get("alpha", 1)
    p = E.payload(x).copy()
    ip = E.payload(idx).reshape(-1)
    sp = E.payload(src)
    dim %= p.ndim
    for ix in np.ndindex(*sp.shape):
        s = list(ix)
        s[dim] = ip[ix[dim]]
        _multi_store(p, s, tm.mul(alpha, sp[ix]) if acc else sp[ix], acc)
    return p


@reg("index_fill")
def _index_fill(E, func, args, kwargs, out):
    x, dim, idx, val = args[:4]
    p = E.payload(x).copy()
    q = np.moveaxis(p, dim, 0)
    v = P(E, val)
    v = v[()] if isinstance(v, np.ndarray) else v
    for i in E.payload(idx).reshape(-1):
        for jx in np.ndindex(*q.shape[1:]):
            _multi_store(q, [i] + list(jx), v, False)
    return p


@reg("masked_scatter")
@pre
def _mscatter(E, func, args, kwargs, out):
    x, mask, src = args
    m = np.broadcast_to(E.payload(mask), tuple(x.shape))
    p = E.payload(x).copy()
    s = list(E.payload(src).reshape(-1))
    k = 0
    for ix in np.ndindex(*p.shape):
        c = m[ix]
        c = E.branch(c) if isinstance(c, T) else bool(c)
        if c:
            p[ix] = s[k]
            k += 1
    real = func(*args, **kwargs)
    E.put(real, p)
    return real


@reg("masked_select")
@pre
def _mselect(E, func, args, kwargs, out):
    x, mask = args[0], args[1]
    a, m = np.broadcast_arrays(E.payload(x), E.payload(mask))
    res = []
    for ix in np.ndindex(*a.shape):
        c = m[ix]
        c = E.branch(c) if isinstance(c, T) else bool(c)
        if c:
            res.append(a[ix])
    real = func(*args, **kwargs)
    r = np.empty(len(res), dtype=object)
    r[:] = res
    E.put(real, r)
    return real


@reg("nonzero", "argwhere")
@pre
def _nonzero(E, func, args, kwargs, out):
    m = E.payload(args[0])
    for ix in np.ndindex(*m.shape):
        if is_sym(m[ix]):
            E.branch(tm._tobool(m[ix]))
    return func(*args, **kwargs)


@reg("unique_dim", "_unique2", "unique_consecutive", "bincount", "histc", "histogram")
@pre
def _unique(E, func, args, kwargs, out):
    for a in args:
        if isinstance(a, torch.Tensor):
            for x in E.payload(a).reshape(-1):
                if isinstance(x, T):
                    E.concretize(x)
    return func(*args, **kwargs)


@reg("searchsorted", "bucketize")
def _searchsorted(E, func, args, kwargs, out):
    nm = func._schema.name
    if nm.endswith("bucketize"):
        vals, seq = args[0], args[1]
    else:
        seq, vals = args[0], args[1]
    right = bool(getarg(func, args, kwargs, "right")) or getarg(func, args, kwargs, "side") == "right"
    s = E.payload(seq)
    v = P(E, vals)
    v = _arr(v)
    r = np.empty(v.shape, dtype=object)
    for ix in np.ndindex(*v.shape):
        row = s if s.ndim == 1 else s[ix[:-1]]
        cs = [tm.le(b, v[ix]) if right else tm.lt(b, v[ix]) for b in row]
        r[ix] = _count_sorted(cs)
    return r


def _count_sorted(cs):
    out = 0
    for i, c in enumerate(cs):
        out = tm.ite(c, i + 1, out)
    return out


@reg("one_hot")
def _onehot(E, func, args, kwargs, out):
    p = P(E, args[0])
    n = out.shape[-1]
    r = np.empty(p.shape + (n,), dtype=object)
    for k in range(n):
        r[..., k] = _vec1(lambda x: tm.ite(tm.eq(x, k), 1, 0), p)
    return r


@reg("constant_pad_nd")
def _cpad(E, func, args, kwargs, out):
    p = P(E, args[0])
    pad = list(args[1])
    value = args[2] if len(args) > 2 else kwargs.get("value", 0)
    r = np.empty(tuple(out.shape), dtype=object)
    r.fill(value)
    src, dst = [slice(None)] * p.ndim, [slice(None)] * p.ndim
    for i in range(len(pad) // 2):
        d = p.ndim - 1 - i
        lo, hi = pad[2 * i], pad[2 * i + 1]
        n = p.shape[d]
        s0, s1 = max(0, -lo), n - max(0, -hi)
        src[d] = slice(s0, max(s0, s1))
        d0 = max(0, lo)
        dst[d] = slice(d0, d0 + max(0, s1 - s0))
    r[tuple(dst)] = p[tuple(src)]
    return r


@reg("arange", "linspace", "logspace", "full", "full_like", "scalar_tensor", "new_full")
def _factory(E, func, args, kwargs, out):
    raise Unsupported("factory with symbolic argument " + func._schema.name)


def _plain(E, func, args, kwargs, out):
    """result does not depend on values"""
    return np.array(E.payload(out), dtype=object) if False else _conc(out)


def _conc(out):
    r = np.empty(tuple(out.shape), dtype=object)
    if out.numel():
        r.reshape(-1)[:] = out.detach().contiguous().reshape(-1).tolist()
    return r


for nm in ("zeros_like", "ones_like", "empty_like", "new_zeros", "new_ones", "new_empty", "full_like", "new_full", "empty_strided", "new_empty_strided"):
    reg(nm)(_plain)


# ------------------------------------------------------------- scalars
@reg("_local_scalar_dense", "item")
@pre
def _lsd(E, func, args, kwargs, out):
    x = E.payload(args[0])
    x = x.reshape(-1)[0]
    if isinstance(x, T):
        if x.sort == "B":
            E.branch(x)
        elif x.sort == "I":
            E.concretize(x)
        elif args[0].dtype == torch.bool:
            E.branch(tm._tobool(x))
        elif not args[0].dtype.is_floating_point:
            E.concretize(x)
        else:
            raise Unsupported("python float taken from a symbolic tensor")
    elif is_sym(x):
        raise Unsupported("python complex taken from a symbolic tensor")
    return func(*args, **kwargs)


@reg("equal")
@pre
def _equal(E, func, args, kwargs, out):
    if tuple(args[0].shape) == tuple(args[1].shape):
        c = tm.land(*_vec(tm.eq, E.payload(args[0]), E.payload(args[1])).reshape(-1))
        E.branch(c)
    return func(*args, **kwargs)


@reg("is_nonzero")
@pre
def _isnz(E, func, args, kwargs, out):
    x = E.payload(args[0]).reshape(-1)[0]
    E.branch(tm._tobool(x))
    return func(*args, **kwargs)


@reg("allclose", "isclose")
def _isclose(E, func, args, kwargs, out):
    rt = kwargs.get("rtol", args[2] if len(args) > 2 else 1e-5)
    at = kwargs.get("atol", args[3] if len(args) > 3 else 1e-8)
    return _vec(
        lambda a, b: tm.le(tm.absv(tm.sub(a, b)), tm.add(at, tm.mul(rt, tm.absv(b)))),
        P(E, args[0]), P(E, args[1]),
    )


# ------------------------------------------------------------- torchaudio
@reg("_lfilter_core_loop")
def _lfilter(E, func, args, kwargs, out):
    # (input_signal_windows, a_coeff_flipped, padded_output!) : mutates third arg
    xw, a, po = [E.payload(t) for t in args[:3]]
    po = po.copy()
    n = a.shape[-1]
    B, C, L = xw.shape
    for b in range(B):
        for c in range(C):
            co = a[c] if a.ndim == 2 else a
            for t in range(L):
                o0 = xw[b, c, t]
                acc = tm.sub(o0, dot(list(po[b, c, t : t + n]), list(co)))
                po[b, c, t + n - 1] = acc
    return po


@reg("_lfilter")
def _lfilter2(E, func, args, kwargs, out):
    x, a, b = [E.payload(t) for t in args[:3]]
    B, C, L = x.shape
    r = np.empty(x.shape, dtype=object)
    for bi in range(B):
        for c in range(C):
            ac, bc = list(a[c]), list(b[c])
            for t in range(L):
                acc = dot([x[bi, c, t - k] for k in range(len(bc)) if t - k >= 0], [bc[k] for k in range(len(bc)) if t - k >= 0])
                acc = tm.sub(acc, dot([r[bi, c, t - k] for k in range(1, len(ac)) if t - k >= 0], [ac[k] for k in range(1, len(ac)) if t - k >= 0]))
                r[bi, c, t] = tm.div(acc, ac[0])
    return r


# ------------------------------------------------------------- randomness
def _rand(kind):
    def h(E, func, args, kwargs):
        out = func(*args, **kwargs)
        return kind(E, func, args, kwargs, out)

    return h


def _setvals(E, out, arr):
    vals = [E.env[x.args[0]] if isinstance(x, T) and x.op == "var" else E.val(x) for x in arr.reshape(-1)]
    if out.numel():
        out.copy_(torch.tensor(vals, dtype=torch.float64).reshape(out.shape))
    if E.symbolic:
        E.put(out, arr)
    return out


def draw_unit(E, out, tag="rand"):
    arr = E.draw(out.shape, "R", 0.0, 1.0, tag)
    for x in arr.reshape(-1):
        if E.env[x.args[0]] >= 1.0:
            E.env[x.args[0]] = 1.0 - 2.0**-24
        E.assume(tm._mk("lt", (tm.sub(x, 1),), "B"))
    E.draws.append((tag, arr))
    return arr


def _r_rand(E, func, args, kwargs):
    out = func(*args, **kwargs)
    return _setvals(E, out, draw_unit(E, out))


def _r_randn(E, func, args, kwargs):
    out = func(*args, **kwargs)
    arr = E.draw(out.shape, "R", -6.0, 6.0, "randn")
    E.draws.append(("randn", arr))
    return _setvals(E, out, arr)


def _r_randint(E, func, args, kwargs):
    ov = func._overloadname
    nm = func._schema.name
    if "like" in nm:
        rng = args[1:]
    elif ov.startswith("low"):
        rng = args[:2]
    else:
        rng = (0, args[0])
    if len(rng) == 1:
        rng = (0, rng[0])
    if "low" in kwargs or "high" in kwargs:
        rng = (kwargs.get("low", 0), kwargs["high"])
    lo, hi = int(rng[0]), int(rng[1])
    out = func(*args, **kwargs)  # raises on an empty range like the real call
    arr = E.draw(out.shape, "I", lo, hi - 1, "randint")
    E.draws.append(("randint", arr, lo, hi))
    return _setvals(E, out, arr)


def _r_random_(E, func, args, kwargs):
    a = [x for x in args[1:] if isinstance(x, int)]
    if not a:
        return NotImplemented
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    func(*args, **kwargs)
    arr = E.draw(args[0].shape, "I", lo, hi - 1, "randint")
    E.draws.append(("randint", arr, lo, hi))
    return _setvals(E, args[0], arr)


def _r_randperm(E, func, args, kwargs):
    n = args[0]
    out = func(*args, **kwargs)
    k = E.nrand
    names = [f"perm{k}[{i}]" for i in range(n)]
    if any(nm not in E.env for nm in names):
        import random

        r = list(range(n))
        random.Random(1000 * E.seed + k).shuffle(r)
        for nm, v in zip(names, r):
            E.env[nm] = v
    arr = E.draw((n,), "I", 0, n - 1, "perm")
    for i in range(n):
        for j in range(i):
            E.assume(tm.lnot(tm.eq(arr[i], arr[j])))
    E.draws.append(("perm", arr))
    return _setvals(E, out, arr)


def _r_uniform_(E, func, args, kwargs):
    lo = args[1] if len(args) > 1 else kwargs.get("from", 0.0)
    hi = args[2] if len(args) > 2 else kwargs.get("to", 1.0)
    func(*args, **kwargs)
    arr = draw_unit(E, args[0])
    arr = _vec1(lambda u: tm.add(lo, tm.mul(hi - lo, u)), arr)
    return _setvals(E, args[0], arr)


def _r_normal_(E, func, args, kwargs):
    mu = args[1] if len(args) > 1 else kwargs.get("mean", 0.0)
    sd = args[2] if len(args) > 2 else kwargs.get("std", 1.0)
    func(*args, **kwargs)
    arr = E.draw(args[0].shape, "R", -6.0, 6.0, "randn")
    E.draws.append(("randn", arr))
    arr = _vec1(lambda u: tm.add(mu, tm.mul(sd, u)), arr)
    return _setvals(E, args[0], arr)


def _r_normal(E, func, args, kwargs):
    out = func(*args, **kwargs)
    ov = func._overloadname
    mu, sd = args[0], args[1] if len(args) > 1 else kwargs.get("std", 1.0)
    arr = E.draw(out.shape, "R", -6.0, 6.0, "randn")
    E.draws.append(("randn", arr))
    arr = _vec(lambda u, m, s: tm.add(m, tm.mul(s, u)), arr, P(E, mu), P(E, sd))
    return _setvals(E, out, arr)


def _r_exponential_(E, func, args, kwargs):
    lam = args[1] if len(args) > 1 else kwargs.get("lambd", 1.0)
    func(*args, **kwargs)
    arr = E.draw(args[0].shape, "R", 0.0, 40.0, "expo")
    return _setvals(E, args[0], _vec1(lambda u: tm.div(u, lam), arr))


def _bern(E, shape, probs, tag="bern"):
    k = E.nrand
    E.nrand += 1
    shape = tuple(shape)
    pr = np.broadcast_to(_arr(probs), shape)
    arr = np.empty(shape, dtype=object)
    bv = []
    for i, ix in enumerate(np.ndindex(*shape)):
        p = pr[ix]
        if not isinstance(p, T) and p <= 0:
            arr[ix] = 0.0
        elif not isinstance(p, T) and p >= 1:
            arr[ix] = 1.0
        else:
            b = E.newvar(f"{tag}{k}[{i}]", "I", 0, 1)
            E.assume(tm.implies(tm.le(p, 0), tm.eq(b, 0)))
            E.assume(tm.implies(tm.le(1, p), tm.eq(b, 1)))
            arr[ix] = b
    E.draws.append(("bern", arr))
    return arr


def _r_bernoulli(E, func, args, kwargs):
    ov = func._overloadname
    p = E.payload(args[0])
    if ov == "p":
        pr = args[1] if len(args) > 1 else kwargs["p"]
        out = func(*args, **kwargs)
        return _setvals(E, out, _bern(E, out.shape, pr))
    out = func(*args, **kwargs)
    return _setvals(E, out, _bern(E, out.shape, p))


def _r_bernoulli_(E, func, args, kwargs):
    pr = args[1] if len(args) > 1 else kwargs.get("p", 0.5)
    pr = P(E, pr) if isinstance(pr, torch.Tensor) else pr
    func(*args, **kwargs)
    return _setvals(E, args[0], _bern(E, args[0].shape, pr))


def _r_multinomial(E, func, args, kwargs):
    out = func(*args, **kwargs)
    p = E.payload(args[0])
    n = p.shape[-1]
    repl = getarg(func, args, kwargs, "replacement")
    k = E.nrand
    arr = E.draw(out.shape, "I", 0, n - 1, "multi")
    for ix in np.ndindex(*arr.shape):
        row = p if p.ndim == 1 else p[ix[0]]
        for j in range(n):
            if not is_sym(row[j]) and row[j] == 0:
                E.assume(tm.lnot(tm.eq(arr[ix], j)))
        if not repl:
            for m in range(ix[-1]):
                E.assume(tm.lnot(tm.eq(arr[ix], arr[ix[:-1] + (m,)])))
    E.draws.append(("multi", arr))
    return _setvals(E, out, arr)


RANDOM.update(
    {
        "rand": _r_rand,
        "rand_like": _r_rand,
        "randn": _r_randn,
        "randn_like": _r_randn,
        "randint": _r_randint,
        "randint_like": _r_randint,
        "random_": _r_random_,
        "randperm": _r_randperm,
        "uniform_": _r_uniform_,
        "normal_": _r_normal_,
        "normal": _r_normal,
        "exponential_": _r_exponential_,
        "bernoulli": _r_bernoulli,
        "bernoulli_": _r_bernoulli_,
        "multinomial": _r_multinomial,
    }
)

from .engine import HANDLERS as HANDLERS_  # noqa: E402


# --------------------------------------------------- resampling (linear kernels)
@reg("upsample_bilinear2d", "upsample_bicubic2d", "upsample_linear1d", "upsample_trilinear3d", "_upsample_bilinear2d_aa", "_upsample_bicubic2d_aa")
def _upsample(E, func, args, kwargs, out):
    """the real kernel applied to unit impulses gives its matrix"""
    x = E.payload(args[0])
    sp = x.shape[2:]
    n = int(np.prod(sp))
    basis = torch.eye(n, dtype=torch.float64).reshape((n, 1) + sp)
    res = func(basis, *args[1:], **kwargs)
    osp = tuple(res.shape[2:])
    m = res.reshape(n, -1).T.tolist()
    o = np.empty(x.shape[:2] + osp, dtype=object)
    for ix in np.ndindex(*x.shape[:2]):
        row = list(x[ix].reshape(-1))
        vals = [tm.lincomb([(c, v) for c, v in zip(r, row) if c != 0]) for r in m]
        for j, jx in enumerate(np.ndindex(*osp)):
            o[ix + jx] = vals[j]
    return o
