"""Shifted Pearson correlation."""
import numpy as np
import torch

from checks import spec
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def moments(a, b):
    a, b = spec.demean(a), spec.demean(b)
    dot = lambda u, v: spec.total([tm.mul(p, q) for p, q in zip(u, v)])  # noqa
    return dot(a, b), dot(a, a), dot(b, b)


def shifted(row, k):
    """samples of the first series aligned with the second at lag k, zero outside"""
    n = len(row)
    return [row[t + k] if 0 <= t + k < n else 0 for t in range(n)]


def partner(Y, ix, nd):
    return list(Y[ix[len(ix) - (Y.ndim - 1):]] if Y.ndim > 1 else Y)


def data(ctx, xs, ys):
    return ctx.real("x", xs, -1, 1), ctx.real("y", ys, -1, 1)


def correlation(ctx, xs, ys, lag):
    from ml4gw.transforms import ShiftedPearsonCorrelation

    x, y = data(ctx, xs, ys)
    X, Y = ctx.vals(x).copy(), ctx.vals(y).copy()
    # no windowed series is constant
    todo = []
    for ix, row in spec.rows(X):
        for k in range(-lag, lag + 1):
            todo.append((ix, k, moments(shifted(row, k), partner(Y, ix, len(xs)))))
    for ix, k, (n, a, b) in todo:
        ctx.assume(tm.ge(a, 0.05))
        ctx.assume(tm.ge(b, 0.05))
    o = ShiftedPearsonCorrelation(lag)(x, y)
    ctx.check("shape", tuple(o.shape) == (2 * lag + 1,) + tuple(xs[:-1]))
    ctx.close("x untouched", x, X, tol=0)
    ctx.close("y untouched", y, Y, tol=0)
    O = ctx.vals(o)
    for ix, k, (n, a, b) in todo:
        v = O[(k + lag,) + ix]
        ctx.close(f"squared lag {k} {ix}", tm.mul(tm.power(v, 2), tm.mul(a, b)), tm.mul(n, n))
        ctx.check(f"sign lag {k} {ix}", tm.ge(tm.mul(v, n), -1e-9))


def invariances(ctx, n, lag):
    from ml4gw.transforms import ShiftedPearsonCorrelation

    x, y = data(ctx, (n,), (n,))
    V, W = ctx.vals(x), ctx.vals(y)
    ctx.assume(tm.ge(tm.sub(V[0], V[1]), 0.2))
    ctx.assume(tm.ge(tm.sub(W[0], W[1]), 0.2))
    if lag:
        for k in range(-lag, lag + 1):
            ctx.assume(tm.ge(moments(shifted(list(V), k), list(W))[1], 0.05))
    p = ShiftedPearsonCorrelation(lag)
    s = ctx.real("s", (), 0.5, 3)
    c = ctx.real("c", (), -2, 2)
    a = ctx.vals(p(x, y))
    ctx.close("scaling y", p(x, s * y), a)
    ctx.close("scaling x", p(s * x, y), a)
    ctx.close("offset y", p(x, y + c), a)
    ctx.close("offset x at lag zero", ctx.vals(p(x + c, y))[lag], a[lag])
    b = ctx.vals(p(x, x))
    ctx.close("self", b[lag], 1)
    ctx.close("opposite", ctx.vals(p(x, -x))[lag], -1)


def rejects(ctx, xs, ys):
    from ml4gw.transforms import ShiftedPearsonCorrelation

    x, y = data(ctx, xs, ys)
    ctx.expect_raises("shapes", ValueError, lambda: ShiftedPearsonCorrelation(1)(x, y))


HARNESSES = [
    Harness("correlation", correlation, [dict(xs=a, ys=b, lag=k) for a, b, k in (((4,), (4,), 0), ((4,), (4,), 2), ((5,), (5,), 3), ((2, 4), (4,), 1), ((2, 4), (2, 4), 2), ((2, 2, 3), (3,), 1), ((2, 2, 3), (2, 3), 1), ((2, 3, 3), (2, 3, 3), 1), ((6,), (6,), 1))]),
    Harness("invariances", invariances, [dict(n=3, lag=0), dict(n=3, lag=1), dict(n=4, lag=1)]),
    Harness("rejects", rejects, [dict(xs=a, ys=b) for a, b in (((1, 1, 1, 4), (4,)), ((4,), (1, 4)), ((4,), (5,)), ((2, 4), (3, 4)), ((2, 3, 4), (3, 3, 4)), ((2, 3, 4), (2, 4)))]),
]
META = {
    "bounds": "series of 3-6 symbolic samples in 1-3 dimensions (up to 2x3 leading), every lag up to 4, second series of equal or fewer dimensions",
    "outside": "longer series; windows of zero variance (division by zero)",
}
