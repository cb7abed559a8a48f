"""Channel-wise scaling."""
import numpy as np
import torch

from checks import spec
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def moments(row):
    m = spec.mean(row)
    return m, spec.mean([tm.power(tm.sub(v, m), 2) for v in row])


def scaler(ctx, C, X, reg=None):
    from ml4gw.transforms import ChannelWiseScaler

    t = ChannelWiseScaler(C)
    if reg is None:
        t.fit(X)
    else:
        t.fit(X, reg)
    return t


def rows(C, X):
    V = ctx_vals = X
    return [list(V)] if C is None else [list(r) for r in ctx_vals]


def statistics(ctx, C, T, reg=None):
    """fitted buffers for all backgrounds"""
    X = ctx.real("bg", (T,) if C is None else (C, T), -3, 3)
    V = ctx.vals(X).copy()
    t = scaler(ctx, C, X, reg)
    ctx.close("background untouched", X, V, tol=0)
    m, s = ctx.vals(t.mean), ctx.vals(t.std)
    ctx.check("shape", m.shape == s.shape == ((1,) if C is None else (C, 1)))
    for c, row in enumerate(rows(C, V)):
        mean, var = moments(row)
        ctx.close(f"mean {c}", m.reshape(-1)[c], mean)
        sd = tm.sub(s.reshape(-1)[c], reg or 0)
        ctx.close(f"variance {c}", tm.power(sd, 2), var)
        ctx.check(f"positive {c}", tm.ge(sd, 0))


def forward(ctx, C, shape, reg=None):
    """fixed background, any input; and any fitted values through the buffers"""
    T = 7
    bg = [[((3 * i * i + 5 * c + i) % 11) * (0.25 + c / 4) - c for i in range(T)] for c in range(C or 1)]
    t = scaler(ctx, C, torch.tensor(bg[0] if C is None else bg), reg)
    x = ctx.real("x", shape)
    X = ctx.vals(x).copy()
    y = ctx.vals(t(x))
    z = ctx.vals(t(x, reverse=True))
    ctx.close("input untouched", x, X, tol=0)
    ctx.check("shapes", y.shape == z.shape == X.shape)
    for ix in np.ndindex(*X.shape):
        row = bg[0 if C is None else ix[-2]]
        m, var = moments(row)
        s = var**0.5 + (reg or 0)
        ctx.close(f"forward {ix}", y[ix], tm.mul(1 / s, tm.sub(X[ix], m)))
        ctx.close(f"reverse {ix}", z[ix], tm.add(tm.mul(s, X[ix]), m))


def roundtrip(ctx, C, shape, T=4, reg=None):
    """symbolic background, symbolic input"""
    bg = ctx.real("bg", (T,) if C is None else (C, T), -3, 3)
    V = ctx.vals(bg)
    for row in rows(C, V):
        ctx.assume(tm.ge(tm.sub(row[0], row[1]), 0.1))
    t = scaler(ctx, C, bg, reg)
    x = ctx.real("x", shape)
    X = ctx.vals(x).copy()
    ctx.close("there and back", t(t(x), reverse=True), X)
    ctx.close("back and there", t(t(x, reverse=True)), X)
    ctx.close("input untouched", x, X, tol=0)


def refit(ctx):
    from ml4gw.transforms import ChannelWiseScaler

    a, b, x = ctx.real("a", (2, 3)), ctx.real("b", (2, 4)), ctx.real("x", (2, 5))
    t = ChannelWiseScaler(2)
    t.fit(a)
    t.fit(b, 0.5)
    u = ChannelWiseScaler(2)
    u.fit(b, 0.5)
    ctx.close("only the last fit matters", t(x), ctx.vals(u(x)))


def rejects(ctx, case):
    from ml4gw.transforms import ChannelWiseScaler

    d = lambda *s: ctx.real("x", s)  # noqa
    C, x, exc = {
        "3d": (2, d(2, 2, 3), ValueError),
        "channels": (2, d(3, 4), AssertionError),
        "1d for many": (2, d(4), AssertionError),
        "2d for one": (None, d(2, 4), AssertionError),
    }[case]
    ctx.expect_raises(case, exc, lambda: ChannelWiseScaler(C).fit(x))


_shapes = [(None, (5,)), (None, (2, 4)), (None, (2, 3, 2)), (1, (1, 4)), (2, (2, 4)), (3, (2, 3, 4)), (2, (2, 1, 2, 3))]
HARNESSES = [
    Harness("statistics", statistics, [dict(C=c, T=n, reg=r) for c in (None, 1, 2, 3) for n in (1, 2, 5) for r in (None, 0.0, 0.25)]),
    Harness("forward", forward, [dict(C=c, shape=s, reg=r) for c, s in _shapes for r in (None, 0.5)]),
    Harness("round trip", roundtrip, [dict(C=c, shape=s, reg=r) for c, s in _shapes for r in (None, 0.5)]),
    Harness("refit", refit, [{}]),
    Harness("rejects", rejects, [dict(case=c) for c in ("3d", "channels", "1d for many", "2d for one")]),
]
META = {
    "bounds": "1-3 channels, backgrounds of 1-5 symbolic samples, inputs of 1-4 dimensions with every value symbolic; regularization 0, 0.25, 0.5",
    "outside": "longer backgrounds; rounding; constant backgrounds without regularization (division by zero)",
}
