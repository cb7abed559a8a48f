"""One-dimensional group normalization equals the definition."""
import numpy as np
import torch

from checks import spec
from checks.n02 import plant
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def normalized(X, G, eps, w, b):
    """[batch][channel][time] by definition, per group of consecutive channels"""
    B, C, L = X.shape
    k = C // G
    Y = np.empty(X.shape, dtype=object)
    for i in range(B):
        for g in range(G):
            vals = [X[i, c, t] for c in range(g * k, (g + 1) * k) for t in range(L)]
            mu = spec.mean(vals)
            var = spec.mean([tm.mul(tm.sub(v, mu), tm.sub(v, mu)) for v in vals])
            r = tm.power(tm.add(var, eps), -0.5)
            for c in range(g * k, (g + 1) * k):
                for t in range(L):
                    Y[i, c, t] = tm.add(tm.mul(w[c], tm.mul(tm.sub(X[i, c, t], mu), r)), b[c])
    return Y


def affine(ctx, m, C, column):
    shape = (C, 1) if column else (C,)
    ctx.check("one weight and bias per channel", m.weight.numel() == C and m.bias.numel() == C)
    w, b = ctx.real("w", (C,), -2, 2), ctx.real("b", (C,), -2, 2)
    plant(m, "weight", w.reshape(shape))
    plant(m, "bias", b.reshape(shape))
    return ctx.vals(w), ctx.vals(b)


def compare(ctx, m, x, G, eps, w, b):
    X = ctx.vals(x).copy()
    y = m(x)
    ctx.check("shape", tuple(y.shape) == X.shape)
    ref = normalized(X.reshape(X.shape[0], X.shape[1], -1), G, eps, w, b).reshape(X.shape)
    Y = ctx.vals(y)
    for ix in np.ndindex(*X.shape):
        ctx.close(f"{ix}", Y[ix], ref[ix])
    ctx.close("input untouched", x, X, tol=0)


def norm(ctx, B, C, L, groups=None, eps=None):
    from ml4gw.nn.norm import GroupNorm1D

    m = GroupNorm1D(C, groups) if eps is None else GroupNorm1D(C, groups, eps)
    w0, b0 = ctx.vals(m.weight).reshape(-1), ctx.vals(m.bias).reshape(-1)
    ctx.check("starts as the identity", all(v == 1 for v in w0) and all(v == 0 for v in b0))
    w, b = affine(ctx, m, C, m.weight.ndim == 2)
    compare(ctx, m, ctx.real("x", (B, C, L), -2, 2), groups or C, 1e-5 if eps is None else eps, w, b)


def getter1(ctx, groups, C, want):
    from ml4gw.nn.norm import GroupNorm1DGetter

    m = GroupNorm1DGetter(groups)(C)
    w, b = affine(ctx, m, C, m.weight.ndim == 2)
    compare(ctx, m, ctx.real("x", (1, C, 2), -2, 2), want, 1e-5, w, b)


def getter2(ctx, groups, C, want):
    from ml4gw.nn.norm import GroupNorm2DGetter

    m = GroupNorm2DGetter(groups)(C)
    w, b = affine(ctx, m, C, False)
    compare(ctx, m, ctx.real("x", (1, C, 2, 1), -2, 2), want, 1e-5, w, b)


def rejects(ctx, C, groups):
    from ml4gw.nn.norm import GroupNorm1D

    ctx.expect_raises("indivisible", ValueError, lambda: GroupNorm1D(C, groups))


def ranks(ctx, shape):
    from ml4gw.nn.norm import GroupNorm1D

    m = GroupNorm1D(2, 1)
    ctx.expect_raises("rank", ValueError, lambda: m(ctx.real("x", shape)))


HARNESSES = [
    Harness("normalization", norm, [dict(B=b, C=c, L=l, groups=g) for b, c, l, g in ((2, 2, 3, None), (1, 3, 4, 3), (1, 4, 2, 2), (2, 3, 2, 1), (1, 6, 2, 3), (2, 4, 1, 2), (1, 1, 5, 1), (1, 6, 1, 2))] + [dict(B=1, C=2, L=3, groups=g, eps=e) for g in (1, 2) for e in (0.5, 1e-3)],
            thorough=[dict(B=2, C=8, L=3, groups=g) for g in (1, 2, 4, 8)]),
    Harness("1d getter", getter1, [dict(groups=g, C=c, want=w) for g, c, w in ((None, 3, 3), (2, 4, 2), (8, 2, 2), (1, 3, 1))]),
    Harness("2d getter", getter2, [dict(groups=g, C=c, want=w) for g, c, w in ((None, 3, 3), (2, 4, 2), (8, 2, 2), (1, 3, 1))]),
    Harness("rejects", rejects, [dict(C=c, groups=g) for c, g in ((1, 2), (5, 3), (4, 3), (6, 4), (3, 6))]),
    Harness("ranks", ranks, [dict(shape=s) for s in ((2, 8), (2, 2, 4, 4), (4,))]),
]
META = {
    "bounds": "1-2 batch elements, 1-6 channels in 1-6 groups, 1-5 samples; inputs, weights and biases symbolic",
    "outside": "cancellation of the variance in single precision for data far from zero",
}
