"""Window unfolding and kernel slicing return exactly the requested samples."""
import numpy as np
import torch

from symx.driver import Harness
from symx import term as tm

LEVEL = "model_checking"


def unfold(ctx, shape, window, stride):
    from ml4gw.utils.slicing import unfold_windows

    x = ctx.real("x", shape)
    X = ctx.vals(x).copy()
    for drop in (True, False):
        out = unfold_windows(x, window, stride, drop_last=drop)
        T = shape[-1]
        nw = (T - window) // stride + 1
        used = (nw - 1) * stride + window
        if not drop:
            out, rem = out
            R = ctx.vals(rem)
            ctx.check("remainder shape", R.shape == (1,) + tuple(shape[:-1]) + (T - used,))
            if R.shape == (1,) + tuple(shape[:-1]) + (T - used,):
                ctx.close("remainder", R[0], X[..., used:])
        O = ctx.vals(out)
        want = (nw,) + tuple(shape[:-1]) + (window,)
        ctx.check("windows shape", O.shape == want)
        if O.shape == want:
            for w in range(nw):
                ctx.close(f"window{w} drop={drop}", O[w], X[..., w * stride : w * stride + window])
    ctx.close("input untouched", ctx.vals(x), X)


def sl1(ctx, T, n, k):
    from ml4gw.utils.slicing import slice_kernels

    x = ctx.real("x", (T,))
    X = ctx.vals(x).copy()
    idx = ctx.int("idx", (n,), 0, T - k)
    I = ctx.vals(idx).copy()
    out = ctx.vals(slice_kernels(x, idx, k))
    ctx.check("shape", out.shape == (n, k))
    for b in range(n):
        for j in range(k):
            ctx.close(f"k[{b},{j}]", out[b, j], sel(list(X), tm.add(I[b], j)))
    ctx.close("idx untouched", ctx.vals(idx), I)


def sel(vals, i):
    """specification-level vals[i] (independent of the executor's gather)"""
    if not isinstance(i, tm.T):
        return vals[int(i)]
    r = vals[-1]
    for q in range(len(vals) - 1):
        r = tm.ite(tm.eq(i, q), vals[q], r)
    return r


def sl2(ctx, C, T, n, k, per_channel):
    from ml4gw.utils.slicing import slice_kernels

    x = ctx.real("x", (C, T))
    X = ctx.vals(x).copy()
    idx = ctx.int("idx", (n, C) if per_channel else (n,), 0, T - k)
    I = ctx.vals(idx).copy()
    out = ctx.vals(slice_kernels(x, idx, k))
    ctx.check("shape", out.shape == (n, C, k))
    for b in range(n):
        for c in range(C):
            s = I[b, c] if per_channel else I[b]
            for j in range(k):
                ctx.close(f"k[{b},{c},{j}]", out[b, c, j], sel(list(X[c]), tm.add(s, j)))
    ctx.close("x untouched", ctx.vals(x), X)


def sl3(ctx, B, C, T, k):
    from ml4gw.utils.slicing import slice_kernels

    x = ctx.real("x", (B, C, T))
    X = ctx.vals(x).copy()
    idx = ctx.int("idx", (B,), 0, T - k)
    I = ctx.vals(idx).copy()
    out = ctx.vals(slice_kernels(x, idx, k))
    ctx.check("shape", out.shape == (B, C, k))
    for b in range(B):
        for c in range(C):
            for j in range(k):
                ctx.close(f"k[{b},{c},{j}]", out[b, c, j], sel(list(X[b, c]), tm.add(I[b], j)))


def kinds(ctx, shape, window, stride, dtype):
    """windows, remainder and slices keep the precision of the series"""
    from ml4gw.utils.slicing import slice_kernels, unfold_windows

    dtype = getattr(torch, dtype)
    x = ctx.real("x", shape).to(dtype)
    w, r = unfold_windows(x, window, stride, drop_last=False)
    ctx.check("windows", w.dtype == dtype)
    ctx.check("remainder", r.dtype == dtype)
    ctx.check("windows alone", unfold_windows(x, window, stride).dtype == dtype)
    idx = ctx.int("idx", (shape[0] if len(shape) == 3 else 2,), 0, shape[-1] - window)
    ctx.check("slices", slice_kernels(x, idx, window).dtype == dtype)
    if len(shape) == 2:
        ctx.check("slices per channel", slice_kernels(x, idx[:, None].repeat(1, shape[0]), window).dtype == dtype)


def _unf():
    out = []
    for shape in ((11,), (2, 11), (2, 3, 11)):
        for w, s in ((4, 3), (4, 7), (3, 2), (5, 5), (2, 1), (11, 1), (1, 4), (6, 5)):
            out.append(dict(shape=shape, window=w, stride=s))
    return out


HARNESSES = [
    Harness("unfold_windows", unfold, _unf()),
    Harness("precision", kinds, [dict(shape=sh, window=4, stride=st, dtype=d) for sh in ((8,), (2, 8), (2, 1, 8)) for st in (2, 3) for d in ("float32", "float64", "float16")]),
    Harness("slice_1d", sl1, [dict(T=9, n=3, k=4), dict(T=6, n=2, k=6), dict(T=7, n=1, k=1)]),
    Harness(
        "slice_2d",
        sl2,
        [
            dict(C=2, T=7, n=3, k=3, per_channel=False),
            dict(C=2, T=7, n=3, k=3, per_channel=True),
            dict(C=3, T=6, n=2, k=2, per_channel=True),
            dict(C=3, T=6, n=3, k=2, per_channel=False),
            dict(C=1, T=6, n=2, k=4, per_channel=True),
        ],
    ),
    Harness("slice_3d", sl3, [dict(B=3, C=2, T=7, k=3), dict(B=2, C=3, T=5, k=5), dict(B=1, C=2, T=6, k=2)]),
]
META = {
    "bounds": "1-3 dimensional series of length <= 11, windows 1..11, strides 1..7; slice starts symbolic over every admissible start, contents symbolic reals",
    "outside": "longer series, device placement",
}
