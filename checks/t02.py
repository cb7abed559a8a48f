"""SNR rescaling."""
import itertools

import numpy as np
import torch

from checks import spec
from checks.g03 import snr2
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def spectrum(c, n):
    return [0.5 + ((5 * k + 3 * c + (k * k) % 5) % 7) / 4 for k in range(n)]


def make(C, N, sr, hp=None, lp=None, F=None):
    from ml4gw.transforms import SnrRescaler

    F = F or N // 2 + 1
    t = SnrRescaler(C, sr, N / sr, hp, lp, dtype=torch.float64)
    P = [spectrum(c, F) for c in range(C)]
    bg = [torch.tensor(p) for p in P]
    t.fit(*bg)
    return t, [spec.interp_nearest(p, N // 2 + 1) for p in P]


def responses(ctx, B, C, N):
    """fixed irregular shapes with a symbolic amplitude per element and detector"""
    a = ctx.vals(ctx.real("amp", (B, C), 0.5, 2))
    out = np.empty((B, C, N), dtype=object)
    for b, c, i in np.ndindex(B, C, N):
        out[b, c, i] = tm.mul(((7 * i * i + 3 * i * (b + 1) + 5 * c + b) % 11 - 5) / 4, a[b, c])
    return out


def net(x, P, sr, hp, lp):
    return spec.total([snr2(list(r), p, sr, hp, lp) for r, p in zip(x, P)])


def targets(ctx, B, C, N, sr, hp=None, lp=None, F=None):
    t, P = make(C, N, sr, hp, lp, F)
    X = responses(ctx, B, C, N)
    x = ctx.tensor_of(X)
    g = ctx.real("target", (B,), 1, 30)
    G = ctx.vals(g).copy()
    y, rep = t(x, g)
    ctx.close("responses untouched", x, X, tol=0)
    ctx.close("targets untouched", g, G, tol=0)
    ctx.close("reported targets", rep, G)
    Y = ctx.vals(y)
    ctx.check("shape", Y.shape == X.shape)
    for b in range(B):
        ctx.close(f"snr {b}", net(Y[b], P, sr, hp, lp), tm.power(G[b], 2), rel=1e-7)
        ctx.close(f"snr is that of its own input {b}", tm.mul(net(X[b], P, sr, hp, lp), tm.power(Y[b, 0, 1], 2)), tm.mul(tm.power(G[b], 2), tm.power(X[b, 0, 1], 2)), tol=1e-5)


def common(ctx, B, C, N, sr, hp=None):
    """every sample symbolic: one positive factor per element"""
    t, P = make(C, N, sr, hp)
    x = ctx.real("x", (B, C, N), -2, 2)
    X = ctx.vals(x)
    for b in range(B):
        ctx.assume(tm.ge(tm.sub(X[b, 0, 0], X[b, 0, 1]), 0.5))
    g = ctx.real("target", (B,), 1, 30)
    Y = ctx.vals(t(x, g)[0])
    G = ctx.vals(g)
    for b in range(B):
        p = net(X[b], P, sr, hp, None)
        for c in range(C):
            for i in range(N):
                a, q = (b, c, i), (b, 0, 0)
                ctx.close(f"common factor {a}", tm.mul(Y[a], X[q]), tm.mul(Y[q], X[a]))
                ctx.check(f"positive {a}", tm.ge(tm.mul(Y[a], X[a]), -1e-9))


def untargeted(ctx, B, C, N, sr, hp=None, lp=None):
    """without targets: a permutation of the input SNRs"""
    t, P = make(C, N, sr, hp, lp)
    X = responses(ctx, B, C, N)
    y, rep = t(ctx.tensor_of(X))
    for tag, arr, *_ in ctx.E.draws:
        if tag == "perm":
            for v in arr.reshape(-1):
                ctx.E.concretize(v)
    R, Y = ctx.vals(rep), ctx.vals(y)
    ctx.check("shape", R.shape == (B,) and Y.shape == X.shape)
    p = [net(X[b], P, sr, hp, lp) for b in range(B)]
    for b in range(B):
        ctx.close(f"applied {b}", net(Y[b], P, sr, hp, lp), tm.power(R[b], 2), rel=1e-7)
    # a bijection between reported targets and input SNRs
    near = lambda u, v: tm.le(tm.absv(tm.sub(u, v)), 1e-5)  # noqa
    same = [[near(tm.power(R[i], 2), p[j]) for j in range(B)] for i in range(B)]
    ctx.check("bijection", tm.lor(*[tm.land(*[same[i][s[i]] for i in range(B)]) for s in itertools.permutations(range(B))]))
    for s in itertools.permutations(range(B)):
        apart = [tm.ge(tm.absv(tm.sub(p[i], p[j])), 0.1) for i in range(B) for j in range(i)]
        ctx.cover(f"order {s}", tm.land(*apart, *[same[i][s[i]] for i in range(B)]))


def rejects(ctx, case):
    t = make(2, 8, 8)[0]
    p = torch.tensor(spectrum(0, 5))
    fn = {"few": lambda: t.fit(p), "many": lambda: t.fit(p, p, p)}
    ctx.expect_raises(case, ValueError, fn[case])


_g = [dict(B=2, C=2, N=8, sr=8), dict(B=2, C=1, N=8, sr=4, hp=1.0), dict(B=1, C=3, N=6, sr=6, lp=2.0), dict(B=2, C=2, N=10, sr=20, hp=4.0, lp=8.0), dict(B=2, C=2, N=9, sr=3)]
HARNESSES = [
    Harness("targets", targets, _g + [dict(B=2, C=2, N=8, sr=8, F=3), dict(B=1, C=2, N=8, sr=8, F=9, hp=2.5)]),
    Harness("common factor", common, [dict(B=2, C=2, N=6, sr=6), dict(B=1, C=3, N=4, sr=4, hp=1.0)]),
    Harness("untargeted", untargeted, [dict(B=2, C=2, N=8, sr=8), dict(B=3, C=1, N=6, sr=6, hp=1.0), dict(B=1, C=2, N=6, sr=6), dict(B=2, C=2, N=8, sr=16, lp=6.0)]),
    Harness("rejects", rejects, [dict(case=c) for c in ("few", "many")]),
]
META = {
    "bounds": "1-3 responses of 1-3 detectors and 4-10 samples: every sample symbolic for the common positive factor, one symbolic amplitude per response and detector for the SNR itself; all targets in [1, 30]; every permutation drawn; fixed irregular background spectra",
    "outside": "responses of zero SNR (division by zero); backgrounds fit from time series (F01/F02 cover the estimate)",
}
