"""Projected strain: antenna-weighted sum of polarizations, delayed circularly."""
import numpy as np
import torch

from checks.g01 import spec, sym
from checks.s01 import sel
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"
C = 299792458.0
PI = 3.141592653589793
GAP = 1e-6


def trunc(x):
    if not tm.is_sym(x):
        return int(x)
    return tm.ite(tm.le(0, x), tm.floor(x), tm.neg(tm.floor(tm.neg(x))))


def delay(ctx, theta, phi, v, sr):
    """arrival time difference in samples (positive: later than the geocentre);
    values within GAP of a whole number are excluded (rounding decides there)"""
    k = [tm.mul(tm.sin(theta), tm.cos(phi)), tm.mul(tm.sin(theta), tm.sin(phi)), tm.cos(theta)]
    d = 0
    for a, b in zip(k, v):
        d = tm.add(d, tm.mul(a, b))
    d = tm.mul(d, -sr / C)
    fr = tm.sub(d, tm.floor(d)) if tm.is_sym(d) else d - np.floor(d)
    if not tm.is_sym(d) and d == 0:
        return 0
    ctx.assume(tm.land(tm.le(GAP, fr), tm.le(fr, 1 - GAP)))
    return trunc(d)


def rolled(row, d, t):
    n = len(row)
    return sel(list(row), tm.mod(tm.sub(t, d), n))


def shift(ctx, B, n, N, sr, angles, span):
    """sky angles concrete, detector vertices symbolic within +-span samples"""
    from ml4gw.gw import shift_responses

    r = ctx.real("r", (B, n, N))
    R = ctx.vals(r).copy()
    lim = span * C / sr
    u = ctx.vals(ctx.real("v", (n, 3), -1, 1))
    v = np.array([[tm.mul(lim, x) for x in row] for row in u], dtype=object)
    th = torch.tensor([a[0] for a in angles[:B]], dtype=torch.float64)
    ph = torch.tensor([a[1] for a in angles[:B]], dtype=torch.float64)
    d = [[delay(ctx, float(th[b]), float(ph[b]), v[i], sr) for i in range(n)] for b in range(B)]
    out = ctx.vals(shift_responses(r, th, ph, ctx.tensor_of(v), sr))
    ctx.check("shape", out.shape == (B, n, N))
    for b in range(B):
        for i in range(n):
            for t in range(N):
                ctx.close(f"o[{b},{i},{t}]", out[b, i, t], rolled(R[b, i], d[b][i], t))
    ctx.cover("positive delay", tm.le(1, d[0][0]))
    ctx.cover("negative delay", tm.le(d[0][0], -1))


def sky(ctx, B, n, N, sr, vert):
    """sky angles symbolic, vertices concrete"""
    from ml4gw.gw import shift_responses

    r = ctx.real("r", (B, n, N))
    R = ctx.vals(r).copy()
    v = np.array(vert, dtype=float) * C / sr
    th = ctx.real("theta", (B,), 0, PI)
    ph = ctx.real("phi", (B,), -PI, PI)
    T, P = ctx.vals(th), ctx.vals(ph)
    d = [[delay(ctx, T[b], P[b], list(map(float, v[i])), sr) for i in range(n)] for b in range(B)]
    out = ctx.vals(shift_responses(r, th, ph, torch.tensor(v), sr))
    for b in range(B):
        for i in range(n):
            for t in range(N):
                ctx.close(f"o[{b},{i},{t}]", out[b, i, t], rolled(R[b, i], d[b][i], t))


def weights(ctx, B, n, N, modes):
    """all vertices at the geocentre: the antenna-weighted sum, undelayed"""
    from ml4gw.gw import compute_observed_strain

    dec = ctx.real("dec", (B,), -PI / 2, PI / 2)
    psi = ctx.real("psi", (B,), -PI, PI)
    phi = ctx.real("phi", (B,), -PI, PI)
    D = sym(ctx, "D", n)
    pol = {m: ctx.real(m, (B, N), -1, 1) for m in modes}
    out = ctx.vals(
        compute_observed_strain(dec, psi, phi, ctx.tensor_of(D), torch.zeros(n, 3), 1024, **pol)
    )
    ctx.check("shape", out.shape == (B, n, N))
    A, S, F = ctx.vals(dec), ctx.vals(psi), ctx.vals(phi)
    for b in range(B):
        th = tm.sub(PI / 2, A[b])
        for i in range(n):
            w = {m: spec(th, S[b], F[b], D[i], m) for m in modes}
            for t in range(N):
                e = 0
                for m in modes:
                    e = tm.add(e, tm.mul(w[m], ctx.vals(pol[m])[b, t]))
                ctx.close(f"o[{b},{i},{t}]", out[b, i, t], e)


def strain(ctx, B, n, N, modes, sr, angles, span):
    """the whole projection with symbolic vertices, tensors and waveforms"""
    from ml4gw.gw import compute_observed_strain

    dec = torch.tensor([a[0] for a in angles[:B]], dtype=torch.float64)
    phi = torch.tensor([a[1] for a in angles[:B]], dtype=torch.float64)
    psi = torch.tensor([a[2] for a in angles[:B]], dtype=torch.float64)
    D = sym(ctx, "D", n)
    pol = {m: ctx.real(m, (B, N), -1, 1) for m in modes}
    lim = span * C / sr
    v = np.array([[tm.mul(lim, x) for x in row] for row in ctx.vals(ctx.real("v", (n, 3), -1, 1))], dtype=object)
    d = [[delay(ctx, PI / 2 - float(dec[b]), float(phi[b]), v[i], sr) for i in range(n)] for b in range(B)]
    out = ctx.vals(compute_observed_strain(dec, psi, phi, ctx.tensor_of(D), ctx.tensor_of(v), sr, **pol))
    ctx.check("shape", out.shape == (B, n, N))
    for b in range(B):
        th = PI / 2 - float(dec[b])
        for i in range(n):
            row = []
            for t in range(N):
                e = 0
                for m in modes:
                    e = tm.add(e, tm.mul(spec(th, float(psi[b]), float(phi[b]), D[i], m), ctx.vals(pol[m])[b, t]))
                row.append(e)
            for t in range(N):
                ctx.close(f"o[{b},{i},{t}]", out[b, i, t], rolled(row, d[b][i], t))


_a = ((0.7, 0.4), (2.1, -1.3), (1.2, 3.0))
_b = ((0.5, 0.4, 0.3), (-0.9, -1.3, 1.1))
HARNESSES = [
    Harness(
        "shift",
        shift,
        [
            dict(B=2, n=2, N=5, sr=1024, angles=_a, span=1.5),
            dict(B=1, n=1, N=4, sr=4096.0, angles=_a, span=5),
            dict(B=1, n=3, N=4, sr=16, angles=_a[1:], span=2),
            dict(B=3, n=1, N=3, sr=2048, angles=_a, span=1.2),
            dict(B=2, n=3, N=4, sr=256, angles=_a[1:], span=1.2),
            dict(B=1, n=2, N=6, sr=512, angles=_a[2:], span=2),
        ],
    ),
    Harness("sky", sky, [dict(B=1, n=1, N=4, sr=1024, vert=[[1.6, -0.7, 1.1]]), dict(B=2, n=2, N=3, sr=1024, vert=[[0, 0, 1.3], [0.2, -1.4, 0.6]])]),
    Harness(
        "weights",
        weights,
        [
            dict(B=2, n=2, N=2, modes=("plus", "cross")),
            dict(B=2, n=1, N=3, modes=("cross", "plus")),
            dict(B=1, n=2, N=2, modes=("breathing", "plus", "cross")),
            dict(B=1, n=2, N=1, modes=("cross",)),
            dict(B=2, n=3, N=2, modes=("plus", "cross")),
        ],
    ),
    Harness(
        "strain",
        strain,
        [
            dict(B=2, n=2, N=4, modes=("plus", "cross"), sr=1024, angles=_b, span=1.3),
            dict(B=1, n=2, N=4, modes=("cross", "breathing", "plus"), sr=256.0, angles=_b[1:], span=2),
        ],
    ),
]
META = {
    "bounds": "1-3 sources x 1-3 detectors x 3-6 samples; delays up to 1.2-5 samples either way (longer than the series included); angles symbolic with concrete vertices, and vertices symbolic with concrete angles",
    "outside": "delays within 1e-6 samples of a whole number, where rounding decides the truncation",
}
