"""Antenna responses: contraction of detector tensor and polarization tensor."""
import itertools

import numpy as np
import torch

from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"
PI = 3.141592653589793


def frame(theta, phi):
    """unit vectors of the wave frame at polarization angle zero: u points
    along increasing colatitude, v along increasing longitude"""
    st, ct, sp, cp = tm.sin(theta), tm.cos(theta), tm.sin(phi), tm.cos(phi)
    u = [tm.mul(ct, cp), tm.mul(ct, sp), tm.neg(st)]
    v = [tm.neg(sp), cp, 0]
    return u, v


def contract(D, a, b):
    r = 0
    for i in range(3):
        for j in range(3):
            r = tm.add(r, tm.mul(D[i, j], tm.mul(a[i], b[j])))
    return r


def spec(theta, psi, phi, D, mode):
    u, v = frame(theta, phi)
    s, c = tm.sin(psi), tm.cos(psi)
    m = [tm.neg(tm.add(tm.mul(a, s), tm.mul(b, c))) for a, b in zip(u, v)]
    n = [tm.sub(tm.mul(b, s), tm.mul(a, c)) for a, b in zip(u, v)]
    if mode == "plus":
        return tm.sub(contract(D, m, m), contract(D, n, n))
    if mode == "cross":
        return tm.add(contract(D, m, n), contract(D, n, m))
    return tm.add(contract(D, m, m), contract(D, n, n))


def sym(ctx, name, n):
    """n symbolic symmetric 3x3 tensors"""
    a = ctx.vals(ctx.real(name, (n, 6), -1, 1))
    out = np.empty((n, 3, 3), dtype=object)
    k = {(0, 0): 0, (1, 1): 1, (2, 2): 2, (0, 1): 3, (0, 2): 4, (1, 2): 5}
    for q in range(n):
        for i in range(3):
            for j in range(3):
                out[q, i, j] = a[q, k[min(i, j), max(i, j)]]
    return out


def angles(ctx, B):
    th = ctx.real("theta", (B,), 0, PI)
    ps = ctx.real("psi", (B,), -PI, PI)
    ph = ctx.real("phi", (B,), -PI, 2 * PI)
    return th, ps, ph


def responses(ctx, B, n, modes):
    from ml4gw.gw import compute_antenna_responses

    th, ps, ph = angles(ctx, B)
    D = sym(ctx, "D", n)
    out = ctx.vals(compute_antenna_responses(th, ps, ph, ctx.tensor_of(D), list(modes)))
    ctx.check("shape", out.shape == (B, len(modes), n))
    T, P, F = ctx.vals(th), ctx.vals(ps), ctx.vals(ph)
    for b in range(B):
        for k, m in enumerate(modes):
            for i in range(n):
                ctx.close(f"{m}[{b},{i}]", out[b, k, i], spec(T[b], P[b], F[b], D[i], m))


def rotation(ctx):
    """plus/cross rotate by twice the polarization angle; breathing does not"""
    from ml4gw.gw import compute_antenna_responses

    th, ps, ph = angles(ctx, 1)
    D = ctx.tensor_of(sym(ctx, "D", 1))
    m = ["plus", "cross", "breathing"]
    a = ctx.vals(compute_antenna_responses(th, ps, ph, D, m))[0, :, 0]
    z = ctx.vals(compute_antenna_responses(th, torch.zeros_like(ps), ph, D, m))[0, :, 0]
    p = ctx.vals(ps)[0]
    s, c = tm.sin(p), tm.cos(p)
    c2, s2 = tm.sub(tm.mul(c, c), tm.mul(s, s)), tm.mul(2, tm.mul(s, c))
    ctx.close("plus rotates", a[0], tm.add(tm.mul(c2, z[0]), tm.mul(s2, z[1])))
    ctx.close("cross rotates", a[1], tm.sub(tm.mul(c2, z[1]), tm.mul(s2, z[0])))
    ctx.close("breathing constant", a[2], z[2])


def geometry(ctx):
    """tensor modes are traceless and transverse, breathing is the transverse trace"""
    from ml4gw.gw import compute_antenna_responses

    th, ps, ph = angles(ctx, 1)
    t, f = ctx.vals(th)[0], ctx.vals(ph)[0]
    k = [tm.mul(tm.sin(t), tm.cos(f)), tm.mul(tm.sin(t), tm.sin(f)), tm.cos(t)]
    w = ctx.vals(ctx.real("w", (3,)))
    D = np.zeros((2, 3, 3), dtype=object)
    for i in range(3):
        D[0, i, i] = 1.0
        for j in range(3):
            # symmetric tensor along the propagation direction
            D[1, i, j] = tm.add(tm.mul(k[i], w[j]), tm.mul(w[i], k[j]))
    out = ctx.vals(compute_antenna_responses(th, ps, ph, ctx.tensor_of(D), ["plus", "cross", "breathing"]))[0]
    ctx.close("plus traceless", out[0, 0], 0.0)
    ctx.close("cross traceless", out[1, 0], 0.0)
    ctx.close("breathing trace", out[2, 0], 2.0)
    for i, m in enumerate(("plus", "cross", "breathing")):
        ctx.close(f"{m} transverse", out[i, 1], 0.0)


def tensors(ctx):
    from ml4gw import gw

    m, n = ctx.real("m", (2, 3)), ctx.real("n", (2, 3))
    M, N = ctx.vals(m), ctx.vals(n)
    o = {k: ctx.vals(getattr(gw, k)(m, n)) for k in ("outer", "plus", "cross", "breathing")}
    for b in range(2):
        for i in range(3):
            for j in range(3):
                mm, nn = tm.mul(M[b, i], M[b, j]), tm.mul(N[b, i], N[b, j])
                mn, nm = tm.mul(M[b, i], N[b, j]), tm.mul(N[b, i], M[b, j])
                ctx.close(f"outer[{b},{i},{j}]", o["outer"][b, i, j], mn)
                ctx.close(f"plus[{b},{i},{j}]", o["plus"][b, i, j], tm.sub(mm, nn))
                ctx.close(f"cross[{b},{i},{j}]", o["cross"][b, i, j], tm.add(mn, nm))
                ctx.close(f"breathing[{b},{i},{j}]", o["breathing"][b, i, j], tm.add(mm, nn))


def unknown(ctx, mode):
    from ml4gw.gw import compute_antenna_responses

    th, ps, ph = angles(ctx, 1)
    D = ctx.tensor_of(sym(ctx, "D", 1))
    ctx.expect_raises("unknown mode rejected", ValueError, lambda: compute_antenna_responses(th, ps, ph, D, ["plus", mode]))


_m = [p for r in (1, 2, 3) for p in itertools.permutations(("plus", "cross", "breathing"), r)]
HARNESSES = [
    Harness("responses", responses, [dict(B=2, n=2, modes=m) for m in _m] + [dict(B=1, n=3, modes=("plus", "cross")), dict(B=3, n=1, modes=("cross", "plus")), dict(B=2, n=3, modes=("plus", "cross")), dict(B=3, n=2, modes=("plus", "cross"))]),
    Harness("rotation", rotation),
    Harness("geometry", geometry),
    Harness("tensors", tensors),
    Harness("unknown", unknown, [dict(mode="scalar")]),
]
META = {
    "bounds": "1-3 sources, 1-3 detectors, every ordering of 1-3 modes; angles symbolic over a full turn, detector tensors arbitrary symmetric with entries in [-1, 1]",
    "outside": "rounding of float32 inputs",
}
