"""State-space layers."""
import math

import numpy as np
import torch
from torch import nn

from checks import spec
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def plant(m, name, t):
    """put a symbolic tensor in the place of a parameter"""
    m._parameters.pop(name, None)
    object.__setattr__(m, name, t)


def symbolic_kernel(ctx, k, H, M, full=True):
    C = ctx.real("C", (H, M, 2), -2, 2)
    plant(k, "C", C)
    if full:
        r, i, d = ctx.real("log_A_real", (H, M), -1.5, 1), ctx.real("A_imag", (H, M), -4, 4), ctx.real("log_dt", (H,), -5, 0)
    else:
        f = lambda n, a, b: torch.tensor([a + (b - a) * ((0.37 + 0.618 * j) % 1) for j in range(n)], dtype=torch.float64)  # noqa
        r, i, d = f(H * M, -1.0, 0.5).reshape(H, M), f(H * M, -3, 3).reshape(H, M), f(H, -2.5, -0.5)
    plant(k, "log_A_real", r)
    plant(k, "A_imag", i)
    plant(k, "log_dt", d)
    return [ctx.vals(v).copy() for v in (C, r, i, d)]


def cdiv(a, b):
    d = spec.abs2(b)
    n = spec.conjmul(b, a)
    return tm.div(n[0], d), tm.div(n[1], d)


def cmul(a, b):
    return tm.sub(tm.mul(a[0], b[0]), tm.mul(a[1], b[1])), tm.add(tm.mul(a[0], b[1]), tm.mul(a[1], b[0]))


def cexp(z):
    e = tm.exp(z[0])
    return tm.mul(e, tm.cos(z[1])), tm.mul(e, tm.sin(z[1]))


def taps(params, L):
    """kernel taps of every channel"""
    C, r, i, d = params
    H, M = r.shape
    out = []
    for h in range(H):
        dt = tm.exp(d[h])
        row = []
        for l in range(L):
            s = []
            for n in range(M):
                A = (tm.neg(tm.exp(r[h, n])), i[h, n])
                z = (tm.mul(A[0], dt), tm.mul(A[1], dt))
                e = cexp(z)
                g = cmul((C[h, n, 0], C[h, n, 1]), cdiv((tm.sub(e[0], 1), e[1]), A))
                s.append((2, cmul(g, cexp((tm.mul(l, z[0]), tm.mul(l, z[1]))))[0]))
            row.append(tm.lincomb(s))
        out.append(row)
    return out


def kernel(ctx, H, N, L, full):
    from ml4gw.nn.ssm.s4d import S4DKernel

    k = S4DKernel(H, N)
    p = symbolic_kernel(ctx, k, H, N // 2, full)
    o = ctx.vals(k(L))
    ctx.check("shape", o.shape == (H, L))
    ref = taps(p, L)
    for h in range(H):
        for l in range(L):
            ctx.close(f"tap {h},{l}", o[h, l], ref[h][l], rel=1e-6)


def initial(ctx, H, N, lo, hi):
    """the timesteps drawn at construction lie in the requested range"""
    from ml4gw.nn.ssm.s4d import S4DKernel

    k = S4DKernel(H, N, lo, hi)
    for n, v in enumerate(ctx.vals(k.log_dt)):
        ctx.check(f"dt {n}", tm.land(tm.ge(v, math.log(lo) - 1e-6), tm.le(v, math.log(hi) + 1e-6)))
    for h in range(H):
        for n in range(N // 2):
            ctx.close(f"state {h},{n} real", tm.exp(ctx.vals(k.log_A_real)[h, n]), 0.5, tol=1e-6)
            ctx.close(f"state {h},{n} imag", ctx.vals(k.A_imag)[h, n], math.pi * n, tol=1e-5)
    ctx.check("states", tuple(k.C.shape) == (H, N // 2, 2) and tuple(k.A_imag.shape) == (H, N // 2))


def layer(ctx, H, N, **kw):
    from ml4gw.nn.ssm.s4d import S4D

    m = S4D(H, N, **kw)
    p = symbolic_kernel(ctx, m.kernel, H, N // 2, False)
    D = ctx.real("D", (H,), -2, 2)
    plant(m, "D", D)
    return m, p, ctx.vals(D)


def convolved(U, ker, D):
    """causal convolution of [batch][channel][time] plus skip term"""
    B, H, L = U.shape
    Y = np.empty(U.shape, dtype=object)
    for b in range(B):
        for h in range(H):
            for t in range(L):
                Y[b, h, t] = spec.total([tm.mul(ker[h][l], U[b, h, t - l]) for l in range(t + 1)] + [tm.mul(D[h], U[b, h, t])])
    return Y


def linear_part(ctx, B, H, N, L, transposed):
    m, p, D = layer(ctx, H, N, transposed=transposed)
    m.activation = nn.Identity()
    m.output_linear = nn.Identity()
    u = ctx.real("u", (B, H, L) if transposed else (B, L, H), -1, 1)
    U = ctx.vals(u).copy()
    y = m(u)
    ctx.check("shape", tuple(y.shape) == U.shape)
    ctx.close("input untouched", u, U, tol=0)
    Y = ctx.vals(y)
    if not transposed:
        U, Y = np.swapaxes(U, 1, 2), np.swapaxes(Y, 1, 2)
    ref = convolved(U, taps(p, L), D)
    for ix in np.ndindex(*ref.shape):
        ctx.close(f"output {ix}", Y[ix], ref[ix])


def full_layer(ctx, B, H, N, L, transposed, dropout=0.0):
    """linear part, activation, mixing of channels and gate"""
    m, p, D = layer(ctx, H, N, transposed=transposed, dropout=dropout)
    m.eval()
    u = ctx.real("u", (B, H, L) if transposed else (B, L, H), -1, 1)
    y = m(u)
    ctx.check("shape", tuple(y.shape) == tuple(u.shape))
    conv = convolved(ctx.vals(u if transposed else u.transpose(1, 2)), taps(p, L), D)
    a = torch.nn.functional.gelu(ctx.tensor_of(conv))
    lin = m.output_linear[0]
    W, c = lin.weight[:, :, 0], lin.bias
    z = torch.einsum("oh,bht->bot", W, a) + c[None, :, None]
    ref = z[:, :H] * torch.sigmoid(z[:, H:])
    ctx.close("output", y, ref if transposed else ref.transpose(1, 2))


def causal(ctx, B, H, N, L, t, transposed):
    """changing the input after t, or in another batch element, changes nothing up to t"""
    m, p, D = layer(ctx, H, N, transposed=transposed)
    u, v = ctx.real("u", (B, H, L), -1, 1), ctx.real("v", (B, H, L), -1, 1)
    w = v.clone()
    w[0, :, : t + 1] = u[0, :, : t + 1]
    f = (lambda x: m(x)) if transposed else (lambda x: m(x.transpose(1, 2)).transpose(1, 2))
    ctx.close("past of the first element", f(w)[0, :, : t + 1], f(u)[0, :, : t + 1])


def model(ctx, B, di, do, dm, N, layers, L):
    from ml4gw.nn.ssm.s4d import S4Model

    m = S4Model(di, do, dm, N, layers)
    m.eval()
    for k, s in enumerate(m.s4_layers):
        s.activation = nn.Identity()
        s.output_linear = nn.Identity()
    x = ctx.real("x", (B, di, L), -1, 1)
    o = m(x)
    ctx.check("shape", tuple(o.shape) == (B, do))
    h = torch.einsum("oi,bit->bot", m.encoder.weight, x) + m.encoder.bias[None, :, None]
    for s, n in zip(m.s4_layers, m.norms):
        h = torch.stack([torch.stack([n((s(h) + h)[b, :, t]) for t in range(L)], -1) for b in range(B)])
    h = sum(h[:, :, t] for t in range(L)) / L
    ref = torch.einsum("oi,bi->bo", m.decoder.weight, h) + m.decoder.bias
    ctx.close("output", o, ref)


def rejects(ctx, value):
    from ml4gw.nn.ssm.s4d import S4D

    ctx.expect_raises("dropout", ValueError, lambda: S4D(2, 4, dropout=value))


HARNESSES = [
    Harness("kernel", kernel, [dict(H=h, N=n, L=l, full=f) for h, n, l, f in ((1, 2, 3, True), (2, 2, 2, True), (1, 4, 2, True), (2, 4, 4, False), (3, 6, 7, False))]),
    Harness("initial timestep", initial, [dict(H=3, N=4, lo=0.001, hi=0.1), dict(H=2, N=2, lo=0.5, hi=0.6)]),
    Harness("convolution", linear_part, [dict(B=b, H=h, N=n, L=l, transposed=t) for b, h, n, l, t in ((1, 1, 2, 5, True), (2, 2, 4, 3, True), (2, 3, 2, 4, False), (1, 2, 4, 8, True), (2, 1, 2, 1, True))]),
    Harness("layer", full_layer, [dict(B=2, H=2, N=2, L=3, transposed=True), dict(B=1, H=3, N=2, L=2, transposed=False), dict(B=2, H=2, N=4, L=2, transposed=True, dropout=0.5)]),
    Harness("causal", causal, [dict(B=2, H=2, N=4, L=4, t=t, transposed=tr) for t in (0, 2) for tr in (True, False)] + [dict(B=1, H=1, N=2, L=7, t=3, transposed=True)]),
    Harness("model", model, [dict(B=2, di=2, do=1, dm=2, N=2, layers=1, L=2), dict(B=1, di=1, do=2, dm=2, N=2, layers=2, L=2)]),
    Harness("rejects", rejects, [dict(value=v) for v in (None, "0.1", -0.1, 1.5)]),
]
META = {
    "bounds": "1-3 channels, 2-6 states, sequences of 1-8 samples, batches of one or two; inputs, output matrix and skip term symbolic, state matrix and timestep symbolic for the kernel (fixed irregular values inside layers); dropout inactive",
    "outside": "random dropout in training; stacked models beyond two layers; single precision",
}
