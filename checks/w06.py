"""Sine-Gaussian bursts and black-hole ringdowns against their closed forms."""
import math

import numpy as np
import torch

from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"
PI = math.pi
C, G, MPC = 299792458.0, 6.6743e-11, 3.085677581491367e22
add, sub, mul, div, power = tm.add, tm.sub, tm.mul, tm.div, tm.power


def prod(*xs):
    r = 1
    for x in xs:
        r = mul(r, x)
    return r


def ranges(lo, hi, n):
    return [lo + (hi - lo) * i / n for i in range(n + 1)]


def grid(rate, duration):
    return [i / rate for i in range(int(round(duration * rate)))]


def sine_gaussian(ctx, rate, duration, B=1, dtype=torch.float64, fixed=()):
    """every sample of both polarizations"""
    from ml4gw.waveforms import SineGaussian

    ctx.single_precision()

    def par(name, lo, hi, vals):
        if name in fixed:
            return torch.tensor(vals[:B], dtype=dtype)
        return ctx.real(name, (B,), lo, hi) if dtype == torch.float64 else ctx.tensor_of(ctx.vals(ctx.real(name, (B,), lo, hi)), dtype)

    Q, f = par("quality", 2, 20, [3.0, 8.5]), par("frequency", 0.2, 40, [4.0, 9.25])
    h, p, e = par("hrss", 0, 4, [1.5, 0.25]), par("phase", -7, 7, [0.4, -2.0]), par("eccentricity", 0, 0.99, [0.3, 0.9])
    sent = (Q, f, h, p, e)
    before = [ctx.vals(v).copy() for v in sent]
    m = SineGaussian(rate, duration)
    c, pl = m(Q, f, h, p, e)
    X, P = ctx.vals(c), ctx.vals(pl)
    ts = [t - duration / 2 for t in grid(rate, duration)]
    ctx.check("shapes and type", X.shape == (B, len(ts)) and P.shape == (B, len(ts)) and c.dtype == dtype and pl.dtype == dtype)
    V = before
    for b in range(B):
        Q, f, h, p, e = (v[b] for v in V)
        a2 = div(1, sub(2, mul(e, e)))
        b2 = mul(a2, sub(1, mul(e, e)))
        g = tm.exp(mul(-1, mul(Q, Q)))
        n = div(Q, mul(f, 4 * math.sqrt(PI)))
        cs, sn = mul(n, add(1, g)), mul(n, sub(1, g))
        c2, s2 = power(tm.cos(p), 2), power(tm.sin(p), 2)
        plus = prod(h, power(a2, 0.5), power(add(mul(cs, c2), mul(sn, s2)), -0.5))
        cross = prod(h, power(b2, 0.5), power(add(mul(cs, s2), mul(sn, c2)), -0.5))
        for i, t in enumerate(ts):
            phi = mul(2 * PI * t, f)
            env = tm.exp(mul(-0.5, power(div(phi, Q), 2)))
            ctx.close(f"plus {b},{i}", P[b, i], prod(plus, env, tm.cos(sub(phi, p))), tol=1e-4, rel=1e-4)
            ctx.close(f"cross {b},{i}", X[b, i], prod(cross, env, tm.sin(sub(phi, p))), tol=1e-4, rel=1e-4)
    for k, v, o in zip("quality frequency hrss phase eccentricity".split(), sent, before):
        ctx.close(f"{k} untouched", v, o, tol=0)


def ringdown(ctx, rate, duration, B=1, fixed=()):
    from ml4gw.waveforms import Ringdown

    ctx.single_precision()

    def par(name, lo, hi, vals):
        return torch.tensor(vals[:B], dtype=torch.float64) if name in fixed else ctx.real(name, (B,), lo, hi)

    f, Q, ep = par("frequency", 10, 2000, [100.0, 250.0]), par("quality", 2.0, 20, [3.0, 8.5]), par("epsilon", 0.0001, 0.1, [0.01, 0.03])
    p, inc, d = par("phase", -7, 7, [0.4, -2.0]), par("inclination", 0, 3.14159, [0.7, 2.0]), par("distance", 1, 5000, [100.0, 400.0])
    sent = (f, Q, ep, p, inc, d)
    before = [ctx.vals(v).copy() for v in sent]
    c, pl = Ringdown(rate, duration)(*sent)
    X, P = ctx.vals(c), ctx.vals(pl)
    ts = grid(rate, duration)
    ctx.check("shapes and type", X.shape == (B, len(ts)) and P.shape == (B, len(ts)) and c.dtype == torch.float64)
    for b in range(B):
        f, Q, ep, p, inc, d = (v[b] for v in before)
        # Berti, Cardoso and Will / Echeverria: quality and frequency from mass and spin
        gq = sub(1, mul(0.63, power(div(2, Q), 2 / 3)))
        F = add(1, div(7 / 24, mul(Q, Q)))
        # amplitude sqrt(5 epsilon / 2) (G M / c^2) / sqrt(Q F gq) over the distance, G M / c^2 = c gq / (2 pi f);
        # compared as a multiple of the other factors
        unit = prod(MPC / C, d, f, power(ep, -0.5), power(mul(Q, F), 0.5), power(gq, 0.5))
        A = mul(math.sqrt(2.5) / (2 * PI), gq)
        x = tm.cos(inc)
        for i, t in enumerate(ts):
            env = tm.exp(mul(-PI * t, div(f, Q)))
            a = add(mul(2 * PI * t, f), p)
            for name, got, want in (("plus", P, mul(add(1, mul(x, x)), tm.cos(a))), ("cross", X, prod(2, x, tm.sin(a)))):
                ctx.close(f"{name} {b},{i}", mul(got[b, i], unit), prod(A, env, want), tol=1e-5)
    for k, v, o in zip("frequency quality epsilon phase inclination distance".split(), sent, before):
        ctx.close(f"{k} untouched", v, o, tol=0)


HARNESSES = [
    Harness("sine-Gaussian", sine_gaussian, [dict(rate=16, duration=0.25), dict(rate=8, duration=0.625, B=2)]),
    Harness("ringdown", ringdown, [dict(rate=1024, duration=0.0048828125), dict(rate=2048, duration=0.001953125, B=2)]),
]
META = dict(
    functions=["ml4gw.waveforms.SineGaussian.{__init__,forward}", "ml4gw.waveforms.adhoc.sine_gaussian.semi_major_minor_from_e", "ml4gw.waveforms.Ringdown.{__init__,forward}"],
    bounds="sine-Gaussians: quality 2 to 20, frequency 0.2 to 40, strain 0 to 4, phases up to 7, eccentricity 0 to 0.99 on grids of 4 and 5 samples; "
    "ringdowns: frequency 10 to 2000, quality 2 to 20, radiated fraction 1e-4 to 0.1, phases up to 7, inclination 0 to pi, distance 1 to 5000 on grids of 4 and 5 samples; batches of 1 and 2; all of them symbolic",
    outside=["float32 rounding of pi in the source (a relative 3e-8 of the frequency) and floating-point rounding in general", "durations that are not a whole number of samples"],
    assumptions=["constants that differ by less than 1e-7 relative are taken as equal"],
)
