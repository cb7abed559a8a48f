"""Time-domain generation from a frequency-domain approximant."""
import math

import numpy as np
import torch

from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"
PI = math.pi
MSUN, MTSUN, C, G = 1.98840987e30, 4.925490947641266978197229498498379006e-6, 299792458.0, 6.6743e-11
add, sub, mul, div, power = tm.add, tm.sub, tm.mul, tm.div, tm.power


def prod(*xs):
    r = 1
    for x in xs:
        r = mul(r, x)
    return r


def total(*xs):
    r = 0
    for x in xs:
        r = add(r, x)
    return r


def most(a, b):
    return tm.ite(tm.ge(a, b), a, b)


def least(a, b):
    return tm.ite(tm.le(a, b), a, b)


# ---- bounds used by the conditioning (lalsimulation's LALSimInspiral.c), masses in suns


def isco(M):
    return div(1 / (27 * PI * MTSUN), M)


def velocity(f, M):
    return power(prod(PI, MTSUN, M, f), 1 / 3)


def chirp_time(v, m1, m2, chi):
    M = add(m1, m2)
    eta = div(mul(m1, m2), mul(M, M))
    c0 = div(prod(5 / 256, MTSUN, M), eta)
    c2 = add(743 / 252, mul(11 / 3, eta))
    c3 = mul(226 / 15, chi)
    c4 = total(3058673 / 508032, mul(5429 / 504, eta), prod(617 / 72, eta, eta))
    return prod(c0, power(v, -8), total(1, mul(c2, power(v, 2)), mul(c3, power(v, 3)), mul(c4, power(v, 4))))


def start_frequency(t, m1, m2):
    M = add(m1, m2)
    eta = div(mul(m1, m2), mul(M, M))
    return div(power(div(prod(5 * MTSUN, M), mul(eta, t)), 3 / 8), prod(8 * PI * MTSUN, M))


def final_spin(s1, s2):
    s = add(0.686, mul(0.15, add(s1, s2)))
    return least(most(most(s, tm.absv(s1)), tm.absv(s2)), 0.998)


def merge_time(M):
    return prod(2 * PI * 9 * 3 * MTSUN, M)


def ringdown_time(M, s):
    omega = div(add(1.5251, mul(-1.1568, power(sub(1, s), 0.1292))), mul(MTSUN, M))
    Q = add(0.7, mul(1.4187, power(sub(1, s), -0.499)))
    return prod(22, div(Q, omega))


def bounds(ctx):
    """each conditioning bound, for all masses, spins, frequencies and times"""
    from ml4gw.waveforms.cbc import utils

    ctx.single_precision()
    m1, m2 = ctx.real("m1", (2,), 1, 300), ctx.real("m2", (2,), 1, 200)
    s1, s2 = ctx.real("s1z", (2,), -0.99, 0.99), ctx.real("s2z", (2,), -0.99, 0.99)
    t = ctx.real("tchirp", (2,), 0.01, 100)
    v = ctx.real("velocity", (2,), 0.05, 0.9)  # of the frequency asked for
    f = ctx.tensor_of(np.array([div(power(x, 3), prod(PI, MTSUN, add(a, b))) for x, a, b in zip(ctx.vals(v), ctx.vals(m1), ctx.vals(m2))], dtype=object))
    k1, k2 = m1 * MSUN, m2 * MSUN
    s = ctx.real("s", (2,), -0.9, 0.998)
    V = [ctx.vals(x) for x in (m1, m2, s1, s2, v, t, s)]
    got = [ctx.vals(x) for x in (
        utils.frequency_isco(k1, k2), utils.chirp_time_bound(f, k1, k2, s1, s2), utils.chirp_start_frequency_bound(t, k1, k2),
        utils.final_black_hole_spin_bound(s1, s2), utils.merge_time_bound(k1, k2), utils.ringdown_time_bound(k1 + k2, s))]
    for b in range(2):
        m1, m2, s1, s2, v, t, s = (x[b] for x in V)
        M = add(m1, m2)
        eta = div(mul(m1, m2), mul(M, M))
        isc, ct, sf, fs, mt, rt = (g[b] for g in got)
        ctx.close(f"innermost orbit {b}", prod(isc, M, 27 * PI * MTSUN), 1, tol=1e-5)
        unit = div(prod(eta, power(v, 8)), prod(5 / 256, MTSUN, M))
        ctx.close(f"chirp time {b}", mul(ct, unit), mul(unit, chirp_time(v, m1, m2, most(tm.absv(s1), tm.absv(s2)))), tol=1e-3)
        unit = prod(power(t, 3 / 8), power(eta, 3 / 8), power(M, 5 / 8), 1e-4)
        ctx.close(f"start frequency {b}", mul(unit, sf), mul(unit, start_frequency(t, m1, m2)), tol=1e-4)
        ctx.close(f"final spin {b}", fs, final_spin(s1, s2), tol=1e-6)
        ctx.close(f"merger time {b}", mt, merge_time(M), tol=1e-6)
        # as a fraction: 22 Q M over the dimensionless frequency
        om = add(1.5251, mul(-1.1568, power(sub(1, s), 0.1292)))
        ctx.close(f"ringdown time {b}", div(mul(rt, om), mul(MTSUN, M)), div(prod(ringdown_time(M, s), om), mul(MTSUN, M)), tol=1e-4)


# ---- the generator

PAIRS = ([260.0, 200.0, 120.0], [190.0, 150.0, 100.0], [0.3, -0.7, 0.1], [-0.2, 0.5, 0.4])


def masses(B, which=0):
    a = [p[which:which + B] for p in PAIRS]
    return dict(zip(("mass_1", "mass_2", "s1z", "s2z"), (torch.tensor(x, dtype=torch.float64) for x in a)))


def plan(P, rate, f_min):
    """grid and taper of each element, from the bounds above"""
    B = len(P["mass_1"])
    r = []
    for b in range(B):
        m1, m2, s1, s2 = (float(P[k][b]) for k in ("mass_1", "mass_2", "s1z", "s2z"))
        M, chi = m1 + m2, max(abs(s1), abs(s2))
        lo = min(isco(M), f_min)
        start = start_frequency(1.1 * chirp_time(velocity(lo, M), m1, m2, chi), m1, m2)
        n = round((chirp_time(velocity(start, M), m1, m2, chi) + merge_time(M) + ringdown_time(M, final_spin(s1, s2)) + 6 / lo) * rate)
        r.append((start, lo, 2 ** math.ceil(math.log2(n)), isco(M)))
    N = max(x[2] for x in r)
    df = rate / N
    return N, df, [(s, round(s / df), round(lo / df), i) for s, lo, _, i in r]


def taper(k, start, k0, k1, df):
    if k * df < start:
        return 0
    return 0.5 - 0.5 * math.cos(PI * (k - k0) / (k1 - k0)) if k0 <= k <= k1 else 1


class Source:
    """an approximant that returns arbitrary spectra and notes its arguments"""

    def __init__(self, ctx, B):
        self.ctx, self.B, self.calls = ctx, B, []

    def __call__(self, f, **kw):
        self.calls.append((f, kw))
        n = f.shape[-1]
        self.c, self.p = (self.ctx.cplx(x, (self.B, n)) for x in ("cross", "plus"))
        self.C, self.P = self.ctx.vals(self.c).copy(), self.ctx.vals(self.p).copy()
        return self.c, self.p


def generator(ctx, B, rate, duration, f_min, right_pad, which=0):
    from ml4gw.waveforms.generator import TimeDomainCBCWaveformGenerator

    P = masses(B, which)
    src = Source(ctx, B)
    g = TimeDomainCBCWaveformGenerator(src, sample_rate=rate, duration=duration, f_min=f_min, f_ref=f_min + 1.5, right_pad=right_pad)
    P["extra"] = object()
    return g, src, P


def conditioned(P, src, rate, f_min, right_pad):
    """the conditioned spectra from the definition"""
    N, df, per = plan(P, rate, f_min)
    first = next(k for k in range(N) if k * df >= min(s for s, *_ in per))
    shift = round(right_pad * rate) / rate
    out = []
    for V in (src.C, src.P):
        X = np.empty((src.B, N // 2 + 1), dtype=object)
        for b in range(src.B):
            start, k0, k1, _ = per[b]
            for k in range(N // 2 + 1):
                w = 0 if k < first or k == N // 2 else taper(k, start, k0, k1, df)
                if w == 0:
                    X[b, k] = 0
                    continue
                re, im = tm.re_im(V[b, k - first])
                c, s = math.cos(2 * PI * df * k * shift), math.sin(2 * PI * df * k * shift)
                X[b, k] = tm.mkcx(mul(w, sub(mul(c, re), mul(s, im))), mul(w, add(mul(c, im), mul(s, re))))
        out.append(X)
    return N, df, per, first, out


def spectrum(ctx, B, rate=32, duration=2.0, f_min=5.0, right_pad=0.5, which=0):
    g, src, P = generator(ctx, B, rate, duration, f_min, right_pad, which)
    hc, hp = g.generate_conditioned_fd_waveform(**P)
    N, df, per, first, want = conditioned(P, src, rate, f_min, right_pad)
    ctx.check("approximant called once", len(src.calls) == 1)
    f, kw = src.calls[0]
    F = ctx.vals(f)
    ctx.check("frequencies asked for", len(F) == N // 2 + 1 - first and all(abs(float(x) - df * (first + i)) < 1e-5 * rate for i, x in enumerate(F)))
    ctx.check("parameters passed on", set(kw) == set(P) | {"f_ref"} and kw["f_ref"] == f_min + 1.5 and all(kw[k] is P[k] for k in P))
    for n, got, w in (("cross", hc, want[0]), ("plus", hp, want[1])):
        got = ctx.vals(got)
        ctx.check(f"{n} size", got.shape == w.shape)
        for b, k in np.ndindex(*w.shape):
            (gr, gi), (wr, wi) = tm.re_im(got[b, k]), tm.re_im(w[b, k])
            ctx.close(f"{n} re {b},{k}", gr, wr, tol=2e-4)
            ctx.close(f"{n} im {b},{k}", gi, wi, tol=2e-4)


def ends(x, rate, f_min, isc):
    """one series tapered at both ends"""
    x = x.copy()
    n = len(x)
    a = max(round(rate / f_min), 4)
    for i in range(min(a, n)):
        x[i] = mul(x[i], 0.5 - 0.5 * math.cos(PI * i / a))
    e = max(round(rate / isc), 4)
    for j in range(1, e):
        x[n - j] = mul(x[n - j], 0.5 - 0.5 * math.cos(PI * j / e))
    return x


def series(ctx, B, rate, f_min, N, which=0):
    """tapers of time series, per element"""
    g, _, P = generator(ctx, B, rate, 2.0, f_min, 0.5, which)
    c, p = ctx.real("c", (B, N)), ctx.real("p", (B, N))
    C0, P0 = ctx.vals(c).copy(), ctx.vals(p).copy()
    hc, hp = g.apply_td_condition_stage2(c, p, P)
    for n, got, src in (("cross", hc, C0), ("plus", hp, P0)):
        for b in range(B):
            i = isco(float(P["mass_1"][b] + P["mass_2"][b]))
            w = ends(src[b], rate, f_min, i)
            for k in range(N):
                ctx.close(f"{n} {b},{k}", ctx.vals(got)[b, k], w[k], tol=1e-5)


def forward(ctx, B, rate=32, duration=2.0, f_min=5.0, right_pad=0.5, which=0):
    """the returned series from the approximant's spectrum"""
    g, src, P = generator(ctx, B, rate, duration, f_min, right_pad, which)
    hc, hp = g(**P)
    N, df, per, first, spectra = conditioned(P, src, rate, f_min, right_pad)
    D = round(duration * rate)
    for n, got, X in (("cross", hc, spectra[0]), ("plus", hp, spectra[1])):
        ctx.check(f"{n} size", tuple(got.shape) == (B, D) and got.dtype == torch.float64)
        x = np.empty((B, D), dtype=object)
        for b in range(B):
            y = np.empty(N, dtype=object)
            for i in range(N):
                ps = []
                for k in range(1, N // 2):
                    re, im = tm.re_im(X[b, k])
                    a = 2 * PI * i * k / N
                    ps += [(2 * df * math.cos(a), re), (-2 * df * math.sin(a), im)]
                y[i] = tm.lincomb(ps)
            y = ends(y, rate, f_min, per[b][3])
            x[b] = y[N - D:] if D <= N else np.concatenate([np.zeros(D - N, dtype=object), y])
        want = ctx.vals(g.highpass(ctx.tensor_of(x)))
        got = ctx.vals(got)
        for b, i in np.ndindex(B, D):
            ctx.close(f"{n} {b},{i}", got[b, i], want[b, i], tol=2e-3 * rate)


HARNESSES = [
    Harness("bounds", bounds),
    Harness("spectrum", spectrum, [dict(B=1), dict(B=2), dict(B=1, which=1, rate=64, right_pad=0.26), dict(B=2, f_min=9.0, rate=64), dict(B=1, right_pad=0.0), dict(B=2, which=1, rate=16)]),
    Harness("tapers", series, [dict(B=1, rate=32, f_min=5.0, N=24), dict(B=2, rate=128, f_min=9.0, N=48), dict(B=2, rate=16, f_min=6.0, N=16)]),
    Harness("waveform", forward, [dict(B=1), dict(B=1, which=1, duration=1.0), dict(B=2, which=1, rate=16, duration=6.0, f_min=6.5)], thorough=[dict(B=2, duration=4.0), dict(B=2, which=1, rate=16, duration=18.0), dict(B=3, rate=16, f_min=6.5, duration=9.0)]),
]
META = dict(
    functions=["ml4gw.waveforms.generator.TimeDomainCBCWaveformGenerator.{__init__,forward,generate_conditioned_fd_waveform,apply_td_condition_stage2,get_frequencies,build_highpass_filter}",
               "ml4gw.waveforms.cbc.utils.*", "ml4gw.waveforms.cbc.coefficients.*"],
    bounds="conditioning bounds: masses 1 to 300 and 1 to 200, all spins, orbital velocities 0.05 to 0.9, times 0.01 to 100, symbolic; "
    "generation: arbitrary spectra (every frequency sample of both polarizations symbolic, up to 2) from a caller-supplied approximant, three listed pairs of masses and spins, "
    "rates 16 to 128, lower frequencies 5 to 9, durations shorter than, equal to and longer than the generated stretch, right paddings 0, 0.26, 0.5; batches of 1 and 2",
    outside=["odd sample rates (the grid ends at the integer part of half the rate)", "durations that are not a whole number of samples", "rounding; masses at which a taper edge falls midway between two frequency samples",
             "the highpass filter itself is property T08: here it must be applied once to the padded series", "masses that start the taper at its end (none exist at usual rates)", "the masses of a generated batch are listed, not symbolic: they determine array sizes"],
    assumptions=["constants that differ by less than 1e-7 relative are taken as equal in the conditioning bounds"],
)
