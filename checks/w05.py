"""IMRPhenomPv2: harmonics, rotation, twisting, frames and complete waveforms."""
import math

import numpy as np
import torch

from checks.w03 import MPC, MTSUN, PI, add, div, mul, neg, prod, sub, total
from checks.w04 import imag, real
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"
power = tm.power
F64 = torch.float64


def model():
    from checks.n04 import concretely
    from ml4gw.waveforms import IMRPhenomPv2

    with concretely():
        return IMRPhenomPv2()


def cmul(*zs):
    """product of complex numbers given as pairs"""
    re, im = 1, 0
    for a, b in zs:
        re, im = sub(mul(re, a), mul(im, b)), add(mul(re, b), mul(im, a))
    return re, im


def cis(x):
    return tm.cos(x), tm.sin(x)


def csum(zs):
    return total(*[z[0] for z in zs]), total(*[z[1] for z in zs])


def cclose(ctx, name, got, want, tol, unit=1):
    ctx.close(f"{name} real", mul(unit, real(got)), mul(unit, want[0]), tol=tol)
    ctx.close(f"{name} imaginary", mul(unit, imag(got)), mul(unit, want[1]), tol=tol)


# ---- harmonics and rotation


def harmonics(ctx, phi):
    """-2Y2m in half angles"""
    T = model()
    half = ctx.real("half angle", (2,), 0, PI / 2)
    theta = 2 * half
    norm = math.sqrt(5 / (4 * PI))
    all_ = [[], []]
    for m, k in zip((-2, -1, 0, 1, 2), (1, 2, math.sqrt(6), 2, 1)):
        Y = ctx.vals(T.SpinWeightedY(theta, phi, -2, 2, m))
        for b in range(2):
            x = tm.cos(ctx.vals(theta)[b])
            # cos^2 and sin^2 of the half angle
            c2, s2 = mul(0.5, add(1, x)), mul(0.5, sub(1, x))
            sn = tm.sin(ctx.vals(theta)[b])
            mag = {2: mul(c2, c2), 1: prod(0.5, c2, sn), 0: mul(c2, s2), -1: prod(0.5, s2, sn), -2: mul(s2, s2)}[m]
            want = [prod(k * norm, mag, f(m * phi)) for f in (math.cos, math.sin)]
            cclose(ctx, f"Y{m} {b}", Y[b], want, 1e-6)
            all_[b] += [Y[b]]
    for b in range(2):
        s = total(*[add(power(real(y), 2), power(imag(y), 2)) for y in all_[b]])
        ctx.close(f"sum of squares {b}", s, 5 / (4 * PI), tol=1e-6)
    for m in (3, -3):
        ctx.expect_raises(f"no mode {m}", ValueError, lambda m=m: T.SpinWeightedY(theta, phi, -2, 2, m))


def rotation(ctx, B, N):
    """half the opening angle between orbital and total angular momentum"""
    T = model()
    v = ctx.real("v", (B, N), 0.1, 0.7)
    SL, Sp = ctx.real("aligned", (B,), -0.5, 0.5), ctx.real("in plane", (B,), 0, 0.9)
    eta = ctx.real("eta", (B,), 0.05, 0.25)
    c, s = (ctx.vals(t) for t in T.WignerdCoefficients(v.mT, SL, eta, Sp))
    for b in range(B):
        for i in range(N):
            x, e = ctx.vals(v)[b, i], ctx.vals(eta)[b]
            e2 = mul(e, e)
            x2, x4 = mul(x, x), power(x, 4)
            # second order angular momentum of a circular orbit, times v
            L = mul(e, total(1, mul(add(1.5, div(e, 6)), x2), mul(sub(27 / 8, add(mul(19 / 8, e), div(e2, 24))), x4)))
            L = add(L, mul(x, ctx.vals(SL)[b]))
            P = mul(x, ctx.vals(Sp)[b])
            ctx.assume(tm.lt(0.01, L))
            C, S = c[b, i], s[b, i]
            C2, S2 = power(C, 2), power(S, 2)
            ctx.check(f"half angle {b},{i}", tm.land(tm.le(0, C), tm.le(0, S)))
            ctx.close(f"unit norm {b},{i}", add(C2, S2), 1, tol=1e-9)
            # cos(beta) hypot(L, P) = L, without roots
            ctx.close(f"angle {b},{i}", mul(power(sub(C2, S2), 2), add(power(L, 2), power(P, 2))), power(L, 2), tol=1e-9)
            ctx.check(f"acute {b},{i}", tm.le(0, sub(C2, S2)))


ORDERS = (-1, -2 / 3, -1 / 3, None, 1 / 3)


def angle(coeffs, w, offset):
    """precession angle at a numerical frequency"""
    return sub(total(*[mul(math.log(w) if o is None else w**o, c) for c, o in zip(coeffs, ORDERS)]), offset)


def twist(ctx, eta, M, freqs, mode=None):
    with ctx.whole_angles(variables=True):
        _twist(ctx, eta, M, freqs, mode)


def _twist(ctx, eta, M, freqs, mode):
    """the precessing polarizations are the rotated quadrupole of the aligned
    waveform, mode by mode"""
    T = model()
    B, N = len(M), len(freqs)
    h = ctx.cplx("h", (B, N), -1, 1)
    co = {f"{k}coeff{i}": ctx.real(f"{k}{i}", (B,), -5, 5) for k in ("alpha", "epsilon") for i in range(1, 6)}
    c1, c2, cp = ctx.real("chi1", (B,), -1, 1), ctx.real("chi2", (B,), -1, 1), ctx.real("chip", (B,), 0, 1)
    ao, eo = ctx.real("alpha offset", (B,), -7, 7), ctx.real("epsilon offset", (B,), -7, 7)
    # one mode of any amplitude, or all of them with listed ones
    if mode is None:
        Y = torch.tensor([[0.1 * (j + 1) + 0.3 * b - 0.07j * j * (b - 0.5) for b in range(B)] for j in range(5)], dtype=torch.complex128)
    else:
        y, o = ctx.vals(ctx.cplx("Y", (B,), -1, 1)), [0] * B
        Y = ctx.tensor_of(np.array([list(y) if j == mode else o for j in range(5)], dtype=object), torch.complex128)
    et = torch.tensor(eta, dtype=F64)
    f = torch.tensor(freqs, dtype=F64)
    Mt = torch.tensor(M, dtype=F64)
    c, s = ctx.real("c", (B, N), 0, 1), ctx.real("s", (B, N), 0, 0.7)
    seen = []
    T.WignerdCoefficients = lambda *a: (seen.append(a), (c, s))[1]
    hp, hc = T.PhenomPCoreTwistUp(f, h, et, c1, c2, cp, Mt, co, Y, ao, eo)
    hp, hc, hv, Yv = (ctx.vals(t) for t in (hp, hc, h, Y))
    if not ctx.symbolic:
        ctx.check("finite", all(np.isfinite(complex(z)) for z in (*hp.ravel(), *hc.ravel())))
    if len(seen) != 1:  # the rotation is computed in another way: nothing to say here
        return
    v, aligned, rate, plane = (ctx.vals(t) for t in seen[0])
    for b in range(B):
        d = math.sqrt(max(1 - 4 * eta[b], 0))
        big, small = (1 + d) / 2, (1 - d) / 2
        SL = ctx.vals(c1)[b : b + 1], ctx.vals(c2)[b : b + 1]
        SL = add(mul(small**2, SL[0][0]), mul(big**2, SL[1][0]))
        Sp = mul(big**2, ctx.vals(cp)[b])
        ctx.close(f"aligned spin {b}", aligned[b], SL, tol=1e-9)
        ctx.close(f"in-plane spin {b}", plane[b], Sp, tol=1e-9)
        ctx.close(f"mass ratio {b}", rate[b], eta[b], tol=0)
        for i, fr in enumerate(freqs):
            w = PI * fr * MTSUN * M[b]
            al, ep = (angle([ctx.vals(co[f"{k}coeff{j}"])[b] for j in range(1, 6)], w, ctx.vals(o)[b]) for k, o in (("alpha", ao), ("epsilon", eo)))
            ctx.close(f"velocity {b},{i}", v[i, b], w ** (1 / 3), tol=1e-9)
            C, S = ctx.vals(c)[b, i], ctx.vals(s)[b, i]
            d2 = [prod(k, power(C, 4 - j) if j < 4 else 1, power(S, j) if j else 1) for j, k in enumerate((1, -2, math.sqrt(6), -2, 1))]
            dm = [prod(k, power(C, j) if j else 1, power(S, 4 - j) if j < 4 else 1) for j, k in enumerate((1, 2, math.sqrt(6), 2, 1))]
            y = [(real(Yv[j, b]), imag(Yv[j, b])) for j in range(5)]

            def turn(k, al=al):
                return [cis(al if k > 0 else neg(al))] * abs(k)

            up = csum([cmul((d2[j], 0), *turn(2 - j), y[j]) for j in range(5)])
            dn = csum([cmul((dm[j], 0), *turn(j - 2), (y[j][0], neg(y[j][1]))) for j in range(5)])
            h0 = cmul((0.5, 0), (real(hv[b, i]), imag(hv[b, i])), cis(mul(-2, ep)))
            cclose(ctx, f"plus {b},{i}", hp[b, i], cmul(h0, (add(up[0], dn[0]), add(up[1], dn[1]))), 1e-6)
            cclose(ctx, f"cross {b},{i}", hc[b, i], cmul(h0, (0, 1), (sub(up[0], dn[0]), sub(up[1], dn[1]))), 1e-6)


# ---- frames


def dot(a, b):
    return total(*[mul(x, y) for x, y in zip(a, b)])


def cross(a, b):
    return [sub(mul(a[(i + 1) % 3], b[(i + 2) % 3]), mul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)]


SPINS = {
    "precessing": ([0.3, -0.2, 0.4], [-0.1, 0.5, 0.2]),
    "down": ([-0.4, 0.1, -0.5], [0.2, 0.3, -0.6]),
    "aligned": ([0.0, 0.0, 0.4], [0.0, 0.0, -0.3]),
}


def frames(ctx, spins, m, f_ref):
    """angles of the source with respect to its total angular momentum"""
    T = model()
    s1, s2 = SPINS[spins]
    ph, inc = ctx.real("phic", (1,), -7, 7), ctx.real("inclination", (1,), 0.05, 3.1)
    t = lambda v: torch.tensor([v], dtype=F64)  # noqa: E731
    out = T.convert_spins(t(m[0]), t(m[1]), f_ref, ph, inc, *map(t, s1), *map(t, s2))
    a1, a2, chip, theta, alpha, phi, zeta = (ctx.vals(v)[0] for v in out)
    ctx.close("aligned spins", [a1, a2], [s1[2], s2[2]], tol=0)
    A = [2 + 1.5 * m[1] / m[0], 2 + 1.5 * m[0] / m[1]]
    perp = max(a * u * u * math.hypot(*s[:2]) for a, u, s in zip(A, m, (s1, s2))) / (A[1] * m[1] ** 2)
    ctx.close("effective in-plane spin", chip, perp, tol=1e-9)
    M = sum(m)
    eta = m[0] * m[1] / M**2
    v2 = (PI * M * MTSUN * f_ref) ** (2 / 3)
    L = M * M * eta * (1 + (1.5 + eta / 6) * v2 + (27 / 8 - 19 * eta / 8 - eta * eta / 24) * v2 * v2) / math.sqrt(v2)
    J = [m[0] ** 2 * s1[i] + m[1] ** 2 * s2[i] for i in range(3)]
    J[2] += L
    n = math.hypot(*J)
    J = [x / n for x in J]
    si, ci = tm.sin(ctx.vals(inc)[0]), tm.cos(ctx.vals(inc)[0])
    sp, cp = tm.sin(ctx.vals(ph)[0]), tm.cos(ctx.vals(ph)[0])
    N = [mul(si, sp), mul(si, cp), ci]
    X = [neg(mul(ci, sp)), neg(mul(ci, cp)), si]
    JN = dot(J, N)
    ctx.close("viewing angle", tm.cos(theta), JN, tol=1e-8)
    P = cross(N, J)  # of length sin(theta)
    Q = cross(N, P)
    # zeta: X = cos P + sin Q
    s = tm.sqrt(sub(1, mul(JN, JN)))
    ctx.close("polarization angle cos", mul(s, tm.cos(zeta)), dot(X, P), tol=1e-8)
    ctx.close("polarization angle sin", mul(s, tm.sin(zeta)), dot(X, Q), tol=1e-8)
    if spins == "aligned":
        # twice azimuth of L minus that of J: the coalescence phase is kept
        a = mul(2, add(phi, alpha))
        w = mul(2, ctx.vals(ph)[0])
        ctx.close("coalescence phase cos", tm.cos(a), neg(tm.cos(w)), tol=1e-8)
        ctx.close("coalescence phase sin", tm.sin(a), neg(tm.sin(w)), tol=1e-8)
        return
    ctx.close("orbital phase", phi, -math.atan2(J[1], J[0]), tol=1e-9)
    k = math.sqrt(1 - J[2] ** 2)
    ctx.close("precession phase cos", prod(k, s, tm.cos(alpha)), sub(N[2], mul(J[2], JN)), tol=1e-8)
    ctx.close("precession phase sin", prod(k, s, tm.sin(alpha)), cross(J, N)[2], tol=1e-8)


def in_plane(ctx, m):
    """effective in-plane spin of any spins"""
    T = model()
    S = [ctx.real(f"s{k}{c}", (1,), -0.6, 0.6) for k in "12" for c in "xyz"]
    t = lambda v: torch.tensor([v], dtype=F64)  # noqa: E731
    with ctx.free_angles():
        out = T.convert_spins(t(m[0]), t(m[1]), 20.0, t(0.3), t(0.8), *S)
    a1, a2, chip = (ctx.vals(v)[0] for v in out[:3])
    x1, y1, z1, x2, y2, z2 = (ctx.vals(v)[0] for v in S)
    ctx.close("aligned", [a1, a2], [z1, z2], tol=0)
    A = [2 + 1.5 * m[1] / m[0], 2 + 1.5 * m[0] / m[1]]
    p1, p2 = (mul((A[k] * m[k] ** 2 / (A[1] * m[1] ** 2)) ** 2, add(mul(u, u), mul(v, v))) for k, (u, v) in enumerate(((x1, y1), (x2, y2))))
    ctx.close("effective in-plane spin", mul(chip, chip), tm.ite(tm.le(p1, p2), p2, p1), tol=1e-9)
    ctx.check("positive", tm.le(0, chip))


def precession(ctx):
    """next-to-next-to-leading order precession angles: Eqs. (6.4) and following
    of Schmidt's thesis, used by PhenomPv2"""
    T = model()
    q, cl, cp = ctx.real("q", (1,), 1, 8), ctx.real("aligned", (1,), -1, 1), ctx.real("in plane", (1,), 0, 1)
    got = {k: ctx.vals(v)[0] for k, v in T.ComputeNNLOanglecoeffs(q, cl, cp).items()}
    none = {k: ctx.vals(v)[0] for k, v in T.ComputeNNLOanglecoeffs(q, cl, cp * 0).items()}
    Q, l, p = (ctx.vals(v)[0] for v in (q, cl, cp))
    one = add(1, Q)
    # dm / m2 = (1 - q) / q, eta = q / (1 + q)^2, m2^2 / eta = q: everything in q and 1 + q
    r = div(sub(1, Q), Q)
    n = div(Q, power(one, 2))
    m2, d = div(Q, one), div(sub(1, Q), one)
    p2 = mul(p, p)
    want = [
        sub(-35 / 192, mul(5 / 64, r)),
        mul(neg(l), add(prod(15 / 128, d, one), mul(35 / 128, Q))),
        total(
            -5515 / 3072,
            mul(-4555 / 7168, r),
            mul(-515 / 384, n),
            prod(-15 / 256, r, r, n),
            prod(-175 / 256, r, n),
            prod(-15 / 128, p2, d, Q, Q, power(m2, -1)),
            prod(-35 / 128, p2, Q, Q),
        ),
        total(
            -35 * PI / 48,
            mul(-5 * PI / 16, r),
            prod(5 / 16, l, d, d),
            prod(5 / 3, l, d, m2),
            prod(2545 / 1152, l, m2, m2),
            prod(2035 / 21504, l, d, one),
            prod(2995 / 9216, l, Q),
            prod(-5 / 128, p2, l, d, Q, Q, one),
            prod(-35 / 384, p2, l, Q, Q, Q),
        ),
        total(
            4.318908476114694,
            mul(27895885 / 21676032, r),
            prod(-15 / 512, p2, p2, d, power(Q, 4), power(m2, -1)),
            prod(-35 / 512, p2, p2, power(Q, 4)),
            prod(-485 / 14336, p2, d, Q, Q, power(m2, -1)),
            prod(475 / 6144, p2, Q, Q),
            prod(15 / 256, p2, d, d, Q),
            prod(145 / 512, p2, d, m2, Q),
            prod(575 / 1536, p2, m2, m2, Q),
            mul(39695 / 86016, n),
            prod(1615 / 28672, r, r, n),
            prod(-265 / 14336, r, n),
            prod(955 / 576, n, n),
            prod(15 / 1024, r, r, r, n, n),
            prod(35 / 256, r, r, n, n),
            prod(2725 / 3072, r, n, n),
            prod(-15 * PI / 16, l, d, one),
            prod(-35 * PI / 16, l, Q),
            prod(15 / 128, p2, l, l, d, power(Q, 4), power(m2, -1)),
            prod(35 / 128, p2, l, l, power(Q, 4)),
            prod(375 / 256, l, l, d, d, Q),
            prod(1815 / 256, l, l, d, m2, Q),
            prod(1645 / 192, l, l, m2, m2, Q),
        ),
    ]
    for i, w in enumerate(want, 1):
        k = 8 ** max(0, i - 2)
        ctx.close(f"alpha{i}", mul(1 / k, got[f"alphacoeff{i}"]), mul(1 / k, w), tol=1e-6)
    # the other angle is the same one without in-plane spin
    for i in range(1, 6):
        ctx.close(f"epsilon{i}", got[f"epsiloncoeff{i}"], none[f"alphacoeff{i}"], tol=1e-6)
    ctx.check("ten coefficients", len(got) == 10)


def table(ctx, n):
    """linear interpolation on any increasing grid"""
    T = model()
    x = ctx.real("first", (1,), -1, 1)
    step = ctx.real("steps", (n - 1,), 0.1, 1)
    fp = ctx.real("values", (n,), -2, 2)
    xs = [ctx.vals(x)[0]]
    for s in ctx.vals(step):
        xs.append(add(xs[-1], s))
    xp = ctx.tensor_of(np.array(xs, dtype=object))
    i = ctx.choice("cell", list(range(n - 1)))
    t = ctx.real("position", (1, 1), 0, 1)
    at = add(xs[i], mul(ctx.vals(t)[0, 0], ctx.vals(step)[i]))
    got = T.interpolate(ctx.tensor_of(np.array([[at]], dtype=object)), xp, fp)
    ctx.check("shape", tuple(got.shape) == (1, 1))
    a, b = ctx.vals(fp)[i], ctx.vals(fp)[i + 1]
    ctx.close("value", mul(ctx.vals(step)[i], ctx.vals(got)[0, 0]), mul(ctx.vals(step)[i], add(a, mul(ctx.vals(t)[0, 0], sub(b, a)))), tol=1e-9)


# ---- waveform

BINARIES = {
    "heavy": dict(chirp_mass=30.0, mass_ratio=0.7),
    "light": dict(chirp_mass=9.0, mass_ratio=0.3),
    "equal": dict(chirp_mass=20.0, mass_ratio=1.0),
}
NAMES = ["s1x", "s1y", "s1z", "s2x", "s2y", "s2z"]


def parameters(binary, spins):
    p = dict(BINARIES[binary])
    p.update(zip(NAMES, SPINS[spins][0] + SPINS[spins][1]))
    return {k: torch.tensor([v], dtype=F64) for k, v in p.items()}


def waveform(ctx, binaries, freqs, f_ref):
    """distance and coalescence time of every sample, element by element"""
    T = model()
    n = len(binaries)
    one = [parameters(*b) for b in binaries]
    par = {k: torch.cat([p[k] for p in one]) for k in one[0]}
    ph, inc = torch.tensor([0.7, -1.1][:n], dtype=F64), torch.tensor([0.5, 2.2][:n], dtype=F64)
    d, tc = ctx.real("distance", (n,), 10, 5000), ctx.real("tc", (n,), -1, 1)
    f = torch.tensor(freqs, dtype=F64)
    sent = dict(par, distance=d, phic=ph, inclination=inc, tc=tc)
    before = {k: ctx.vals(v).copy() for k, v in sent.items()}
    hc, hp = T(f, f_ref=f_ref, **sent)
    for k in sent:
        ctx.close(f"{k} untouched", sent[k], before[k], tol=0)
    for b in range(n):
        base = T(f, distance=torch.ones(1, dtype=F64), phic=ph[b : b + 1], inclination=inc[b : b + 1], f_ref=f_ref, **one[b])
        for name, got, h in (("cross", hc, base[0]), ("plus", hp, base[1])):
            for i, fr in enumerate(freqs):
                z = complex(h[0, i])
                ctx.check(f"{name} signal {b},{i}", math.isfinite(abs(z)) and abs(z) > 0)
                a = mul(-2 * PI * fr, before["tc"][b])
                cclose(ctx, f"{name} {b},{i}", ctx.vals(got)[b, i], cmul((div(z.real, before["distance"][b]), div(z.imag, before["distance"][b])), cis(a)), 1e-6, unit=mul(before["distance"][b], 1 / abs(z)))


def aligned(ctx, binary, freqs, f_ref):
    """without in-plane spins the modulus is PhenomD's, with its inclination
    factors, and twice the coalescence phase"""
    from checks.n04 import concretely
    from ml4gw.waveforms import IMRPhenomD

    T = model()
    with concretely():
        D = IMRPhenomD()
    p = parameters(binary, "aligned")
    f = torch.tensor(freqs, dtype=F64)
    one = torch.ones(1, dtype=F64)
    d, ph, inc = ctx.real("distance", (1,), 10, 5000), ctx.real("phic", (1,), -7, 7), ctx.real("inclination", (1,), 0.05, 3.1)
    q = dict(chirp_mass=p["chirp_mass"], mass_ratio=p["mass_ratio"], chi1=p["s1z"], chi2=p["s2z"])
    base = D(f, distance=one, phic=one * 0, inclination=one * 0, f_ref=f_ref, **q)[1]
    own = T(f, distance=one, phic=one * 0, inclination=one * 0.0, f_ref=f_ref, **p)[1]
    hc, hp = T(f, distance=d, phic=ph, inclination=inc, f_ref=f_ref, **p)
    x, P = tm.cos(ctx.vals(inc)[0]), ctx.vals(ph)[0]
    k = ctx.vals(d)[0]
    for i in range(len(freqs)):
        z = complex(own[0, i])
        ctx.check(f"modulus {i}", abs(abs(z) / abs(complex(base[0, i])) - 1) < 1e-6)
        u = z / abs(z)
        w = cmul((u.real, u.imag), cis(P), cis(P))
        for name, h, g in (("plus", hp, (mul(0.5, add(1, mul(x, x))), 0)), ("cross", hc, (0, neg(x)))):
            v = ctx.vals(h)[0, i]
            want = cmul(g, w)
            m = mul(k, 1 / abs(z))
            ctx.close(f"{name} real {i}", mul(m, real(v)), want[0], tol=1e-6)
            ctx.close(f"{name} imaginary {i}", mul(m, imag(v)), want[1], tol=1e-6)


def composition(ctx, binary, spins, freqs, f_ref):
    """the waveform from its parts: frames, precession angles, harmonics,
    aligned-spin amplitude and phase, twist, time and polarization angle"""
    T = model()
    p = parameters(binary, spins)
    ph, inc = torch.tensor([0.7], dtype=F64), torch.tensor([0.5], dtype=F64)
    d, tc = ctx.real("distance", (1,), 10, 5000), ctx.real("tc", (1,), -1, 1)
    f = torch.tensor(freqs, dtype=F64)
    hc, hp = T(f, f_ref=f_ref, distance=d, tc=tc, phic=ph, inclination=inc, **p)
    r = p["mass_ratio"]
    M = p["chirp_mass"] * (1 + r) ** 1.2 / r**0.6
    Ms = M * MTSUN
    big, small = M / (1 + r), M * r / (1 + r)
    S = [p[k] for k in NAMES]
    # the first spin is that of the larger mass, which PhenomPv2 counts second
    l, h, chip, theta, alpha0, phi, zeta = T.convert_spins(small, big, f_ref, ph, inc, *S[3:], *S[:3])
    eta = big * small / M**2
    delta = torch.sqrt(torch.clamp(1 - 4 * eta, min=0))
    chi = 0.5 * ((h + l) * (1 - eta * 76 / 113) + delta * (h - l))
    xi = chi - 1
    g = [getattr(T, f"gamma{i}_fun")(eta, eta * eta, xi) for i in (1, 2, 3)]
    # remnant of a binary whose in-plane spin is on the larger mass
    par = T.FinalSpin0815(eta, eta * eta, h, l)
    spin = torch.sign(par) * torch.hypot(par, chip * (big / M) ** 2)
    E = T.PhenomInternal_EradRational0815(eta, eta * eta, h, l)
    A = T.qnmdata_a.double().numpy()
    rd, dm = (torch.tensor(np.interp(spin.numpy(), A, getattr(T, f"qnmdata_{k}").double().numpy())) / (1 - E) for k in ("fring", "fdamp"))
    peak = T.fmaxCalc(rd, dm, g[1], g[2])

    def phase(x):
        return T.phenom_d_phase(x, big, small, eta, eta * eta, h, l, xi, rd, dm)

    Mf = torch.outer(Ms, f)
    psi = phase(Mf)[0] - 2 * phi - PI / 4
    amp = T.phenom_d_amp(Mf, eta, eta * eta, delta, h, l, h * h, l * l, xi, rd, dm, *g, peak)[0]
    amp = amp * torch.sqrt(2 * eta / 3) * Mf ** (-7 / 6) * PI ** (-1 / 6) * Ms**2 / MPC
    q = big / small
    chil = (1 + q) / q * (small * l + big * h) / M
    co = T.ComputeNNLOanglecoeffs(q, chil, chip)
    w0 = float(PI * Ms * f_ref)
    off = {k: sum(float(co[f"{k}coeff{i + 1}"]) * (math.log(w0) if o is None else w0**o) for i, o in enumerate(ORDERS)) for k in ("alpha", "epsilon")}
    Y = torch.stack([T.SpinWeightedY(theta, 0, -2, 2, m) for m in range(-2, 3)])
    up, uc = T.PhenomPCoreTwistUp(f, amp * torch.exp(-1j * psi), eta, l, h, chip, M, co, Y, off["alpha"] - alpha0, torch.tensor([off["epsilon"]], dtype=F64))
    # the phase of the ringdown is stationary at t = 0
    slope = Ms * phase(rd.unsqueeze(-1))[1][:, 0]
    shift = torch.exp(1j * slope * f)
    up, uc = up * shift, uc * shift
    c, s = torch.cos(2 * zeta), torch.sin(2 * zeta)
    plus, cross_ = c * up + s * uc, c * uc - s * up
    for name, got, want in (("plus", hp, plus), ("cross", hc, cross_)):
        for i, fr in enumerate(freqs):
            z = complex(want[0, i])
            k = mul(ctx.vals(d)[0], 1 / abs(z))
            a = mul(-2 * PI * fr, ctx.vals(tc)[0])
            D = ctx.vals(d)[0]
            cclose(ctx, f"{name} {i}", ctx.vals(got)[0, i], cmul((div(z.real, D), div(z.imag, D)), cis(a)), 2e-4, unit=k)


def masses(ctx, q):
    """finite for nearly equal masses at single precision"""
    T = model()
    n = 16
    qs = torch.tensor([1 - q * (i + 0.5) / n for i in range(n)], dtype=torch.float32)
    o = torch.ones(n, dtype=torch.float32)
    f = torch.tensor([30.0, 100.0])
    hc, hp = T(f, 20.0 * o, qs, 0.1 * o, 0.2 * o, 0.3 * o, 0.0 * o, 0.1 * o, -0.2 * o, 100.0 * o, 0.3 * o, 0.4 * o, 20.0)
    ctx.check("finite", bool(torch.isfinite(torch.view_as_real(hp)).all() and torch.isfinite(torch.view_as_real(hc)).all()))


HARNESSES = [
    Harness("harmonics", harmonics, [dict(phi=0), dict(phi=0.7)]),
    Harness("rotation", rotation, [dict(B=1, N=1), dict(B=2, N=2)]),
    Harness("twist", twist, [dict(eta=[0.2], M=[40.0], freqs=[30.0], mode=m) for m in range(5)]
            + [dict(eta=[0.25, 0.1], M=[20.0, 70.0], freqs=[25.0, 80.0]), dict(eta=[0.25000000000000006], M=[20.0], freqs=[100.0])]),
    Harness("frames", frames, [dict(spins=k, m=m, f_ref=20.0) for k, m in zip(SPINS, ((12.0, 30.0), (8.0, 50.0), (10.0, 25.0)))]),
    Harness("in-plane spin", in_plane, [dict(m=(12.0, 30.0)), dict(m=(20.0, 20.0))]),
    Harness("precession", precession, [dict()]),
    Harness("table", table, [dict(n=3), dict(n=4)]),
    Harness("waveform", waveform, [
        dict(binaries=[("heavy", "precessing")], freqs=[20.0, 60.0, 150.0], f_ref=20.0),
        dict(binaries=[("light", "down"), ("equal", "aligned")], freqs=[30.0, 100.0], f_ref=40.0),
    ]),
    Harness("aligned", aligned, [dict(binary="heavy", freqs=[25.0, 60.0, 200.0], f_ref=20.0), dict(binary="light", freqs=[30.0, 400.0], f_ref=40.0), dict(binary="equal", freqs=[50.0], f_ref=20.0)]),
    Harness("composition", composition, [
        dict(binary="heavy", spins="precessing", freqs=[25.0, 60.0, 150.0], f_ref=20.0),
        dict(binary="light", spins="down", freqs=[30.0, 300.0], f_ref=40.0),
    ]),
    Harness("masses", masses, [dict(q=q) for q in (1e-3, 1e-6)]),
]
META = dict(
    functions=["IMRPhenomPv2.forward", "PhenomPCoreTwistUp", "PhenomPOneFrequency", "WignerdCoefficients", "L2PNR", "SpinWeightedY", "convert_spins", "ml4gw.waveforms.conversion.rotate_y and rotate_z", "ComputeNNLOanglecoeffs", "phP_get_fRD_fdamp", "FinalSpin_inplane", "interpolate"],
    bounds="harmonics for every viewing angle in [0, pi]; rotation for every velocity in [0.1, 0.7], mass ratio and spins, batches of 1 and 2; twist for every complex waveform sample, precession coefficients, offsets, spins and opening angle at listed masses and frequencies, each mode with symbolic amplitude and all modes together with listed amplitudes; frames for every reference phase and inclination in [0.05, 3.1] at three listed spin configurations; in-plane spin for every spin component; precession angles for every mass ratio in [1, 8] and spins; table interpolation on every increasing grid of 3 or 4 points at every position; complete waveforms for listed binaries (precessing and aligned, one and two at a time) with symbolic distance, coalescence time and, for aligned spins, reference phase and inclination",
    outside=["float rounding", "configurations where orbital and aligned spin angular momenta nearly cancel", "complete precessing waveforms are decided for listed masses and spins"],
    assumptions=["opening angle, orbital frames and precession coefficients are composed as the helper methods define them when those methods exist under their names"],
)
