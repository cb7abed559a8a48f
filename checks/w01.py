"""Mass and spin conversions: norms, tilts, inclination, round trips."""
import math

import torch

from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"
PI = math.pi


def masses(ctx, B):
    from ml4gw.waveforms.conversion import chirp_mass_and_mass_ratio_to_components

    mc, q = ctx.real("mc", (B,), 0.1, 500), ctx.real("q", (B,), 0.01, 1)
    Mc, Q = ctx.vals(mc).copy(), ctx.vals(q).copy()
    m1, m2 = chirp_mass_and_mass_ratio_to_components(mc, q)
    m1, m2 = ctx.vals(m1), ctx.vals(m2)
    ctx.check("shapes", m1.shape == (B,) and m2.shape == (B,))
    for b in range(B):
        ctx.check(f"larger mass first {b}", tm.le(m2[b], m1[b]))
        ctx.check(f"positive {b}", tm.gt(m2[b], 0))
        ctx.close(f"mass ratio {b}", tm.div(m2[b], m1[b]), Q[b])
        # the chirp mass of m1 and q m1 is m1 q^(3/5) (1+q)^(-1/5)
        ctx.close(f"chirp mass {b}", tm.mul(m1[b], tm.div(tm.power(Q[b], 0.6), tm.power(tm.add(1, Q[b]), 0.2))), Mc[b], tol=1e-9, rel=1e-9)
    ctx.close("input untouched", mc, Mc, tol=0)
    ctx.close("input untouched too", q, Q, tol=0)


def rotations(ctx, B):
    from ml4gw.waveforms import conversion as cv

    t = ctx.real("angle", (B,), -7, 7)
    x, y, z = (ctx.real(n, (B,), -2, 2) for n in "xyz")
    X, Y, Z, A = (ctx.vals(v).copy() for v in (x, y, z, t))
    for name, f in (("z", cv.rotate_z), ("y", cv.rotate_y)):
        out = [ctx.vals(v) for v in f(t, x, y, z)]
        for b in range(B):
            c, s = tm.cos(A[b]), tm.sin(A[b])
            if name == "z":
                want = [tm.sub(tm.mul(c, X[b]), tm.mul(s, Y[b])), tm.add(tm.mul(s, X[b]), tm.mul(c, Y[b])), Z[b]]
            else:
                want = [tm.add(tm.mul(c, X[b]), tm.mul(s, Z[b])), Y[b], tm.sub(tm.mul(c, Z[b]), tm.mul(s, X[b]))]
            for i in range(3):
                ctx.close(f"{name} component {i} of {b}", out[i][b], want[i])
            sq = lambda v: tm.add(tm.add(tm.mul(v[0], v[0]), tm.mul(v[1], v[1])), tm.mul(v[2], v[2]))  # noqa: E731
            ctx.close(f"{name} length {b}", sq([o[b] for o in out]), sq([X[b], Y[b], Z[b]]))


MTSUN = 4.925490947641266978197229498498379006e-6  # G Msun / c^3, seconds


def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = tm.add(r, tm.mul(x, y))
    return r


def orbital(m1, m2, f):
    """magnitude of the 2PN orbital angular momentum (G = c = Msun = 1)"""
    M = tm.add(m1, m2)
    eta = tm.div(tm.mul(m1, m2), tm.mul(M, M))
    v = tm.power(tm.mul(M, MTSUN * PI * f), Third)
    return tm.mul(tm.div(tm.mul(tm.mul(M, M), eta), v), tm.add(1, tm.mul(tm.mul(v, v), tm.add(1.5, tm.div(eta, 6)))))


Third = 1 / 3


RANGE = dict(theta_jn=(0.1, 3.0), phi_jl=(0, 6.28), tilt_1=(0.1, 3.0), tilt_2=(0.1, 3.0), phi_12=(0, 6.28), a_1=(0.05, 0.99), a_2=(0.05, 0.99),
             mass_1=(5, 80), mass_2=(3, 40), phi_ref=(0, 6.28))
VAL = dict(theta_jn=1.1, phi_jl=2.3, tilt_1=0.7, tilt_2=1.2, phi_12=1.3, a_1=0.6, a_2=0.4, mass_1=30.0, mass_2=20.0, phi_ref=0.8)


def spins(ctx, B=1, fix=(), aspects="full"):
    from ml4gw.waveforms.conversion import bilby_spins_to_lalsim

    f_ref = 20.0
    p = {}
    for k, (a, b) in RANGE.items():
        p[k] = torch.tensor([VAL[k] + 0.1 * j for j in range(B)], dtype=torch.float64) if k in fix else ctx.real(k, (B,), a, b)
    V = {k: ctx.vals(v).copy() for k, v in p.items()}
    if aspects == "incl":
        out = bilby_spins_to_lalsim(**p, f_ref=f_ref)
    else:
        with ctx.free_angles():
            out = bilby_spins_to_lalsim(**p, f_ref=f_ref)
    ctx.check("seven results", len(out) == 7)
    incl, *S = [ctx.vals(v) for v in out]
    for b in range(B):
        P = {k: v[b] for k, v in V.items()}
        s = [[S[i][b] for i in range(3)], [S[3 + i][b] for i in range(3)]]
        for j, (a, t) in enumerate((("a_1", "tilt_1"), ("a_2", "tilt_2"))):
            if "norm" in aspects or aspects == "full":
                ctx.close(f"spin {j + 1} magnitude {b}", dot(s[j], s[j]), tm.mul(P[a], P[a]), tol=1e-7)
            if "tilt" in aspects or aspects == "full":
                ctx.close(f"spin {j + 1} tilt {b}", s[j][2], tm.mul(P[a], tm.cos(P[t])), tol=1e-7)
        if "angle" in aspects or aspects == "full":
            both = tm.mul(P["a_1"], P["a_2"])
            ctx.close(f"angle between spins {b}", dot(s[0], s[1]), tm.mul(both, tm.add(
                tm.mul(tm.cos(P["tilt_1"]), tm.cos(P["tilt_2"])),
                tm.mul(tm.mul(tm.sin(P["tilt_1"]), tm.sin(P["tilt_2"])), tm.cos(P["phi_12"])))), tol=1e-7)
        if "incl" in aspects or aspects == "full":
            L = orbital(P["mass_1"], P["mass_2"], f_ref)
            w = [tm.mul(tm.mul(P["mass_1"], P["mass_1"]), P["a_1"]), tm.mul(tm.mul(P["mass_2"], P["mass_2"]), P["a_2"])]
            x = [tm.mul(w[0], tm.sin(P["tilt_1"])), 0]
            y = tm.mul(w[1], tm.sin(P["tilt_2"]))
            J = [tm.add(x[0], tm.mul(y, tm.cos(P["phi_12"]))), tm.mul(y, tm.sin(P["phi_12"])),
                 tm.add(L, tm.add(tm.mul(w[0], tm.cos(P["tilt_1"])), tm.mul(w[1], tm.cos(P["tilt_2"]))))]
            perp = tm.add(tm.mul(J[0], J[0]), tm.mul(J[1], J[1]))
            n2 = tm.add(perp, tm.mul(J[2], J[2]))
            c = tm.div(J[2], tm.sqrt(n2))
            want = tm.add(tm.mul(tm.mul(tm.sin(P["theta_jn"]), tm.sin(P["phi_jl"])), tm.sqrt(tm.sub(1, tm.mul(c, c)))),
                          tm.mul(tm.cos(P["theta_jn"]), c))
            ctx.close(f"cosine of inclination {b}", tm.cos(incl[b]), want, tol=1e-7)


def cross(a, b):
    return [tm.sub(tm.mul(a[(i + 1) % 3], b[(i + 2) % 3]), tm.mul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)]


def combo(*pairs):
    return [dot([k for k, _ in pairs], [v[i] for _, v in pairs]) for i in range(3)]


def frame(ctx, free, other=0):
    """the spin components, from vector algebra: z along L, the line of sight
    at azimuth pi/2 - phi_ref"""
    from ml4gw.waveforms.conversion import bilby_spins_to_lalsim

    at = {k: VAL[k] if not other else a + (b - a) * ((0.37 * other + 0.618 * i) % 1) for i, (k, (a, b)) in enumerate(RANGE.items())}
    p = {k: ctx.real(k, (1,), *RANGE[k]) if k in free else torch.tensor([at[k]], dtype=torch.float64) for k in RANGE}
    P = {k: ctx.vals(v).copy()[0] for k, v in p.items()}
    _, *S = [ctx.vals(v)[0] for v in bilby_spins_to_lalsim(**p, f_ref=20.0)]
    unit = []
    for t, f in (("tilt_1", P["phi_ref"]), ("tilt_2", tm.add(P["phi_12"], P["phi_ref"]))):
        unit.append([tm.mul(tm.sin(P[t]), tm.cos(f)), tm.mul(tm.sin(P[t]), tm.sin(f)), tm.cos(P[t])])
    L = [0, 0, 1]
    w = [tm.mul(tm.mul(P[f"mass_{i}"], P[f"mass_{i}"]), P[f"a_{i}"]) for i in (1, 2)]
    J = combo((orbital(P["mass_1"], P["mass_2"], 20.0), L), (w[0], unit[0]), (w[1], unit[1]))
    n = tm.sqrt(dot(J, J))
    J = [tm.div(v, n) for v in J]
    perp = combo((1, L), (tm.neg(J[2]), J))
    n = tm.sqrt(dot(perp, perp))
    perp = [tm.div(v, n) for v in perp]
    st, ct, sp, cp = (g(P[k]) for k in ("theta_jn", "phi_jl") for g in (tm.sin, tm.cos))
    N = combo((ct, J), (tm.mul(st, sp), perp), (tm.mul(st, cp), cross(J, perp)))
    y = [N[0], N[1], 0]
    n = tm.sqrt(dot(y, y))
    y = [tm.div(v, n) for v in y]
    x = cross(y, L)
    c, s = tm.cos(P["phi_ref"]), tm.sin(P["phi_ref"])
    for i in (0, 1):
        a = P[f"a_{i + 1}"]
        sx, sy = dot(unit[i], x), dot(unit[i], y)
        ctx.close(f"spin {i + 1} x", S[3 * i], tm.mul(a, tm.add(tm.mul(c, sx), tm.mul(s, sy))), tol=1e-6)
        ctx.close(f"spin {i + 1} y", S[3 * i + 1], tm.mul(a, tm.sub(tm.mul(c, sy), tm.mul(s, sx))), tol=1e-6)


def rejects(ctx, f_ref):
    from ml4gw.waveforms.conversion import bilby_spins_to_lalsim

    p = {k: torch.tensor([v], dtype=torch.float64) for k, v in VAL.items()}
    ctx.expect_raises("reference frequency", ValueError, lambda: bilby_spins_to_lalsim(**p, f_ref=f_ref))


JN = ("theta_jn", "phi_jl")
M = ("mass_1", "mass_2")
HARNESSES = [
    Harness("component masses", masses, [dict(B=1), dict(B=2)]),
    Harness("rotations", rotations, [dict(B=1), dict(B=2)]),
    Harness("spin conversion", spins, [dict(aspects=a, B=b) for a in ("norm", "tilt", "angle") for b in (1, 2)]
            + [dict(aspects="incl", fix=f) for f in (M, M + ("a_1", "a_2"), ("phi_jl", "tilt_1", "tilt_2", "phi_12", "a_1", "a_2", "phi_ref"))]
            + [dict(aspects="incl", fix=M, B=2)]),
    Harness("spin frame", frame, [dict(free=JN), dict(free=JN, other=1), dict(free=JN, other=3)], thorough=[dict(free=("theta_jn",), other=j) for j in range(4, 9)]),
    Harness("bad reference", rejects, [dict(f_ref=0.0), dict(f_ref=-20.0)]),
]
META = dict(
    functions=["ml4gw.waveforms.conversion.{rotate_z,rotate_y,chirp_mass_and_mass_ratio_to_components,bilby_spins_to_lalsim,XLALSimInspiralLN,XLALSimInspiralL_2PN}"],
    bounds="chirp mass 0.1 to 500, mass ratio 0.01 to 1; all rotation angles up to 7; spin magnitudes 0.05 to 0.99, tilts and viewing angle 0.1 to 3.0, all azimuths, masses 5 to 80 and 3 to 40; batches of 1 and 2. "
    "Magnitudes, tilts and the angle between the spins for all of these together; the inclination for all angles at listed masses and for all masses at listed angles; the in-plane components for all viewing angles at listed masses and spins",
    outside=["exactly aligned spins and face-on viewing, where azimuths are undefined", "floating-point rounding (values that differ by rounding of their constants are taken as equal)"],
    assumptions=["for magnitudes, tilts and relative angle, every inverse trigonometric result is replaced by a free angle: a generalisation"],
)
