"""Detector geometry: published table, response tensor, order of stacking."""
import numpy as np
import torch

from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"

# vertex (m), x arm, y arm as published in LALDetectors.h
LAL = {
    "H1": ((-2.16141492636e06, -3.83469517889e06, 4.60035022664e06), (-0.22389266154, 0.79983062746, 0.55690487831), (-0.91397818574, 0.02609403989, -0.40492342125)),
    "L1": ((-7.42760447238e04, -5.49628371971e06, 3.22425701744e06), (-0.95457412153, -0.14158077340, -0.26218911324), (0.29774156894, -0.48791033647, -0.82054461286)),
    "V1": ((4.54637409900e06, 8.42989697626e05, 4.37857696241e06), (-0.70045821479, 0.20848948619, 0.68256166277), (-0.05379255368, -0.96908180549, 0.24080451708)),
    "K1": ((-3777336.024, 3484898.411, 3765313.697), (-0.3759040, -0.8361583, 0.3994189), (0.7164378, 0.01114076, 0.6975620)),
}
NAMES = tuple(LAL)


def quad(h, a, b):
    r = 0
    for i in range(3):
        for j in range(3):
            r = tm.add(r, tm.mul(h[i, j], tm.mul(a[i], b[j])))
    return r


def stacked(ctx, n):
    """for every ordered selection with repetition and every strain tensor h,
    the response is half the difference of the stretch of the two arms"""
    from ml4gw.gw import get_ifo_geometry

    names = [ctx.choice(f"ifo{i}", NAMES) for i in range(n)]
    D, V = get_ifo_geometry(*names)
    ctx.check("tensor shape", tuple(D.shape) == (n, 3, 3))
    ctx.check("vertex shape", tuple(V.shape) == (n, 3))
    h = ctx.real("h", (3, 3), -1, 1)
    w = ctx.vals(ctx.real("w", (3,), -1, 1))
    resp = ctx.vals(torch.einsum("nij,ij->n", D.to(h.dtype), h))
    H = ctx.vals(h)
    Dv, Vv = ctx.vals(D), ctx.vals(V)
    for k, nm in enumerate(names):
        v, x, y = LAL[nm]
        ctx.close(f"response {k}", resp[k], tm.mul(0.5, tm.sub(quad(H, x, x), quad(H, y, y))), tol=3e-6)
        # antisymmetric strains give no response; pure trace gives none
        A = np.array([[0, w[0], w[1]], [tm.neg(w[0]), 0, w[2]], [tm.neg(w[1]), tm.neg(w[2]), 0]], dtype=object)
        s = 0
        for i in range(3):
            for j in range(3):
                s = tm.add(s, tm.mul(float(Dv[k, i, j]), A[i, j]))
        ctx.close(f"symmetric {k}", s, 0.0, tol=1e-6)
        tr = tm.mul(w[0], float(Dv[k, 0, 0] + Dv[k, 1, 1] + Dv[k, 2, 2]))
        ctx.close(f"trace free {k}", tr, 0.0, tol=1e-6)
        # time of arrival from every direction w
        t, u = 0, 0
        for i in range(3):
            t = tm.add(t, tm.mul(float(Vv[k, i]), w[i]))
            u = tm.add(u, tm.mul(v[i], w[i]))
        ctx.close(f"vertex {k}", t, u, tol=2.0)


def wellformed(ctx):
    """arms unit and orthogonal, every combination a x + b y has norm a^2 + b^2;
    vertex at Earth-surface distance"""
    from ml4gw.utils.interferometer import InterferometerGeometry

    g = InterferometerGeometry(ctx.choice("ifo", NAMES))
    a, b = ctx.scalar("a", -1, 1), ctx.scalar("b", -1, 1)
    n = 0
    for x, y in zip(g.x_arm.tolist(), g.y_arm.tolist()):
        c = tm.add(tm.mul(a, x), tm.mul(b, y))
        n = tm.add(n, tm.mul(c, c))
    ctx.close("unit orthogonal arms", n, tm.add(tm.mul(a, a), tm.mul(b, b)), tol=2e-3)
    ctx.close("unit x arm", sum(x * x for x in g.x_arm.tolist()), 1.0, tol=1e-5)
    ctx.close("unit y arm", sum(x * x for x in g.y_arm.tolist()), 1.0, tol=1e-5)
    r = sum(x * x for x in g.vertex.tolist()) ** 0.5
    ctx.check("earth surface", 6.35e6 < r < 6.385e6)


def unknown(ctx, name):
    from ml4gw.gw import get_ifo_geometry

    k = ctx.choice("known", NAMES)
    ctx.expect_raises("unknown rejected", ValueError, lambda: get_ifo_geometry(k, name))


HARNESSES = [
    Harness("stacked", stacked, [dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4)]),
    Harness("wellformed", wellformed),
    Harness("unknown", unknown, [dict(name="Z1"), dict(name="h1"), dict(name="")]),
]
META = {
    "bounds": "all four detectors, every ordered selection with repetition of 1-3 names (4 in thorough), every 3x3 strain with entries in [-1,1]",
    "outside": "the published table itself (copied from LALDetectors.h) is trusted",
    "encodes": ["ml4gw/gw.py:get_ifo_geometry", "ml4gw/gw.py:plus", "ml4gw/gw.py:outer", "ml4gw/utils/interferometer.py:InterferometerGeometry"],
}
