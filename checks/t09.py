"""Top-hat and leaky integrators."""
from checks import spec
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def tophat(ctx, lead, n, sr, length):
    from ml4gw.transforms import TophatIntegrator

    x = ctx.real("x", tuple(lead) + (n,), -5, 5)
    X = ctx.vals(x).copy()
    o = TophatIntegrator(sr, length)(x)
    ctx.check("shape", tuple(o.shape) == X.shape)
    ctx.close("input untouched", x, X, tol=0)
    O = ctx.vals(o)
    w = int(sr * length) + 1
    for ix, row in spec.rows(X):
        for t in range(n):
            ctx.close(f"{ix},{t}", O[ix + (t,)], tm.lincomb([(1 / w, v) for v in row[max(0, t - w + 1) : t + 1]]), tol=1e-7)


def leaky(ctx, lead, n, mode, bound="symbolic"):
    """all inputs, thresholds, decays and lower bounds"""
    from ml4gw.transforms import LeakyIntegrator

    x = ctx.real("x", tuple(lead) + (n,), -3, 3)
    X = ctx.vals(x).copy()
    th, de = ctx.real("threshold", (), -2, 2), ctx.real("decay", (), 0, 2)
    lb = ctx.real("lower_bound", (), -3, 3) if bound == "symbolic" else bound
    o = LeakyIntegrator(th, de, lb, mode)(x)
    ctx.check("shape", tuple(o.shape) == X.shape)
    ctx.close("input untouched", x, X, tol=0)
    T, D = ctx.vals(th)[()], ctx.vals(de)[()]
    L = ctx.vals(lb)[()] if bound == "symbolic" else bound
    O = ctx.vals(o)
    for ix, row in spec.rows(X):
        y = 0
        for t, v in enumerate(row):
            gain = 1 if mode == "count" else v
            step = tm.ite(tm.ge(v, T), gain, tm.neg(D))
            y = tm.tmax(L, tm.add(y, step))
            ctx.close(f"{ix},{t}", O[ix + (t,)], y, tol=1e-6)


def rejects(ctx, value):
    from ml4gw.transforms import LeakyIntegrator

    ctx.expect_raises("mode", ValueError, lambda: LeakyIntegrator(0.5, 1.0, 0.0, value))


HARNESSES = [
    Harness("top hat", tophat, [dict(lead=l, n=n, sr=s, length=d) for l, n, s, d in (((), 6, 2, 1), ((), 3, 4, 1), ((2,), 8, 1, 3), ((2, 3), 5, 2, 1), ((3,), 1, 4, 2), ((2,), 9, 4, 0.5), ((), 12, 8, 0.75))]),
    Harness("leaky", leaky, [dict(lead=l, n=n, mode=m, bound=b) for m in ("count", "score") for l, n, b in (((), 6, "symbolic"), ((2,), 4, "symbolic"), ((2, 2), 2, 0.0), ((), 8, 0.0), ((), 6, -1.5), ((1,), 6, 2.0))]),
    Harness("rejects", rejects, [dict(value=v) for v in ("sum", "Count", None)]),
]
META = {
    "bounds": "top hat: series of up to 12 symbolic samples, windows of 3-9 samples; leaky: sequences of 2-8 symbolic samples in up to three dimensions, threshold, decay and lower bound symbolic",
    "outside": "longer sequences; windows whose length in samples is not exact in binary floating point",
}
