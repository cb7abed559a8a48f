"""Signal inversion and reversal: whole series, each by its own draw."""
import numpy as np

from checks.p01 import draws
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def augmented(which, row):
    return [tm.neg(v) for v in row] if which == "SignalInverter" else list(row[::-1])


def apply(ctx, which, shape, prob):
    import ml4gw.augmentations as aug

    m = getattr(aug, which)() if prob is None else getattr(aug, which)(prob)
    p = 0.5 if prob is None else prob
    x = ctx.real("x", shape, -5, 5)
    X = ctx.vals(x).copy()
    y = m(x)
    ctx.check("shape", tuple(y.shape) == tuple(shape))
    ctx.check("precision", y.dtype == x.dtype)
    Y = ctx.vals(y)
    u = draws(ctx)
    lead = list(np.ndindex(*shape[:-1]))
    if 0 < p < 1:
        ctx.check("one draw per series", len(u) == len(lead))
        if len(u) != len(lead):
            return
    for k, ix in enumerate(lead):
        new = augmented(which, X[ix])
        if p in (0, 1):
            ref = new if p else X[ix]
        else:
            v = u[k] if ctx.symbolic else ctx.E.val(u[k])
            hit = tm.lt(v, p)
            ref = [tm.ite(hit, a, b) for a, b in zip(new, X[ix])]
            ctx.cover(f"series {ix} altered", hit)
            ctx.cover(f"series {ix} kept", tm.lnot(hit))
        for t in range(shape[-1]):
            ctx.close(f"{ix},{t}", Y[ix][t], ref[t], tol=0)


def symbolic_probability(ctx, which, shape):
    """the same for every probability"""
    import ml4gw.augmentations as aug

    m = getattr(aug, which)(0.25)
    m.prob = ctx.real("p", (), 0, 1)
    p = ctx.vals(m.prob).item()
    x = ctx.real("x", shape, -5, 5)
    X = ctx.vals(x).copy()
    Y = ctx.vals(m(x))
    u = draws(ctx)
    ctx.check("one draw per series", len(u) == int(np.prod(shape[:-1])))
    if len(u) != int(np.prod(shape[:-1])):
        return
    for k, ix in enumerate(np.ndindex(*shape[:-1])):
        v = u[k] if ctx.symbolic else ctx.E.val(u[k])
        new = augmented(which, X[ix])
        for t in range(shape[-1]):
            ctx.close(f"{ix},{t}", Y[ix][t], tm.ite(tm.lt(v, p), new[t], X[ix][t]), tol=0)


def twice(ctx, which, shape):
    """two applications use fresh draws: with the second altering everything, the first decides alone"""
    import ml4gw.augmentations as aug

    first, second = getattr(aug, which)(0.3), getattr(aug, which)(1.0)
    x = ctx.real("x", shape, -5, 5)
    X = ctx.vals(x).copy()
    Y = ctx.vals(second(first(x)))
    u = draws(ctx)
    for k, ix in enumerate(np.ndindex(*shape[:-1])):
        v = u[k] if ctx.symbolic else ctx.E.val(u[k])
        new = augmented(which, X[ix])
        for t in range(shape[-1]):
            ctx.close(f"{ix},{t}", Y[ix][t], tm.ite(tm.lt(v, 0.3), X[ix][t], new[t]), tol=0)


BOTH = ("SignalInverter", "SignalReverser")
HARNESSES = [
    Harness("apply", apply, [dict(which=w, shape=s, prob=p) for w in BOTH for s, p in (((2, 2, 3), 0.3), ((3, 4), None), ((1, 2, 5), 0.75), ((2, 2, 4), 0.0), ((2, 2, 4), 1.0), ((3, 2), 1), ((2, 1, 2, 3), 0.5), ((2, 3), 0.999))],
            thorough=[dict(which=w, shape=(3, 2, 7), prob=0.5) for w in BOTH]),
    Harness("any probability", symbolic_probability, [dict(which=w, shape=s) for w in BOTH for s in ((2, 3), (1, 2, 4))]),
    Harness("twice", twice, [dict(which=w, shape=(2, 3)) for w in BOTH]),
]
META = {
    "bounds": "1-6 series of 2-7 samples with up to three leading axes; values, random draws and (in one harness) the probability symbolic, the others listed, including 0 and 1",
    "outside": "the quality of the random number generator",
}
