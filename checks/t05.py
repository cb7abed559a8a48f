"""Variable-rate decimation."""
import numpy as np
import torch

from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def samples(sched, sr):
    """sample numbers of every row, counted from the start of the schedule"""
    t0 = sched[0][0]
    out = []
    for a, b, r in sched:
        k, row = 0, []
        while a + k / r < b - 1e-12:
            row.append(round((a + k / r - t0) * sr))
            k += 1
        out.append(row)
    return out


def run(ctx, schedule, sched, sr, B=2, C=1):
    from ml4gw.transforms.decimator import Decimator

    rows = samples(sched, sr)
    T = round((sched[-1][1] - sched[0][0]) * sr)
    x = ctx.real("x", (B, C, T))
    X = ctx.vals(x).copy()
    overlap = any(sched[i + 1][0] < sched[i][1] for i in range(len(sched) - 1))
    if not overlap:
        o = Decimator(sr, schedule)(x)
        want = [i for r in rows for i in r]
        ctx.check("shape", tuple(o.shape) == (B, C, len(want)))
        ctx.close("decimated", o, X[..., want])
    segs = Decimator(sr, schedule, split=True)(x)
    ctx.check("segments", len(segs) == len(rows))
    for i, (s, r) in enumerate(zip(segs, rows)):
        ctx.check(f"segment shape {i}", tuple(s.shape) == (B, C, len(r)))
        ctx.close(f"segment {i}", s, X[..., r])
    ctx.close("input untouched", x, X, tol=0)


def listed(ctx, sched, sr, dtype="int"):
    run(ctx, torch.tensor(sched, dtype=torch.int if dtype == "int" else torch.float64), sched, sr)


def any_schedule(ctx, rows, sr, span, rates, gap=True):
    """every admissible schedule: the engine explores all values of its entries"""
    t = ctx.int("t", (rows, 2), 0, span)
    q = ctx.int("rate", (rows, 1), 1, max(rates))
    S = torch.cat([t, q], 1)
    V = ctx.vals(S)
    for i in range(rows):
        a, b, r = V[i]
        ctx.assume(tm.lt(a, b))
        ctx.assume(tm.le(b, span))
        ctx.assume(tm.lor(*[tm.eq(r, q) for q in rates]))
        if i:
            ctx.assume(tm.le(V[i - 1][1], a))
    for v in V.reshape(-1):
        ctx.E.concretize(v)
    sched = [[int(ctx.E.val(v)) for v in row] for row in V]
    run(ctx, S, sched, sr, B=1)


def reuse(ctx):
    """repeated calls and channel counts do not change the selection"""
    from ml4gw.transforms.decimator import Decimator

    sched = [[0, 1, 2], [1, 2, 4]]
    d = Decimator(4, torch.tensor(sched))
    for i, s in enumerate(((1, 1, 8), (2, 3, 8), (1, 2, 8))):
        x = ctx.real(f"x{i}", s)
        ctx.close(f"call {i}", d(x), ctx.vals(x)[..., [0, 2, 4, 5, 6, 7]])


def rejects(ctx, case):
    from ml4gw.transforms.decimator import Decimator

    t = torch.tensor
    fn = {
        "columns": lambda: Decimator(4, t([[0, 1]])),
        "1d": lambda: Decimator(4, t([0, 1, 2])),
        "backwards": lambda: Decimator(4, t([[2, 1, 2]])),
        "empty": lambda: Decimator(4, t([[0, 1, 2], [1, 1, 2]])),
        "rate": lambda: Decimator(4, t([[0, 1, 3]])),
        "second rate": lambda: Decimator(4, t([[0, 1, 2], [1, 2, 8]])),
        "overlap": lambda: Decimator(4, t([[0, 2, 2], [1, 3, 4]])),
        "late overlap": lambda: Decimator(4, t([[0, 2, 2], [2, 4, 4], [3, 5, 1]])),
        "length": lambda: Decimator(4, t([[0, 2, 2]]))(ctx.real("x", (1, 1, 9))),
        "short": lambda: Decimator(4, t([[0, 2, 2]]), split=True)(ctx.real("x", (1, 1, 7))),
    }
    ctx.expect_raises(case, ValueError, fn[case])


_s = [
    ([[0, 1, 2], [1, 2, 4]], 4), ([[0, 2, 2], [2, 3, 1], [3, 4, 4]], 4), ([[0, 1, 1], [1, 2, 4]], 4), ([[0, 1, 1], [1, 2, 1], [2, 3, 2]], 2),
    ([[1, 2, 2], [2, 3, 4]], 4), ([[0, 1, 2], [2, 3, 4]], 4), ([[0, 2, 1], [1, 3, 2]], 4), ([[0, 3, 3]], 6), ([[0, 2, 1], [1, 3, 6], [2, 4, 2]], 6),
]
HARNESSES = [
    Harness("listed", listed, [dict(sched=s, sr=r) for s, r in _s] + [dict(sched=s, sr=r, dtype="float") for s, r in _s + [([[0, 0.5, 2], [0.5, 1.25, 4]], 4), ([[0, 0.75, 2], [0.75, 2, 4]], 4), ([[0.5, 1.25, 2], [1.5, 2, 8]], 8)]]),
    Harness("one row", any_schedule, [dict(rows=1, sr=4, span=4, rates=(1, 2, 4))], max_paths=2000),
    Harness("two rows", any_schedule, [dict(rows=2, sr=2, span=4, rates=(1, 2))], max_paths=4000, thorough=[dict(rows=2, sr=4, span=5, rates=(1, 2, 4))]),
    Harness("reuse", reuse, [{}]),
    Harness("rejects", rejects, [dict(case=c) for c in ("columns", "1d", "backwards", "empty", "rate", "second rate", "overlap", "late overlap", "length", "short")]),
]
META = {
    "bounds": "all schedules of one and two rows with whole-second edges up to 4 s and rates dividing the input rate, listed schedules of up to three rows (overlapping in split form, fractional edges, gaps, late starts), series of up to 24 symbolic samples",
    "outside": "edges that are not whole samples; longer schedules",
}
