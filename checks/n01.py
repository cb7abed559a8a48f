"""Streaming modules: snapshotter and online averager."""
import numpy as np
import torch

from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def snapshots(ctx, channels, size, stride, batches, split=None, start="none"):
    """a stream fed in updates of the listed batch sizes"""
    from ml4gw.nn.streaming import Snapshotter

    n = stride * sum(batches)
    stream = ctx.real("x", (channels, n), -9, 9)
    X = ctx.vals(stream).copy()
    mods = {b: Snapshotter(channels, size, stride, b, split) for b in set(batches)}
    s0 = size - stride
    if start == "symbolic":
        state = ctx.real("state", (channels, s0), -9, 9)
        init = ctx.vals(state).copy()
    else:
        init = np.zeros((channels, s0)).astype(object)
        state = None if start == "none" else mods[batches[0]].get_initial_state()
        if state is not None:
            ctx.close("initial state", state, init, tol=0)
    S = np.concatenate([init, X], axis=1)
    groups = split or [channels]
    at = 0
    for u, b in enumerate(batches):
        given = ctx.vals(state).copy() if state is not None else None
        update = stream[:, at * stride : (at + b) * stride]
        out = mods[b](update, state) if state is not None else mods[b](update)
        ctx.check(f"number of outputs {u}", len(out) == len(groups) + 1)
        if given is not None:
            ctx.close(f"state untouched {u}", state, given, tol=0)
        state = out[-1]
        lo = 0
        for g, o in zip(groups, out):
            ref = np.stack([S[lo : lo + g, (at + i) * stride : (at + i) * stride + size] for i in range(b)])
            ctx.close(f"snapshots {u}", o, ref, tol=0)
            lo += g
        at += b
        ctx.close(f"state {u}", state, S[:, at * stride : at * stride + s0], tol=0)
    ctx.close("stream untouched", stream, X, tol=0)


def snapshot_rejects(ctx, kw, channels=None):
    from ml4gw.nn.streaming import Snapshotter

    if channels is None:
        ctx.expect_raises("configuration", ValueError, lambda: Snapshotter(**kw))
    else:
        s = Snapshotter(**kw)
        x = ctx.real("x", (channels, kw["batch_size"] * kw["stride_size"]))
        st = ctx.real("s", (channels, kw["snapshot_size"] - kw["stride_size"]))
        ctx.expect_raises("channels", ValueError, lambda: s(x, st))


def averages(ctx, channels, us, n, batches, extra=0, offset=None, start="none"):
    """updates of overlapping series fed in calls of the listed batch sizes"""
    from ml4gw.nn.streaming import OnlineAverager

    kw = {} if offset is None else dict(offset=offset)
    mods = {b: OnlineAverager(us, b, n, channels, **kw) for b in set(batches)}
    size = n * us + extra + (offset or 0)
    T = sum(batches)
    ups = ctx.real("x", (T, channels, size), -9, 9)
    X = ctx.vals(ups).copy()
    keep = size - (offset or 0)
    tot = np.zeros((channels, (T + n - 1) * us)).astype(object)
    s0 = (n - 1) * us
    state = None
    if start == "symbolic":
        state = ctx.real("state", (channels, s0), -9, 9)
        tot[:, :s0] = ctx.vals(state)
    elif start == "given":
        state = mods[batches[0]].get_initial_state()
        ctx.close("initial state", state, tot[:, :s0], tol=0)
    at = 0
    for u, b in enumerate(batches):
        for j in range(at, at + b):
            for c in range(channels):
                for t in range(n * us):
                    tot[c, j * us + t] = tm.add(tot[c, j * us + t], tm.mul(1 / n, X[j, c, keep - n * us + t]))
        given = ctx.vals(state).copy() if state is not None else None
        o, new = mods[b](ups[at : at + b], state) if state is not None else mods[b](ups[at : at + b])
        if given is not None:
            ctx.close(f"state untouched {u}", state, given, tol=0)
        ctx.close(f"output {u}", o, tot[:, at * us : (at + b) * us])
        state = new
        at += b
        ctx.close(f"state {u}", state, tot[:, at * us : at * us + s0])
    ctx.close("updates untouched", ups, X, tol=0)


HARNESSES = [
    Harness("snapshots", snapshots, [dict(channels=c, size=s, stride=d, batches=b, **kw)
        for c, s, d, b, kw in (
            (2, 4, 1, [3], {}), (2, 4, 1, [1, 1, 1], {}), (1, 5, 2, [2, 1, 3], dict(start="given")), (3, 6, 4, [2, 2], dict(split=[1, 2])),
            (3, 3, 2, [1, 2, 1], dict(split=[2, 1], start="symbolic")), (4, 7, 3, [1, 3], dict(split=[1, 1, 2], start="symbolic")), (2, 8, 1, [2, 4, 1], dict(start="symbolic")),
            (2, 9, 5, [4], dict(start="given", split=[2])), (1, 2, 1, [5, 1, 2, 1], {}))]),
    Harness("snapshot rejects", snapshot_rejects, [dict(kw=dict(num_channels=2, snapshot_size=4, stride_size=4, batch_size=2)), dict(kw=dict(num_channels=2, snapshot_size=4, stride_size=5, batch_size=2)),
        dict(kw=dict(num_channels=3, snapshot_size=4, stride_size=2, batch_size=2, channels_per_snapshot=[1, 1])), dict(kw=dict(num_channels=3, snapshot_size=4, stride_size=2, batch_size=2, channels_per_snapshot=[1, 2]), channels=4)]),
    Harness("averages", averages, [dict(channels=c, us=u, n=n, batches=b, **kw)
        for c, u, n, b, kw in (
            (1, 1, 3, [2], {}), (2, 2, 2, [1, 1, 1], {}), (1, 2, 3, [2, 1, 3], dict(extra=2)), (2, 1, 4, [2, 2, 1], dict(extra=1, offset=2, start="symbolic")),
            (1, 3, 1, [2, 2], {}), (2, 2, 1, [1, 3], dict(offset=1, extra=1)), (1, 2, 2, [3, 1], dict(offset=0, start="symbolic")), (3, 1, 2, [4, 1], dict(start="given", offset=3)),
            (1, 1, 5, [1, 2, 1, 3], dict(extra=4)), (2, 3, 3, [2, 2], dict(start="symbolic")))]),
]
META = {
    "bounds": "streams of up to 9 updates in calls of the listed batch sizes, 1-4 channels, windows of 2-9 samples, strides 1-5, averages over 1-5 updates, offsets 0-3; every sample and initial state symbolic",
    "outside": "longer streams; strides at least as long as the window (rejected)",
}
