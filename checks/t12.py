"""Fit / refit / save / load histories of the fitted transforms."""
import copy
import io

import numpy as np
import torch

from checks.f02 import shape_of
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"
KINDS = ("scaler", "scaler 1d", "snr", "snr band", "whiten")


def make(kind):
    from ml4gw.transforms import ChannelWiseScaler, FixedWhiten, SnrRescaler

    return {
        "scaler": lambda: ChannelWiseScaler(2),
        "scaler 1d": lambda: ChannelWiseScaler(),
        "snr": lambda: SnrRescaler(2, 8, 1.0, dtype=torch.float64),
        "snr band": lambda: SnrRescaler(2, 8, 1.0, 1.5, 3.5, dtype=torch.float64),
        "whiten": lambda: FixedWhiten(2, 1.0, 8),
    }[kind]()


def fit(ctx, kind, t, which, fixed=False):
    """fit to symbolic data (spectra: a symbolic amplitude per channel)"""
    if kind == "scaler":
        x = ctx.real(f"bg{which}", (2, 3), -2, 2)
        V = ctx.vals(x)
        for r in V:
            ctx.assume(tm.ge(tm.sub(r[0], r[1]), 0.5))
        return t.fit(x, 0.25 * which)
    if kind == "scaler 1d":
        x = ctx.real(f"bg{which}", (3,), -2, 2)
        V = ctx.vals(x)
        ctx.assume(tm.ge(tm.sub(V[0], V[1]), 0.5))
        return t.fit(x, 0.25 * which)
    s = ctx.vals(ctx.real(f"s{which}", (2,), 0.5, 2))
    psds = [ctx.tensor_of(np.array([tm.mul(v, tm.power(s[c], -2)) for v in shape_of(c + 2 * which, 5)], dtype=object)) for c in range(2)]
    if kind == "whiten":
        return t.fit(0.5 - 0.25 * which, *psds, highpass=1.5 if which else None)
    return t.fit(*psds)


def run(ctx, kind, t, tag="x", other=False):
    """outputs on one symbolic input"""
    if kind.startswith("scaler"):
        x = ctx.real(tag, (2, 2, 3) if kind == "scaler" else (4,), -2, 2)
        return [ctx.vals(t(x)), ctx.vals(t(x, reverse=True))]
    if kind == "whiten":
        x = ctx.real(tag, (1, 2, 8), -2, 2)
        return [ctx.vals(t(x)), ctx.vals(t(x, False))]
    a = ctx.vals(ctx.real(tag, (2, 2), 0.5, 2))
    x = np.empty((2, 2, 8), dtype=object)
    for b, c, i in np.ndindex(2, 2, 8):
        x[b, c, i] = tm.mul(((7 * i * i + 3 * i + 5 * c + b) % 11 - 5) / 4, a[b, c])
    y, g = t(ctx.tensor_of(x), ctx.real(tag + "target", (2,), 1, 20))
    return [ctx.vals(y), ctx.vals(g)]


def same(ctx, what, a, b):
    for i, (u, v) in enumerate(zip(a, b)):
        ctx.check(f"{what} shape {i}", u.shape == v.shape)
        if u.shape == v.shape:
            ctx.close(f"{what} output {i}", u, v)


def restored(t, how, kind):
    u = make(kind)
    if how == "state dict":
        u.load_state_dict(t.state_dict())
    elif how == "nested":
        a, b = torch.nn.Sequential(torch.nn.Identity(), t), torch.nn.Sequential(torch.nn.Identity(), u)
        b.load_state_dict(a.state_dict())
    elif how == "clone":
        u.load_state_dict({k: v.clone() for k, v in t.state_dict().items()})
    elif how == "over fitted":
        pass
    return u


def unfitted(ctx, kind, call):
    t = make(kind)

    def go():
        if kind.startswith("scaler"):
            x = ctx.real("x", (2, 3) if kind == "scaler" else (4,))
            return t(x, reverse=True) if call == "reverse" else t(x)
        if kind == "whiten":
            return t(ctx.real("x", (1, 2, 8)), call != "reverse")
        x = ctx.real("x", (1, 2, 8))
        return t(x) if call == "reverse" else t(x, ctx.real("target", (1,), 1, 2))

    ctx.expect_raises("unfitted", ValueError, go)


def save_load(ctx, kind, how):
    t = make(kind)
    fit(ctx, kind, t, 0)
    a = run(ctx, kind, t)
    u = restored(t, how, kind)
    same(ctx, "restored", run(ctx, kind, u), a)
    same(ctx, "original again", run(ctx, kind, t), a)


def independent(ctx, kind):
    """the restored copy does not follow later fits of the original"""
    t = make(kind)
    fit(ctx, kind, t, 0)
    a = run(ctx, kind, t)
    u = restored(t, "state dict", kind)
    fit(ctx, kind, t, 1)
    b = run(ctx, kind, t)
    same(ctx, "restored keeps first fit", run(ctx, kind, u), a)
    v = make(kind)
    fit(ctx, kind, v, 1)
    same(ctx, "refit equals fresh fit", run(ctx, kind, v), b)


def overwrite(ctx, kind):
    """loading replaces an earlier fit"""
    t, u = make(kind), make(kind)
    fit(ctx, kind, t, 0)
    fit(ctx, kind, u, 1)
    u.load_state_dict(t.state_dict())
    same(ctx, "loaded over fit", run(ctx, kind, u), run(ctx, kind, t))


def failed(ctx, kind, how):
    """a load or fit that fails to provide the fitted values leaves the
    transform unfitted"""
    t, u = make(kind), make(kind)
    fit(ctx, kind, t, 0)
    sd = dict(t.state_dict())
    name = sorted(sd)[0]
    if how == "wrong shape":
        sd[name] = torch.zeros(tuple(n + 1 for n in sd[name].shape))
    elif how == "missing":
        del sd[name]
    elif how == "empty":
        sd = {}
    try:
        if how == "bad fit":
            u.fit(*[torch.ones(1, 2, 3)] * (3 if kind == "whiten" else 1))
        else:
            u.load_state_dict(sd, strict=how != "empty")
        ok = how == "empty"
    except (RuntimeError, ValueError, TypeError):
        ok = True
    ctx.check("error reported", ok)
    ctx.expect_raises("still unfitted", ValueError, lambda: run(ctx, kind, u))


HARNESSES = [
    Harness("unfitted", unfitted, [dict(kind=k, call=c) for k in KINDS for c in ("forward", "reverse")]),
    Harness("save and load", save_load, [dict(kind=k, how=h) for k in KINDS for h in ("state dict", "nested", "clone")]),
    Harness("independent", independent, [dict(kind=k) for k in KINDS]),
    Harness("overwrite", overwrite, [dict(kind=k) for k in KINDS]),
    Harness("failed restore", failed, [dict(kind=k, how=h) for k in KINDS for h in ("wrong shape", "missing", "empty", "bad fit")]),
]
META = {
    "bounds": "the three fitted transforms (scaler with and without channels, SNR rescaler with and without band, fixed whitening); histories of up to two fits, a save, a load and three calls; fitted data symbolic for the scaler, one symbolic amplitude per channel for spectra; every input value symbolic (SNR rescaler: one amplitude per response)",
    "outside": "serialization to files (torch.save); longer histories",
}
