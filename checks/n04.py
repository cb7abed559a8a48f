"""Residual networks and autoencoders: wiring, independence, shapes."""
import numpy as np
import torch
from torch.utils._python_dispatch import _disable_current_modes as concretely

from checks.n02 import plant
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


# ------------------------------------------------- definitions to compare with
def total(xs):
    r = 0
    for x in xs:
        r = tm.add(r, x)
    return r


def conv(X, W, stride=1, pad=0, dil=1, groups=1):
    """X [channel][pos...], W [out][in/groups][tap...]"""
    nd = X.ndim - 1
    size = tuple((X.shape[1 + d] + 2 * pad - dil * (W.shape[2 + d] - 1) - 1) // stride + 1 for d in range(nd))
    Y = np.empty((W.shape[0],) + size, dtype=object)
    og = W.shape[0] // groups
    for o in range(W.shape[0]):
        for pos in np.ndindex(*size):
            acc = []
            for c in range(W.shape[1]):
                for tap in np.ndindex(*W.shape[2:]):
                    at = tuple(pos[d] * stride + tap[d] * dil - pad for d in range(nd))
                    if all(0 <= at[d] < X.shape[1 + d] for d in range(nd)):
                        acc.append(tm.mul(W[(o, c) + tap], X[((o // og) * W.shape[1] + c,) + at]))
            Y[(o,) + pos] = total(acc)
    return Y


def conv_transpose(X, W, stride=1, pad=0, groups=1):
    """X [channel][pos], W [in][out/groups][tap]: every input sample adds a
    scaled copy of the kernel to the output"""
    C, L = X.shape
    og = W.shape[1]
    Y = np.full((og * groups, (L - 1) * stride + W.shape[2]), 0, dtype=object)
    for c in range(C):
        g = c // (C // groups)
        for t in range(L):
            for o in range(og):
                for k in range(W.shape[2]):
                    i = t * stride + k
                    Y[g * og + o, i] = tm.add(Y[g * og + o, i], tm.mul(X[c, t], W[c, o, k]))
    return Y[:, pad : Y.shape[1] - pad]


def mapped(f, X):
    Y = np.empty(X.shape, dtype=object)
    for i in np.ndindex(*X.shape):
        Y[i] = f(X[i])
    return Y


def relu(X):
    return mapped(lambda v: tm.tmax(v, 0), X)


def affine(X, w, b):
    Y = np.empty(X.shape, dtype=object)
    for i in np.ndindex(*X.shape):
        Y[i] = tm.add(tm.mul(X[i], w[i[0]]), b[i[0]])
    return Y


def centred(X, n):
    """crop or zero-pad the last axis to n samples, keeping it centred (the
    odd sample is added after and removed before the others)"""
    L = X.shape[-1]
    lead = (n - L) // 2
    Y = np.full(X.shape[:-1] + (n,), 0, dtype=object)
    for i in np.ndindex(*Y.shape):
        j = i[-1] - lead
        if 0 <= j < L:
            Y[i] = X[i[:-1] + (j,)]
    return Y


# ---------------------------------------------------------------- ingredients
class PerChannel(torch.nn.Module):
    """stands in for a norm layer: one scale and one shift per channel"""

    def __init__(self, channels):
        super().__init__()
        self.weight = torch.nn.Parameter(torch.tensor([0.5 + 0.25 * ((3 * i) % 5) for i in range(channels)]))
        self.bias = torch.nn.Parameter(torch.tensor([-0.25 + 0.125 * ((2 * i) % 7) for i in range(channels)]))

    def forward(self, x):
        shape = (1, -1) + (1,) * (x.ndim - 2)
        return x * self.weight.reshape(shape) + self.bias.reshape(shape)


def fixed(shape, seed):
    """some dyadic weights, so that products are exact"""
    n = int(np.prod(shape))
    g = np.random.RandomState(seed)
    return torch.tensor((g.randint(-16, 17, n) / 16.0).reshape(shape), dtype=torch.float64)


def set_weight(ctx, layer, seed, symbolic=False):
    shape = tuple(layer.weight.shape)
    w = ctx.real(f"w{seed}", shape, -1, 1) if symbolic else fixed(shape, seed)
    plant(layer, "weight", w)
    return ctx.vals(w).reshape(shape).copy()


def compare(ctx, name, got, want):
    got = ctx.vals(got)
    ctx.check(name + " shape", got.shape == want.shape)
    if got.shape == want.shape:
        for ix in np.ndindex(*want.shape):
            ctx.close(f"{name}{list(ix)}", got[ix], want[ix])


# ------------------------------------------------------------ residual blocks
def block(ctx, dims, kind, inp, planes, stride=1, down=False, kernel=3, L=4, groups=1, width=64, dil=1, symbolic=False):
    import importlib

    mod = importlib.import_module(f"ml4gw.nn.resnet.resnet_{dims}d")
    Block = getattr(mod, kind)
    out = planes * Block.expansion
    ds = None
    if down:
        with concretely():
            ds = mod.conv1(inp, out, stride)
    extra = {} if kind == "BasicBlock" else dict(groups=groups, base_width=width, dilation=dil)
    with concretely():
        m = Block(inp, planes, kernel, stride, ds, norm_layer=PerChannel, **extra).eval()
    layers = [m.conv1, m.conv2] + ([m.conv3] if kind == "Bottleneck" else [])
    W = [set_weight(ctx, layer, i, symbolic) for i, layer in enumerate(layers)]
    Wd = set_weight(ctx, ds, 9) if down else None
    norms = [m.bn1, m.bn2] + ([m.bn3] if kind == "Bottleneck" else [])
    ab = [(ctx.vals(n.weight), ctx.vals(n.bias)) for n in norms]

    x = ctx.real("x", (2, inp) + (L,) * dims, -2, 2)
    X = ctx.vals(x).copy()
    y = m(x)
    want = []
    for b in range(2):
        if kind == "BasicBlock":
            h = relu(affine(conv(X[b], W[0], stride, kernel // 2), *ab[0]))
            h = affine(conv(h, W[1], 1, kernel // 2), *ab[1])
        else:
            h = relu(affine(conv(X[b], W[0], 1, kernel // 2), *ab[0]))
            h = relu(affine(conv(h, W[1], stride, dil * (kernel // 2), dil, groups), *ab[1]))
            h = affine(conv(h, W[2]), *ab[2])
        skip = conv(X[b], Wd, stride) if down else X[b]
        want.append(relu(total_arrays(h, skip)))
    compare(ctx, "block", y, np.stack(want))
    ctx.close("input untouched", x, X, tol=0)


def total_arrays(a, b):
    Y = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        Y[i] = tm.add(a[i], b[i])
    return Y


def resnet(ctx, dims, name, layers, classes, size, inp=1, **kw):
    """the prediction for an element is the one it would get alone"""
    import importlib

    mod = importlib.import_module(f"ml4gw.nn.resnet.resnet_{dims}d")
    norm = kw.pop("norm", None)
    if norm == "batch":
        norm = torch.nn.BatchNorm1d if dims == 1 else torch.nn.BatchNorm2d
    with concretely():
        m = getattr(mod, name)(inp, layers, classes, norm_layer=norm, **kw).eval().double()
    params = list(m.named_parameters())
    for i, (k, p) in enumerate(params):
        owner = m
        *path, leaf = k.split(".")
        for s in path:
            owner = getattr(owner, s)
        scale = 0.3 if p.ndim > 1 else 1.0
        plant(owner, leaf, fixed(tuple(p.shape), i) * scale)
    x = ctx.real("x", (3, inp) + size, -2, 2)
    X = ctx.vals(x).copy()
    y = m(x)
    ctx.check("one output per class", tuple(y.shape) == (3, classes))
    Y = ctx.vals(y).copy()
    for b in range(3):
        ctx.close(f"element {b} alone", m(x[b : b + 1]), Y[b : b + 1])
    ctx.close("reversed batch", m(x.flip(0)), Y[::-1])
    ctx.close("input untouched", x, X, tol=0)


def identity(ctx, dims, name, layers):
    """zero-initialised residual branches leave every block, downsampling
    aside, equal to the rectified input"""
    import importlib

    mod = importlib.import_module(f"ml4gw.nn.resnet.resnet_{dims}d")
    with concretely():
        m = getattr(mod, name)(1, layers, 2, zero_init_residual=True).eval().double()
    n = 0
    for i, layer in enumerate(m.residual_layers):
        ctx.check(f"layer {i} has its blocks", len(layer) == layers[i])
        for j, blk in enumerate(layer):
            last = blk.bn3 if hasattr(blk, "bn3") else blk.bn2
            ctx.check(f"layer {i} block {j} residual branch scaled by zero", torch.all(last.weight.detach() == 0).item())
            if blk.downsample is None:
                c = last.weight.numel()
                x = ctx.real(f"x{n}", (1, c) + (2,) + (1,) * (dims - 1), -2, 2)
                X = ctx.vals(x).copy()
                if n < 1:
                    compare(ctx, f"layer {i} block {j}", blk(x), relu(X))
                n += 1
    ctx.check("some block is the identity", n > 0)


def stride_types(ctx, dims):
    import importlib

    mod = importlib.import_module(f"ml4gw.nn.resnet.resnet_{dims}d")
    R = getattr(mod, f"BottleneckResNet{dims}D")
    with concretely():
        stride_types_(ctx, R)


def stride_types_(ctx, R):
    ctx.expect_raises("too few", ValueError, lambda: R(1, [1, 1, 1], 1, stride_type=["stride"]))
    ctx.expect_raises("too many", ValueError, lambda: R(1, [1, 1], 1, stride_type=["stride", "stride"]))
    ctx.expect_raises("unknown", ValueError, lambda: R(1, [1, 1], 1, stride_type=["skip"]))
    ctx.expect_raises("even kernel", ValueError, lambda: R(1, [1, 1], 1, kernel_size=4))
    ctx.check("odd kernel", R(1, [1, 1], 1, kernel_size=5) is not None)


# -------------------------------------------------------------- autoencoders
def joined(kind, groups, X, state):
    """[channel][time] decoder output with the encoder state"""
    X = centred(X, state.shape[-1])
    if kind == "add":
        return total_arrays(X, state)
    k = X.shape[0] // groups
    return np.concatenate([p for g in range(groups) for p in (X[g * k : (g + 1) * k], state[g * k : (g + 1) * k])])


def make_skip(kind, groups):
    from ml4gw.nn.autoencoder import AddSkipConnect, ConcatSkipConnect

    return {"none": lambda: None, "add": lambda: AddSkipConnect(), "cat": lambda: ConcatSkipConnect(groups)}[kind]()


def autoencoder(ctx, inp, enc, L, kernel=3, stride=1, groups=1, skip="none", sg=1, act="tanh", out_act=None, decode=None, B=2, batchnorm=False):
    from ml4gw.nn.autoencoder import ConvolutionalAutoencoder

    acts = {"tanh": (torch.nn.Tanh, lambda v: tm.func("tanh", v)), "relu": (torch.nn.ReLU, lambda v: tm.tmax(v, 0)), "id": (torch.nn.Identity, lambda v: v)}
    cls, f = acts[act]
    g = f if out_act is None else acts[out_act][1]
    norm = torch.nn.BatchNorm1d if batchnorm else PerChannel
    with concretely():
        m = ConvolutionalAutoencoder(
            inp, enc, kernel, stride, groups, activation=cls, output_activation=None if out_act is None else acts[out_act][0](),
            norm=norm, decode_channels=decode, skip_connection=make_skip(skip, sg),
        ).eval()
    n = len(enc)
    ctx.check("one block per encoding", len(m.blocks) == n)
    We = [set_weight(ctx, b.encode_layer, i) for i, b in enumerate(m.blocks)]
    Wd = [set_weight(ctx, b.decode_layer, 10 + i) for i, b in enumerate(m.blocks)]
    if batchnorm:
        for i, b in enumerate(m.blocks):
            for j, layer in enumerate((b.encode_norm, b.decode_norm)):
                c = layer.weight.numel()
                layer.double()
                plant(layer, "weight", fixed((c,), 20 + 2 * i + j) + 1.5)
                plant(layer, "bias", fixed((c,), 40 + 2 * i + j))
                layer.running_mean.copy_(fixed((c,), 60 + 2 * i + j))
                layer.running_var.copy_(fixed((c,), 80 + 2 * i + j) ** 2 + 0.5)

    def normed(layer, X):
        w, b = ctx.vals(layer.weight), ctx.vals(layer.bias)
        if batchnorm:
            mu, va = layer.running_mean.numpy(), layer.running_var.numpy()
            s = [tm.div(w[c], float(np.sqrt(va[c] + layer.eps))) for c in range(len(w))]
            b = [tm.sub(b[c], tm.mul(s[c], float(mu[c]))) for c in range(len(w))]
            w = s
        return affine(X, w, b)

    pad = (kernel - 1) // 2

    def expected(X):
        states = []
        for i in range(n):
            X = mapped(f, normed(m.blocks[i].encode_norm, conv(X, We[i], stride, pad, 1, groups)))
            states.append(X)
        z = X
        for i in reversed(range(n)):
            X = conv_transpose(X, Wd[i], stride, pad, groups)
            X = mapped(f if i else g, normed(m.blocks[i].decode_norm, X))
            if i and skip != "none":
                X = joined(skip, sg, X, states[i - 1])
        return states, z, X

    x = ctx.real("x", (B, inp, L), -2, 2)
    X = ctx.vals(x).copy()
    want = [expected(X[b]) for b in range(B)]
    y = m(x)
    ctx.check("reconstruction has the shape of the input", tuple(y.shape) == (B, decode or inp, L))
    compare(ctx, "reconstruction", y, np.stack([centred(w[2], L) for w in want]))

    z, states = m.encode(x, return_states=True)
    compare(ctx, "encoding", z, np.stack([w[1] for w in want]))
    compare(ctx, "encoding alone", m.encode(x), np.stack([w[1] for w in want]))
    ctx.check("a state per inner stage", len(states) == n - 1)
    for i, s in enumerate(states):
        compare(ctx, f"state {i}", s, np.stack([w[0][i] for w in want]))
    st = None if skip == "none" else states
    compare(ctx, "decoding", m.decode(z, states=st), np.stack([w[2] for w in want]))
    compare(ctx, "decoding to size", m.decode(z, states=st, input_size=L), np.stack([centred(w[2], L) for w in want]))
    if skip != "none":
        ctx.expect_raises("decoding without states", ValueError, lambda: m.decode(z))
        ctx.expect_raises("decoding with too many states", ValueError, lambda: m.decode(z, states=[*states, z]))
    ctx.close("input untouched", x, X, tol=0)


def connect(ctx, kind, groups, C, L, S):
    m = make_skip(kind, groups)
    x, s = ctx.real("x", (2, C, L), -2, 2), ctx.real("s", (2, C, S), -2, 2)
    X, St = ctx.vals(x).copy(), ctx.vals(s).copy()
    y = m(x, s)
    compare(ctx, "joined", y, np.stack([joined(kind, groups, X[b], St[b]) for b in range(2)]))
    ctx.check("announced channels", m.get_out_channels(C) == y.shape[1])
    ctx.close("state untouched", s, St, tol=0)


def indivisible(ctx, groups, C):
    m = make_skip("cat", groups)
    x = ctx.real("x", (1, C, 2), -2, 2)
    ctx.expect_raises("indivisible channels", ValueError, lambda: m(x, x))


BL = [
    dict(dims=1, kind="BasicBlock", inp=2, planes=2),
    dict(dims=1, kind="BasicBlock", inp=1, planes=1, symbolic=True, L=3),
    dict(dims=1, kind="BasicBlock", inp=1, planes=2, stride=2, down=True, L=5),
    dict(dims=1, kind="BasicBlock", inp=1, planes=1, kernel=5),
    dict(dims=1, kind="Bottleneck", inp=4, planes=1, L=3),
    dict(dims=1, kind="Bottleneck", inp=2, planes=1, stride=2, down=True),
    dict(dims=1, kind="Bottleneck", inp=2, planes=1, down=True, dil=2, L=5),
    dict(dims=1, kind="Bottleneck", inp=4, planes=1, groups=2, L=3),
    dict(dims=2, kind="BasicBlock", inp=1, planes=1, L=2),
    dict(dims=2, kind="BasicBlock", inp=1, planes=2, stride=2, down=True, L=3),
    dict(dims=2, kind="Bottleneck", inp=4, planes=1, L=2),
    dict(dims=2, kind="Bottleneck", inp=1, planes=1, stride=2, down=True, dil=2, L=3),
]
BLT = [
    dict(dims=1, kind="Bottleneck", inp=4, planes=1, groups=2, width=128, dil=2, L=5),
    dict(dims=1, kind="Bottleneck", inp=1, planes=2, width=32, down=True),
    dict(dims=1, kind="BasicBlock", inp=3, planes=3, L=6),
    dict(dims=2, kind="BasicBlock", inp=2, planes=2, L=3),
    dict(dims=2, kind="Bottleneck", inp=4, planes=1, groups=2, L=3),
]
RN = [
    dict(dims=1, name="ResNet1D", layers=[1], classes=3, size=(5,)),
    dict(dims=1, name="ResNet1D", layers=[1, 1], classes=1, size=(6,), norm="batch"),
]
RNT = [
    dict(dims=1, name="ResNet1D", layers=[2, 1], classes=2, size=(9,), inp=2),
    dict(dims=1, name="BottleneckResNet1D", layers=[1, 1], classes=2, size=(9,), stride_type=["dilation"]),
    dict(dims=2, name="ResNet2D", layers=[1], classes=2, size=(4, 5)),
    dict(dims=2, name="ResNet2D", layers=[1, 1], classes=2, size=(4, 4), norm="batch"),
]
AE = [
    dict(inp=1, enc=[2], L=4),
    dict(inp=1, enc=[2], L=5, stride=2, out_act="id"),
    dict(inp=1, enc=[2, 2], L=4, stride=2),
    dict(inp=1, enc=[2, 1], L=7, stride=2, skip="add"),
    dict(inp=1, enc=[1, 2, 1], L=6, stride=2, skip="add", act="relu", out_act="id", B=1),
    dict(inp=1, enc=[1, 2], L=5, stride=2, skip="cat"),
    dict(inp=1, enc=[1, 1, 1], L=9, stride=2, skip="cat", B=1),
    dict(inp=2, enc=[1, 1], L=5, groups=2, skip="cat", sg=2),
    dict(inp=2, enc=[2, 1], L=4, groups=2, skip="cat", sg=2, stride=2),
    dict(inp=1, enc=[2, 2], L=4, decode=3, kernel=4),
    dict(inp=1, enc=[1, 2], L=6, kernel=4, stride=3, skip="add", act="id"),
    dict(inp=1, enc=[1, 2], L=5, batchnorm=True, act="id"),
    dict(inp=1, enc=[2], L=4, skip="add", batchnorm=True),
]
AET = [
    dict(inp=2, enc=[2, 3, 2], L=11, stride=2, skip="add", act="id"),
    dict(inp=2, enc=[2, 3, 2], L=11, stride=2, skip="cat", act="id"),
    dict(inp=2, enc=[2, 2, 2], L=9, stride=2, groups=2, skip="cat", sg=2, act="id"),
    dict(inp=1, enc=[1, 1, 1, 1], L=17, stride=2, skip="cat", B=1),
    dict(inp=1, enc=[2, 2], L=10, kernel=5, stride=3, skip="add"),
]
CO = [dict(kind=k, groups=g, C=C, L=L, S=S) for k, g, C, L, S in [
    ("add", 1, 2, 3, 3), ("add", 1, 1, 2, 5), ("add", 1, 1, 5, 2), ("add", 1, 1, 4, 3), ("cat", 1, 2, 3, 3), ("cat", 2, 4, 2, 3),
    ("cat", 2, 6, 3, 2), ("cat", 3, 6, 2, 2), ("cat", 2, 2, 2, 2), ("cat", 4, 4, 1, 1), ("cat", 3, 9, 1, 2)]]
HARNESSES = [
    Harness("residual block", block, BL, thorough=BLT),
    Harness("residual network", resnet, RN, thorough=RNT),
    Harness("zero-initialised residuals", identity, [dict(dims=1, name="ResNet1D", layers=[2, 1]), dict(dims=2, name="ResNet2D", layers=[1, 2])],
            thorough=[dict(dims=1, name="BottleneckResNet1D", layers=[2, 1])]),
    Harness("stride types", stride_types, [dict(dims=1), dict(dims=2)]),
    Harness("autoencoder", autoencoder, AE, thorough=AET),
    Harness("skip connection", connect, CO),
    Harness("indivisible groups", indivisible, [dict(groups=2, C=3), dict(groups=3, C=4)]),
]
META = dict(
    functions=[
        "ml4gw.nn.resnet.resnet_1d.{BasicBlock,Bottleneck,ResNet1D,BottleneckResNet1D}",
        "ml4gw.nn.resnet.resnet_2d.{BasicBlock,Bottleneck,ResNet2D,BottleneckResNet2D}",
        "ml4gw.nn.autoencoder.base.Autoencoder.{encode,decode,forward}",
        "ml4gw.nn.autoencoder.convolutional.{ConvBlock,ConvolutionalAutoencoder}",
        "ml4gw.nn.autoencoder.skip_connection.{AddSkipConnect,ConcatSkipConnect}",
        "ml4gw.nn.autoencoder.utils.match_size",
    ],
    bounds="all inputs of magnitude up to 2; residual blocks of 1 to 4 channels and 2 to 6 samples per axis with listed (one: symbolic) weights, strides, dilations, groups; "
    "whole residual networks at their real widths with listed weights, batches of 3, 5 to 9 samples; autoencoders of 1 to 4 stages with listed weights, kernels 3 to 5, strides 1 to 3, groups 1 and 2",
    outside=["trained weights other than the listed ones (the wiring does not depend on them)", "training mode", "floating-point rounding"],
    assumptions=["norm layers inside blocks are replaced by a scale and a shift per channel, except where batch normalization in evaluation mode is listed"],
)
