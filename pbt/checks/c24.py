"""C24: normalisation and residual networks honour their layer contracts."""
import numpy as np
import torch
import torch.nn.functional as F
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.core import check, close, data, facet, raises, same, upto

from ml4gw.nn.norm import GroupNorm1D, GroupNorm1DGetter, GroupNorm2DGetter
from ml4gw.nn.resnet.resnet_1d import BottleneckResNet1D, ResNet1D
from ml4gw.nn.resnet.resnet_2d import BottleneckResNet2D, ResNet2D

RULE = (
    "A case is a layer or network configuration, parameters and a batch. "
    "Non-trivial: a norm over more than one value per group, or a network "
    "with at least two layers or a batch of two."
)
ASSUMPTIONS = [
    "networks are compared in double precision with a functional rebuild "
    "that reads the parameters by their checkpoint names; without those "
    "names only the relations are checked",
    "single-precision group norms may lose the digits that cancel in "
    "E[x^2] - E[x]^2; the tolerance grows accordingly",
]


@st.composite
def norm_cases(draw):
    groups = draw(st.integers(1, 6))
    return dict(
        groups=groups, per=draw(st.integers(1, 5)),
        none=draw(st.booleans()), b=draw(upto(1, 5, 60)),
        n=draw(st.one_of(st.integers(1, 9), upto(10, 200, 3000))),
        kind=draw(st.sampled_from(["normal", "offset", "tone", "impulse",
                                   "zeros", "constant"])),
        scale=draw(st.sampled_from([1.0, 1e-6, 1e-3, 1e3, 1e6])),
        mean=draw(st.sampled_from([0.0, 0.0, 1.0, 30.0, 1e3])),
        double=draw(st.booleans()),
        eps=draw(st.sampled_from([1e-5, 1e-3, 1e-8])),
        affine=draw(st.booleans()),
        getter=draw(st.booleans()),
        seed=draw(st.integers(0, 2**31)),
    )


def fill(mod, seed):
    """Arbitrary parameters, a function of the case only."""
    rng = np.random.default_rng(seed)
    with torch.no_grad():
        for _, p in sorted(mod.named_parameters()):
            p.copy_(torch.from_numpy(rng.standard_normal(p.shape)))


@facet(norm_cases(), quick=3000, thorough=80000, shards=2, large=120)
def group_norm(c, ctx):
    groups = c["groups"]
    ch = groups * c["per"]
    eps = c["eps"]
    if c["getter"]:
        eps = 1e-5
        mod = GroupNorm1DGetter(None if c["none"] else groups)(ch)
    else:
        mod = GroupNorm1D(ch, None if c["none"] else groups, eps)
    if c["none"]:
        groups = ch
    if c["affine"]:
        fill(mod, c["seed"])
    dt = np.float64 if c["double"] else np.float32
    if c["double"]:
        mod = mod.double()
    kind = "zeros" if c["kind"] == "constant" else c["kind"]
    x = data(c["seed"], (c["b"], ch, c["n"]), kind, np.float64)
    x = (c["scale"] * (x + c["mean"])).astype(dt)
    if c["kind"] == "constant":
        x = x + dt(c["scale"])
    X = torch.from_numpy(x.copy())
    with torch.no_grad():
        got = mod(X)
    same(X, x, "input after the call")
    v = x.astype(np.float64).reshape(c["b"], groups, -1)
    m = v.mean(-1, keepdims=True)
    var = v.var(-1, keepdims=True)
    std = np.sqrt(var + eps)
    shape = (c["b"], ch, c["n"])
    z = ((v - m) / std).reshape(shape)
    w = mod.weight.detach().double().numpy().reshape(1, ch, 1)
    b = mod.bias.detach().double().numpy().reshape(1, ch, 1)
    want = z * w + b
    e = np.finfo(dt).eps
    second = (v**2).mean(-1, keepdims=True)
    lost = 4 * e * second / (var + eps)  # relative error of the variance
    big = np.abs(v).max(-1, keepdims=True) / std
    tol = np.where(
        lost < 0.5, np.abs((v - m) / std) * lost + 20 * e * big, np.inf
    ).reshape(shape) * np.abs(w) + 8 * e * np.abs(b)
    check(got.shape == want.shape, f"shape {tuple(got.shape)}")
    check(got.isfinite().all(), "normalised values are not finite")
    ok = np.isfinite(tol)
    ctx.label("lost digits" if not ok.all() else "full",
              f"groups {'all' if groups == ch else 'some'}")
    ctx.trivial(v.shape[-1] == 1 or not ok.any())
    close(got.numpy()[ok], want[ok], "group norm", rtol=1.0, scale=tol[ok])


@st.composite
def norm_bad_cases(draw):
    return dict(
        ch=draw(st.integers(1, 12)), groups=draw(st.integers(1, 14)),
        dims=draw(st.sampled_from([1, 2, 4, 5])),
    )


@facet(norm_bad_cases(), quick=200, thorough=1000)
def norm_rejected(c, ctx):
    ch, g = c["ch"], c["groups"]
    if ch % g:
        raises(ValueError, lambda: GroupNorm1D(ch, g), f"{g} of {ch} channels")
    else:
        mod = GroupNorm1D(ch, g)
        shape = [ch] * c["dims"]
        raises(ValueError, lambda: mod(torch.zeros(shape)), f"{shape}")
    # the getters never ask for more groups than there are channels
    for getter in (GroupNorm1DGetter, GroupNorm2DGetter):
        if ch % min(g, ch) == 0:
            mod = getter(g)(ch)
            check(
                mod.num_groups == min(g, ch) and mod.num_channels == ch,
                f"{getter.__name__}({g})({ch}): {mod.num_groups} groups",
            )
        mod = getter()(ch)
        check(
            mod.num_groups == ch,
            f"{getter.__name__}()({ch}): {mod.num_groups} groups",
        )


# --------------------------------------------------------------------------
# residual networks


@st.composite
def net_cases(draw):
    dim = draw(st.sampled_from([1, 2]))
    bottleneck = draw(st.booleans())
    depth = draw(st.integers(1, 3))
    layers = draw(
        st.lists(st.integers(1, 2), min_size=depth, max_size=depth)
    )
    types = None
    if draw(st.booleans()):
        types = []
        for i in range(depth - 1):
            # plain blocks do not dilate
            ok = bottleneck or (layers[i + 1] == 1 and "dilation" not in types
                                and i == depth - 2)
            types.append(
                draw(st.sampled_from(["dilation", "stride"]))
                if ok else "stride"
            )
    size = draw(st.integers(8, 140))
    c = dict(
        dim=dim, bottleneck=bottleneck, layers=layers, types=types,
        in_ch=draw(st.integers(1, 3)), classes=draw(st.integers(1, 4)),
        kernel=draw(st.sampled_from([1, 3, 3, 5, 7])),
        norm=draw(st.sampled_from(["default", "groups", "batch"])),
        zero=draw(st.booleans()), b=draw(st.integers(1, 3)),
        groups=1, width=64,
        size=[size] if dim == 1 else
        [draw(st.integers(17, 40)), draw(st.integers(17, 40))],
        fill=draw(st.booleans()),
        kind=draw(st.sampled_from(["normal", "tone", "offset"])),
        seed=draw(st.integers(0, 2**31)),
    )
    if bottleneck:
        c["groups"] = draw(st.sampled_from([1, 1, 2, 4]))
        c["width"] = draw(st.sampled_from([64, 16, 32, 128, 24]))
    return c


CLASSES = {
    (1, False): ResNet1D, (1, True): BottleneckResNet1D,
    (2, False): ResNet2D, (2, True): BottleneckResNet2D,
}


def norm_layer(c):
    if c["norm"] == "batch":
        return torch.nn.BatchNorm1d if c["dim"] == 1 else torch.nn.BatchNorm2d
    if c["norm"] == "groups":
        return (
            GroupNorm1DGetter if c["dim"] == 1 else GroupNorm2DGetter
        )(8)
    return None


def build(c):
    return CLASSES[c["dim"], c["bottleneck"]](
        c["in_ch"], c["layers"], c["classes"], c["kernel"],
        zero_init_residual=c["zero"], groups=c["groups"],
        width_per_group=c["width"], stride_type=c["types"],
        norm_layer=norm_layer(c),
    )


def prepare(c):
    net = build(c).double().eval()
    rng = np.random.default_rng(c["seed"] + 7)
    if c["fill"]:
        with torch.no_grad():
            for name, p in sorted(net.named_parameters()):
                if p.ndim > 2 or name.startswith("fc."):
                    continue
                r = torch.from_numpy(rng.standard_normal(p.shape))
                p.copy_(1 + 0.3 * r if name.endswith("weight") else 0.3 * r)
            for name, t in sorted(net.named_buffers()):
                r = torch.from_numpy(rng.uniform(0.5, 2, tuple(t.shape)))
                if name.endswith("running_mean"):
                    t.copy_(r - 1)
                elif name.endswith("running_var"):
                    t.copy_(r)
    return net


class Rebuild:
    """The documented architecture, evaluated from a state dictionary."""

    def __init__(self, c, state):
        self.c, self.s = c, state
        self.conv = F.conv1d if c["dim"] == 1 else F.conv2d
        self.pool = F.max_pool1d if c["dim"] == 1 else F.max_pool2d

    def cv(self, name, x, stride=1, dilation=1, groups=1):
        w = self.s[name + ".weight"]
        k = w.shape[-1]
        if "downsample" not in name and not name.endswith("conv3"):
            sizes = set(w.shape[2:])
            if name == "conv1":  # the first convolution is fixed
                check(sizes == {7}, f"{name}: kernel of {sizes}")
            else:
                check(
                    sizes == {self.c["kernel"]}, f"{name}: kernel of {sizes}"
                )
        return self.conv(
            x, w, None, stride, dilation * (k // 2), dilation, groups
        )

    def norm(self, name, x):
        w = self.s[name + ".weight"].reshape(-1)
        b = self.s[name + ".bias"].reshape(-1)
        if self.c["norm"] == "batch":
            return F.batch_norm(
                x, self.s[name + ".running_mean"],
                self.s[name + ".running_var"], w, b,
            )
        ch = x.shape[1]
        groups = ch if self.c["norm"] == "default" else min(8, ch)
        v = x.reshape(x.shape[0], groups, -1)
        v = v - v.mean(-1, keepdim=True)
        v = v / (v.square().mean(-1, keepdim=True) + 1e-5).sqrt()
        one = (1, ch) + (1,) * (x.ndim - 2)
        return v.reshape(x.shape) * w.reshape(one) + b.reshape(one)

    def __call__(self, x):
        c = self.c
        x = F.relu(self.norm("bn1", self.cv("conv1", x, 2)))
        x = self.pool(x, 3, 2, 1)
        planes, dilation, inplanes = 64, 1, 64
        expansion = 4 if c["bottleneck"] else 1
        for i, blocks in enumerate(c["layers"]):
            planes = 64 * 2**i
            stride, before = 1, dilation
            if i:
                kind = c["types"][i - 1] if c["types"] else "stride"
                if kind == "stride":
                    stride = 2
                else:
                    dilation *= 2
            for j in range(blocks):
                p = f"residual_layers.{i}.{j}."
                st_, dl = (stride, before) if j == 0 else (1, dilation)
                if c["bottleneck"]:
                    y = F.relu(self.norm(p + "bn1", self.cv(p + "conv1", x)))
                    width = planes * c["width"] // 64 * c["groups"]
                    check(
                        y.shape[1] == width,
                        f"{p}: {y.shape[1]} feature maps in the bottleneck, "
                        f"not {width}",
                    )
                    y = self.cv(p + "conv2", y, st_, dl, c["groups"])
                    y = F.relu(self.norm(p + "bn2", y))
                    y = self.norm(p + "bn3", self.cv(p + "conv3", y))
                else:
                    y = self.cv(p + "conv1", x, st_)
                    y = F.relu(self.norm(p + "bn1", y))
                    y = self.norm(p + "bn2", self.cv(p + "conv2", y))
                if j == 0 and (stride != 1 or inplanes != planes * expansion):
                    x = self.cv(p + "downsample.0", x, st_)
                    x = self.norm(p + "downsample.1", x)
                    inplanes = planes * expansion
                x = F.relu(x + y)
        x = x.flatten(2).mean(-1)
        return x @ self.s["fc.weight"].T + self.s["fc.bias"]


def network_outputs(c, ctx):
    net = prepare(c)
    x = data(c["seed"], [c["b"], c["in_ch"]] + c["size"], c["kind"])
    X = torch.from_numpy(x.copy())
    with torch.no_grad():
        got = net(X)
    same(X, x, "input after the call")
    ctx.label(f"{c['dim']}D", c["norm"], f"{len(c['layers'])} layers",
              "bottleneck" if c["bottleneck"] else "plain")
    ctx.trivial(len(c["layers"]) < 2 and c["b"] < 2)
    check(
        tuple(got.shape) == (c["b"], c["classes"]),
        f"output of shape {tuple(got.shape)}",
    )
    check(got.isfinite().all(), "output is not finite")
    scale = got.abs().max().item() + 1e-12
    with torch.no_grad():
        i = c["seed"] % c["b"]
        close(
            net(X[i : i + 1]), got[i : i + 1], "one element alone",
            rtol=1e-8, scale=scale,
        )
        try:
            want = Rebuild(c, net.state_dict())(X)
        except KeyError:
            ctx.label("other parameter names")
            want = None
        if want is not None:
            close(got, want, "network output", rtol=1e-8, scale=scale)
        fresh = build(c).double().eval()
        fresh.load_state_dict(net.state_dict())
        same(fresh(X), got, "a fresh network with the saved state")
        same(net(X), got, "the same input again")


@facet(net_cases(), quick=160, thorough=2500, shards=5)
def network(c, ctx):
    network_outputs(c, ctx)


@st.composite
def deep_cases(draw):
    """Thin networks with several strided and dilated layers."""
    dim = draw(st.sampled_from([1, 1, 2]))
    depth = draw(st.integers(2, 5 if dim == 1 else 3))
    bottleneck = draw(st.sampled_from([True, True, False]))
    layers = draw(st.lists(st.integers(1, 3), min_size=depth, max_size=depth))
    types = draw(
        st.lists(
            st.sampled_from(
                ["dilation", "dilation", "stride"] if bottleneck
                else ["stride"]
            ),
            min_size=depth - 1, max_size=depth - 1,
        )
    )
    norm = draw(st.sampled_from(["default", "groups", "batch"]))
    # the group norm of torch refuses a single pixel
    least = 4 * 2 ** types.count("stride") + 1
    return dict(
        dim=dim, bottleneck=bottleneck, layers=layers, types=types,
        in_ch=draw(st.integers(1, 2)), classes=draw(st.integers(1, 3)),
        kernel=draw(st.sampled_from([3, 3, 3, 5, 9])), norm=norm,
        zero=False, b=draw(st.integers(1, 2)),
        groups=draw(st.sampled_from([1, 2, 3])) if bottleneck else 1,
        # eight groups divide the feature maps
        width=draw(
            st.sampled_from([8, 16] if norm == "groups" else [4, 8, 12])
        ) if bottleneck else 64,
        size=[draw(st.integers(60, 300))] if dim == 1 else
        [least + draw(st.integers(0, 30)), least + draw(st.integers(0, 30))],
        fill=draw(st.booleans()),
        kind=draw(st.sampled_from(["normal", "tone", "offset"])),
        seed=draw(st.integers(0, 2**31)),
    )


@facet(deep_cases(), quick=70, thorough=1200, shards=3)
def deep_network(c, ctx):
    ctx.label(f"dilated {c['types'].count('dilation')} times")
    network_outputs(c, ctx)


@st.composite
def zero_cases(draw):
    c = draw(net_cases())
    c.update(zero=True, fill=False)
    return c


@facet(zero_cases(), quick=24, thorough=200, shards=2)
def zero_init(c, ctx):
    """Zero-initialised residual branches leave every block an identity."""
    net = prepare(c)
    ctx.trivial(max(c["layers"]) < 2)
    x = torch.from_numpy(
        data(c["seed"], [c["b"], c["in_ch"]] + c["size"], "normal")
    )
    with torch.no_grad():
        got = net(x)
        layers = getattr(net, "residual_layers", None)
        if layers is None:
            return
        for layer in layers:
            for block in list(layer)[1:]:
                y = torch.from_numpy(
                    data(1, (1, block.conv1.in_channels) + (9,) * c["dim"],
                         "positive")
                )
                close(block(y), y, "zero-initialised block", rtol=1e-12)
    check(got.isfinite().all(), "output is not finite")


@st.composite
def net_bad_cases(draw):
    return dict(
        what=draw(st.sampled_from(["kernel", "types", "word", "groups",
                                   "width", "dilation"])),
        dim=draw(st.sampled_from([1, 2])), bottleneck=draw(st.booleans()),
        kernel=draw(st.sampled_from([2, 4, 6, 8])),
        n=draw(st.sampled_from([0, 2, 3])),
        word=draw(st.sampled_from(["strides", "pool", "Dilation", ""])),
    )


@facet(net_bad_cases(), quick=60, thorough=200)
def net_rejected(c, ctx):
    cls = CLASSES[c["dim"], c["bottleneck"]]
    ctx.label(c["what"])
    if c["what"] == "kernel":
        raises(
            ValueError, lambda: cls(1, [1, 1], 1, c["kernel"]), "even kernel"
        )
    elif c["what"] == "types":
        raises(
            ValueError,
            lambda: cls(1, [1, 1], 1, stride_type=["stride"] * c["n"]),
            "wrong number of stride types",
        )
    elif c["what"] == "word":
        raises(
            ValueError, lambda: cls(1, [1, 1], 1, stride_type=[c["word"]]),
            "unknown stride type",
        )
    else:
        plain = CLASSES[c["dim"], False]
        kw = {
            "groups": dict(groups=2), "width": dict(width_per_group=32),
            "dilation": dict(stride_type=["dilation"]),
        }[c["what"]]
        raises(
            (ValueError, NotImplementedError),
            lambda: plain(1, [1, 2], 1, **kw), f"plain blocks with {kw}",
        )


batches.independent(__name__, "GroupNorm", "resnet_1d", "resnet_2d")
arguments.ways(
    __name__, "group_norm", "resnet_1d", "resnet_2d", "resnet_1d_basic_block",
    "resnet_2d_basic_block", "resnet_1d_bottleneck", "resnet_2d_bottleneck",
    "resnet_1d_convolution", "resnet_2d_convolution",
)
histories.pure(__name__, "GroupNorm", "resnet_1d", "resnet_2d", quick=40)
