"""C26: convolutional autoencoders return an output shaped like their input."""
import numpy as np
import torch
import torch.nn.functional as F
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.core import check, close, data, facet, raises, same, upto

from ml4gw.nn.autoencoder import (
    AddSkipConnect,
    Autoencoder,
    ConcatSkipConnect,
    ConvolutionalAutoencoder,
)
from ml4gw.nn.autoencoder.utils import match_size
from ml4gw.nn.norm import GroupNorm1DGetter

RULE = (
    "A case is an architecture (channels, kernel, stride, groups, norm, "
    "activations, skip connection), an input length and a batch. "
    "Non-trivial: at least two blocks."
)
ASSUMPTIONS = [
    "each decoder block but the last is followed by the skip connection "
    "with the input of its encoder block; activations are given as classes, "
    "the output activation as a class, module or function",
    "sizes are matched by zero padding, or cropping, on both sides, the odd "
    "sample being padded on the right or cropped from the left",
    "networks are compared in double precision with a functional rebuild "
    "that reads the parameters by their names; without those names only the "
    "relations are checked",
]
ACT = {
    "relu": (torch.nn.ReLU, F.relu), "tanh": (torch.nn.Tanh, torch.tanh),
    "gelu": (torch.nn.GELU, F.gelu),
    "identity": (torch.nn.Identity, lambda x: x),
    "sigmoid": (torch.nn.Sigmoid, torch.sigmoid),
}


@st.composite
def cases(draw, groups=(1, 1, 2, 3), skips=("none", "add", "concat"), most=4):
    g = draw(st.sampled_from(list(groups)))
    kernel = draw(st.integers(1, 9))
    c = dict(
        groups=g, in_ch=g * draw(st.integers(1, 3)),
        channels=draw(st.lists(st.integers(1, 4), min_size=1, max_size=most)),
        kernel=kernel, stride=draw(st.integers(1, min(3, kernel))),
        act=draw(st.sampled_from(["relu", "tanh", "gelu"])),
        out=draw(st.sampled_from([None, "identity", "sigmoid", "tanh"])),
        out_as=draw(st.sampled_from(["class", "module", "function"])),
        norm=draw(st.sampled_from(["batch", "instance", "none"])),
        decode=draw(st.sampled_from([None, g, 2 * g, 4 * g])),
        skip=draw(st.sampled_from(list(skips))),
        b=draw(upto(1, 4, 30)),
        kind=draw(st.sampled_from(["normal", "tone", "offset"])),
        seed=draw(st.integers(0, 2**31)),
    )
    # long enough for every encoder stage
    least = kernel
    for _ in c["channels"]:
        least = (least - 1) * c["stride"] + kernel
    least = min(least, 40 * c["stride"] ** len(c["channels"]))
    c["n"] = least + draw(upto(0, 40, 600))
    return c


def build(c):
    skip = None
    if c["skip"] == "add":
        skip = AddSkipConnect()
    elif c["skip"] == "concat":
        skip = ConcatSkipConnect(c["groups"])
    norm = {
        "batch": torch.nn.BatchNorm1d, "instance": GroupNorm1DGetter(),
        "none": torch.nn.Identity,
    }[c["norm"]]
    out = None
    if c["out"]:
        cls, fn = ACT[c["out"]]
        out = {"class": cls, "module": cls(), "function": fn}[c["out_as"]]
    return ConvolutionalAutoencoder(
        c["in_ch"], c["channels"], c["kernel"], c["stride"], c["groups"],
        ACT[c["act"]][0], out, norm, c["decode"], skip,
    )


def prepare(c):
    net = build(c).double().eval()
    rng = np.random.default_rng(c["seed"] + 3)
    state = {k: v.clone() for k, v in net.state_dict().items()}
    for name, t in sorted(state.items()):
        r = torch.from_numpy(rng.uniform(0.5, 2, tuple(t.shape)))
        if name.endswith("running_mean"):
            t.copy_(r - 1)
        elif name.endswith("running_var"):
            t.copy_(r)
        elif "norm" in name and name.endswith(("weight", "bias")):
            r = torch.from_numpy(rng.standard_normal(t.shape))
            t.copy_(1 + 0.3 * r if name.endswith("weight") else 0.3 * r)
    net.load_state_dict(state)
    return net, state


def sized(x, n):
    d = n - x.shape[-1]
    if d >= 0:
        return F.pad(x, (d // 2, d - d // 2))
    lo = (-d + 1) // 2
    return x[..., lo : lo + n]


class Rebuild:
    def __init__(self, c, state):
        self.c, self.s = c, state
        self.lost = 0

    def norm(self, name, x):
        if self.c["norm"] == "none":
            return x
        w = self.s[name + ".weight"].reshape(-1)
        b = self.s[name + ".bias"].reshape(-1)
        if self.c["norm"] == "batch":
            return F.batch_norm(
                x, self.s[name + ".running_mean"],
                self.s[name + ".running_var"], w, b,
            )
        m = x.mean(-1, keepdim=True)
        v = ((x - m) ** 2).mean(-1, keepdim=True)
        return (x - m) / (v + 1e-5) ** 0.5 * w[:, None] + b[:, None]

    def __call__(self, x):
        c = self.c
        act = ACT[c["act"]][1]
        p = (c["kernel"] - 1) // 2
        n = len(c["channels"])
        inputs, size = [], x.shape[-1]
        for i in range(n):
            inputs.append(x)
            w = self.s[f"blocks.{i}.encode_layer.weight"]
            x = F.conv1d(x, w, None, c["stride"], p, 1, c["groups"])
            x = act(self.norm(f"blocks.{i}.encode_norm", x))
        code = x
        for i in reversed(range(n)):
            w = self.s[f"blocks.{i}.decode_layer.weight"]
            x = F.conv_transpose1d(
                x, w, None, c["stride"], p, 0, c["groups"], 1
            )
            x = self.norm(f"blocks.{i}.decode_norm", x)
            x = (ACT[c["out"]][1] if i == 0 and c["out"] else act)(x)
            if i and c["skip"] != "none":
                s = inputs[i]
                x = sized(x, s.shape[-1])
                if c["skip"] == "add":
                    x = x + s
                else:
                    g = c["groups"]
                    both = torch.stack(
                        [t.unflatten(1, (g, -1)) for t in (x, s)], 2
                    )
                    x = both.flatten(1, 3)
        return code, sized(x, size)


@facet(cases(), quick=1200, thorough=30000, shards=3, large=120)
def forward(c, ctx):
    net, state = prepare(c)
    x = data(c["seed"], (c["b"], c["in_ch"], c["n"]), c["kind"])
    X = torch.from_numpy(x.copy())
    with torch.no_grad():
        got = net(X)
    same(X, x, "input after the call")
    n = len(c["channels"])
    ctx.label(f"{n} blocks", c["skip"], f"groups {c['groups']}", c["norm"])
    ctx.trivial(n < 2)
    want_ch = c["decode"] or c["in_ch"]
    check(
        tuple(got.shape) == (c["b"], want_ch, c["n"]),
        f"output of shape {tuple(got.shape)}, expected "
        f"{(c['b'], want_ch, c['n'])}",
    )
    check(got.isfinite().all(), "output is not finite")
    scale = 1 + got.abs().max().item()
    tol = 1e-6 if c["norm"] == "instance" else 1e-9
    with torch.no_grad():
        code = net.encode(X)
        try:
            want_code, want = Rebuild(c, state)(X)
        except KeyError:
            ctx.label("other parameter names")
        else:
            close(code, want_code, "encoding", rtol=tol,
                  scale=1 + want_code.abs().max().item())
            close(got, want, "autoencoder output", rtol=tol, scale=scale)
        code2, states = net.encode(X, return_states=True)
        same(code2, code, "encoding returned with its states")
        check(len(states) == n - 1, f"{len(states)} states, expected {n - 1}")
        given = None if c["skip"] == "none" else states
        back = net.decode(code2, states=given, input_size=c["n"])
        close(back, got, "decoded encoding", rtol=tol, scale=scale)
        i = c["seed"] % c["b"]
        close(net(X[i : i + 1]), got[i : i + 1], "one element alone",
              rtol=tol, scale=scale)
        fresh = build(c).double().eval()
        fresh.load_state_dict(net.state_dict())
        close(fresh(X), got, "a fresh network with the saved state",
              rtol=tol, scale=scale)


@facet(cases(groups=(2, 3, 4)), quick=500, thorough=10000)
def groups(c, ctx):
    """A channel group of the input reaches only its group of outputs."""
    net, _ = prepare(c)
    g = c["groups"]
    x = torch.from_numpy(
        data(c["seed"], (c["b"], c["in_ch"], c["n"]), c["kind"])
    )
    k = c["seed"] % g
    per = c["in_ch"] // g
    y = x.clone()
    y[:, k * per : (k + 1) * per] += 1 + torch.from_numpy(
        data(c["seed"] + 1, (c["b"], per, c["n"]), "normal")
    )
    ctx.label(c["skip"])
    ctx.trivial(len(c["channels"]) < 2)
    with torch.no_grad():
        a, b = net(x), net(y)
    out = a.shape[1] // g
    keep = [i for i in range(a.shape[1]) if i // out != k]
    close(
        b[:, keep], a[:, keep], f"outputs of groups other than {k}",
        rtol=1e-9, scale=1 + a.abs().max().item(),
    )


@facet(cases(most=3), quick=250, thorough=4000)
def trains(c, ctx):
    """Every parameter the output depends on receives a gradient."""
    net = build(c).train()
    x = torch.from_numpy(
        data(c["seed"], (c["b"] + 1, c["in_ch"], c["n"]), "normal",
             np.float32)
    )
    got = net(x)
    check(
        tuple(got.shape)
        == (c["b"] + 1, c["decode"] or c["in_ch"], c["n"]),
        f"output of shape {tuple(got.shape)}",
    )
    got.square().sum().backward()
    ctx.trivial(len(c["channels"]) < 2)
    for name, p in net.named_parameters():
        check(p.grad is not None, f"no gradient for {name}")


@st.composite
def size_cases(draw):
    n = draw(st.integers(1, 40))
    return dict(
        n=n, m=draw(st.integers(1, 60)), b=draw(st.integers(1, 3)),
        ch=draw(st.integers(1, 3)),
    )


@facet(size_cases(), quick=500, thorough=4000)
def sizes(c, ctx):
    x = torch.from_numpy(data(0, (c["b"], c["ch"], c["n"]), "counter") + 1)
    got = match_size(x, c["m"])
    same(got, sized(x, c["m"]), f"{c['n']} samples matched to {c['m']}")
    state = torch.from_numpy(data(0, (c["b"], c["ch"], c["m"]), "counter"))
    same(
        AddSkipConnect()(x, state), sized(x, c["m"]) + state,
        "added skip connection",
    )
    same(
        ConcatSkipConnect()(x, state),
        torch.cat([sized(x, c["m"]), state], 1), "joined skip connection",
    )


class Toy(torch.nn.Module):
    """A block that records the order of calls and adds its number."""

    def __init__(self, i, log):
        super().__init__()
        self.i, self.log = i, log

    def encode(self, x):
        self.log.append(("e", self.i))
        return x * 3 + self.i

    def decode(self, x):
        self.log.append(("d", self.i))
        return x * 2 - self.i


class ToySkip(torch.nn.Module):
    def forward(self, x, state):
        return x + 100 * state


@st.composite
def toy_cases(draw):
    return dict(n=draw(st.integers(1, 6)), skip=draw(st.booleans()),
                seed=draw(st.integers(0, 99)))


@facet(toy_cases(), quick=100, thorough=600)
def base(c, ctx):
    """The base class runs blocks in order and pairs each with its state."""
    log = []
    net = Autoencoder(ToySkip() if c["skip"] else None)
    for i in range(c["n"]):
        net.blocks.append(Toy(i, log))
    x = torch.arange(4).double() + c["seed"]
    got = net(x)
    want, inputs = x, []
    for i in range(c["n"]):
        inputs.append(want)
        want = want * 3 + i
    for i in reversed(range(c["n"])):
        want = want * 2 - i
        if c["skip"] and i:
            want = want + 100 * inputs[i]
    ctx.trivial(c["n"] < 2)
    same(got, want, "output of the base autoencoder")
    order = [("e", i) for i in range(c["n"])]
    order += [("d", i) for i in reversed(range(c["n"]))]
    check(log == order, f"blocks ran as {log}")


@st.composite
def bad_cases(draw):
    c = draw(cases(skips=("add", "concat")))
    c["what"] = draw(st.sampled_from(["missing", "many", "few", "rem"]))
    c["extra"] = draw(st.integers(1, 3))
    return c


@facet(bad_cases(), quick=150, thorough=800)
def rejected(c, ctx):
    net = build(c).eval()
    x = torch.zeros(2, c["in_ch"], c["n"])
    code, states = net.encode(x, return_states=True)
    ctx.label(c["what"])
    if c["what"] == "missing":
        raises(ValueError, lambda: net.decode(code), "decoding without states")
    elif c["what"] == "rem":
        g = 2 + c["extra"]
        bad = torch.zeros(1, g + 1, 8)
        raises(
            ValueError, lambda: ConcatSkipConnect(g)(bad, bad),
            f"{g + 1} channels in {g} groups",
        )
    else:
        if c["what"] == "many":
            states = list(states) + [code] * c["extra"]
        elif states:
            states = list(states)[1:]
        else:
            ctx.trivial()
            return
        raises(
            ValueError, lambda: net.decode(code, states=states),
            f"{len(states)} states for {len(c['channels'])} blocks",
        )


batches.independent(__name__, "autoencoder")
arguments.ways(__name__, "autoencoder", "coding", "concat")
histories.pure(__name__, "autoencoder")
