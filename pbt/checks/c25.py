"""C25: state-space layers compute their causal linear recurrence."""
import numpy as np
import torch
from hypothesis import strategies as st
from scipy.special import erf

from pbt import arguments, batches, histories
from pbt.core import check, close, data, facet, raises, same, upto

from ml4gw.nn.ssm.s4d import S4D, S4DKernel, S4Model

RULE = (
    "A case is a model, state and sequence size, parameters, layout, "
    "dropout and a batch. Non-trivial: at least three time steps."
)
ASSUMPTIONS = [
    "parameters are set through their documented names; layers are "
    "evaluated in double precision, kernels in single and double",
    "the recurrence is x' = exp(dt A) x + (exp(dt A) - 1)/A u, y = 2 Re C x, "
    "the zero-order hold of the documented continuous system with B = 1",
]


@st.composite
def cases(draw):
    return dict(
        h=draw(st.integers(1, 6)), n=2 * draw(st.integers(1, 6)),
        length=draw(st.one_of(
            st.integers(1, 12), st.integers(1, 12), upto(13, 90, 1500),
            st.integers(13, 90),
        )),
        b=draw(upto(1, 3, 30)),
        dt=draw(st.sampled_from(
            [[0.001, 0.1], [0.01, 0.01], [0.1, 1.0], [1e-4, 1e-3]]
        )),
        fill=draw(st.booleans()), decay=draw(st.sampled_from([0.1, 1.0, 3.0])),
        kind=draw(st.sampled_from(["normal", "impulse", "offset", "tone"])),
        transposed=draw(st.booleans()),
        dropout=draw(st.sampled_from([0.0, 0.0, 0, 0.3, 1.0])),
        double=draw(st.booleans()),
        seed=draw(st.integers(0, 2**31)),
    )


def fill_kernel(kernel, c):
    rng = np.random.default_rng(c["seed"])
    with torch.no_grad():
        h, n = kernel.log_A_real.shape
        kernel.log_A_real.copy_(
            torch.from_numpy(np.log(rng.uniform(0.05, 1, (h, n)) * c["decay"]))
        )
        kernel.A_imag.copy_(torch.from_numpy(rng.normal(0, 20, (h, n))))
        kernel.C.copy_(torch.from_numpy(rng.normal(0, 1, (h, n, 2))))


def response(kernel, length):
    """Impulse response by stepping the discretised system."""
    dt = np.exp(kernel.log_dt.detach().double().numpy())[:, None]
    A = (
        -np.exp(kernel.log_A_real.detach().double().numpy())
        + 1j * kernel.A_imag.detach().double().numpy()
    )
    C = kernel.C.detach().double().numpy()
    C = C[..., 0] + 1j * C[..., 1]
    step = np.exp(dt * A)
    state = np.expm1(dt * A) / A  # after the impulse at the first step
    out, size = [], []
    for _ in range(length):
        out.append(2 * (C * state).sum(-1).real)
        size.append(2 * np.abs(C * state).sum(-1))
        state = step * state
    # rounding of the phase of the powers, in units of the precision
    grow = 1 + np.abs(dt * A).max(-1, keepdims=True) * np.arange(length)
    # and of the difference exp(dt A) - 1
    lost = (1 / np.abs(np.expm1(dt * A))).max(-1, keepdims=True)
    return np.stack(out, -1), np.stack(size, -1) * (grow + lost)


def steps_in_range(kernel, dt):
    got = kernel.log_dt.exp()
    check(
        got.min() >= dt[0] * (1 - 1e-5) and got.max() <= dt[1] * (1 + 1e-5),
        f"time steps {got.tolist()} outside {dt}",
    )


@st.composite
def kernel_cases(draw):
    c = draw(cases())
    if draw(st.integers(0, 19)) == 19:
        c.update(length=draw(st.integers(2000, 5000)), h=1, b=1)
    return c


@facet(kernel_cases(), quick=1600, thorough=40000, shards=2, large=120)
def kernels(c, ctx):
    mod = S4DKernel(c["h"], c["n"], *c["dt"])
    steps_in_range(mod, c["dt"])
    if c["fill"]:
        fill_kernel(mod, c)
    if c["double"]:
        mod = mod.double()
    ctx.trivial(c["length"] < 3)
    with torch.no_grad():
        got = mod(c["length"])
    want, size = response(mod, c["length"])
    eps = 2.3e-16 if c["double"] else 1.2e-7
    close(got, want, "kernel", rtol=30 * eps, scale=size + 1e-25)


def gelu(x):
    return x * 0.5 * (1 + erf(x / np.sqrt(2)))


def layer(mod, u, masks=None):
    """Reference of one layer on (B, H, L).

    Without masks dropout is off; otherwise they scale the channels and the
    result has one more leading dimension, the mask.
    """
    k, _ = response(mod.kernel, u.shape[-1])
    D = mod.D.detach().double().numpy()[:, None]
    y = np.stack(
        [
            np.stack(
                [np.convolve(u[b, h], k[h])[: u.shape[-1]]
                 for h in range(u.shape[1])]
            )
            for b in range(u.shape[0])
        ]
    )
    y = gelu(y + u * D)
    if masks is not None:
        y = masks[:, None, :, None] * y
    conv = mod.output_linear[0]
    W = conv.weight.detach().double().numpy()[..., 0]
    z = np.einsum("oh,...hl->...ol", W, y)
    z = z + conv.bias.detach().double().numpy()[:, None]
    h = u.shape[1]
    return z[..., :h, :] / (1 + np.exp(-z[..., h:, :]))


def all_masks(h, p):
    """Every way to drop some of h channels, the rest scaled up."""
    bits = np.arange(2**h)[:, None] >> np.arange(h) & 1
    return bits / (1 - p)


def make_layer(c, dropout):
    mod = S4D(
        c["h"], c["n"], dropout, c["transposed"], c["dt"][0], c["dt"][1]
    )
    if c["fill"]:
        fill_kernel(mod.kernel, c)
    return mod.double()


@facet(cases(), quick=1600, thorough=40000, shards=2, large=120)
def layers(c, ctx):
    mod = make_layer(c, c["dropout"]).eval()
    steps_in_range(mod.kernel, c["dt"])
    u = data(c["seed"], (c["b"], c["h"], c["length"]), c["kind"])
    ctx.trivial(c["length"] < 3)
    U = torch.from_numpy(u.copy())

    def run(m, x):
        with torch.no_grad():
            if m.transposed:
                return m(x)
            return m(x.transpose(-1, -2).contiguous()).transpose(-1, -2)

    got = run(mod, U)
    same(U, u, "input after the call")
    want = layer(mod, u)
    close(got, want, "layer output", rtol=1e-9, scale=1 + np.abs(want).max())
    # prefix, whatever comes later
    m = max(1, c["length"] - 1 - c["seed"] % 5)
    v = u.copy()
    v[..., m:] = 1e3
    late = run(mod, torch.from_numpy(v))
    close(
        late[..., :m], want[..., :m], "output before a change of input",
        rtol=1e-7, scale=1 + np.abs(want).max(),
    )
    short = run(mod, U[..., :m].contiguous())
    close(
        short, want[..., :m], "output of the prefix", rtol=1e-9,
        scale=1 + np.abs(want).max(),
    )
    i = c["seed"] % c["b"]
    close(
        run(mod, U[i : i + 1]), want[i : i + 1], "one element alone",
        rtol=1e-9, scale=1 + np.abs(want).max(),
    )


@facet(cases(), quick=400, thorough=8000)
def training(c, ctx):
    """Dropout drops whole channels before the output mixing, none at zero."""
    p = float(c["dropout"])
    mod = make_layer(dict(c, transposed=True), c["dropout"]).train()
    u = data(c["seed"], (c["b"], c["h"], c["length"]), c["kind"])
    ctx.trivial(p == 0)
    with torch.no_grad():
        got = mod(torch.from_numpy(u.copy())).numpy()
    mod.eval()
    if p == 0:
        close(got, layer(mod, u), "layer without dropout", rtol=1e-9,
              scale=1 + np.abs(got).max())
    elif p < 1:
        want = layer(mod, u, all_masks(c["h"], p))
        tol = 1e-9 * (1 + np.abs(want).max())
        off = np.abs(got - want).max((-1, -2))  # mask, element
        hit = off <= tol
        check(
            hit.any(0).all(),
            f"no set of dropped channels explains element "
            f"{int(off.min(0).argmax())} (off by {off.min(0).max():.2e})",
        )
        ctx.label("dropped some" if not hit[-1].all() else "dropped none")
    else:
        conv = mod.output_linear[0]
        z = conv.bias.detach().double().numpy()
        h = c["h"]
        want = np.broadcast_to(
            (z[:h] / (1 + np.exp(-z[h:])))[:, None], got.shape
        )
        close(got, want, "layer with everything dropped", rtol=1e-9,
              scale=1.0)
    check(np.isfinite(got).all(), "output is not finite")


@st.composite
def rate_cases(draw):
    return dict(
        p=draw(st.floats(0.05, 0.95)), h=draw(st.integers(1, 4)),
        length=draw(st.integers(1, 3)), seed=draw(st.integers(0, 2**31)),
    )


@facet(rate_cases(), quick=40, thorough=400)
def dropout_rate(c, ctx):
    """Each channel of each element is dropped with the given probability."""
    b, h, p = 2000, c["h"], c["p"]
    mod = S4D(h, 4, p).double().train()
    with torch.no_grad():
        # an exact copy of the channels, so zeros are the dropped ones
        conv = mod.output_linear[0]
        conv.weight.zero_()
        for i in range(h):
            conv.weight[i, i] = 1
        conv.bias.zero_()
        mod.D.fill_(1)
        mod.kernel.C.zero_()
        torch.manual_seed(c["seed"])
        u = torch.from_numpy(data(c["seed"], (b, h, c["length"]), "normal"))
        got = mod(u)
    gone = (got == 0).all(-1).double()
    check(
        ((got == 0).any(-1).double() == gone).all(),
        "part of a channel was dropped",
    )
    n = b * h
    sd = np.sqrt(n * p * (1 - p))
    check(
        abs(gone.sum().item() - n * p) < 6 * sd + 2,
        f"{gone.sum().item()} of {n} channels dropped with probability {p}",
    )
    # channels and elements are dropped independently
    for k in range(1, h):
        both = (gone[:, 0] * gone[:, k]).sum().item()
        q = p * p
        check(
            abs(both - b * q) < 6 * np.sqrt(b * q * (1 - q)) + 2,
            f"channels 0 and {k} were dropped together {both} times of {b}",
        )
    both = (gone[1:, 0] * gone[:-1, 0]).sum().item()
    check(
        abs(both - b * p * p) < 8 * np.sqrt(b * p * p * (1 - p * p)) + 4,
        f"neighbouring elements were dropped together {both} times of {b}",
    )


@st.composite
def init_cases(draw):
    lo = draw(st.floats(1e-5, 0.5))
    return dict(lo=lo, ratio=draw(st.floats(1.5, 1e4)),
                n=2 * draw(st.integers(1, 20)),
                seed=draw(st.integers(0, 2**31)))


@facet(init_cases(), quick=60, thorough=600)
def initial_kernels(c, ctx):
    """Time steps start log-uniform in their range, modes as S4D-Lin."""
    torch.manual_seed(c["seed"])
    lo, hi = c["lo"], c["lo"] * c["ratio"]
    h = 2000
    mod = S4DKernel(h, c["n"], lo, hi)
    u = np.log(mod.log_dt.detach().double().exp().numpy() / lo)
    u = np.sort(u / np.log(c["ratio"]))
    gap = np.abs(u - (np.arange(h) + 0.5) / h).max()
    check(
        gap < 3 / np.sqrt(h) + 1 / h,
        f"time steps in [{lo}, {hi}] are not log-uniform (off by {gap:.3f})",
    )
    close(
        mod.log_A_real.exp(), np.full((h, c["n"] // 2), 0.5), "-Re A",
        rtol=1e-6,
    )
    close(
        mod.A_imag, np.tile(np.pi * np.arange(c["n"] // 2), (h, 1)), "Im A",
        rtol=1e-6, scale=1 + np.pi * c["n"],
    )


@st.composite
def dropped_model_cases(draw):
    return dict(
        h=draw(st.integers(1, 3)), n=2 * draw(st.integers(1, 3)),
        length=draw(st.integers(1, 20)), b=draw(st.integers(1, 3)),
        n_layers=draw(st.integers(0, 2)), d_in=draw(st.integers(1, 3)),
        d_out=draw(st.integers(1, 2)),
        p=draw(st.sampled_from([0.0, 0.2, 0.5, 1.0])),
        seed=draw(st.integers(0, 2**31)),
    )


@facet(dropped_model_cases(), quick=150, thorough=2000)
def model_training(c, ctx):
    """Each layer of a model drops channels inside and at its output."""
    torch.manual_seed(c["seed"])
    p, h = c["p"], c["h"]
    mod = S4Model(
        c["d_in"], c["d_out"], h, c["n"], c["n_layers"], p
    ).double().train()
    x = data(c["seed"], (c["b"], c["d_in"], c["length"]), "normal")
    with torch.no_grad():
        got = mod(torch.from_numpy(x.copy())).numpy()
    ctx.trivial(c["n_layers"] == 0 or p == 0)

    def par(t):
        return t.detach().double().numpy()

    masks = all_masks(h, p) if p < 1 else np.zeros((1, h))
    if p == 0:
        masks = np.ones((1, h))
    for i in range(c["b"]):
        z = np.einsum("hd,bdl->bhl", par(mod.encoder.weight), x[i : i + 1])
        z = z + par(mod.encoder.bias)[:, None]
        for s4, norm in zip(mod.s4_layers, mod.norms):
            y = layer(s4, z, masks)  # inner, so far, h, l
            y = masks[:, None, None, :, None] * y + z
            y = y.reshape(-1, *y.shape[-2:])
            y = y - y.mean(1, keepdims=True)
            y = y / np.sqrt(y.var(1, keepdims=True) + norm.eps)
            z = y * par(norm.weight)[:, None] + par(norm.bias)[:, None]
        want = z.mean(-1) @ par(mod.decoder.weight).T
        want = want + par(mod.decoder.bias)
        off = np.abs(got[i] - want).max(-1).min()
        check(
            off <= 1e-5 * (1 + np.abs(want).max()),
            f"no set of dropped channels explains element {i} (off by "
            f"{off:.2e})",
        )


@st.composite
def model_cases(draw):
    c = draw(cases())
    c.update(
        d_in=draw(st.integers(1, 4)), d_out=draw(st.integers(1, 3)),
        n_layers=draw(st.integers(0, 3)),
        dropout=draw(st.sampled_from([0.0, 0.2, 0.5])),
    )
    return c


@facet(model_cases(), quick=500, thorough=10000, shards=2, large=120)
def models(c, ctx):
    mod = S4Model(
        c["d_in"], c["d_out"], c["h"], c["n"], c["n_layers"], c["dropout"],
        *c["dt"],
    ).double().eval()
    rng = np.random.default_rng(c["seed"])
    if c["fill"]:
        with torch.no_grad():
            for name, p in sorted(mod.named_parameters()):
                if name.startswith("norms"):
                    p.copy_(torch.from_numpy(rng.normal(1, 0.5, p.shape)))
        for s4 in mod.s4_layers:
            fill_kernel(s4.kernel, c)
    else:
        for s4 in mod.s4_layers:
            steps_in_range(s4.kernel, c["dt"])
    x = data(c["seed"], (c["b"], c["d_in"], c["length"]), c["kind"])
    X = torch.from_numpy(x.copy())
    with torch.no_grad():
        got = mod(X)
    same(X, x, "input after the call")
    ctx.trivial(c["length"] < 3 or c["n_layers"] == 0)

    def par(t):
        return t.detach().double().numpy()

    z = np.einsum("hd,bdl->bhl", par(mod.encoder.weight), x)
    z = z + par(mod.encoder.bias)[:, None]
    slack = 1.0
    for s4, norm in zip(mod.s4_layers, mod.norms):
        z = layer(s4, z) + z
        z = z - z.mean(1, keepdims=True)
        std = np.sqrt(z.var(1, keepdims=True) + norm.eps)
        slack *= 1 + np.abs(z).max() / std.min()
        z = z / std * par(norm.weight)[:, None] + par(norm.bias)[:, None]
    want = z.mean(-1) @ par(mod.decoder.weight).T + par(mod.decoder.bias)
    close(got, want, "model output", rtol=1e-11 * slack + 1e-9,
          scale=1 + np.abs(want).max())
    with torch.no_grad():
        i = c["seed"] % c["b"]
        close(mod(X[i : i + 1]), got[i : i + 1], "one element alone",
              rtol=1e-11 * slack + 1e-9, scale=1 + np.abs(want).max())
        fresh = S4Model(
            c["d_in"], c["d_out"], c["h"], c["n"], c["n_layers"],
            c["dropout"], *c["dt"],
        ).double().eval()
        fresh.load_state_dict(mod.state_dict())
        same(fresh(X), got, "a fresh model with the saved state")


@st.composite
def bad_cases(draw):
    return dict(
        dropout=draw(
            st.one_of(
                st.none(), st.sampled_from(["0.1", "none", [0.1]]),
                st.floats(1.001, 50), st.floats(-50, -0.001),
                st.integers(2, 9), st.integers(-5, -1),
            )
        )
    )


@facet(bad_cases(), quick=150, thorough=600)
def rejected(c, ctx):
    raises(
        ValueError, lambda: S4D(2, 4, dropout=c["dropout"]),
        f"dropout {c['dropout']!r}",
    )


batches.independent(__name__, "s4d", "s4_model")
arguments.ways(__name__, "s4d", "s4_model")
histories.pure(__name__, "s4d", "s4_model")
