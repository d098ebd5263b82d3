"""C18: integrators equal their sequential definitions."""
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.core import check, close, data, facet, raises, same, upto

from ml4gw.transforms import LeakyIntegrator, TophatIntegrator

RULE = (
    "A case is an integrator configuration and a batch of score series. "
    "Non-trivial: at least three samples."
)
ASSUMPTIONS = [
    "the accumulator of the leaky integrator starts at zero and is raised to "
    "the lower bound whenever it would fall below it",
    "the top-hat window spans the requested duration with both ends "
    "included: duration * rate + 1 samples, as the tests fix it; a part of a "
    "sample is not included",
]


@st.composite
def shapes(draw):
    return draw(st.lists(upto(1, 4, 12), max_size=3)) + [
        draw(upto(1, 80, 1500))
    ]


@st.composite
def tophat_cases(draw):
    return dict(
        # binary fractions, so that their product is exact
        rate=draw(st.one_of(
            st.integers(1, 16), st.sampled_from([0.5, 1.5, 6.25, 10.5]),
        )),
        length=draw(st.one_of(
            st.integers(0, 5), st.sampled_from([0.25, 0.5, 0.75, 1.5, 2.125]),
        )),
        shape=draw(shapes()),
        kind=draw(st.sampled_from(["normal", "offset", "impulse", "uniform"])),
        scale=draw(st.sampled_from([1.0, 100.0])),
        double=draw(st.booleans()), view=draw(st.booleans()),
        seed=draw(st.integers(0, 2**31)),
    )


@facet(tophat_cases(), quick=4000, thorough=80000, shards=2, large=120)
def tophat(c, ctx):
    dt = np.float64 if c["double"] else np.float32
    x = data(c["seed"], c["shape"], c["kind"], dt, c["scale"])
    mod = TophatIntegrator(c["rate"], c["length"])
    if c["double"]:
        mod = mod.double()
    X = torch.from_numpy(x.copy())
    if c["view"]:  # not contiguous
        X = torch.from_numpy(np.repeat(x, 2, -1))[..., ::2]
    before = X.clone()
    got = mod(X)
    same(X, before, "input after the call")
    w = int(c["rate"] * c["length"]) + 1
    n = x.shape[-1]
    want = np.zeros(x.shape)
    for t in range(n):
        want[..., t] = (
            x[..., max(0, t - w + 1) : t + 1].astype(np.float64).sum(-1) / w
        )
    ctx.label(
        "whole" if c["rate"] * c["length"] % 1 == 0 else "part of a sample",
        "part of a second" if c["length"] % 1 else "seconds",
        "window 1" if w == 1 else "longer" if w > n else "shorter",
        f"rank {x.ndim}",
    )
    ctx.trivial(n < 3)
    # the window of a double module is 1/w rounded to single precision
    close(got, want, f"window of {w}", rtol=2e-6, scale="max")


@st.composite
def leaky_cases(draw):
    # multiples of 1/8 keep every sum exact, so that the comparison is too
    eighth = lambda a, b: st.integers(a, b).map(lambda k: k / 8)
    exact = draw(st.booleans())
    return dict(
        exact=exact,
        threshold=draw(eighth(-16, 16)), decay=draw(eighth(0, 24)),
        bound=draw(st.one_of(st.just(0.0), eighth(-40, 40))),
        value=draw(st.sampled_from(["count", "score"])),
        shape=draw(shapes()), double=draw(st.booleans()),
        bias=draw(eighth(-8, 8)),
        seed=draw(st.integers(0, 2**31)),
    )


def scores(c):
    x = data(c["seed"], c["shape"], "normal") + c["bias"]
    if c["exact"]:
        x = np.round(x * 8) / 8
    return x.astype(np.float64 if c["double"] else np.float32)


def leaky_model(x, threshold, decay, bound, value):
    out = np.zeros(x.shape)
    s = np.zeros(x.shape[:-1])
    for t in range(x.shape[-1]):
        v = x[..., t].astype(np.float64)
        up = np.ones_like(v) if value == "count" else v
        s = np.maximum(bound, s + np.where(v >= threshold, up, -decay))
        out[..., t] = s
    return out


@facet(leaky_cases(), quick=6000, thorough=120000, shards=4, large=120)
def leaky(c, ctx):
    x = scores(c)
    mod = LeakyIntegrator(c["threshold"], c["decay"], c["bound"], c["value"])
    X = torch.from_numpy(x.copy())
    got = mod(X)
    same(X, x, "input after the call")
    check(got.dtype == X.dtype, f"dtype {got.dtype}")
    want = leaky_model(x, c["threshold"], c["decay"], c["bound"], c["value"])
    ctx.label(
        c["value"], f"bound {np.sign(c['bound']):+.0f}",
        "reaches the bound" if (want == c["bound"]).any() else "stays above",
        "at threshold" if (x == c["threshold"]).any() else "off threshold",
    )
    ctx.trivial(x.shape[-1] < 3)
    if c["exact"]:
        same(got.double(), want, f"leaky integral of {c}")
    else:
        eps = 1e-15 if c["double"] else 1e-6
        total = np.abs(x).sum(-1).max() + c["decay"] * x.shape[-1] + abs(c["bound"]) + x.shape[-1]
        close(got, want, f"leaky integral of {c}", rtol=0, atol=eps * total)


@st.composite
def causal_cases(draw):
    c = draw(leaky_cases())
    c["which"] = draw(st.sampled_from(["leaky", "tophat"]))
    c["cut"] = draw(st.floats(0, 1))
    c["rate"] = draw(st.integers(1, 6))
    c["length"] = draw(st.integers(0, 4))
    return c


@facet(causal_cases(), quick=1500, thorough=30000, shards=2)
def causal_and_by_row(c, ctx):
    c["exact"] = True
    x = scores(c)
    if c["which"] == "leaky":
        mod = LeakyIntegrator(
            c["threshold"], c["decay"], c["bound"], c["value"]
        )
    else:
        mod = TophatIntegrator(c["rate"], c["length"])
        x = x.astype(np.float32)
    f = lambda a: mod(torch.from_numpy(np.ascontiguousarray(a))).numpy()
    n = x.shape[-1]
    k = int(c["cut"] * n)
    base = f(x)
    scale = float(np.abs(x).max()) + 1
    ctx.label(c["which"])
    ctx.trivial(k == 0 or k == n)
    y = x.copy()
    y[..., k:] = y[..., k:][..., ::-1] * 2 + 5
    close(f(y)[..., :k], base[..., :k], "the past", rtol=2e-6, scale=scale)
    if k:
        close(f(x[..., :k]), base[..., :k], "a prefix", rtol=2e-6, scale=scale)
    flat, out = x.reshape(-1, n), base.reshape(-1, n)
    for i in range(min(len(flat), 4)):
        close(f(flat[i]), out[i], f"row {i} alone", rtol=2e-6, scale=scale)


@facet(
    st.fixed_dictionaries(
        {"word": st.sampled_from(["sum", "", "Count", "scores", "value"])}
    ),
    quick=20, thorough=50,
)
def unknown_increments_rejected(c, ctx):
    raises(
        ValueError, lambda: LeakyIntegrator(0.5, 1.0, 0.0, c["word"]),
        f"integrate_value={c['word']!r}",
    )


batches.independent(__name__, "TophatIntegrator", "LeakyIntegrator")
arguments.ways(__name__, "integrators")
histories.pure(__name__, "TophatIntegrator", "LeakyIntegrator")
