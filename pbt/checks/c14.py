"""C14: the online averager streams the mean of overlapping predictions."""
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.core import check, close, data, facet, same, upto

from ml4gw.nn.streaming import OnlineAverager

RULE = (
    "A case is an averager configuration, the length of each predicted "
    "window and a history of updates. Non-trivial: at least two updates and "
    "more than one window averaged."
)
ASSUMPTIONS = [
    "windows are at least num_updates * update_size + offset long",
    "until the stream has filled, windows that do not exist yet count as "
    "zero, as documented (the average is underestimated)",
]


@st.composite
def cases(draw):
    u = draw(upto(1, 6, 60))
    n = draw(upto(1, 7, 25))
    offset = draw(st.sampled_from([None, None, 0, 1, 2, 5]))
    return dict(
        u=u, n=n, b=draw(upto(1, 6, 40)), ch=draw(upto(1, 3, 9)),
        offset=offset,
        size=n * u + (offset or 0) + draw(st.sampled_from([0, 0, 1, 7])),
        updates=draw(upto(1, 6, 25)),
        dtype=draw(st.sampled_from(["float32", "float64"])),
        kind=draw(st.sampled_from(["normal", "offset", "positive"])),
        start=draw(st.sampled_from(["omitted", "initial"])),
        fresh=draw(st.booleans()),
        seed=draw(st.integers(0, 2**31)),
    )


def build(c, **over):
    c = dict(c, **over)
    mod = OnlineAverager(
        c["u"], c["b"], c["n"], c["ch"],
        **({} if c["offset"] is None else {"offset": c["offset"]}),
    )
    return mod.double() if c["dtype"] == "float64" else mod


def stream_model(x, u, n, offset):
    """x: windows (count, ch, size), each u samples after the one before.

    Returns the averaged stream of count * u samples: at every sample, the
    sum over the windows that cover it with their last n * u used samples,
    over n."""
    count, ch, size = x.shape
    end = size - offset
    used = x[:, :, end - n * u : end]
    out = np.zeros((ch, (count - 1) * u + n * u))
    for i in range(count):
        out[:, i * u : i * u + n * u] += used[i] / n
    return out[:, : count * u], out[:, count * u :]


def run(c, x, b, ctx=None):
    mod = build(c, b=b)
    outs, state = [], None
    if c["start"] == "initial":
        state = mod.get_initial_state().to(x.dtype)
        same(
            state, torch.zeros(c["ch"], (c["n"] - 1) * c["u"]),
            "initial state",
        )
    elif c["dtype"] == "float64":
        state = mod.get_initial_state().double()
    for i in range(0, len(x), b):
        if c["fresh"]:
            mod = build(c, b=b)
        update = x[i : i + b].clone()
        before = None if state is None else state.clone()
        out, new = mod(update) if state is None else mod(update, state)
        same(update, x[i : i + b], "update after the call")
        if before is not None:
            same(state, before, "state after the call")
        check(
            tuple(out.shape) == (c["ch"], b * c["u"]),
            f"output shape {tuple(out.shape)}",
        )
        check(
            tuple(new.shape) == (c["ch"], (c["n"] - 1) * c["u"]),
            f"state shape {tuple(new.shape)}",
        )
        outs.append(out)
        state = new.to(x.dtype)
    return torch.cat(outs, -1), state


def windows(c):
    count = c["b"] * c["updates"]
    x = data(
        c["seed"], (count, c["ch"], c["size"]), c["kind"],
        np.dtype(c["dtype"]),
    )
    return torch.from_numpy(x)


@facet(cases(), quick=5000, thorough=100000, shards=6, large=120)
def stream_is_the_average_of_covering_windows(c, ctx):
    x = windows(c)
    got, state = run(c, x, c["b"])
    want, rest = stream_model(
        x.double().numpy(), c["u"], c["n"], c["offset"] or 0
    )
    ctx.label(
        f"offset {c['offset']}", f"average of {min(c['n'], 3)}",
        "batched" if c["b"] > 1 else "batch 1",
        "exact length" if c["size"] == c["n"] * c["u"] else "longer",
    )
    ctx.trivial(c["updates"] == 1 or c["n"] == 1)
    rtol = 1e-6 if c["dtype"] == "float32" else 1e-12
    scale = max(1.0, float(x.abs().max()))
    close(got, want, "stream", rtol=10 * rtol, scale=scale)
    close(state, rest, "state", rtol=10 * rtol, scale=scale)


@st.composite
def split_cases(draw):
    c = draw(cases())
    c["splits"] = draw(
        st.lists(st.integers(1, 4), min_size=1, max_size=4)
    )
    return c


@facet(split_cases(), quick=2000, thorough=40000, shards=2, large=120)
def delivery_does_not_matter(c, ctx):
    """One at a time, all at once, or in any mixture, with the state
    travelling between instances; channels never mix."""
    count = sum(c["splits"])
    x = torch.from_numpy(
        data(c["seed"], (count, c["ch"], c["size"]), c["kind"])
    )
    c["dtype"] = "float64"
    ctx.trivial(count == 1)
    one, s1 = run(c, x, 1)
    many, s2 = run(c, x, count)
    state = build(c).get_initial_state().double()
    outs, pos = [], 0
    for b in c["splits"]:
        out, state = build(c, b=b)(x[pos : pos + b], state)
        outs.append(out)
        state = state.double()
        pos += b
    mixed = torch.cat(outs, -1)
    scale = float(x.abs().max())
    close(many, one, "all at once", rtol=1e-12, scale=scale)
    close(mixed, one, f"as {c['splits']}", rtol=1e-12, scale=scale)
    close(s2, s1, "state, all at once", rtol=1e-12, scale=scale)
    close(state, s1, f"state, as {c['splits']}", rtol=1e-12, scale=scale)
    for k in range(c["ch"]):
        alone, _ = run(dict(c, ch=1), x[:, k : k + 1], count)
        close(alone[0], many[k], f"channel {k} alone", 1e-12, scale=scale)


@st.composite
def consistent_cases(draw):
    c = draw(cases())
    c["updates"] = draw(st.integers(1, 6)) + -(-c["n"] // c["b"])
    return c


@facet(consistent_cases(), quick=1000, thorough=20000)
def consistent_predictions_stream_unchanged(c, ctx):
    """Windows cut from one series: once full, the stream is that series,
    from n windows' worth before the used end of the first window on."""
    count = c["b"] * c["updates"]
    total = (count - 1) * c["u"] + c["size"]
    s = data(c["seed"], (c["ch"], total), c["kind"], np.dtype(c["dtype"]))
    x = np.stack(
        [s[:, i * c["u"] :][:, : c["size"]] for i in range(count)]
    )
    got, _ = run(c, torch.from_numpy(x), c["b"])
    begin = c["size"] - (c["offset"] or 0) - c["n"] * c["u"]
    fill = (c["n"] - 1) * c["u"]
    want = s[:, begin : begin + count * c["u"]]
    rtol = 2e-5 if c["dtype"] == "float32" else 1e-12
    scale = max(1.0, np.abs(s).max())
    close(
        got[:, fill:], want[:, fill:], "stream once full", rtol, scale=scale
    )


batches.independent(__name__, "OnlineAveragerModule")
arguments.ways(__name__, "online_averager")
histories.pure(__name__, "OnlineAveragerModule")
