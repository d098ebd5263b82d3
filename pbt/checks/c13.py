"""C13: streaming snapshots equal windows of the whole stream."""
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.core import check, facet, raises, same, upto

from ml4gw.nn.streaming import Snapshotter

RULE = (
    "A case is a snapshotter configuration and a history of updates, with "
    "hand-overs between instances. The stream holds distinct values. "
    "Non-trivial: at least two updates."
)
ASSUMPTIONS = [
    "every update has the documented length batch_size * stride_size",
]


@st.composite
def configs(draw):
    size = draw(upto(2, 24, 500))
    stride = draw(st.integers(1, size - 1))
    groups = draw(
        st.one_of(st.none(), st.lists(st.integers(1, 3), min_size=1, max_size=3))
    )
    return dict(
        size=size, stride=stride, batch=draw(upto(1, 6, 80)),
        groups=groups,
        ch=sum(groups) if groups else draw(upto(1, 4, 12)),
    )


def build(c):
    args = (c["ch"], c["size"], c["stride"], c["batch"])
    if c["groups"] is not None:
        return Snapshotter(*args, channels_per_snapshot=list(c["groups"]))
    return Snapshotter(*args)


@st.composite
def cases(draw):
    c = draw(configs())
    n = draw(upto(1, 8, 30))
    c["start"] = draw(st.sampled_from(["omitted", "initial", "given"]))
    # per update: keep the instance, replace it, copy the state, or script
    c["ops"] = [
        draw(st.sampled_from(["keep", "keep", "fresh", "clone", "other"]))
        for _ in range(n)
    ]
    c["dtype"] = draw(st.sampled_from(["float32", "float64"]))
    return c


@facet(cases(), quick=5000, thorough=100000, shards=4, large=120)
def snapshots_are_windows_of_the_stream(c, ctx):
    size, stride, batch, ch = c["size"], c["stride"], c["batch"], c["ch"]
    step = stride * batch
    n = len(c["ops"])
    dtype = getattr(torch, c["dtype"])
    total = size - stride + n * step
    stream = torch.arange(1, ch * total + 1).reshape(ch, total).to(dtype) / 3
    if c["start"] != "given":
        stream[:, : size - stride] = 0
    state = stream[:, : size - stride].clone()
    mod = build(c)
    if c["start"] == "initial":
        got = mod.get_initial_state()
        same(got, torch.zeros(ch, size - stride), "initial state")
        state = got
    ctx.label(
        f"start {c['start']}", "grouped" if c["groups"] else "one group",
        "batch 1" if batch == 1 else "batched", f"{min(n, 4)} updates",
    )
    ctx.trivial(n == 1)
    other = build(c)
    for i, op in enumerate(c["ops"]):
        pos = size - stride + i * step
        update = stream[:, pos : pos + step].clone()
        before = state.clone()
        if op == "fresh":
            mod = build(c)
        elif op == "clone":
            state = state.clone()
        elif op == "other":  # an unrelated stream in between
            mod(update + 1e4, state + 7)
        if i == 0 and c["start"] == "omitted":
            out = mod(update)
        else:
            out = mod(update, state)
        same(update, stream[:, pos : pos + step], "update after the call")
        same(state, before, "state after the call")
        snaps, state = out[:-1], out[-1]
        groups = c["groups"] or [ch]
        check(
            len(snaps) == len(groups),
            f"{len(snaps)} snapshots for {len(groups)} groups",
        )
        first = 0
        for g, (width, snap) in enumerate(zip(groups, snaps)):
            rows = stream[first : first + width]
            want = torch.stack(
                [
                    rows[:, i * step + j * stride :][:, :size]
                    for j in range(batch)
                ]
            )
            same(snap, want, f"update {i}, group {g}")
            check(snap.dtype == dtype, f"dtype {snap.dtype}")
            first += width
        same(
            state, stream[:, (i + 1) * step :][:, : size - stride],
            f"state after update {i}",
        )


@st.composite
def regroup_cases(draw):
    c = draw(configs())
    c["batches"] = draw(st.lists(st.integers(1, 4), min_size=1, max_size=5))
    return c


@facet(regroup_cases(), quick=2000, thorough=40000, shards=2, large=120)
def update_size_does_not_matter(c, ctx):
    """The same stream fed with any mixture of batch sizes gives the same
    snapshots, the state travelling between the instances."""
    size, stride, ch = c["size"], c["stride"], c["ch"]
    count = sum(c["batches"])
    stream = torch.randn(ch, count * stride)
    ctx.trivial(len(c["batches"]) == 1)

    def run(batches):
        state, outs, pos = None, [], 0
        for b in batches:
            mod = build(dict(c, batch=b))
            up = stream[:, pos : pos + b * stride]
            pos += b * stride
            out = mod(up) if state is None else mod(up, state)
            outs.append(torch.cat(out[:-1], 1))
            state = out[-1]
        return torch.cat(outs), state

    a, sa = run(c["batches"])
    b, sb = run([1] * count)
    same(a, b, f"snapshots fed as {c['batches']} or one at a time")
    same(sa, sb, "final state")


@st.composite
def bad_cases(draw):
    c = draw(configs())
    c["kind"] = draw(
        st.sampled_from(["stride", "groups", "channels", "state"])
    )
    c["d"] = draw(st.integers(0, 4))
    return c


@facet(bad_cases(), quick=600, thorough=6000)
def inconsistent_use_rejected(c, ctx):
    ctx.label(c["kind"])
    size, stride, ch, d = c["size"], c["stride"], c["ch"], c["d"]
    if c["kind"] == "stride":
        raises(
            ValueError, lambda: Snapshotter(ch, size, size + d, 1),
            f"stride {size + d} for snapshots of {size}",
        )
    elif c["kind"] == "groups":
        raises(
            ValueError,
            lambda: Snapshotter(
                ch, size, stride, 1,
                channels_per_snapshot=[ch, d + 1] if d or ch < 2 else [ch - 1],
            ),
            "groups that do not add up",
        )
    else:
        mod = build(c)
        step = stride * c["batch"]
        if c["kind"] == "channels":
            fn = lambda: mod(torch.zeros(ch + d + 1, step))
        else:
            # both of the wrong channel count
            c["groups"] = c["groups"] or [ch]
            mod = build(c)
            fn = lambda: mod(
                torch.zeros(ch + d + 1, step),
                torch.zeros(ch + d + 1, size - stride),
            )
        raises((ValueError, RuntimeError), fn, "wrong number of channels")


@facet(configs(), quick=12, thorough=150, shards=2)
def scripted_module_agrees(c, ctx):
    """Snapshotters are exported for online inference: tracing one must not
    change what it computes."""
    mod = build(c)
    step = c["stride"] * c["batch"]
    a = torch.randn(c["ch"], step)
    s = torch.randn(c["ch"], c["size"] - c["stride"])
    traced = torch.jit.trace(mod, (a, s))
    x, y = torch.randn_like(a), torch.randn_like(s)
    for g, w in zip(traced(x, y), mod(x, y)):
        same(g, w, "traced module")


batches.independent(__name__, "SnapshotterModule")
arguments.ways(__name__, "snapshotter")
histories.pure(__name__, "SnapshotterModule")
