"""C11: the chunked dataset draws true windows from each chunk in turn."""
import itertools

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments
from pbt.core import check, fail, facet, raises, same, upto

from ml4gw.dataloading import ChunkedTimeSeriesDataset

RULE = (
    "A case is a sequence of chunk shapes filled with distinct values, a "
    "kernel size, batch size, batches per chunk, coincidence flag and random "
    "state. Non-trivial: some chunk offers more than one window."
)
ASSUMPTIONS = [
    "the number of channels is the same in all chunks, as documented",
    "whether the very last position of a series can be drawn is left open "
    "(as for the other samplers of the package)",
]


@st.composite
def cases(draw):
    k = draw(upto(1, 12, 200))
    count = draw(upto(1, 5, 12))
    same_size = draw(st.booleans())
    first = draw(upto(k, k + 20, k + 2000))
    chunks = []
    for _ in range(count):
        t = first if same_size else draw(upto(k, k + 20, k + 2000))
        chunks.append([draw(upto(1, 4, 40)), t])
    return dict(
        k=k, chunks=chunks, ch=draw(st.integers(1, 4)),
        batch=draw(upto(1, 8, 150)), per=draw(upto(1, 4, 15)),
        coincident=draw(st.sampled_from([None, True, False])),
        dtype=draw(st.sampled_from(["float32", "float64", "int64"])),
        source=draw(st.sampled_from(["list", "generator", "loader"])),
        epochs=draw(st.integers(1, 2)),
        seed=draw(st.integers(0, 2**31)),
    )


def build(c):
    out, start = [], 0
    for n, t in c["chunks"]:
        size = n * c["ch"] * t
        x = torch.arange(start, start + size).reshape(n, c["ch"], t)
        out.append(x.to(getattr(torch, c["dtype"])))
        start += size
    return out


def locate(chunk, kernel):
    """(row, channel, time) of each kernel of a batch, from its first value,
    after checking that the rest of the kernel follows in that series."""
    base = int(chunk.reshape(-1)[0])
    n, ch, t = chunk.shape
    k = kernel.shape[-1]
    first = kernel[..., 0].astype(np.int64) - base
    if first.min() < 0 or first.max() >= n * ch * t:
        fail("a window holds values of another chunk")
    time = first % t
    if time.max() > t - k:
        fail("a window runs over the end of its series")
    want = kernel[..., :1] + np.arange(k)
    if not np.array_equal(kernel, want):
        fail("a window is not contiguous")
    channel = (first // t) % ch
    if not np.array_equal(
        channel, np.broadcast_to(np.arange(ch), channel.shape)
    ):
        fail(f"channels are mixed up: {channel.tolist()}")
    return first // (t * ch), time


def kwargs(c):
    kw = dict(
        kernel_size=c["k"], batch_size=c["batch"], batches_per_chunk=c["per"]
    )
    if c["coincident"] is not None:
        kw["coincident"] = c["coincident"]
    return kw


@facet(cases(), quick=4000, thorough=80000, shards=4, large=120)
def windows_of_each_chunk_in_turn(c, ctx):
    chunks = build(c)
    copies = [x.clone() for x in chunks]
    source = chunks if c["source"] != "generator" else (x for x in chunks)
    epochs = c["epochs"] if c["source"] != "generator" else 1
    if c["source"] == "loader":
        source = torch.utils.data.DataLoader(chunks, batch_size=None)
    ds = ChunkedTimeSeriesDataset(source, **kwargs(c))
    sizes = {t for _, t in c["chunks"]}
    ctx.label(
        "one size" if len(sizes) == 1 else "sizes differ",
        "coincident" if c["coincident"] is not False else "independent",
        "exact fit" if c["k"] in sizes else "slack",
    )
    ctx.trivial(all(t == c["k"] and n == 1 for n, t in c["chunks"]))
    if c["source"] != "generator":
        check(len(ds) == len(chunks) * c["per"], f"length {len(ds)}")
    torch.manual_seed(c["seed"])
    for _ in range(epochs):
        batches = list(ds)
        check(
            len(batches) == len(chunks) * c["per"],
            f"{len(batches)} batches from {len(chunks)} chunks, "
            f"{c['per']} each",
        )
        for i, x in enumerate(batches):
            chunk = copies[i // c["per"]]
            check(
                tuple(x.shape) == (c["batch"], c["ch"], c["k"]),
                f"batch {i} has shape {tuple(x.shape)}",
            )
            check(x.dtype == chunk.dtype, f"batch {i} has dtype {x.dtype}")
            rows, times = locate(chunk.numpy(), x.numpy())
            if c["coincident"] is not False:
                check(
                    (rows == rows[:, :1]).all()
                    and (times == times[:, :1]).all(),
                    f"batch {i}: channels come from different windows",
                )
    for x, y in zip(chunks, copies):
        same(x, y, "chunk after iterating")


@st.composite
def cover_cases(draw):
    k = draw(st.integers(1, 6))
    return dict(
        k=k,
        chunks=[
            [draw(st.integers(1, 3)), draw(st.integers(k, k + 8))]
            for _ in range(draw(st.integers(1, 3)))
        ],
        ch=draw(upto(1, 3, 8)), batch=(batch := draw(st.sampled_from([1500, 300, 2, 1]))),
        per=1500 // batch, coincident=draw(st.booleans()), dtype="int64",
        seed=draw(st.integers(0, 2**31)),
    )


@facet(cover_cases(), quick=200, thorough=4000, shards=2)
def every_window_is_drawn(c, ctx):
    """At most 27 windows, 1500 draws: each is missed with probability below
    1e-24; counts stay within wide bounds of uniform."""
    chunks = build(c)
    ds = ChunkedTimeSeriesDataset(chunks, **kwargs(c))
    torch.manual_seed(c["seed"])
    ctx.trivial(all(t == c["k"] and n == 1 for n, t in c["chunks"]))
    it = iter(ds)
    for chunk in chunks:
        x = torch.cat([next(it) for _ in range(c["per"])])
        rows, times = locate(chunk.numpy(), x.numpy())
        n, _, t = chunk.shape
        last = max(t - c["k"] - 1, 0)
        for ch in range(c["ch"]):
            counts = np.zeros((n, t - c["k"] + 1), int)
            np.add.at(counts, (rows[:, ch], times[:, ch]), 1)
            main = counts[:, : last + 1]
            check(main.min() > 0, f"windows never drawn: {counts.tolist()}")
            mean = 1500 / main.size
            check(
                main.max() < mean + 8 * mean**0.5 + 8,
                f"windows are not drawn uniformly: {counts.tolist()}",
            )
        for a, b in itertools.combinations(range(c["ch"]), 2):
            if c["coincident"]:
                break
            if n > 1:
                check(
                    (rows[:, a] != rows[:, b]).any(),
                    f"channels {a} and {b} always share a row although not "
                    "coincident",
                )
            if last > 0:
                check(
                    (times[:, a] != times[:, b]).any(),
                    f"channels {a} and {b} always share a start although not "
                    "coincident",
                )


@st.composite
def bad_cases(draw):
    k = draw(st.integers(2, 10))
    good = draw(st.integers(0, 3))
    return dict(
        k=k, ch=draw(st.integers(1, 3)),
        chunks=[[2, k + draw(st.integers(0, 4))] for _ in range(good)]
        + [[draw(st.integers(1, 3)), draw(st.integers(1, k - 1))]],
        batch=draw(st.integers(1, 4)), per=draw(st.integers(1, 3)),
        coincident=draw(st.booleans()), dtype="float32", good=good,
    )


@facet(bad_cases(), quick=500, thorough=5000)
def short_chunks_rejected(c, ctx):
    """A chunk shorter than a kernel is rejected when it is reached, after
    the batches of the chunks before it."""
    ds = ChunkedTimeSeriesDataset(build(c), **kwargs(c))
    it = iter(ds)
    ctx.label("first chunk" if not c["good"] else "later chunk")
    for i in range(c["good"] * c["per"]):
        next(it)
    raises(
        ValueError, lambda: next(it),
        f"kernel of {c['k']} from chunks {c['chunks']}",
    )


arguments.ways(__name__, "Chunked")
