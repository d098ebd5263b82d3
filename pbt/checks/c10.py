"""C10: the in-memory dataset yields exactly the windows it promises."""
import itertools

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, histories
from pbt.core import check, data, facet, fail, raises, same, upto

from ml4gw.dataloading import InMemoryDataset

RULE = (
    "A case is a series shape with distinct values and a dataset "
    "configuration, iterated one or more times (some passes abandoned part "
    "way). Non-trivial: more than one batch."
)
ASSUMPTIONS = ["series have at least one window"]


@st.composite
def cases(draw):
    size = draw(upto(1, 12, 200))
    stride = draw(upto(1, 8, 60))
    windows = draw(upto(1, 40, 700))
    left = draw(st.integers(0, stride - 1))
    batch = draw(upto(1, 12, 200))
    coincident = draw(st.booleans())
    limit = None
    if not coincident or draw(st.booleans()):
        if windows < batch:
            batch = draw(st.integers(1, windows))
        limit = draw(st.integers(1, windows // batch))
    return dict(
        ch=draw(upto(1, 4, 12)), size=size, stride=stride, windows=windows,
        n=(windows - 1) * stride + size + left, batch=batch, limit=limit,
        coincident=coincident, shuffle=draw(st.booleans()),
        y=coincident and draw(
            st.sampled_from([None, None, "float32", "float64", "int64"])
        ),
        array=draw(st.booleans()), default_stride=draw(st.booleans()),
        passes=draw(
            st.lists(st.one_of(st.none(), st.integers(0, 3)), min_size=1,
                     max_size=3)
        ),
        seed=draw(st.integers(0, 2**31)),
    )


@facet(cases(), quick=6000, thorough=100000, shards=6, large=120)
def epochs_hold_the_promised_windows(c, ctx):
    stride, size = c["stride"], c["size"]
    if c["default_stride"] and stride == 1:
        kw = {}
    else:
        kw = {"stride": stride}
    x = data(0, (c["ch"], c["n"]), "counter", np.float32)
    y = -np.arange(c["n"]) - 1
    if c["y"]:
        y = y.astype(c["y"])
        if c["y"] == "float64":
            y = y / 3
        kw["y"] = torch.from_numpy(y.copy())
    X = x.copy() if c["array"] else torch.from_numpy(x.copy())
    ds = InMemoryDataset(
        X, size, batch_size=c["batch"], batches_per_epoch=c["limit"],
        coincident=c["coincident"], shuffle=c["shuffle"], **kw,
    )
    torch.manual_seed(c["seed"])
    windows, batch = c["windows"], c["batch"]
    check(ds.num_kernels == windows, f"{ds.num_kernels} windows, not {windows}")
    total = windows if c["limit"] is None else batch * c["limit"]
    nbatch = -(-total // batch)
    check(len(ds) == nbatch, f"length {len(ds)}, expected {nbatch} batches")
    ctx.label(
        f"coincident {c['coincident']}", f"shuffle {c['shuffle']}",
        "limited" if c["limit"] else "whole series",
        "partial last batch" if total % batch else "full batches",
        "target" if c["y"] else "no target",
    )
    ctx.trivial(nbatch == 1)
    for stop in c["passes"]:
        seen, count = [], 0
        for i, out in enumerate(ds):
            if stop is not None and i >= stop:
                break
            count += 1
            if c["y"]:
                check(
                    isinstance(out, tuple) and len(out) == 2,
                    "no target was returned",
                )
                out, tgt = out
            want = min(batch, total - i * batch)
            check(
                tuple(out.shape) == (want, c["ch"], size),
                f"batch {i} has shape {tuple(out.shape)}, expected "
                f"{(want, c['ch'], size)}",
            )
            out = out.numpy()
            for r, kernel in enumerate(out):
                starts = []
                for k in range(c["ch"]):
                    s = int(kernel[k, 0]) - k * c["n"]
                    if (
                        s < 0 or s % stride or s // stride >= windows
                        or not np.array_equal(x[k, s : s + size], kernel[k])
                    ):
                        fail(
                            f"batch {i}, kernel {r}, channel {k} is not a "
                            f"window on the stride grid: {kernel[k][:4]}"
                        )
                    starts.append(s // stride)
                seen.append(tuple(starts))
            if c["y"]:
                same(
                    tgt,
                    np.stack([
                        y[s[0] * stride : s[0] * stride + size]
                        for s in seen[-want:]
                    ]),
                    f"target of batch {i}",
                )
        if stop is None or stop >= nbatch:
            check(count == nbatch, f"{count} batches, promised {nbatch}")
        if c["coincident"]:
            for s in seen:
                check(len(set(s)) == 1, f"channels start at {s}")
            flat = [s[0] for s in seen]
            check(
                len(set(flat)) == len(flat), f"windows drawn twice: {flat}"
            )
            if not c["shuffle"]:
                check(
                    flat == list(range(len(flat))), f"not in order: {flat}"
                )
            if c["limit"] is None and (stop is None or stop >= nbatch):
                check(
                    sorted(flat) == list(range(windows)),
                    f"windows visited: {sorted(flat)} of {windows}",
                )
        elif not c["shuffle"]:
            grid = itertools.product(range(windows), repeat=c["ch"])
            want = list(itertools.islice(grid, len(seen)))
            check(seen == want, f"order {seen[:6]}, expected {want[:6]}")


@st.composite
def random_cases(draw):
    return dict(
        windows=draw(st.integers(6, 14)), coincident=draw(st.booleans()),
        size=draw(st.integers(1, 4)), stride=draw(st.integers(1, 3)),
        ch=draw(upto(1, 3, 7)), batch=draw(st.sampled_from([1, 2, 4])),
        seed=draw(st.integers(0, 2**31)),
    )


@facet(random_cases(), quick=80, thorough=1500)
def shuffling_reaches_every_window(c, ctx):
    """Over 150 epochs every window is drawn, in more than one order, and
    channels draw independently when not coincident."""
    n = (c["windows"] - 1) * c["stride"] + c["size"]
    x = data(0, (c["ch"], n), "counter", np.float32)
    ds = InMemoryDataset(
        torch.from_numpy(x), c["size"], batch_size=c["batch"], stride=c["stride"],
        batches_per_epoch=4 // c["batch"], coincident=c["coincident"], shuffle=True,
    )
    torch.manual_seed(c["seed"])
    starts = np.array(
        [
            [(int(k[j, 0]) - j * n) // c["stride"] for j in range(c["ch"])]
            for _ in range(150) for b in ds for k in b.numpy()
        ]
    )
    for j in range(c["ch"]):
        missing = set(range(c["windows"])) - set(starts[:, j])
        check(not missing, f"channel {j} never draws windows {missing}")
    for a, b in itertools.combinations(range(c["ch"]), 2):
        differ = (starts[:, a] != starts[:, b]).any()
        check(
            differ != c["coincident"],
            f"channels {a} and {b} " + ("differ" if differ else "together"),
        )


@st.composite
def bad_cases(draw):
    return dict(
        kind=draw(
            st.sampled_from(["y length", "y apart", "no limit", "too many"])
        ),
        n=draw(st.integers(10, 40)), size=draw(st.integers(1, 5)),
        stride=draw(st.integers(1, 4)), d=draw(st.integers(1, 5)),
        batch=draw(st.integers(1, 9)), co=draw(st.booleans()),
    )


@facet(bad_cases(), quick=300, thorough=3000)
def inconsistent_requests_rejected(c, ctx):
    n, size = c["n"], c["size"]
    x = torch.randn(2, n)
    ctx.label(c["kind"])
    windows = (n - size) // c["stride"] + 1
    if c["kind"] == "y length":
        f = lambda: InMemoryDataset(x, size, y=torch.randn(n + c["d"]))  # noqa
    elif c["kind"] == "y apart":
        f = lambda: InMemoryDataset(  # noqa: E731
            x, size, y=torch.randn(n), coincident=False, batches_per_epoch=1,
            batch_size=1,
        )
    elif c["kind"] == "no limit":
        f = lambda: InMemoryDataset(x, size, coincident=False)  # noqa: E731
    else:
        limit = windows // c["batch"] + 1
        f = lambda: InMemoryDataset(  # noqa: E731
            x, size, batch_size=c["batch"], batches_per_epoch=limit,
            stride=c["stride"], coincident=c["co"],
        )
    raises(ValueError, f, c["kind"])


arguments.ways(__name__, "InMemory")
histories.pure(__name__, "in_memory")
