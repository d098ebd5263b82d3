"""C08: randomly sampled kernels are real windows obeying the offset rules."""
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, histories
from pbt.core import check, data, facet, fail, raises, same, upto

from ml4gw.utils.slicing import sample_kernels

RULE = (
    "A case is a series shape with distinct values, kernel size, number of "
    "kernels, centre offset, coincidence flag and random state. Non-trivial: "
    "more than one position is possible."
)
ASSUMPTIONS = [
    "the centre of a series of n samples is the boundary before sample "
    "n // 2; a kernel edge may lie on it",
    "whether the very last position can be drawn when no offset is given is "
    "left open (the existing tests fix that it is not)",
]


@st.composite
def cases(draw):
    n = draw(upto(1, 80, 5000))
    size = draw(st.one_of(st.integers(1, n), st.integers(1, max(1, n // 3))))
    rank = draw(st.sampled_from([1, 2, 2, 3]))
    return dict(
        n=n, size=size, rank=rank,
        b=draw(upto(1, 6, 150)), ch=draw(upto(1, 4, 20)),
        N=draw(st.one_of(upto(1, 12, 300), st.integers(0, 1))),
        give_n=draw(st.booleans()),
        offset=draw(
            st.one_of(
                st.none(), st.integers(-(size // 2) - 1, 0), st.integers(0, n)
            )
        ),
        coincident=draw(st.sampled_from([None, True, False])),
        idx=draw(st.sampled_from([None, True, False])),
        dtype=draw(st.sampled_from(["float32", "float64", "int64"])),
        seed=draw(st.integers(0, 2**31)),
    )


def bounds(n, size, offset):
    """Start positions that obey the rules, as (first, last) inclusive, or
    None if there are none."""
    centre = n // 2
    first, last = 0, n - size
    if offset is not None and offset >= 0:
        # the right edge reaches to within `offset` of the centre, the left
        # edge does not pass it
        first, last = max(first, centre - offset - size), min(last, centre)
    elif offset is not None:
        first = max(first, centre - offset - size)
        last = min(last, centre + offset)
    return None if last < first else (first, last)


def must_accept(n, size, offset):
    """Requests the function documents as possible."""
    if offset is None:
        return n >= size
    low = n // 2 - offset - size
    if offset >= 0:
        return low >= 0
    return low >= 0 and n // 2 + offset > low


def call(c):
    shape = {1: (c["n"],), 2: (c["ch"], c["n"]), 3: (c["b"], c["ch"], c["n"])}
    x = data(0, shape[c["rank"]], "counter", np.dtype(c["dtype"]))
    X = torch.from_numpy(x.copy())
    torch.manual_seed(c["seed"])
    kw = {}
    if c["rank"] < 3:
        kw["N"] = c["N"]
    elif c["give_n"]:
        kw["N"] = c["b"]
    if c["offset"] is not None:
        kw["max_center_offset"] = c["offset"]
    if c["coincident"] is not None:
        kw["coincident"] = c["coincident"]
    if c["idx"] is not None:
        kw["return_idx"] = c["idx"]
    out = sample_kernels(X, c["size"], **kw)
    same(X, x, "series after the call")
    return x, out, kw.get("N", c["b"])


def starts_of(c, x, out, N):
    """Check every kernel is a real window; return the start positions as an
    array (N,) or (N, channels)."""
    n, size = c["n"], c["size"]
    separate = c["rank"] == 2 and c["coincident"] is False
    idx = None
    if c["idx"]:
        check(isinstance(out, tuple) and len(out) == 2, "no indices returned")
        out, idx = out
        idx = idx.numpy()
    check(isinstance(out, torch.Tensor), "expected only the kernels")
    want = (N, size) if c["rank"] == 1 else (N, c["ch"], size)
    check(tuple(out.shape) == want, f"shape {tuple(out.shape)}, expected {want}")
    out = out.numpy()
    starts = np.zeros((N, c["ch"] if separate else 1), int)
    for r in range(N):
        rows = {1: lambda: [x], 2: lambda: list(x), 3: lambda: list(x[r])}[
            c["rank"]
        ]()
        kernels = [out[r]] if c["rank"] == 1 else list(out[r])
        found = []
        for k, (row, kernel) in enumerate(zip(rows, kernels)):
            s = int(round(float(kernel[0] - row[0])))
            if not (0 <= s <= n - size) or not np.array_equal(
                row[s : s + size], kernel
            ):
                fail(
                    f"kernel {r}, channel {k} is not a window of its series: "
                    f"{kernel[:5]}..."
                )
            found.append(s)
        if not separate:
            check(
                len(set(found)) == 1,
                f"kernel {r}: channels start at different samples {found}",
            )
            found = found[:1]
        starts[r] = found
    if idx is not None:
        same(idx, starts if separate else starts[:, 0], "returned indices")
    return starts


@facet(cases(), quick=8000, thorough=150000, shards=6, large=120)
def kernels_are_windows_within_bounds(c, ctx):
    n, size, offset = c["n"], c["size"], c["offset"]
    if c["rank"] == 1:
        offset = None  # documented to be ignored
    ok = must_accept(n, size, offset)
    ctx.label(
        f"rank {c['rank']}",
        "offset none" if offset is None else f"offset {np.sign(offset):+d}",
    )
    if not ok:
        allowed = bounds(n, size, offset)
        ctx.label("cannot be met" if allowed is None else "too tight")
        ctx.trivial()
        raises(
            ValueError, lambda: call(c),
            f"kernel {size} of {n} samples with centre offset {offset}",
        )
        return
    x, out, N = call(c)
    starts = starts_of(c, x, out, N)
    first, last = bounds(n, size, offset)
    if N == 0:
        ctx.trivial()
        return
    check(
        starts.min() >= first and starts.max() <= last,
        f"kernels of {size} from {n} samples with centre offset {offset} "
        f"start at {sorted(set(starts.ravel()))}, allowed [{first}, {last}]",
    )
    ctx.trivial(first == last)
    ctx.label("exact size" if n == size else "longer")


@st.composite
def cover_cases(draw):
    n = draw(st.integers(4, 24))
    c = dict(
        n=n, size=draw(st.integers(1, n)), rank=draw(st.sampled_from([1, 2, 3])),
        b=1500, ch=draw(st.integers(1, 3)), N=1500, give_n=False,
        offset=draw(st.one_of(st.none(), st.integers(-6, 8))),
        coincident=draw(st.sampled_from([True, False])), idx=True,
        dtype="float64", seed=draw(st.integers(0, 2**31)),
    )
    return c


@facet(cover_cases(), quick=250, thorough=5000, shards=2)
def every_position_is_drawn(c, ctx):
    """1500 draws over at most 24 positions: each is missed with probability
    below 1e-27."""
    n, size = c["n"], c["size"]
    offset = None if c["rank"] == 1 else c["offset"]
    if not must_accept(n, size, offset):
        ctx.trivial()
        return
    x, out, N = call(c)
    starts = starts_of(c, x, out, N)
    first, last = bounds(n, size, offset)
    last = max(last - 1, first)  # see ASSUMPTIONS
    missing = set(range(first, last + 1)) - set(starts.ravel())
    check(not missing, f"positions never drawn: {sorted(missing)}")
    if starts.shape[1] > 1 and last > first:
        check(
            (starts[:, 0] != starts[:, 1]).any(),
            "channels always share a start although not coincident",
        )
    if last > first:
        counts = np.array(
            [(starts[:, 0] == s).sum() for s in range(first, last + 1)]
        )
        mean = N / (last - first + 2)
        check(
            counts.max() < 6 * mean + 60,
            f"positions are not drawn uniformly: {counts}",
        )
    ctx.trivial(first == last)


@st.composite
def bad_cases(draw):
    return dict(
        kind=draw(st.sampled_from(["short", "no N", "wrong N", "rank"])),
        rank=draw(st.integers(1, 3)),
        b=draw(st.integers(1, 4)), n=draw(st.integers(2, 20)),
        d=draw(st.integers(1, 4)), offset=draw(st.sampled_from([None, 0])),
    )


@facet(bad_cases(), quick=300, thorough=3000)
def impossible_requests_rejected(c, ctx):
    b, n, d = c["b"], c["n"], c["d"]
    shape = [b, 2, n][3 - c["rank"] :]
    kind = c["kind"]
    ctx.label(kind)
    kw = dict(max_center_offset=c["offset"])
    if kind == "short":
        if c["rank"] < 3:
            kw["N"] = 3
        args = (torch.zeros(shape), n + d)
    elif kind == "no N":
        shape = [2, n][2 - min(c["rank"], 2) :]
        args = (torch.zeros(shape), 1)
    elif kind == "wrong N":
        kw["N"] = b + d
        args = (torch.zeros(b, 2, n), 1)
    else:
        kw["N"] = 1
        args = (torch.zeros(1, 1, 1, n), 1)
    raises(ValueError, lambda: sample_kernels(*args, **kw), kind)


arguments.ways(__name__, "sample_kernels", "sample_kernels_3d")
histories.pure(__name__, "sample_kernels")
