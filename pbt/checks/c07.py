"""C07: windows cut from a time series hold exactly the right samples."""
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.core import check, data, facet, raises, same, upto

from ml4gw.utils.slicing import slice_kernels, unfold_windows

RULE = (
    "A case is a shape (1-3D) with distinct sample values, a window size and "
    "stride, or an index array. Non-trivial: more than one window or a "
    "leftover; more than one kernel or channel."
)


@st.composite
def lead(draw):
    return draw(st.lists(upto(1, 5, 40), max_size=2))


@st.composite
def unfold_cases(draw):
    size = draw(upto(1, 40, 700))
    stride = draw(upto(1, 50, 300))
    windows = draw(upto(1, 15, 130))
    left = draw(st.integers(0, stride - 1))
    return dict(
        lead=draw(lead()), size=size, stride=stride, windows=windows,
        left=left, drop=draw(st.sampled_from([None, True, False])),
        dtype=draw(st.sampled_from(["float32", "float64"])),
        view=draw(st.booleans()),
    )


def make(shape, dtype, view):
    """Distinct values; optionally a non-contiguous view."""
    x = data(0, shape, "counter", np.dtype(dtype))
    if view and len(shape) > 1:
        base = np.ascontiguousarray(np.moveaxis(x, -1, 0))
        return x, torch.from_numpy(base).movedim(0, -1)
    if view:
        base = np.zeros((2 * shape[0],), x.dtype)
        base[::2] = x
        return x, torch.from_numpy(base)[::2]
    return x, torch.from_numpy(x.copy())


@facet(unfold_cases(), quick=8000, thorough=150000, shards=4, large=120)
def unfolded_windows_are_exact(c, ctx):
    n = (c["windows"] - 1) * c["stride"] + c["size"] + c["left"]
    x, X = make(tuple(c["lead"]) + (n,), c["dtype"], c["view"])
    want = np.stack(
        [
            x[..., i * c["stride"] : i * c["stride"] + c["size"]]
            for i in range(c["windows"])
        ]
    )
    ctx.label(
        f"rank {x.ndim}", "leftover" if c["left"] else "exact fit",
        "one window" if c["windows"] == 1 else "windows",
        "gap" if c["stride"] > c["size"] else "overlap",
    )
    ctx.trivial(c["windows"] == 1 and c["left"] == 0)
    kw = {} if c["drop"] is None else {"drop_last": c["drop"]}
    out = unfold_windows(X, c["size"], c["stride"], **kw)
    if c["drop"] is False:
        check(
            isinstance(out, tuple) and len(out) == 2,
            "drop_last=False did not return windows and remainder",
        )
        out, rest = out
        same(rest, x[None, ..., n - c["left"] :], "remainder")
    else:
        check(isinstance(out, torch.Tensor), "expected only the windows")
    same(out, want, "windows")
    same(X, x, "series after the call")


@st.composite
def slice_cases(draw):
    kind = draw(st.sampled_from(["1/1", "2/1", "2/2", "3/1"]))
    n = draw(upto(1, 60, 3000))
    size = draw(st.integers(1, n))
    b, ch = draw(upto(1, 5, 150)), draw(upto(1, 4, 20))
    if kind != "3/1" and draw(st.integers(0, 15)) == 0:
        b = 0
    count = b * (ch if kind == "2/2" else 1)
    start = st.one_of(
        st.integers(0, n - size), st.sampled_from([0, n - size])
    )
    return dict(
        kind=kind, n=n, size=size, b=b, ch=ch,
        idx=[draw(start) for _ in range(count)],
        dtype=draw(st.sampled_from(["float32", "float64", "int64"])),
        view=draw(st.booleans()),
    )


@facet(slice_cases(), quick=8000, thorough=150000, shards=4, large=120)
def sliced_kernels_are_exact(c, ctx):
    b, ch, n, size = c["b"], c["ch"], c["n"], c["size"]
    shape = {"1": (n,), "2": (ch, n), "3": (b, ch, n)}[c["kind"][0]]
    x, X = make(shape, c["dtype"], c["view"])
    idx = np.array(c["idx"], np.int64)
    if b == 0:
        want = np.zeros((0,) + shape[:-1] + (size,), x.dtype)
        idx = idx.reshape((0, ch) if c["kind"] == "2/2" else (0,))
    elif c["kind"] == "1/1":
        want = np.stack([x[i : i + size] for i in idx])
    elif c["kind"] == "2/1":
        want = np.stack([x[:, i : i + size] for i in idx])
    elif c["kind"] == "2/2":
        idx = idx.reshape(b, ch)
        want = np.stack(
            [
                np.stack([x[k, i : i + size] for k, i in enumerate(row)])
                for row in idx
            ]
        )
    else:
        want = np.stack([x[r, :, i : i + size] for r, i in enumerate(idx)])
    ctx.label(c["kind"])
    ctx.trivial(b < 2 and ch == 1)
    I = torch.from_numpy(idx.copy())
    same(slice_kernels(X, I, size), want, f"kernels ({c['kind']})")
    same(X, x, "series after the call")
    same(I, idx, "indices after the call")


@st.composite
def outside_cases(draw):
    c = draw(slice_cases().filter(lambda c: c["b"]))
    c["which"] = draw(st.integers(0, len(c["idx"]) - 1))
    if c["size"] > 1 and draw(st.booleans()):
        c["start"] = -draw(st.integers(1, c["size"] - 1))
    else:
        c["start"] = c["n"] - c["size"] + draw(
            st.one_of(st.integers(1, c["size"]), st.integers(1, 2 * c["n"]))
        )
    return c


@facet(outside_cases(), quick=1500, thorough=20000)
def windows_past_an_end_rejected(c, ctx):
    """One window would run past the end, or start before the beginning."""
    b, ch, n, size = c["b"], c["ch"], c["n"], c["size"]
    shape = {"1": (n,), "2": (ch, n), "3": (b, ch, n)}[c["kind"][0]]
    _, X = make(shape, c["dtype"], c["view"])
    idx = np.array(c["idx"], np.int64)
    idx[c["which"]] = c["start"]
    if c["kind"] == "2/2":
        idx = idx.reshape(b, ch)
    ctx.label(c["kind"])
    raises(
        (IndexError, ValueError, RuntimeError),
        lambda: slice_kernels(X, torch.from_numpy(idx), size),
        f"start {c['start']} of a window of {size} in {n} samples",
    )


@st.composite
def bad_cases(draw):
    return dict(
        kind=draw(st.sampled_from(["1/2", "1/0", "2/3", "2/2", "3/2", "3/1", "4/1"])),
        b=draw(st.integers(1, 4)), ch=draw(st.integers(1, 4)),
        d=draw(st.integers(1, 3)), n=draw(st.integers(2, 20)),
        down=draw(st.booleans()),
    )


@facet(bad_cases(), quick=400, thorough=4000)
def mismatched_indices_rejected(c, ctx):
    b, ch, n, kind = c["b"], c["ch"], c["n"], c["kind"]
    shape = {"1": (n,), "2": (ch, n), "3": (b, ch, n), "4": (1, b, ch, n)}[kind[0]]
    d = c["d"]
    if kind == "1/2":
        idx = (b, d)
    elif kind == "1/0":
        idx = ()
    elif kind == "2/3":
        idx = (b, ch, d)
    elif kind == "2/2":
        other = ch - d if c["down"] and ch > d else ch + d
        idx = (b, other)
    elif kind == "3/2":
        idx = (b, ch)
    elif kind == "3/1":
        other = b - d if c["down"] and b > d else b + d
        idx = (other,)
    else:
        idx = (1,)
    ctx.label(kind)
    raises(
        ValueError,
        lambda: slice_kernels(
            torch.zeros(shape), torch.zeros(idx, dtype=torch.int64), 1
        ),
        f"indices {idx} for series {shape}",
    )


batches.independent(__name__, "slice_kernels", "unfold_windows")
arguments.ways(__name__, "slice_kernels", "unfold_windows")
histories.pure(__name__, "slice_kernels", "unfold_windows")
