"""C17: shifted Pearson correlation equals the textbook coefficient."""
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.core import check, close, data, facet, raises, same, upto

from ml4gw.transforms import ShiftedPearsonCorrelation

RULE = (
    "A case is a pair of series shapes and contents, scales and a maximum "
    "shift. Non-trivial: at least one shift and series longer than two."
)
ASSUMPTIONS = [
    "no series is constant after shifting (the coefficient is then 0/0)",
    "single-precision series have scales between 1e-15 and 1e15",
]


@st.composite
def cases(draw):
    n = draw(upto(3, 60, 900))
    xr = draw(st.integers(1, 3))
    return dict(
        n=n, xr=xr, yr=draw(st.integers(1, xr)),
        b=draw(upto(1, 4, 40)), ch=draw(upto(1, 3, 12)),
        shift=draw(st.one_of(st.integers(0, min(90, max(0, n - 3))), st.integers(0, 3))),
        kx=draw(st.sampled_from(["normal", "offset", "tone", "ramp"])),
        ky=draw(st.sampled_from(["normal", "offset", "tone", "ramp"])),
        sx=draw(st.sampled_from([1.0, 1.0, 1e-12, 1e12, 1e-21])),
        sy=draw(st.sampled_from([1.0, 1.0, 1e-12, 1e12, 1e-21])),
        dtype=draw(st.sampled_from(["float32", "float64"])),
        seed=draw(st.integers(0, 2**31)),
    )


def fix(c):
    # a shifted series must keep at least three samples
    c["shift"] = min(c["shift"], c["n"] - 3)
    if c["dtype"] == "float32":
        c["sx"] = max(c["sx"], 1e-12)
        c["sy"] = max(c["sy"], 1e-12)
    return c


def series(c):
    shape = [c["b"], c["ch"], c["n"]]
    dt = np.dtype(c["dtype"])
    x = data(c["seed"], shape[3 - c["xr"] :], c["kx"], dt, c["sx"])
    y = data(c["seed"] + 1, shape[3 - c["yr"] :], c["ky"], dt, c["sy"])
    return x, y


def reference(x, y, shift):
    """Shift first; entry i holds x delayed by shift - i samples."""
    x, y = x.astype(np.float64), y.astype(np.float64)
    n = x.shape[-1]
    y = np.broadcast_to(y, x.shape)
    out = np.zeros((2 * shift + 1,) + x.shape[:-1])
    for i in range(2 * shift + 1):
        delay = shift - i
        z = np.zeros_like(x)
        if delay >= 0:
            z[..., delay:] = x[..., : n - delay]
        else:
            z[..., :delay] = x[..., -delay:]
        a = z - z.mean(-1, keepdims=True)
        b = y - y.mean(-1, keepdims=True)
        a = a / np.abs(a).max(-1, keepdims=True)
        b = b / np.abs(b).max(-1, keepdims=True)
        out[i] = (a * b).sum(-1) / np.sqrt((a**2).sum(-1) * (b**2).sum(-1))
    return out


def tol(c, *arrays):
    """Removing the mean loses digits in proportion to mean over spread."""
    eps = 1e-6 if c["dtype"] == "float32" else 1e-14
    worst = 1.0
    for a in arrays:
        a = a.astype(np.float64)
        worst = max(
            worst, float((np.abs(a).max(-1) / a.std(-1)).max())
        )
    return 20 * eps * worst


@facet(cases(), quick=5000, thorough=100000, shards=4, large=120)
def coefficients_for_every_shift(c, ctx):
    c = fix(c)
    x, y = series(c)
    X, Y = torch.from_numpy(x.copy()), torch.from_numpy(y.copy())
    got = ShiftedPearsonCorrelation(c["shift"])(X, Y)
    same(X, x, "first series after the call")
    same(Y, y, "second series after the call")
    ctx.label(f"{c['xr']}D/{c['yr']}D", c["dtype"],
              "shifts" if c["shift"] else "no shift")
    ctx.trivial(c["shift"] == 0)
    want = reference(x, y, c["shift"])
    t = tol(c, x, y)
    close(got, want, f"coefficients of {x.shape} and {y.shape}", rtol=0, atol=t)
    check(
        float(got.abs().max()) <= 1 + t,
        f"coefficient {float(got.abs().max())} beyond 1",
    )


@st.composite
def meta_cases(draw):
    c = draw(cases())
    c["gain"] = draw(st.sampled_from([1e-3, 0.5, 3.0, 100.0, -2.0]))
    c["offset"] = draw(st.floats(-3, 3))
    c["delay"] = draw(st.integers(-6, 6))
    return c


@facet(meta_cases(), quick=2000, thorough=40000, shards=2)
def invariances(c, ctx):
    c = fix(c)
    c["sx"] = c["sy"] = 1.0
    x, y = series(c)
    f = lambda a, b: ShiftedPearsonCorrelation(c["shift"])(
        torch.from_numpy(a.copy()), torch.from_numpy(b.copy())
    ).numpy()
    base = f(x, y)
    y2 = (y * c["gain"] + c["offset"]).astype(y.dtype)
    t = tol(c, x, y, y2)
    close(
        f(x, y2), np.sign(c["gain"]) * base, "scaled and offset reference",
        rtol=0, atol=2 * t,
    )
    close(
        f((x * c["gain"]).astype(x.dtype), y), np.sign(c["gain"]) * base,
        "scaled series", rtol=0, atol=2 * t,
    )
    # a reference that is the series delayed: the peak sits at that shift
    d = c["delay"]
    if abs(d) <= c["shift"] and c["n"] > 3 * abs(d) + 8:
        z = np.zeros_like(x)
        if d >= 0:
            z[..., d:] = x[..., : c["n"] - d]
        else:
            z[..., :d] = x[..., -d:]
        peak = f(x, z)[c["shift"] - d]
        close(peak, np.ones_like(peak), f"at the true delay {d}", rtol=0, atol=t)
        ctx.label("delay")
    if c["xr"] == c["yr"]:
        close(
            f(x, y)[c["shift"]], f(y, x)[c["shift"]], "symmetry at no shift",
            rtol=0, atol=t,
        )


@st.composite
def bad_cases(draw):
    return dict(
        kind=draw(st.sampled_from(["rank", "more", "size", "4d"])),
        b=draw(st.integers(2, 4)), ch=draw(st.integers(2, 4)),
        n=draw(st.integers(5, 20)), d=draw(st.integers(1, 3)),
        axis=draw(st.integers(0, 2)), xr=draw(st.integers(1, 3)),
    )


@facet(bad_cases(), quick=300, thorough=3000)
def incompatible_shapes_rejected(c, ctx):
    shape = [c["b"], c["ch"], c["n"]]
    x = shape[3 - c["xr"] :]
    ctx.label(c["kind"])
    if c["kind"] in ("rank", "more"):
        y = [2] * c["d"] + x
    elif c["kind"] == "4d":
        x, y = [2] + shape, shape[1:]
    else:
        y = list(x)
        y[c["axis"] % len(y)] += c["d"]
    raises(
        ValueError,
        lambda: ShiftedPearsonCorrelation(1)(torch.zeros(x), torch.zeros(y)),
        f"shapes {x} and {y}",
    )


batches.independent(__name__, "ShiftedPearsonCorrelation")
arguments.ways(__name__, "pearson")
histories.pure(__name__, "ShiftedPearsonCorrelation")
