"""C20: heterodyning applies exactly the chirp phase of each mass."""
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.core import check, close, data, facet, raises, same, upto

from ml4gw.transforms import Heterodyne

RULE = (
    "A case is a sample rate, length, list of chirp masses, return type and "
    "a batch of series. Non-trivial: at least two frequencies."
)
ASSUMPTIONS = [
    "the phase is the documented 3/128 (pi M f)^(-5/3), added to the signal; "
    "its rounding grows with its size, so components are compared up to a "
    "few units of single precision of the phase",
]
MTSUN = 4.925490947641266978197229498498379006e-6


@st.composite
def cases(draw):
    rate = draw(st.sampled_from([16, 64, 100.0, 512, 2048, 4096.0]))
    n = draw(st.one_of(st.integers(2, 70), upto(200, 400, 5000)))
    return dict(
        rate=rate, n=n,
        # the length need not be a whole number of samples
        part=draw(st.sampled_from([0, 0, 0, 0.25, 0.5, 0.875])),
        masses=draw(
            st.lists(st.floats(0.5, 80, width=32), min_size=1, max_size=4)
        ),
        mdtype=draw(st.sampled_from(["float32", "float64"])),
        b=draw(upto(1, 3, 40)), ch=draw(upto(1, 3, 12)),
        kind=draw(st.sampled_from(["normal", "offset", "tone", "impulse"])),
        scale=draw(st.sampled_from([1.0, 1e-3, 1e3])),
        dtype=draw(st.sampled_from(["float32", "float64"])),
        type=draw(st.sampled_from(["time", "freq", "both"])),
        seed=draw(st.integers(0, 2**31)),
    )


def build(c, **over):
    c = dict(c, **over)
    masses = torch.tensor(c["masses"], dtype=getattr(torch, c["mdtype"]))
    length = (c["n"] + c["part"]) / c["rate"]
    if int(length * c["rate"]) != c["n"]:
        length = np.nextafter(length, np.inf)
    return Heterodyne(c["rate"], length, masses, c["type"])


def phase(c):
    f = np.fft.rfftfreq(c["n"], 1 / c["rate"])
    m = np.array(c["masses"], np.float64)[:, None] * MTSUN
    with np.errstate(divide="ignore"):
        p = 3 / 128 * (np.pi * m * f) ** (-5 / 3)
    p[:, 0] = 0
    return p


def reference(c, x):
    p = phase(c)
    X = np.fft.rfft(x.astype(np.float64), axis=-1) / c["rate"]
    H = X[:, :, None] * np.exp(1j * p)
    H[..., 0] = 0
    t = np.fft.irfft(H, n=c["n"], axis=-1) * c["rate"]
    # absolute errors of the components from rounding the phase
    err = np.abs(X)[:, :, None] * np.minimum(2, 8 * 1.2e-7 * p)
    return H, t, err


def split(c, out):
    """(time, freq), None where not returned."""
    if c["type"] == "both":
        check(
            isinstance(out, tuple) and len(out) == 2,
            "both domains should be returned as a pair",
        )
        return out
    check(isinstance(out, torch.Tensor), f"returned {type(out)}")
    return (out, None) if c["type"] == "time" else (None, out)


@facet(cases(), quick=4000, thorough=80000, shards=4, large=120)
def phase_of_each_mass_is_applied(c, ctx):
    x = data(
        c["seed"], (c["b"], c["ch"], c["n"]), c["kind"],
        np.dtype(c["dtype"]), c["scale"],
    )
    X = torch.from_numpy(x.copy())
    mod = build(c)
    out = mod(X)
    again = mod(X)
    same(X, x, "input after the call")
    t, f = split(c, out)
    ctx.label("part of a sample" if c["part"] else "whole samples")
    ctx.label(c["type"], "odd" if c["n"] % 2 else "even", c["dtype"])
    ctx.trivial(c["n"] < 4)
    wf, wt, err = reference(c, x)
    eps = 1e-6 if c["dtype"] == "float32" else 1e-12
    if c["mdtype"] == "float32":
        eps = 1e-6
    size = np.abs(wf).max() + np.abs(x).max() * len(x[0, 0]) / c["rate"] * 0.1
    if f is not None:
        # scale by tolerance so that every bin has its own
        tol = 5 * eps * size + err
        close(f, wf, f"spectrum for {c['masses']}", rtol=1, scale=tol)
        close(
            f.abs()[..., 1:],
            np.broadcast_to(
                np.abs(np.fft.rfft(x.astype(np.float64)))[:, :, None, 1:]
                / c["rate"],
                f[..., 1:].shape,
            ),
            "magnitude", rtol=5 * eps, scale=size,
        )
        check(not f[..., 0].abs().any(), "zero frequency is not removed")
    if t is not None:
        tol = 10 * eps * size * c["rate"] + 2 * err.sum(-1) / c["n"] * c["rate"]
        close(
            t, wt, f"series for {c['masses']}", rtol=1, scale=tol[..., None]
        )
    for a, b in zip(split(c, again), (t, f)):
        if a is not None:
            same(a, b, "second call")


@facet(cases(), quick=1000, thorough=20000, shards=2)
def domains_and_masses_agree(c, ctx):
    """The time series is the inverse transform of the spectrum, and each
    mass, channel and batch element stands alone."""
    x = data(
        c["seed"], (c["b"], c["ch"], c["n"]), c["kind"],
        np.dtype(c["dtype"]), c["scale"],
    )
    X = torch.from_numpy(x)
    t, f = build(c, type="both")(X)
    close(build(c, type="time")(X), t, "time alone", scale="max")
    close(build(c, type="freq")(X), f, "spectrum alone", scale="max")
    back = np.fft.irfft(f.numpy().astype(complex), n=c["n"]) * c["rate"]
    close(t, back, "inverse of the spectrum", rtol=1e-5, scale="max")
    ctx.trivial(len(c["masses"]) == 1)
    err = reference(c, x)[2]
    for i, m in enumerate(c["masses"]):
        alone = build(c, type="freq", masses=[m])(X)
        tol = 1e-5 * float(f.abs().max()) + err[:, :, i]
        close(alone[:, :, 0], f[:, :, i], f"mass {m} alone", 1, scale=tol)
    for b in range(c["b"]):
        for k in range(c["ch"]):
            one = build(c, type="freq")(X[b : b + 1, k : k + 1])
            close(one[0, 0], f[b, k], "element alone", rtol=1e-5, scale="max")


@facet(
    st.fixed_dictionaries(
        {"word": st.sampled_from(["timeseries", "", "Time", "frequency"])}
    ),
    quick=20, thorough=50,
)
def unknown_return_types_rejected(c, ctx):
    raises(
        ValueError,
        lambda: Heterodyne(16, 1, torch.tensor([1.0]), c["word"]),
        f"return_type={c['word']!r}",
    )


batches.independent(__name__, "Heterodyne")
arguments.ways(__name__, "heterodyne")
histories.pure(__name__, "Heterodyne")
