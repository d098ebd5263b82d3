"""C01: power spectra equal the one-sided Welch estimate."""
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.core import check, close, data, facet, raises, same, upto
from pbt.refs_spectral import make_window, welch_psd

from ml4gw.spectral import fast_spectral_density, spectral_density
from ml4gw.transforms import SpectralDensity

RULE = (
    "A case is a shape (1-3D), segment length, stride, leftover, window, "
    "sample rate, average, dtype, data kind and scale. Non-trivial: at least "
    "two segments or an odd segment length, and not all-zero data."
)
ASSUMPTIONS = [
    "windows are torch or SciPy windows of the segment length",
    "fast variant: agreement with per-segment mean removal is required from "
    "the third bin up only for Hann windows, whose spectrum vanishes beyond "
    "the first two bins; for any window it must equal the estimate with the "
    "mean of the whole series removed, as documented",
]

WINDOWS = ["hann", "hamming", "boxcar", "blackman", "tukey", "random"]
KINDS = ["normal", "offset", "impulse", "ramp", "tone", "uniform"]
SCALES = [1.0, 1e-3, 1e-21, 1e4]


@st.composite
def shapes(draw):
    return draw(
        st.one_of(
            st.just([]),
            st.lists(upto(1, 4, 40), min_size=1, max_size=1),
            st.lists(upto(1, 4, 40), min_size=2, max_size=2),
        )
    )


@st.composite
def cases(draw):
    nperseg = draw(upto(2, 64, 600))
    nstride = draw(st.integers(1, nperseg + 5))
    nseg = draw(upto(1, 12, 150))
    left = draw(st.integers(0, nstride - 1))
    return dict(
        shape=draw(shapes()) + [(nseg - 1) * nstride + nperseg + left],
        nperseg=nperseg,
        nstride=nstride,
        nseg=nseg,
        left=left,
        window=draw(st.sampled_from(WINDOWS)),
        wdtype=draw(st.sampled_from(["float32", "float64"])),
        fs=draw(st.sampled_from([1.0, 16.0, 100.0, 2048.0, 0.5, 4096.0])),
        average=draw(st.sampled_from(["mean", "median"])),
        dtype=draw(st.sampled_from(["float32", "float64"])),
        kind=draw(st.sampled_from(KINDS)),
        scale=draw(st.sampled_from(SCALES)),
        seed=draw(st.integers(0, 2**32 - 1)),
    )


def setup(c, ctx):
    x = data(c["seed"], c["shape"], c["kind"], np.dtype(c["dtype"]), c["scale"])
    w = make_window(c["window"], c["nperseg"], c["seed"]).astype(c["wdtype"])
    ctx.label(
        f"rank {len(c['shape'])}",
        "odd nperseg" if c["nperseg"] % 2 else "even nperseg",
        "leftover" if c["left"] else "exact fit",
        c["average"],
        "gap" if c["nstride"] > c["nperseg"] else "overlap",
        "one segment" if c["nseg"] == 1 else "several segments",
    )
    ctx.trivial(c["nseg"] == 1 and c["nperseg"] % 2 == 0)
    return x, w


def tolerances(c):
    # scale factors and the median bias may be single precision
    return 3e-5


@facet(cases(), quick=5000, thorough=100000, shards=4, large=120)
def exact_equals_welch(c, ctx):
    x, w = setup(c, ctx)
    X = torch.from_numpy(x.copy())
    W = torch.from_numpy(w.copy())
    scale = 1.0 / (c["fs"] * float((w.astype(np.float64) ** 2).sum()))
    got = spectral_density(
        X, c["nperseg"], c["nstride"], W, scale, average=c["average"]
    )
    want = welch_psd(x, c["nperseg"], c["nstride"], w, c["fs"], c["average"])
    close(
        got, want, "spectral_density", rtol=3e-5,
        atol=1e-11 * np.abs(x.astype(float)).max() ** 2,
    )
    same(X, x, "input after the call")
    same(W, w, "window after the call")


@facet(cases(), quick=5000, thorough=100000, shards=4, large=120)
def fast_equals_welch(c, ctx):
    x, w = setup(c, ctx)
    X = torch.from_numpy(x.copy())
    W = torch.from_numpy(w.copy())
    scale = 1.0 / (c["fs"] * float((w.astype(np.float64) ** 2).sum()))
    got = fast_spectral_density(
        X, c["nperseg"], c["nstride"], W, scale, average=c["average"]
    )
    args = (x, c["nperseg"], c["nstride"], w, c["fs"], c["average"])
    atol = 1e-10 * np.abs(x.astype(float)).max() ** 2
    close(
        got, welch_psd(*args, detrend="series"),
        "fast_spectral_density against the estimate with the series mean "
        "removed", rtol=3e-5, atol=atol,
    )
    if c["window"] == "hann" and c["wdtype"] == "float64":
        close(
            got[..., 2:], welch_psd(*args)[..., 2:],
            "fast_spectral_density from the third bin up", rtol=3e-5,
            atol=atol,
        )
    same(X, x, "input after the call")
    same(W, w, "window after the call")


@st.composite
def module_cases(draw):
    fs = draw(st.sampled_from([16, 64, 128, 256, 2048]))
    nperseg = draw(upto(4, 96, 600))
    noverlap = draw(st.one_of(st.none(), st.integers(0, nperseg - 1)))
    extra = draw(upto(0, 200, 4000))
    return dict(
        fs=fs,
        nperseg=nperseg,
        noverlap=noverlap,
        shape=draw(shapes()) + [nperseg + extra],
        average=draw(st.sampled_from([None, "mean", "median"])),
        window=draw(st.sampled_from([None] + WINDOWS)),
        fast=draw(st.sampled_from([None, False, True])),
        kind=draw(st.sampled_from(KINDS)),
        scale=draw(st.sampled_from(SCALES)),
        seed=draw(st.integers(0, 2**32 - 1)),
        dtype=draw(st.sampled_from(["float32", "float64"])),
        calls=draw(st.integers(1, 2)),
    )


@facet(module_cases(), quick=4000, thorough=80000, shards=2, large=120)
def module_equals_welch(c, ctx):
    fs, nperseg = c["fs"], c["nperseg"]
    kwargs = {}
    if c["noverlap"] is not None:
        kwargs["overlap"] = c["noverlap"] / fs
        nstride = nperseg - c["noverlap"]
    else:
        # half of the FFT length, in whole samples
        nstride = nperseg - nperseg // 2
    if c["average"]:
        kwargs["average"] = c["average"]
    if c["fast"] is not None:
        kwargs["fast"] = c["fast"]
    if c["window"]:
        w = make_window(c["window"], nperseg, c["seed"])
        kwargs["window"] = torch.from_numpy(w)
    else:
        w = make_window("hann", nperseg)
    sd = SpectralDensity(float(fs), nperseg / fs, **kwargs)
    ctx.label(
        "defaults" if not kwargs else "options",
        f"overlap {'default' if c['noverlap'] is None else 'given'}",
        f"fast {bool(c['fast'])}",
    )
    for i in range(c["calls"]):
        x = data(
            c["seed"] + i, c["shape"], c["kind"], np.dtype(c["dtype"]),
            c["scale"],
        )
        X = torch.from_numpy(x.copy())
        got = sd(X)
        want = welch_psd(
            x, nperseg, nstride, w, fs, c["average"] or "mean",
            "series" if c["fast"] else "segment",
        )
        # the default window is single precision
        close(
            got, want, "SpectralDensity", rtol=1e-4,
            atol=1e-8 * max(want.max(), 1e-300),
        )
        same(X, x, "input after the call")


@st.composite
def bad_cases(draw):
    nperseg = draw(st.integers(2, 64))
    kind = draw(
        st.sampled_from(
            ["short", "rank", "overlap", "window", "average", "module short"]
        )
    )
    return dict(
        kind=kind,
        nperseg=nperseg,
        n=draw(st.integers(1, nperseg - 1)),
        rank=draw(st.integers(1, 3)),
        over=draw(st.integers(0, 20)),
        wrong=draw(st.integers(1, 100).filter(lambda k: k != nperseg)),
        fast=draw(st.booleans()),
        average=draw(st.sampled_from(["max", "Mean", "", "mode", "median "])),
    )


@facet(bad_cases(), quick=500, thorough=5000)
def inconsistent_arguments_rejected(c, ctx):
    nperseg = c["nperseg"]
    f = fast_spectral_density if c["fast"] else spectral_density
    w = torch.hann_window(nperseg)
    kind = c["kind"]
    ctx.label(kind)
    if kind == "short":
        x = torch.randn([2] * (c["rank"] - 1) + [c["n"]])
        raises(ValueError, lambda: f(x, nperseg, 1, w, 1.0), "series shorter than a segment")
    elif kind == "rank":
        x = torch.randn(1, 2, 2, nperseg + 3)
        raises(ValueError, lambda: f(x, nperseg, 1, w, 1.0), "4D series")
    elif kind == "overlap":
        raises(
            ValueError,
            lambda: SpectralDensity(64, nperseg / 64, (nperseg + c["over"]) / 64),
            "overlap not shorter than the FFT length",
        )
    elif kind == "window":
        raises(
            ValueError,
            lambda: SpectralDensity(
                64, nperseg / 64, window=torch.ones(c["wrong"])
            ),
            "window of the wrong length",
        )
    elif kind == "average":
        raises(
            ValueError,
            lambda: SpectralDensity(64, nperseg / 64, average=c["average"]),
            "unknown average",
        )
    else:
        sd = SpectralDensity(64, nperseg / 64, fast=c["fast"])
        raises(ValueError, lambda: sd(torch.randn(c["n"])), "short series")


batches.independent(
    __name__, "spectral_density", "fast_spectral_density", "SpectralDensity",
)
arguments.ways(__name__, "spectral_density", "SpectralDensity", "median")
histories.pure(
    __name__, "spectral_density", "fast_spectral_density", "SpectralDensity",
    "median",
)
