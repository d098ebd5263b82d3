"""C02: cross-spectral densities equal the Welch cross-spectrum."""
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.core import close, data, facet, raises, same, upto
from pbt.refs_spectral import make_window, welch_csd

from ml4gw.spectral import fast_spectral_density
from ml4gw.transforms import SpectralDensity

RULE = (
    "A case is a pair of series with one of the accepted shape combinations, "
    "a segment length, stride, window, average, dtypes, data and scale. "
    "Non-trivial: the two series differ and at least two segments or more "
    "than one channel are involved."
)
ASSUMPTIONS = [
    "the median of a cross-spectrum is taken over real and imaginary parts "
    "separately, as in SciPy",
]
WINDOWS = ["hann", "hamming", "boxcar", "tukey", "random"]
KINDS = ["normal", "offset", "tone", "ramp", "uniform"]


@st.composite
def cases(draw):
    nperseg = draw(upto(2, 48, 500))
    nstride = draw(st.integers(1, nperseg))
    nseg = draw(upto(1, 9, 120))
    left = draw(st.integers(0, nstride - 1))
    combo = draw(
        st.sampled_from(["1/1", "2/1", "2/2", "3/2", "3/3"])
    )
    b, ch = draw(upto(1, 4, 40)), draw(upto(1, 4, 12))
    n = (nseg - 1) * nstride + nperseg + left
    xs = {"1": [n], "2": [ch, n], "3": [b, ch, n]}[combo[0]]
    if combo == "3/2":
        ys = [b, n]
    else:
        ys = {"1": [n], "2": [ch, n], "3": [b, ch, n]}[combo[2]]
    return dict(
        combo=combo,
        xs=xs,
        ys=ys,
        nperseg=nperseg,
        nstride=nstride,
        nseg=nseg,
        window=draw(st.sampled_from(WINDOWS)),
        wdtype=draw(st.sampled_from(["float32", "float64"])),
        fs=draw(st.sampled_from([1.0, 100.0, 2048.0])),
        average=draw(st.sampled_from(["mean", "median"])),
        xdtype=draw(st.sampled_from(["float32", "float64"])),
        ydtype=draw(st.sampled_from(["float32", "float64"])),
        xkind=draw(st.sampled_from(KINDS)),
        ykind=draw(st.sampled_from(KINDS)),
        scale=draw(st.sampled_from([1.0, 1e-21, 1e3])),
        seed=draw(st.integers(0, 2**32 - 1)),
        module=draw(st.booleans()),
    )


def expand(x, y):
    """Broadcast the second series as its shape says."""
    if x.ndim == 2 and y.ndim == 1:
        y = y[None]
    elif x.ndim == 3 and y.ndim == 2:
        y = y[:, None]
    return np.broadcast_to(y, x.shape)


def call(c, x, y):
    w = make_window(c["window"], c["nperseg"], c["seed"]).astype(c["wdtype"])
    W = torch.from_numpy(w)
    X, Y = torch.from_numpy(x.copy()), torch.from_numpy(y.copy())
    if c["module"]:
        fs = 2.0 ** np.round(np.log2(c["fs"]))
        sd = SpectralDensity(
            fs, c["nperseg"] / fs, (c["nperseg"] - c["nstride"]) / fs,
            average=c["average"], window=W, fast=True,
        )
        got = sd(X, Y)
    else:
        fs = c["fs"]
        scale = 1.0 / (fs * float((w.astype(np.float64) ** 2).sum()))
        got = fast_spectral_density(
            X, c["nperseg"], c["nstride"], W, scale, average=c["average"], y=Y
        )
    same(X, x, "first series after the call")
    same(Y, y, "second series after the call")
    return got, w, fs


@facet(cases(), quick=4800, thorough=120000, shards=8, large=120)
def csd_equals_welch(c, ctx):
    x = data(c["seed"], c["xs"], c["xkind"], np.dtype(c["xdtype"]), c["scale"])
    y = data(
        c["seed"] + 1, c["ys"], c["ykind"], np.dtype(c["ydtype"]), c["scale"]
    )
    ctx.label(c["combo"], c["average"], "module" if c["module"] else "function")
    ctx.trivial(c["nseg"] == 1 and np.prod(c["xs"][:-1]) == 1)
    got, w, fs = call(c, x, y)
    args = (x, expand(x, y), c["nperseg"], c["nstride"], w, fs, c["average"])
    # the second series is only held in its own precision
    big = np.abs(x.astype(float)).max() * np.abs(y.astype(float)).max()
    wsum = np.sum(np.abs(w)) ** 2 / (fs * np.sum(w.astype(float) ** 2))
    atol = 1e-6 * big * wsum
    want = welch_csd(*args, detrend="series")
    close(got, want, "cross-spectral density", rtol=1e-4, atol=atol)
    if c["window"] == "hann" and c["wdtype"] == "float64":
        close(
            got[..., 2:], welch_csd(*args)[..., 2:],
            "cross-spectral density from the third bin up", rtol=1e-4,
            atol=atol,
        )


@facet(cases(), quick=1200, thorough=30000, shards=2)
def symmetry_and_power(c, ctx):
    c["module"] = False
    x = data(c["seed"], c["xs"], c["xkind"], np.float64, c["scale"])
    y = data(c["seed"] + 1, c["xs"], c["ykind"], np.float64, c["scale"])
    c["wdtype"] = "float64"
    xy, w, fs = call(c, x, y)
    yx, _, _ = call(c, y, x)
    xx, _, _ = call(c, x, x)
    big = np.abs(x).max() * max(np.abs(y).max(), np.abs(x).max())
    atol = 1e-9 * big
    close(yx.conj(), xy, "swapping the series conjugates", rtol=1e-6, atol=atol)
    scale = 1.0 / (fs * float((w**2).sum()))
    psd = fast_spectral_density(
        torch.from_numpy(x), c["nperseg"], c["nstride"], torch.from_numpy(w),
        scale, average=c["average"],
    )
    close(xx.real, psd, "cross-spectrum with itself", rtol=1e-6, atol=atol)
    close(xx.imag, np.zeros(psd.shape), "imaginary part", atol=atol)


@st.composite
def bad_cases(draw):
    nperseg = draw(st.integers(2, 24))
    n = nperseg + draw(st.integers(1, 30))
    kind = draw(
        st.sampled_from(
            ["time", "y rank up", "same rank", "batch", "rank gap", "short",
             "slow"]
        )
    )
    return dict(
        kind=kind, nperseg=nperseg, n=n,
        rank=draw(st.integers(1, 3)),
        b=draw(st.integers(1, 4)), ch=draw(st.integers(1, 4)),
        d=draw(st.integers(1, 3)), module=draw(st.booleans()),
        axis=draw(st.integers(0, 1)), single=draw(st.booleans()),
    )


@facet(bad_cases(), quick=700, thorough=5000)
def incompatible_shapes_rejected(c, ctx):
    n, b, ch, d = c["n"], c["b"], c["ch"], c["d"]
    nperseg = c["nperseg"]
    shape = [b, ch, n][3 - c["rank"] :]
    kind = c["kind"]
    exc = ValueError
    fast = True
    if kind == "time":
        xs, ys = shape, shape[:-1] + [n + d]
    elif kind == "y rank up":
        xs, ys = [b, ch, n][3 - min(c["rank"], 2) :], None
        ys = [2] + xs
    elif kind == "same rank":
        if len(shape) == 1:
            shape = [ch, n]
        # one of the leading axes differs, be it that one of them is single
        axis = c.get("axis", 0) % (len(shape) - 1)
        ys = list(shape)
        ys[axis] = 1 if c.get("single") else shape[axis] + d
        if ys == shape:
            ys[axis] += d
        xs = shape
        if c.get("single") and d == 2:
            xs, ys = ys, xs
    elif kind == "batch":
        xs, ys = [b, ch, n], [b + d, n]
        if b + d == ch:
            ys = [b + d + ch, n]
        if c.get("single") and b > 1 and ch > 1:
            ys = [1, n]
    elif kind == "rank gap":
        xs, ys = [b, ch, n], [n]
    elif kind == "short":
        xs = shape[:-1] + [nperseg - 1]
        ys = xs
    else:
        xs, ys, exc, fast = shape, shape, NotImplementedError, False
        c["module"] = True
    x, y = torch.randn(xs), torch.randn(ys)
    ctx.label(kind)
    if c["module"]:
        sd = SpectralDensity(64, nperseg / 64, fast=fast)
        raises(exc, lambda: sd(x, y), f"{kind}: {xs} with {ys}")
    else:
        raises(
            exc,
            lambda: fast_spectral_density(
                x, nperseg, 1, torch.hann_window(nperseg), 1.0, y=y
            ),
            f"{kind}: {xs} with {ys}",
        )


batches.independent(__name__, "cross_spectral_density")
arguments.ways(__name__, "fast_spectral_density")
histories.pure(__name__, "cross_spectral_density")
