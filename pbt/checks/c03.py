"""C03: whitening applies the truncated inverse-spectrum filter."""
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.core import check, close, data, facet, raises, same, upto
from pbt.refs_spectral import apply_gain, interp_linear, truncate_inverse

from ml4gw.spectral import truncate_inverse_power_spectrum, whiten
from ml4gw.transforms import Whiten

RULE = (
    "A case is a batch of series, a PSD (rank 1-3, possibly at another "
    "resolution), filter length (number or taper), sample rate, optional "
    "high/low-pass, dtypes and crop flag. Non-trivial: PSD not constant."
)
ASSUMPTIONS = [
    "cut-off frequencies are generated away from rounding ties of the "
    "frequency grid unless exactly representable",
    "filter durations cover at least one sample on either side",
]


def make_psd(seed, shape, kind, dtype, scale):
    rng = np.random.default_rng(seed)
    n = shape[-1]
    f = np.linspace(0, 1, n)
    amp = rng.uniform(0.5, 2.0, tuple(shape[:-1]) + (1,))
    if kind == "flat":
        p = amp * np.ones(n)
    elif kind == "coloured":
        p = amp * ((f + 0.05) ** -rng.uniform(0.2, 2) + 3 * f)
    elif kind == "lines":
        p = amp * np.ones(shape)
        for _ in range(2):
            p[..., rng.integers(0, n)] *= 100.0
    else:
        p = rng.uniform(0.2, 3.0, tuple(shape))
    p = np.broadcast_to(p, shape) * scale
    return np.ascontiguousarray(p).astype(dtype)


@st.composite
def cases(draw):
    b, ch = draw(upto(1, 4, 40)), draw(upto(1, 4, 12))
    n = draw(st.one_of(
        st.integers(8, 80), upto(60, 400, 5000),
        st.sampled_from([16, 64, 128, 256, 65, 257]),
    ))
    fs = draw(st.sampled_from([1.0, 64.0, 256.0, 2048.0, 100.0]))
    pad = draw(st.integers(1, max(1, (n - 1) // 2)))
    nf = n // 2 + 1
    resampled = draw(st.booleans())
    pn = draw(st.integers(2, 300)) if resampled else nf
    psd_shape = draw(
        st.sampled_from([[pn], [ch, pn], [1, ch, pn], [b, ch, pn]])
    )
    grid = 2 * (nf - 1)  # bins of the filter
    hp = lp = None
    cut = st.integers(0, nf - 1)
    frac = st.floats(0.1, 0.9)
    if np.log2(grid) % 1 == 0 and np.log2(fs) % 1 == 0:
        # bin frequencies are exact
        frac = st.one_of(frac, st.just(0.0))
    if draw(st.booleans()):
        hp = (draw(cut) + draw(frac)) * fs / grid
    if draw(st.booleans()):
        lp = (draw(cut) + draw(frac)) * fs / grid
    return dict(
        b=b, ch=ch, n=n, fs=fs, pad=pad, psd_shape=psd_shape,
        psd_kind=draw(st.sampled_from(["coloured", "lines", "random", "flat"])),
        frac=draw(st.floats(0.05, 0.9)),
        window=draw(st.sampled_from(["float", "tensor", "odd tensor"])),
        hp=hp, lp=lp,
        xdtype=draw(st.sampled_from(["float64", "float32"])),
        pdtype=draw(st.sampled_from(["float64", "float64", "float32"])),
        kind=draw(st.sampled_from(["normal", "offset", "impulse", "tone"])),
        crop=draw(st.booleans()),
        small=draw(st.booleans()),
        seed=draw(st.integers(0, 2**32 - 1)),
    )


def hann(n):
    return 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / n)


def inputs(c):
    small = c["small"] and c["pdtype"] == "float64"
    x = data(
        c["seed"], (c["b"], c["ch"], c["n"]), c["kind"],
        np.dtype(c["xdtype"]), 1e-21 if small else 1.0,
    )
    psd = make_psd(
        c["seed"] + 7, c["psd_shape"], c["psd_kind"],
        np.dtype(c["pdtype"]), 1e-44 if small else 1.0,
    )
    return x, psd


def tolerance(c, x, psd, gain, want):
    """Absolute tolerance from single-precision inputs and output."""
    ref = np.abs(want).max()
    top = np.abs(x.astype(float)).max() * gain.max() / np.sqrt(c["fs"])
    if c["pdtype"] == "float32":
        return 1e-5 * ref + 3e-5 * top
    if c["xdtype"] == "float32":
        return 1e-5 * ref + 3e-6 * top
    return 3e-6 * ref + 1e-9 * top


def reference(x, psd, taper, c, hp, lp):
    n = x.shape[-1]
    p = psd.astype(np.float64)
    while p.ndim < 3:
        p = p[None]
    p = interp_linear(p, n // 2 + 1)
    gain = truncate_inverse(p, taper, c["fs"], hp, lp)
    return apply_gain(x, gain, c["fs"]), gain


@facet(cases(), quick=6000, thorough=120000, shards=8, large=120)
def function_equals_reference(c, ctx):
    x, psd = inputs(c)
    X, P = torch.from_numpy(x.copy()), torch.from_numpy(psd.copy())
    pad, fs = c["pad"], c["fs"]
    if c["window"] == "float":
        # any duration whose half holds `pad` whole samples
        fduration = 2 * (pad + c["frac"]) / fs
        taper = hann(2 * pad)
    else:
        taper = np.random.default_rng(c["seed"]).uniform(
            0.1, 1, 2 * pad + (c["window"] == "odd tensor")
        )
        fduration = torch.from_numpy(taper.copy())
    ctx.label(
        f"psd rank {len(c['psd_shape'])}",
        "psd resampled" if c["psd_shape"][-1] != c["n"] // 2 + 1 else "psd grid",
        "odd length" if c["n"] % 2 else "even length",
        f"fduration {c['window']}",
        f"highpass {c['hp'] is not None}",
        f"lowpass {c['lp'] is not None}",
        f"crop {c['crop']}",
    )
    ctx.trivial(c["psd_kind"] == "flat")
    got = whiten(X, P, fduration, fs, c["hp"], c["lp"], crop=c["crop"])
    want, gain = reference(x, psd, taper, c, c["hp"], c["lp"])
    atol = tolerance(c, x, psd, gain, want)
    if c["crop"]:
        want = want[..., pad : c["n"] - pad]
    close(got, want, "whiten", rtol=0, atol=atol)
    same(X, x, "data after the call")
    same(P, psd, "PSD after the call")


@facet(cases(), quick=2400, thorough=60000, shards=4, large=120)
def module_equals_reference(c, ctx):
    x, psd = inputs(c)
    X, P = torch.from_numpy(x.copy()), torch.from_numpy(psd.copy())
    pad, fs = c["pad"], c["fs"]
    # the taper has fduration * sample_rate samples
    size = 2 * pad + (c["window"] == "odd tensor")
    fduration = (size + c["frac"]) / fs
    ctx.trivial(c["psd_kind"] == "flat")
    module = Whiten(fduration, fs, highpass=c["hp"], lowpass=c["lp"])
    want, gain = reference(x, psd, hann(size), c, c["hp"], c["lp"])
    atol = tolerance(c, x, psd, gain, want)
    cropped = want[..., pad : c["n"] - pad]
    for crop in (None, True, False, True):
        got = module(X, P) if crop is None else module(X, P, crop=crop)
        close(
            got, want if crop is False else cropped,
            f"Whiten with crop={crop}", rtol=0, atol=atol,
        )
    same(X, x, "data after the call")
    same(P, psd, "PSD after the call")


@facet(cases(), quick=1500, thorough=40000, shards=2, large=120)
def truncation_equals_reference(c, ctx):
    """The public truncation function, on its documented 3D PSDs."""
    _, psd = inputs(c)
    psd = np.broadcast_to(psd, (c["b"], c["ch"], psd.shape[-1])).copy()
    n = 2 * (psd.shape[-1] - 1)
    pad = min(c["pad"], n // 2)
    fs = c["fs"]
    if c["window"] == "float":
        taper, fduration = hann(2 * pad), 2 * (pad + c["frac"]) / fs
    else:
        taper = np.random.default_rng(c["seed"]).uniform(0.1, 1, 2 * pad)
        fduration = torch.from_numpy(taper.copy())
    grid = 2 * (c["n"] // 2)
    hp = c["hp"] and c["hp"] * grid / n
    lp = c["lp"] and c["lp"] * grid / n
    P = torch.from_numpy(psd.copy())
    got = truncate_inverse_power_spectrum(P, fduration, fs, hp, lp)
    gain = truncate_inverse(psd, taper, fs, hp, lp)
    check(
        tuple(got.shape) == psd.shape, f"truncated PSD has shape {got.shape}"
    )
    ctx.trivial(c["psd_kind"] == "flat")
    got_gain = got.double().numpy() ** -0.5
    tol = 3e-5 if c["pdtype"] == "float32" else 1e-9
    # a lone positive pass band may leave nothing at all
    close(
        got_gain, gain, "gain of the truncated PSD", rtol=tol,
        atol=tol * max(gain.max(), np.max(psd.astype(float) ** -0.5)),
    )
    same(P, psd, "PSD after the call")


@st.composite
def flat_cases(draw):
    return dict(
        b=draw(st.integers(1, 3)), ch=draw(st.integers(1, 3)),
        quarter=draw(st.integers(2, 60)),
        pad=draw(st.integers(1, 100)),
        sigma=draw(st.sampled_from([1.0, 0.01, 30.0, 1e-21])),
        fs=draw(st.sampled_from([1.0, 128.0, 2048.0])),
        kind=draw(st.sampled_from(["normal", "offset", "tone"])),
        seed=draw(st.integers(0, 2**32 - 1)),
    )


@facet(flat_cases(), quick=800, thorough=10000)
def white_noise_keeps_shape_and_unit_scale(c, ctx):
    """The PSD of white noise of deviation sigma is 2 sigma^2 / fs; whitening
    by it must return the mean-free series over sigma."""
    n = 4 * c["quarter"] + 2
    pad = min(c["pad"], n // 2 - 1)
    x = data(c["seed"], (c["b"], c["ch"], n), c["kind"], scale=c["sigma"])
    psd = torch.full((n // 2 + 1,), 2 * c["sigma"] ** 2 / c["fs"]).double()
    psd[:] = 2 * c["sigma"] ** 2 / c["fs"]
    got = whiten(torch.from_numpy(x), psd, 2 * pad / c["fs"], c["fs"])
    want = (x - x.mean(-1, keepdims=True)) / c["sigma"]
    close(got, want[..., pad:-pad], "whitened white noise", rtol=1e-5,
          atol=1e-5)


@facet(cases(), quick=1500, thorough=30000, shards=2)
def linear_and_independent(c, ctx):
    """Linear in the data; each series judged on its own; a PSD shared
    through its rank is the same PSD repeated."""
    c["xdtype"] = c["pdtype"] = "float64"
    x, psd = inputs(c)
    y = data(c["seed"] + 1, x.shape, "normal", scale=np.abs(x).max())
    fs = c["fs"]
    fd = 2 * (c["pad"] + c["frac"]) / fs
    ctx.trivial(c["psd_kind"] == "flat")

    def run(z, p):
        return whiten(
            torch.from_numpy(np.ascontiguousarray(z)),
            torch.from_numpy(np.ascontiguousarray(p)), fd, fs, c["hp"], c["lp"]
        ).double().numpy()

    wx, wy = run(x, psd), run(y, psd)
    top = max(np.abs(wx).max(), np.abs(wy).max(), 1e-300)
    shifted = x + 5 * np.abs(x).max()
    close(run(shifted, psd), wx, "adding a constant", rtol=0, atol=1e-4 * top)
    close(
        run(2 * x - 3 * y, psd), 2 * wx - 3 * wy, "linear combination",
        rtol=0, atol=3e-5 * top,
    )
    full = np.broadcast_to(psd, (c["b"], c["ch"], psd.shape[-1]))
    close(run(x, full), wx, "PSD repeated per series", rtol=0, atol=1e-5 * top)
    for i in range(c["b"]):
        for k in range(c["ch"]):
            one = run(x[i : i + 1, k : k + 1], full[i, k])
            close(
                one[0, 0], wx[i, k], f"series {i},{k} on its own", rtol=0,
                atol=1e-5 * top,
            )


@st.composite
def short_cases(draw):
    pad = draw(st.integers(1, 40))
    return dict(
        pad=pad, n=draw(st.integers(2, 2 * pad)),
        fs=draw(st.sampled_from([1.0, 64.0, 2048.0])),
        how=draw(st.sampled_from(["float", "tensor", "module"])),
        crop=draw(st.booleans()),
    )


@facet(short_cases(), quick=300, thorough=3000)
def too_short_rejected(c, ctx):
    x, psd = torch.randn(1, 2, c["n"]), torch.ones(c["n"] // 2 + 1)
    fd = 2 * c["pad"] / c["fs"]
    ctx.label(c["how"])
    if c["how"] == "module":
        f = lambda: Whiten(fd, c["fs"])(x, psd, crop=c["crop"])  # noqa: E731
    else:
        arg = fd if c["how"] == "float" else torch.ones(2 * c["pad"])
        f = lambda: whiten(x, psd, arg, c["fs"], crop=c["crop"])  # noqa: E731
    raises(ValueError, f, "kernel no longer than the filter")


batches.independent(
    __name__, "whiten", "Whiten", "normalize_by_psd", "truncate_inverse_power_spectrum",
)
arguments.ways(
    __name__, "whiten", "Whiten", "normalize_by_psd",
    "truncate_inverse_power_spectrum",
)
histories.pure(
    __name__, "whiten", "Whiten", "normalize_by_psd",
    "truncate_inverse_power_spectrum",
)
