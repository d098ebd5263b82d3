"""C21: multi-resolution spectrograms are the maximum over resolutions."""
import warnings

import numpy as np
import torch
from hypothesis import assume, strategies as st

from pbt import arguments, batches, histories
from pbt.core import check, close, data, facet, raises, same, upto

from ml4gw.transforms import MultiResolutionSpectrogram

RULE = (
    "A case is a kernel length and rate, one to four resolutions (FFT size, "
    "window length, hop, power, normalisation, padding) and a batch. "
    "Non-trivial: at least two resolutions of different shape."
)
ASSUMPTIONS = [
    "output pixel i of N takes bin floor(i n / N) of a resolution with n "
    "bins along that axis, exactly, as the tests fix it",
    "the individual spectrograms follow torchaudio's documentation: "
    "reflect-padded Hann-windowed frames divided by the window's norm",
]
WINDOWS = {
    "hann": torch.hann_window, "hamming": torch.hamming_window,
    "ones": torch.ones,
}


@st.composite
def cases(draw):
    k = draw(st.integers(1, 4))
    nfft = draw(st.lists(st.integers(2, 64), min_size=k, max_size=k))
    biggest = max(nfft)
    c = dict(
        n=draw(upto(max(16, biggest // 2 + 1), 260, 2000)),
        rate=draw(st.sampled_from([1, 16, 100, 128.0, 2048, 4096.0, 250])),
        n_fft=nfft, b=draw(upto(1, 3, 20)), ch=draw(upto(1, 3, 8)),
        kind=draw(st.sampled_from(["normal", "tone", "offset", "impulse"])),
        scale=draw(st.sampled_from([1.0, 1e-3, 1e4])),
        seed=draw(st.integers(0, 2**31)),
    )

    def values(each):
        # one shared value, or one value per resolution
        if draw(st.booleans()):
            return [draw(each(min(nfft)))]
        return [draw(each(m)) for m in nfft]

    if draw(st.booleans()):
        c["hop_length"] = values(lambda m: st.integers(1, 40))
    if draw(st.booleans()):
        c["win_length"] = values(lambda m: st.integers(2, m))
    if draw(st.booleans()):
        c["power"] = values(lambda m: st.sampled_from([1.0, 2.0, 3.0]))
    if draw(st.booleans()):
        c["normalized"] = values(
            lambda m: st.sampled_from([True, "window", "frame_length"])
        )
    if draw(st.booleans()):
        c["pad"] = values(lambda m: st.integers(0, 9))
    if draw(st.booleans()):
        c["window_fn"] = values(lambda m: st.sampled_from(sorted(WINDOWS)))
    return c


KEYS = ["n_fft", "hop_length", "win_length", "power", "normalized", "pad",
        "window_fn"]


def kwargs(c):
    kw = {k: list(c[k]) for k in KEYS if k in c}
    if "window_fn" in kw:
        kw["window_fn"] = [WINDOWS[w] for w in kw["window_fn"]]
    return kw


def resolutions(c):
    k = len(c["n_fft"])
    out = []
    for i in range(k):
        r = dict(normalized=True, power=2.0, pad=0, window_fn="hann")
        for key in KEYS:
            if key in c:
                v = c[key]
                r[key] = v[0] if len(v) == 1 else v[i]
        r.setdefault("win_length", r["n_fft"])
        r.setdefault("hop_length", r["win_length"] // 2)
        out.append(r)
    return out


def single(x, r):
    n_fft, win = r["n_fft"], r["win_length"]
    w = WINDOWS[r["window_fn"]](win).double().numpy()
    left = (n_fft - win) // 2
    full = np.zeros(n_fft)
    full[left : left + win] = w
    x = x.astype(np.float64)
    p = r["pad"]
    x = np.pad(x, [(0, 0)] * (x.ndim - 1) + [(p, p)])
    h = n_fft // 2
    x = np.pad(x, [(0, 0)] * (x.ndim - 1) + [(h, h)], mode="reflect")
    nt = (x.shape[-1] - n_fft) // r["hop_length"] + 1
    frames = np.stack(
        [
            x[..., t * r["hop_length"] : t * r["hop_length"] + n_fft] * full
            for t in range(nt)
        ],
        axis=-1,
    )
    S = np.fft.rfft(frames, axis=-2)
    if r["normalized"] == "frame_length":
        S = S / np.sqrt(n_fft)
        norm = np.sqrt(n_fft)
    else:
        norm = np.sqrt((w**2).sum())
        S = S / norm
    # single-precision rounding of one frame's components
    err = 2e-6 * np.sqrt((frames**2).sum(-2, keepdims=True)) * np.sqrt(n_fft)
    err = err / norm
    a = np.abs(S)
    q = r["power"]
    # the error grows with the power
    tol = q * (a + err) ** (q - 1) * err + 1e-5 * a**q
    return a**q, tol


def reference(c, x):
    parts = [single(x, r) for r in resolutions(c)]
    F = max(p[0].shape[-2] for p in parts)
    T = max(p[0].shape[-1] for p in parts)
    vals, tols = [], []
    for v, t in parts:
        fi = [i * v.shape[-2] // F for i in range(F)]
        ti = [i * v.shape[-1] // T for i in range(T)]
        vals.append(v[..., fi, :][..., ti])
        tols.append(np.broadcast_to(t, v.shape)[..., fi, :][..., ti])
    return (
        np.max(vals, 0), np.max(tols, 0), [p[0].shape[-2:] for p in parts]
    )


def valid(c):
    for r in resolutions(c):
        if r["hop_length"] < 1:
            return False
        if (WINDOWS[r["window_fn"]](r["win_length"]) ** 2).sum() < 1e-6:
            return False
        if c["n"] + 2 * r["pad"] <= r["n_fft"] // 2:
            return False
    return True


def make(c, **over):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return MultiResolutionSpectrogram(
            c["n"] / c["rate"], c["rate"], **dict(kwargs(c), **over)
        )


@facet(cases(), quick=1600, thorough=40000, shards=3, large=120)
def maximum(c, ctx):
    assume(valid(c))
    x = data(
        c["seed"], (c["b"], c["ch"], c["n"]), c["kind"], np.float32,
        c["scale"],
    )
    mod = make(c)
    X = torch.from_numpy(x.copy())
    got = mod(X)
    same(X, x, "input after the call")
    want, tol, shapes = reference(c, x)
    ctx.label(f"{len(shapes)} resolutions")
    ctx.trivial(len(set(shapes)) < 2)
    close(got, want, "spectrogram", rtol=1.0, scale=tol)
    # every channel and batch element on its own
    i, j = c["seed"] % c["b"], c["seed"] % c["ch"]
    alone = mod(X[i : i + 1, j : j + 1].contiguous())
    close(
        alone[0, 0], got[i, j], "one channel alone", rtol=1.0, scale=tol[i, j]
    )


@facet(cases(), quick=300, thorough=4000)
def order(c, ctx):
    """The order of the resolutions does not matter, repeats change nothing."""
    assume(valid(c))
    x = torch.from_numpy(
        data(c["seed"], (1, c["ch"], c["n"]), c["kind"], np.float32)
    )
    got = make(c)(x)
    k = len(c["n_fft"])
    ctx.trivial(k < 2)
    perm = np.random.default_rng(c["seed"]).permutation(k)
    shuffled = {
        key: [v[i] for i in perm] if len(v) == k else v
        for key, v in kwargs(c).items()
    }
    same(make(c, **shuffled)(x), got, "resolutions in another order")
    double = {
        key: v + v if len(v) == k else v for key, v in kwargs(c).items()
    }
    same(make(c, **double)(x), got, "every resolution given twice")


@st.composite
def bad_cases(draw):
    return dict(
        what=draw(
            st.sampled_from(
                ["normalized", "normalized-some", "lengths", "long", "short"]
            )
        ),
        n=draw(st.integers(64, 200)), k=draw(st.integers(2, 4)),
        off=draw(st.integers(1, 30)), seed=draw(st.integers(0, 99)),
    )


@facet(bad_cases(), quick=100, thorough=400)
def rejected(c, ctx):
    k, n = c["k"], c["n"]
    nffts = [16 + 4 * i for i in range(k)]

    def build(**kw):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return MultiResolutionSpectrogram(n / 32, 32, **kw)

    ctx.label(c["what"])
    if c["what"] == "normalized":
        raises(
            ValueError, lambda: build(n_fft=nffts, normalized=[False]),
            "unnormalised spectrograms",
        )
    elif c["what"] == "normalized-some":
        flags = [True] * k
        flags[c["seed"] % k] = False
        raises(
            ValueError, lambda: build(n_fft=nffts, normalized=flags),
            "one unnormalised spectrogram",
        )
    elif c["what"] == "lengths":
        raises(
            ValueError,
            lambda: build(n_fft=nffts, power=[1.0] * (k + 1 + c["seed"] % 2)),
            "lists of different lengths",
        )
        raises(
            ValueError,
            lambda: build(n_fft=nffts + [40], normalized=[True] * (2 * k + 2)),
            "twice as many flags as resolutions",
        )
    else:
        mod = build(n_fft=nffts)
        m = n + c["off"] if c["what"] == "long" else n - c["off"]
        raises(
            ValueError, lambda: mod(torch.zeros(1, 1, m)),
            "input of another length",
        )
        mod(torch.zeros(1, 1, n))


@st.composite
def warned_cases(draw):
    return dict(k=draw(st.integers(1, 6)))


@facet(warned_cases(), quick=12, thorough=12)
def warned(c, ctx):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        MultiResolutionSpectrogram(
            8, 32, n_fft=[8 + 2 * i for i in range(c["k"])]
        )
    got = any(issubclass(x.category, RuntimeWarning) for x in w)
    check(
        got == (c["k"] > 3),
        f"{c['k']} resolutions: RuntimeWarning {'given' if got else 'missing'}",
    )


batches.independent(__name__, "MultiResolutionSpectrogram")
arguments.ways(__name__, "MultiResolution")
histories.pure(__name__, "MultiResolutionSpectrogram")
