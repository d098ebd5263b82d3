"""Independent float64 references for spectral estimation and whitening."""
import numpy as np
import scipy.signal
import torch


def make_window(kind, n, seed=0):
    if kind == "random":
        return np.random.default_rng(seed).uniform(0.05, 1.0, n)
    if kind == "tukey":
        return scipy.signal.get_window(("tukey", 0.5), n)
    return scipy.signal.get_window(kind, n)


def median_bias(n):
    # expectation of the median of n exponential variables over their mean
    b = 1.0
    for k in range(1, (n - 1) // 2 + 1):
        b += 1.0 / (2 * k + 1) - 1.0 / (2 * k)
    return b


def segments(x, nperseg, nstride):
    n = (x.shape[-1] - nperseg) // nstride + 1
    return np.stack(
        [x[..., i * nstride : i * nstride + nperseg] for i in range(n)],
        axis=-2,
    )


def welch_csd(
    x, y, nperseg, nstride, window, fs, average, detrend="segment"
):
    """conj(X) * Y, one-sided density. x, y: (..., time), float64."""
    x = np.asarray(x, np.float64)
    y = np.asarray(y, np.float64)
    window = np.asarray(window, np.float64)
    out = []
    for z in (x, y):
        if detrend == "series":
            z = z - z.mean(-1, keepdims=True)
        s = segments(z, nperseg, nstride)
        if detrend == "segment":
            s = s - s.mean(-1, keepdims=True)
        out.append(np.fft.rfft(s * window, axis=-1))
    p = out[0].conj() * out[1] / (fs * np.sum(window**2))
    last = p.shape[-1] if nperseg % 2 else p.shape[-1] - 1
    p[..., 1:last] *= 2
    if average == "mean":
        return p.mean(-2)
    bias = median_bias(p.shape[-2])
    return (np.median(p.real, -2) + 1j * np.median(p.imag, -2)) / bias


def welch_psd(x, nperseg, nstride, window, fs, average, detrend="segment"):
    return welch_csd(
        x, x, nperseg, nstride, window, fs, average, detrend
    ).real


def interp_linear(p, n):
    """Linear resampling of the last axis as an image resize does
    (half-pixel centres, edges clamped)."""
    m = p.shape[-1]
    if m == n:
        return p
    pos = (np.arange(n) + 0.5) * m / n - 0.5
    pos = np.clip(pos, 0, m - 1)
    lo = np.floor(pos).astype(int)
    hi = np.minimum(lo + 1, m - 1)
    f = pos - lo
    return p[..., lo] * (1 - f) + p[..., hi] * f


def interp_nearest(p, n):
    m = p.shape[-1]
    if m == n:
        return p
    return p[..., np.minimum((np.arange(n) * m) // n, m - 1)]


def truncate_inverse(psd, taper, fs, highpass=None, lowpass=None):
    """PSD whose inverse-ASD filter was tapered to len(taper) samples.

    taper: window of 2 * pad (or 2 * pad + 1) samples.
    Returns the inverse ASD (gain) of the truncated filter.
    """
    psd = np.asarray(psd, np.float64)
    nf = psd.shape[-1]
    n = 2 * (nf - 1)
    pad = len(taper) // 2
    gain = 1 / np.sqrt(psd)
    df = fs / n
    if highpass is not None:
        gain[..., : int(highpass / df)] = 0
    if lowpass is not None:
        gain[..., int(lowpass / df) :] = 0
    if nf % 2:
        gain[..., -1] = 0
    h = np.fft.irfft(gain, n=n, axis=-1)
    full = np.zeros(n)
    for j in range(pad):
        full[j] = taper[len(taper) - pad + j]
        full[n - pad + j] = taper[j]
    h = h * full
    return np.sqrt(2.0) * np.abs(np.fft.rfft(h, n=n, axis=-1))


def apply_gain(x, gain, fs):
    """Filter x by a zero-phase gain; the gain of the half-resolution grid of
    an odd-length series is applied bin by bin."""
    x = np.asarray(x, np.float64)
    x = x - x.mean(-1, keepdims=True)
    xt = np.fft.rfft(x, axis=-1) * gain
    return np.fft.irfft(xt, n=x.shape[-1], axis=-1) / np.sqrt(fs)


def nearest(psd, size):
    """A spectrum on a grid of another size, by its nearest lower bin.

    None where a bin's position falls on a whole number only up to rounding,
    so that the precision it is computed in decides which bin is taken.
    """
    psd = np.asarray(psd)
    if psd.shape[-1] == size:
        return psd
    bins = [
        torch.nn.functional.interpolate(
            torch.arange(psd.shape[-1], dtype=d)[None, None], size=(size,)
        )[0, 0].long().numpy()
        for d in (torch.float32, torch.float64)
    ]
    return psd[..., bins[0]] if (bins[0] == bins[1]).all() else None
