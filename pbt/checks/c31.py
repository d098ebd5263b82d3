"""C31: time-domain waveforms merge where and when requested."""
import functools
import math

import lal
import lalsimulation as ls
import numpy as np
import torch
from hypothesis import strategies as st
from scipy import signal

from pbt import arguments, batches, histories
from pbt.checks.c28 import log_floats
from pbt.core import check, close, facet, fail, raises, same
from pbt.refs_cbc import components

from ml4gw.constants import MSUN
from ml4gw.waveforms import IMRPhenomD, IMRPhenomPv2, TaylorF2
from ml4gw.waveforms.cbc import utils
from ml4gw.waveforms.generator import TimeDomainCBCWaveformGenerator

RULE = (
    "A case is a batch of binaries and a generator's settings. Non-trivial: "
    "at least half a second of signal, or more than one binary."
)
ASSUMPTIONS = [
    "LALSimulation computes the time bounds of the reference, and the "
    "approximants (checked on their own) its frequency-domain waveforms",
    "the generator works on single-precision frequencies and durations: "
    "waveforms are compared to about 0.1% of their largest value",
    "binaries leave at least a few frequency bins between the frequency "
    "they start at and the lowest one requested",
]
MODELS = {
    "TaylorF2": TaylorF2, "IMRPhenomD": IMRPhenomD,
    "IMRPhenomPv2": IMRPhenomPv2,
}
KG = lal.MSUN_SI


@functools.lru_cache(None)
def model(name):
    return MODELS[name]()


@st.composite
def binaries(draw, mc=(4.0, 120.0)):
    q = draw(st.one_of(st.floats(0.2, 1.0), log_floats(0.06, 1), st.just(1.0)))
    spin = st.one_of(st.floats(-0.9, 0.9), st.just(0.0))
    return dict(
        mc=draw(log_floats(*mc)), q=q, c1=draw(spin), c2=draw(spin),
        d=draw(log_floats(10, 1e4)), phic=draw(st.floats(0, 2 * math.pi)),
        inc=draw(st.floats(0, math.pi)),
    )


@st.composite
def settings_(draw):
    sr = draw(st.one_of(
        st.sampled_from([512, 1024, 2048, 2048, 4096, 8192]),
        st.sampled_from([500, 1000, 1500, 3000, 1001, 2205, 1023.5, 1024.0]),
        st.integers(400, 3000),
    ))
    duration = draw(st.one_of(
        st.integers(1, 12), st.floats(0.5, 12),
        st.integers(400, 9000).map(lambda n: n / sr),
    ))
    return dict(
        sr=sr, duration=duration,
        f_min=draw(st.one_of(
            st.integers(12, 45), st.floats(12, 45)
        )),
        f_ref=draw(st.floats(15, 60)),
        right_pad=draw(st.one_of(
            st.floats(0.0, 0.5), st.just(0.5), st.just(0.0),
            st.floats(0.5, 4.0),
        )),
    )


@st.composite
def cases(draw, b=3, **kw):
    c = dict(
        rows=[
            draw(binaries(**kw)) for _ in range(draw(st.integers(1, b)))
        ],
        model=draw(st.sampled_from(
            ["IMRPhenomD", "IMRPhenomD", "IMRPhenomPv2", "TaylorF2"]
        )),
        double=draw(st.sampled_from([True, True, True, False])),
        tilt=draw(st.floats(0, 1.5)), seed=draw(st.integers(0, 2**31)),
        **draw(settings_()),
    )
    # directions of precessing binaries are ill-conditioned
    c["double"] |= c["model"] == "IMRPhenomPv2"
    return c


def merging(c):
    """TaylorF2 has no end: past the merger it is anywhere in time."""
    if c["model"] == "TaylorF2":
        c["model"] = "IMRPhenomD"


def parameters(c, rows=None):
    rows = c["rows"] if rows is None else rows
    dt = torch.float64 if c["double"] else torch.float32
    m = np.array([components(r["mc"], r["q"]) for r in rows])

    def col(v):
        return torch.tensor(np.array(v), dtype=dt)

    z = np.array([r["c1"] for r in rows]), np.array([r["c2"] for r in rows])
    p = dict(
        chirp_mass=col([r["mc"] for r in rows]),
        mass_ratio=col([r["q"] for r in rows]),
        mass_1=col(m[:, 0]), mass_2=col(m[:, 1]),
        distance=col([r["d"] for r in rows]),
        phic=col([r["phic"] for r in rows]),
        inclination=col([r["inc"] for r in rows]),
        chi1=col(z[0]), chi2=col(z[1]),
    )
    t = c["tilt"] if c["model"] == "IMRPhenomPv2" else 0.0
    for k in (1, 2):
        p[f"s{k}z"] = col(z[k - 1] * math.cos(t))
        p[f"s{k}x"] = col(z[k - 1] * math.sin(t))
        p[f"s{k}y"] = col(0 * z[k - 1])
    return p


def generator(c, **kw):
    s = dict(c, **kw)
    return TimeDomainCBCWaveformGenerator(
        approximant=s.get("approximant") or model(s["model"]),
        sample_rate=s["sr"], duration=s["duration"], f_min=s["f_min"],
        f_ref=s["f_ref"], right_pad=s["right_pad"],
    )


class Timing:
    """The times and frequencies of one binary's conditioning, from LAL."""

    def __init__(self, c, m1, m2, s1, s2):
        a = m1 * KG, m2 * KG
        isco = 1 / (9**1.5 * math.pi * (m1 + m2) * lal.MTSUN_SI)
        self.isco = isco
        self.f_min = min(c["f_min"], isco)
        t = ls.SimInspiralChirpTimeBound(self.f_min, *a, s1, s2)
        spin = ls.SimInspiralFinalBlackHoleSpinBound(s1, s2)
        self.merge = ls.SimInspiralMergeTimeBound(*a)
        self.merge += ls.SimInspiralRingdownTimeBound(sum(a), spin)
        self.extra = 3 / self.f_min
        self.f_start = ls.SimInspiralChirpStartFrequencyBound(1.1 * t, *a)
        self.chirp = ls.SimInspiralChirpTimeBound(self.f_start, *a, s1, s2)
        end = max(self.merge, c["right_pad"])
        self.samples = round((self.chirp + end + 2 * self.extra) * c["sr"])


def timings(c, p):
    return [
        Timing(c, *(p[k][i].double().item() for k in (
            "mass_1", "mass_2", "s1z", "s2z"
        ))) for i in range(len(p["mass_1"]))
    ]


def length(ts):
    return 2 ** math.ceil(math.log2(max(t.samples for t in ts)) - 1e-9)


def conditioned(c, p, ts, n):
    """Conditioned frequency-domain cross and plus polarizations."""
    df = c["sr"] / n
    f = np.arange(n // 2 + 1) * df
    lo = min(t.f_start for t in ts)
    keep = f >= lo
    g = torch.tensor(f[keep], dtype=torch.float64)
    p = {k: v.double() for k, v in p.items()}
    with torch.no_grad():
        raw = (c.get("approximant") or model(c["model"]))(
            g, **p, f_ref=c["f_ref"]
        )
    k = np.arange(len(f))
    shift = round(c["right_pad"] * c["sr"]) / c["sr"]
    out = []
    for h in raw:
        full = np.zeros((len(ts), len(f)), complex)
        full[:, keep] = h.numpy()
        for row, t in zip(full, ts):
            k0, k1 = np.round(t.f_start / df), np.round(t.f_min / df)
            ramp = 0.5 - 0.5 * np.cos(
                np.pi * np.clip((k - k0) / max(k1 - k0, 1), 0, 1)
            )
            row *= ramp
        full[:, -1] = 0
        out.append(full * np.exp(2j * np.pi * f * shift))
    return out


def series(c, ts, h, n):
    """Time-domain waveform of a conditioned one."""
    x = np.fft.irfft(h, n) * c["sr"]
    i = np.arange(n)
    start = max(round(c["sr"] / c["f_min"]), 4)
    for row, t in zip(x, ts):
        row[i < round((t.merge - c["right_pad"]) * c["sr"])] = 0
        end = max(round(c["sr"] / t.isco), 4)
        row *= 0.5 - 0.5 * np.cos(np.pi * np.clip(i / start, 0, 1))
        row *= 0.5 - 0.5 * np.cos(np.pi * np.clip((n - i) / end, 0, 1))
    size = int(c["duration"] * c["sr"])
    pad = max(size - n, 0)
    x = np.pad(x, ((0, 0), (pad, 0)))[:, pad + n - size :]
    w = np.tan(np.pi * c["f_min"] / c["sr"])
    w *= (1 / 0.99**0.5 - 1) ** (1 / 16)
    sos = signal.butter(
        8, 2 / np.pi * np.arctan(w), "highpass", output="sos"
    )
    for _ in range(2):
        x = signal.sosfilt(sos, x)[:, ::-1]
    return x


def delicate(c, ts, n):
    """Rounding decides something visible."""
    df = c["sr"] / n
    for t in ts:
        for x in (t.f_start / df, t.f_min / df, c["sr"] / t.isco,
                  c["sr"] / c["f_min"], (t.merge - c["right_pad"]) * c["sr"]):
            if abs(x % 1 - 0.5) < 1e-3:
                return True
        if t.f_min - t.f_start < 1.01 * df:
            return True
        # a bin just at the start
        k = t.f_start / df
        if abs(k - round(k)) < 1e-4:
            return True
    top = max(t.samples for t in ts)
    return abs(math.log2(top) - round(math.log2(top))) < 1e-4


def usable(c, p, ts):
    # the directions of almost aligned spins are lost in rounding
    if c["model"] == "IMRPhenomPv2" and 0 < c["tilt"] < 1e-3:
        return False
    if c["f_min"] > 0.2 * c["sr"] or c["duration"] * c["sr"] < 16:
        return False
    if max(t.chirp for t in ts) > 25:
        return False
    return 2 / min(t.isco for t in ts) < c["duration"]


@facet(cases(), quick=400, thorough=8000, shards=6)
def conditioning(c, ctx):
    """Waveforms follow the documented conditioning, from LAL's bounds."""
    p = parameters(c)
    ts = timings(c, p)
    if not usable(c, p, ts):
        return ctx.trivial()
    n = length(ts)
    gen = generator(c)
    size = int(c["duration"] * c["sr"])
    check(gen.size == size, f"size {gen.size}, expected {size}")
    before = {k: v.clone() for k, v in p.items()}
    with torch.no_grad():
        hc, hp = gen(**p)
    for k, v in p.items():
        same(v, before[k], f"{k} after the call")
    shape = (len(c["rows"]), size)
    check(
        hc.shape == shape and hp.shape == shape,
        f"shapes {tuple(hc.shape)}, {tuple(hp.shape)}, expected {shape}",
    )
    check(
        hp.isfinite().all() and hc.isfinite().all(), "waveform is not finite"
    )
    ctx.label(c["model"], "crops" if n > size else "pads")
    if delicate(c, ts, n):
        return ctx.label("rounding decides")
    ctx.trivial(max(t.chirp for t in ts) < 0.5 and len(ts) < 2)
    wc, wp = conditioned(c, p, ts, n)
    with torch.no_grad():
        fc, fp = gen.generate_conditioned_fd_waveform(**p)
    # the phase of the inspiral is that of many cycles
    cycles = max(t.chirp * t.f_start for t in ts)
    tol = 1e-3 if c["double"] else 2e-2 + 2e-5 * cycles
    tol += 2e-7 * math.pi * c["sr"] * c["right_pad"]
    scale = np.abs(wp) + np.abs(wc)
    close(fc, wc, "conditioned cross", rtol=tol, scale=scale,
          atol=1e-6 * scale.max())
    close(fp, wp, "conditioned plus", rtol=tol, scale=scale,
          atol=1e-6 * scale.max())
    xc, xp = series(c, ts, wc, n), series(c, ts, wp, n)
    # also where the window leaves out the merger
    full = [np.abs(np.fft.irfft(w, n)).max(-1) * c["sr"] for w in (wc, wp)]
    scale = np.maximum(*full)[:, None]
    close(hp, xp, "plus", rtol=tol, scale=scale)
    close(hc, xc, "cross", rtol=tol, scale=scale)


@facet(cases(), quick=200, thorough=4000, shards=3)
def padding_moves_the_merger(c, ctx):
    """Changing the right padding only moves the waveform."""
    merging(c)
    p = parameters(c)
    ts = timings(c, p)
    if not usable(c, p, ts):
        return ctx.trivial()
    sr = c["sr"]
    # room after the merger for the taper of the edge
    r0 = 0.3 + max(t.merge + 2 / t.isco for t in ts)
    r1 = r0 + c["right_pad"]
    # and before it for the whole chirp
    size = round((max(t.chirp + 2 * t.extra for t in ts) + r1 + 1) * sr)
    move = round(r1 * sr) - round(r0 * sr)
    with torch.no_grad():
        a, b = (
            generator(c, right_pad=r, duration=size / sr)(**p)
            for r in (r0, r1)
        )
    # the sampling of the spectrum follows from the longest waveform
    tol = 0.02 if c["model"] == "IMRPhenomD" else 0.05
    ctx.label(c["model"])
    ctx.trivial(move < 0.05 * sr)
    edge = round(0.25 * sr)
    for name, x, y in zip(("cross", "plus"), a, b):
        n = x.shape[-1] - move - edge
        other = np.maximum(*(v.abs().numpy().max(-1) for v in a))[:, None]
        close(
            y[:, :n], x[:, move : move + n], f"{name} moved by {move}",
            rtol=tol, scale=other,
        )
        tail = y[:, n + edge :]
        check(
            (tail.abs() <= tol * torch.from_numpy(other)).all(),
            f"{name}: signal after the ringdown",
        )


class Click:
    """A source that emits a single impulse at its coalescence."""

    def __call__(self, f, mass_1, **kwargs):
        h = torch.ones(len(mass_1), len(f), dtype=torch.complex128)
        return h * -1j, h


@facet(cases(), quick=200, thorough=4000)
def placement(c, ctx):
    """An impulse ends up where the coalescence is requested."""
    c["approximant"] = Click()
    c["model"], c["right_pad"] = "click", max(c["right_pad"], 0.1)
    p = parameters(c)
    ts = timings(c, p)
    sr = c["sr"]
    size = int(c["duration"] * sr)
    at = size - round(c["right_pad"] * sr)
    end = max(2 / t.isco for t in ts)
    if c["f_min"] > 0.1 * sr or at < 0.2 * size or c["right_pad"] < end:
        return ctx.trivial()
    with torch.no_grad():
        hc, hp = generator(c)(**p)
    for i in range(len(ts)):
        k = int(hp[i].abs().argmax())
        check(
            k == at,
            f"impulse of binary {i} at sample {k} of {size}, requested {at}",
        )
        # all frequencies below Nyquist
        check(
            abs(hp[i, k] / sr - 1) < 0.05 + 4 * c["f_min"] / sr,
            f"impulse of {hp[i, k]}, expected {sr}",
        )
        # the other polarization is its quadrature, odd about it
        m = min(at, size - at - 1, 12)
        x = hc[i, at - m : at + m + 1]
        close(x.flip(0), -x, f"cross of binary {i} about the impulse",
              rtol=0.02, scale=sr)
        check(hc[i, at + 1].abs() > 0.3 * sr, "cross vanishes")


@facet(cases(), quick=200, thorough=4000, shards=2)
def relate(c, ctx):
    """Distance, order and repetition; parameters by name only."""
    p = parameters(c)
    ts = timings(c, p)
    if not usable(c, p, ts):
        return ctx.trivial()
    gen = generator(c)
    b = len(ts)
    ctx.label(f"batch {b}")
    ctx.trivial(b < 2)
    with torch.no_grad():
        hc, hp = gen(**p)
        again = gen(**dict(reversed(p.items())), ra=p["phic"])
        far = gen(**{**p, "distance": 4 * p["distance"]})
        flip = gen(**{k: v.flip(0) for k, v in p.items()})
        # the longest of the batch decides the length: it is as alone
        k = int(np.argmax([t.samples for t in ts]))
        alone = gen(**{n: v[k : k + 1] for n, v in p.items()})
    scale = np.maximum(hp.abs(), hc.abs()).max(-1, keepdims=True).values
    # phases of high frequencies lose digits in single precision
    tol = 1e-8 if c["double"] else 1e-3 * max(1, c["sr"] / 500)
    for j, (name, x) in enumerate((("cross", hc), ("plus", hp))):
        same(again[j], x, f"{name}, the same call again")
        close(4 * far[j], x, f"{name}, four times as far", rtol=tol,
              scale=scale)
        close(flip[j].flip(0), x, f"{name}, reversed batch", rtol=tol,
              scale=scale)
        close(alone[j], x[k : k + 1], f"{name}, longest binary alone",
              rtol=max(tol, 1e-6), scale=scale[k : k + 1])
    need = ("mass_1", "mass_2", "s1z", "s2z", "chirp_mass")
    name = need[c["seed"] % len(need)]
    raises(
        (KeyError, TypeError),
        lambda: gen(**{k: v for k, v in p.items() if k != name}),
        f"{name} missing",
    )


@facet(cases(b=4), quick=150, thorough=3000, shards=2)
def companions(c, ctx):
    """A binary's waveform does not depend on the others' in the batch."""
    merging(c)
    p = parameters(c)
    ts = timings(c, p)
    if not usable(c, p, ts) or len(ts) < 2:
        return ctx.trivial()
    n = [2 ** math.ceil(math.log2(t.samples)) for t in ts]
    size = max(n) + c["sr"]
    gen = generator(c, duration=size / c["sr"], right_pad=c["right_pad"] + 0.2)
    with torch.no_grad():
        both = gen(**p)
        for i in range(len(ts)):
            one = gen(**{k: v[i : i + 1] for k, v in p.items()})
            scale = max(x.abs().max() for x in one)
            for name, x, y in zip(("cross", "plus"), one, both):
                close(x[0], y[i], f"{name} of binary {i} alone", rtol=0.05,
                      scale=scale)
    ctx.label("same length" if len(set(n)) == 1 else "other lengths")


@st.composite
def bounds_cases(draw):
    m = st.one_of(log_floats(0.5, 500), st.integers(1, 100).map(float))
    s = st.one_of(
        st.floats(-1, 1), st.sampled_from([0.0, 1.0, -1.0, 0.998])
    )
    return dict(rows=[
        [draw(m), draw(m), draw(s), draw(s), draw(log_floats(1, 500)),
         draw(log_floats(0.01, 1e4))]
        for _ in range(draw(st.integers(1, 5)))
    ], double=draw(st.booleans()))


@facet(bounds_cases(), quick=500, thorough=10000)
def time_bounds(c, ctx):
    """The bounds on durations and frequencies equal LALSimulation's."""
    dt = torch.float64 if c["double"] else torch.float32
    cols = np.array(c["rows"]).T
    m1, m2 = (torch.tensor(v) * MSUN for v in cols[:2])
    s1, s2, f, t = (torch.tensor(v, dtype=dt) for v in cols[2:])
    spin = utils.final_black_hole_spin_bound(s1, s2)
    got = dict(
        chirp_time=utils.chirp_time_bound(f, m1, m2, s1, s2),
        start=utils.chirp_start_frequency_bound(t, m1, m2),
        spin=spin,
        merge=utils.merge_time_bound(m1, m2),
        ringdown=utils.ringdown_time_bound(m1 + m2, spin.double()),
        isco=utils.frequency_isco(m1, m2),
    )
    want = {k: [] for k in got}
    for a, b, *_ in c["rows"]:
        i = len(want["chirp_time"])
        x, y = s1[i].item(), s2[i].item()
        a, b, fi, ti = a * KG, b * KG, f[i].item(), t[i].item()
        want["chirp_time"].append(
            ls.SimInspiralChirpTimeBound(fi, a, b, x, y)
        )
        want["start"].append(ls.SimInspiralChirpStartFrequencyBound(ti, a, b))
        want["spin"].append(ls.SimInspiralFinalBlackHoleSpinBound(x, y))
        want["merge"].append(ls.SimInspiralMergeTimeBound(a, b))
        want["ringdown"].append(
            ls.SimInspiralRingdownTimeBound(a + b, spin[i].item())
        )
        want["isco"].append(
            1 / (27 * math.pi * (a + b) / KG * lal.MTSUN_SI)
        )
    for k, v in got.items():
        close(v, np.array(want[k]), k, rtol=2e-6)


def lal_series(c, row, p, i):
    """LALSimulation's own time-domain waveform, with its own conditioning."""
    v = {k: x[i].item() for k, x in p.items()}
    hp, hc = ls.SimInspiralTD(
        v["mass_1"] * KG, v["mass_2"] * KG, v["s1x"], v["s1y"], v["s1z"],
        v["s2x"], v["s2y"], v["s2z"], v["distance"] * 1e6 * lal.PC_SI,
        v["inclination"], v["phic"], 0.0, 0.0, 0.0, 1 / c["sr"],
        float(c["f_min"]), float(c["f_ref"]), lal.CreateDict(),
        getattr(ls, c["model"]),
    )
    return float(hp.epoch), hp.data.data, hc.data.data


@facet(cases(b=2), quick=120, thorough=2500, shards=2)
def lal_waveform(c, ctx):
    """Waveforms lie on top of LALSimulation's own time-domain ones."""
    c.update(double=True, sr=2048, right_pad=max(c["right_pad"], 0.4))
    merging(c)
    if c["tilt"] < 1e-3:
        c["tilt"] = 0.0  # see `usable`
    p = parameters(c)
    ts = timings(c, p)
    if max(t.chirp for t in ts) > 25:
        return ctx.trivial()
    sr = c["sr"]
    size = round((max(t.chirp for t in ts) + c["right_pad"] + 1) * sr)
    with torch.no_grad():
        hc, hp = generator(c, duration=size / sr)(**p)
    peak = size - round(c["right_pad"] * sr)
    ctx.label(c["model"])
    for i, row in enumerate(c["rows"]):
        t = ts[i]
        if t.f_min < c["f_min"] or t.chirp < 0.2:
            continue
        t0, wp, wc = lal_series(c, row, p, i)
        # LAL's time zero is at the largest amplitude, and the model's
        # coalescence within tens of the total mass of it
        k0 = peak + round(t0 * sr)
        lo = max(0, -k0)
        wp, wc = wp[lo:], wc[lo:]
        k0 = max(k0, 0)
        m = min(len(wp), size - k0)
        a = np.zeros((2, size))
        a[:, k0 : k0 + m] = wp[:m], wc[:m]
        b = np.stack([hp[i].numpy(), hc[i].numpy()])
        f = np.fft.rfftfreq(2 * size, 1 / sr)
        A, B = (np.fft.rfft(x, 2 * size) for x in (a, b))
        band = (f > c["f_min"] * 1.15) & (f < 0.35 * sr)
        A, B = A[:, band], B[:, band]
        A, B = A * f[band], B * f[band]  # all of the band counts
        norm = np.sqrt((abs(A) ** 2).sum() * (abs(B) ** 2).sum())
        # correlation for shifts of an eighth of a sample
        spec = np.zeros((2, 8 * size + 1), complex)
        spec[:, : len(f)][:, band] = A.conj() * B
        corr = np.fft.irfft(spec.sum(0)) * 8 * size / norm
        mass = row["mc"] * (1 + row["q"]) ** 1.2 / row["q"] ** 0.6
        reach = math.ceil(8 * sr * (40 * mass * lal.MTSUN_SI + 0.004))
        corr = np.concatenate([corr[-reach:], corr[: reach + 1]])
        match = corr.max()
        check(
            match > 0.995,
            f"match {match:.4f} with LAL's waveform of binary {i}, at "
            f"{(int(corr.argmax()) - reach) / 8} samples",
        )
        ratio = np.sqrt((abs(B) ** 2).sum() / (abs(A) ** 2).sum())
        check(
            abs(ratio - 1) < 0.03,
            f"norm of binary {i} is {ratio:.4f} that of LAL's waveform",
        )


batches.independent(__name__, "generator")
arguments.ways(__name__, "generator")
histories.pure(__name__, "generator", quick=40)
