"""C40: the pieces agree with one another along the pipelines users build."""
import os
import tempfile

import h5py
import numpy as np
import torch
from hypothesis import strategies as st

from ml4gw.augmentations import SignalInverter, SignalReverser
from ml4gw.dataloading import (
    ChunkedTimeSeriesDataset,
    Hdf5TimeSeriesDataset,
    InMemoryDataset,
)
from ml4gw.gw import (
    compute_ifo_snr,
    compute_network_snr,
    get_ifo_geometry,
    reweight_snrs,
)
from ml4gw.nn.streaming import OnlineAverager, Snapshotter
from ml4gw.spectral import spectral_density, whiten
from ml4gw.transforms import (
    FixedWhiten,
    IIRFilter,
    SingleQTransform,
    SnrRescaler,
    SpectralDensity,
    WaveformProjector,
    Whiten,
)
from ml4gw.utils.slicing import sample_kernels, unfold_windows
from ml4gw.waveforms import SineGaussian

from pbt.core import check, close, facet, same

RULE = (
    "A case is a pipeline of at least two components with generated sizes, "
    "rates, spectra, bursts and histories. Non-trivial: more than one update, "
    "window, burst or chunk, or a spectrum that is not flat."
)
ASSUMPTIONS = [
    "spectra are smooth on the scale of the whitening filter, and bursts lie "
    "inside the window and between 0 Hz and the Nyquist frequency: the "
    "relations are exact but for the truncation of the filter",
]

# ------------------------------------------------------- streaming inference


@st.composite
def streams(draw):
    rate = draw(st.sampled_from([16, 32, 64]))
    size = draw(st.integers(rate, 4 * rate))
    stride = draw(st.integers(1, min(size - 1, rate)))
    ch = draw(st.integers(1, 3))
    return dict(
        rate=rate, size=size, stride=stride, ch=ch,
        batch=draw(st.integers(1, 6)), updates=draw(st.integers(1, 6)),
        model=draw(
            st.sampled_from(["none", "whiten", "filter", "conv", "whiten+conv"])
        ),
        pad=draw(st.integers(1, max(1, size // 4))),
        average=draw(st.integers(1, 6)), offset=draw(st.integers(0, 12)),
        gap=draw(st.booleans()), seed=draw(st.integers(0, 10**6)),
    )


def stream_model(c):
    """The part between snapshotter and averager: batch -> batch."""
    rate, steps = c["rate"], []
    if "whiten" in c["model"]:
        fduration = 2 * c["pad"] / rate
        white = Whiten(fduration, rate)
        f = torch.linspace(0, rate / 2, c["size"] // 2 + 1)
        psd = (1 + (rate / 8 / (f + rate / 16)) ** 2).double()
        psd = psd * torch.arange(1, c["ch"] + 1)[:, None]
        steps.append(lambda x: white(x, psd))
    if c["model"] == "filter":
        iir = IIRFilter(3, rate / 5, btype="lowpass", fs=rate)
        steps.append(lambda x: iir(x.double()).float())
    if "conv" in c["model"]:
        with torch.random.fork_rng(devices=[]):
            torch.manual_seed(c["seed"])
            conv = torch.nn.Conv1d(c["ch"], c["ch"], 3, padding="same")
        steps.append(conv.eval())

    @torch.no_grad()
    def run(x):
        for step in steps:
            x = step(x)
        return x

    return run


@facet(streams(), quick=800, thorough=20000, shards=4)
def streaming_equals_offline(c, ctx):
    """snapshotter -> model -> averager is the offline average of windows."""
    size, stride, batch, ch = c["size"], c["stride"], c["batch"], c["ch"]
    length = size - 2 * c["pad"] * ("whiten" in c["model"])
    most = (length - 1) // stride
    if most < 1:
        ctx.trivial()
        return
    u = min(c["average"], most)
    offset = min(c["offset"], length - u * stride)
    ctx.label(c["model"], f"average {min(u, 3)}", f"offset {min(offset, 1)}")
    total = stride * batch * c["updates"]
    rng = np.random.default_rng(c["seed"])
    stream = torch.from_numpy(rng.normal(size=(ch, total))).float()
    if c["gap"]:
        stream[:, total // 3 : total // 2] = 0
    model = stream_model(c)
    snapshotter = Snapshotter(ch, size, stride, batch)
    averager = OnlineAverager(stride, batch, u, ch, offset or None)
    ctx.trivial(c["updates"] == 1 and batch == 1)

    snapshot = state = None
    got = []
    for chunk in stream.split(stride * batch, -1):
        x, snapshot = snapshotter(chunk, snapshot)
        y, state = averager(model(x), state)
        got.append(y)
    got = torch.cat(got, -1)

    # all windows of the whole stream, one after the other
    full = np.concatenate([np.zeros((ch, size - stride)), stream.numpy()], -1)
    n = batch * c["updates"]
    out = np.zeros((ch, n * stride))
    for k in range(n):
        window = full[:, k * stride : k * stride + size].astype(np.float32)
        y = model(torch.from_numpy(window)[None])[0].double().numpy()
        check(
            y.shape == (ch, length),
            f"{c['model']}: {y.shape} of a window, expected {(ch, length)}",
        )
        stop = length - offset
        y = y[:, stop - u * stride : stop] / u
        y = y[:, : (n - k) * stride]
        out[:, k * stride : k * stride + y.shape[-1]] += y
    close(
        got, out, "streamed and offline averages", rtol=2e-4,
        scale=np.abs(out).max() + 1e-3,
    )


# ------------------------------------------------------------ signal, spectra


@st.composite
def bursts(draw):
    rate = draw(st.sampled_from([128.0, 256.0, 500.0, 512.0, 1024.0]))
    duration = draw(st.sampled_from([3.0, 4.0, 5.5, 8.0]))
    return dict(
        rate=rate, duration=duration, seed=draw(st.integers(0, 10**6)),
        n=draw(st.integers(1, 5)), flat=draw(st.booleans()),
        scale=draw(st.sampled_from([0.0, -21.0])),
        fduration=draw(st.sampled_from([0.5, 1.0, 2.0])),
        crop=draw(st.booleans()), shared=draw(st.booleans()),
        ifos=draw(st.sampled_from([["H1"], ["H1", "L1"], ["V1", "L1", "H1"]])),
    )


def burst_parameters(rng, c, n):
    rate = c["rate"]
    f = rng.uniform(20, rate * 0.33, n)
    # centred, and shorter than the uncropped part of the window; narrow
    # enough to have nothing at 0 Hz or the Nyquist frequency
    low = (4 / (rate / 2 / f - 1)).clip(5)
    q = rng.uniform(low, np.minimum(f * 0.25 * np.pi, 25).clip(low + 1))
    return q, f


def make_bursts(c, rng):
    q, f = burst_parameters(rng, c, c["n"])
    hrss = 10 ** rng.uniform(-1, 1, c["n"]) * 10 ** c["scale"]
    v = [
        torch.from_numpy(t) for t in (
            q, f, hrss, rng.uniform(0, 6, c["n"]),
            rng.uniform(0.05, 0.95, c["n"]),
        )
    ]
    cross, plus = SineGaussian(c["rate"], c["duration"])(*v)
    return cross.double(), plus.double(), hrss, f, q


def make_psd(c, rng, channels, n):
    """Smooth densities, one for each channel, at the scale of the data."""
    f = np.linspace(0, c["rate"] / 2, n)
    level = rng.uniform(0.5, 2, (channels, 1))
    psd = np.ones((channels, n)) * level
    if not c["flat"]:
        low = rng.uniform(10, 40, (channels, 1))
        psd *= 1 + (low / (f + 10)) ** 2 + (f / c["rate"]) ** 2
    return psd * 100 ** c["scale"]


def tolerance(c):
    # the truncated filter misses this much of the spectrum's shape
    return 1e-4 if c["flat"] else 4e-3 / (2 * c["fduration"]) ** 2


@facet(bursts(), quick=500, thorough=10000, shards=4)
def energy_snr_and_whitening(c, ctx):
    """A burst's hrss, spectrum, SNR and whitened power are one number."""
    rng = np.random.default_rng(c["seed"])
    cross, plus, hrss, *_ = make_bursts(c, rng)
    x = torch.stack([cross, plus], 1)
    rate, size = c["rate"], x.shape[-1]
    ctx.trivial(c["n"] == 1 and c["flat"])
    ctx.label("flat" if c["flat"] else "coloured", f"scale {c['scale']}")
    psd = torch.from_numpy(make_psd(c, rng, 2, size // 2 + 1))
    if c["shared"]:
        psd = psd[:1].expand(2, -1)

    # energy in time is energy in the spectrum
    energy = (x**2).sum(-1) / rate
    close(energy.sum(-1), hrss**2, "energy of the polarizations", rtol=1e-4)
    window = torch.ones(size, dtype=torch.float64)
    density = spectral_density(
        x, size, size, window, 1 / (rate * size), "mean"
    )
    close(
        density.sum(-1) * rate / size * c["duration"], energy,
        "integrated power spectral density", rtol=1e-4,
    )

    # signal-to-noise ratio, by frequency and after whitening
    snr = compute_ifo_snr(x, psd, rate)
    if c["flat"]:
        flat = psd[..., 0]
        close(
            snr**2, 2 * energy / flat, "squared SNR in white noise",
            rtol=1e-4,
        )
    white = whiten(x, psd, c["fduration"], rate, crop=c["crop"])
    pad = int(c["fduration"] * rate / 2) * 2 * c["crop"]
    check(white.shape[-1] == size - pad, f"whitened shape {white.shape}")
    power = (white.double() ** 2).sum(-1)
    close(
        power.sqrt(), snr, "root of the whitened power, and SNR",
        rtol=tolerance(c),
    )
    close(
        compute_network_snr(x, psd, rate) ** 2, power.sum(-1),
        "squared network SNR, and whitened power", rtol=2 * tolerance(c),
    )

    # the power spectrum of the whitened burst integrates to the same
    density = spectral_density(
        white.double(), white.shape[-1], white.shape[-1],
        torch.ones(white.shape[-1], dtype=torch.float64),
        1 / (rate * white.shape[-1]), "mean",
    )
    close(
        density.sum(-1) * rate, power, "whitened spectrum",
        rtol=tolerance(c),
    )


@facet(bursts(), quick=300, thorough=6000, shards=4)
def injections_have_their_target(c, ctx):
    """project -> rescale -> whiten -> add: as loud as asked for."""
    rng = np.random.default_rng(c["seed"])
    cross, plus, *_ = make_bursts(c, rng)
    rate, n, ifos = c["rate"], c["n"], c["ifos"]
    size = plus.shape[-1]
    ctx.trivial(n == 1)
    ctx.label(f"{len(ifos)} interferometers")
    sky = [
        torch.from_numpy(t).float() for t in (
            rng.uniform(-1.5, 1.5, n), rng.uniform(0, 3, n),
            rng.uniform(-3, 3, n),
        )
    ]
    responses = WaveformProjector(ifos, rate)(
        *sky, plus=plus.float(), cross=cross.float()
    )
    target = torch.from_numpy(rng.uniform(4, 40, n)).float()

    psd = make_psd(c, rng, len(ifos), size // 2 + 1)
    background = [coloured(rng, p, rate, size)[0] for p in psd]
    rescaler = SnrRescaler(
        len(ifos), rate, c["duration"], dtype=torch.float64
    )
    length = c["duration"]
    rescaler.fit(*map(torch.from_numpy, background), fftlength=length)
    scaled, snrs = rescaler(responses.double(), target.double())
    close(snrs, target, "SNRs of the rescaler", rtol=1e-5)
    same(
        (scaled != 0).sum(), (responses != 0).sum(), "samples that are not 0"
    )

    # the background's estimated spectrum, as the user would compute it
    estimate = SpectralDensity(rate, length, average="median")
    fitted = torch.stack(
        [estimate(torch.from_numpy(b).double()) for b in background]
    )
    close(
        compute_network_snr(scaled, fitted, rate), target,
        "network SNR over the estimated spectrum", rtol=1e-3,
    )
    close(
        reweight_snrs(responses.double(), target.double(), fitted, rate),
        scaled, "rescaler and reweighting", rtol=1e-3, scale="max",
    )

    # the same over the true, smooth spectrum: power after whitening
    true = torch.from_numpy(psd)
    loud = reweight_snrs(responses.double(), target.double(), true, rate)
    noise = torch.from_numpy(np.stack(background))[None].expand(n, -1, -1)
    both = whiten(noise + loud, true, c["fduration"], rate)
    alone = whiten(noise, true, c["fduration"], rate)
    power = ((both - alone).double() ** 2).sum((-1, -2))
    close(
        power.sqrt(), target, "root of the power added by an injection",
        rtol=max(2 * tolerance(c), 1e-3),
    )


def coloured(rng, psd, rate, size, top=1.0):
    """Noise with exactly this density, and the white noise it came from."""
    white = rng.normal(size=size)
    w = np.fft.rfft(white)
    w[0] = 0
    w[int(top * len(w)):] = 0
    if size % 2 == 0:
        w[-1] = 0
    x = np.fft.irfft(w * np.sqrt(psd * rate / 2), size)
    return x, np.fft.irfft(w, size)


@facet(bursts(), quick=300, thorough=6000, shards=4)
def whitening_recovers_white_noise(c, ctx):
    """Noise coloured by a spectrum is white again, sample by sample."""
    rng = np.random.default_rng(c["seed"])
    rate, n = c["rate"], len(c["ifos"])
    size = int(rate * c["duration"])
    psd = make_psd(c, rng, n, size // 2 + 1)
    ctx.trivial(c["flat"])
    ctx.label("flat" if c["flat"] else "coloured")
    pairs = [
        # the whitening filter tapers at the Nyquist frequency
        [coloured(rng, p, rate, size, 0.8) for p in psd]
        for _ in range(c["n"])
    ]
    x = torch.from_numpy(np.array([[a for a, _ in row] for row in pairs]))
    want = np.array([[b for _, b in row] for row in pairs])
    white = Whiten(c["fduration"], rate)(x, torch.from_numpy(psd))
    pad = int(c["fduration"] * rate / 2)
    close(
        white, want[..., pad:-pad], "whitened noise",
        rtol=3e-3 + 6e-2 * (not c["flat"]) / c["fduration"] ** 2, scale=1.0,
    )


@facet(bursts(), quick=300, thorough=6000, shards=4)
def fitted_and_given_spectra_agree(c, ctx):
    """Fitting a whitener to data is whitening with the data's spectrum."""
    rng = np.random.default_rng(c["seed"])
    rate, ch = c["rate"], len(c["ifos"])
    size = int(rate * c["duration"])
    longer = size * int(rng.integers(1, 5)) + int(rng.integers(0, 50))
    psd = make_psd(c, rng, ch, longer // 2 + 1)
    background = torch.from_numpy(
        np.stack([coloured(rng, p, rate, longer)[0] for p in psd])
    )
    x = torch.from_numpy(rng.normal(size=(c["n"], ch, size)))
    x = x * 10 ** c["scale"]
    # at the resolution of the kernel: nothing is interpolated
    length = c["duration"]
    edges = {}
    if rng.random() < 0.5:
        edges["highpass"] = float(rng.uniform(5, 20))
    if rng.random() < 0.3:
        edges["lowpass"] = float(rng.uniform(0.3, 0.45)) * rate
    ctx.label(*edges, "longer" if longer > size else "as long")
    fixed = FixedWhiten(ch, c["duration"], rate, dtype=torch.float64)
    fixed.fit(c["fduration"], *background, fftlength=length, **edges)
    given = SpectralDensity(rate, length, average="median")(background)
    want = Whiten(c["fduration"], rate, **edges)(x, given)
    close(
        fixed(x), want, "fixed and given whitening", rtol=2e-3, scale="max",
    )


@facet(bursts(), quick=300, thorough=6000, shards=2)
def flips_commute_with_the_pipeline(c, ctx):
    """Inverted and reversed signals are as loud, before and after whitening,
    which like zero-phase filtering commutes with both."""
    rng = np.random.default_rng(c["seed"])
    cross, plus, *_ = make_bursts(c, rng)
    rate, size = c["rate"], plus.shape[-1]
    x = torch.stack([cross, plus], 1)
    ctx.trivial(c["n"] == 1)
    psd = torch.from_numpy(make_psd(c, rng, 2, size // 2 + 1))
    flip = SignalInverter(1.0) if c["shared"] else SignalReverser(1.0)
    ctx.label(type(flip).__name__)

    def flipped(t):
        return flip(t.clone())

    close(
        compute_ifo_snr(flipped(x), psd, rate),
        compute_ifo_snr(x, psd, rate), "SNR of the flipped signal", rtol=1e-4,
    )
    white = Whiten(c["fduration"], rate, highpass=10.0)
    close(
        white(flipped(x), psd), flipped(white(x, psd)), "flipped, then white",
        rtol=1e-5, scale="max",
    )
    iir = IIRFilter(4, [20, rate / 3], btype="band", ftype="butter", fs=rate)
    # far from the edges, where both passes start from rest
    edge = int(rate / 2)
    close(
        iir(flipped(x))[..., edge:-edge], flipped(iir(x))[..., edge:-edge],
        "flipped, then filtered", rtol=1e-2, scale="max",
    )


# ---------------------------------------------------------- time - frequency


@st.composite
def located(draw):
    return dict(
        rate=draw(st.sampled_from([256.0, 512.0, 1000.0, 1024.0])),
        duration=draw(st.sampled_from([1.0, 2.0, 3.0, 4.0])),
        q=draw(st.floats(4, 30)), at=draw(st.floats(0, 1)),
        shift=draw(st.floats(-0.2, 0.2)), seed=draw(st.integers(0, 10**6)),
        norm=draw(st.sampled_from([None, "median", "mean"])),
    )


@facet(located(), quick=300, thorough=8000, shards=4)
def q_transform_finds_the_burst(c, ctx):
    """The loudest tile of a sine-Gaussian is at its time and frequency."""
    rate, duration, q = c["rate"], c["duration"], c["q"]
    low = 8.2 * q / duration
    high = rate / 2 / (1 + 11**0.5 / q) * 0.95
    if low >= high or q > rate * duration / 40:
        ctx.trivial()
        return
    f = low * (high / low) ** c["at"]
    n = int(rate * duration)
    rng = np.random.default_rng(c["seed"])
    v = [
        torch.tensor([float(k)], dtype=torch.float64) for k in
        (q, f, 1.0, rng.uniform(0, 6), rng.uniform(0.05, 0.9))
    ]
    _, plus = SineGaussian(rate, duration)(*v)
    shift = int(c["shift"] * n)
    x = torch.roll(plus.double(), shift, -1)
    module = SingleQTransform(duration, rate, (32, 64), q=q)
    if c["norm"] is None:
        module.compute_qtiles(x[None], norm=None)
        rows = [r.reshape(-1) for r in module.qtiles]
        k = int(np.argmax([float(r.max()) for r in rows]))
        freqs = np.array([float(t) for t in module.freqs])
        near = int(np.argmin(np.abs(np.log(freqs / f))))
        check(
            abs(k - near) <= 1,
            f"loudest row {freqs[k]} Hz for a burst at {f} Hz with "
            f"quality {q} (nearest row: {freqs[near]} Hz)",
        )
        row = rows[k]
    else:
        # normalised rows: the row nearest to the burst
        module.compute_qtiles(x[None], norm=c["norm"])
        freqs = np.array([float(t) for t in module.freqs])
        k = int(np.argmin(np.abs(np.log(freqs / f))))
        row = module.qtiles[k].reshape(-1)
    time = int(row.argmax()) * duration / len(row)
    want = (n // 2 + shift) / rate
    slack = duration / len(row) + 1 / rate
    check(
        abs(time - want) <= 0.06 * q / f + slack,
        f"loudest at {time} s, expected {want} s (frequency {f}, quality {q})",
    )


# --------------------------------------------------------------- data loading


@st.composite
def sources(draw):
    k = draw(st.integers(1, 12))
    return dict(
        kernel=k, chunk=k + draw(st.integers(0, 30)),
        lengths=draw(st.lists(st.integers(43, 120), min_size=1, max_size=4)),
        ch=draw(st.integers(1, 3)), rows=draw(st.integers(1, 5)),
        chunks=draw(st.integers(1, 4)), batch=draw(st.integers(1, 6)),
        per=draw(st.integers(1, 4)),
        inner=draw(st.sampled_from([True, False, "files"])),
        outer=draw(st.booleans()), storage=draw(st.booleans()),
        seed=draw(st.integers(0, 10**6)),
    )


def ramp(file, channel, length):
    """Every sample says which file, channel and position it is."""
    return (file * 8 + channel) * 1000.0 + np.arange(length)


def describe(kernels):
    """File, channel and start of each row; rows have to be contiguous."""
    x = kernels.double().numpy()
    check(
        bool((np.diff(x, axis=-1) == 1).all()),
        "a kernel that is no contiguous window",
    )
    which, start = np.divmod(x[..., 0], 1000)
    file, channel = np.divmod(which, 8)
    return file, channel, start


@facet(sources(), quick=300, thorough=6000, shards=4)
def chunks_read_from_files(c, ctx):
    """files -> chunks -> kernels: windows of the files, in order."""
    ctx.trivial(c["chunks"] == 1)
    ctx.label(f"inner {c['inner']}", f"outer {c['outer']}")
    names = [f"C{i}" for i in range(c["ch"])]
    with tempfile.TemporaryDirectory() as folder:
        files = []
        for i, length in enumerate(c["lengths"]):
            path = os.path.join(folder, f"{i}.h5")
            with h5py.File(path, "w") as f:
                for j, name in enumerate(names):
                    f.create_dataset(
                        name, data=ramp(i, j, length),
                        **({} if c["storage"] else {"chunks": (16,)}),
                    )
            files.append(path)
        torch.manual_seed(c["seed"])
        np.random.seed(c["seed"])
        chunks = Hdf5TimeSeriesDataset(
            files, names, c["chunk"], c["rows"], c["chunks"], c["inner"]
        )
        data = ChunkedTimeSeriesDataset(
            chunks, c["kernel"], c["batch"], c["per"], c["outer"]
        )
        check(len(data) == c["chunks"] * c["per"], f"length {len(data)}")
        seen = 0
        for kernels in data:
            seen += 1
            check(
                tuple(kernels.shape) == (c["batch"], c["ch"], c["kernel"]),
                f"kernels of shape {tuple(kernels.shape)}",
            )
            file, channel, start = describe(kernels)
            same(
                channel, np.broadcast_to(np.arange(c["ch"]), channel.shape),
                "order of the channels",
            )
            last = np.array(c["lengths"])[file.astype(int)] - c["kernel"]
            check(bool((start <= last).all()), "a window past the end")
            if c["outer"] and c["inner"] is True:
                same(file, file[:, :1] + 0 * file, "files of the channels")
                same(start, start[:, :1] + 0 * start, "times of the channels")
            elif c["outer"] and c["inner"] == "files":
                same(file, file[:, :1] + 0 * file, "files of the channels")
        check(seen == len(data), f"{seen} batches, expected {len(data)}")


@st.composite
def series(draw):
    k = draw(st.integers(1, 20))
    return dict(
        kernel=k, stride=draw(st.integers(1, 8)),
        length=k + draw(st.integers(1, 150)), ch=draw(st.integers(1, 4)),
        batch=draw(st.integers(1, 9)), seed=draw(st.integers(0, 10**6)),
        take=draw(st.integers(1, 6)),
    )


@facet(series(), quick=500, thorough=10000, shards=2)
def ways_to_cut_agree(c, ctx):
    """Dataset, unfolding, streaming and sampling cut the same windows."""
    k, s, ch, n = c["kernel"], c["stride"], c["ch"], c["length"]
    rng = np.random.default_rng(c["seed"])
    x = torch.from_numpy(rng.permutation(ch * n).reshape(ch, n)).float()
    windows = unfold_windows(x, k, s)
    ctx.trivial(len(windows) == 1)
    data = InMemoryDataset(
        x, k, batch_size=c["batch"], stride=s, coincident=True, shuffle=False
    )
    same(torch.cat(list(data)), windows, "in-order dataset and unfolding")
    if s < k:
        m = len(windows)
        take = max(1, m // c["take"])
        snap = Snapshotter(ch, k, s, take)
        state, got = x[:, : k - s], []
        for i in range(m // take):
            start = k - s + i * take * s
            y, state = snap(x[:, start : start + take * s], state)
            got.append(y)
        same(
            torch.cat(got), windows[: m // take * take],
            "streamed snapshots and unfolding",
        )
    torch.manual_seed(c["seed"])
    kernels, idx = sample_kernels(
        x, k, N=c["batch"], coincident=True, return_idx=True
    )
    every = unfold_windows(x, k, 1)
    same(kernels, every[idx], "sampled kernels and unfolding")


@st.composite
def networks(draw):
    return dict(
        ifos=draw(
            st.lists(
                st.sampled_from(["H1", "L1", "V1", "K1"]), min_size=1,
                max_size=4, unique=True,
            )
        ),
        n=draw(st.integers(1, 6)), seed=draw(st.integers(0, 10**6)),
        rate=draw(st.sampled_from([256.0, 512.0, 1024.0])),
    )


@facet(networks(), quick=300, thorough=6000, shards=2)
def networks_see_the_source(c, ctx):
    """Squared SNRs of single interferometers add up, for any network, to
    the energy the antenna patterns let through."""
    rng = np.random.default_rng(c["seed"])
    ifos, n, rate = c["ifos"], c["n"], c["rate"]
    case = dict(rate=rate, duration=3.0, n=n, scale=0.0)
    cross, plus, *_ = make_bursts(case, rng)
    dec = rng.uniform(-np.pi / 2, np.pi / 2, n)
    psi, phi = rng.uniform(0, np.pi, n), rng.uniform(-np.pi, np.pi, n)
    sky = [torch.from_numpy(t) for t in (dec, psi, phi)]
    project = WaveformProjector(ifos, rate).double()
    x = project(*sky, plus=plus, cross=cross)
    size = x.shape[-1]
    level = 0.7
    psd = torch.full((size // 2 + 1,), level, dtype=torch.float64)
    snr = compute_ifo_snr(x, psd, rate)
    ctx.trivial(len(ifos) == 1)

    # from the geometry: patterns of the wave's own axes
    tensors, _ = get_ifo_geometry(*ifos)
    theta = np.pi / 2 - dec
    want = np.zeros((n, len(ifos)))
    for i in range(n):
        ct, stheta = np.cos(theta[i]), np.sin(theta[i])
        u = np.array([
            np.cos(phi[i]) * ct, ct * np.sin(phi[i]), -stheta
        ])
        v = np.array([-np.sin(phi[i]), np.cos(phi[i]), 0])
        m = -u * np.sin(psi[i]) - v * np.cos(psi[i])
        w = -u * np.cos(psi[i]) + v * np.sin(psi[i])
        fp = np.outer(m, m) - np.outer(w, w)
        fc = np.outer(m, w) + np.outer(w, m)
        for j, d in enumerate(tensors.double().numpy()):
            p, q = (d * fp).sum(), (d * fc).sum()
            h = p * plus[i].numpy() + q * cross[i].numpy()
            want[i, j] = np.sqrt(2 * (h**2).sum() / rate / level)
    close(snr, want, "SNR of each interferometer", rtol=1e-3, scale="max")
    close(
        compute_network_snr(x, psd, rate), np.sqrt((want**2).sum(-1)),
        "network SNR", rtol=1e-3, scale="max",
    )
