"""The public computations of the package, each as a *subject*: how to make
it, what to feed it and how to call it. Used by the properties that hold for
all of them alike (C33, C34).

A subject is a function of a NumPy generator that picks a configuration and
returns a Subject:
    make()      a fresh module (or None, for a function)
    feed(seed)  the list of input tensors
    call(m, xs) the result: a tensor, or nested lists of tensors
    ctor        tensors given at construction or to fit
    grads       indices of the inputs the result is differentiable in
    double      the module also works in double precision
    info        choices that other properties need to know
"""
import numpy as np
import torch

import ml4gw.gw as gw
from ml4gw import distributions as dist
from ml4gw import spectral, transforms as T
from ml4gw.dataloading import InMemoryDataset
from ml4gw.nn.autoencoder import (
    AddSkipConnect,
    ConcatSkipConnect,
    ConvolutionalAutoencoder,
)
from ml4gw.nn.norm import GroupNorm1D
from ml4gw.nn.resnet import ResNet1D, ResNet2D
from ml4gw.nn.resnet.resnet_1d import BottleneckResNet1D
from ml4gw.nn.resnet.resnet_2d import BottleneckResNet2D
from ml4gw.nn.ssm.s4d import S4D, S4Model
from ml4gw.nn.streaming import OnlineAverager, Snapshotter
from ml4gw.transforms import qtransform
from ml4gw.utils import slicing
from ml4gw.waveforms import (
    IMRPhenomD,
    IMRPhenomPv2,
    Ringdown,
    SineGaussian,
    TaylorF2,
)
from ml4gw.waveforms import conversion
from ml4gw.waveforms.generator import TimeDomainCBCWaveformGenerator

SUBJECTS = {}


class Subject:
    def __init__(
        self, feed, call, make=lambda: None, ctor=(), grads=(), double=True,
        **info,
    ):
        self.double = double
        self.info = info
        self.make = make
        self.feed = feed
        self.call = call
        self.ctor = list(ctor)
        self.grads = list(grads)


def subject(fn):
    SUBJECTS[fn.__name__.rstrip("_")] = fn
    return fn


def built(c, config=None):
    r = np.random.default_rng(c["config"] if config is None else config)
    return SUBJECTS[c["subject"]](r)


def flat(out):
    if isinstance(out, torch.Tensor):
        return [out]
    if isinstance(out, dict):
        return [t for k in sorted(out) for t in flat(out[k])]
    if isinstance(out, (list, tuple)):
        return [t for o in out for t in flat(o)]
    return []


def pick(r, *options):
    return options[int(r.integers(len(options)))]


def normal(seed, *shape, dtype=torch.float32, scale=1.0, offset=0.0):
    r = np.random.default_rng(seed)
    return torch.tensor(
        offset + scale * r.standard_normal(shape), dtype=dtype
    )


def uniform(seed, lo, hi, *shape, dtype=torch.float64):
    r = np.random.default_rng(seed)
    return torch.tensor(r.uniform(lo, hi, shape), dtype=dtype)


def seeded(build):
    def make():
        torch.manual_seed(20)
        return build()

    return make


def network(build):
    """An evaluation-mode network whose every buffer and parameter matters."""

    def make():
        torch.manual_seed(20)
        m = build()
        with torch.no_grad():
            for k, p in m.state_dict().items():
                if p.dtype.is_floating_point and p.ndim == 1:
                    p.add_(0.1 * torch.rand(p.shape))
        return m.eval()

    return make


# ---------------------------------------------------------------- spectral


def shape_of(r, n, most=3):
    return tuple(int(k) for k in r.integers(1, 4, r.integers(0, most))) + (n,)


@subject
def spectral_density(r):
    nper, shape = int(r.integers(6, 20)), shape_of(r, int(r.integers(64, 90)))
    stride, avg = int(r.integers(2, 12)), pick(r, "mean", "median")
    w = torch.hann_window(nper)
    return Subject(
        lambda s: [normal(s, *shape, offset=2), w.clone()],
        lambda m, x: spectral.spectral_density(
            x[0], nper, stride, x[1], 0.1, avg
        ),
        grads=[0],
    )


@subject
def fast_spectral_density(r):
    nper, shape = int(r.integers(6, 20)), shape_of(r, int(r.integers(64, 90)))
    stride, avg = int(r.integers(2, 12)), pick(r, "mean", "median")
    w = torch.hann_window(nper)
    return Subject(
        lambda s: [normal(s, *shape, offset=2), w.clone()],
        lambda m, x: spectral.fast_spectral_density(
            x[0], nper, stride, x[1], 0.1, avg
        ),
        grads=[0],
    )


@subject
def cross_spectral_density(r):
    nper, n = int(r.integers(6, 20)), int(r.integers(64, 90))
    shape = pick(r, (n,), (2, n), (2, 3, n))
    other = shape[pick(r, 0, len(shape) - 1) if len(shape) < 3 else 0:]
    avg = pick(r, "mean", "median")
    w = torch.hann_window(nper)
    return Subject(
        lambda s: [
            normal(s, *shape, offset=2), w.clone(), normal(s + 1, *other),
        ],
        lambda m, x: spectral.fast_spectral_density(
            x[0], nper, nper // 2, x[1], 0.1, avg, y=x[2]
        ),
        grads=[0, 2],
    )


@subject
def median(r):
    shape = shape_of(r, int(r.integers(2, 9)))
    return Subject(
        lambda s: [normal(s, *shape)],
        lambda m, x: spectral.median(x[0], -1),
        grads=[0],
    )


@subject
def SpectralDensity(r):
    shape, avg = shape_of(r, 128), pick(r, "mean", "median")
    fast, window = pick(r, True, False), torch.hamming_window(32)
    ctor = pick(r, [window], [])
    return Subject(
        lambda s: [normal(s, *shape, offset=2)],
        lambda m, x: m(x[0]),
        lambda: T.SpectralDensity(
            32, 1.0, 0.5, avg, window=ctor[0] if ctor else None, fast=fast
        ),
        ctor=ctor, grads=[0],
    )


@subject
def truncate_inverse_power_spectrum(r):
    n = pick(r, 64, 65)
    as_window = pick(r, True, False)
    hi, lo = pick(r, (None, None), (4.0, None), (4.0, 25.0))
    feed = lambda s: [uniform(s, 0.5, 2, 2, 3, n // 2 + 1)] + (  # noqa: E731
        [torch.hann_window(16, dtype=torch.float64)] if as_window else []
    )
    return Subject(
        feed,
        lambda m, x: spectral.truncate_inverse_power_spectrum(
            x[0], x[1] if as_window else 0.25, 64, hi, lo
        ),
        grads=[0],
    )


@subject
def normalize_by_psd(r):
    crop, pad = pick(r, True, False), int(r.integers(1, 9))
    shape = psd_shape(r, 2, 3, 33)
    return Subject(
        lambda s: [normal(s, 2, 3, 64), uniform(s + 1, 0.5, 2, *shape)],
        lambda m, x: spectral.normalize_by_psd(x[0], x[1], 64, pad, crop),
        grads=[0, 1],
    )


def psd_shape(r, batch, channels, n):
    return pick(r, (n,), (channels, n), (batch, channels, n))


@subject
def whiten(r):
    n = pick(r, 33, 17, 40)
    shape = psd_shape(r, 2, 3, n)
    hi, lo = pick(r, (None, None), (4.0, None), (4.0, 25.0))
    crop = pick(r, True, False)
    return Subject(
        lambda s: [
            normal(s, 2, 3, 64, offset=1), uniform(s + 1, 0.5, 2, *shape),
            torch.hann_window(16, dtype=torch.float64),
        ],
        lambda m, x: spectral.whiten(x[0], x[1], x[2], 64, hi, lo, crop),
        grads=[0],
    )


@subject
def Whiten(r):
    n = pick(r, 33, 17, 40)
    shape = psd_shape(r, 2, 3, n)
    hi, lo = pick(r, (None, None), (4.0, None), (4.0, 25.0))
    return Subject(
        lambda s: [
            normal(s, 2, 3, 64, offset=1), uniform(s + 1, 0.5, 2, *shape)
        ],
        lambda m, x: m(*x),
        lambda: T.Whiten(0.25, 64, hi, lo),
        grads=[0],
    )


@subject
def FixedWhiten(r):
    seed = int(r.integers(2**30))
    freq = pick(r, True, False)
    hi, lo = pick(r, (None, None), (4.0, None), (4.0, 25.0))
    bg = [
        uniform(seed + i, 0.5, 2, 33) if freq else
        normal(seed + i, 512, dtype=torch.float64, offset=1)
        for i in range(2)
    ]

    def make():
        m = T.FixedWhiten(2, 1.0, 64)
        m.fit(0.25, *bg, fftlength=None if freq else 1.0, highpass=hi,
              lowpass=lo)
        return m

    return Subject(
        lambda s: [normal(s, 3, 2, 64, offset=1, dtype=torch.float64)],
        lambda m, x: m(x[0]), make, ctor=bg, grads=[0],
    )


@subject
def ChannelWiseScaler(r):
    ch = pick(r, None, 2, 3)
    seed, reverse = int(r.integers(2**30)), pick(r, True, False)
    bg = normal(seed, *([ch] if ch else []), 50, offset=3)

    def make():
        m = T.ChannelWiseScaler(ch)
        m.fit(bg)
        return m

    shape = (4, ch, 20) if ch else (4, 20)
    return Subject(
        lambda s: [normal(s, *shape)],
        lambda m, x: m(x[0], reverse=reverse), make, ctor=[bg], grads=[0],
    )


# ---------------------------------------------------------------- detectors


@subject
def compute_ifo_snr(r):
    shape = pick(r, (33,), (2, 33), (3, 2, 33))
    cuts = pick(r, (None, None), (4.0, 25.0), ("mask", None))
    return Subject(
        lambda s: [
            normal(s, 3, 2, 64), uniform(s + 1, 0.5, 2, *shape).float(),
            torch.arange(33) > 6,
        ],
        lambda m, x: gw.compute_ifo_snr(
            x[0], x[1], 64, x[2] if cuts[0] == "mask" else cuts[0], cuts[1]
        ),
        grads=[0, 1],
    )


@subject
def compute_network_snr(r):
    cuts = pick(r, (None, None), (4.0, 25.0))
    return Subject(
        lambda s: [
            normal(s, 3, 2, 64), uniform(s + 1, 0.5, 2, 2, 33).float()
        ],
        lambda m, x: gw.compute_network_snr(x[0], x[1], 64, *cuts),
        grads=[0, 1],
    )


@subject
def reweight_snrs(r):
    cuts = pick(r, (None, None), (4.0, 25.0))
    return Subject(
        lambda s: [
            normal(s, 3, 2, 64), uniform(s, 1, 20, 3).float(),
            uniform(s + 1, 0.5, 2, 2, 33).float(),
        ],
        lambda m, x: gw.reweight_snrs(x[0], x[1], x[2], 64, *cuts),
        grads=[0, 1, 2],
    )


@subject
def SnrRescaler(r):
    seed = int(r.integers(2**30))
    bg = [normal(seed + i, 512) for i in range(2)]
    hi, lo = pick(r, (None, None), (4.0, None), (4.0, 25.0))

    def make():
        m = T.SnrRescaler(2, 64, 1.0, hi, lo)
        m.fit(*bg, fftlength=1.0)
        return m

    return Subject(
        lambda s: [normal(s, 3, 2, 64), uniform(s, 1, 20, 3).float()],
        lambda m, x: list(m(x[0], x[1])), make, ctor=bg, grads=[0, 1],
    )


@subject
def SnrRescaler_shuffling(r):
    seed = int(r.integers(2**30))
    bg = [normal(seed + i, 512) for i in range(2)]

    def make():
        m = T.SnrRescaler(2, 64, 1.0)
        m.fit(*bg, fftlength=1.0)
        return m

    def call(m, x):
        torch.manual_seed(4)
        return list(m(x[0]))

    return Subject(lambda s: [normal(s, 4, 2, 64)], call, make, ctor=bg)


def sky(s, n):
    return [
        uniform(s, -1.5, 1.5, n), uniform(s + 1, 0, 3.1, n),
        uniform(s + 2, 0, 6.2, n),
    ]


@subject
def compute_antenna_responses(r):
    modes = pick(
        r, ["plus", "cross"], ["cross"], ["plus", "cross", "breathing"]
    )
    tensors, _ = gw.get_ifo_geometry("H1", "L1", "V1")
    return Subject(
        lambda s: sky(s, 3) + [tensors.double().clone()],
        lambda m, x: gw.compute_antenna_responses(
            x[0], x[1], x[2], x[3], list(modes)
        ),
        grads=[0, 1, 2],
    )


@subject
def shift_responses(r):
    _, vertices = gw.get_ifo_geometry("H1", "V1")
    return Subject(
        lambda s: [normal(s, 3, 2, 128, dtype=torch.float64)] + sky(s, 3)[:2]
        + [vertices.double().clone()],
        lambda m, x: gw.shift_responses(x[0], x[1], x[2], x[3], 2048.0),
        grads=[0],
    )


@subject
def compute_observed_strain(r):
    t, v = gw.get_ifo_geometry(*pick(r, ("H1",), ("H1", "L1"), ("V1", "K1")))
    return Subject(
        lambda s: sky(s, 3) + [t.double().clone(), v.double().clone()]
        + [normal(s + 3 + i, 3, 128, dtype=torch.float64) for i in range(2)],
        lambda m, x: gw.compute_observed_strain(
            x[0], x[1], x[2], x[3], x[4], 2048.0, plus=x[5], cross=x[6]
        ),
        grads=[0, 1, 2, 5, 6],
    )


@subject
def WaveformProjector(r):
    ifos = pick(r, ["H1"], ["H1", "L1"], ["L1", "V1", "K1"])
    return Subject(
        lambda s: sky(s, 3)
        + [normal(s + 3 + i, 3, 128, dtype=torch.float64) for i in range(2)],
        lambda m, x: m(x[0], x[1], x[2], plus=x[3], cross=x[4]),
        lambda: T.WaveformProjector(list(ifos), 2048.0),
        grads=[0, 1, 2, 3, 4],
    )


@subject
def WaveformSampler(r):
    seed, n = int(r.integers(2**30)), int(r.integers(1, 6))
    params = normal(seed, 6, 3)
    pols = [normal(seed + 1 + i, 6, 20) for i in range(2)]

    def call(m, x):
        torch.manual_seed(3)
        polarizations, p = m(n)
        return [polarizations[k] for k in sorted(polarizations)] + [p]

    return Subject(
        lambda s: [], call,
        lambda: T.WaveformSampler(params, plus=pols[0], cross=pols[1]),
        ctor=[params, *pols],
    )


# ------------------------------------------------------- slicing, streaming


@subject
def slice_kernels(r):
    shape = pick(r, (40,), (3, 40), (4, 3, 40))
    size = int(r.integers(1, 12))
    n = {1: (5,), 2: pick(r, (5,), (5, 3)), 3: (4,)}[len(shape)]
    return Subject(
        lambda s: [
            normal(s, *shape),
            torch.from_numpy(
                np.random.default_rng(s).integers(0, 40 - size, n)
            ),
        ],
        lambda m, x: slicing.slice_kernels(x[0], x[1], size),
    )


@subject
def unfold_windows(r):
    shape = shape_of(r, 40)
    size, stride = int(r.integers(2, 12)), int(r.integers(1, 8))
    drop = pick(r, True, False)
    return Subject(
        lambda s: [normal(s, *shape)],
        lambda m, x: slicing.unfold_windows(
            x[0], size, stride, drop_last=drop
        ),
        grads=[0],
    )


@subject
def sample_kernels(r):
    shape = pick(r, (40,), (3, 40), (4, 3, 40))
    size = int(r.integers(1, 12))
    kw = dict(
        N=None if len(shape) == 3 else 6,
        max_center_offset=pick(r, None, 3, 8),
        coincident=pick(r, True, False),
    )

    def call(m, x):
        torch.manual_seed(3)
        return slicing.sample_kernels(x[0], size, **kw)

    return Subject(lambda s: [normal(s, *shape)], call)


@subject
def SnapshotterModule(r):
    groups = pick(r, None, [2, 1], [3])
    size, stride = int(r.integers(6, 14)), int(r.integers(1, 5))
    batch = int(r.integers(1, 4))
    return Subject(
        lambda s: [
            normal(s, 3, batch * stride), normal(s + 1, 3, size - stride)
        ],
        lambda m, x: list(m(*x)),
        lambda: Snapshotter(3, size, stride, batch, groups),
        grads=[0, 1], groups=groups,
    )


@subject
def OnlineAveragerModule(r):
    up, batch = int(r.integers(2, 6)), int(r.integers(1, 4))
    num = int(r.integers(2, 6))
    # as its documentation says: kernels long enough for every update
    k = up * (num + pick(r, 0, 1, 3))
    given = pick(r, True, True, False)
    return Subject(
        lambda s: [
            normal(s, batch, 2, k), normal(s + 1, 2, (num - 1) * up),
        ],
        lambda m, x: list(m(*(x if given else x[:1]))),
        lambda: OnlineAverager(up, batch, num, 2),
        grads=[0, 1] if given else [0], double=given, given=given,
    )


@subject
def in_memory(r):
    seed = int(r.integers(2**30))
    X, y = normal(seed, 2, 60), normal(seed + 1, 60)
    labelled = pick(r, True, False)
    kw = dict(
        batch_size=int(r.integers(1, 6)), stride=int(r.integers(1, 4)),
        coincident=pick(r, True, False), shuffle=pick(r, True, False),
    )
    if not kw["coincident"]:
        kw.update(shuffle=True, batches_per_epoch=3)
        labelled = False

    def call(m, x):
        torch.manual_seed(6)
        return [list(b) if isinstance(b, (list, tuple)) else b for b in m]

    return Subject(
        lambda s: [], call,
        lambda: InMemoryDataset(X, 7, y=y if labelled else None, **kw),
        ctor=[X, y],
    )


# --------------------------------------------------------------- transforms


@subject
def IIRFilter(r):
    kind = pick(r, "butter", "cheby1", "cheby2", "ellip", "bessel")
    wn = torch.tensor([4.0, 12.0])
    shape = shape_of(r, 40)
    return Subject(
        lambda s: [normal(s, *shape, dtype=torch.float64)],
        lambda m, x: m(x[0]),
        lambda: T.IIRFilter(
            2, wn, rs=30, rp=1, btype="band", ftype=kind, fs=64
        ),
        ctor=[wn], grads=[0],
    )


@subject
def ShiftedPearsonCorrelation(r):
    shape = shape_of(r, 30)
    other = shape[int(r.integers(0, len(shape))):]
    d = int(r.integers(1, 6))
    return Subject(
        lambda s: [normal(s, *shape), normal(s + 1, *other)],
        lambda m, x: m(*x),
        lambda: T.ShiftedPearsonCorrelation(d),
        grads=[0, 1],
    )


@subject
def TophatIntegrator(r):
    shape = shape_of(r, 30)
    return Subject(
        lambda s: [normal(s, *shape)], lambda m, x: m(x[0]),
        lambda: T.TophatIntegrator(4, 2), grads=[0],
    )


@subject
def LeakyIntegrator(r):
    shape, mode = shape_of(r, 30), pick(r, "count", "score")
    bound = pick(r, 0.0, -1.0)
    return Subject(
        lambda s: [normal(s, *shape)], lambda m, x: m(x[0]),
        lambda: T.LeakyIntegrator(0.5, 0.25, bound, mode),
    )


@subject
def Decimator(r):
    sched = torch.tensor([[0, 2, 4], [2, 3, 8], [3, 4, 16]])
    split = pick(r, True, False)
    return Subject(
        lambda s: [normal(s, 2, 3, 64)],
        lambda m, x: m(x[0]),
        lambda: T.Decimator(16, sched, split), ctor=[sched], grads=[0],
    )


@subject
def Heterodyne(r):
    masses = torch.tensor([20.0, 35.0, 60.0], dtype=torch.float64)
    kind = pick(r, "time", "freq", "both")
    return Subject(
        lambda s: [normal(s, 2, 2, 64, dtype=torch.float64)],
        lambda m, x: (lambda o: list(o) if kind == "both" else o)(m(x[0])),
        lambda: T.Heterodyne(64, 1.0, masses, kind), ctor=[masses],
        grads=[0],
    )


@subject
def MultiResolutionSpectrogram(r):
    kw = pick(
        r, dict(n_fft=[16, 32]), dict(n_fft=[32, 24], win_length=[20, 24]),
        dict(n_fft=[16, 64], hop_length=[4, 8]),
        # one more than it warns of
        dict(n_fft=[16, 20, 24, 32]),
    )
    return Subject(
        lambda s: [normal(s, 2, 2, 128)], lambda m, x: m(x[0]),
        lambda: T.MultiResolutionSpectrogram(
            1.0, 128, **{k: list(v) for k, v in kw.items()}
        ), grads=[0],
    )


@subject
def QTile(r):
    f, shape = pick(r, 12.0, 20.0), shape_of(r, 65)
    norm = pick(r, "median", "mean", None)
    return Subject(
        lambda s: [torch.complex(normal(s, *shape), normal(s + 1, *shape))],
        lambda m, x: m(x[0], norm),
        lambda: qtransform.QTile(6.0, f, 2.0, 64.0, 0.2),
        grads=[] if norm == "median" else [0], norm=norm,
    )


@subject
def SingleQTransform(r):
    shape, norm = shape_of(r, 512), pick(r, "median", "mean", None)
    how = pick(r, "bilinear", "bicubic", "spline")
    return Subject(
        lambda s: [normal(s, *shape)],
        lambda m, x: m(x[0], norm=norm),
        lambda: T.SingleQTransform(
            2.0, 256.0, (16, 24), q=6.0, interpolation_method=how
        ),
        # single precision is too coarse to resolve the kinks of a median
        grads=[] if norm == "median" else [0], double=how != "spline",
        norm=norm,
    )


@subject
def QScan(r):
    shape, norm = shape_of(r, 512), pick(r, "median", "mean")
    # the second reaches beyond the largest Q allowed, and warns
    qs = pick(r, [4, 10], [12, 64])
    search = pick(r, None, [30.0, 60.0] if qs[0] == 4 else [30.0, 100.0])
    return Subject(
        lambda s: [normal(s, *shape)],
        lambda m, x: m(x[0], fsearch_range=search, norm=norm),
        lambda: T.QScan(
            2.0, 256.0, (16, 24), qrange=list(qs),
            interpolation_method="bilinear",
        ),
    )


@subject
def SplineInterpolate1D(r):
    k = int(r.integers(1, 4))
    x = torch.linspace(0, 1, int(r.integers(8, 14)))
    at_call = pick(r, True, False)
    out = torch.linspace(0.05, 0.95, 9)
    shape = shape_of(r, len(x), 4)
    return Subject(
        lambda s: [normal(s, *shape)] + ([out.clone()] if at_call else []),
        lambda m, x: m(*x),
        lambda: T.SplineInterpolate1D(
            x, kx=k, x_out=None if at_call else out
        ), ctor=[x] if at_call else [x, out], grads=[0], double=False,
    )


@subject
def SplineInterpolate2D(r):
    kx, ky = int(r.integers(1, 4)), int(r.integers(1, 4))
    x, y = torch.linspace(0, 1, 8), torch.linspace(2, 5, 11)
    xo, yo = torch.linspace(0.1, 1, 5), torch.linspace(2, 4.9, 6)
    at_call = pick(r, True, False)
    shape = pick(r, (11, 8), (2, 11, 8), (2, 2, 11, 8))
    return Subject(
        lambda s: [normal(s, *shape)]
        + ([xo.clone(), yo.clone()] if at_call else []),
        lambda m, x: m(*x),
        lambda: T.SplineInterpolate2D(
            x, y, kx=kx, ky=ky, x_out=None if at_call else xo,
            y_out=None if at_call else yo,
        ), ctor=[x, y] if at_call else [x, y, xo, yo], grads=[0],
        double=False,
    )


# ----------------------------------------------------------------- networks


@subject
def GroupNorm(r):
    g = pick(r, None, 1, 2, 4)
    return Subject(
        lambda s: [normal(s, 2, 4, 9, offset=1)], lambda m, x: m(x[0]),
        network(lambda: GroupNorm1D(4, g)), grads=[0],
    )


@subject
def resnet_1d(r):
    cls = pick(r, ResNet1D, BottleneckResNet1D)
    kinds = pick(r, None, ["dilation", "stride"])
    if cls is ResNet1D:
        kinds = None
    return Subject(
        lambda s: [normal(s, 2, 2, 70)], lambda m, x: m(x[0]),
        network(lambda: cls(
            2, [1, 1, 1], 3, groups=1, width_per_group=64, stride_type=kinds
        )), grads=[0],
    )


@subject
def resnet_2d(r):
    cls = pick(r, ResNet2D, BottleneckResNet2D)
    return Subject(
        lambda s: [normal(s, 2, 2, 33, 36)], lambda m, x: m(x[0]),
        network(lambda: cls(2, [1, 1], 3)), grads=[0],
    )


@subject
def s4d(r):
    transposed = pick(r, True, False)
    return Subject(
        lambda s: [normal(s, 2, 4, 30) if transposed else normal(s, 2, 30, 4)],
        lambda m, x: m(x[0]),
        network(lambda: S4D(4, 8, 0.1, transposed=transposed)), grads=[0],
    )


@subject
def s4_model(r):
    return Subject(
        lambda s: [normal(s, 2, 3, 30)], lambda m, x: m(x[0]),
        network(lambda: S4Model(3, 2, 4, 8, 2)), grads=[0],
    )


@subject
def autoencoder(r):
    skip = pick(r, None, AddSkipConnect, ConcatSkipConnect)
    stride = pick(r, 1, 2)
    return Subject(
        lambda s: [normal(s, 2, 2, 40)], lambda m, x: m(x[0]),
        network(lambda: ConvolutionalAutoencoder(
            2, [4, 6], 5, stride=stride,
            skip_connection=skip() if skip else None,
        )), grads=[0],
    )


# ---------------------------------------------------------------- waveforms


def masses(s, n):
    return [
        uniform(s, 15, 50, n), uniform(s + 1, 0.2, 0.95, n),
    ]


def spins(s, n, count=2, most=0.5):
    return [uniform(s + i, -most, most, n) for i in range(count)]


def extrinsic(s, n):
    return [
        uniform(s, 100, 900, n), uniform(s + 1, 0, 6, n),
        uniform(s + 2, 0.1, 3, n),
    ]


FREQS = torch.linspace(0, 300, 76, dtype=torch.float64)


def approximant(cls):
    def fn(r):
        n, lo = int(r.integers(1, 4)), pick(r, 0, 6, 6)
        most, face = pick(r, 0.5, 0.5, 0.0), pick(r, 1.0, 1.0, 0.0)

        def feed(s):
            d, phase, inc = extrinsic(s + 4, n)
            return [
                FREQS[lo:].clone(), *masses(s, n),
                *spins(s + 2, n, most=most), d, phase, inc * face,
            ]

        return Subject(
            feed,
            lambda m, x: [h * 1e21 for h in m(*x, 20.0)], cls,
            # nothing is defined at zero frequency
            grads=[1, 2, 3, 4, 5, 6, 7] if lo else [],
        )

    return fn


SUBJECTS["taylorf2"] = approximant(TaylorF2)
SUBJECTS["phenom_d"] = approximant(IMRPhenomD)


@subject
def phenom_p(r):
    n, lo = int(r.integers(1, 4)), pick(r, 0, 6, 6)
    tc = pick(r, True, False)
    return Subject(
        lambda s: [FREQS[lo:].clone()] + masses(s, n)
        + spins(s + 2, n, 6) + extrinsic(s + 8, n)
        + ([uniform(s + 11, -0.1, 0.1, n)] if tc else []),
        lambda m, x: [h * 1e21 for h in
            m(*x[:12], 20.0, **({"tc": x[12]} if tc else {}))
        ], IMRPhenomPv2,
        grads=list(range(1, 13 if tc else 12)) if lo else [],
    )


@subject
def generator(r):
    cls = pick(r, IMRPhenomD, TaylorF2)
    sr, pad = pick(r, 512, 500), pick(r, 0.2, 0.5)

    def feed(s):
        mc, q = uniform(s, 20, 40, 2), uniform(s + 1, 0.4, 0.95, 2)
        m1, m2 = conversion.chirp_mass_and_mass_ratio_to_components(mc, q)
        s1, s2 = uniform(s + 2, -0.5, 0.5, 2), uniform(s + 3, -0.5, 0.5, 2)
        return [mc, q, m1, m2, s1, s2, s1.clone(), s2.clone()] + extrinsic(
            s + 4, 2
        )

    names = [
        "chirp_mass", "mass_ratio", "mass_1", "mass_2", "chi1", "chi2",
        "s1z", "s2z", "distance", "phic", "inclination",
    ]
    return Subject(
        feed, lambda m, x: [h * 1e21 for h in m(**dict(zip(names, x)))],
        lambda: TimeDomainCBCWaveformGenerator(cls(), sr, 1, 25, 25, pad),
        grads=[0, 1, 4, 5, 8, 9, 10],
    )


@subject
def ringdown(r):
    return Subject(
        lambda s: [
            uniform(s, 100, 400, 2, 1), uniform(s + 1, 5, 20, 2, 1),
            uniform(s + 2, 0.01, 0.1, 2, 1), uniform(s + 3, 0, 6, 2, 1),
            uniform(s + 4, 0, 3, 2, 1), uniform(s + 5, 10, 90, 2, 1),
        ],
        lambda m, x: list(m(*x)), lambda: Ringdown(1024, 0.25),
        grads=[0, 1, 2, 3, 4, 5],
    )


@subject
def sine_gaussian(r):
    return Subject(
        lambda s: [
            uniform(s, 4, 20, 3), uniform(s + 1, 60, 200, 3),
            uniform(s + 2, 1, 5, 3), uniform(s + 3, 0, 6, 3),
            uniform(s + 4, 0.05, 0.9, 3),
        ],
        lambda m, x: list(m(*x)), lambda: SineGaussian(1024, 0.25),
        grads=[0, 1, 2, 3, 4],
    )


@subject
def bilby_spins(r):
    return Subject(
        lambda s: [uniform(s + i, 0.1, 3, 3) for i in range(5)]
        + [uniform(s + 5, 0.1, 0.9, 3), uniform(s + 6, 0.1, 0.9, 3),
           uniform(s + 7, 30, 50, 3), uniform(s + 8, 10, 30, 3),
           uniform(s + 9, 0, 6, 3)],
        lambda m, x: list(
            conversion.bilby_spins_to_lalsim(*x[:9], 20.0, x[9])
        ),
        grads=list(range(10)),
    )


@subject
def component_masses(r):
    return Subject(
        lambda s: masses(s, 4),
        lambda m, x: list(
            conversion.chirp_mass_and_mass_ratio_to_components(*x)
        ),
        grads=[0, 1],
    )


# ------------------------------------------------------------ distributions


def distribution(build, lo, hi, grads=(0,)):
    def fn(r):
        n = pick(r, (5,), (2, 3), ())

        def call(m, x):
            torch.manual_seed(11)
            # a first draw, densities, and a second draw
            p = [] if lo is None else [m.log_prob(x[0])]
            return [m.sample(n), *p, m.sample((2,))]

        return Subject(
            lambda s: [] if lo is None else [
                uniform(s, lo, hi, 6, dtype=torch.float32)
            ], call, build,
        )

    return fn


def rate(z):
    return (1 + z) ** 2.7


for _name, _build, _lo, _hi in [
    ("cosine", lambda: dist.Cosine(), -1.5, 1.5),
    ("sine", lambda: dist.Sine(), 0.1, 3.0),
    ("log_uniform", lambda: dist.LogUniform(2.0, 30.0), 2.1, 29.0),
    ("log_normal", lambda: dist.LogNormal(10.0, 4.0, low=2.0), 2.5, 30.0),
    ("power_law", lambda: dist.PowerLaw(3.0, 50.0, -2.3), 3.1, 49.0),
    ("delta", lambda: dist.DeltaFunction(1.5), None, None),
    ("comoving_redshift",
     lambda: dist.UniformComovingVolume(0.01, 1.5, grid_size=500), 0.1, 1.4),
    ("comoving_distance",
     lambda: dist.UniformComovingVolume(
         100, 4000, "luminosity_distance", grid_size=500), 200, 3900),
    ("rate_evolution",
     lambda: dist.RateEvolution(rate, 0.01, 1.5, grid_size=500), 0.1, 1.4),
]:
    SUBJECTS[_name] = distribution(_build, _lo, _hi)
