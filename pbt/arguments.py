"""Which arguments the package's functions and classes take, what leaving
them out means, and the check that every way to call them does what is
documented: used for all of them (C39) and by the properties of single
computations."""
import os
import sys
import tempfile
import warnings

import h5py
import numpy as np
import torch
from hypothesis import strategies as st

import ml4gw.gw as gw
from ml4gw import augmentations, distributions as dist, spectral
from ml4gw import transforms as T
from ml4gw.dataloading import (
    ChunkedTimeSeriesDataset,
    Hdf5TimeSeriesDataset,
    InMemoryDataset,
)
from ml4gw.nn.autoencoder import (
    AddSkipConnect,
    ConcatSkipConnect,
    ConvolutionalAutoencoder,
)
from ml4gw.nn.autoencoder.convolutional import ConvBlock
from ml4gw.nn.norm import (
    GroupNorm1D,
    GroupNorm1DGetter,
    GroupNorm2DGetter,
)
from ml4gw.nn.resnet import ResNet1D, ResNet2D, resnet_1d, resnet_2d
from ml4gw.nn.resnet.resnet_1d import BottleneckResNet1D
from ml4gw.nn.resnet.resnet_2d import BottleneckResNet2D
from ml4gw.nn.ssm.s4d import S4D, S4DKernel, S4Model
from ml4gw.nn.streaming import OnlineAverager, Snapshotter
from ml4gw.transforms import qtransform
from ml4gw.utils import slicing
from ml4gw.waveforms import (
    IMRPhenomD,
    IMRPhenomPv2,
    Ringdown,
    SineGaussian,
    TaylorF2,
    conversion,
)
from ml4gw.waveforms.generator import TimeDomainCBCWaveformGenerator

from pbt.core import Facet, check, same
from pbt.subjects import (
    FREQS,
    extrinsic,
    flat,
    masses,
    normal,
    pick,
    psd_shape,
    rate,
    shape_of,
    sky,
    spins,
    uniform,
)

RULE = (
    "A case is a public function, constructor or method with a value for each "
    "of its arguments, and a second way to write the same call: leading "
    "arguments by position, the others by name in any order, and options "
    "that have their documented default left out. Non-trivial: the second "
    "way differs from naming everything, and the call gave a result."
)
ASSUMPTIONS = [
    "the order of arguments and the meaning of those left out are those "
    "documented at the checked commit: in the docstrings, and for options "
    "whose default the docstring does not mention, in the signature",
]

PI = float(np.pi)
ENTRIES = {}


class Entry:
    """
    fn      the callable
    args    (name, value) of the required arguments, in order
    opts    (name, meaning when left out, other values), in order; a callable
            meaning is a function of the other values
    use     use(result, values) -> what to compare, default the result
    fix     fix(values) makes a combination of values a valid one
    named   no argument can be given by position
    """

    def __init__(
        self, fn, args=(), opts=(), use=None, fix=None, named=False,
    ):
        self.fn, self.args, self.opts = fn, list(args), list(opts)
        self.use = use or (lambda out, v: out)
        self.fix, self.named = fix, named


def entry(fn):
    ENTRIES[fn.__name__.rstrip("_")] = fn
    return fn


def call(fn, args, kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*args, **kwargs)


def attempt(fn, *args):
    """The result, or a marker that the call was refused."""
    try:
        return fn(*args)
    except ValueError:
        return torch.tensor(-123.0)


def leaves(out):
    if isinstance(out, (bool, int, float)):
        return [torch.tensor(float(out))]
    if isinstance(out, np.ndarray):
        return [torch.from_numpy(out)]
    return flat(out)


@st.composite
def cases(draw, names):
    return dict(
        entry=draw(st.sampled_from(sorted(names))),
        config=draw(st.integers(0, 10**6)),
        state=draw(st.integers(0, 10**6)),
        # mostly defaults, each mostly left out
        choice=draw(
            st.lists(
                st.sampled_from([0, 0, 0, 1, 2]), min_size=10, max_size=10
            )
        ),
        spelled=draw(
            st.one_of(
                st.just([False] * 10),
                st.lists(
                    st.sampled_from([False, False, True]), min_size=10,
                    max_size=10,
                ),
            )
        ),
        positional=draw(st.sampled_from([*range(15)] + [0] * 10)),
        order=draw(st.integers(0, 10**6)),
    )


def ways(module, *names, quick=None, thorough=None, shards=None):
    """Give a property's module the check for its own computations."""
    for k in names:
        assert k in ENTRIES, k

    def ways_to_call(c, ctx):
        ctx.label(c["entry"])
        with tempfile.TemporaryDirectory() as folder:
            decide(c, ctx, folder)

    quick = quick or 70 * len(names)
    sys.modules[module].__dict__.setdefault("FACETS", []).append(
        Facet(
            "ways_to_call", cases(names), ways_to_call, quick,
            thorough or 12 * quick, shards or min(4, len(names)), [],
        )
    )


def decide(c, ctx, folder):
    def fresh():
        # modules under test may hold state: one for each of the calls
        r = np.random.default_rng(c["config"])
        return ENTRIES[c["entry"]](r, folder)

    e, other = fresh(), fresh()
    chosen = {
        name: min(k, len(others))
        for (name, _, others), k in zip(e.opts, c["choice"])
    }
    if e.fix is not None:
        e.fix(chosen)
    v, w = assign(e, chosen), assign(other, chosen)
    names = [n for n, _ in e.args] + [n for n, _, _ in e.opts]
    defaults = {n for n in chosen if not chosen[n]}
    n = 0 if e.named else c["positional"] % (len(names) + 1)
    spelled = [
        name for name, s in zip(
            names, [True] * len(e.args) + c["spelled"]
        ) if s or name not in defaults
    ]
    by_name = [name for name in spelled if name not in names[:n]]
    by_name = list(np.random.default_rng(c["order"]).permutation(by_name))
    left_out = [
        name for name in names[n:] if name not in by_name
    ]
    ctx.trivial(not n and not left_out)
    ctx.label(
        *(["positional"] if n else []), *(["left out"] if left_out else [])
    )

    def run(x, v, args, kwargs):
        torch.manual_seed(c["state"])
        np.random.seed(c["state"])
        out = call(x.fn, args, kwargs)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return leaves(x.use(out, v))

    want = run(e, v, [], v)
    check(len(want) > 0, f"{c['entry']} gave nothing")
    got = run(
        other, w, [w[k] for k in names[:n]], {str(k): w[k] for k in by_name}
    )
    what = (
        f"{c['entry']} with {names[:n]} by position, {by_name} by name and "
        f"{left_out} left out"
    )
    check(len(got) == len(want), f"{what}: {len(got)} results")
    for a, b in zip(got, want):
        check(a.dtype == b.dtype, f"{what}: {a.dtype}, expected {b.dtype}")
        same(a, b, what)


def assign(e, chosen):
    """The values of all arguments."""
    v, late = dict(e.args), []
    for name, default, others in e.opts:
        if chosen[name]:
            v[name] = others[chosen[name] - 1]
        elif callable(default) and not isinstance(default, type):
            late.append((name, default))
        else:
            v[name] = default
    for name, default in late:
        v[name] = default(v)
    return v


# ------------------------------------------------------------- augmentations


def augmentation(cls):
    def fn(r, folder):
        x = normal(int(r.integers(2**30)), 12, 3, 5)
        return Entry(
            cls, [], [("prob", 0.5, [0.0, 0.9])], lambda m, v: m(x)
        )

    return fn


ENTRIES["SignalInverter"] = augmentation(augmentations.SignalInverter)
ENTRIES["SignalReverser"] = augmentation(augmentations.SignalReverser)

# -------------------------------------------------------------- dataloading


@entry
def InMemory(r, folder):
    x = normal(int(r.integers(2**30)), 2, 260)
    y = normal(int(r.integers(2**30)), 260)

    def fix(k):
        if k["coincident"]:
            k["y"], k["batches_per_epoch"] = 0, 1
            k["shuffle"] = k["shuffle"] and 1

    return Entry(
        InMemoryDataset, [("X", x), ("kernel_size", 9)],
        [
            ("y", None, [y]), ("batch_size", 32, [5, 31]),
            ("stride", 1, [2, 3]), ("batches_per_epoch", None, [2, 1]),
            ("coincident", True, [False]), ("shuffle", True, [False]),
            ("device", "cpu", []),
        ],
        lambda m, v: [len(m)] and list(m), fix,
    )


@entry
def Chunked(r, folder):
    chunks = [normal(int(r.integers(2**30)), 2, 3, 50) for _ in range(2)]
    return Entry(
        ChunkedTimeSeriesDataset,
        [
            ("chunk_it", chunks), ("kernel_size", 7), ("batch_size", 4),
            ("batches_per_chunk", 3),
        ],
        [("coincident", True, [False]), ("device", "cpu", [])],
        lambda m, v: list(m),
    )


@entry
def Hdf5(r, folder):
    files = []
    for i in range(3):
        files.append(os.path.join(folder, f"{i}.h5"))
        with h5py.File(files[-1], "w") as f:
            for j, ch in enumerate("HL"):
                f.create_dataset(
                    ch, data=np.arange(60.0) + 1000 * i + 100 * j,
                    chunks=(20,),
                )
    return Entry(
        Hdf5TimeSeriesDataset,
        [
            ("fnames", files), ("channels", ["H", "L"]), ("kernel_size", 5),
            ("batch_size", 6), ("batches_per_epoch", 2),
            ("coincident", pick(r, True, False, "files")),
        ],
        [("num_files_per_batch", 3, [1, 2])],
        lambda m, v: list(m),
    )


# ------------------------------------------------------------ distributions


def drawn(*at):
    at = torch.tensor(at)

    def use(m, v):
        return [
            m.sample((5,)), attempt(m.log_prob, at[:3]),
            *[attempt(m.log_prob, x) for x in at],
        ]

    return use


VALIDATE = ("validate_args", None, [False, True])


@entry
def Cosine(r, folder):
    return Entry(
        dist.Cosine, [],
        [("low", -PI / 2, [-1.0, 0.1]), ("high", PI / 2, [1.0, 0.9]),
         VALIDATE],
        drawn(0.2, 0.5, 0.8, -1.2, 1.2, 1.6),
    )


@entry
def Sine(r, folder):
    return Entry(
        dist.Sine, [],
        [("low", 0.0, [0.1, 0.4]), ("high", PI, [2.0, 1.0]), VALIDATE],
        drawn(0.5, 0.6, 0.9, 0.2, 2.5, 3.2, -0.1),
    )


@entry
def LogUniform(r, folder):
    return Entry(
        dist.LogUniform, [("low", 2.0), ("high", 30.0)], [VALIDATE],
        drawn(3.0, 10.0, 29.0, 1.0, 31.0),
    )


@entry
def LogNormal(r, folder):
    return Entry(
        dist.LogNormal, [("mean", 10.0), ("std", 4.0)],
        [("low", None, [5.0, 9.0]), VALIDATE],
        drawn(10.0, 12.0, 30.0, 6.0, 1.0, -1.0),
    )


@entry
def PowerLaw(r, folder):
    return Entry(
        dist.PowerLaw,
        [("minimum", 3.0), ("maximum", 50.0), ("index", -2.3)], [VALIDATE],
        drawn(4.0, 12.0, 49.0, 1.0, 51.0),
    )


@entry
def DeltaFunction(r, folder):
    return Entry(
        dist.DeltaFunction, [], [("peak", 0.0, [1.5, -2.0]), VALIDATE],
        lambda m, v: [m.sample((3,)), m.sample()],
    )


@entry
def rsample(r, folder):
    d = pick(
        r, dist.Cosine(), dist.Sine(), dist.LogUniform(2.0, 3.0),
        dist.LogNormal(10.0, 4.0), dist.PowerLaw(2.0, 5.0, -2.0),
        dist.DeltaFunction(2.0),
        dist.UniformComovingVolume(0.1, 1.0, grid_size=200),
    )
    fn = pick(r, d.sample, d.rsample) if d.has_rsample else d.sample
    return Entry(
        fn, [], [("sample_shape", (), [(3,), (2, 2)])],
    )


COSMOLOGY = [
    ("h0", 67.66, [70.0, 50.0]), ("omega_m", 0.30966, [0.2, 0.4]),
    ("z_grid_max", 5, [6, 4.5]), ("grid_size", 10000, [501, 9000]),
    VALIDATE,
]


@entry
def UniformComovingVolume(r, folder):
    if pick(r, True, False):
        return Entry(
            dist.UniformComovingVolume,
            [("minimum", 0.3), ("maximum", 1.5)],
            [("distance_type", "redshift", [])] + COSMOLOGY,
            drawn(0.4, 1.0, 1.4, 0.1, 1.8),
        )
    kind = pick(r, "comoving_distance", "luminosity_distance")
    return Entry(
        dist.UniformComovingVolume,
        [("minimum", 300.0), ("maximum", 3000.0), ("distance_type", kind)],
        COSMOLOGY, drawn(400.0, 1000.0, 2900.0, 100.0, 4000.0),
    )


@entry
def RateEvolution(r, folder):
    return Entry(
        dist.RateEvolution,
        [("rate_function", rate), ("minimum", 0.3), ("maximum", 1.5)],
        [("distance_type", "redshift", [])] + COSMOLOGY,
        drawn(0.4, 1.0, 1.4, 0.1, 1.8),
    )


# ---------------------------------------------------------------- detectors


@entry
def compute_antenna_responses(r, folder):
    tensors, _ = gw.get_ifo_geometry("H1", "L1")
    theta, psi, phi = sky(int(r.integers(2**30)), 3)
    return Entry(
        gw.compute_antenna_responses,
        [
            ("theta", theta), ("psi", psi), ("phi", phi),
            ("detector_tensors", tensors.double()),
            ("modes", ["plus", "cross"]),
        ],
    )


@entry
def shift_responses(r, folder):
    _, vertices = gw.get_ifo_geometry("H1", "L1")
    s = int(r.integers(2**30))
    theta, phi, _ = sky(s, 3)
    return Entry(
        gw.shift_responses,
        [
            ("responses", normal(s, 3, 2, 128).double()), ("theta", theta),
            ("phi", phi), ("vertices", vertices.double()),
            ("sample_rate", 2048.0),
        ],
    )


@entry
def compute_observed_strain(r, folder):
    tensors, vertices = gw.get_ifo_geometry("H1", "L1")
    s = int(r.integers(2**30))
    dec, psi, phi = sky(s, 3)
    pols = dict(plus=normal(s, 3, 99), cross=normal(s + 1, 3, 99))
    return Entry(
        lambda *a, **k: gw.compute_observed_strain(
            *a, **k, **{n: p.double() for n, p in pols.items()}
        ),
        [
            ("dec", dec), ("psi", psi), ("phi", phi),
            ("detector_tensors", tensors.double()),
            ("detector_vertices", vertices.double()),
            ("sample_rate", 2048.0),
        ],
    )


@entry
def projector(r, folder):
    s = int(r.integers(2**30))
    dec, psi, phi = [x.float() for x in sky(s, 3)]
    pols = dict(plus=normal(s, 3, 99), cross=normal(s + 1, 3, 99))
    if pick(r, True, False):
        return Entry(
            T.WaveformProjector,
            [("ifos", ["H1", "V1"]), ("sample_rate", 2048.0)],
            use=lambda m, v: m(dec, psi, phi, **pols),
        )
    m = T.WaveformProjector(["H1", "V1"], 2048.0)
    return Entry(
        lambda *a, **k: m(*a, **k, **pols),
        [("dec", dec), ("psi", psi), ("phi", phi)],
    )


@entry
def waveform_sampler(r, folder):
    s = int(r.integers(2**30))
    pols = dict(plus=normal(s, 9, 5), cross=normal(s + 1, 9, 5))
    return Entry(
        lambda *a, **k: T.WaveformSampler(*a, **k, **pols), [],
        [("parameters", None, [normal(s + 2, 9, 3)])],
        lambda m, v: m(4),
    )


def cuts():
    mask = torch.arange(33) % 5 > 1
    return [
        ("highpass", None, [4.0, mask]), ("lowpass", None, [25.0, mask]),
    ]


def snr(fn, *more):
    def make(r, folder):
        s = int(r.integers(2**30))
        args = [
            ("responses", normal(s, 3, 2, 64)),
            ("psd", uniform(s + 1, 0.5, 2, 2, 33).float()),
            ("sample_rate", 64.0),
        ]
        for i, name in enumerate(more):
            args.insert(
                1 + i, (name, uniform(s + 2, 3, 20, 3).float())
            )
        return Entry(fn, args, cuts())

    return make


ENTRIES["compute_ifo_snr"] = snr(gw.compute_ifo_snr)
ENTRIES["compute_network_snr"] = snr(gw.compute_network_snr)
ENTRIES["reweight_snrs"] = snr(gw.reweight_snrs, "target_snrs")

# ---------------------------------------------------------------- spectral


def density(fn, cross):
    def make(r, folder):
        s = int(r.integers(2**30))
        shape = shape_of(r, 70)
        opts = [("average", "median", ["mean"])]
        if cross:
            opts.append(("y", None, [normal(s + 1, *shape)]))
        return Entry(
            fn,
            [
                ("x", normal(s, *shape, offset=1)), ("nperseg", 12),
                ("nstride", 5), ("window", torch.hann_window(12)),
                ("scale", 0.1),
            ], opts,
        )

    return make


ENTRIES["spectral_density"] = density(spectral.spectral_density, False)
ENTRIES["fast_spectral_density"] = density(
    spectral.fast_spectral_density, True
)


@entry
def median(r, folder):
    x = normal(int(r.integers(2**30)), 3, 4, 5)
    return Entry(
        spectral.median, [("x", x), ("axis", int(r.integers(-3, 3)))]
    )


def bands():
    return [("highpass", None, [4.0, 7.0]), ("lowpass", None, [25.0, 20.0])]


@entry
def truncate_inverse_power_spectrum(r, folder):
    s = int(r.integers(2**30))
    return Entry(
        spectral.truncate_inverse_power_spectrum,
        [
            ("psd", uniform(s, 0.5, 2, 2, 3, 33)), ("fduration", 0.25),
            ("sample_rate", 64),
        ], bands(),
    )


@entry
def normalize_by_psd(r, folder):
    s = int(r.integers(2**30))
    return Entry(
        spectral.normalize_by_psd,
        [
            ("X", normal(s, 2, 3, 64)),
            ("psd", uniform(s + 1, 0.5, 2, *psd_shape(r, 2, 3, 33))),
            ("sample_rate", 64), ("pad", 7),
        ], [("crop", True, [False])],
    )


@entry
def whiten(r, folder):
    s = int(r.integers(2**30))
    return Entry(
        spectral.whiten,
        [
            ("X", normal(s, 2, 3, 64, offset=1)),
            ("psd", uniform(s + 1, 0.5, 2, *psd_shape(r, 2, 3, 33))),
            ("fduration", 0.25), ("sample_rate", 64),
        ], bands() + [("crop", True, [False])],
    )


@entry
def Whiten(r, folder):
    s = int(r.integers(2**30))
    x = normal(s, 2, 3, 64, offset=1)
    psd = uniform(s + 1, 0.5, 2, *psd_shape(r, 2, 3, 33))
    if pick(r, True, False):
        m = T.Whiten(0.25, 64, 4.0)
        return Entry(
            m, [("X", x), ("psd", psd)], [("crop", True, [False])]
        )
    return Entry(
        T.Whiten, [("fduration", 0.25), ("sample_rate", 64)], bands(),
        lambda m, v: m(x, psd),
    )


@entry
def FixedWhiten(r, folder):
    s = int(r.integers(2**30))
    x = normal(s, 3, 2, 64, offset=1)
    psds = [uniform(s + i, 0.5, 2, 33) for i in range(2)]
    if pick(r, True, False):
        m = T.FixedWhiten(2, 1.0, 64)
        m.fit(0.25, *psds)
        return Entry(m, [("X", x)], [("crop", True, [False])])

    def use(m, v):
        m.fit(0.25, *psds)
        return [m(x), m.psd]

    return Entry(
        T.FixedWhiten,
        [("num_channels", 2), ("kernel_length", 1.0), ("sample_rate", 64)],
        [("dtype", torch.float64, [torch.float32])], use,
    )


@entry
def FixedWhiten_fit(r, folder):
    s = int(r.integers(2**30))
    x = normal(s, 3, 2, 64, offset=1)
    m = T.FixedWhiten(2, 1.0, 64)
    if pick(r, True, False):
        bg = [normal(s + i, 512).double() for i in range(2)]
        args = [("fftlength", pick(r, 1.0, 0.5))]
        opts = bands() + [
            ("overlap", lambda v: v["fftlength"] / 2, [0.125, 0.0])
        ]
    else:
        bg = [uniform(s + i, 0.5, 2, 33) for i in range(2)]
        args, opts = [], [("fftlength", None, [])] + bands() + [
            ("overlap", None, [0.5])
        ]
    return Entry(
        lambda **k: m.fit(0.25, *bg, **k), args, opts,
        lambda out, v: [m.psd, m(x)], named=True,
    )


@entry
def SnrRescaler(r, folder):
    s = int(r.integers(2**30))
    x, snrs = normal(s, 3, 2, 64), uniform(s, 3, 20, 3).float()
    bg = [normal(s + i, 512) for i in range(2)]

    def use(m, v):
        m.fit(*bg, fftlength=1.0)
        return [list(m(x, snrs)), m.background]

    return Entry(
        T.SnrRescaler,
        [
            ("num_channels", 2), ("sample_rate", 64),
            ("waveform_duration", 1.0),
        ],
        bands() + [("dtype", torch.float32, [torch.float64])], use,
    )


@entry
def SnrRescaler_fit(r, folder):
    s = int(r.integers(2**30))
    x, snrs = normal(s, 3, 2, 64), uniform(s, 3, 20, 3).float()
    m = T.SnrRescaler(2, 64, 1.0)
    if pick(r, True, False):
        m.fit(*[normal(s + i, 512) for i in range(2)], fftlength=1.0)
        return Entry(
            m, [("responses", x)], [("target_snrs", None, [snrs])]
        )
    if pick(r, True, False):
        bg = [normal(s + i, 512) for i in range(2)]
        args = [("fftlength", pick(r, 1.0, 0.5))]
        opts = [("overlap", lambda v: v["fftlength"] / 2, [0.125, 0.0])]
    else:
        bg = [uniform(s + i, 0.5, 2, 33).float() for i in range(2)]
        args = []
        opts = [("fftlength", None, []), ("overlap", None, [0.5])]
    return Entry(
        lambda **k: m.fit(*bg, **k), args, opts,
        lambda out, v: [m.background, list(m(x, snrs))], named=True,
    )


@entry
def ChannelWiseScaler(r, folder):
    s, how = int(r.integers(2**30)), pick(r, "make", "fit", "call")
    bg, x = normal(s, 2, 50, offset=3), normal(s + 1, 4, 2, 20)
    if how == "make":

        def use(m, v):
            one = v["num_channels"] is None
            m.fit(bg[0] if one else bg)
            return m(x[:, 0] if one else x)

        return Entry(
            T.ChannelWiseScaler, [], [("num_channels", None, [2])], use
        )
    m = T.ChannelWiseScaler(2)
    if how == "fit":
        return Entry(
            m.fit, [("X", bg)], [("std_reg", 0.0, [0.5, 2.0])],
            lambda out, v: [m(x), m(x, reverse=True)],
        )
    m.fit(bg)
    return Entry(m, [("X", x)], [("reverse", False, [True])])


@entry
def SpectralDensity(r, folder):
    s = int(r.integers(2**30))
    x, y = normal(s, 2, 128, offset=1), normal(s + 1, 2, 128)
    if pick(r, True, True, False):
        fft = pick(r, 1.0, 0.5)
        n = int(32 * fft)
        return Entry(
            T.SpectralDensity, [("sample_rate", 32), ("fftlength", fft)],
            [
                ("overlap", fft / 2, [0.25, 0.0]),
                ("average", "mean", ["median"]),
                ("window", torch.hann_window(n), [
                    torch.hamming_window(n), torch.ones(n),
                ]),
                ("fast", False, [True]),
            ],
            lambda m, v: [m(x)] + ([m(x, y)] if v["fast"] else []),
        )
    return Entry(
        T.SpectralDensity(32, 1.0, fast=True), [("x", x)],
        [("y", None, [y])],
    )


@entry
def MultiResolution(r, folder):
    x = normal(int(r.integers(2**30)), 2, 2, 128)
    return Entry(
        lambda *a, **k: T.MultiResolutionSpectrogram(
            *a, n_fft=[16, 32], hop_length=[4, 8], **k
        ),
        [("kernel_length", 1.0), ("sample_rate", 128)],
        [("normalized", [True], [[True, True]])], lambda m, v: m(x),
        named=True,
    )


# -------------------------------------------------------- other transforms


@entry
def decimator(r, folder):
    x = normal(int(r.integers(2**30)), 2, 2, 128)
    schedule = torch.tensor([[0, 2, 16], [2, 4, 32]])
    return Entry(
        T.Decimator, [("sample_rate", 32), ("schedule", schedule)],
        [("split", False, [True])], lambda m, v: m(x),
    )


@entry
def heterodyne(r, folder):
    x = normal(int(r.integers(2**30)), 2, 2, 128)
    return Entry(
        T.Heterodyne,
        [
            ("sample_rate", 128), ("kernel_length", 1.0),
            ("chirp_mass", torch.tensor([1.2, 30.0])),
            ("return_type", pick(r, "time", "freq", "both")),
        ], use=lambda m, v: m(x),
    )


@entry
def iirfilter(r, folder):
    x = normal(int(r.integers(2**30)), 2, 60).double()

    def fix(k):
        if k["ftype"] == 1:
            k["rp"] = k["rp"] or 1
        if k["ftype"] == 2:
            k["rs"] = k["rs"] or 1

    return Entry(
        T.IIRFilter, [("N", pick(r, 1, 2, 3)), ("Wn", [0.2, 0.4])],
        [
            ("rs", None, [40.0, 20.0]), ("rp", None, [1.0, 3.0]),
            ("btype", "band", ["bandstop"]), ("analog", False, [True]),
            ("ftype", "butter", ["cheby1", "cheby2"]),
            ("fs", None, [2.0, 4.0]),
        ],
        lambda m, v: [m.sos, m(x)],
        lambda k: (fix(k), k.update(fs=0 if k["analog"] else k["fs"])),
    )


@entry
def integrators(r, folder):
    x = normal(int(r.integers(2**30)), 2, 60)
    if pick(r, True, False):
        return Entry(
            T.TophatIntegrator,
            [("sample_rate", 4), ("integration_length", 3)],
            use=lambda m, v: m(x),
        )
    return Entry(
        T.LeakyIntegrator,
        [
            ("threshold", 0.3), ("decay", 0.1), ("lower_bound", -0.2),
            ("integrate_value", pick(r, "count", "score")),
        ], use=lambda m, v: m(x),
    )


@entry
def pearson(r, folder):
    s = int(r.integers(2**30))
    x, y = normal(s, 2, 3, 40), normal(s + 1, 2, 3, 40)
    if pick(r, True, False):
        return Entry(
            T.ShiftedPearsonCorrelation, [("max_shift", 4)],
            use=lambda m, v: m(x, y),
        )
    return Entry(
        T.ShiftedPearsonCorrelation(4), [("x", x), ("y", y)]
    )


NORM = ("norm", "median", ["mean", None])


@entry
def qtile(r, folder):
    s = int(r.integers(2**30))
    f = torch.complex(normal(s, 2, 257), normal(s + 1, 2, 257))
    if pick(r, True, False):
        return Entry(
            qtransform.QTile,
            [
                ("q", 8.0), ("frequency", 40.0), ("duration", 2.0),
                ("sample_rate", 256.0), ("mismatch", 0.2),
            ], use=lambda m, v: m(f),
        )
    return Entry(
        qtransform.QTile(8.0, 40.0, 2.0, 256.0, 0.2), [("fseries", f)],
        [NORM],
    )


HOW = ("interpolation_method", "bicubic", ["bilinear", "spline"])


@entry
def single_q(r, folder):
    x = normal(int(r.integers(2**30)), 2, 2, 512)
    return Entry(
        T.SingleQTransform,
        [
            ("duration", 2.0), ("sample_rate", 256.0),
            ("spectrogram_shape", (12, 20)),
        ],
        [
            ("q", 12, [8.0, 12.5]),
            ("frange", lambda v: [0, torch.inf], [[30.0, 70.0]]),
            ("mismatch", 0.2, [0.3, 0.1]), HOW,
        ], lambda m, v: m(x),
    )


@entry
def single_q_methods(r, folder):
    x = normal(int(r.integers(2**30)), 2, 2, 512)
    how = pick(r, "tiles", "energy", "call")
    m = T.SingleQTransform(2.0, 256.0, (12, 20))
    if how == "call":
        return Entry(m, [("X", x)], [NORM])
    if how == "tiles":
        return Entry(
            m.compute_qtiles, [("X", x)], [NORM],
            lambda out, v: m.interpolate(),
        )
    m.compute_qtiles(x)
    return Entry(
        m.get_max_energy, [],
        [
            ("fsearch_range", None, [[40.0, 70.0]]),
            ("dimension", "both", ["neither", "channel"]),
        ],
    )


@entry
def qscan(r, folder):
    x = normal(int(r.integers(2**30)), 2, 512)
    if pick(r, True, False):
        return Entry(
            T.QScan,
            [
                ("duration", 2.0), ("sample_rate", 256.0),
                ("spectrogram_shape", (12, 20)),
            ],
            [
                ("qrange", lambda v: [4, 64], [[5, 12]]),
                ("frange", lambda v: [0, torch.inf], [[30.0, 50.0]]),
                ("interpolation_method", "bicubic", ["bilinear"]),
                ("mismatch", 0.2, [0.3, 0.1]),
            ], lambda m, v: [m(x), torch.tensor(m.qs)],
        )
    return Entry(
        T.QScan(2.0, 256.0, (12, 20), qrange=[5, 12]), [("X", x)],
        [("fsearch_range", None, [[40.0, 70.0]]), NORM],
    )


@entry
def spline1d(r, folder):
    s = int(r.integers(2**30))
    x = torch.linspace(0, 1, 10)
    outs = [torch.linspace(0.1, 0.9, 6), torch.linspace(0, 1, 9)]
    z = normal(s, 2, 3, 10)
    if pick(r, True, True, False):
        return Entry(
            T.SplineInterpolate1D, [("x_in", x)],
            [
                ("kx", 3, [2, 1]), ("sx", 0.0, [0.5, 0.1]),
                ("x_out", None, outs),
            ],
            lambda m, v: m(z) if v["x_out"] is not None else m(z, outs[0]),
        )
    return Entry(
        T.SplineInterpolate1D(x, x_out=outs[1]), [("Z", z)],
        [("x_out", pick(r, None, outs[1]), outs[:1])],
    )


@entry
def spline2d(r, folder):
    s = int(r.integers(2**30))
    x, y = torch.linspace(0, 1, 9), torch.linspace(2, 5, 11)
    xo = [torch.linspace(0.1, 1, 5), torch.linspace(0, 1, 7)]
    yo = [torch.linspace(2, 4.9, 6), torch.linspace(2.2, 5, 4)]
    z = normal(s, 2, 2, 11, 9)

    def fix(k):
        k["y_out"] = (k["y_out"] or 1) if k["x_out"] else 0

    if pick(r, True, True, False):
        return Entry(
            T.SplineInterpolate2D, [("x_in", x), ("y_in", y)],
            [
                ("kx", 3, [2, 1]), ("ky", 3, [2, 1]),
                ("sx", 0.0, [0.5, 0.1]), ("sy", 0.0, [0.3, 0.1]),
                ("x_out", None, xo), ("y_out", None, yo),
            ],
            lambda m, v: m(z) if v["x_out"] is not None
            else m(z, xo[0], yo[0]),
            fix,
        )
    return Entry(
        T.SplineInterpolate2D(x, y, x_out=xo[1], y_out=yo[1]), [("Z", z)],
        [("x_out", None, xo[:1]), ("y_out", None, yo[:1])],
    )


# -------------------------------------------------------- slicing, streaming


@entry
def sample_kernels(r, folder):
    x = normal(int(r.integers(2**30)), 3, 60)
    return Entry(
        slicing.sample_kernels,
        [("X", x), ("kernel_size", 9), ("N", 5)],
        [
            ("max_center_offset", None, [3, 0]),
            ("coincident", True, [False]), ("return_idx", False, [True]),
        ],
    )


@entry
def sample_kernels_3d(r, folder):
    x = normal(int(r.integers(2**30)), 4, 3, 60)
    return Entry(
        slicing.sample_kernels, [("X", x), ("kernel_size", 9)],
        [
            ("N", 4, []), ("max_center_offset", None, [3, 0]),
            ("coincident", True, [False]), ("return_idx", False, [True]),
        ],
    )


@entry
def unfold_windows(r, folder):
    x = normal(int(r.integers(2**30)), *shape_of(r, 40))
    return Entry(
        slicing.unfold_windows,
        [("x", x), ("window_size", 7), ("stride", 5)],
        [("drop_last", True, [False])],
    )


@entry
def slice_kernels(r, folder):
    x = normal(int(r.integers(2**30)), 3, 40)
    idx = torch.tensor(r.integers(0, 30, 4))
    return Entry(
        slicing.slice_kernels,
        [("x", x), ("idx", idx), ("kernel_size", 6)],
    )


@entry
def snapshotter(r, folder):
    s = int(r.integers(2**30))
    x, state = normal(s, 3, 8), normal(s + 1, 3, 6)
    if pick(r, True, False):
        return Entry(
            Snapshotter,
            [
                ("num_channels", 3), ("snapshot_size", 10),
                ("stride_size", 4), ("batch_size", 2),
            ],
            [("channels_per_snapshot", None, [[1, 2], [3]])],
            lambda m, v: [m(x, state), m.get_initial_state()],
        )
    return Entry(
        Snapshotter(3, 10, 4, 2), [("update", x)],
        [("snapshot", torch.zeros(3, 6), [state])],
    )


@entry
def online_averager(r, folder):
    s = int(r.integers(2**30))
    x, state = normal(s, 3, 2, 16), normal(s + 1, 2, 8)
    if pick(r, True, False):
        return Entry(
            OnlineAverager,
            [
                ("update_size", 4), ("batch_size", 3), ("num_updates", 3),
                ("num_channels", 2),
            ],
            [("offset", None, [1, 3])],
            lambda m, v: [list(m(x, state)), m.get_initial_state()],
        )
    return Entry(
        OnlineAverager(4, 3, 3, 2), [("update", x)],
        [("state", torch.zeros(2, 8), [state])],
    )


# ----------------------------------------------------------------- networks


def modes(*x):
    """What a network computes, evaluating and training, and its weights."""

    def use(m, v):
        m.eval()
        out = [m(*x)]
        m.train()
        return out + [m(*x)] + list(m.parameters())

    return use


@entry
def group_norm(r, folder):
    x = normal(int(r.integers(2**30)), 2, 4, 9, scale=0.01)
    y = normal(int(r.integers(2**30)), 2, 4, 5, 6, scale=0.01)
    how = pick(r, "norm", "norm", "1d", "2d")
    if how == "norm":
        return Entry(
            GroupNorm1D, [("num_channels", 4)],
            [("num_groups", 4, [2, 1]), ("eps", 1e-5, [1e-3, 2e-5])],
            modes(x),
        )
    cls = GroupNorm1DGetter if how == "1d" else GroupNorm2DGetter
    data = x if how == "1d" else y
    return Entry(
        cls, [], [("groups", pick(r, None, 4), [2, 8])],
        lambda g, v: [g(4)(data), g(num_channels=4)(data)],
    )


def residual(one_d):
    def make(r, folder):
        narrow = pick(r, True, False)
        if one_d:
            cls = BottleneckResNet1D if narrow else ResNet1D
            x = normal(int(r.integers(2**30)), 2, 2, 66)
        else:
            cls = BottleneckResNet2D if narrow else ResNet2D
            x = normal(int(r.integers(2**30)), 2, 2, 33, 35)
        getter = GroupNorm1DGetter if one_d else GroupNorm2DGetter
        batch = torch.nn.BatchNorm1d if one_d else torch.nn.BatchNorm2d
        layers = pick(r, [1, 1], [2, 1])
        return Entry(
            cls, [("in_channels", 2), ("layers", layers), ("classes", 3)],
            [
                ("kernel_size", 3, [5, 7]),
                ("zero_init_residual", False, [True]),
                ("groups", 1, [2] if narrow else []),
                ("width_per_group", 64, [32] if narrow else []),
                ("stride_type", ["stride"], [["dilation"]] if narrow else []),
                ("norm_layer", lambda v: getter(), [getter(2), batch]),
            ], modes(x),
        )

    return make


ENTRIES["resnet_1d"] = residual(True)
ENTRIES["resnet_2d"] = residual(False)


def convolution(module, one_d):
    def make(r, folder):
        shape = (2, 4, 15) if one_d else (2, 4, 9, 8)
        x = normal(int(r.integers(2**30)), *shape)
        if pick(r, True, True, False):
            return Entry(
                module.convN, [("in_planes", 4), ("out_planes", 6)],
                [
                    ("kernel_size", 3, [5, 1]), ("stride", 1, [2, 3]),
                    ("groups", 1, [2]), ("dilation", 1, [2, 3]),
                ], modes(x),
            )
        return Entry(
            module.conv1, [("in_planes", 4), ("out_planes", 6)],
            [("stride", 1, [2, 3])], modes(x),
        )

    return make


def block(module, one_d, basic):
    getter = GroupNorm1DGetter if one_d else GroupNorm2DGetter
    batch = torch.nn.BatchNorm1d if one_d else torch.nn.BatchNorm2d
    pool = torch.nn.AvgPool1d if one_d else torch.nn.AvgPool2d

    def fix(chosen):
        # the identity has to have the shape of the rest
        if chosen["stride"]:
            chosen["stride"] = chosen["downsample"] = 1
        elif chosen["downsample"]:
            chosen["downsample"] = 2

    def make(r, folder):
        shape = (2, 8, 15) if one_d else (2, 8, 9, 8)
        x = normal(int(r.integers(2**30)), *shape)
        cls = module.BasicBlock if basic else module.Bottleneck
        return Entry(
            cls, [("inplanes", 8), ("planes", 8 if basic else 2)],
            [
                ("kernel_size", 3, [5, 1]), ("stride", 1, [2]),
                (
                    "downsample", None,
                    [pool(2, ceil_mode=True), torch.nn.Tanh()],
                ),
                ("groups", 1, [] if basic else [2, 3]),
                ("base_width", 64, [] if basic else [32, 128]),
                ("dilation", 1, [] if basic else [2, 3]),
                ("norm_layer", batch, [getter(), getter(1)]),
            ], modes(x), fix,
        )

    return make


for module, one_d in [(resnet_1d, True), (resnet_2d, False)]:
    name = module.__name__.split(".")[-1]
    ENTRIES[f"{name}_convolution"] = convolution(module, one_d)
    ENTRIES[f"{name}_basic_block"] = block(module, one_d, True)
    ENTRIES[f"{name}_bottleneck"] = block(module, one_d, False)

STEPS = [("dt_min", 0.001, [0.002, 0.01]), ("dt_max", 0.1, [0.2, 0.05])]


@entry
def s4d(r, folder):
    x = normal(int(r.integers(2**30)), 2, 4, 4)
    if pick(r, True, False):
        return Entry(
            S4DKernel, [("d_model", 4)], [("N", 64, [8, 62])] + STEPS,
            lambda m, v: [m(12), m(L=12)],
        )
    return Entry(
        S4D, [("d_model", 4)],
        [
            ("d_state", 64, [8, 62]), ("dropout", 0.0, [0.5, 0.1]),
            ("transposed", True, [False]),
        ] + STEPS, modes(x),
    )


@entry
def s4_model(r, folder):
    x = normal(int(r.integers(2**30)), 2, 3, 8)
    return Entry(
        S4Model, [("d_input", 3), ("d_output", 2)],
        [
            ("d_model", 256, [8, 12]), ("d_state", 64, [8, 62]),
            ("n_layers", 4, [1, 2]), ("dropout", 0.2, [0.0, 0.5]),
        ] + STEPS, modes(x),
    )


@entry
def autoencoder(r, folder):
    s = int(r.integers(2**30))
    x = normal(s, 2, 4, 24)
    relu, norm = torch.nn.ReLU, torch.nn.BatchNorm1d
    act = ("activation", relu, [torch.nn.Tanh, torch.nn.ELU])
    out = (
        "output_activation", lambda v: v["activation"],
        [torch.nn.Sigmoid, torch.nn.Identity],
    )
    norms = ("norm", norm, [torch.nn.InstanceNorm1d, GroupNorm1DGetter()])
    decode = ("decode_channels", 4, [2, 6])
    skip = ("skip_connection", None, [AddSkipConnect(), ConcatSkipConnect()])
    first = [
        ("stride", 1, [2]), ("groups", 1, [2]),
    ]

    def fix(k):
        # the bottom of a concatenation has to suit the groups
        if k["groups"]:
            k["skip_connection"] = min(k["skip_connection"], 1)

    if pick(r, True, False):
        return Entry(
            ConvBlock,
            [("in_channels", 4), ("encode_channels", 6), ("kernel_size", 5)],
            first + [act, norms, decode, out, skip],
            lambda m, v: [
                m.eval().encode(x), m.train().encode(x),
                m.eval().decode(
                    torch.cat([m.encode(x)] * 2, 1)
                    if isinstance(v["skip_connection"], ConcatSkipConnect)
                    else m.encode(x)
                ),
            ], fix,
        )
    return Entry(
        ConvolutionalAutoencoder,
        [
            ("in_channels", 4), ("encode_channels", [6, 4]),
            ("kernel_size", 5),
        ], first + [act, out, norms, decode, skip], modes(x), fix,
    )


@entry
def coding(r, folder):
    x = normal(int(r.integers(2**30)), 2, 4, 25)
    torch.manual_seed(3)
    skip = pick(r, None, AddSkipConnect())
    m = ConvolutionalAutoencoder(
        4, [6, 4], 5, stride=2, skip_connection=skip
    ).eval()
    if skip or pick(r, True, False):
        return Entry(
            lambda **k: m.encode(x, **k), [],
            [("return_states", False, [True])], named=True,
        )
    z = m.encode(x)
    return Entry(
        lambda **k: m.decode(z, **k), [],
        [("states", None, []), ("input_size", None, [25, 26])], named=True,
    )


@entry
def concat(r, folder):
    s = int(r.integers(2**30))
    x, y = normal(s, 2, 4, 9), normal(s + 1, 2, 4, 9)
    if pick(r, True, False):
        return Entry(
            ConcatSkipConnect, [], [("groups", 1, [2, 4])],
            lambda m, v: m(x, y),
        )
    return Entry(
        pick(r, AddSkipConnect, ConcatSkipConnect)(),
        [("X", x), ("state", y)],
    )


# ---------------------------------------------------------------- waveforms

ALIGNED = [
    "chirp_mass", "mass_ratio", "chi1", "chi2", "distance", "phic",
    "inclination",
]


def aligned(cls):
    def make(r, folder):
        s, n = int(r.integers(2**30)), int(r.integers(1, 4))
        x = masses(s, n) + spins(s + 2, n) + extrinsic(s + 4, n)
        return Entry(
            cls(),
            [("f", FREQS.clone()), *zip(ALIGNED, x), ("f_ref", 20.0)],
            use=lambda out, v: [h * 1e21 for h in out],
        )

    return make


ENTRIES["taylorf2"] = aligned(TaylorF2)
ENTRIES["phenom_d"] = aligned(IMRPhenomD)


@entry
def phenom_p(r, folder):
    s, n = int(r.integers(2**30)), int(r.integers(1, 4))
    names = [
        "chirp_mass", "mass_ratio", "s1x", "s1y", "s1z", "s2x", "s2y",
        "s2z", "distance", "phic", "inclination",
    ]
    x = masses(s, n) + spins(s + 2, n, 6) + extrinsic(s + 8, n)
    zeros = torch.zeros(n, dtype=torch.float64)
    return Entry(
        IMRPhenomPv2(),
        [("fs", FREQS.clone()), *zip(names, x), ("f_ref", 20.0)],
        [("tc", zeros, [uniform(s + 11, -0.1, 0.1, n)])],
        lambda out, v: [h * 1e21 for h in out],
    )


@entry
def generator(r, folder):
    s = int(r.integers(2**30))
    mc, q = uniform(s, 20, 40, 2), uniform(s + 1, 0.4, 0.95, 2)
    m1, m2 = conversion.chirp_mass_and_mass_ratio_to_components(mc, q)
    s1, s2 = spins(s + 2, 2)
    d, phic, inc = extrinsic(s + 4, 2)
    pars = dict(
        chirp_mass=mc, mass_ratio=q, mass_1=m1, mass_2=m2, chi1=s1, chi2=s2,
        s1z=s1, s2z=s2, distance=d, phic=phic, inclination=inc,
    )
    return Entry(
        TimeDomainCBCWaveformGenerator,
        [
            ("approximant", IMRPhenomD()), ("sample_rate", 512),
            ("duration", 1), ("f_min", 25), ("f_ref", 30),
            ("right_pad", 0.25),
        ], use=lambda m, v: [h * 1e21 for h in m(**pars)],
    )


@entry
def ringdown(r, folder):
    s = int(r.integers(2**30))
    x = dict(
        frequency=uniform(s, 100, 400, 2, 1),
        quality=uniform(s + 1, 5, 20, 2, 1),
        epsilon=uniform(s + 2, 0.01, 0.1, 2, 1),
        phase=uniform(s + 3, 0, 6, 2, 1),
        inclination=uniform(s + 4, 0, 3, 2, 1),
        distance=uniform(s + 5, 10, 90, 2, 1),
    )
    if pick(r, True, False):
        return Entry(
            Ringdown, [("sample_rate", 1024), ("duration", 0.25)],
            use=lambda m, v: list(m(**x)),
        )
    return Entry(Ringdown(1024, 0.25), list(x.items()))


@entry
def sine_gaussian(r, folder):
    s = int(r.integers(2**30))
    x = dict(
        quality=uniform(s, 4, 20, 3), frequency=uniform(s + 1, 60, 200, 3),
        hrss=uniform(s + 2, 1, 5, 3), phase=uniform(s + 3, 0, 6, 3),
        eccentricity=uniform(s + 4, 0.05, 0.9, 3),
    )
    if pick(r, True, False):
        return Entry(
            SineGaussian, [("sample_rate", 1024), ("duration", 0.25)],
            use=lambda m, v: list(m(**x)),
        )
    return Entry(SineGaussian(1024, 0.25), list(x.items()))


@entry
def bilby_spins(r, folder):
    s = int(r.integers(2**30))
    names = [
        "theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12", "a_1", "a_2",
        "mass_1", "mass_2", "f_ref", "phi_ref",
    ]
    x = [uniform(s + i, 0.1, 3, 3) for i in range(5)] + [
        uniform(s + 5, 0.1, 0.9, 3), uniform(s + 6, 0.1, 0.9, 3),
        uniform(s + 7, 30, 50, 3), uniform(s + 8, 10, 30, 3), 20.0,
        uniform(s + 9, 0, 6, 3),
    ]
    return Entry(conversion.bilby_spins_to_lalsim, list(zip(names, x)))


@entry
def component_masses(r, folder):
    mc, q = masses(int(r.integers(2**30)), 3)
    return Entry(
        conversion.chirp_mass_and_mass_ratio_to_components,
        [("chirp_mass", mc), ("mass_ratio", q)],
    )
