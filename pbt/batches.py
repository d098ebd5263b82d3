"""Which axes of the package's computations hold independent elements, and
the check that they are: used for all of them (C35) and by the properties of
single computations."""
import sys

import numpy as np
import torch
from hypothesis import strategies as st

from pbt.core import Facet, check, close
from pbt.subjects import SUBJECTS, built, flat

# name: function of (subject, inputs) giving the axes along which elements
# are independent: ({input index: axis}, axes of the results)
AXES = {}


def lead(out=lambda x, d: d, first=0):
    """Every leading axis of one input."""

    def axes(s, x):
        n = x[first].ndim - 1
        return [({first: d}, out(x, d)) for d in range(n)]

    return axes


def fixed(*options):
    return lambda s, x: list(options)


for _k in ("spectral_density", "fast_spectral_density", "SpectralDensity",
           "median", "IIRFilter", "TophatIntegrator", "LeakyIntegrator",
           "SingleQTransform"):
    AXES[_k] = lead()


def _cross(s, x):
    if x[0].ndim != x[2].ndim:
        return [({0: 0}, 0)]
    return [({0: d, 2: d}, d) for d in range(x[0].ndim - 1)]


AXES["cross_spectral_density"] = _cross
AXES["truncate_inverse_power_spectrum"] = fixed(({0: 0}, 0), ({0: 1}, 1))


def _whiten(s, x):
    n = x[1].ndim
    return [
        ({0: 0, **({1: 0} if n == 3 else {})}, 0),
        ({0: 1, **({1: n - 2} if n > 1 else {})}, 1),
    ]


AXES["normalize_by_psd"] = AXES["whiten"] = AXES["Whiten"] = AXES["compute_ifo_snr"] = _whiten
AXES["FixedWhiten"] = AXES["ChannelWiseScaler"] = fixed(({0: 0}, 0))
AXES["compute_network_snr"] = fixed(({0: 0}, 0))
AXES["reweight_snrs"] = AXES["SnrRescaler"] = fixed(({0: 0, 1: 0}, 0))
AXES["compute_antenna_responses"] = fixed(
    ({0: 0, 1: 0, 2: 0}, 0), ({3: 0}, 2)
)
AXES["shift_responses"] = fixed(({0: 0, 1: 0, 2: 0}, 0), ({0: 1, 3: 0}, 1))
AXES["compute_observed_strain"] = fixed(
    ({0: 0, 1: 0, 2: 0, 5: 0, 6: 0}, 0), ({3: 0, 4: 0}, 1)
)
AXES["WaveformProjector"] = fixed(({i: 0 for i in range(5)}, 0))


def _slice(s, x):
    if x[0].ndim == 1:
        return [({1: 0}, 0)]
    if x[0].ndim == 2:
        return [({1: 0}, 0), ({0: 0, **({1: 1} if x[1].ndim > 1 else {})}, 1)]
    return [({0: 0, 1: 0}, 0), ({0: 1}, 1)]


AXES["slice_kernels"] = _slice
AXES["unfold_windows"] = lead(lambda x, d: d + 1)


def _pearson(s, x):
    gap = x[0].ndim - x[1].ndim
    return [
        ({0: d, **({1: d - gap} if d >= gap else {})}, d + 1)
        for d in range(x[0].ndim - 1)
    ]


AXES["ShiftedPearsonCorrelation"] = _pearson
AXES["Decimator"] = AXES["Heterodyne"] = fixed(({0: 0}, 0), ({0: 1}, 1))
AXES["MultiResolutionSpectrogram"] = AXES["Decimator"]
AXES["QTile"] = lead(lambda x, d: d + 3 - x[0].ndim)


def _spline1(s, x):
    n = x[0].ndim
    out = [({0: d}, d + 4 - n) for d in range(n - 1)]
    return out + ([({1: 0}, 3)] if len(x) > 1 else [])


def _spline2(s, x):
    n = x[0].ndim
    out = [({0: d}, d + 4 - n) for d in range(n - 2)]
    return out + ([({1: 0}, 3), ({2: 0}, 2)] if len(x) > 1 else [])


AXES["SplineInterpolate1D"] = _spline1
AXES["SplineInterpolate2D"] = _spline2
for _k in ("GroupNorm", "resnet_1d", "resnet_2d", "s4d", "s4_model",
           "autoencoder"):
    AXES[_k] = fixed(({0: 0}, 0))


def _frequency_domain(s, x):
    # the reference grid of the models is not the given one
    return [({i: 0 for i in range(1, len(x))}, 0), ({0: 0}, 1)]


for _k in ("taylorf2", "phenom_d", "phenom_p"):
    AXES[_k] = _frequency_domain


def _all(s, x):
    return [({i: 0 for i in range(len(x))}, 0)]


for _k in ("ringdown", "sine_gaussian", "bilby_spins", "component_masses"):
    AXES[_k] = _all
for _k in ("cosine", "sine", "log_uniform", "log_normal", "power_law",
           "comoving_redshift", "comoving_distance", "rate_evolution"):
    AXES[_k] = fixed(({0: 0}, [None, 0, None]))

# only permuted
PERMUTED = {
    "QScan": lead(),
    "generator": _all,
    "SnapshotterModule": lambda s, x: (
        [({0: 0, 1: 0}, [1, 0])] if s.info["groups"] in (None, [3]) else []
    ),
    "OnlineAveragerModule": lambda s, x: (
        [({0: 1, 1: 0}, 0)] if s.info["given"] else [({0: 1}, 0)]
    ),
}
# the inputs in which results are homogeneous
DATA = {
    **{k: [0] for k in (
        "spectral_density", "fast_spectral_density", "SpectralDensity",
        "median", "IIRFilter", "TophatIntegrator", "SingleQTransform",
        "cross_spectral_density", "truncate_inverse_power_spectrum",
        "normalize_by_psd", "whiten", "Whiten", "compute_ifo_snr",
        "FixedWhiten", "compute_network_snr", "reweight_snrs", "SnrRescaler",
        "shift_responses", "slice_kernels", "unfold_windows",
        "ShiftedPearsonCorrelation", "Decimator", "Heterodyne",
        "MultiResolutionSpectrogram", "QTile", "SplineInterpolate1D",
        "SplineInterpolate2D",
    )},
    "compute_observed_strain": [5, 6],
    "WaveformProjector": [3, 4],
}
LOOSE = {"GroupNorm", "resnet_1d", "resnet_2d", "s4d", "s4_model",
         "autoencoder", "SplineInterpolate1D", "SplineInterpolate2D"}
NAMES = sorted([*AXES, *PERMUTED])


@st.composite
def cases(draw, names):
    return dict(
        subject=draw(st.sampled_from(list(names))),
        config=draw(st.integers(0, 10**6)), seed=draw(st.integers(0, 10**6)),
        axis=draw(st.integers(0, 5)),
        pick=draw(st.lists(st.integers(0, 11), min_size=1, max_size=5)),
        spread=draw(st.sampled_from([0, 0, 1, 3])),
        # a random selection of so many elements instead
        many=draw(st.sampled_from([0] * 7 + [7, 33, 150, 600])),
    )


def by_element(t, axis):
    """Largest value of each element along the axis, to be broadcast."""
    t = t.detach()
    t = t.abs() if t.is_complex() else t.double().abs()
    t = torch.where(torch.isfinite(t), t, torch.zeros_like(t))
    rest = tuple(d for d in range(t.ndim) if d != axis)
    if rest and t.numel():
        t = t.amax(rest, keepdim=True)
    return t.numpy()


def run(c, ctx):
    s = built(c)
    name = c["subject"]
    x = s.feed(c["seed"])
    options = AXES.get(name, PERMUTED.get(name))(s, x)
    ctx.label(name)
    if not options:
        return ctx.trivial()
    ins, outs = options[c["axis"] % len(options)]
    i, d = next(iter(ins.items()))
    n = x[i].shape[d]
    if name in PERMUTED:
        pick = sorted(range(n), key=lambda k: c["pick"][k % len(c["pick"])])
    else:
        pick = [k % n for k in c["pick"]]
        if c["many"]:
            r = np.random.default_rng(c["seed"] + 2)
            pick = [int(k) for k in r.integers(0, n, c["many"])]
            ctx.label("many")
    ctx.trivial(n < 2 or pick == list(range(n)))
    ctx.label(
        "subset" if set(pick) != set(range(n)) else "all",
        f"axis {d} of {x[i].ndim}",
    )
    if c["spread"] and i in DATA.get(name, []):
        ctx.label("spread")
        r = np.random.default_rng(c["seed"] + 1)
        for j in DATA[name]:
            e = ins.get(j)
            if e is None:
                continue
            by = 10 ** r.uniform(-c["spread"], c["spread"], x[j].shape[e])
            shape = [1] * x[j].ndim
            shape[e] = -1
            x[j] = x[j] * torch.tensor(by).view(shape).to(x[j].dtype)
    pick = torch.tensor(pick)
    y = [
        t.index_select(ins[j], pick) if j in ins else t.clone()
        for j, t in enumerate(x)
    ]
    single = any(t.dtype in (torch.float32, torch.complex64) for t in x)
    whole = flat(s.call(s.make(), x))
    part = flat(s.call(s.make(), y))
    check(len(whole) == len(part), "the number of results changed")
    if isinstance(outs, int):
        outs = [outs] * len(whole)
    for k, (w, p, axis) in enumerate(zip(whole, part, outs)):
        if axis is None:
            continue
        check(
            w.ndim > axis and w.shape[axis] == n,
            f"result {k} of shape {tuple(w.shape)} has no {n} elements "
            f"along axis {axis}",
        )
        want = w.detach().index_select(axis, pick)
        check(p.dtype == w.dtype, f"result {k}: {p.dtype}, was {w.dtype}")
        s32 = single or want.dtype in (torch.float32, torch.complex64)
        rtol = 1e-4 if name in LOOSE else 2e-5 if s32 else 1e-9
        close(
            p, want, f"{name}: elements {pick.tolist()[:9]} of {n} alone "
            f"(result {k})", rtol=rtol, scale=by_element(want, axis),
            equal_nan=True,
        )


def independent(module, *names, quick=240, shards=1):
    """Give a property's module the check for its own computations."""
    for k in names:
        assert k in NAMES, k

    def elements_are_independent(c, ctx):
        return run(c, ctx)

    sys.modules[module].__dict__.setdefault("FACETS", []).append(
        Facet(
            "elements_are_independent", cases(names),
            elements_are_independent, quick, quick * 20, shards, [],
        )
    )
