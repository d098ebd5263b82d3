"""C36: results are homogeneous in the units of the data."""
import torch
from hypothesis import strategies as st

from pbt.histories import copies
from pbt.core import check, close, facet
from pbt.subjects import built, flat

RULE = (
    "A case is one of the package's computations on data, a configuration, "
    "inputs and a power of two by which some of the inputs are multiplied. "
    "Non-trivial: the factor is not one and the results are not all zero."
)
ASSUMPTIONS = [
    "factors are powers of two, by which arithmetic is exact, over a range "
    "in which the squares a computation has to take fit its precision",
    "results are compared to a relative 1e-5 of the largest value (1e-9 in "
    "double precision)",
]

# name: function of the subject giving relations: ({input: multiple of the
# exponent}, degrees of the results, largest exponent)
UNITS = {}


def units(names, *relations):
    for k in names.split():
        UNITS[k] = lambda s: list(relations)


units("spectral_density fast_spectral_density",
      ({0: 1}, 2, 70), ({1: 1}, 2, 30))
units("SpectralDensity", ({0: 1}, 2, 70))
units("cross_spectral_density",
      ({0: 1}, 1, 60), ({2: 1}, 1, 60), ({0: 1, 2: 1}, 2, 60))
units("median", ({0: 1}, 1, 90))
units("truncate_inverse_power_spectrum", ({0: 1}, 1, 150))
units("normalize_by_psd whiten Whiten", ({0: 1}, 1, 70), ({1: 2}, -1, 90),
      ({0: 1, 1: 2}, 0, 95))
units("FixedWhiten", ({0: 1}, 1, 90))
units("compute_ifo_snr compute_network_snr", ({0: 1}, 1, 55),
      ({1: 2}, -1, 55), ({0: 1, 1: 2}, 0, 55))
units("reweight_snrs", ({0: 1}, 0, 50), ({1: 1}, 1, 50), ({2: 2}, 1, 50),
      ({0: 1, 2: 2}, 1, 55))
units("SnrRescaler", ({0: 1}, 0, 45), ({1: 1}, 1, 45))
units("compute_antenna_responses", ({3: 1}, 1, 90))
units("shift_responses slice_kernels unfold_windows IIRFilter "
      "TophatIntegrator Decimator Heterodyne SplineInterpolate1D "
      "SplineInterpolate2D", ({0: 1}, 1, 80))
units("compute_observed_strain", ({5: 1, 6: 1}, 1, 90), ({3: 1}, 1, 50))
units("WaveformProjector", ({3: 1, 4: 1}, 1, 90))
units("SnapshotterModule", ({0: 1, 1: 1}, 1, 90))
UNITS["OnlineAveragerModule"] = lambda s: [
    ({0: 1, 1: 1} if s.info["given"] else {0: 1}, 1, 80)
]
units("ShiftedPearsonCorrelation", ({0: 1}, 0, 50), ({1: 1}, 0, 50),
      ({0: 1, 1: 1}, 0, 50))
units("MultiResolutionSpectrogram", ({0: 1}, 2, 45))
units("QScan", ({0: 1}, 0, 40))
UNITS["QTile"] = UNITS["SingleQTransform"] = lambda s: [
    ({0: 1}, 0 if s.info["norm"] else 2, 40)
]
# an amplitude over a distance
units("taylorf2 phenom_d", ({5: 1}, -1, 60))
units("phenom_p", ({9: 1}, -1, 60))
units("generator", ({8: 1}, -1, 60))
units("ringdown", ({5: 1}, -1, 60), ({2: 2}, 1, 60))
units("sine_gaussian", ({2: 1}, 1, 90))
units("component_masses", ({0: 1}, 1, 200))
NAMES = sorted(UNITS)
# signal-to-noise ratios and energies on the way are in single precision
SINGLE = {"SnrRescaler", "reweight_snrs"}


@st.composite
def cases(draw):
    return dict(
        subject=draw(st.sampled_from(NAMES)),
        config=draw(st.integers(0, 10**6)), seed=draw(st.integers(0, 10**6)),
        relation=draw(st.integers(0, 3)), double=draw(st.booleans()),
        size=draw(st.one_of(
            st.floats(-1, 1), st.sampled_from([-1.0, 1.0, -0.95, 0.95]),
        )),
    )


@facet(cases(), quick=2000, thorough=40000, shards=8)
def units_of_the_data_do_not_matter(c, ctx):
    s = built(c)
    name = c["subject"]
    relations = UNITS[name](s)
    by, degree, most = relations[c["relation"] % len(relations)]
    double = c["double"] and s.double

    def feed():
        x = s.feed(c["seed"])
        if not double:
            return x
        return [t.double() if t.is_floating_point() else t for t in x]

    def module():
        m = s.make()
        return m.double() if double and m is not None else m

    x = feed()
    want = copies(s.call(module(), x))
    # precision allows for more where everything is double
    wide = double and name not in SINGLE and all(
        w.dtype in (torch.float64, torch.complex128) for w in want
    )
    k = round(c["size"] * most * (2 if wide else 1))
    y = [
        t * 2.0 ** (k * by[i]) if i in by else t
        for i, t in enumerate(feed())
    ]
    for i in by:
        check(y[i].dtype == x[i].dtype, "harness: type of the input")
    got = flat(s.call(module(), y))
    ctx.label(name, "smaller" if k < 0 else "larger")
    ctx.trivial(k == 0 or not any(bool((w != 0).any()) for w in want))
    check(len(got) == len(want), "the number of results changed")
    for i, (g, w) in enumerate(zip(got, want)):
        check(g.dtype == w.dtype, f"result {i}: {g.dtype}, was {w.dtype}")
        wide = torch.complex128 if w.is_complex() else torch.float64
        single = w.dtype in (torch.float32, torch.complex64) or any(
            t.dtype in (torch.float32, torch.complex64) for t in x
        )
        g = g.detach().to(wide) * 2.0 ** (-k * degree)
        close(
            g, w.to(wide), f"{name}: inputs {sorted(by)} times 2**{k} "
            f"(x {sorted(by.values())}; result {i}, scaled back)",
            rtol=1e-5 if single else 1e-9, scale="max", equal_nan=True,
        )
