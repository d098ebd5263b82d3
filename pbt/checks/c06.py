"""C06: detector responses project and delay as the geometry says."""
import lal
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.core import check, close, data, facet, fail, raises, same, upto

from ml4gw.gw import (
    compute_antenna_responses,
    compute_observed_strain,
    get_ifo_geometry,
    shift_responses,
)
from ml4gw.transforms import WaveformProjector

RULE = (
    "A case is a batch of sky positions and polarization angles, a network "
    "(real detectors or arbitrary tensors and vertices), a sample rate and "
    "polarization series in some order. Non-trivial: some detector is "
    "delayed by at least one sample, or several detectors or modes."
)
ASSUMPTIONS = [
    "delays are whole samples, truncated towards zero, and wrap around "
    "circularly; where the exact delay is within 1e-3 of a whole sample "
    "either neighbour is accepted",
]
C_LIGHT = 299792458.0
IFOS = ["H1", "L1", "V1", "K1"]
MODES = ["plus", "cross", "breathing"]

angle = st.one_of(
    st.floats(-7, 7), st.sampled_from([0.0, np.pi / 2, np.pi, -np.pi / 2])
)
dec_ = st.one_of(
    st.floats(-np.pi / 2, np.pi / 2), st.sampled_from([0.0, np.pi / 2])
)


@st.composite
def sky(draw, b):
    return [
        [draw(dec_) for _ in range(b)],
        [draw(angle) for _ in range(b)],
        [draw(angle) for _ in range(b)],
    ]


def modes_strategy():
    return st.lists(
        st.sampled_from(MODES), min_size=1, max_size=3, unique=True
    )


def ifos_strategy():
    return st.lists(
        st.sampled_from(IFOS), min_size=1, max_size=4, unique=True
    )


def lal_response(ifo, dec, psi, phi):
    """(plus, cross, breathing) and delay in seconds."""
    det = lal.cached_detector_by_prefix[ifo]
    fp, fc, fb, _, _, _ = lal.ComputeDetAMResponseExtraModes(
        det.response, phi, dec, psi, 0.0
    )
    loc = np.asarray(det.location, float)
    n = np.array(
        [np.cos(dec) * np.cos(phi), np.cos(dec) * np.sin(phi), np.sin(dec)]
    )
    return dict(plus=fp, cross=fc, breathing=fb), -loc @ n / C_LIGHT


@st.composite
def antenna_cases(draw):
    b = draw(upto(1, 4, 60))
    return dict(
        b=b, sky=draw(sky(b)), ifos=draw(ifos_strategy()),
        modes=draw(modes_strategy()),
        dtype=draw(st.sampled_from(["float32", "float64"])),
    )


@facet(antenna_cases(), quick=4000, thorough=60000, shards=4, large=120)
def antenna_equals_lal(c, ctx):
    dtype = getattr(torch, c["dtype"])
    dec, psi, phi = (torch.tensor(v, dtype=dtype) for v in c["sky"])
    tensors, vertices = get_ifo_geometry(*c["ifos"])
    check(
        tuple(tensors.shape) == (len(c["ifos"]), 3, 3)
        and tuple(vertices.shape) == (len(c["ifos"]), 3),
        f"geometry of {c['ifos']}: {tensors.shape}, {vertices.shape}",
    )
    got = compute_antenna_responses(
        np.pi / 2 - dec, psi, phi, tensors, c["modes"]
    )
    want = np.zeros((c["b"], len(c["modes"]), len(c["ifos"])))
    for r in range(c["b"]):
        for k, ifo in enumerate(c["ifos"]):
            f, _ = lal_response(
                ifo, float(dec[r]), float(psi[r]), float(phi[r])
            )
            for m, mode in enumerate(c["modes"]):
                want[r, m, k] = f[mode]
    close(
        got, want, f"antenna response to {c['modes']}",
        atol=5e-6 if c["dtype"] == "float32" else 6e-7,
    )
    for k, ifo in enumerate(c["ifos"]):
        loc = np.asarray(lal.cached_detector_by_prefix[ifo].location)
        close(vertices[k], loc, f"position of {ifo}", atol=0.6)
        resp = np.asarray(lal.cached_detector_by_prefix[ifo].response)
        close(tensors[k], resp, f"tensor of {ifo}", atol=2e-7)
    ctx.label(*c["modes"], *c["ifos"])


@st.composite
def strain_cases(draw):
    b, k = draw(upto(1, 4, 40)), draw(upto(1, 3, 8))
    return dict(
        b=b, k=k, sky=draw(sky(b)), modes=draw(modes_strategy()),
        n=draw(upto(1, 60, 9000)),
        fs=draw(st.sampled_from([1.0, 0.5, 16.0, 100.0, 819.2, 2048.0, 16384.0])),
        radius=draw(st.sampled_from([0.0, 1e5, 6.4e6, 5e8])),
        dtype=draw(st.sampled_from(["float32", "float64"])),
        wdtype=draw(st.sampled_from(["float32", "float64"])),
        scale=draw(st.sampled_from([1.0, 1e-22])),
        seed=draw(st.integers(0, 2**32 - 1)),
    )


def geometry(c):
    rng = np.random.default_rng(c["seed"])
    t = rng.uniform(-0.5, 0.5, (c["k"], 3, 3)).astype(np.float32)
    t = (t + t.transpose(0, 2, 1)) / 2
    v = (rng.uniform(-1, 1, (c["k"], 3)) * c["radius"]).astype(np.float32)
    return t, v


def polarization_tensors(dec, psi, phi):
    theta = np.pi / 2 - dec
    u = np.array(
        [np.cos(phi) * np.cos(theta), np.cos(theta) * np.sin(phi), -np.sin(theta)]
    )
    v = np.array([-np.sin(phi), np.cos(phi), 0.0])
    m = -u * np.sin(psi) - v * np.cos(psi)
    n = -u * np.cos(psi) + v * np.sin(psi)
    return dict(
        plus=np.outer(m, m) - np.outer(n, n),
        cross=np.outer(m, n) + np.outer(n, m),
        breathing=np.outer(m, m) + np.outer(n, n),
    )


def delay_samples(dec, phi, vertex, fs):
    n = np.array(
        [np.cos(dec) * np.cos(phi), np.cos(dec) * np.sin(phi), np.sin(dec)]
    )
    return -float(n @ vertex.astype(float)) * fs / C_LIGHT


def candidates(d, eps):
    """Whole-sample delays accepted for an exact delay of d samples."""
    out = {int(np.trunc(d - eps)), int(np.trunc(d)), int(np.trunc(d + eps))}
    return sorted(out)


def compare_shifted(got, base, d, what, atol, eps):
    err = []
    for s in candidates(d, eps):
        want = np.roll(base, s)
        if got.shape == want.shape and np.all(np.abs(got - want) <= atol):
            return s
        err.append(s)
    fail(
        f"{what}: expected the projected series delayed by {err} samples "
        f"(exact {d:.6f}); got {got[:6]}..., expected {want[:6]}..."
    )


@facet(strain_cases(), quick=5000, thorough=80000, shards=5, large=120)
def strain_equals_reference(c, ctx):
    dtype, wdtype = getattr(torch, c["dtype"]), np.dtype(c["wdtype"])
    dec, psi, phi = (torch.tensor(v, dtype=dtype) for v in c["sky"])
    t, v = geometry(c)
    pols = {
        m: data(c["seed"] + j, (c["b"], c["n"]), "normal", wdtype, c["scale"])
        for j, m in enumerate(c["modes"])
    }
    P = {m: torch.from_numpy(p.copy()) for m, p in pols.items()}
    T, V = torch.from_numpy(t), torch.from_numpy(v)
    got = compute_observed_strain(dec, psi, phi, T, V, c["fs"], **P)
    check(
        tuple(got.shape) == (c["b"], c["k"], c["n"]),
        f"strain has shape {tuple(got.shape)}",
    )
    got = got.double().numpy()
    eps = 1e-3 if c["dtype"] == "float64" else 1e-3 + 2e-6 * c["radius"] * c[
        "fs"
    ] / C_LIGHT
    shifted = False
    for r in range(c["b"]):
        pt = polarization_tensors(
            float(dec[r]), float(psi[r]), float(phi[r])
        )
        for k in range(c["k"]):
            base = sum(
                np.sum(pt[m] * t[k].astype(float)) * p[r].astype(float)
                for m, p in pols.items()
            )
            d = delay_samples(float(dec[r]), float(phi[r]), v[k], c["fs"])
            s = compare_shifted(
                got[r, k], base, d, f"strain of row {r} at detector {k}",
                1e-5 * c["scale"] * 5, eps,
            )
            shifted |= s != 0
    for m, p in pols.items():
        same(P[m], p, f"{m} after the call")
    ctx.label("delayed" if shifted else "not delayed", *c["modes"])
    ctx.trivial(not shifted and c["k"] == 1 and len(pols) == 1)


@st.composite
def projector_cases(draw):
    b = draw(upto(1, 3, 40))
    return dict(
        b=b, sky=draw(sky(b)), ifos=draw(ifos_strategy()),
        modes=draw(modes_strategy()), n=draw(upto(4, 120, 3000)),
        fs=draw(st.sampled_from([256.0, 409.6, 2048.0, 4096.0, 16384.0])),
        dtype=draw(st.sampled_from(["float32", "float64"])),
        seed=draw(st.integers(0, 2**32 - 1)),
    )


@facet(projector_cases(), quick=3000, thorough=50000, shards=4, large=120)
def projector_equals_lal(c, ctx):
    dtype = getattr(torch, c["dtype"])
    dec, psi, phi = (torch.tensor(v, dtype=dtype) for v in c["sky"])
    pols = {
        m: data(c["seed"] + j, (c["b"], c["n"]), "normal", np.float32)
        for j, m in enumerate(c["modes"])
    }
    module = WaveformProjector(c["ifos"], c["fs"])
    P = {m: torch.from_numpy(p) for m, p in pols.items()}
    got = module(dec, psi, phi, **P)
    check(
        tuple(got.shape) == (c["b"], len(c["ifos"]), c["n"]),
        f"strain has shape {tuple(got.shape)}",
    )
    out = got.double().numpy()
    delayed = False
    for r in range(c["b"]):
        for k, ifo in enumerate(c["ifos"]):
            f, dt = lal_response(
                ifo, float(dec[r]), float(psi[r]), float(phi[r])
            )
            base = sum(f[m] * p[r].astype(float) for m, p in pols.items())
            # positions are stored in single precision (within 1 m)
            s = compare_shifted(
                out[r, k], base, dt * c["fs"], f"strain of row {r} at {ifo}",
                5e-5, 1e-3 + c["fs"] * (1e-8 + 1e-8),
            )
            delayed |= s != 0
    # other detectors, other rows and the order of polarizations do not matter
    rev = module(dec, psi, phi, **dict(reversed(list(P.items()))))
    close(rev, got, "polarizations in another order", atol=2e-5)
    i = c["seed"] % len(c["ifos"])
    alone = WaveformProjector([c["ifos"][i]], c["fs"])(dec, psi, phi, **P)
    close(alone[:, 0], got[:, i], f"{c['ifos'][i]} alone", atol=2e-5)
    r = c["seed"] % c["b"]
    row = module(
        dec[r : r + 1], psi[r : r + 1], phi[r : r + 1],
        **{m: p[r : r + 1] for m, p in P.items()},
    )
    close(row[0], got[r], f"row {r} alone", atol=2e-5)
    # linear in the polarizations
    if len(P) > 1:
        total = sum(module(dec, psi, phi, **{m: p}) for m, p in P.items())
        close(total, got, "sum over single polarizations", atol=3e-5)
    ctx.label("delayed" if delayed else "not delayed")


@st.composite
def shift_cases(draw):
    c = draw(strain_cases())
    c["modes"] = []
    return c


@facet(shift_cases(), quick=1500, thorough=30000, shards=2, large=120)
def shifts_equal_light_travel(c, ctx):
    dtype = getattr(torch, c["dtype"])
    dec, _, phi = (torch.tensor(v, dtype=dtype) for v in c["sky"])
    _, v = geometry(c)
    x = data(0, (c["b"], c["k"], c["n"]), "counter", np.dtype(c["wdtype"]))
    X = torch.from_numpy(x.copy())
    theta = np.pi / 2 - dec
    got = shift_responses(X, theta, phi, torch.from_numpy(v), c["fs"])
    check(tuple(got.shape) == x.shape, f"shape {tuple(got.shape)}")
    got = got.numpy()
    eps = 1e-3 + 2e-6 * c["radius"] * c["fs"] / C_LIGHT
    moved = False
    for r in range(c["b"]):
        for k in range(c["k"]):
            d = delay_samples(float(dec[r]), float(phi[r]), v[k], c["fs"])
            s = compare_shifted(got[r, k], x[r, k], d, f"row {r}, {k}", 0, eps)
            moved |= s != 0
    same(X, x, "responses after the call")
    ctx.trivial(not moved)


@st.composite
def bad_cases(draw):
    return dict(
        name=draw(
            st.sampled_from(["H2", "h1", "", "G1", "x", "longitudinal", "Plus"])
        ),
        good=draw(ifos_strategy()),
        modes=draw(modes_strategy()),
    )


@facet(bad_cases(), quick=200, thorough=1000)
def unknown_names_rejected(c, ctx):
    z = torch.zeros(2)
    raises(
        ValueError, lambda: get_ifo_geometry(*c["good"], c["name"]),
        f"interferometer {c['name']!r}",
    )
    t, v = get_ifo_geometry(*c["good"])
    raises(
        ValueError,
        lambda: compute_antenna_responses(z, z, z, t, c["modes"] + [c["name"]]),
        f"polarization {c['name']!r}",
    )


batches.independent(
    __name__, "compute_antenna_responses", "shift_responses", "compute_observed_strain", "WaveformProjector",
)
arguments.ways(
    __name__, "compute_antenna_responses", "compute_observed_strain",
    "shift_responses", "projector",
)
histories.pure(
    __name__, "compute_antenna_responses", "shift_responses",
    "compute_observed_strain", "WaveformProjector",
)
