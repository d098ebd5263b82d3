"""C38: computations stay on the device of their inputs.

There is no GPU here, so the second device is emulated (pbt/device.py): its
tensors hold their data on the CPU, and mixing the two devices raises, as it
does on a GPU.
"""
import copy
import functools
import os
import traceback

import numpy as np
import torch
from hypothesis import strategies as st

from ml4gw import augmentations, distributions as dist, transforms as T
from ml4gw.dataloading import (
    ChunkedTimeSeriesDataset,
    InMemoryDataset,
)
from ml4gw.nn.streaming import OnlineAverager
from ml4gw.utils import slicing
from pbt.histories import agree, copies
from pbt.core import PKG, Violation, check, close, facet, same
from pbt.device import DEVICE, DeviceMix, Elsewhere, Held, send
from pbt.subjects import SUBJECTS, built, flat

RULE = (
    "A case is one of the package's computations, a configuration, inputs and "
    "the way its state came to the device. Non-trivial: some input or state "
    "is held on the emulated device."
)
ASSUMPTIONS = [
    "the second device is emulated: tensors that claim another device, refuse "
    "to be mixed with those of the CPU as CUDA does, and compute on the CPU; "
    "kernels of real devices are not exercised",
    "as on CUDA, zero-dimensional tensors of the CPU are accepted as operands "
    "and indices may live on the CPU",
    "WaveformSampler, which keeps its waveforms where they were given, and "
    "the initial state of a Snapshotter, which has no tensors to follow, are "
    "left out",
]

torch.__future__.set_overwrite_module_params_on_conversion(True)



class NotEmulated(Exception):
    """The emulated device gave up; nothing was learnt."""


def there(fn, what):
    """fn() with the other device at hand."""
    try:
        with Elsewhere():
            return fn()
    except DeviceMix as e:
        at = [
            f for f in traceback.extract_tb(e.__traceback__)
            if f.filename.startswith(PKG)
        ]
        at = (
            f"{at[-1].filename.removeprefix(PKG)}, in {at[-1].name}"
            if at else "outside the package"
        )
        raise Violation(
            f"{what} fails on another device ({at}): {str(e)[:200]}"
        ) from None
    except (RuntimeError, NotImplementedError, AssertionError) as e:
        # accepted on the CPU, as the caller has seen, so the cause lies in
        # the emulation
        raise NotEmulated(f"{type(e).__name__}: {str(e)[:200]}") from e


def emulated(body):
    @functools.wraps(body)
    def run(c, ctx):
        try:
            body(c, ctx)
        except NotEmulated:
            ctx.label("not emulated")
            ctx.trivial(True)
            if os.environ.get("VERIF_EMULATION"):  # for development
                raise

    return run


def home(out, what):
    """The data of results, all of which have to be on the device."""
    got = []
    for i, t in enumerate(flat(out)):
        check(isinstance(t, Held), f"{what}: result {i} is on the CPU")
        got.append(t.inner.resolve_conj().resolve_neg())
    return got


def arrive(m, way):
    """Bring a module to the device."""
    if not isinstance(m, torch.nn.Module):
        return m
    if way == "copied":
        m = copy.deepcopy(m)
    if way == "inside":
        # as a member of a larger model
        torch.nn.ModuleDict({"a": torch.nn.ModuleList([m])}).to(DEVICE)
    elif way == "roundtrip":
        m.to(DEVICE)
        m.to("cpu")
        m.to(DEVICE)
    else:
        m.to(DEVICE)
    for k, t in m.state_dict().items():
        assert isinstance(t, Held), k
    return m


WAYS = ["moved", "used before", "copied", "inside", "roundtrip"]
LEFT_OUT = {
    "WaveformSampler", "in_memory",
    # their bounds decide: see `distributions_on_the_device`
    "cosine", "sine", "log_uniform", "log_normal", "power_law", "delta",
    "comoving_redshift", "comoving_distance", "rate_evolution",
}


@st.composite
def cases(draw):
    return dict(
        subject=draw(st.sampled_from(sorted(set(SUBJECTS) - LEFT_OUT))),
        config=draw(st.integers(0, 10**6)),
        seed=draw(st.integers(0, 10**6)),
        way=draw(st.sampled_from(WAYS)),
    )


@facet(cases(), quick=1000, thorough=15000, shards=8)
@emulated
def results_on_the_device(c, ctx):
    s = built(c)
    what = c["subject"]
    ctx.label(what, c["way"])
    x = s.feed(c["seed"])
    want = copies(s.call(s.make(), x))
    m = s.make()
    if c["way"] == "used before":
        s.call(m, s.feed(c["seed"] + 1))
    ctx.trivial(not x)

    def run():
        n = arrive(m, c["way"])
        y = send(x)
        with torch.no_grad():
            out = s.call(n, y)
        for i, (a, b) in enumerate(zip(y, x)):
            same(a.inner, b, f"{what}: input {i} after the call")
        return n, out

    n, out = there(run, what)
    got = home(out, what)
    agree(got, want, f"{what} on the device", x, loose=20)
    if c["way"] == "roundtrip" and isinstance(n, torch.nn.Module):
        # and home again
        with Elsewhere():
            n.to("cpu")
        agree(s.call(n, x), want, f"{what} back on the CPU", x, loose=20)


# ------------------------------------------------------------------ fitting


def fit_scaler(r):
    ch = int(r.integers(1, 4)) if r.integers(2) else None
    bg = torch.from_numpy(r.normal(3, 2, ([ch] if ch else []) + [60])).float()
    x = torch.from_numpy(r.normal(3, 2, [2] + ([ch] if ch else []) + [20]))
    return (
        lambda: T.ChannelWiseScaler(ch), [bg],
        lambda m, b: m.fit(*b), [x.float()], lambda m, x: m(*x),
    )


def background(r):
    freq = bool(r.integers(2))
    bg = [
        torch.from_numpy(r.uniform(0.5, 2, 33) if freq else r.normal(size=512))
        for _ in range(2)
    ]
    kw = {} if freq else dict(fftlength=float(r.choice([0.5, 1.0])))
    if not freq and r.integers(2):
        kw["overlap"] = 0.25
    return bg, kw


def fit_whiten(r):
    bg, kw = background(r)
    hi, lo = [(None, None), (4.0, None), (4.0, 25.0)][r.integers(3)]
    x = torch.from_numpy(r.normal(size=(3, 2, 64)))
    return (
        lambda: T.FixedWhiten(2, 1.0, 64), bg,
        lambda m, b: m.fit(0.25, *b, highpass=hi, lowpass=lo, **kw),
        [x], lambda m, x: m(*x),
    )


def fit_snr(r):
    bg, kw = background(r)
    hi, lo = [(None, None), (4.0, None), (4.0, 25.0)][r.integers(3)]
    x = torch.from_numpy(r.normal(size=(3, 2, 64))).float()
    target = torch.from_numpy(r.uniform(1, 20, 3)).float()
    return (
        lambda: T.SnrRescaler(2, 64, 1.0, hi, lo), bg,
        lambda m, b: m.fit(*b, **kw), [x, target], lambda m, x: list(m(*x)),
    )


FITS = {"scaler": fit_scaler, "whiten": fit_whiten, "snr": fit_snr}


@st.composite
def fits(draw):
    return dict(
        kind=draw(st.sampled_from(sorted(FITS))),
        seed=draw(st.integers(0, 10**6)),
        order=draw(st.lists(
            st.sampled_from(["move", "fit", "fit other", "home"]), max_size=4,
        )),
    )


@facet(fits(), quick=160, thorough=4000, shards=4)
@emulated
def fitting_on_the_device(c, ctx):
    """However fits and moves are interleaved, a transform fitted last on
    some data computes the same."""
    make, bg, fit, x, call = FITS[c["kind"]](np.random.default_rng(c["seed"]))
    other = FITS[c["kind"]](np.random.default_rng(c["seed"]))[1]
    other = [b * 3 for b in other]
    m = make()
    fit(m, bg)
    want = copies(call(m, x))
    what = c["kind"]
    ctx.label(what, *c["order"])

    def run():
        m = make()
        for step in c["order"] + ["move", "fit"]:
            if step == "move":
                m.to(DEVICE)
            elif step == "home":
                m.to("cpu")
            else:
                b = bg if step == "fit" else other
                on = isinstance(next(iter(m.buffers())), Held)
                fit(m, send(b) if on else b)
        return m, call(m, send(x))

    m, out = there(run, f"fitting {what} after {c['order']}")
    for k, t in m.state_dict().items():
        check(isinstance(t, Held), f"{what}: fitted {k} is on the CPU")
    agree(home(out, what), want, f"{what} fitted on the device", x, loose=20)


# ------------------------------------------------------------ distributions


def t(*values):
    return [torch.tensor(v) for v in values]


def d_cosine(r):
    a, b = np.sort(r.uniform(-1.5, 1.5, 2))
    return dist.Cosine, t(a, b + 0.01), {}


def d_sine(r):
    a, b = np.sort(r.uniform(0.05, 3.0, 2))
    return dist.Sine, t(a, b + 0.01), {}


def d_log_uniform(r):
    a = r.uniform(0.1, 10)
    return dist.LogUniform, t(a, a * r.uniform(1.1, 50)), {}


def d_log_normal(r):
    return dist.LogNormal, t(r.uniform(-1, 2), r.uniform(0.1, 1.5)), {}


def d_power_law(r):
    a = r.uniform(0.5, 10)
    k = float(r.choice([-1, -2, 2, -4]))
    return dist.PowerLaw, t(a, a * r.uniform(1.1, 50)), dict(index=k)


def d_delta(r):
    return dist.DeltaFunction, t(r.uniform(-5, 5)), {}


def volume(r):
    kind = ["redshift", "comoving_distance", "luminosity_distance"]
    kind = kind[r.integers(3)]
    lo, hi = (0.0, 1.0) if kind == "redshift" else (10.0, 3000.0)
    a, b = np.sort(r.uniform(lo, hi, 2))
    b += 0.05 * (hi - lo)
    return t(a, b), dict(distance_type=kind, grid_size=2000)


def d_volume(r):
    bounds, kw = volume(r)
    return dist.UniformComovingVolume, bounds, kw


def d_rate(r):
    bounds, kw = volume(r)
    k = r.uniform(0.5, 3)
    bounds.insert(0, lambda z: (1 + z) ** k)
    return dist.RateEvolution, bounds, kw


DISTS = {
    k[2:]: v for k, v in list(globals().items()) if k.startswith("d_")
}


@st.composite
def densities(draw):
    return dict(
        kind=draw(st.sampled_from(sorted(DISTS))),
        seed=draw(st.integers(0, 10**6)),
        n=draw(st.integers(1, 40)),
        single=draw(st.booleans()),
    )


@facet(densities(), quick=300, thorough=6000, shards=2)
@emulated
def distributions_on_the_device(c, ctx):
    """Bounds given as tensors decide the device of samples and densities."""
    cls, bounds, kw = DISTS[c["kind"]](np.random.default_rng(c["seed"]))
    if c["single"]:
        bounds = [
            b.float() if isinstance(b, torch.Tensor) else b for b in bounds
        ]
    what = c["kind"]
    ctx.label(what)

    def sampled(d):
        torch.manual_seed(c["seed"])
        return d.sample((c["n"],))

    ref = cls(*bounds, **kw)
    want = sampled(ref)
    single = torch.zeros(1) if c["single"] else torch.zeros(1).double()

    def run():
        d = cls(*send(bounds), **kw)
        x = sampled(d)
        # one element and, below, many
        alone = d.sample()
        density = None
        if what != "delta":
            density = d.log_prob(send(want))
        return x, alone, density

    x, alone, density = there(run, f"sampling {what}")
    agree(home(x, f"samples of {what}"), [want], what, [single], loose=20)
    home(alone, f"one sample of {what}")
    if density is not None:
        agree(
            home(density, f"density of {what}"), [ref.log_prob(want)],
            f"log density of {what}", [single], loose=20,
        )


# ----------------------------------------------------------------- datasets


@st.composite
def datasets(draw):
    return dict(
        kind=draw(st.sampled_from(["memory", "chunked"])),
        channels=draw(st.integers(1, 3)),
        size=draw(st.integers(20, 60)),
        kernel=draw(st.integers(1, 9)),
        batch=draw(st.integers(1, 5)),
        stride=draw(st.integers(1, 4)),
        coincident=draw(st.booleans()),
        shuffle=draw(st.booleans()),
        y=draw(st.booleans()),
        given_there=draw(st.booleans()),
        seed=draw(st.integers(0, 10**6)),
    )


@facet(datasets(), quick=200, thorough=4000, shards=2)
@emulated
def datasets_on_the_device(c, ctx):
    """A dataset told a device gives the batches it gives on the CPU, there."""
    r = np.random.default_rng(c["seed"])
    what = c["kind"]
    ctx.label(what)
    if what == "memory":
        X = torch.from_numpy(r.normal(size=(c["channels"], c["size"])))
        X = X.float()
        y = None
        if c["y"] and c["coincident"]:
            y = torch.from_numpy(r.normal(size=c["size"]))
        kw = dict(
            batch_size=c["batch"], stride=c["stride"],
            coincident=c["coincident"], shuffle=c["shuffle"],
        )
        if not c["coincident"]:
            # one batch of no more than the kernels there are
            num = (c["size"] - c["kernel"]) // c["stride"] + 1
            kw["batch_size"] = min(c["batch"], num)
            kw["batches_per_epoch"] = 1

        def make(device):
            return InMemoryDataset(X, c["kernel"], y=y, device=device, **kw)
    else:
        chunks = [
            torch.from_numpy(
                r.normal(size=(2, c["channels"], c["size"] + int(k)))
            )
            for k in r.integers(0, 5, 2)
        ]

        def make(device):
            # a loader of chunks, which the dataset moves
            data = chunks
            if device is not None and c["given_there"]:
                data = send(chunks)
            return ChunkedTimeSeriesDataset(
                data, c["kernel"], c["batch"], 2, c["coincident"],
                device or "cpu",
            )

    def epochs(d):
        torch.manual_seed(c["seed"])
        out = []
        for _ in range(2):
            out.append([
                list(b) if isinstance(b, (tuple, list)) else b for b in d
            ])
        return out

    want = flat(epochs(make("cpu" if what == "memory" else None)))
    got = there(
        lambda: epochs(make(DEVICE if c["seed"] % 2 else str(DEVICE))),
        f"{what} dataset",
    )
    got = home(got, f"{what} dataset")
    check(len(got) == len(want), f"{len(got)} batches, not {len(want)}")
    for i, (g, w) in enumerate(zip(got, want)):
        same(g, w, f"{what}: batch {i} on the device")


# -------------------------------------------- augmentations, kernels, states


@st.composite
def randoms(draw):
    return dict(
        kind=draw(st.sampled_from(["invert", "reverse", "kernels", "state"])),
        shape=draw(st.tuples(
            st.integers(1, 4), st.integers(1, 3), st.integers(4, 20)
        )),
        prob=draw(st.sampled_from([0.0, 0.3, 0.7, 1.0])),
        n=draw(st.one_of(st.none(), st.integers(1, 6))),
        coincident=draw(st.booleans()),
        seed=draw(st.integers(0, 10**6)),
    )


@facet(randoms(), quick=200, thorough=4000, shards=2)
@emulated
def draws_on_the_device(c, ctx):
    x = torch.from_numpy(
        np.random.default_rng(c["seed"]).normal(size=c["shape"])
    ).float()
    what = c["kind"]
    ctx.label(what)
    if what == "state":
        def call(x):
            m = OnlineAverager(2, 1, 3, c["shape"][1]).to(x.device)
            return m.get_initial_state()
    elif what == "kernels":
        def call(x):
            y = x
            if c["n"] is not None:
                y = x[0]
            return slicing.sample_kernels(
                y, 3, N=c["n"], coincident=c["coincident"]
            )
    else:
        def call(x):
            cls = (
                augmentations.SignalInverter if what == "invert"
                else augmentations.SignalReverser
            )
            return cls(c["prob"]).to(x.device)(x)

    def seeded(x):
        torch.manual_seed(c["seed"])
        return call(x)

    want = copies(seeded(x.clone()))
    out = there(lambda: seeded(send(x)), what)
    for i, (g, w) in enumerate(zip(home(out, what), want)):
        same(g, w, f"{what} on the device (result {i})")
