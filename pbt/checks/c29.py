"""C29: IMRPhenomD waveforms equal the LALSimulation model."""
import functools
import math

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.checks import c28
from pbt.checks.c28 import binary, inputs, log_floats
from pbt.core import check, close, facet, fail
from pbt.refs_cbc import (
    MTSUN, components, final_spin, lal_fd, resampled, ringdown, tables,
)

from ml4gw.waveforms import IMRPhenomD

RULE = (
    "A case is a batch of aligned-spin binaries with m2 <= m1, a frequency "
    "grid through inspiral, merger and ringdown and a reference frequency. "
    "Non-trivial: spinning or unequal bodies."
)
ASSUMPTIONS = [
    "LALSimulation interpolates the ringdown tables with splines and this "
    "package linearly; the models are compared to 1e-5 after resampling the "
    "tables, and with the package's own tables up to the effect of linear "
    "interpolation",
    "the frequencies where the three regions join are compared from either "
    "side of them",
]


@functools.lru_cache(None)
def models(how):
    return resampled(IMRPhenomD, how)


@functools.lru_cache(None)
def decisive(cls):
    """Whether the model's tables decide its ringdown."""
    t = tables(cls())
    if t is None:
        return False
    other = cls()
    for k, v in zip(("qnmdata_fring", "qnmdata_fdamp"), t[1:]):
        setattr(other, k, torch.from_numpy(v * 1.3))
    return cls, other


def usable():
    pair = decisive(IMRPhenomD)
    if not pair:
        return False
    one = torch.tensor([1.0], dtype=torch.float64)
    f = torch.tensor([0.05 / MTSUN / 2], dtype=torch.float64)
    a = [0.87 * one, one, 0 * one, 0 * one, one, 0 * one, 0 * one]
    with torch.no_grad():
        return not torch.allclose(
            IMRPhenomD()(f, *a, 100.0)[0].abs(),
            pair[1](f, *a, 100.0)[0].abs(), rtol=1e-3, atol=0,
        )


SPLINES = functools.lru_cache(None)(usable)


@st.composite
def cases(draw, **kw):
    kw.setdefault("q_low", 0.02)
    kw.setdefault("q_high", 1.0)
    c = draw(c28.cases(**kw))
    c["double"] = True
    # frequencies in units of the first binary's mass
    lo = draw(log_floats(0.001, 0.1))
    hi = draw(st.floats(lo, 0.2))
    m = sum(components(*c["rows"][0][:2])) * MTSUN
    c["lo"] = lo / m
    c["span"] = max(hi / lo, 1.001)
    c["f_ref"] = draw(st.one_of(
        log_floats(0.001, 0.02), log_floats(0.001, 0.15)
    )) / m
    return c


def phase_tol(eta, v, vr):
    """Rounding of the phase and of the single-precision tables."""
    return (
        c28.bounds(eta, v, True) + c28.bounds(eta, vr, True)
        + 1e-5 + 4e-6 / eta
    )


def compare(model, c, ctx, extra=0.0):
    f, args = inputs(c)
    with torch.no_grad():
        hc, hp = model(f, *args, c["f_ref"])
    c28.untouched(c, f, args)
    shape = (len(c["rows"]), c["n"])
    check(hp.shape == shape and hc.shape == shape, f"shape {hp.shape}")
    fn = f.numpy()
    used = 0
    for i in range(shape[0]):
        mc, q, c1, c2, d, phic, inc = (a[i].item() for a in args)
        m1, m2 = components(mc, q)
        M = (m1 + m2) * MTSUN
        wp, wc = lal_fd(
            "IMRPhenomD", m1, m2, (0, 0, c1), (0, 0, c2), d, phic, inc, fn,
            c["f_ref"],
        )
        eta = q / (1 + q) ** 2
        v = (math.pi * M * fn) ** (1 / 3)
        vr = np.asarray((math.pi * M * c["f_ref"]) ** (1 / 3))
        near = np.zeros(c["n"], bool)
        joins = [0.014, 0.018]
        if SPLINES():
            fr, fd = ringdown(IMRPhenomD, q, c1, c2)
            joins.append(fr / 2)
        for x in joins:
            near |= np.abs(M * fn / x - 1) < 1e-7
        ok = (M * fn < 0.21) & ~near & (vr**3 < 0.7)
        amp = np.abs(wp) * 2 / (1 + math.cos(inc) ** 2)
        tol = (phase_tol(eta, v, vr) + extra) * amp
        ok &= tol < 0.5 * amp
        if not ok.any():
            continue
        used += q != 1 or c1 != 0 or c2 != 0
        for name, x in zip(("inspiral", "intermediate", "ringdown"),
                           (0, 0.014, 0.04)):
            if (M * fn[ok] > x).any():
                ctx.label(name)
        close(hp[i].numpy()[ok], wp[ok], f"plus of binary {i}",
              rtol=1.0, scale=tol[ok])
        close(hc[i].numpy()[ok], wc[ok], f"cross of binary {i}",
              rtol=1.0, scale=tol[ok])
    ctx.trivial(not used)


@facet(cases(), quick=900, thorough=30000, shards=3, large=60)
def lal(c, ctx):
    if not SPLINES():
        ctx.label("no tables")
        return compare(IMRPhenomD(), c, ctx, 0.05)
    compare(models("spline"), c, ctx)


@st.composite
def sweeps(draw):
    """Binaries whose remnants spin about the same, for the tables."""
    c = draw(cases(mc=(5.0, 50.0)))
    q = draw(st.one_of(st.floats(0.02, 0.15), st.floats(0.15, 1.0)))
    chi = draw(st.floats(-0.98, 0.98))
    c["rows"] = [
        [r[0], q, max(-0.99, min(0.99, chi + 0.002 * k)), 0.0, 100.0, 0.3, 0.4]
        for k, r in enumerate([c["rows"][0]] * 12)
    ]
    c.update(n=9, grid="linear")
    m = sum(components(*c["rows"][0][:2])) * MTSUN
    c.update(lo=0.03 / m, span=5.0, f_ref=0.005 / m)
    return c


@facet(sweeps(), quick=300, thorough=5000, shards=2)
def ringdown_tables(c, ctx):
    """The package's own tables: linear interpolation of LAL's."""
    own = IMRPhenomD()
    f, args = inputs(c)
    with torch.no_grad():
        got = own(f, *args, c["f_ref"])
        if not SPLINES():
            ctx.label("no tables")
            return compare(own, c, ctx, 0.05)
        compare(models("spline"), c, ctx)
        want = models("linear")(f, *args, c["f_ref"])
        lal_like = models("spline")(f, *args, c["f_ref"])
    for k, name in enumerate(("cross", "plus")):
        scale = want[1].abs()
        try:
            close(got[k], want[k], f"{name}, linear tables",
                  rtol=2e-4, scale=scale)
        except Exception:
            # better interpolation is no fault
            close(got[k], lal_like[k], f"{name}, tables", rtol=2e-4,
                  scale=scale)


@facet(cases(mc=(2.0, 100.0)), quick=250, thorough=6000, shards=2, large=60)
def relate(c, ctx):
    with torch.no_grad():
        c28.relations(IMRPhenomD(), c, ctx, exchange=False)


@st.composite
def smooth_cases(draw):
    return dict(
        row=draw(binary(q_low=0.05, q_high=1.0, mc=(5.0, 60.0))),
        f_ref=draw(st.floats(0.002, 0.02)),
    )


@facet(smooth_cases(), quick=200, thorough=4000)
def joins(c, ctx):
    """Amplitude and phase are continuous with their slopes everywhere."""
    row = c["row"]
    M = sum(components(*row[:2])) * MTSUN
    args = [torch.tensor([v], dtype=torch.float64) for v in row]
    model = IMRPhenomD()
    fr = ringdown(IMRPhenomD, *row[1:4])[0] if SPLINES() else 0.08
    n = 4001
    mf = np.linspace(0.010, min(1.2 * fr, 0.2), n)
    with torch.no_grad():
        _, hp = model(
            torch.tensor(mf / M, dtype=torch.float64), *args, c["f_ref"] / M
        )
    h = hp[0].numpy()
    amp = np.log(np.abs(h))
    phase = np.unwrap(np.angle(h))
    ctx.trivial(row[1] == 1 and row[2] == 0 and row[3] == 0)
    for name, y, limit in (("amplitude", amp, 2e-2), ("phase", phase, 2.0)):
        # a step shows as a second difference larger than its neighbours'
        d = np.abs(np.diff(y, 2))
        typical = np.maximum(
            np.roll(d, 3) + np.roll(d, -3), np.median(d)
        )[3:-3]
        k = int(np.argmax(d[3:-3] / (typical + 1e-9)))
        jump = d[3:-3][k]
        if jump > 50 * typical[k] + 1e-6 and jump > 1e-3 * limit:
            fail(
                f"{name} jumps by {jump:.3g} at Mf = {mf[k + 4]:.5g} "
                f"(around it {typical[k]:.3g})"
            )


@st.composite
def spins(draw):
    return dict(
        q=draw(log_floats(0.02, 1)), c1=draw(st.floats(-1, 1)),
        c2=draw(st.floats(-1, 1)), mc=draw(log_floats(2, 100)),
    )


@facet(spins(), quick=300, thorough=5000)
def extremal(c, ctx):
    """Every spin up to the extremal one gives a finite waveform."""
    row = [c["mc"], c["q"], c["c1"], c["c2"], 100.0, 0.0, 0.3]
    M = sum(components(*row[:2])) * MTSUN
    args = [torch.tensor([v], dtype=torch.float64) for v in row]
    f = torch.linspace(0.002, 0.2, 50, dtype=torch.float64) / M
    spin, _ = final_spin(c["q"], c["c1"], c["c2"])
    ctx.trivial(abs(spin) < 0.3)
    if abs(spin) >= 1:
        return
    with torch.no_grad():
        hc, hp = IMRPhenomD()(f, *args, 0.005 / M)
    check(
        hp.isfinite().all() and hc.isfinite().all(), "waveform is not finite"
    )


@st.composite
def mismatched(draw):
    c = draw(cases())
    c["rows"] = c["rows"] * 2
    c["which"] = draw(st.integers(0, 6))
    c["drop"] = draw(st.booleans())
    return c


@facet(mismatched(), quick=100, thorough=500)
def rejected(c, ctx):
    c28.reject(IMRPhenomD(), c)


batches.independent(__name__, "phenom_d")
arguments.ways(__name__, "phenom_d")
histories.pure(__name__, "phenom_d", quick=40)
