"""C30: IMRPhenomPv2 waveforms equal the LALSimulation model."""
import functools
import math

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.checks import c28, c29
from pbt.checks.c28 import inputs, log_floats
from pbt.core import check, close, facet, same
from pbt.refs_cbc import (
    MTSUN, alignment, chi_p, components, final_spin, lal_fd, resampled,
    ringdown, tables,
)

from ml4gw.waveforms import IMRPhenomD, IMRPhenomPv2

RULE = (
    "A case is a batch of binaries with m2 <= m1 and any spins, a frequency "
    "grid through inspiral, merger and ringdown and a reference frequency. "
    "Non-trivial: at least one binary precesses or has unequal masses."
)
ASSUMPTIONS = [
    "LALSimulation places the ringdown with a ten-point numerical "
    "derivative; its error (a shift in time) is computed and allowed for to "
    "2%, everything else has to agree to 1e-5",
    "ringdown tables as in C29",
    "directions are ill-conditioned where the in-plane spins nearly vanish "
    "or the total angular momentum points along or opposite to the line of "
    "sight; the tolerance grows accordingly",
]
NAMES = ["chirp_mass", "mass_ratio", "s1x", "s1y", "s1z", "s2x", "s2y",
         "s2z", "distance", "phic", "inclination"]


@functools.lru_cache(None)
def model():
    return resampled(IMRPhenomPv2, "spline")


@st.composite
def spin(draw):
    kind = draw(st.sampled_from(["any", "any", "aligned", "plane", "none"]))
    a = draw(st.one_of(st.floats(0.05, 0.98), st.just(0.98)))
    tilt = draw(st.floats(0, math.pi))
    azimuth = draw(st.floats(0, 2 * math.pi))
    if kind == "none":
        return [0.0, 0.0, 0.0]
    if kind == "aligned":
        return [0.0, 0.0, a * math.cos(tilt)]
    if kind == "plane":
        tilt = math.pi / 2
    return [
        a * math.sin(tilt) * math.cos(azimuth),
        a * math.sin(tilt) * math.sin(azimuth), a * math.cos(tilt),
    ]


@st.composite
def rows(draw):
    r = draw(c28.binary(q_low=0.06, q_high=1.0, mc=(1.0, 100.0)))
    return r[:2] + draw(spin()) + draw(spin()) + r[4:]


@st.composite
def cases(draw):
    c = draw(c29.cases())
    c["rows"] = [draw(rows()) for _ in c["rows"]]
    m = sum(components(*c["rows"][0][:2])) * MTSUN
    lo = draw(log_floats(0.001, 0.1))
    hi = draw(st.floats(lo, 0.2))
    c["lo"] = lo / m
    c["span"] = max(hi / lo, 1.001)
    c["f_ref"] = draw(log_floats(0.0015, 0.03)) / m
    return c


def unpack(row):
    mc, q = row[:2]
    return mc, q, row[2:5], row[5:8], *row[8:]


def orientation(row, f_ref):
    """Angle between J and the line of sight, and J's in-plane part.

    Relative to the dominant spin and orbital angular momentum at 2PN.
    """
    mc, q, s1, s2, d, phic, inc = unpack(row)
    m1, m2 = 1 / (1 + q), q / (1 + q)
    eta = m1 * m2
    M = sum(components(mc, q)) * MTSUN
    v = (math.pi * M * f_ref) ** (1 / 3)
    x = v * v
    L = eta / v * (
        1 + (1.5 + eta / 6) * x
        + (3.375 - 19 * eta / 8 - eta**2 / 24) * x * x
    )
    J = m1**2 * np.array(s1) + m2**2 * np.array(s2) + np.array([0, 0, L])
    N = np.array([
        math.sin(inc) * math.cos(math.pi / 2 - phic),
        math.sin(inc) * math.sin(math.pi / 2 - phic), math.cos(inc),
    ])
    size = np.linalg.norm(J)
    return np.linalg.norm(np.cross(J / size, N)), np.hypot(*J[:2]), size


def compare(net, c, ctx, extra):
    f, args = inputs(c)
    with torch.no_grad():
        hc, hp = net(f, *args, c["f_ref"])
    f2, args2 = inputs(c)
    same(f, f2, "frequencies after the call")
    for a, b, name in zip(args, args2, NAMES):
        same(a, b, f"{name} after the call")
    shape = (len(c["rows"]), c["n"])
    check(hp.shape == shape and hc.shape == shape, f"shape {hp.shape}")
    fn = f.numpy()
    used = 0
    for i, row in enumerate(c["rows"]):
        mc, q, s1, s2, d, phic, inc = unpack(row)
        m1, m2 = components(mc, q)
        M = (m1 + m2) * MTSUN
        mf = M * fn
        eta = q / (1 + q) ** 2
        vr = np.asarray((math.pi * M * c["f_ref"]) ** (1 / 3))
        if vr**3 > 0.3:  # too close to merger to be a reference
            continue
        chip = chi_p(q, s1, s2)
        if abs(final_spin(q, s1[2], s2[2], chip)[0]) > 0.985:
            ctx.label("near-extremal remnant")
            continue
        sight, plane, size = orientation(row, c["f_ref"])
        aligned = chip == 0
        if not aligned and (
            sight < 1e-4 or plane < 1e-6 or size < 1e-3
        ):
            ctx.label("ill-conditioned direction")
            continue
        low = mf < 0.199
        if not low.any():
            continue
        wp, wc = np.zeros((2, c["n"]), complex)
        # LAL wants ascending frequencies, and several of them
        grid = np.unique(np.append(fn[low], np.linspace(0.01, 0.19, 9) / M))
        both = lal_fd(
            "IMRPhenomPv2", m1, m2, s1, s2, d, phic, inc, grid, c["f_ref"]
        )
        for w, h in zip((wp, wc), both):
            w[low] = h[np.searchsorted(grid, fn[low])]
        v = (math.pi * mf) ** (1 / 3)
        fr, _ = ringdown(IMRPhenomPv2, q, s1[2], s2[2], chip)
        near = np.zeros(c["n"], bool)
        for x in (0.014, 0.018, fr / 2):
            near |= np.abs(mf / x - 1) < 1e-7
        ok = low & ~near
        if not ok.any():
            continue
        shift, fine = alignment(IMRPhenomPv2, q, s1, s2)
        turn = np.exp(1j * shift * mf)
        amp = np.sqrt(np.abs(wp) ** 2 + np.abs(wc) ** 2)
        # the amplitude the binary would have seen from elsewhere
        full = amp.copy()
        tol = (
            c29.phase_tol(eta, v, vr)
            + (2e-4 + 2 * fine + 1e-4 * abs(shift)) * mf
            + (0 if aligned else 1e-10 / min(sight, plane, 1.0))
            + extra
        ) * full
        used += not aligned or q != 1
        ctx.label("aligned" if aligned else "precessing")
        close((hp[i].numpy() * turn)[ok], wp[ok], f"plus of binary {i}",
              rtol=1.0, scale=tol[ok])
        close((hc[i].numpy() * turn)[ok], wc[ok], f"cross of binary {i}",
              rtol=1.0, scale=tol[ok])
    ctx.trivial(not used)


def usable():
    if not c29.SPLINES():
        return False
    net = IMRPhenomPv2()
    t = tables(net)
    if t is None:
        return False
    other = IMRPhenomPv2()
    other.qnmdata_fdamp = torch.from_numpy(t[2] * 1.3)
    one = torch.tensor([1.0], dtype=torch.float64)
    z = 0 * one
    f = torch.tensor([0.05 / MTSUN / 2], dtype=torch.float64)
    a = [0.87 * one, one, z, z, z, z, z, z, one, z, z]
    with torch.no_grad():
        return not torch.allclose(
            net(f, *a, 100.0)[0], other(f, *a, 100.0)[0], rtol=1e-3, atol=0
        )


SPLINES = functools.lru_cache(None)(usable)


@facet(cases(), quick=900, thorough=25000, shards=4, large=60)
def lal(c, ctx):
    if SPLINES():
        compare(model(), c, ctx, 0.0)
    else:
        ctx.label("no tables")
        compare(IMRPhenomPv2(), c, ctx, 0.05)


@facet(cases(), quick=150, thorough=3000, shards=2)
def own_tables(c, ctx):
    compare(IMRPhenomPv2(), c, ctx, 0.05)


@st.composite
def related(draw):
    c = draw(cases())
    c.update(
        turn=draw(st.floats(-7, 7)), tc=draw(st.floats(-0.5, 0.5)),
        delta=draw(st.floats(-7, 7)), stretch=draw(log_floats(0.3, 3)),
    )
    return c


@facet(related(), quick=300, thorough=6000, shards=2, large=60)
def relate(c, ctx):
    """Distance, time, mass, batch and grid relations."""
    net = IMRPhenomPv2()
    f, args = inputs(c)
    b = len(c["rows"])
    ctx.label(f"batch {b}")
    ctx.trivial(all(chi_p(*unpack(r)[1:4]) == 0 for r in c["rows"]))

    def h(f=f, f_ref=c["f_ref"], pick=slice(None), tc=None, **new):
        a = [new.get(n, v)[pick] for n, v in zip(NAMES, args)]
        with torch.no_grad():
            return net(f, *a, f_ref, tc=tc)

    hc, hp = h()
    check(
        hp.isfinite().all() and hc.isfinite().all(), "waveform is not finite"
    )
    # seen face-on the amplitude is largest
    scale = torch.maximum(hp.abs(), hc.abs()).numpy()
    scale = np.maximum(scale, scale.max(-1, keepdims=True) * 1e-6)

    def agree(got, want, what, rtol=1e-9, scale=scale):
        close(got[1], want[1], f"plus, {what}", rtol=rtol, scale=scale)
        close(got[0], want[0], f"cross, {what}", rtol=rtol, scale=scale)

    far = h(distance=args[8] * 3)
    agree([x * 3 for x in far], (hc, hp), "three times as far")
    same(h()[1], hp, "the same call again")
    with torch.no_grad():
        named = net(
            f, **dict(zip(NAMES, args)), f_ref=c["f_ref"], other=args[0]
        )
    same(named[1], hp, "arguments by name, and one it does not know")
    i = c["seed"] % b
    agree(h(pick=slice(i, i + 1)), (hc[i : i + 1], hp[i : i + 1]),
          "one binary alone", 1e-7, scale[i : i + 1])
    m = c["seed"] % c["n"]
    agree(h(f=f[m:]), (hc[:, m:], hp[:, m:]), "part of the frequencies",
          1e-7, scale[:, m:])
    agree(h(f=f.flip(0)), (hc.flip(1), hp.flip(1)), "reversed frequencies",
          1e-7, scale[:, ::-1])
    # a coalescence time shifts the signal in time
    tc = c["tc"] * torch.linspace(0.5, 1, b, dtype=f.dtype)
    turn = torch.exp(-2j * math.pi * tc[:, None] * f)
    agree(h(tc=tc), (hc * turn, hp * turn), "coalescence time")
    agree(h(tc=0 * tc), (hc, hp), "coalescence time zero", 1e-12)
    good = np.array([
        chi_p(*unpack(r)[1:4]) == 0 or (
            min(orientation(r, c["f_ref"])[:2]) > 1e-3
            and orientation(r, c["f_ref"])[2] > 1e-2
        ) for r in c["rows"]
    ])
    good &= np.array([
        math.pi * sum(components(*r[:2])) * MTSUN * c["f_ref"] < 0.2
        for r in c["rows"]
    ])
    # everything scales with the total mass
    k = c["stretch"]
    if k * max(r[0] for r in c["rows"]) < 200:
        heavy = h(
            f=f / k, f_ref=c["f_ref"] / k, chirp_mass=args[0] * k
        )
        agree([x[good] / k**2 for x in heavy], (hc[good], hp[good]),
              "mass scaled", 1e-5, scale[good])
    # the source turned around its orbital axis: both the spins' azimuth
    # and that of the observer's frame
    d = c["delta"]
    cos, sin = math.cos(d), math.sin(d)
    new = {}
    for n in (1, 2):
        x, y = (args[NAMES.index(f"s{n}{a}")] for a in "xy")
        new[f"s{n}x"], new[f"s{n}y"] = cos * x - sin * y, sin * x + cos * y
    turned = h(phic=args[9] - d, **new)
    power = hp.abs() ** 2 + hc.abs() ** 2
    if good.any():
        close(
            (turned[1].abs() ** 2 + turned[0].abs() ** 2)[good], power[good],
            "power after turning the source and the frame", rtol=1e-5,
            scale=(scale**2)[good],
        )


@st.composite
def aligned_cases(draw):
    c = draw(cases())
    for r in c["rows"]:
        r[2] = r[3] = r[5] = r[6] = 0.0
    return c


@facet(aligned_cases(), quick=300, thorough=6000, shards=2)
def aligned(c, ctx):
    """Without precession the model is IMRPhenomD, up to time and phase."""
    f, args = inputs(c)
    m = max(sum(components(*r[:2])) for r in c["rows"]) * MTSUN
    chirp, q, _, _, c1, _, _, c2, d, phic, inc = args
    with torch.no_grad():
        hc, hp = IMRPhenomPv2()(f, *args, c["f_ref"])
        dc, dp = IMRPhenomD()(
            f, chirp, q, c1, c2, d, phic, inc, c["f_ref"]
        )
    ctx.trivial(all(r[4] == 0 and r[7] == 0 for r in c["rows"]))
    for i, row in enumerate(c["rows"]):
        M = sum(components(*row[:2])) * MTSUN
        f_ref, qi = c["f_ref"], row[1]
        if math.pi * M * f_ref > 0.3:
            continue
        if SPLINES() and c29.SPLINES():
            # the models differ in their final spin's definition
            chip = chi_p(qi, row[2:5], row[5:8])
            a, _ = final_spin(qi, row[4], row[7])
            b, _ = final_spin(qi, row[4], row[7], chip)
            if abs(b) > 0.985 or abs(a - b) > 1e-9:
                ctx.label("another remnant")
                continue
        ok = (M * f).numpy() < 0.2
        scale = dp[i].abs() * 2 / (1 + torch.cos(inc[i]) ** 2)
        for name, x, y in (("plus", hp, dp), ("cross", hc, dc)):
            close(
                x[i].abs()[ok], y[i].abs()[ok], f"{name}, amplitude {i}",
                rtol=1e-5, scale=scale[ok],
            )


@st.composite
def population_cases(draw):
    return dict(
        n=draw(st.integers(1, 8000)),
        kind=draw(st.sampled_from(["aligned", "aligned", "spinless", "any"])),
        inc=draw(st.sampled_from(["any", "face on", "face off"])),
        f=draw(log_floats(20, 500)), f_ref=draw(log_floats(5, 60)),
        seed=draw(st.integers(0, 2**31)),
    )


@facet(population_cases(), quick=20, thorough=1500, shards=2)
def populations(c, ctx):
    """Whole populations with special directions come out finite."""
    n = c["n"]
    rng = np.random.default_rng(c["seed"])
    U = rng.uniform
    t = dict(
        chirp_mass=U(3, 30, n), mass_ratio=U(0.2, 1, n),
        distance=U(10, 1000, n), phic=U(0, 6.28, n),
        inclination=U(0, math.pi, n) if c["inc"] == "any" else
        np.full(n, 0.0 if c["inc"] == "face on" else math.pi),
    )
    for s in "12":
        if c["kind"] == "any":
            a, th, ph = U(0, 0.9, n), U(0, math.pi, n), U(0, 6.28, n)
            t[f"s{s}x"] = a * np.sin(th) * np.cos(ph)
            t[f"s{s}y"] = a * np.sin(th) * np.sin(ph)
            t[f"s{s}z"] = a * np.cos(th)
        else:
            top = 0.9 * (c["kind"] == "aligned")
            t[f"s{s}x"] = t[f"s{s}y"] = np.zeros(n)
            t[f"s{s}z"] = U(-top, top, n)
    args = [torch.from_numpy(t[k]) for k in NAMES]
    f = torch.tensor([c["f"]], dtype=torch.float64)
    with torch.no_grad():
        hc, hp = IMRPhenomPv2()(f, *args, c["f_ref"])
    ctx.label(c["kind"], c["inc"])
    ctx.trivial(n < 100)
    bad = ~(hc.isfinite() & hp.isfinite()).numpy().all(1)
    check(
        not bad.any(),
        f"{bad.sum()} of {n} binaries are not finite, the first: "
        + (str({k: float(v[bad.argmax()]) for k, v in t.items()})
           if bad.any() else ""),
    )
    if c["kind"] != "any":
        cos = np.cos(t["inclination"])
        close(
            hc[:, 0].abs() * (1 + cos**2) / 2, hp[:, 0].abs() * np.abs(cos),
            "amplitude ratio without precession", rtol=1e-6,
            scale=hp[:, 0].abs().numpy(),
        )


batches.independent(__name__, "phenom_p")
arguments.ways(__name__, "phenom_p")
histories.pure(__name__, "phenom_p", quick=40)
