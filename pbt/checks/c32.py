"""C32: bursts have the requested energy, frequency and decay."""
import math

import lal
import lalinference
import lalinspiral
import lalmetaio
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.checks.c28 import log_floats
from pbt.core import check, close, facet, same, upto

from ml4gw.waveforms import Ringdown, SineGaussian
from ml4gw.waveforms.adhoc.sine_gaussian import semi_major_minor_from_e

RULE = (
    "A case is a batch of bursts and a window. Non-trivial: several bursts, "
    "or one with an ellipticity or inclination of its own."
)
ASSUMPTIONS = [
    "LALInference's sine-Gaussian and the closed forms of both bursts",
    "energies are compared where the window holds the whole burst and the "
    "sampling resolves it",
    "a ringing black hole's mass and spin follow Echeverria's fits, its "
    "energy flux the quadrupole's angular distribution",
]


@st.composite
def windows(draw):
    sr = draw(st.sampled_from([256, 512, 1000, 1024, 2048, 4096, 2048.0]))
    n = draw(st.integers(1, 3000))
    return sr, draw(st.sampled_from([n / sr, n / sr, (n + 0.5) / sr]))


@st.composite
def bursts(draw):
    return [
        draw(st.one_of(log_floats(0.7, 100), st.just(9.0))),
        draw(log_floats(10, 1000)),
        draw(log_floats(1e-24, 1e-18)),
        draw(st.one_of(
            st.floats(-7, 7), st.sampled_from([0.0, math.pi / 2])
        )),
        draw(st.one_of(
            st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.5])
        )),
    ]


@st.composite
def rings(draw):
    return [
        draw(log_floats(10, 1000)),
        draw(st.one_of(log_floats(2.1, 100), st.just(12.0))),
        draw(log_floats(1e-6, 0.2)),
        draw(st.one_of(st.floats(-7, 7), st.just(0.0))),
        draw(st.one_of(
            st.floats(0, math.pi),
            st.sampled_from([0.0, math.pi / 2, math.pi]),
        )),
        draw(log_floats(1, 1e4)),
    ]


@st.composite
def cases(draw, kind):
    sr, duration = draw(windows())
    return dict(
        sr=sr, duration=duration,
        rows=[draw(kind) for _ in range(draw(upto(1, 5, 25)))],
        double=draw(st.sampled_from([True, True, False])),
        seed=draw(st.integers(0, 2**31)),
    )


def columns(c):
    dt = torch.float64 if c["double"] else torch.float32
    return [
        torch.tensor([r[k] for r in c["rows"]], dtype=dt)
        for k in range(len(c["rows"][0]))
    ]


def sine_gaussian(q, f, hrss, phase, e, t):
    """The closed form, at times t."""
    a = 1 / math.sqrt(2 - e * e)
    b = a * math.sqrt(1 - e * e)
    norm = q / (4 * f * math.sqrt(math.pi))
    c_norm = norm * (1 + math.exp(-q * q))
    s_norm = norm * -math.expm1(-q * q)
    c2, s2 = math.cos(phase) ** 2, math.sin(phase) ** 2
    phi = 2 * math.pi * f * t
    env = np.exp(-(phi**2) / (2 * q * q))
    plus = hrss * a / math.sqrt(c_norm * c2 + s_norm * s2)
    cross = hrss * b / math.sqrt(c_norm * s2 + s_norm * c2)
    return (
        cross * env * np.sin(phi - phase), plus * env * np.cos(phi - phase),
        (cross, plus),
    )


def run(c, cls, ctx):
    """The batch, with everything that must hold of any of them."""
    net = cls(c["sr"], c["duration"])
    args = columns(c)
    before = [a.clone() for a in args]
    with torch.no_grad():
        cross, plus = net(*args)
        again = net(*args)
        b = len(c["rows"])
        k = c["seed"] % b
        alone = net(*[a[k] for a in args])
        perm = net(*[a.flip(0) for a in args])
    for a, v in zip(args, before):
        same(a, v, "parameters after the call")
    n = int(c["duration"] * c["sr"])
    tol = 1e-12 if c["double"] else 1e-5
    for j, (name, x) in enumerate((("cross", cross), ("plus", plus))):
        check(
            x.shape == (b, n), f"{name}: shape {tuple(x.shape)}, not {(b, n)}"
        )
        check(x.isfinite().all(), f"{name} is not finite")
        same(again[j], x, f"{name}, the same call again")
        scale = x.abs().amax(-1, keepdim=True) + 1e-300 if n else 1.0
        close(alone[j][0], x[k], f"{name} of burst {k} alone", rtol=tol,
              scale=np.asarray(scale)[k] if n else 1.0)
        close(perm[j].flip(0), x, f"{name}, reversed batch", rtol=tol,
              scale=scale)
    ctx.label("double" if c["double"] else "single", f"batch {b}")
    return [a.double().numpy() for a in args], cross, plus


@facet(cases(bursts()), quick=1500, thorough=40000, shards=2, large=120)
def sine_gaussians(c, ctx):
    args, cross, plus = run(c, SineGaussian, ctx)
    dt = torch.float64 if c["double"] else torch.float32
    check(cross.dtype == dt and plus.dtype == dt, f"dtype {cross.dtype}")
    n = cross.shape[1]
    t = np.arange(n) / c["sr"] - c["duration"] / 2
    ctx.trivial(len(c["rows"]) < 2 and args[4][0] in (0, 1))
    for i in range(len(c["rows"])):
        q, f, hrss, phase, e = (a[i] for a in args)
        wc, wp, (mc, mp) = sine_gaussian(q, f, hrss, phase, e, t)
        # the phase where the burst is loud
        rate = min(2 * math.pi * f * c["duration"], 9 * q) + abs(phase) + 1
        tol = 1e-9 if c["double"] else 1e-6 * rate + 1e-5
        if not c["double"]:
            tol += 1e-6 / max(1 - e, 1e-6) * (e > 0.9)
        close(plus[i], wp, f"plus of burst {i}", rtol=tol, scale=mp)
        close(cross[i], wc, f"cross of burst {i}", rtol=tol,
              scale=max(mc, 1e-3 * mp if not c["double"] else mc))
        if not c["double"]:
            continue
        # LAL's burst, at its own times
        hp, hc = lalinference.BurstSineGaussian(
            q, f, hrss, e, phase, 1 / c["sr"]
        )
        m = hp.data.length
        lo = float(hp.epoch) + c["duration"] / 2
        k = round(lo * c["sr"])
        if abs(lo * c["sr"] - k) > 1e-5:
            continue
        s = max(0, -k)
        stop = min(m, n - k)
        if stop <= s:
            continue
        # LAL's samples lie at multiples of the sampling interval
        ctx.label("LAL")
        fine = 1e-6 + 1e-8 * 2 * math.pi * f
        for name, x, w, peak in (("plus", plus, hp, mp),
                                 ("cross", cross, hc, mc)):
            w = w.data.data[s:stop]
            close(x[i, k + s : k + stop], w, f"LAL's {name} of burst {i}",
                  rtol=fine, scale=peak)


@facet(cases(bursts()), quick=500, thorough=10000)
def burst_energy(c, ctx):
    """Energy, its split, its centre in time and its frequency."""
    c["double"] = True
    for r in c["rows"]:
        r[1] = min(r[1], 0.15 * c["sr"])
        r[0] = max(r[0], 1.5)
    c["duration"] = max(
        c["duration"], max(2 * r[0] / r[1] for r in c["rows"])
    )
    c["duration"] = min(c["duration"], 30.0)
    args, cross, plus = run(c, SineGaussian, ctx)
    n = cross.shape[1]
    t = np.arange(n) / c["sr"] - c["duration"] / 2
    ctx.trivial(len(c["rows"]) < 2 and args[4][0] in (0, 1))
    for i in range(len(c["rows"])):
        q, f, hrss, phase, e = (a[i] for a in args)
        if c["duration"] < 1.9 * q / f or 1 / q + 1 > 0.25 * c["sr"] / f:
            continue
        p, x = plus[i].numpy() ** 2, cross[i].numpy() ** 2
        total = (p + x).sum() / c["sr"]
        check(
            abs(total / hrss**2 - 1) < 1e-3,
            f"burst {i}: energy {total:.5g}, requested {hrss**2:.5g}",
        )
        a2 = 1 / (2 - e * e)
        part = p.sum() / (p + x).sum()
        check(
            abs(part - a2) < 2e-3,
            f"burst {i}: {part:.4f} of the energy in plus, expected {a2:.4f}",
        )
        centre = ((p + x) * t).sum() / (p + x).sum()
        check(
            abs(centre) < (0.02 + math.exp(-q * q)) * q / f,
            f"burst {i}: centred {centre:.3g} s off the middle",
        )
        if q > 4:
            spec = np.abs(np.fft.rfft(plus[i].numpy(), 8 * n)) ** 2
            fr = np.fft.rfftfreq(8 * n, 1 / c["sr"])
            mean = (spec * fr).sum() / spec.sum()
            check(
                abs(mean / f - 1) < 0.02,
                f"burst {i}: frequency {mean:.5g}, requested {f:.5g}",
            )


@facet(st.lists(st.floats(0, 1), min_size=1, max_size=9), quick=200,
       thorough=2000)
def axes(c, ctx):
    """Semi-axes of an ellipse of eccentricity e and unit quadratic sum."""
    e = torch.tensor(c, dtype=torch.float64)
    a, b = (x.numpy() for x in semi_major_minor_from_e(e))
    ctx.trivial(max(c) == 0)
    close(a**2 + b**2, np.ones(len(c)), "quadratic sum", rtol=1e-12)
    close(b**2, a**2 * (1 - np.array(c) ** 2), "eccentricity", rtol=1e-12,
          scale=1.0)
    check((a >= b).all() and (b >= 0).all(), "major axis is the minor one")


def hole(f, q):
    """Spin, and mass in seconds, of a ringing black hole (Echeverria)."""
    spin = 1 - (2 / q) ** (20 / 9)
    g = 1 - 0.63 * (1 - spin) ** 0.3
    return spin, g / (2 * math.pi * f), g


@facet(cases(rings()), quick=1500, thorough=40000, shards=2, large=120)
def ringdowns(c, ctx):
    args, cross, plus = run(c, Ringdown, ctx)
    check(
        cross.dtype == torch.float64 and plus.dtype == torch.float64,
        f"dtype {cross.dtype}",
    )
    n = cross.shape[1]
    t = np.arange(n) / c["sr"]
    ctx.trivial(len(c["rows"]) < 2 and math.sin(args[4][0]) == 0)
    for i in range(len(c["rows"])):
        f, q, eps, phase, inc, d = (a[i] for a in args)
        _, mass, g = hole(f, q)
        amp = math.sqrt(2.5 * eps) * mass / (d * 1e6 * lal.PC_SI / lal.C_SI)
        amp /= math.sqrt(q * (1 + 7 / 24 / q**2) * g)
        decay = np.exp(-math.pi * f * t / q)
        angle = 2 * math.pi * f * t + phase
        rate = min(2 * math.pi * f * c["duration"], 30 * q) + abs(phase)
        tol = 1e-9 if c["double"] else 1e-6 * rate + 1e-4
        cos = math.cos(inc)
        close(
            plus[i], amp * (1 + cos**2) * decay * np.cos(angle),
            f"plus of ringdown {i}", rtol=tol, scale=2 * amp * decay**0.9,
        )
        close(
            cross[i], amp * 2 * cos * decay * np.sin(angle),
            f"cross of ringdown {i}", rtol=tol, scale=2 * amp * decay**0.9,
        )
        # the shape of LAL's template
        row = lalmetaio.SnglRingdownTable()
        row.frequency, row.quality, row.phase = f, q, phase
        ts = lal.CreateREAL4TimeSeries(
            "h", lal.LIGOTimeGPS(0), 0, 1 / c["sr"], lal.StrainUnit,
            max(n, 1)
        )
        if n and q < 20 and f < 300:
            lalinspiral.ComputeRingTemplate(ts, row)
            # LAL cuts it off after a number of decay times
            keep = decay > 1e-2
            close(
                plus[i].numpy()[keep] / (amp * (1 + cos**2)),
                ts.data.data[keep], f"LAL's template of ringdown {i}",
                rtol=1e-4 * (1 + rate / 10), scale=1.0,
            )
            ctx.label("LAL")


@facet(cases(rings()), quick=300, thorough=6000)
def radiated_energy(c, ctx):
    """The energy radiated in all directions is the fraction asked for.

    The flux is that of the energy carried by gravitational waves, over
    directions (of all inclinations) and time.
    """
    c["double"] = True
    x, w = np.polynomial.legendre.leggauss(8)
    for r in c["rows"][:2]:
        f, q, eps, phase, _, d = r
        q = max(q, 5.0)
        _, mass, _ = hole(f, q)
        sr = 64 * f
        net = Ringdown(sr, 6 * q / f)
        inc = torch.tensor(np.arccos(x))
        one = torch.ones_like(inc)
        with torch.no_grad():
            both = net(f * one, q * one, eps * one, phase * one, inc, d * one)
        flux = 0
        dist = d * 1e6 * lal.PC_SI / lal.C_SI
        for h in both:
            v = np.gradient(h.numpy(), 1 / sr, axis=-1)
            flux = flux + (v**2).sum(-1) / sr
        energy = 2 * math.pi * (flux * w).sum() * dist**2 / (16 * math.pi)
        got = energy / mass
        check(
            abs(got / eps - 1) < 0.03 + 0.5 / q,
            f"radiates {got:.4g} of the mass, requested {eps:.4g}",
        )
        # seen along the spin both polarizations are equally strong
        with torch.no_grad():
            hc, hp = net(*[
                torch.tensor([v], dtype=torch.float64)
                for v in (f, q, eps, phase, 0.0, d)
            ])
        ratio = (hc.norm() / hp.norm()).item()
        check(
            abs(ratio - 1) < 1 / q,
            f"cross is {ratio:.3g} times plus along the spin",
        )


batches.independent(__name__, "ringdown", "sine_gaussian")
arguments.ways(__name__, "ringdown", "sine_gaussian")
histories.pure(__name__, "ringdown", "sine_gaussian")
