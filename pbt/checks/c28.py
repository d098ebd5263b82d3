"""C28: TaylorF2 waveforms equal the LALSimulation model."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.core import check, close, facet, raises, same, upto
from pbt.refs_cbc import MTSUN, components, lal_fd

from ml4gw.waveforms import TaylorF2

RULE = (
    "A case is a batch of aligned-spin binaries, a frequency grid and a "
    "reference frequency. Non-trivial: spinning or unequal bodies, compared "
    "to better than half a radian."
)
ASSUMPTIONS = [
    "a single-precision constant in the 3PN term and the rounding of the "
    "phase bound how closely the phases can agree; the tolerance is that "
    "bound, and binaries for which it exceeds half a radian are left out",
]
NAMES = ["chirp_mass", "mass_ratio", "chi1", "chi2", "distance", "phic",
         "inclination"]


def log_floats(lo, hi):
    return st.floats(math.log(lo), math.log(hi)).map(math.exp)


@st.composite
def binary(draw, q_low=0.02, q_high=50.0, mc=(0.5, 200.0)):
    return [
        draw(log_floats(*mc)),
        draw(st.one_of(
            log_floats(q_low, q_high), st.floats(max(q_low, 0.2), 1.0),
            st.just(1.0),
        )),
        draw(st.one_of(
            st.floats(-0.99, 0.99), st.sampled_from([0.0, 0.99, -0.99])
        )),
        draw(st.one_of(
            st.floats(-0.99, 0.99), st.sampled_from([0.0, 0.99, -0.99])
        )),
        draw(log_floats(1e-2, 1e5)),
        draw(st.one_of(st.floats(-7, 7), st.just(0.0))),
        draw(st.one_of(
            st.floats(0, math.pi),
            st.sampled_from([0.0, math.pi / 2, math.pi]),
        )),
    ]


@st.composite
def cases(draw, **kw):
    b = draw(upto(1, 4, 30))
    return dict(
        rows=[draw(binary(**kw)) for _ in range(b)],
        lo=draw(log_floats(5, 100)), span=draw(log_floats(1.01, 100)),
        n=draw(upto(1, 40, 3000)),
        grid=draw(st.sampled_from(["linear", "log", "shuffled"])),
        f_ref=draw(st.one_of(log_floats(5, 200), st.just(20.0))),
        double=draw(st.sampled_from([True, True, True, False])),
        seed=draw(st.integers(0, 2**31)),
    )


def frequencies(c):
    if c["grid"] == "log":
        f = np.geomspace(c["lo"], c["lo"] * c["span"], c["n"])
    else:
        f = np.linspace(c["lo"], c["lo"] * c["span"], c["n"])
    if c["grid"] == "shuffled":
        np.random.default_rng(c["seed"]).shuffle(f)
    return f


def inputs(c):
    dt = torch.float64 if c["double"] else torch.float32
    f = torch.tensor(frequencies(c), dtype=dt)
    return f, [
        torch.tensor([r[k] for r in c["rows"]], dtype=dt)
        for k in range(len(c["rows"][0]))
    ]


def untouched(c, f, args):
    f2, args2 = inputs(c)
    same(f, f2, "frequencies after the call")
    for a, b, name in zip(args, args2, NAMES):
        same(a, b, f"{name} after the call")


def bounds(eta, v, double):
    """Bound on the error of the phase."""
    pfa = 3 / (128 * eta)
    log = 1 + np.abs(np.log(v))
    series = pfa * v**-5 * (
        1 + 20 * v**2 + 150 * v**3 + 300 * v**4 + 1200 * v**5 * log
        + 12000 * v**6 * log + 5000 * v**7
    )
    if not double:
        return 60 * 6e-8 * series
    return pfa * v * 326.1 * 8e-8 + 40 * 2.3e-16 * series + 1e-9


@facet(cases(), quick=1500, thorough=40000, shards=2, large=120)
def lal(c, ctx):
    f, args = inputs(c)
    model = TaylorF2()
    with torch.no_grad():
        hc, hp = model(f, *args, c["f_ref"])
    untouched(c, f, args)
    shape = (len(c["rows"]), c["n"])
    check(hp.shape == shape and hc.shape == shape, f"shape {hp.shape}")
    fn = f.double().numpy()
    used = 0
    for i in range(shape[0]):
        mc, q, c1, c2, d, phic, inc = (a[i].double().item() for a in args)
        m1, m2 = components(mc, q)
        wp, wc = lal_fd(
            "TaylorF2", m1, m2, (0, 0, c1), (0, 0, c2), d, phic, inc, fn,
            c["f_ref"],
        )
        eta = q / (1 + q) ** 2
        M = (m1 + m2) * MTSUN
        v = (math.pi * M * fn) ** (1 / 3)
        vr = np.asarray((math.pi * M * c["f_ref"]) ** (1 / 3))
        tol = bounds(eta, v, c["double"]) + bounds(eta, vr, c["double"])
        if not c["double"]:
            tol = tol + 1e-5
        # a binary past its merger at the reference frequency
        ok = (tol < 0.5) & (v < 3) & (vr < 3)
        if not ok.any():
            continue
        used += q != 1 or c1 != 0 or c2 != 0
        amp = np.abs(wp) * 2 / (1 + math.cos(inc) ** 2)
        rel = 1e-12 if c["double"] else 2e-5
        tol = (tol + rel) * amp
        close(hp[i].numpy()[ok], wp[ok], f"plus of binary {i}",
              rtol=1.0, scale=tol[ok])
        close(hc[i].numpy()[ok], wc[ok], f"cross of binary {i}",
              rtol=1.0, scale=tol[ok])
    ctx.label("double" if c["double"] else "single", f"batch {shape[0]}")
    ctx.trivial(not used)


def relations(model, c, ctx, exchange):
    """Scaling, orientation, phase, batch and grid relations."""
    f, args = inputs(c)
    b = len(c["rows"])
    fr = c["f_ref"]
    ctx.label(f"batch {b}")
    ctx.trivial(c["n"] < 2 and b < 2)

    def h(f=f, f_ref=fr, pick=slice(None), **new):
        a = [
            new.get(name, v)[pick] if name in new else v[pick]
            for name, v in zip(NAMES, args)
        ]
        return model(f, *a, f_ref)

    hc, hp = h()
    check(
        hp.isfinite().all() and hc.isfinite().all(),
        "waveform is not finite",
    )
    # scales at which to compare: the face-on amplitude
    zero = torch.zeros_like(args[6])
    on_c, on_p = h(inclination=zero)
    scale = on_p.abs().numpy()
    # rounding of the phase itself
    r = 1e-9 if c["double"] else 1e-3

    def agree(got, want, what, rtol=r, scale=scale):
        close(got[1], want[1], f"plus, {what}", rtol=rtol, scale=scale)
        close(got[0], want[0], f"cross, {what}", rtol=rtol, scale=scale)

    cos = torch.cos(args[6])[:, None]
    agree((on_p * -1j * cos, on_p * (1 + cos**2) / 2), (hc, hp),
          "orientation", 1e-12 if c["double"] else 1e-5)
    k = 3.0
    far = h(distance=args[4] * k)
    agree([x * k for x in far], (hc, hp), "three times as far", r)
    turn = 0.7
    later = h(phic=args[5] + turn)
    agree(
        [x * np.exp(-2j * turn) for x in later], (hc, hp), "phase shift", r
    )
    i = c["seed"] % b
    agree(
        h(pick=slice(i, i + 1)), (hc[i : i + 1], hp[i : i + 1]),
        "one binary alone", r, scale[i : i + 1],
    )
    m = c["seed"] % c["n"]
    agree(
        h(f=f[m:]), (hc[:, m:], hp[:, m:]), "part of the frequencies", r,
        scale[:, m:],
    )
    perm = torch.arange(c["n"]).flip(0)
    agree(
        h(f=f[perm]), (hc[:, perm], hp[:, perm]), "reversed frequencies", r,
        scale[:, ::-1],
    )
    same(h()[1], hp, "the same call again")
    extra = model(f, **dict(zip(NAMES, args)), f_ref=fr, other=args[0])
    same(extra[1], hp, "arguments by name, and one it does not know")
    if exchange:
        agree(
            h(mass_ratio=1 / args[1], chi1=args[3], chi2=args[2]), (hc, hp),
            "bodies exchanged", r,
        )


@facet(cases(mc=(2.0, 100.0)).filter(lambda c: c["double"]),
       quick=500, thorough=8000, large=120)
def relate(c, ctx):
    with torch.no_grad():
        relations(TaylorF2(), c, ctx, exchange=True)


@st.composite
def reference(draw):
    c = draw(cases())
    c.update(double=True, f_ref=draw(log_floats(5, 200)))
    return c


@facet(reference(), quick=300, thorough=5000)
def reference_phase(c, ctx):
    """At the reference frequency the phase is the one asked for."""
    f, args = inputs(c)
    f = torch.tensor([c["f_ref"]], dtype=f.dtype)
    with torch.no_grad():
        hc, hp = TaylorF2()(f, *args, c["f_ref"])
    ctx.trivial(all(r[5] == 0 for r in c["rows"]))
    want = -torch.exp(1j * (2 * args[5] + math.pi / 4))[:, None]
    close(hp / hp.abs(), want, "phase at the reference frequency", rtol=1e-8)


@st.composite
def mismatched(draw):
    c = draw(cases())
    c["rows"] = c["rows"] * 2
    c["which"] = draw(st.integers(0, len(NAMES) - 1))
    c["drop"] = draw(st.booleans())
    return c


def reject(model, c):
    f, args = inputs(c)
    k = c["which"]
    args[k] = args[k][1:] if c["drop"] else torch.cat([args[k]] * 2)
    raises(
        ValueError, lambda: model(f, *args, c["f_ref"]),
        f"{NAMES[k]} for {len(args[k])} binaries",
    )


@facet(mismatched(), quick=100, thorough=500)
def rejected(c, ctx):
    reject(TaylorF2(), c)


batches.independent(__name__, "taylorf2")
arguments.ways(__name__, "taylorf2")
histories.pure(__name__, "taylorf2")
