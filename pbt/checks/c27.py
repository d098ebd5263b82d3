"""C27: mass and spin conversions are exact and mutually consistent."""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from lal import MSUN_SI
from lalsimulation import SimInspiralTransformPrecessingNewInitialConditions

from pbt import arguments, batches, histories
from pbt.core import check, close, facet, raises, same, upto

from ml4gw.waveforms.conversion import (
    bilby_spins_to_lalsim,
    chirp_mass_and_mass_ratio_to_components,
)

RULE = (
    "A case is a batch of masses and mass ratios, or of spin angles, "
    "magnitudes, masses, a reference frequency and phases. Non-trivial: "
    "unequal masses, or non-aligned spins."
)
ASSUMPTIONS = [
    "directions are ill-conditioned where J or N is nearly parallel to L or "
    "J nearly vanishes; the tolerance grows accordingly, and in-plane "
    "components are compared by magnitude only where it exceeds 2%",
]


@st.composite
def mass_cases(draw):
    n = draw(upto(1, 6, 60))
    return dict(
        mc=draw(st.lists(
            st.floats(0.0625, 1e4, width=32), min_size=n, max_size=n
        )),
        q=draw(st.lists(
            st.one_of(
                st.just(1.0), st.floats(2.0**-10, 1, width=32),
                st.floats(0.9375, 1, width=32),
            ), min_size=n, max_size=n,
        )),
        double=draw(st.booleans()), column=draw(st.booleans()),
    )


@facet(mass_cases(), quick=3000, thorough=60000, large=120)
def masses(c, ctx):
    dt = torch.float64 if c["double"] else torch.float32
    mc = torch.tensor(c["mc"], dtype=dt)
    q = torch.tensor(c["q"], dtype=dt)
    if c["column"]:
        mc, q = mc[:, None], q[:, None]
    kept = mc.clone(), q.clone()
    m1, m2 = chirp_mass_and_mass_ratio_to_components(mc, q)
    same(mc, kept[0], "chirp mass after the call")
    same(q, kept[1], "mass ratio after the call")
    ctx.trivial(all(v == 1 for v in c["q"]))
    r = 1e-14 if c["double"] else 4e-6
    M, Q = mc.double().numpy(), q.double().numpy()
    want = M * (1 + Q) ** 0.2 / Q**0.6
    close(m1, want, "primary mass", rtol=r)
    close(m2, want * Q, "secondary mass", rtol=r)
    check((m1 >= m2).all(), "the secondary is the heavier body")
    a, b = m1.double().numpy(), m2.double().numpy()
    close((a * b) ** 0.6 / (a + b) ** 0.2, M, "chirp mass back", rtol=r)
    close(b / a, Q, "mass ratio back", rtol=r)


SPECIAL = {  # upper end, and values worth trying on their own
    "angle": (math.pi, [0.0, math.pi, math.pi / 2, 1e-3]),
    "azimuth": (2 * math.pi, [0.0, math.pi, math.pi / 2, 2 * math.pi]),
    "spin": (0.998, [0.0, 0.998, 1e-3]),
    "mass": (120.0, [1.0, 30.0, 120.0]),
}
ANGLE, AZIMUTH, SPIN, MASS = "angle", "azimuth", "spin", "mass"
NAMES = ["theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12", "a_1", "a_2",
         "mass_1", "mass_2", "phi_ref"]
KINDS = [ANGLE, AZIMUTH, ANGLE, ANGLE, AZIMUTH, SPIN, SPIN, MASS, MASS,
         AZIMUTH]


@st.composite
def spin_cases(draw):
    n = draw(st.integers(1, 4))
    rng = np.random.default_rng(draw(st.integers(0, 2**31)))
    c = {}
    for name, kind in zip(NAMES, KINDS):
        top, _ = SPECIAL[kind]
        low = 1.0 if kind == MASS else 0.0
        c[name] = [float(v) for v in rng.uniform(low, top, n)]
    # some entries take special values
    for i, k, v in draw(
        st.lists(
            st.tuples(
                st.integers(0, n - 1), st.integers(0, len(NAMES) - 1),
                st.integers(0, 3),
            ), max_size=4,
        )
    ):
        values = SPECIAL[KINDS[k]][1]
        c[NAMES[k]][i] = values[v % len(values)]
    if draw(st.integers(0, 7)) == 7:
        for k in ("tilt_1", "tilt_2"):
            c[k] = [draw(st.sampled_from([0.0, math.pi])) for _ in range(n)]
    c.update(
        f_ref=draw(st.sampled_from([5.0, 20.0, 40.0, 50.0, 173.5])),
        double=draw(st.integers(0, 3)) < 3,
    )
    return c


def run(c, rows=None):
    dt = torch.float64 if c["double"] else torch.float32
    t = [torch.tensor(c[k], dtype=dt) for k in NAMES]
    if rows is not None:
        t = [v[rows] for v in t]
    kept = [v.clone() for v in t]
    out = bilby_spins_to_lalsim(*t[:-1], c["f_ref"], t[-1])
    for name, v, k in zip(NAMES, t, kept):
        same(v, k, f"{name} after the call")
    return np.stack([v.double().numpy() for v in out]), [
        v.double().numpy() for v in t
    ]


def s1z_total(a1, t1, a2, t2, m1, m2, f_ref):
    """Component of J along L when both spins are aligned with it."""
    M = m1 + m2
    eta = m1 * m2 / M**2
    v = (M * 4.925490947641267e-06 * math.pi * f_ref) ** (1 / 3)
    L = M**2 * eta / v * (1 + v * v * (1.5 + eta / 6))
    return L + a1 * m1**2 * math.cos(t1) + a2 * m2**2 * math.cos(t2)


def conditioning(p, f_ref):
    """(|sin| of the angle of J from L, |J| over total mass squared)."""
    t1, t2, p12, a1, a2, m1, m2 = p
    M = m1 + m2
    eta = m1 * m2 / M**2
    v = (M * 4.925490947641267e-06 * math.pi * f_ref) ** (1 / 3)
    L = M**2 * eta / v * (1 + v * v * (1.5 + eta / 6))
    s1 = a1 * m1**2 * np.array([math.sin(t1), 0, math.cos(t1)])
    s2 = a2 * m2**2 * np.array(
        [math.sin(t2) * math.cos(p12), math.sin(t2) * math.sin(p12),
         math.cos(t2)]
    )
    J = s1 + s2 + [0, 0, L]
    n = np.linalg.norm(J)
    return math.hypot(J[0], J[1]) / n, n / M**2


@facet(spin_cases(), quick=4000, thorough=100000, shards=2)
def spins(c, ctx):
    got, t = run(c)
    names = ["inclination", "s1x", "s1y", "s1z", "s2x", "s2y", "s2z"]
    eps = 2.3e-16 if c["double"] else 1.2e-7
    n = len(c["a_1"])
    aligned = True
    loose = []
    for i in range(n):
        tj, pj, t1, t2, p12, a1, a2, m1, m2, pr = (float(v[i]) for v in t)
        want = np.array(
            SimInspiralTransformPrecessingNewInitialConditions(
                tj, pj, t1, t2, p12, a1, a2, m1 * MSUN_SI, m2 * MSUN_SI,
                c["f_ref"], pr,
            )
        )
        sj, jn = conditioning((t1, t2, p12, a1, a2, m1, m2), c["f_ref"])
        si = abs(math.sin(want[0]))
        row = got[:, i]
        perp = [a1 * abs(math.sin(t1)), a2 * abs(math.sin(t2))]
        aligned &= max(perp) < 1e-6
        base = 40 * eps * (1 + 1 / jn)
        # the arc cosines lose half of the digits at most
        tol_i = min(base / max(si, 1e-30), 3 * math.sqrt(base))
        k = base / (max(sj, 1e-30) * max(si, 1e-30))
        tol_z = min(base / max(sj, 1e-30), 3 * math.sqrt(base))
        flat = max(perp) < 1e-12
        what = f"row {i} of {n} ({'double' if c['double'] else 'single'})"
        if jn < 1e-12:
            ctx.label("J vanishes")
            loose.append(None)
            continue
        spin_tol = min(4 * k + 2 * tol_z, 1) + base
        loose.append(np.array(
            [tol_i + (0 if flat else min(k, 0.5))]
            + [a1 * spin_tol] * 3 + [a2 * spin_tol] * 3
        ))
        check(np.isfinite(row).all(), f"{what}: {row}")
        if sj > 1e-8 or flat:
            close(row[0], want[0], f"{what}: inclination", rtol=1.0,
                  scale=tol_i + (0 if flat else min(k, 0.5)))
        for s, a, o in ((1, a1, 1), (2, a2, 4)):
            close(
                np.linalg.norm(row[o : o + 3]), a,
                f"{what}: magnitude of spin {s}", rtol=40 * eps, atol=1e-300,
            )
            close(
                row[o + 2], want[o + 2], f"{what}: s{s}z", rtol=1.0,
                scale=a * (tol_z * 2 + base),
            )
            if k < 0.02 or perp[s - 1] < 1e-12:
                for j in (0, 1):
                    close(
                        row[o + j], want[o + j],
                        f"{what}: {names[o + j]}", rtol=1.0,
                        scale=a * min(4 * k + 2 * tol_z, 1) + base,
                    )
        if flat and max(math.sin(t1), math.sin(t2)) < 1e-12:
            up = s1z_total(a1, t1, a2, t2, m1, m2, c["f_ref"]) > 0
            close(row[0], tj if up else math.pi - tj,
                  f"{what}: aligned inclination", rtol=1.0,
                  scale=tol_i + 1e-300)
        ctx.label("well conditioned" if k < 1e-3 else "ill conditioned")
    ctx.trivial(aligned)
    # the same element by itself, to within its own rounding errors
    i = n // 2
    alone, _ = run(c, slice(i, i + 1))
    if loose[i] is not None:
        close(alone[:, 0], got[:, i], "one element alone", rtol=1e-5,
              scale=1.0, atol=loose[i])


@st.composite
def population_cases(draw):
    return dict(
        n=draw(st.integers(1, 30000)), double=draw(st.booleans()),
        kind=draw(st.sampled_from([
            "aligned", "aligned", "anti", "mixed", "along L", "along J",
            "spinless", "any",
        ])),
        f_ref=draw(st.sampled_from([5.0, 20.0, 50.0])),
        seed=draw(st.integers(0, 2**31)),
    )


@facet(population_cases(), quick=40, thorough=1500, shards=2)
def populations(c, ctx):
    """Whole populations with special directions come out finite."""
    n, kind = c["n"], c["kind"]
    rng = np.random.default_rng(c["seed"])
    t = {}
    for name, k in zip(NAMES, KINDS):
        t[name] = rng.uniform(1.0 if k == MASS else 0.0, SPECIAL[k][0], n)
    if kind in ("aligned", "anti", "mixed"):
        for k in ("tilt_1", "tilt_2"):
            up = rng.integers(0, 2, n) if kind == "mixed" else kind == "anti"
            t[k] = up * np.full(n, math.pi)
    elif kind == "spinless":
        t["a_1"][:] = t["a_2"][:] = 0
    elif kind == "along J":
        t["theta_jn"] = rng.integers(0, 2, n) * math.pi
    elif kind == "along L":
        th1, th2 = t["tilt_1"], t["tilt_2"]
        v = (t["mass_1"] + t["mass_2"]) * 4.925490947641267e-06
        v = (v * math.pi * c["f_ref"]) ** (1 / 3)
        eta = t["mass_1"] * t["mass_2"]
        eta = eta / (t["mass_1"] + t["mass_2"]) ** 2
        L = t["mass_1"] * t["mass_2"] / v * (1 + v * v * (1.5 + eta / 6))
        S1 = t["a_1"] * t["mass_1"] ** 2
        S2 = t["a_2"] * t["mass_2"] ** 2
        x = S1 * np.sin(th1) + S2 * np.sin(th2) * np.cos(t["phi_12"])
        y = S2 * np.sin(th2) * np.sin(t["phi_12"])
        z = L + S1 * np.cos(th1) + S2 * np.cos(th2)
        t["theta_jn"] = np.arctan2(np.hypot(x, y), z)
        t["phi_jl"] = np.full(n, math.pi / 2)
    dt = torch.float64 if c["double"] else torch.float32
    args = [torch.from_numpy(t[k]).to(dt) for k in NAMES]
    out = bilby_spins_to_lalsim(*args[:-1], c["f_ref"], args[-1])
    got = np.stack([v.double().numpy() for v in out])
    ctx.label(kind, "double" if c["double"] else "single")
    ctx.trivial(n < 100)
    # below, J may vanish: its direction is then arbitrary
    ok = np.ones(n, bool)
    if kind in ("anti", "mixed", "any", "along J", "along L"):
        m = [a.double().numpy() for a in args]
        ok = np.array([
            conditioning(p, c["f_ref"])[1] > 1e-3
            for p in zip(m[2], m[3], m[4], m[5], m[6], m[7], m[8])
        ])
    bad = ~np.isfinite(got).all(0) & ok
    check(
        not bad.any(),
        f"{bad.sum()} of {n} binaries are not finite, the first: "
        + (str({k: float(a[bad.argmax()]) for k, a in zip(NAMES, args)})
           if bad.any() else ""),
    )
    eps = 2.3e-16 if c["double"] else 1.2e-7
    got = got[:, ok]
    a1, a2 = (args[k].double().numpy()[ok] for k in (5, 6))
    close(np.sqrt((got[1:4] ** 2).sum(0)), a1, "magnitude of spin 1",
          rtol=60 * eps, atol=1e-300)
    close(np.sqrt((got[4:7] ** 2).sum(0)), a2, "magnitude of spin 2",
          rtol=60 * eps, atol=1e-300)
    tj = args[0].double().numpy()[ok]
    if kind == "aligned":
        close(got[3], a1, "aligned s1z", rtol=60 * eps)
        close(got[6], a2, "aligned s2z", rtol=60 * eps)
        close(got[[1, 2, 4, 5]], np.zeros((4, ok.sum())), "in-plane spins",
              rtol=1.0, scale=60 * eps)
    if kind in ("aligned", "spinless"):
        # an arc cosine loses digits near its ends
        close(np.cos(got[0]), np.cos(tj), "cosine of the inclination",
              rtol=1.0, scale=100 * eps)
    if kind == "along L":
        close(np.cos(got[0]), np.ones(ok.sum()), "inclination along L",
              rtol=1.0, scale=1e-9 if c["double"] else 1e-4)


@facet(
    st.one_of(st.floats(-100, 0), st.just(0.0), st.integers(-5, 0)).map(
        lambda f: dict(f=f)
    ),
    quick=60, thorough=200,
)
def rejected(c, ctx):
    one = torch.full((2,), 0.5)
    raises(
        ValueError,
        lambda: bilby_spins_to_lalsim(*[one] * 7, one, one, c["f"], one),
        f"reference frequency {c['f']}",
    )


batches.independent(__name__, "bilby_spins", "component_masses")
arguments.ways(__name__, "bilby_spins", "component_masses")
histories.pure(__name__, "bilby_spins", "component_masses")
