"""C15: distributions sample what their densities describe."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, histories
from pbt.core import check, close, facet, fail, raises, same, upto

from ml4gw import distributions as D

RULE = (
    "A case is a distribution family with its parameters, a sample shape and "
    "a random state. Non-trivial: every case."
)
ASSUMPTIONS = [
    "cosine and sine bounds lie within one half-period where the density is "
    "positive",
    "values outside a support give minus infinity or a ValueError from "
    "torch's own validation",
    "cosmological ranges span at least 50 grid cells; the grid resolution "
    "bounds how exactly the ends of the range are met",
    "Kolmogorov-Smirnov thresholds correspond to a chance below 1e-12 per "
    "case",
]
N = 20000
KS = math.sqrt(28.3 / (2 * N))
EPS = 2.0**-23

floats = lambda a, b: st.floats(a, b, allow_nan=False, width=32)


# -- closed forms: cdf, pdf in float64 -------------------------------------


class Ref:
    def __init__(self, c):
        self.c = c
        f = c["family"]
        a, b = c.get("low"), c.get("high")
        if f == "cosine":
            self.g, self.pdf0 = np.sin, np.cos
        elif f == "sine":
            self.g, self.pdf0 = lambda x: -np.cos(x), np.sin
        elif f == "loguniform":
            self.g, self.pdf0 = np.log, lambda x: 1 / x
        elif f == "powerlaw":
            k = c["index"]
            if k == -1:
                self.g, self.pdf0 = np.log, lambda x: 1 / x
            else:
                self.g = lambda x: np.power(x, k + 1.0) / (k + 1)
                self.pdf0 = lambda x: np.power(x, float(k))
        self.a, self.b = a, b
        with np.errstate(divide="ignore"):
            self.ga, self.gb = self.g(np.float64(a)), self.g(np.float64(b))

    def cdf(self, x):
        return (self.g(x) - self.ga) / (self.gb - self.ga)

    def logpdf(self, x):
        return np.log(self.pdf0(x)) - np.log(self.gb - self.ga)

    def slack(self):
        """Rounding of a single-precision draw in the space of g."""
        return 8 * EPS * max(abs(self.ga), abs(self.gb), 1e-30)

    def quantile(self, q):
        g = self.ga + q * (self.gb - self.ga)
        f, c = self.c["family"], self.c
        if f == "cosine":
            return np.arcsin(g)
        if f == "sine":
            return np.arccos(-g)
        if f == "loguniform" or c["index"] == -1:
            return np.exp(g)
        k = c["index"] + 1.0
        return np.power(g * k, 1 / k)


@st.composite
def closed_cases(draw):
    family = draw(
        st.sampled_from(["cosine", "sine", "loguniform", "powerlaw"])
    )
    c = dict(family=family)
    if family in ("cosine", "sine"):
        shift = 0 if family == "cosine" else math.pi / 2
        lo, hi = -math.pi / 2, math.pi / 2
        kind = draw(st.sampled_from(["default", "full", "sub", "low", "high"]))
        if kind in ("sub", "high"):
            lo = draw(floats(-1.5, 1.25))
        if kind in ("sub", "low"):
            hi = min(lo + draw(floats(0.25, 3.0)), math.pi / 2)
        c.update(low=lo + shift, high=hi + shift, default=kind == "default")
    elif family == "loguniform":
        lo = 10 ** draw(floats(-6, 6))
        c.update(low=lo, high=lo * 10 ** draw(floats(0.0625, 8)))
    else:
        index = draw(
            st.one_of(
                st.sampled_from([-1, -1.0, 2, 2.0, -4, -4.0, 1, -2, -2.35]),
                st.floats(-6, -1.25), st.floats(-0.75, -0.05),
                st.floats(0.05, 6),
            )
        )
        lo = 10 ** draw(floats(-2, 2))
        hi = lo * 10 ** draw(floats(0.0625, 2))
        if index < -1 and draw(st.integers(0, 3)) == 0:
            hi = math.inf
        if index > -1 and draw(st.integers(0, 3)) == 0:
            lo = 0.0
        c.update(low=lo, high=hi, index=index)
    c["shape"] = draw(st.lists(upto(0, 4, 40), max_size=3))
    c["tensor"] = draw(st.booleans())
    c["seed"] = draw(st.integers(0, 2**31))
    return c


def build(c):
    a, b = c["low"], c["high"]
    if c["tensor"]:
        a, b = torch.tensor(a), torch.tensor(b)
    f = c["family"]
    if f == "cosine":
        return D.Cosine() if c["default"] else D.Cosine(a, b)
    if f == "sine":
        return D.Sine() if c["default"] else D.Sine(a, b)
    if f == "loguniform":
        return D.LogUniform(a, b)
    return D.PowerLaw(a, b, index=c["index"])


def shapes(d, shape):
    out = d.sample(torch.Size(shape)) if shape else d.sample()
    check(
        tuple(out.shape) == tuple(shape),
        f"sample shape {tuple(out.shape)}, requested {shape}",
    )
    out = d.sample(tuple(shape))
    check(
        tuple(out.shape) == tuple(shape),
        f"sample shape {tuple(out.shape)}, requested {shape}",
    )


def ks(u, what, slack=0.0):
    """u: values of the reference cdf at the draws."""
    n = len(u)
    u = np.sort(u)
    i = np.arange(1, n + 1)
    d = max((i / n - u).max(), (u - (i - 1) / n).max())
    limit = math.sqrt(28.3 / (2 * n)) + slack
    check(
        d < limit,
        f"{what}: Kolmogorov-Smirnov distance {d:.4f} (limit {limit:.4f})",
    )


def uncorrelated(u, what):
    r = np.corrcoef(u[1:], u[:-1])[0, 1]
    check(abs(r) < 8 / len(u) ** 0.5, f"{what}: successive draws correlate {r}")


def outside(d, values, what):
    """Each value alone gives -inf or a ValueError."""
    for v in values:
        try:
            got = d.log_prob(torch.tensor([v], dtype=torch.float32))
        except ValueError:
            continue
        check(
            got.shape == (1,) and got[0] == -math.inf,
            f"{what}: log-density {got.tolist()} at {v}, outside the support",
        )


@facet(closed_cases(), quick=400, thorough=10000, shards=4, large=120)
def closed_form_families(c, ctx):
    d = build(c)
    ref = Ref(c)
    what = f"{c['family']} {c['low'], c['high']} {c.get('index', '')}"
    ctx.label(c["family"])
    if c["family"] == "powerlaw":
        k = c["index"]
        ctx.label("index -1" if k == -1 else "index below -1" if k < -1 else "index above -1")
    shapes(d, c["shape"])
    torch.manual_seed(c["seed"])
    x = d.sample((N,)).double().numpy()
    check(not np.isnan(x).any(), f"{what}: drew NaN")
    with np.errstate(divide="ignore", invalid="ignore"):
        g = ref.g(x)
    tol = ref.slack() + 4 * EPS
    if c["family"] == "powerlaw":
        tol = ref.slack()
    bad = ~((g >= ref.ga - tol) & (g <= ref.gb + tol))
    span = 1e-3 * (c["high"] - c["low"]) if math.isfinite(c["high"]) else 0
    bad |= (x < c["low"] - 1e-3 * abs(c["low"]) - span)
    bad |= (x > c["high"] + 1e-3 * abs(c["high"]) + span)
    check(not bad.any(), f"{what}: drew {x[bad][:3]} outside the support")
    u = ref.cdf(x)
    ks(u, what, tol / (ref.gb - ref.ga))
    uncorrelated(u, what)

    q = np.array([0.003, 0.02, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.98, 0.997])
    v = torch.tensor(ref.quantile(q), dtype=torch.float32)
    for values in (v, v.reshape(1, -1), v[3]):
        got = d.log_prob(values)
        w = values.double().numpy()
        want = ref.logpdf(w)
        with np.errstate(all="ignore"):
            cond = 1 + np.abs(ref.g(w)) + np.abs(want)
        close(
            got, want, f"{what}: log-density",
            rtol=1e-5 + 8 * tol / (ref.gb - ref.ga), scale=cond,
        )
    lo, hi = c["low"], c["high"]
    width = hi - lo if math.isfinite(hi) else lo
    outs = []
    if c["family"] in ("cosine", "sine"):
        outs += [lo - 0.05 * width, lo - 1.0, hi + 0.05 * width, hi + 1.0]
    else:
        outs += [lo - 0.05 * width, lo - 2 * width]
        if math.isfinite(hi):
            outs += [hi + 0.05 * width, hi + 3 * width]
        if c["family"] == "powerlaw" and c["index"] not in (-1, 1, 2):
            outs = [o for o in outs if o > 0]
    outside(d, outs, what)


@st.composite
def lognormal_cases(draw):
    return dict(
        mean=draw(floats(-3, 5)), std=draw(floats(0.0625, 2)),
        low=draw(st.one_of(st.none(), st.just(0), st.just(0.0), st.none(), st.integers(1, 3))),
        shape=draw(st.lists(st.integers(0, 4), max_size=3)),
        seed=draw(st.integers(0, 2**31)),
    )


@facet(lognormal_cases(), quick=80, thorough=2000, shards=2)
def log_normal(c, ctx):
    """low is in units of the median times a half here: q times exp(mean)/2."""
    low = c["low"]
    if low:
        low = low * math.exp(c["mean"]) / 2
    kw = {} if low is None else {"low": low}
    d = D.LogNormal(c["mean"], c["std"], **kw)
    ctx.label("low none" if low is None else "low 0" if not low else "low")
    shapes(d, c["shape"])
    torch.manual_seed(c["seed"])
    x = d.sample((N,)).double().numpy()
    check((x > 0).all(), "drew values that are not positive")
    outside(d, [-1.0, -0.01], "log-normal")
    if low:
        outside(d, [0.5 * low], "log-normal")
        check(
            (x >= low * (1 - 1e-5)).all(),
            f"log-normal with low={low}: drew {x.min()} below it",
            key="lognormal-low",
        )
        return
    z = (np.log(x) - c["mean"]) / c["std"]
    u = 0.5 * (1 + np.vectorize(math.erf)(z / math.sqrt(2)))
    ks(u, "log-normal")
    uncorrelated(u, "log-normal")
    z = np.linspace(-3, 3, 13)
    v = torch.tensor(np.exp(c["mean"] + c["std"] * z), dtype=torch.float32)
    got = d.log_prob(v)
    w = v.double().numpy()
    z = (np.log(w) - c["mean"]) / c["std"]
    want = -0.5 * z**2 - np.log(w * c["std"] * math.sqrt(2 * math.pi))
    close(
        got, want, "log-density", rtol=1e-5,
        scale=3 + np.abs(want) + 10 * np.abs(c["mean"]) / c["std"] ** 2,
    )


@st.composite
def delta_cases(draw):
    return dict(
        peak=draw(st.one_of(st.none(), floats(-1e6, 1e6), st.integers(-100, 100))),
        shape=draw(st.lists(st.integers(0, 5), max_size=3)),
    )


@facet(delta_cases(), quick=300, thorough=3000)
def delta_function(c, ctx):
    d = D.DeltaFunction() if c["peak"] is None else D.DeltaFunction(c["peak"])
    shapes(d, c["shape"])
    x = d.sample(tuple(c["shape"]))
    want = np.full(c["shape"], c["peak"] or 0.0, np.float32)
    same(x, want, f"samples of a delta function at {c['peak']}")


@st.composite
def bad_cases(draw):
    kind = draw(st.sampled_from(["index", "type", "range"]))
    return dict(
        kind=kind, low=draw(floats(0.5, 4)), width=draw(floats(0.5, 4)),
        word=draw(st.sampled_from(["dummy", "", "Redshift", "luminosity"])),
        zmax=draw(st.sampled_from([1, 2.5, 5])),
        excess=draw(floats(0.0625, 3)),
        type=draw(
            st.sampled_from(
                ["redshift", "comoving_distance", "luminosity_distance"]
            )
        ),
        zero=draw(st.sampled_from([0, 0.0, -0.0])),
    )


@facet(bad_cases(), quick=120, thorough=1000)
def inconsistent_arguments_rejected(c, ctx):
    ctx.label(c["kind"])
    a, b = c["low"], c["low"] + c["width"]
    if c["kind"] == "index":
        raises(
            ValueError, lambda: D.PowerLaw(a, b, index=c["zero"]), "index 0"
        )
    elif c["kind"] == "type":
        raises(
            ValueError,
            lambda: D.UniformComovingVolume(0, 1, distance_type=c["word"]),
            f"distance type {c['word']!r}",
        )
    else:
        cosmo = Cosmology(67.66, 0.30966, c["zmax"] + c["excess"])
        top = cosmo.distance(c["type"], c["zmax"] + c["excess"])
        raises(
            ValueError,
            lambda: D.UniformComovingVolume(
                0, float(top), distance_type=c["type"],
                z_grid_max=c["zmax"], grid_size=2000,
            ),
            f"{c['type']} beyond the grid",
        )


# -- cosmology --------------------------------------------------------------

RATES = {
    "inverse": lambda z: 1 / (1 + z),
    "power": lambda z: (1 + z) ** 2.7,
    "madau": lambda z: (1 + z) ** 2.7 / (1 + ((1 + z) / 2.9) ** 5.6),
    "constant": lambda z: 0 * z + 3.0,
}


class Cosmology:
    def __init__(self, h0, om, zmax, n=60001):
        self.z = np.linspace(0, zmax, n)
        E = np.sqrt(om * (1 + self.z) ** 3 + 1 - om)
        self.E = E
        f = 299792.458 / h0 / E
        self.dc = np.concatenate(
            [[0], np.cumsum((f[1:] + f[:-1]) / 2 * np.diff(self.z))]
        )
        self.f = f

    def grid(self, kind):
        """Distance at the grid, and its derivative in redshift."""
        if kind == "redshift":
            return self.z, np.ones_like(self.z)
        if kind == "comoving_distance":
            return self.dc, self.f
        return self.dc * (1 + self.z), self.f * (1 + self.z) + self.dc

    def distance(self, kind, z):
        return np.interp(z, self.z, self.grid(kind)[0])

    def redshift(self, kind, d):
        return np.interp(d, self.grid(kind)[0], self.z)


@st.composite
def reach_cases(draw):
    return dict(
        type=draw(st.sampled_from(["comoving_distance", "luminosity_distance"])),
        h0=draw(st.one_of(st.none(), floats(50, 90))),
        om=draw(st.one_of(st.none(), floats(0.125, 0.9375))),
        zmax=draw(st.one_of(st.none(), floats(0.5, 8))),
        grid=draw(st.sampled_from([None, 4001, 8000])),
        off=draw(st.sampled_from([-1, 1])) * 2.0 ** draw(st.integers(-11, -5)),
        rate=draw(st.booleans()),
    )


@facet(reach_cases(), quick=250, thorough=4000)
def distances_reach_as_far_as_the_grid(c, ctx):
    """The largest distance accepted is the distance at the end of the
    redshift grid, in the cosmology asked for."""
    top = Cosmology(c["h0"] or 67.66, c["om"] or 0.30966, c["zmax"] or 5)
    far = float(top.distance(c["type"], c["zmax"] or 5)) * (1 + c["off"])
    kw = dict(distance_type=c["type"])
    for name, key in [("h0", "h0"), ("omega_m", "om"), ("z_grid_max", "zmax"),
                      ("grid_size", "grid")]:
        if c[key] is not None:
            kw[name] = c[key]
    if c["rate"]:
        make = lambda: D.RateEvolution(RATES["inverse"], 0.0, far, **kw)
    else:
        make = lambda: D.UniformComovingVolume(0.0, far, **kw)
    ctx.label("accepted" if c["off"] < 0 else "rejected", c["type"])
    if c["off"] < 0:
        make()
    else:
        raises(
            ValueError, make,
            f"{c['type']} of {far:.1f}, {c['off']:.1e} beyond the grid",
        )


@st.composite
def cosmo_cases(draw):
    zmax = draw(st.sampled_from([None, None, 1.0, 2, 5.5]))
    top = zmax or 5
    lo = draw(st.one_of(st.just(0.0), floats(0, 0.75)))
    width = draw(floats(0.0625, 1))
    return dict(
        type=draw(
            st.sampled_from(
                ["redshift", "comoving_distance", "luminosity_distance", None]
            )
        ),
        zlo=lo * top, zhi=min(lo + width, 0.999) * top,
        h0=draw(st.one_of(st.none(), floats(50, 90))),
        om=draw(st.one_of(st.none(), floats(0.125, 0.9375))),
        zmax=zmax, grid=draw(st.sampled_from([None, 2000, 4001, 8000])),
        rate=draw(st.sampled_from([None] + sorted(RATES))),
        shape=draw(st.lists(st.integers(0, 4), max_size=3)),
        seed=draw(st.integers(0, 2**31)),
    )


@facet(cosmo_cases(), quick=250, thorough=6000, shards=6)
def uniform_in_comoving_volume(c, ctx):
    kind = c["type"] or "redshift"
    zmax = c["zmax"] or 5
    cosmo = Cosmology(c["h0"] or 67.66, c["om"] or 0.30966, zmax)
    lo = float(cosmo.distance(kind, c["zlo"]))
    hi = float(cosmo.distance(kind, c["zhi"]))
    kw = {}
    for name, key in [
        ("distance_type", "type"), ("h0", "h0"), ("omega_m", "om"),
        ("z_grid_max", "zmax"), ("grid_size", "grid"),
    ]:
        if c[key] is not None:
            kw[name] = c[key]
    if c["rate"] is None:
        d = D.UniformComovingVolume(lo, hi, **kw)
    else:
        d = D.RateEvolution(RATES[c["rate"]], lo, hi, **kw)
    what = f"{kind} {lo, hi} rate {c['rate']}"
    ctx.label(kind, f"rate {c['rate']}", "from zero" if lo == 0 else "from above")
    shapes(d, c["shape"])

    # the reference, on a grid restricted to the range
    p = cosmo.dc**2 / cosmo.E
    if c["rate"] is not None:
        p = p * RATES[c["rate"]](cosmo.z)
    cum = np.concatenate(
        [[0], np.cumsum((p[1:] + p[:-1]) / 2 * np.diff(cosmo.z))]
    )
    ca, cb = np.interp([c["zlo"], c["zhi"]], cosmo.z, cum)
    cdf = lambda z: (np.interp(z, cosmo.z, cum) - ca) / (cb - ca)
    dz = zmax / ((c["grid"] or 10000) - 1)
    edge = float(
        cdf(c["zlo"] + dz) - cdf(c["zlo"]) + cdf(c["zhi"]) - cdf(c["zhi"] - dz)
    )

    torch.manual_seed(c["seed"])
    x = d.sample((N,)).double().numpy()
    tol = 1e-5 * hi
    check(
        np.isfinite(x).all() and x.min() >= lo - tol and x.max() <= hi + tol,
        f"{what}: drew between {x.min()} and {x.max()}",
    )
    u = cdf(cosmo.redshift(kind, x))
    ks(u, what, edge + 2e-3)
    uncorrelated(u, what)

    # log-density inside the range
    za = max(c["zlo"] + 6 * dz, 25 * dz)
    z = np.linspace(za, c["zhi"] - 6 * dz, 41)
    dist, slope = cosmo.grid(kind)
    v = torch.tensor(np.interp(z, cosmo.z, dist), dtype=torch.float32)
    zs = cosmo.redshift(kind, v.double().numpy())
    want = (
        np.interp(zs, cosmo.z, np.log(np.maximum(p, 1e-300)))
        - np.log(cb - ca)
        - np.log(np.interp(zs, cosmo.z, slope))
    )
    noise = 4 * EPS * hi / (dz * np.interp(zs, cosmo.z, slope))
    close(
        d.log_prob(v.clone()), want, f"{what}: log-density",
        atol=4e-3 + 1.5 * edge, rtol=1.0, scale=noise,
    )
    # all of the range has a density, also next to its ends
    inner = np.concatenate(
        [
            c["zlo"] + dz * np.array([0.05, 0.3, 0.5, 0.9, 1.5, 2.5]),
            c["zhi"] - dz * np.array([0.05, 0.3, 0.5, 0.9, 1.5, 2.5]),
        ]
    )
    v = torch.tensor(cosmo.distance(kind, inner), dtype=torch.float32)
    v = v[(v >= lo) & (v <= hi)]
    got = d.log_prob(v)
    check(
        torch.isfinite(got).all(),
        f"{what}: log-density {got.tolist()} at {v.tolist()}",
    )
    gap = hi - lo
    outs = [hi + 0.01 * gap, hi + gap, lo - 0.01 * gap, lo - gap]
    outs += [hi * (1 + 1e-6), hi + 1e-4 * gap, lo - 1e-4 * gap]
    if lo > 0:
        outs.append(lo * (1 - 1e-6))
    outside(d, [o for o in outs if o >= 0], what)
    if lo == 0:
        got = d.log_prob(torch.tensor([0.0]))
        check(got[0] == -math.inf, f"{what}: log-density {got} at zero")


arguments.ways(
    __name__, "Cosine", "Sine", "LogUniform", "LogNormal", "PowerLaw",
    "DeltaFunction", "rsample", "UniformComovingVolume", "RateEvolution",
)
histories.pure(
    __name__, "cosine", "sine", "log_uniform", "log_normal", "power_law",
    "comoving_redshift", "comoving_distance", "rate_evolution", "delta",
)
