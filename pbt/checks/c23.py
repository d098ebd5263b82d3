"""C23: spline interpolation passes through the data."""
import numpy as np
import torch
from hypothesis import strategies as st
from scipy.interpolate import BSpline

from pbt import arguments, batches, histories
from pbt.core import check, close, data, facet, raises, same, upto

from ml4gw.transforms import SplineInterpolate1D, SplineInterpolate2D

RULE = (
    "A case is one or two degrees and input grids, smoothing, data of one to "
    "four dimensions and output points, given at construction or at the "
    "call. Non-trivial: the rounding bound is below 5% of the data's scale."
)
ASSUMPTIONS = [
    "interior knots are the running means of the interior data points, as "
    "the code documents; output points outside the data are clamped to it",
    "the tolerance is the rounding of a single-precision solution of the "
    "normal equations, computed from their condition number; grids for "
    "which that bound exceeds 5% are counted trivial and only checked for "
    "shape",
]
EPS = 1.2e-7


@st.composite
def axis(draw, most=24):
    k = draw(st.integers(1, 5))
    return dict(
        k=k, n=draw(st.integers(k + 2, max(k + 2, most))),
        grid=draw(st.sampled_from(["uniform", "jitter", "log", "integer"])),
        s=draw(st.sampled_from([0.0, 0.0, 0.0, 0.001, 0.1])),
        origin=draw(st.sampled_from([0.0, -1.0, 5.0])),
        span=draw(st.sampled_from([1.0, 0.01, 100.0])),
        m=draw(upto(1, 30, 300)),
        points=draw(st.sampled_from(["inside", "data", "outside", "ends"])),
        dtype=draw(st.sampled_from(["float32", "float64", "int64"])),
        seed=draw(st.integers(0, 2**31)),
    )


def grid(a):
    rng = np.random.default_rng(a["seed"])
    n = a["n"]
    if a["grid"] == "integer" or a["dtype"] == "int64":
        x = a["origin"] + np.arange(n) * (1 + a["seed"] % 3)
        return x.astype(a["dtype"])
    if a["grid"] == "uniform":
        x = np.linspace(0, 1, n)
    elif a["grid"] == "jitter":
        x = np.cumsum(rng.uniform(0.6, 1.6, n))
        x = (x - x[0]) / (x[-1] - x[0])
    else:
        x = np.geomspace(1, 4, n) / 3 - 1 / 3
    return (a["span"] * (a["origin"] + x)).astype(a["dtype"])


def points(a, x, seed=None):
    rng = np.random.default_rng(a["seed"] + 1 if seed is None else seed)
    lo, hi = float(x[0]), float(x[-1])
    if a["points"] == "data":
        p = x[rng.permutation(len(x))][: max(1, a["m"])]
    elif a["points"] == "ends":
        p = np.array([lo, hi] * a["m"])[: a["m"]]
    elif a["points"] == "outside":
        p = rng.uniform(lo - (hi - lo), hi + (hi - lo), a["m"])
    else:
        p = np.sort(rng.uniform(lo, hi, a["m"]))
    return p.astype(np.float64 if a["dtype"] == "float64" else np.float32)


def f32(x):
    return x.astype(np.float32).astype(np.float64)


class Axis:
    """Double-precision spline operator of one axis."""

    def __init__(self, a, x):
        k, s = a["k"], a["s"]
        x = f32(x)
        inner = np.convolve(x[1:-1], np.ones(k) / k, mode="valid")
        self.t = np.r_[[x[0]] * (k + 1), inner, [x[-1]] * (k + 1)]
        self.k, self.x = k, x
        B = self.basis(x)
        G = B.T @ B + s * np.eye(len(x))
        self.fit = np.linalg.solve(G, B.T)
        cond = np.linalg.cond(G)
        grain = 1 + np.abs(x).max() / np.diff(x).min()
        # relative rounding of the coefficients
        self.err = 4 * EPS * (cond + grain * np.sqrt(cond)) * k

    def basis(self, p):
        p = np.clip(f32(p), self.t[0], self.t[-1])
        return BSpline.design_matrix(p, self.t, self.k).toarray()


def T(x):
    return None if x is None else torch.from_numpy(x.copy())


@st.composite
def one_cases(draw):
    return dict(
        x=draw(axis()), dims=draw(st.lists(upto(1, 3, 12), max_size=3)),
        kind=draw(st.sampled_from(["normal", "tone", "offset", "impulse"])),
        scale=draw(st.sampled_from([1.0, 1e-6, 1e4])),
        where=draw(st.sampled_from(["init", "call", "override"])),
        seed=draw(st.integers(0, 2**31)),
    )


def up4(z):
    return z.reshape((1,) * (4 - z.ndim) + z.shape)


def expect1(A, z, p):
    c = up4(z.astype(np.float64)) @ A.fit.T
    want = c @ A.basis(p).T
    tol = A.err * np.abs(c).max(-1, keepdims=True)
    return want, np.broadcast_to(tol, want.shape)


@facet(one_cases(), quick=2400, thorough=60000, shards=2, large=120)
def one_dim(c, ctx):
    a = c["x"]
    x = grid(a)
    p = points(a, x)
    z = data(
        c["seed"], c["dims"] + [len(x)], c["kind"], np.float32, c["scale"]
    )
    A = Axis(a, x)
    other = points(dict(a, points="inside"), x, c["seed"])
    init = {"init": p, "call": None, "override": other}[c["where"]]
    mod = SplineInterpolate1D(T(x), a["k"], a["s"], T(init))
    Z = T(z)
    got = mod(Z) if c["where"] == "init" else mod(Z, T(p))
    same(Z, z, "data after the call")
    want, tol = expect1(A, z, p)
    check(
        got.shape == want.shape, f"shape {got.shape}, expected {want.shape}"
    )
    useful = A.err < 0.05
    ctx.trivial(not useful)
    ctx.label(c["where"], a["points"], f"degree {a['k']}")
    if not useful:
        return
    close(got, want, "interpolated data", rtol=1.0, scale=tol)
    if a["s"] == 0 and a["points"] == "data":
        rng = np.random.default_rng(a["seed"] + 1)
        close(
            got, up4(z)[..., rng.permutation(len(x))][..., : len(p)],
            "data at its own coordinates", rtol=2.0, scale=tol,
        )


@st.composite
def poly_cases(draw):
    return dict(x=draw(axis()), seed=draw(st.integers(0, 2**31)))


@facet(poly_cases(), quick=600, thorough=12000)
def polynomials(c, ctx):
    """Polynomials up to the degree are reproduced between the points."""
    a = dict(c["x"], s=0.0)
    x = grid(a)
    p = points(a, x)
    rng = np.random.default_rng(c["seed"])
    co = rng.standard_normal(a["k"] + 1)
    u = (f32(x) - f32(x)[0]) / np.ptp(f32(x))
    up = np.clip((f32(p) - f32(x)[0]) / np.ptp(f32(x)), 0, 1)
    z = np.polyval(co, u).astype(np.float32)
    A = Axis(a, x)
    ctx.trivial(A.err > 0.05)
    if A.err > 0.05:
        return
    got = SplineInterpolate1D(T(x), a["k"])(T(z), T(p))
    cmax = np.abs(A.fit @ z).max()
    close(
        got[0, 0, 0], np.polyval(co, up), f"degree-{a['k']} polynomial",
        rtol=1.0, scale=A.err * cmax + 4 * EPS * np.abs(co).sum(),
    )


@st.composite
def two_cases(draw):
    return dict(
        x=draw(axis(14)), y=draw(axis(14)),
        dims=draw(st.lists(upto(1, 3, 12), max_size=2)),
        kind=draw(st.sampled_from(["normal", "tone", "offset"])),
        scale=draw(st.sampled_from([1.0, 1e-6, 1e4])),
        wx=draw(st.sampled_from(["init", "call", "override"])),
        wy=draw(st.sampled_from(["init", "call", "override"])),
        seed=draw(st.integers(0, 2**31)),
    )


def expect2(A, B, z, p, q):
    c = B.fit @ up4(z.astype(np.float64)) @ A.fit.T
    want = B.basis(q) @ c @ A.basis(p).T
    # coefficients of one axis alone bound the rounding of the other
    m = max(
        np.abs(c).max(), np.abs(B.fit @ up4(z)).max(),
        np.abs(up4(z) @ A.fit.T).max(),
    )
    return want, 4 * (A.err + B.err) * m


@facet(two_cases(), quick=1600, thorough=30000, shards=2, large=120)
def two_dim(c, ctx):
    a, b = c["x"], c["y"]
    x, y = grid(a), grid(b)
    p, q = points(a, x), points(b, y)
    z = data(
        c["seed"], c["dims"] + [len(y), len(x)], c["kind"], np.float32,
        c["scale"],
    )
    A, B = Axis(a, x), Axis(b, y)
    op = points(dict(a, points="inside"), x, c["seed"])
    oq = points(dict(b, points="inside"), y, c["seed"])
    mod = SplineInterpolate2D(
        T(x), T(y), a["k"], b["k"], a["s"], b["s"],
        T({"init": p, "call": None, "override": op}[c["wx"]]),
        T({"init": q, "call": None, "override": oq}[c["wy"]]),
    )
    kw = {}
    if c["wx"] != "init":
        kw["x_out"] = T(p)
    if c["wy"] != "init":
        kw["y_out"] = T(q)
    Z = T(z)
    got = mod(Z, **kw)
    same(Z, z, "data after the call")
    want, tol = expect2(A, B, z, p, q)
    check(
        got.shape == want.shape, f"shape {got.shape}, expected {want.shape}"
    )
    useful = tol < 0.05 * np.abs(z).max()
    ctx.trivial(not useful)
    if useful:
        close(got, want, "interpolated data", rtol=1.0, scale=tol)


@st.composite
def history_cases(draw):
    return dict(
        x=draw(axis(12)), y=draw(axis(12)), two=draw(st.booleans()),
        ix=draw(st.booleans()), iy=draw(st.booleans()),
        calls=draw(
            st.lists(
                st.tuples(
                    st.booleans(), st.booleans(), st.integers(1, 3),
                    st.integers(0, 99),
                ),
                min_size=2, max_size=6,
            )
        ),
        seed=draw(st.integers(0, 2**31)),
    )


@facet(history_cases(), quick=800, thorough=16000)
def history(c, ctx):
    """Calls on one object are independent of the calls before."""
    a, b = dict(c["x"], s=0.0), dict(c["y"], s=0.0)
    x, y = grid(a), grid(b)
    A, B = Axis(a, x), Axis(b, y)
    px = points(a, x) if c["ix"] else None
    py = points(b, y) if c["iy"] else None
    if c["two"]:
        mod = SplineInterpolate2D(
            T(x), T(y), a["k"], b["k"], x_out=T(px), y_out=T(py)
        )
    else:
        mod = SplineInterpolate1D(T(x), a["k"], x_out=T(px))
    useful = max(A.err, B.err) < 0.005
    kinds = set()
    for i, (gx, gy, batch, s) in enumerate(c["calls"]):
        p = points(a, x, s) if gx else None
        q = points(b, y, s + 1) if gy else None
        z = data(
            c["seed"] + i, (batch, 2, len(y), len(x)), "normal", np.float32
        )
        kinds.add((gx, gy))
        use, uq = p if gx else px, q if gy else py
        if c["two"]:
            def call(p=p, q=q, z=z):
                return mod(T(z), T(p), T(q))
        else:
            def call(p=p, z=z):
                return mod(T(z), T(p))
        if use is None or (c["two"] and uq is None):
            raises(ValueError, call, f"call {i} without output points")
            continue
        got = call()
        if c["two"]:
            want, tol = expect2(A, B, z, use, uq)
        else:
            want, tol = expect1(A, z, use)
        check(
            got.shape == want.shape,
            f"call {i}: shape {got.shape}, expected {want.shape}",
        )
        if useful and np.max(tol) < 0.3:
            close(got, want, f"call {i}", rtol=1.0, scale=tol)
    ctx.trivial(len(kinds) < 2 or not useful)


@st.composite
def bad_cases(draw):
    return dict(
        two=draw(st.booleans()), k=draw(st.integers(1, 5)),
        n=draw(st.integers(0, 4)), off=draw(st.integers(1, 4)),
        what=draw(
            st.sampled_from(["few", "few-y", "size", "size-y", "rank", "low"])
        ),
    )


@facet(bad_cases(), quick=150, thorough=600)
def rejected(c, ctx):
    k = c["k"]
    n = k + 2 + c["n"]
    ok = torch.arange(n).float()
    ctx.label(c["what"])
    if c["what"] in ("few", "few-y"):
        short = torch.arange(max(0, k + 2 - c["off"])).float()
        if not c["two"]:
            def bad():
                return SplineInterpolate1D(short, k)
        elif c["what"] == "few":
            def bad():
                return SplineInterpolate2D(short, ok, k, k)
        else:
            def bad():
                return SplineInterpolate2D(ok, short, k, k)
        raises(ValueError, bad, "too few input points")
        return
    one = SplineInterpolate1D(ok, k, x_out=ok)
    y = torch.arange(n + 1).float()
    two = SplineInterpolate2D(ok, y, k, k, x_out=ok, y_out=y)
    if c["what"] == "rank":
        raises(ValueError, lambda: one(torch.zeros(1, 1, 1, 1, n)), "5D data")
        raises(
            ValueError, lambda: two(torch.zeros(1, 1, 1, n + 1, n)), "5D data"
        )
    elif c["what"] == "low":
        raises(ValueError, lambda: two(torch.zeros(n)), "1D data in 2D")
    elif c["what"] == "size":
        raises(
            ValueError, lambda: one(torch.zeros(2, n + c["off"])),
            "data of another width",
        )
        raises(
            ValueError, lambda: two(torch.zeros(n + 1, n + c["off"])),
            "data of another width",
        )
    else:
        raises(
            ValueError, lambda: two(torch.zeros(n + 1 + c["off"], n)),
            "data of another height",
        )
        raises(
            ValueError, lambda: two(torch.zeros(n, n + 1)), "transposed data"
        )


batches.independent(__name__, "SplineInterpolate1D", "SplineInterpolate2D")
arguments.ways(__name__, "spline1d", "spline2d")
histories.pure(__name__, "SplineInterpolate1D", "SplineInterpolate2D")
