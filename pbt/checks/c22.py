"""C22: the Q-transform measures energy in windowed tiles."""
import math
import warnings

import numpy as np
import torch
from hypothesis import assume, strategies as st

from pbt import arguments, batches, histories
from pbt.checks import c23
from pbt.core import check, close, data, facet, raises, same, upto

from ml4gw.transforms import QScan, SingleQTransform
from ml4gw.transforms.qtransform import QTile

RULE = (
    "A case is a duration, rate, Q or Q range, frequency range, mismatch, "
    "normalisation, output shape, interpolation and a batch of one to three "
    "dimensions. Non-trivial: rounding is below 5% of the energies compared."
)
ASSUMPTIONS = [
    "tile windows, indices, frequencies and planes follow GWpy's published "
    "formulas; indices past the Nyquist frequency repeat the last bin",
    "bilinear and bicubic interpolation follow PyTorch's half-pixel "
    "convention (bicubic coefficient -0.75), splines that of C23",
    "frequencies within rounding of a multiple of 1/duration may fall on "
    "either side of it; cases that depend on this are left out",
    "the search range of energies is open below and closed above",
]
KINDS = ["normal", "tone", "offset", "impulse"]
NORMS = ["median", "mean", "MEDIAN", None]


@st.composite
def base(draw, most=1024):
    rate = draw(st.sampled_from([64, 128.0, 256, 100, 1000.0, 1024, 250]))
    n = draw(st.one_of(
        st.sampled_from([256, 512, 1024]), upto(200, most, 2 * most)
    ))
    length = n / rate
    if int(length * rate) != n:
        length = float(np.nextafter(length, np.inf))
    max_q = math.pi * n / 50 - 11**0.5
    q = draw(st.floats(3.0, min(60.0, 0.95 * max_q)))
    return dict(
        rate=rate, n=n, length=length, q=round(q, 3),
        mismatch=draw(st.sampled_from([0.2, 0.2, 0.1, 0.35, 0.5])),
        dims=draw(st.lists(upto(1, 3, 12), max_size=2)),
        kind=draw(st.sampled_from(KINDS)),
        double=draw(st.sampled_from([False, False, True])),
        scale=draw(st.sampled_from([1.0, 1e3, 1e-3])),
        norm=draw(st.sampled_from(NORMS)),
        seed=draw(st.integers(0, 2**31)),
    )


def series(c, seed=None):
    return data(
        c["seed"] if seed is None else seed, c["dims"] + [c["n"]], c["kind"],
        np.float64 if c["double"] else np.float32, c["scale"],
    )


def spectrum(x):
    X = np.fft.rfft(x.astype(np.float64), axis=-1, norm="forward")
    X[..., 1:] *= 2
    return X


def up3(x):
    return x.reshape((1,) * (3 - x.ndim) + x.shape)


def ntiles(c, q, f):
    r = c["length"] * 2 * math.pi * f / q / (2 * math.sqrt(c["mismatch"] / 3))
    e = math.log2(r)
    assume(abs(e - round(e)) > 1e-5)
    return 2 ** math.ceil(e)


def row(c, q, f, X, norm):
    """(energy, tolerance, relative tolerance) of one row."""
    qp = q / 11**0.5
    d = c["length"]
    r = f / qp * d
    assume(abs(r - round(r)) > 1e-6)
    half = int(r)
    nt = ntiles(c, q, f)
    assume(nt > 2 * half + 1)
    k = np.arange(-half, half + 1)
    scale = nt / c["n"] * math.sqrt(315 * qp / (128 * f))
    w = (1 - (k / d * qp / f) ** 2) ** 2 * scale
    pos = k + 1 + f * d
    assume(np.abs(pos - np.floor(pos) - 0.5).min() > 1e-6)
    idx = np.clip(np.round(pos).astype(int), 0, X.shape[-1] - 1)
    full = np.zeros(X.shape[:-1] + (nt,), complex)
    # zero frequency offset at index 0
    full[..., k % nt] = X[..., idx] * w
    E = np.abs(np.fft.ifft(full, axis=-1)) ** 2
    delta = 2e-6 * np.abs(X).max(-1, keepdims=True) * w.sum() / nt
    tol = 2 * np.sqrt(E) * delta + delta**2 + 3e-6 * E
    if not norm:
        return E, tol
    ref = (np.median if norm.lower() == "median" else np.mean)(
        E, axis=-1, keepdims=True
    )
    # ordering statistics move by no more than the values do
    dref = 2 * np.sqrt(ref) * delta + delta**2 + 3e-6 * ref
    with np.errstate(divide="ignore", invalid="ignore"):
        rel = dref / ref
        out = E / ref
        tol = tol / ref + out * rel
        tol = np.where(rel < 0.05, tol, np.inf)
    return out, tol


def frequencies(c, q, frange):
    lo, hi = frange
    total = math.log(hi / lo) * math.sqrt(2 + q**2) / 2
    deltam = 2 * math.sqrt(c["mismatch"] / 3)
    r = total / deltam
    assume(abs(r - round(r)) > 1e-9)
    n = max(1, math.ceil(r))
    base_ = math.exp(2 / math.sqrt(2 + q**2) * total / n)
    f = lo * np.array([base_ ** (i + 0.5) for i in range(n)]) * c["length"]
    assume((np.abs(f - np.round(f)) > 1e-6 * f + 1e-9).all())
    return np.unique(np.floor(f)) / c["length"]


def default_range(c, q, frange):
    lo, hi = frange or (0, math.inf)
    if lo <= 0:
        lo = 50 * q / (2 * math.pi * c["length"])
    if math.isinf(hi):
        hi = c["rate"] / 2 / (1 + 11**0.5 / q)
    return lo, hi


def T(x):
    return torch.from_numpy(x.copy())


@st.composite
def row_cases(draw):
    c = draw(base())
    lo, hi = default_range(c, c["q"], None)
    # rows near Nyquist or zero reach past the ends of the spectrum
    c["f"] = draw(
        st.one_of(
            st.floats(0.3 * lo, hi), st.floats(hi, 0.49 * c["rate"])
        )
    )
    return c


@facet(row_cases(), quick=2400, thorough=60000, shards=2, large=120)
def rows(c, ctx):
    X = spectrum(series(c))
    dt = np.complex128 if c["double"] else np.complex64
    F = T(X.astype(dt))
    tile = QTile(c["q"], c["f"], c["length"], c["rate"], c["mismatch"])
    got = tile(F, c["norm"])
    same(F, X.astype(dt), "frequency series after the call")
    want, tol = row(c, c["q"], c["f"], up3(X), c["norm"])
    ctx.label(c["norm"], f"{len(c['dims']) + 1}D")
    ctx.trivial(not np.isfinite(tol).all())
    check(
        got.shape == want.shape,
        f"{tuple(got.shape)} tiles, expected {want.shape}",
    )
    ok = np.isfinite(tol)
    close(got.numpy()[ok], want[ok], "row energies", rtol=2.0, scale=tol[ok])


@st.composite
def q_cases(draw, methods=("bilinear", "bicubic", "spline")):
    c = draw(base())
    c["method"] = draw(st.sampled_from(list(methods)))
    if c["method"] == "spline" and c["norm"] is None:
        c["double"] = False  # splines are single precision only
    lo, hi = default_range(c, c["q"], None)
    a = draw(st.sampled_from([0, 0, -1, None]))
    b = draw(st.sampled_from([None, None, 0, 1]))
    low = draw(st.floats(0.4, 1.5)) * lo if a is None else a
    high = draw(st.floats(0.6, 0.99)) * hi if b == 0 else "inf"
    if b == 1:
        high = draw(st.floats(hi, 0.49 * c["rate"]))
    c["frange"] = [low, high]
    c["none"] = draw(st.booleans()) and low == 0 and high == "inf"
    c["shape"] = [draw(st.integers(1, 70)), draw(st.integers(1, 130))]
    return c


def frange_of(c):
    if c.get("none"):
        return None
    return [float(v) for v in c["frange"]]


def check_range(lo, hi):
    assume(hi > 1.1 * lo)


def linear_operator(n, m, method):
    """m x n matrix of one-dimensional interpolation in PyTorch's convention."""
    M = np.zeros((m, n))
    for i in range(m):
        s = (i + 0.5) * n / m - 0.5
        if method == "bilinear":
            s = max(s, 0.0)
            j = min(int(s), n - 1)
            t = s - j
            M[i, j] += 1 - t
            M[i, min(j + 1, n - 1)] += t
        else:
            j = math.floor(s)
            t = s - j
            A = -0.75
            for o in (-1, 0, 1, 2):
                u = abs(t - o)
                if u <= 1:
                    w = ((A + 2) * u - (A + 3)) * u * u + 1
                else:
                    w = ((A * u - 5 * A) * u + 8 * A) * u - 4 * A
                M[i, min(max(j + o, 0), n - 1)] += w
    return M


def interpolate(c, rows_, tols, freqs, lo, hi, method):
    """(spectrogram, tolerance) or None where rounding hides the answer."""
    nf, nt = c["shape"]
    if not all(np.isfinite(t).all() for t in tols):
        return None
    top = max(np.abs(r).max() for r in rows_)
    if method == "spline":
        t_out = np.arange(nt) * (c["length"] / nt)
        lines, worst = [], max(t.max() for t in tols)
        for r in rows_:
            n = r.shape[-1]
            x = np.arange(n) * (c["length"] / n)
            A = operator(n, c["length"])
            lines.append(r @ A.fit.T @ A.basis(t_out).T)
            worst = max(worst, A.err * np.abs(r @ A.fit.T).max())
        Z = np.stack(lines, -2)
        B = c23.Axis(dict(k=3, s=0.0), freqs)
        f_out = np.logspace(math.log10(lo), math.log10(hi), nf)
        C = B.fit @ Z
        out = B.basis(f_out) @ C
        tol = 4 * worst * np.abs(B.fit).sum(1).max() + B.err * np.abs(C).max()
        # sensitivity to the rounded output coordinates
        tol += 1e-5 * np.abs(C).max()
    else:
        lines, worst = [], 0
        for r, t in zip(rows_, tols):
            M = linear_operator(r.shape[-1], nt, method)
            lines.append(r @ M.T)
            worst = max(worst, (t @ np.abs(M).T).max())
            worst = max(worst, 1e-6 * r.shape[-1] * np.abs(r).max())
        Z = np.stack(lines, -2)
        M = linear_operator(len(rows_), nf, method)
        out = M @ Z
        tol = 2 * worst * np.abs(M).sum(1).max()
        tol += 1e-6 * len(rows_) * np.abs(Z).max()
    return (out, tol) if tol < 0.05 * top else None


_cache = {}


def operator(n, length):
    if (n, length) not in _cache:
        if len(_cache) > 40:
            _cache.clear()
        x = np.arange(n) * (length / n)
        _cache[n, length] = c23.Axis(dict(k=3, s=0.0), x)
    return _cache[n, length]


def drop(x, ndim):
    """Undo the leading axes added to an input of ndim dimensions."""
    return x.reshape(x.shape[3 - ndim :])


@facet(q_cases(), quick=600, thorough=12000, shards=3)
def transform(c, ctx):
    q = c["q"]
    given = frange_of(c)
    kept = None if given is None else list(given)
    lo, hi = default_range(c, q, given)
    check_range(lo, hi)
    freqs = frequencies(c, q, (lo, hi))
    sizes = [ntiles(c, q, f) for f in freqs]
    if c["method"] == "spline":
        assume(len(freqs) >= 5 and min(sizes) >= 5 and max(sizes) <= 512)
    mod = SingleQTransform(
        c["length"], c["rate"], tuple(c["shape"]), q, given, c["mismatch"],
        c["method"],
    )
    check(given == kept, f"frange {kept} changed to {given} for the caller")
    close(mod.freqs, freqs, "row frequencies", rtol=1e-9)
    x = series(c)
    X = T(x)
    got = mod(X, c["norm"])
    same(X, x, "series after the call")
    S = up3(spectrum(x))
    pairs = [row(c, q, f, S, c["norm"]) for f in freqs]
    for f, tile, (want, tol) in zip(freqs, mod.qtiles, pairs):
        check(
            tile.shape == want.shape,
            f"{tuple(tile.shape)} tiles at {f} Hz, expected {want.shape}",
        )
        ok = np.isfinite(tol)
        close(
            tile.numpy()[ok], want[ok], f"energies of the row at {f} Hz",
            rtol=2.0, scale=tol[ok],
        )
    ndim = x.ndim
    shape = tuple(x.shape[:-1]) + tuple(c["shape"])
    check(
        tuple(got.shape) == shape,
        f"spectrogram of shape {tuple(got.shape)}, expected {shape}",
    )
    ref = interpolate(
        c, [p[0] for p in pairs], [p[1] for p in pairs], freqs, lo, hi,
        c["method"],
    )
    ctx.label(c["method"], f"{ndim}D")
    ctx.trivial(ref is None)
    if ref is not None:
        close(
            got, drop(ref[0], ndim), "spectrogram", rtol=1.0, scale=ref[1]
        )
    # the same object again, on other data and back
    other = mod(T(series(c, c["seed"] + 1)), c["norm"])
    check(tuple(other.shape) == shape, "shape of a second transform")
    again = mod(X, c["norm"])
    same(again, got, "the same series transformed again")


@st.composite
def energy_cases(draw):
    c = draw(q_cases(methods=("bicubic",)))
    c["shape"] = [8, 8]
    c["band"] = draw(
        st.one_of(
            st.none(),
            st.tuples(st.floats(0, 1), st.floats(0, 1)),
        )
    )
    c["dimension"] = draw(
        st.sampled_from(["both", "neither", "channel", "batch"])
    )
    return c


def band_of(c, freqs):
    """A search range with edges between rows or beyond all of them."""
    if c["band"] is None:
        return None, np.ones(len(freqs), bool)
    edges = np.sort(np.r_[
        freqs[0] * 0.5, (freqs[1:] + freqs[:-1]) / 2, freqs[-1] * 1.5, freqs
    ])
    i, j = sorted(int(v * (len(edges) - 1e-9)) for v in c["band"])
    if i == j:
        i, j = (i, j + 1) if j + 1 < len(edges) else (i - 1, j)
    while not ((freqs > edges[i]) & (freqs <= edges[j])).any():
        i, j = max(i - 1, 0), min(j + 1, len(edges) - 1)
    a, b = edges[i], edges[j]
    return [float(a), float(b)], (freqs > a) & (freqs <= b)


@facet(energy_cases(), quick=600, thorough=12000, large=120)
def energy(c, ctx):
    """Largest energies, over all rows or those of a search range."""
    q = c["q"]
    lo, hi = default_range(c, q, frange_of(c))
    check_range(lo, hi)
    mod = SingleQTransform(
        c["length"], c["rate"], tuple(c["shape"]), q, frange_of(c),
        c["mismatch"],
    )
    raises(RuntimeError, mod.get_max_energy, "energy before any transform")
    raises(RuntimeError, mod.interpolate, "interpolation before a transform")
    mod.compute_qtiles(T(series(c)), c["norm"])
    freqs = mod.freqs.numpy()
    search, use = band_of(c, freqs)
    tiles = [t.numpy() for t, u in zip(mod.qtiles, use) if u]
    top = np.max([t.max(-1) for t in tiles], 0)
    want = {
        "both": top.max(), "neither": top, "channel": top.max(-2),
        "batch": top.max(-1),
    }[c["dimension"]]
    got = mod.get_max_energy(search, c["dimension"])
    ctx.label(c["dimension"], "band" if search else "all")
    ctx.trivial(not np.isfinite(want).all() or len(freqs) < 2)
    same(got, want, f"largest energy ({c['dimension']}) in {search}")
    raises(
        ValueError, lambda: mod.get_max_energy(dimension="time"),
        "unknown dimension",
    )


@st.composite
def scan_cases(draw):
    c = draw(q_cases())
    a = draw(st.floats(3, 20))
    c["qrange"] = [a, a * draw(st.floats(1.05, 10))]
    c["shape"] = [draw(st.integers(2, 24)), draw(st.integers(2, 48))]
    c["band"] = draw(
        st.one_of(st.none(), st.none(), st.tuples(
            st.floats(0, 0.9), st.floats(0.01, 1.0)
        ))
    )
    c["calls"] = draw(st.integers(1, 2))
    return c


def qvalues(c):
    a, b = c["qrange"]
    cum = math.log(b / a) / math.sqrt(2)
    r = cum / (2 * math.sqrt(c["mismatch"] / 3))
    assume(abs(r - round(r)) > 1e-9)
    n = max(1, math.ceil(r))
    return [a * math.exp(math.sqrt(2) * cum / n * (i + 0.5)) for i in range(n)]


@facet(scan_cases(), quick=600, thorough=5000, shards=4, large=120)
def scan(c, ctx):
    """A scan returns the plane holding the largest energy."""
    qs = qvalues(c)
    max_q = math.pi * c["n"] / 50 - 11**0.5
    use = [q for q in qs if q < max_q]
    assume(use and min(abs(q - max_q) for q in qs) > 1e-6)
    given = frange_of(c)
    kept = None if given is None else list(given)
    plans = []
    for q in use:
        lo, hi = default_range(c, q, given)
        check_range(lo, hi)
        f = frequencies(c, q, (lo, hi))
        if c["method"] == "spline":
            sizes = [ntiles(c, q, v) for v in f]
            assume(len(f) >= 5 and min(sizes) >= 5 and max(sizes) <= 512)
        plans.append(f)
    search = None
    if c["band"] is not None:
        # it may hold rows of some planes only, or of none
        lo = min(f[0] for f in plans)
        hi = max(f[-1] for f in plans)
        search = [
            lo * 0.9 + c["band"][0] * (hi - lo),
            lo * 0.9 + (c["band"][0] + c["band"][1]) * (hi - lo),
        ]
        assume(
            all(np.abs(f - e).min() > 1e-6 for f in plans for e in search)
        )
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        mod = QScan(
            c["length"], c["rate"], tuple(c["shape"]), list(c["qrange"]),
            given, c["method"], c["mismatch"],
        )
    check(given == kept, f"frange {kept} changed to {given} for the caller")
    check(
        bool([x for x in w if "truncated" in str(x.message)])
        == (len(use) < len(qs)),
        f"{len(qs) - len(use)} planes beyond the largest Q: warnings "
        f"{[str(x.message) for x in w]}",
    )
    close(np.array(mod.qs), np.array(qs), "Q values", rtol=1e-9)
    ctx.trivial(len(use) < 2)
    if search and not any(
        ((f > search[0]) & (f <= search[1])).any() for f in plans
    ):
        ctx.label("no rows in the search range")
        raises(
            ValueError,
            lambda: mod(T(series(c, c["seed"])), search, c["norm"]),
            f"a search of {search}, which holds no rows",
        )
        return
    for call in range(c["calls"]):
        x = series(c, c["seed"] + call)
        got = mod(T(x), search, c["norm"])
        S = up3(spectrum(x))
        best, exact = [], True
        for q, f in zip(use, plans):
            top, slack = 0, 0
            for v in f:
                if search and not (search[0] < v <= search[1]):
                    continue
                E, t = row(c, q, v, S, c["norm"])
                top = max(top, E.max())
                slack = max(slack, t.max())
            if search and not ((f > search[0]) & (f <= search[1])).any():
                ctx.label("a plane without rows in the search range")
                best.append(-1.0)
                continue
            best.append(top)
            exact &= bool(np.isfinite(slack) and slack < 1e-3 * top)
        order = np.argsort(best)[::-1]
        tie = len(best) > 1 and best[order[1]] > best[order[0]] * 0.99
        if tie or not exact:
            ctx.trivial()
            continue
        q = use[order[0]]
        ctx.label(f"plane {order[0]} of {len(use)}")
        one = SingleQTransform(
            c["length"], c["rate"], tuple(c["shape"]), q,
            None if kept is None else list(kept), c["mismatch"], c["method"],
        )(T(x), c["norm"])
        close(
            got, one, f"scan against its plane of largest energy (Q={q})",
            rtol=1e-4, scale="max",
        )


@facet(q_cases(methods=("bilinear", "bicubic")), quick=200, thorough=4000)
def independent(c, ctx):
    """Rows of a batch do not affect each other; one list serves two objects."""
    assume(c["dims"])
    given = frange_of(c)
    q2 = max(3.0, c["q"] * 0.7)
    for q in (c["q"], q2):
        lo, hi = default_range(c, q, given)
        check_range(lo, hi)

    def make(q, fr):
        return SingleQTransform(
            c["length"], c["rate"], tuple(c["shape"]), q, fr, c["mismatch"],
            c["method"],
        )

    first = make(c["q"], given)
    second = make(q2, given)
    fresh = make(q2, frange_of(c))
    same(second.freqs, fresh.freqs, "rows of a second object, same frange")
    x = series(c)
    got = first(T(x), c["norm"])
    flat = x.reshape(-1, c["n"])
    parts = got.reshape((-1,) + tuple(c["shape"]))
    i = c["seed"] % len(flat)
    alone = make(c["q"], frange_of(c))(T(flat[i]), c["norm"])
    fin = np.isfinite(alone.numpy()).all() and parts.isfinite().all()
    ctx.trivial(len(flat) < 2 or not fin)
    if fin:
        E = [t.max().item() for t in first.qtiles]
        close(
            parts[i], alone, "one series alone", rtol=1e-4,
            scale=max(np.abs(alone.numpy()).max(), 1e-3 * max(E)),
        )


@st.composite
def bad_cases(draw):
    return dict(
        what=draw(st.sampled_from(["q", "method", "norm", "rank"])),
        n=draw(st.integers(256, 600)), rate=draw(st.sampled_from([64, 256])),
        over=draw(st.sampled_from([1.0, 1.001, 2.0, 10.0])),
        word=draw(st.sampled_from(["nearest", "Bicubic", "max", "std", "x"])),
    )


@facet(bad_cases(), quick=80, thorough=300)
def rejected(c, ctx):
    d = c["n"] / c["rate"]
    max_q = math.pi * d * c["rate"] / 50 - 11**0.5
    ctx.label(c["what"])
    if c["what"] == "q":
        raises(
            ValueError,
            lambda: SingleQTransform(
                d, c["rate"], (8, 8), max_q * c["over"] + 1e-9
            ),
            "Q too large",
        )
        SingleQTransform(d, c["rate"], (8, 8), max_q * 0.99)
    elif c["what"] == "method":
        raises(
            ValueError,
            lambda: SingleQTransform(
                d, c["rate"], (8, 8), 5, interpolation_method=c["word"]
            ),
            "unknown interpolation",
        )
    else:
        mod = SingleQTransform(d, c["rate"], (8, 8), 5)
        if c["what"] == "norm":
            raises(
                ValueError, lambda: mod(torch.randn(c["n"]), c["word"]),
                "unknown normalisation",
            )
        else:
            raises(
                ValueError, lambda: mod(torch.randn(1, 1, 2, c["n"])),
                "four dimensions",
            )
            tile = QTile(5, 20, d, c["rate"], 1)
            raises(
                ValueError, lambda: tile(torch.randn(1, 1, 2, 3 * c["n"])),
                "four dimensions for one row",
            )


batches.independent(__name__, "QTile", "SingleQTransform", "QScan")
arguments.ways(__name__, "qtile", "single_q", "single_q_methods", "qscan")
histories.pure(__name__, "QTile", "SingleQTransform", "QScan", quick=40)
