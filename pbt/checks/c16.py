"""C16: IIR filtering is zero-phase filtering with the designed filter."""
import numpy as np
import torch
from hypothesis import strategies as st
from scipy import signal

from pbt import arguments, batches, histories
from pbt.core import check, close, data, facet, raises, same, upto

from ml4gw.transforms import IIRFilter

RULE = (
    "A case is a filter design (family, band, order, cut-offs, ripples, "
    "sample rate, argument types) and a batch of series. Non-trivial: every "
    "case."
)
ASSUMPTIONS = [
    "cut-offs between 0.1% and 95% of Nyquist, bands at least a tenth of "
    "their lower edge wide, order at most 10 (6 for bands)",
    "SciPy designs the reference filter in zeros, poles and gain",
    "both passes start from rest, without padding at the edges",
]

FAMILIES = ["butter", "cheby1", "cheby2", "ellip", "bessel"]
DESIGN = {
    "butter": lambda N, rp, rs, *a, **k: signal.butter(N, *a, **k),
    "cheby1": lambda N, rp, rs, *a, **k: signal.cheby1(N, rp, *a, **k),
    "cheby2": lambda N, rp, rs, *a, **k: signal.cheby2(N, rs, *a, **k),
    "ellip": lambda N, rp, rs, *a, **k: signal.ellip(N, rp, rs, *a, **k),
    "bessel": lambda N, rp, rs, *a, **k: signal.bessel(N, *a, **k),
}


@st.composite
def cases(draw):
    btype = draw(
        st.sampled_from([None, "low", "lowpass", "high", "band", "bandstop"])
    )
    band = btype in (None, "band", "bandstop")
    lo = draw(st.one_of(
        st.floats(0.04, 0.8), st.floats(-3, -1).map(lambda x: 10**x)
    ))
    c = dict(
        family=draw(st.sampled_from(FAMILIES)), btype=btype, lo=lo,
        hi=min(0.95, lo * 1.1 + draw(st.floats(0.0, 0.8))) if band else None,
        N=draw(st.integers(1, 6 if band else 10)),
        rp=draw(st.floats(0.1, 4)), rs=draw(st.floats(20, 80)),
        fs=draw(st.sampled_from([None, 2.0, 512, 2048, 100.0])),
        tensor=draw(st.booleans()),
        shape=draw(st.lists(upto(1, 4, 12), max_size=3))
        + [draw(upto(1, 200, 3000))],
        kind=draw(
            st.sampled_from(["normal", "offset", "impulse", "tone", "ramp"])
        ),
        scale=draw(st.sampled_from([1.0, 1.0, 1e-21, 30.0])),
        single=draw(st.integers(0, 4)) == 0,
        seed=draw(st.integers(0, 2**31)),
    )
    return c


def freqs(c):
    nyq = 1.0 if c["fs"] is None else c["fs"] / 2
    w = [c["lo"]] if c["hi"] is None else [c["lo"], c["hi"]]
    w = [x * nyq for x in w]
    return w[0] if len(w) == 1 else w


def build(c):
    wn = freqs(c)
    kw = {}
    if c["btype"] is not None:
        kw["btype"] = c["btype"]
    if c["family"] != "butter" or c["seed"] % 2:
        kw["ftype"] = c["family"]
    if c["fs"] is not None:
        kw["fs"] = c["fs"]
    if c["family"] in ("cheby1", "ellip"):
        kw["rp"] = c["rp"]
    if c["family"] in ("cheby2", "ellip"):
        kw["rs"] = c["rs"]
    if c["tensor"]:
        wn = torch.tensor(wn, dtype=torch.float64)
        for k in ("rp", "rs"):
            if k in kw:
                kw[k] = torch.tensor(kw[k], dtype=torch.float64)
    return IIRFilter(c["N"], wn, **kw)


def design(c):
    """Second-order sections of the reference."""
    kw = {} if c["fs"] is None else {"fs": c["fs"]}
    btype = {None: "bandpass", "band": "bandpass", "low": "lowpass",
             "high": "highpass"}.get(c["btype"], c["btype"])
    z, p, k = DESIGN[c["family"]](
        c["N"], c["rp"], c["rs"], freqs(c), btype=btype, output="zpk", **kw
    )
    return signal.zpk2sos(z, p, k)


def slowest(c):
    """Largest radius of a pole."""
    return max(np.abs(np.roots(s[3:])).max() for s in design(c))


def reference(c, x):
    sos = design(c)
    y = signal.sosfilt(sos, x.astype(np.float64), axis=-1)
    return signal.sosfilt(sos, y[..., ::-1], axis=-1)[..., ::-1]


@facet(cases(), quick=3000, thorough=60000, shards=4, large=120)
def filtering_equals_scipy(c, ctx):
    x = data(c["seed"], c["shape"], c["kind"], scale=c["scale"])
    mod = build(c)
    gentle = c["N"] <= 2 and (c["hi"] is None or c["N"] == 1) and c["lo"] > 0.1
    single = c["single"] and gentle
    X = torch.from_numpy(x.copy())
    if single:
        mod, X = mod.float(), X.float()
    ctx.label(c["family"], f"{c['btype']}", "single" if single else "double",
              f"rank {len(c['shape'])}")
    before = X.clone()
    got = mod(X)
    same(X, before, "input after the call")
    check(got.dtype == X.dtype, f"dtype {got.dtype}")
    want = reference(c, x)
    close(
        got, want, f"{c['family']} {c['btype']} order {c['N']}",
        rtol=1e-3 if single else 1e-6,
        scale=max(np.abs(want).max(), np.abs(x).max()),
    )


@facet(cases(), quick=800, thorough=15000, shards=2)
def rows_are_independent_and_linear(c, ctx):
    c["shape"] = [3] + c["shape"][-1:]
    x = data(c["seed"], c["shape"], c["kind"], scale=c["scale"])
    y = data(c["seed"] + 1, c["shape"], "normal", scale=c["scale"])
    mod = build(c)
    f = lambda a: mod(torch.from_numpy(np.ascontiguousarray(a))).numpy()
    fx, fy = f(x), f(y)
    scale = max(np.abs(fx).max(), np.abs(fy).max(), np.abs(x).max())
    for i in range(3):
        close(f(x[i]), fx[i], f"row {i} alone", rtol=1e-9, scale=scale)
    close(
        f(2.5 * x - 0.5 * y), 2.5 * fx - 0.5 * fy, "linearity", rtol=1e-6,
        scale=3 * scale,
    )
    # zero phase: time reversal of the middle of a long quiet series
    n = 400
    pad = np.zeros((1, n))
    m = c["shape"][-1]
    long = np.concatenate([pad, x[:1], pad], -1)
    a, b = f(long), f(long[:, ::-1])[:, ::-1]
    if slowest(c) ** n > 1e-9:
        ctx.label("rings too long")
        return
    close(
        a[:, n // 2 : -n // 2], b[:, n // 2 : -n // 2], "time reversal",
        rtol=1e-3, scale=max(scale, np.abs(a).max()),
    )


@facet(cases(), quick=800, thorough=15000, shards=2)
def response_is_the_square_of_the_design(c, ctx):
    """The gain at frequencies across the band, measured from the impulse
    response, is the squared gain of the design; at the critical frequencies
    it is what the family promises."""
    n = 4096
    if slowest(c) ** (n // 2) > 1e-9:
        ctx.trivial()
        ctx.label("rings too long")
        return
    x = np.zeros((1, n))
    x[0, n // 2] = 1.0
    h = build(c)(torch.from_numpy(x)).numpy()[0]
    tail = np.abs(h[: n // 8]).max() + np.abs(h[-n // 8 :]).max()
    check(tail < 1e-5, f"rings on: {tail:.2g} far from the impulse")
    got = np.fft.rfft(np.roll(h, -n // 2))
    w, ref = signal.sosfreqz(design(c), worN=np.linspace(0, np.pi, n // 2 + 1))
    close(got, np.abs(ref) ** 2, "frequency response", atol=1e-5, rtol=0)
    if c["family"] == "butter":
        for f in [c["lo"]] + ([] if c["hi"] is None else [c["hi"]]):
            g = np.interp(f * (n // 2), np.arange(n // 2 + 1), np.abs(got))
            check(
                abs(g - 0.5) < 0.02,
                f"gain {g} at the critical frequency {f}, expected 0.5",
            )
    lowpass = c["btype"] in ("low", "lowpass", "bandstop")
    if c["family"] in ("butter", "bessel"):
        want = 1.0 if lowpass else 0.0
        check(
            abs(abs(got[0]) - want) < 1e-4,
            f"gain {abs(got[0])} at zero frequency, expected {want}",
        )


@st.composite
def bad_cases(draw):
    kind = draw(
        st.sampled_from(["rp", "rs", "nyquist", "negative", "btype", "ftype"])
    )
    return dict(
        kind=kind, N=draw(st.integers(1, 6)),
        family=draw(
            st.sampled_from(
                {"rp": ["cheby1", "ellip"], "rs": ["cheby2", "ellip"]}.get(
                    kind, FAMILIES
                )
            )
        ),
        fs=draw(st.sampled_from([None, 512.0, 2048.0])),
        w=draw(st.floats(0.05, 0.9)), over=draw(st.floats(0.01, 2)),
        word=draw(st.sampled_from(["", "lowest", "x", "butterworthy"])),
    )


@facet(bad_cases(), quick=200, thorough=2000)
def impossible_designs_rejected(c, ctx):
    """Designs that SciPy does not know or cannot make are not replaced by
    others."""
    kind = c["kind"]
    nyq = 1.0 if c["fs"] is None else c["fs"] / 2
    w = {"nyquist": 1 + c["over"], "negative": -c["w"]}.get(kind, c["w"])
    kw = dict(btype="low", ftype=c["family"], rp=1.0, rs=40.0)
    if c["fs"] is not None:
        kw["fs"] = c["fs"]
    if kind in ("rp", "rs"):
        kw[kind] = None
    elif kind in ("btype", "ftype"):
        kw[kind] = c["word"]
    ctx.label(kind)
    raises(
        (ValueError, NotImplementedError),
        lambda: IIRFilter(c["N"], w * nyq, **kw), f"{kw} at {w} of Nyquist",
    )


batches.independent(__name__, "IIRFilter")
arguments.ways(__name__, "iirfilter")
histories.pure(__name__, "IIRFilter")
