"""C05: SNRs follow the matched-filter formula; reweighting hits the target."""
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.core import check, close, data, facet, raises, same, upto
from pbt.refs_spectral import interp_linear, make_window, nearest, welch_psd

from ml4gw.gw import compute_ifo_snr, compute_network_snr, reweight_snrs
from ml4gw.transforms import SnrRescaler

RULE = (
    "A case is a batch of responses, a PSD (rank 1-3, possibly at another "
    "resolution), a sample rate, band limits as numbers or masks and target "
    "SNRs. Non-trivial: more than one response, or a band limit."
)
ASSUMPTIONS = [
    "PSDs are positive; band limits given as numbers are either exactly on "
    "an exactly representable frequency bin (lower edge included, upper edge "
    "excluded) or away from bins",
]


def psd_of(seed, shape, dtype, scale):
    rng = np.random.default_rng(seed)
    f = np.linspace(0, 1, shape[-1])
    p = rng.uniform(0.5, 2, tuple(shape)) * (
        (f + 0.1) ** -rng.uniform(0, 3) + f
    )
    return (p * scale).astype(dtype)


@st.composite
def cutoff(draw, nf, exact):
    how = draw(st.sampled_from(["none", "number", "mask", "number"]))
    k = draw(st.integers(0, nf))
    on_bin = exact and draw(st.booleans())
    return dict(
        how=how, k=k, frac=0.0 if on_bin else draw(st.floats(0.1, 0.9)),
        seed=draw(st.integers(0, 1000)),
    )


@st.composite
def cases(draw):
    exact = draw(st.booleans())
    if exact:
        n = draw(st.sampled_from([4, 8, 16, 32, 64, 128, 256, 4096]))
        fs = draw(st.sampled_from([1.0, 64.0, 2048.0]))
    else:
        n = draw(upto(2, 200, 5000))
        fs = draw(st.sampled_from([1.0, 100.0, 2048.0, 4096.0, 333.0]))
    nf = n // 2 + 1
    b, ch = draw(upto(1, 4, 40)), draw(upto(1, 4, 12))
    pn = draw(st.one_of(st.just(nf), st.integers(2, 200)))
    return dict(
        n=n, fs=fs, b=b, ch=ch,
        psd_shape=draw(st.sampled_from([[pn], [ch, pn], [b, ch, pn], [1, ch, pn]])),
        hp=draw(cutoff(nf, exact)),
        lp=draw(cutoff(nf, exact)),
        dtype=draw(st.sampled_from(["float32", "float64"])),
        pdtype=draw(st.sampled_from(["float32", "float64"])),
        strain=draw(st.booleans()),
        kind=draw(st.sampled_from(["normal", "offset", "tone", "impulse"])),
        seed=draw(st.integers(0, 2**32 - 1)),
        target=draw(st.sampled_from(["number", "rows"])),
    )


def bands(c, ctx):
    n, fs = c["n"], c["fs"]
    nf = n // 2 + 1
    args, masks = [], []
    for name in ("hp", "lp"):
        q = c[name]
        bins = np.arange(nf)
        if q["how"] == "none":
            args.append(None)
            masks.append(np.ones(nf, bool))
        elif q["how"] == "mask":
            m = np.random.default_rng(q["seed"]).random(nf) < 0.6
            args.append(torch.from_numpy(m))
            masks.append(m)
        else:
            at = q["k"] + q["frac"]
            args.append(float(at * fs / n))
            masks.append(bins >= at if name == "hp" else bins < at)
            if q["frac"] == 0.0:
                ctx.label(f"{name} on a bin")
        ctx.label(f"{name} {q['how']}")
    return args, masks[0] & masks[1]


def snr_reference(x, psd, fs, mask):
    x = x.astype(np.float64)
    p = psd.astype(np.float64)
    while p.ndim < 3:
        p = p[None]
    n = x.shape[-1]
    p = interp_linear(p, n // 2 + 1)
    h = np.fft.rfft(x, axis=-1) / fs
    integrand = np.abs(h) ** 2 / p * mask
    return np.sqrt(4 * integrand.sum(-1) * fs / n)


def inputs(c):
    strain = c["strain"] and c["pdtype"] == "float64"
    x = data(
        c["seed"], (c["b"], c["ch"], c["n"]), c["kind"], np.dtype(c["dtype"]),
        1e-21 if strain else 1.0,
    )
    p = psd_of(
        c["seed"] + 1, c["psd_shape"], np.dtype(c["pdtype"]),
        1e-46 if strain else 1.0,
    )
    return x, p


@facet(cases(), quick=6000, thorough=120000, shards=6, large=120)
def snr_equals_formula(c, ctx):
    x, p = inputs(c)
    X, P = torch.from_numpy(x.copy()), torch.from_numpy(p.copy())
    (hp, lp), mask = bands(c, ctx)
    ctx.label(
        f"psd rank {p.ndim}",
        "psd resampled" if p.shape[-1] != c["n"] // 2 + 1 else "psd grid",
    )
    ctx.trivial(c["b"] * c["ch"] == 1 and mask.all())
    got = compute_ifo_snr(X, P, c["fs"], hp, lp)
    want = snr_reference(x, p, c["fs"], mask)
    # responses are transformed in their own precision
    full = snr_reference(x, p, c["fs"], np.ones_like(mask))
    top = np.sqrt(
        4 * np.square(x.astype(float)).sum(-1)
        / (p.astype(float).min() * c["fs"])
    )
    tol = 3e-6 * top.max() + 1e-6 * full.max()
    close(got, want, "compute_ifo_snr", rtol=2e-5, atol=tol)
    net = compute_network_snr(X, P, c["fs"], hp, lp)
    close(
        net, np.sqrt((want**2).sum(-1)), "compute_network_snr", rtol=2e-5,
        atol=2 * tol,
    )
    same(X, x, "responses after the call")
    same(P, p, "PSD after the call")
    # one response alone; and linear in amplitude
    i, k = c["b"] - 1, c["ch"] - 1
    pi = np.broadcast_to(p, (c["b"], c["ch"], p.shape[-1]))[i, k]
    one = compute_ifo_snr(
        3 * X[i : i + 1, k : k + 1], torch.from_numpy(pi.copy()), c["fs"],
        hp, lp,
    )
    close(
        one[0, 0] / 3, got[i, k], "SNR of one response alone, three times "
        "louder", rtol=2e-5, atol=2 * tol,
    )


def targets(c):
    t = np.random.default_rng(c["seed"] + 3).uniform(1, 50, c["b"])
    if c["target"] == "number":
        return float(t[0]), np.full(c["b"], t[0])
    return torch.from_numpy(t.astype(np.float32)), t


@facet(cases(), quick=3000, thorough=60000, shards=3, large=120)
def reweighting_hits_target(c, ctx):
    x, p = inputs(c)
    X, P = torch.from_numpy(x.copy()), torch.from_numpy(p.copy())
    (hp, lp), mask = bands(c, ctx)
    base = np.sqrt((snr_reference(x, p, c["fs"], mask) ** 2).sum(-1))
    full = np.sqrt(
        (snr_reference(x, p, c["fs"], np.ones_like(mask)) ** 2).sum(-1)
    )
    if (base <= 1e-3 * full).any() or (base == 0).any():
        ctx.trivial()
        ctx.label("no power in band")
        return
    arg, want = targets(c)
    got = reweight_snrs(X, arg, P, c["fs"], hp, lp)
    check(tuple(got.shape) == x.shape, f"reweighted shape {tuple(got.shape)}")
    got = got.double().numpy()
    snr = np.sqrt((snr_reference(got, p, c["fs"], mask) ** 2).sum(-1))
    close(snr, want, "network SNR after reweighting", rtol=2e-3)
    factor = want / base
    close(
        got, x.astype(float) * factor[:, None, None],
        "reweighted responses are rescaled inputs", rtol=2e-3,
        atol=1e-6 * np.abs(x).max() * factor.max(),
    )
    # the factor is one number per row
    flat, ref = got.reshape(c["b"], -1), x.reshape(c["b"], -1).astype(float)
    for r in range(c["b"]):
        j = np.argmax(np.abs(ref[r]))
        f = flat[r, j] / ref[r, j]
        check(f > 0, f"row {r} was rescaled by {f}")
        close(
            flat[r], f * ref[r], f"row {r} is only rescaled", rtol=1e-5,
            atol=1e-6 * np.abs(flat[r]).max(),
        )
    same(X, x, "responses after the call")


@st.composite
def rescaler_cases(draw):
    n = 16 * draw(upto(1, 8, 40))
    nf = n // 2 + 1
    return dict(
        n=n, fs=draw(st.sampled_from([16.0, 64.0, 256.0])),
        ch=draw(upto(1, 3, 12)),
        hp=draw(st.one_of(st.none(), st.integers(0, nf // 2))),
        lp=draw(st.one_of(st.none(), st.integers(nf // 2 + 1, nf))),
        frac=draw(st.sampled_from([0.0, 0.5])),
        dtype=draw(st.sampled_from([None, "float64"])),
        ops=draw(
            st.lists(
                st.one_of(
                    st.fixed_dictionaries(dict(
                        op=st.just("fit"),
                        seed=st.integers(0, 2**32 - 1),
                        domain=st.sampled_from(["time", "frequency"]),
                        pn=st.integers(0, 40),
                        nperseg=st.integers(6, 24),
                        overlap=st.sampled_from([None, 0.0, 0.5, 0.25]),
                    )),
                    st.fixed_dictionaries(dict(
                        op=st.just("apply"),
                        b=upto(1, 5, 60),
                        seed=st.integers(0, 2**32 - 1),
                        target=st.booleans(),
                    )),
                    st.fixed_dictionaries(dict(
                        op=st.sampled_from(["reload", "wrong channels", "new"])
                    )),
                ),
                min_size=1, max_size=6,
            )
        ),
    )


@facet(rescaler_cases(), quick=2500, thorough=50000, shards=4, large=120)
def rescaler_history(c, ctx):
    n, fs, ch = c["n"], c["fs"], c["ch"]
    nf = n // 2 + 1
    kwargs = {}
    mask = np.ones(nf, bool)
    if c["hp"] is not None:
        kwargs["highpass"] = (c["hp"] + c["frac"]) * fs / n
        mask &= np.arange(nf) >= c["hp"] + c["frac"]
    if c["lp"] is not None:
        kwargs["lowpass"] = (c["lp"] + c["frac"]) * fs / n
        mask &= np.arange(nf) < c["lp"] + c["frac"]
    if c["dtype"]:
        kwargs["dtype"] = getattr(torch, c["dtype"])

    def new():
        return SnrRescaler(ch, fs, n / fs, **kwargs)

    real, model = new(), None
    applied = False
    for k, op in enumerate(c["ops"]):
        what = f"step {k} ({op['op']})"
        if op["op"] == "new":
            real, model = new(), None
        elif op["op"] == "wrong channels":
            raises(
                ValueError, lambda: real.fit(*[torch.ones(nf)] * (ch + 1)),
                what,
            )
        elif op["op"] == "reload":
            if model is not None:
                state = real.state_dict()
                real = new()
                real.load_state_dict(state)
        elif op["op"] == "fit":
            kw = {}
            if op["domain"] == "frequency":
                pn = max(op["pn"], 2) if op["pn"] else nf
                bg = [
                    data(op["seed"] + a, (pn,), "positive", np.float32)
                    for a in range(ch)
                ]
                psd = np.stack([b.astype(float) for b in bg])
            else:
                m = op["nperseg"]
                bg = [
                    data(op["seed"] + a, (3 * m + a,), "normal")
                    for a in range(ch)
                ]
                kw["fftlength"] = m / fs
                nov = m // 2
                if op["overlap"] is not None:
                    nov = int(op["overlap"] * m)
                    kw["overlap"] = nov / fs
                psd = np.stack([
                    welch_psd(b, m, m - nov, make_window("hann", m), fs, "median")
                    for b in bg
                ])
            if psd.min() < 1e-7 * psd.max():
                continue
            psd = nearest(psd, nf)
            if psd is None:
                continue
            ctx.label(f"fit {op['domain']}")
            real.fit(*[torch.from_numpy(b) for b in bg], **kw)
            model = psd
        else:
            x = data(op["seed"], (op["b"], ch, n), "normal", np.float32)
            X = torch.from_numpy(x.copy())
            if model is None:
                raises(ValueError, lambda: real(X), f"{what} before any fit")
                continue
            snr = np.sqrt((snr_reference(x, model, fs, mask) ** 2).sum(-1))
            if (snr < 1e-2).any():
                continue
            applied = True
            ctx.label("targets given" if op["target"] else "targets permuted")
            if op["target"]:
                t = np.random.default_rng(op["seed"]).uniform(1, 50, op["b"])
                out, used = real(X, torch.from_numpy(t.astype(np.float32)))
                close(used, t, f"{what}: returned targets", rtol=1e-5)
            else:
                out, used = real(X)
                close(
                    np.sort(used.double().numpy()), np.sort(snr),
                    f"{what}: targets are the batch's own SNRs", rtol=1e-3,
                )
                if op["b"] >= 18 and np.unique(snr).size == op["b"]:
                    # no chance of one in 18! is taken
                    ctx.label("shuffled")
                    check(
                        np.abs(used.double().numpy() / snr - 1).max() > 1e-5,
                        f"{what}: every response kept its own SNR",
                    )
            check(tuple(out.shape) == x.shape, f"{what}: shape {out.shape}")
            used = used.double().numpy()
            got = np.sqrt(
                (snr_reference(out.numpy(), model, fs, mask) ** 2).sum(-1)
            )
            close(got, used, f"{what}: network SNR after rescaling", rtol=2e-3)
            close(
                out, x * (used / snr)[:, None, None],
                f"{what}: rescaled responses", rtol=2e-3,
                atol=1e-5 * (used / snr).max(),
            )
            same(X, x, f"{what}: responses after the call")
    ctx.trivial(not applied)


@st.composite
def bad_cases(draw):
    n = draw(st.integers(2, 64))
    return dict(n=n, d=draw(st.sampled_from([-1, 1, 2, 7])),
                which=draw(st.sampled_from(["highpass", "lowpass"])),
                fn=draw(st.sampled_from(["ifo", "network", "reweight"])))


@facet(bad_cases(), quick=300, thorough=2000)
def mismatched_masks_rejected(c, ctx):
    nf = c["n"] // 2 + 1
    X, P = torch.randn(2, 2, c["n"]), torch.ones(nf)
    mask = torch.ones(max(nf + c["d"], 0))
    kw = {c["which"]: mask}
    fn = {
        "ifo": lambda: compute_ifo_snr(X, P, 64.0, **kw),
        "network": lambda: compute_network_snr(X, P, 64.0, **kw),
        "reweight": lambda: reweight_snrs(X, 5.0, P, 64.0, **kw),
    }[c["fn"]]
    raises(ValueError, fn, f"mask of {len(mask)} for {nf} frequencies")


@facet(cases(), quick=1000, thorough=20000, shards=1)
def rescaling_permutes_when_no_targets(c, ctx):
    """Without targets, which row gets which SNR is drawn at random; the
    multiset of SNRs is conserved for every draw."""
    c["pdtype"] = "float32"
    x, _ = inputs(c)
    n = c["n"] - c["n"] % 2
    if n < 4:
        ctx.trivial()
        return
    x = x[..., :n].astype(np.float32)
    p = psd_of(c["seed"] + 1, [c["ch"], n // 2 + 1], np.float32, 1.0)
    fs = 2.0 ** round(np.log2(c["fs"]))
    module = SnrRescaler(c["ch"], fs, n / fs)
    module.fit(*torch.from_numpy(p))
    mask = np.ones(n // 2 + 1, bool)
    snr = np.sqrt((snr_reference(x, p, fs, mask) ** 2).sum(-1))
    if (snr < 1e-3).any():
        ctx.trivial()
        return
    out, used = module(torch.from_numpy(x))
    close(np.sort(used.numpy()), np.sort(snr), "drawn SNRs", rtol=1e-3)
    got = np.sqrt((snr_reference(out.numpy(), p, fs, mask) ** 2).sum(-1))
    close(np.sort(got), np.sort(snr), "SNRs after rescaling", rtol=2e-3)
    ctx.trivial(c["b"] == 1)


batches.independent(
    __name__, "compute_ifo_snr", "compute_network_snr", "reweight_snrs", "SnrRescaler",
)
arguments.ways(
    __name__, "compute_ifo_snr", "compute_network_snr", "reweight_snrs",
    "SnrRescaler", "SnrRescaler_fit",
)
histories.pure(
    __name__, "compute_ifo_snr", "compute_network_snr", "reweight_snrs",
    "SnrRescaler", "SnrRescaler_shuffling",
)
