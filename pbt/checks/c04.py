"""C04: fitted transforms keep and restore exactly what was fitted."""
import io

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.core import check, close, data, facet, fail, raises, same, upto
from pbt.refs_spectral import (
    apply_gain,
    make_window,
    nearest,
    truncate_inverse,
    welch_psd,
)

from ml4gw.transforms import ChannelWiseScaler, FixedWhiten

RULE = (
    "A case is a configuration and a history of operations (fit, fit with "
    "wrong arguments, apply, save and load into another new or used "
    "instance) on up to three instances of one transform, compared step by "
    "step with a NumPy model. Non-trivial: at least one successful fit "
    "followed by an application."
)
ASSUMPTIONS = [
    "only states of fitted instances are saved",
    "PSD resampling onto the kernel's grid is nearest-neighbour, as torch "
    "does it",
]


def hann(n):
    return 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / n)


fit_op = st.fixed_dictionaries(
    dict(
        op=st.just("fit"),
        i=st.integers(0, 1),
        seed=st.integers(0, 2**32 - 1),
        domain=st.sampled_from(["time", "frequency"]),
        pn=st.integers(0, 60),  # 0: already on the kernel's grid
        nperseg=st.integers(6, 40),
        overlap=st.sampled_from([None, 0.0, 0.25, 0.5, 0.75]),
        extra=st.integers(0, 100),
        pad=st.integers(1, 30),
        # part of the two samples a longer filter would take
        part=st.sampled_from([0.0, 0.0, 0.6, 1.0, 1.7]),
        strain=st.booleans(),
        hp=st.one_of(st.none(), st.floats(0.02, 0.6)),
        lp=st.one_of(st.none(), st.floats(0.1, 0.9)),
        dtype=st.sampled_from(["float32", "float64"]),
    )
)
other_ops = st.one_of(
    st.fixed_dictionaries(
        dict(
            op=st.just("apply"),
            i=st.integers(0, 1),
            seed=st.integers(0, 2**32 - 1),
            b=upto(1, 3, 40),
            crop=st.sampled_from([None, True, False]),
        )
    ),
    st.fixed_dictionaries(
        dict(
            op=st.just("load"),
            i=st.integers(0, 1),
            j=st.integers(0, 1),
            disk=st.booleans(),
        )
    ),
    st.fixed_dictionaries(
        dict(
            op=st.sampled_from(
                ["wrong length", "wrong channels", "new", "partial state",
                 "state of another size"]
            ),
            i=st.integers(0, 1),
            d=st.integers(1, 3),
        )
    ),
)


@st.composite
def fixed_cases(draw):
    ops = draw(
        st.lists(
            st.one_of(fit_op, other_ops), min_size=2, max_size=10
        )
    )
    return dict(
        channels=draw(upto(1, 3, 9)),
        n=draw(upto(24, 128, 800)),
        # n / fs * fs is exact for the first three
        fs=draw(st.sampled_from([64.0, 256.0, 2048.0, 1000.0, 100.0])),
        dtype=draw(st.sampled_from(["float64", "float64", "float32"])),
        ops=ops,
    )


def avoid_ties(frac, n):
    """A cut-off at a fraction of the band, away from the grid of n bins."""
    k = frac * (n - 1)
    return np.floor(k) + min(max(k - np.floor(k), 0.1), 0.9)


def failed_load(src, dst, key, what):
    """A state without one of its entries cannot be loaded."""
    state = {k: v for k, v in src.state_dict().items() if k != key}
    raises(
        RuntimeError, lambda: dst.load_state_dict(state),
        f"{what}: loading a state without its {key}",
    )


def save_load(src, dst, disk):
    state = src.state_dict()
    if disk:
        buf = io.BytesIO()
        torch.save(state, buf)
        buf.seek(0)
        state = torch.load(buf)
    dst.load_state_dict(state)


@facet(fixed_cases(), quick=3200, thorough=60000, shards=8, large=120)
def fixed_whiten_history(c, ctx):
    n, fs, ch = c["n"], c["fs"], c["channels"]
    if int(n / fs * fs) != n:  # the constructor takes seconds
        fs = 64.0
    nf = n // 2 + 1
    dtype = getattr(torch, c["dtype"])

    def new():
        return FixedWhiten(ch, n / fs, fs, dtype=dtype)

    real = [new(), new(), new()]
    model = [None, None, None]
    applied = False
    for k, op in enumerate(c["ops"]):
        i = op["i"]
        what = f"step {k} ({op['op']})"
        if op["op"] == "new":
            real[i], model[i] = new(), None
        elif op["op"] == "fit":
            pad = min(op["pad"], (n - 1) // 2)
            fduration = (2 * pad + op["part"]) / fs
            taper = int(fduration * fs / 2)
            # as small as strain data is, where that can be stored
            scale = 1e-21 if (
                op["strain"] and c["dtype"] == op["dtype"] == "float64"
            ) else 1.0
            hp = op["hp"] and avoid_ties(op["hp"], nf) * fs / (2 * (nf - 1))
            lp = op["lp"] and avoid_ties(op["lp"], nf) * fs / (2 * (nf - 1))
            kwargs = {}
            if op["domain"] == "frequency":
                pn = op["pn"] or nf
                bg = [
                    data(op["seed"] + a, (max(pn, 2),), "positive",
                         np.dtype(op["dtype"]), scale**2)
                    for a in range(ch)
                ]
                psd = [b.astype(np.float64) for b in bg]
            else:
                nperseg = op["nperseg"]
                ov = op["overlap"]
                size = nperseg + op["extra"]
                bg = [
                    data(op["seed"] + a, (size,), "normal",
                         np.dtype(op["dtype"]), scale)
                    for a in range(ch)
                ]
                if int(nperseg / fs * fs) != nperseg:
                    nperseg = 16 if size >= 16 else 8
                    if int(nperseg / fs * fs) != nperseg or size < nperseg:
                        continue
                kwargs["fftlength"] = nperseg / fs
                if ov is not None:
                    nov = int(ov * nperseg)
                    if int(nov / fs * fs) != nov:
                        nov = 0
                    kwargs["overlap"] = nov / fs
                else:
                    nov = int(nperseg / fs / 2 * fs)
                ctx.label(f"fit: overlap {'None' if ov is None else 'zero' if nov == 0 else 'given'}")
                w = make_window("hann", nperseg)
                psd = [
                    welch_psd(b, nperseg, nperseg - nov, w, fs, "median")
                    for b in bg
                ]
            ctx.label(f"fit: {op['domain']} domain")
            if min(p.min() for p in psd) < 1e-9 * scale**2:
                continue  # degenerate spectra (a constant segment)
            P = nearest(np.stack(psd), nf)
            if P is None:
                continue
            real[i].fit(
                fduration, *[torch.from_numpy(b) for b in bg],
                highpass=hp, lowpass=lp, **kwargs,
            )
            gain = truncate_inverse(P, hann(2 * taper), fs, hp, lp)
            model[i] = (gain, taper, scale)
        elif op["op"] == "load":
            if model[i] is None:
                continue
            save_load(real[i], real[op["j"]], op["disk"])
            model[op["j"]] = model[i]
            ctx.label("load into " + ("itself" if op["j"] == i else "another"))
        elif op["op"] == "wrong channels":
            bg = [torch.rand(nf) + 0.5 for _ in range(ch + op["d"])]
            if op["d"] % 2:
                bg = bg[: ch - 1]
            raises(
                ValueError, lambda: real[i].fit(2 / fs, *bg),
                f"{what}: {len(bg)} backgrounds for {ch} channels",
            )
        elif op["op"] == "partial state":
            # an instance that was fitted is left with part of the state
            if model[i] is not None:
                real[i], model[i] = new(), None
            failed_load(
                new(), real[i], ("psd", "fduration")[op["d"] % 2], what
            )
        elif op["op"] == "state of another size":
            if model[i] is not None:
                continue
            other = FixedWhiten(ch + op["d"], n / fs, fs, dtype=dtype)
            raises(
                RuntimeError,
                lambda: real[i].load_state_dict(other.state_dict()), what,
            )
        elif op["op"] == "wrong length":
            m = n + op["d"] if op["d"] % 2 else n - op["d"]
            raises(
                ValueError, lambda: real[i](torch.randn(1, ch, m)),
                f"{what}: kernel of {m} samples for {n}",
            )
        elif op["op"] == "apply":
            x = data(op["seed"], (op["b"], ch, n), "offset", np.float64)
            X = torch.from_numpy(x.copy())
            kw = {} if op["crop"] is None else {"crop": op["crop"]}
            if model[i] is None:
                raises(
                    ValueError, lambda: real[i](X, **kw),
                    f"{what}: applied before it was fitted",
                )
                ctx.label("apply before fit")
                continue
            gain, pad, scale = model[i]
            x = x * scale
            X = torch.from_numpy(x.copy())
            got = real[i](X, **kw)
            want = apply_gain(x, gain, fs)
            tol = 1e-4 if c["dtype"] == "float32" else 1e-5
            top = np.abs(x).max() * gain.max() / np.sqrt(fs)
            if op["crop"] is not False:
                want = want[..., pad : n - pad]
            close(got, want, what, rtol=0, atol=tol * top)
            same(X, x, f"{what}: data after the call")
            applied = True
            ctx.label("apply after fit")
    ctx.trivial(not applied)


sfit = st.fixed_dictionaries(
    dict(
        op=st.just("fit"),
        i=st.integers(0, 1),
        n=upto(2, 60, 900),
        kind=st.sampled_from(["normal", "offset", "ramp"]),
        scale=st.sampled_from([1.0, 1e-3, 100.0, 1e-10, 1e4]),
        reg=st.sampled_from([None, 0.0, 0.5]),
        seed=st.integers(0, 2**32 - 1),
    )
)
sother = st.one_of(
    st.fixed_dictionaries(
        dict(
            op=st.sampled_from(["apply", "reverse", "round trip"]),
            i=st.integers(0, 1),
            lead=st.lists(st.integers(1, 3), max_size=2),
            n=upto(1, 20, 900),
            seed=st.integers(0, 2**32 - 1),
        )
    ),
    st.fixed_dictionaries(
        dict(
            op=st.just("load"), i=st.integers(0, 1), j=st.integers(0, 1),
            disk=st.booleans(),
        )
    ),
    st.fixed_dictionaries(
        dict(
            op=st.sampled_from(
                ["wrong rank", "wrong channels", "new", "partial state",
                 "state of another size"]
            ),
            i=st.integers(0, 1), d=st.integers(1, 3),
        )
    ),
)


@st.composite
def scaler_cases(draw):
    return dict(
        channels=draw(st.one_of(st.none(), upto(1, 4, 20))),
        ops=draw(
            st.lists(st.one_of(sfit, sother), min_size=2, max_size=10)
        ),
    )


@facet(scaler_cases(), quick=3200, thorough=60000, shards=4, large=120)
def scaler_history(c, ctx):
    ch = c["channels"]
    real = [ChannelWiseScaler(ch) for _ in range(3)]
    model = [None] * 3
    applied = False
    ctx.label(f"channels {'none' if ch is None else 'given'}")
    for k, op in enumerate(c["ops"]):
        i, what = op["i"], f"step {k} ({op['op']})"
        if op["op"] == "new":
            real[i], model[i] = ChannelWiseScaler(ch), None
        elif op["op"] == "fit":
            shape = (op["n"],) if ch is None else (ch, op["n"])
            x = data(op["seed"], shape, op["kind"], np.float32, op["scale"])
            mean = x.astype(float).mean(-1, keepdims=True)
            std = x.astype(float).std(-1, keepdims=True)
            if std.min() < 1e-3 * op["scale"]:
                continue
            kw = {} if op["reg"] is None else {"std_reg": op["reg"]}
            X = torch.from_numpy(x.copy())
            real[i].fit(X, **kw)
            same(X, x, f"{what}: data after the call")
            model[i] = (mean, std + (op["reg"] or 0.0))
            if not op["reg"]:
                z = real[i](X).double().numpy()
                tol = 1e-4 * (1 + np.abs(mean / std).max())
                close(
                    z.mean(-1), np.zeros(z.shape[:-1]),
                    f"{what}: mean of the fitting data", atol=tol,
                )
                close(
                    z.std(-1), np.ones(z.shape[:-1]),
                    f"{what}: deviation of the fitting data", atol=tol,
                )
                applied = True
        elif op["op"] == "load":
            if model[i] is None:
                continue
            save_load(real[i], real[op["j"]], op["disk"])
            model[op["j"]] = model[i]
            ctx.label("load")
        elif op["op"] == "partial state":
            if model[i] is not None:
                real[i], model[i] = ChannelWiseScaler(ch), None
            failed_load(
                ChannelWiseScaler(ch), real[i],
                ("mean", "std")[op["d"] % 2], what,
            )
        elif op["op"] == "state of another size":
            if model[i] is not None:
                continue
            other = ChannelWiseScaler((ch or 1) + op["d"])
            raises(
                RuntimeError,
                lambda: real[i].load_state_dict(other.state_dict()), what,
            )
        elif op["op"] == "wrong rank":
            raises(
                ValueError, lambda: real[i].fit(torch.randn(2, 2, 5)),
                f"{what}: fitted to a 3D series",
            )
        elif op["op"] == "wrong channels":
            x = torch.randn(5) if ch else torch.randn(2, 5)
            if ch and op["d"] > 1:
                x = torch.randn(ch + op["d"] - 1, 5)
            raises(
                (AssertionError, ValueError), lambda: real[i].fit(x),
                f"{what}: fitted to {tuple(x.shape)} with {ch} channels",
            )
        else:
            shape = tuple(op["lead"]) + ((op["n"],) if ch is None else (ch, op["n"]))
            x = data(op["seed"], shape, "normal", np.float32)
            X = torch.from_numpy(x.copy())
            if model[i] is None:
                raises(
                    ValueError, lambda: real[i](X), f"{what}: before any fit"
                )
                raises(
                    ValueError, lambda: real[i](X, reverse=True),
                    f"{what}: before any fit",
                )
                ctx.label("apply before fit")
                continue
            mean, std = model[i]
            # data to scale is as large as the data of the fit
            top = np.abs(mean).max() + 3 * std.max()
            if op["op"] != "reverse":
                x = (x * top).astype(np.float32)
                X = torch.from_numpy(x.copy())
            z = x.astype(float)
            if op["op"] == "apply":
                close(
                    real[i](X), (z - mean) / std, what, rtol=1e-5,
                    atol=1e-5 * (np.abs(z).max() + top) / std.min(),
                )
            elif op["op"] == "reverse":
                close(
                    real[i](X, reverse=True), z * std + mean, what,
                    rtol=1e-5, atol=1e-5 * top * max(1, np.abs(z).max()),
                )
            else:
                back = real[i](real[i](X), reverse=True)
                close(back, z, what, atol=1e-5 * (np.abs(z).max() + top))
                unit = X / top
                back = real[i](real[i](unit, reverse=True))
                close(
                    back, unit, what,
                    atol=1e-5 * (1 + np.abs(z / top).max())
                    * top / std.min(),
                )
            same(X, x, f"{what}: data after the call")
            applied = True
            ctx.label("apply after fit")
    ctx.trivial(not applied)


batches.independent(__name__, "FixedWhiten", "ChannelWiseScaler")
arguments.ways(__name__, "FixedWhiten", "FixedWhiten_fit", "ChannelWiseScaler")
histories.pure(__name__, "FixedWhiten", "ChannelWiseScaler")
