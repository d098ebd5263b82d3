"""C09: augmentations and waveform sampling only pick, flip and invert."""
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, histories
from pbt.core import check, close, data, facet, fail, raises, same, upto

from ml4gw.augmentations import SignalInverter, SignalReverser
from ml4gw.transforms import WaveformSampler

RULE = (
    "A case is a tensor shape with distinct values, a probability, or a "
    "waveform store with polarizations and parameters and a request, and a "
    "random state. Non-trivial: more than one row."
)


@st.composite
def aug_cases(draw):
    lead = draw(st.lists(upto(1, 5, 12), max_size=4))
    return dict(
        which=draw(st.sampled_from(["inverter", "reverser"])),
        shape=lead + [draw(upto(1, 12, 300))],
        prob=draw(
            st.one_of(
                st.sampled_from([None, 0.0, 1.0, 0.5]), st.floats(0, 1)
            )
        ),
        dtype=draw(st.sampled_from(["float32", "float64"])),
        seed=draw(st.integers(0, 2**31)),
        calls=draw(st.integers(1, 3)),
    )


@facet(aug_cases(), quick=6000, thorough=100000, shards=4, large=120)
def rows_are_kept_or_transformed(c, ctx):
    cls = SignalInverter if c["which"] == "inverter" else SignalReverser
    module = cls() if c["prob"] is None else cls(c["prob"])
    # positive values, no palindromes
    x = data(0, c["shape"], "counter", np.dtype(c["dtype"])) + 1
    torch.manual_seed(c["seed"])
    ctx.label(c["which"], f"rank {x.ndim}", f"prob {c['prob'] if c['prob'] in (0, 1) else 'between'}")
    ctx.trivial(np.prod(c["shape"][:-1]) == 1)
    for call in range(c["calls"]):
        got = module(torch.from_numpy(x.copy()))
        check(tuple(got.shape) == x.shape, f"shape {tuple(got.shape)}")
        check(got.dtype == torch.from_numpy(x).dtype, f"dtype {got.dtype}")
        out = got.numpy().reshape(-1, x.shape[-1])
        src = x.reshape(-1, x.shape[-1])
        for r, (a, b) in enumerate(zip(src, out)):
            t = -a if c["which"] == "inverter" else a[::-1]
            kept, changed = np.array_equal(a, b), np.array_equal(t, b)
            if not (kept or changed):
                fail(f"row {r} is neither kept nor transformed: {a} -> {b}")
            if c["prob"] == 0:
                check(kept, f"row {r} transformed with probability 0")
            if c["prob"] == 1:
                check(changed, f"row {r} kept with probability 1")


@st.composite
def freq_cases(draw):
    return dict(
        which=draw(st.sampled_from(["inverter", "reverser"])),
        shape=draw(st.sampled_from([[4000], [40, 100], [10, 20, 20]])) + [3],
        prob=draw(
            st.one_of(
                st.floats(0, 1), st.sampled_from([0.004, 0.015, 0.985, 0.996])
            )
        ),
        seed=draw(st.integers(0, 2**31)),
    )


@facet(freq_cases(), quick=150, thorough=2000)
def frequency_matches_probability(c, ctx):
    """4000 rows; the fraction is within 7 deviations of the probability and
    rows are decided one by one."""
    cls = SignalInverter if c["which"] == "inverter" else SignalReverser
    x = data(0, c["shape"], "counter") + 1
    torch.manual_seed(c["seed"])
    out = cls(c["prob"])(torch.from_numpy(x.copy())).numpy()
    changed = (out[..., 0] != x[..., 0]).astype(float)
    p, n = c["prob"], changed.size
    if p in (0.004, 0.996):
        # 16 rows are expected; none has a probability of 1e-7
        p_few = changed.mean() if p < 0.5 else 1 - changed.mean()
        check(p_few > 0, f"every row is treated alike with probability {p}")
    tol = 7 * np.sqrt(p * (1 - p) / n) + 2 / n
    check(
        abs(changed.mean() - p) <= tol,
        f"{changed.mean():.4f} of {n} rows transformed, probability {p:.4f}",
    )
    for axis in range(changed.ndim):
        if changed.shape[axis] >= 10 and 0.2 < p < 0.8:
            # decisions along each axis vary
            check(
                changed.std(axis=axis).max() > 0,
                f"all rows along axis {axis} are decided together",
            )


@st.composite
def sampler_cases(draw):
    num = draw(upto(1, 12, 300))
    names = draw(
        st.lists(
            st.sampled_from(["plus", "cross", "breathing", "h", "x"]),
            min_size=1, max_size=4, unique=True,
        )
    )
    return dict(
        num=num, names=names,
        sizes=[draw(upto(1, 8, 100)) for _ in names],
        params=draw(st.one_of(st.none(), st.integers(1, 4))),
        N=draw(
            st.lists(
                st.one_of(st.just(-1), st.integers(1, num)), min_size=1,
                max_size=4,
            )
        ),
        array=draw(st.booleans()),
        seed=draw(st.integers(0, 2**31)),
    )


def store(c):
    """Every value encodes its polarization and row."""
    pols = {}
    for j, (name, size) in enumerate(zip(c["names"], c["sizes"])):
        rows = 1000.0 * (j + 1) + 10 * np.arange(c["num"])[:, None]
        pols[name] = (rows + 0.5 * np.arange(size)).astype(np.float32)
    params = None
    if c["params"]:
        params = np.arange(c["num"])[:, None] + 100.0 * np.arange(c["params"])
        params = params.astype(np.float32)
    return pols, params


@facet(sampler_cases(), quick=4000, thorough=60000, shards=2, large=120)
def sampled_waveforms_are_aligned_rows(c, ctx):
    pols, params = store(c)
    conv = (lambda a: a.copy()) if c["array"] else (
        lambda a: torch.from_numpy(a.copy())
    )
    sampler = WaveformSampler(
        None if params is None else torch.from_numpy(params.copy()),
        **{k: conv(v) for k, v in pols.items()},
    )
    torch.manual_seed(c["seed"])
    ctx.trivial(c["num"] == 1)
    for N in c["N"]:
        out = sampler(N)
        if params is not None:
            check(
                isinstance(out, tuple) and len(out) == 2,
                "parameters were not returned",
            )
            out, got = out
            got = got.numpy()
        check(set(out) == set(pols), f"polarizations {sorted(out)}")
        rows = c["num"] if N == -1 else N
        ctx.label("everything" if N == -1 else "drawn")
        idx = None
        for k, v in out.items():
            v = v.numpy()
            check(
                v.shape == (rows, pols[k].shape[1]),
                f"{k} has shape {v.shape} for a request of {N}",
            )
            mine = []
            for r in v:
                hit = np.where((pols[k] == r).all(-1))[0]
                check(len(hit) == 1, f"{k}: {r} is not a row of the store")
                mine.append(hit[0])
            check(
                idx is None or idx == mine,
                f"{k} came from rows {mine}, others from {idx}",
            )
            idx = mine
        if N == -1:
            check(idx == list(range(rows)), f"order of everything: {idx}")
        if params is not None:
            same(got, params[idx], "parameters of the drawn rows")


@st.composite
def cover_cases(draw):
    return dict(num=draw(st.integers(2, 9)), seed=draw(st.integers(0, 2**31)))


@facet(cover_cases(), quick=60, thorough=500)
def every_waveform_is_drawn(c, ctx):
    x = torch.arange(c["num"]).float()[:, None]
    sampler = WaveformSampler(plus=x)
    torch.manual_seed(c["seed"])
    seen = [int(v) for _ in range(400) for v in sampler(c["num"])["plus"][:, 0]]
    check(
        set(seen) == set(range(c["num"])),
        f"only rows {sorted(set(seen))} of {c['num']} are ever drawn",
    )
    first = [int(sampler(1)["plus"][0, 0]) for _ in range(300)]
    check(
        set(first) == set(range(c["num"])),
        f"requests for one give only rows {sorted(set(first))}",
    )


@st.composite
def bad_cases(draw):
    return dict(
        kind=draw(st.sampled_from(["too many", "polarizations", "parameters"])),
        num=draw(st.integers(1, 8)), d=draw(st.integers(1, 4)),
        down=draw(st.booleans()),
    )


@facet(bad_cases(), quick=200, thorough=2000)
def mismatches_rejected(c, ctx):
    n, d = c["num"], c["d"]
    m = n - d if c["down"] and n > d else n + d
    x = torch.randn(n, 4)
    ctx.label(c["kind"])
    if c["kind"] == "too many":
        s = WaveformSampler(plus=x, cross=x)
        raises(ValueError, lambda: s(n + d), f"{n + d} of {n} waveforms")
    elif c["kind"] == "polarizations":
        raises(
            ValueError, lambda: WaveformSampler(plus=x, cross=torch.randn(m, 4)),
            f"{n} and {m} waveforms",
        )
    else:
        raises(
            ValueError, lambda: WaveformSampler(torch.randn(m, 2), plus=x),
            f"{n} waveforms and {m} parameters",
        )


arguments.ways(
    __name__, "SignalInverter", "SignalReverser", "waveform_sampler",
)
histories.pure(__name__, "WaveformSampler")
