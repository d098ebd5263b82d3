"""C19: decimation keeps the scheduled samples at the scheduled rates."""
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments, batches, histories
from pbt.core import check, data, facet, raises, same, upto

from ml4gw.transforms import Decimator

RULE = (
    "A case is a sample rate, a schedule of segments on a time grid that is "
    "exact in binary, and a series of distinct values. Non-trivial: at least "
    "two segments or a reduced rate."
)
ASSUMPTIONS = [
    "times are counted from the start of the schedule, as the required "
    "input length implies",
    "segment boundaries fall on samples",
]

RATES = [1, 2, 4, 6, 8, 12, 16]


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


@st.composite
def cases(draw):
    rate = draw(st.sampled_from(RATES))
    split = draw(st.booleans())
    shape = draw(
        st.sampled_from(["contiguous", "contiguous", "gaps", "overlap"])
    )
    if shape == "overlap":
        split = True
    frac = draw(st.booleans())  # boundaries at any sample, else whole seconds
    unit = 1 if frac else rate
    pos = draw(st.sampled_from([0, 0, 1, 3])) * unit
    segs = []
    for _ in range(draw(st.integers(1, 5))):
        if shape == "gaps" and segs:
            pos += draw(st.integers(0, 4)) * unit
        elif shape == "overlap" and segs:
            pos = max(segs[0][0], pos - draw(st.integers(0, 6)) * unit)
        size = draw(upto(1, 8, 60)) * unit
        segs.append([pos, pos + size, draw(st.sampled_from(divisors(rate)))])
        pos += size
    # a schedule in float needs exact times
    if frac and rate in (6, 12):
        rate, segs = 8, [[a, b, 8 // draw(st.sampled_from([1, 2, 4, 8]))] for a, b, _ in segs]
    return dict(
        rate=rate, split=split, segs=segs, frac=frac,
        dtype=draw(st.sampled_from(["float32", "float64"])) if frac
        else draw(st.sampled_from(["int32", "int64", "float32"])),
        b=draw(upto(1, 3, 40)), ch=draw(upto(1, 3, 12)),
        xdtype=draw(st.sampled_from(["float32", "float64"])),
    )


def schedule(c):
    rows = [[a / c["rate"], b / c["rate"], r] for a, b, r in c["segs"]]
    return torch.tensor(rows, dtype=torch.float64).to(
        getattr(torch, c["dtype"])
    )


def pieces(c):
    origin = min(a for a, _, _ in c["segs"])
    return [
        np.arange(a - origin, b - origin, c["rate"] // r)
        for a, b, r in c["segs"]
    ]


def length(c):
    return max(b for _, b, _ in c["segs"]) - min(a for a, _, _ in c["segs"])


@facet(cases(), quick=6000, thorough=120000, shards=3, large=120)
def keeps_the_scheduled_samples(c, ctx):
    n = length(c)
    x = data(0, (c["b"], c["ch"], n), "counter", np.dtype(c["xdtype"]))
    X = torch.from_numpy(x.copy())
    sched = schedule(c)
    mod = Decimator(
        c["rate"], sched.clone(), **({"split": True} if c["split"] else {})
    )
    segs = c["segs"]
    gap = any(b[0] > a[1] for a, b in zip(segs, segs[1:]))
    over = any(b[0] < a[1] for a, b in zip(segs, segs[1:]))
    ctx.label(
        "split" if c["split"] else "joint",
        "gap" if gap else "overlap" if over else "contiguous",
        "from zero" if segs[0][0] == 0 else "from later",
        f"{min(len(segs), 3)} segments", c["dtype"],
    )
    ctx.trivial(len(segs) == 1 and segs[0][2] == c["rate"])
    for _ in range(2):
        got = mod(X)
        same(X, x, "input after the call")
        want = pieces(c)
        if c["split"]:
            check(len(got) == len(want), f"{len(got)} pieces")
            for i, (g, w) in enumerate(zip(got, want)):
                same(g, x[..., w], f"segment {i} of {segs} at {c['rate']} Hz")
        else:
            check(isinstance(got, torch.Tensor), f"returned {type(got)}")
            same(
                got, x[..., np.concatenate(want)],
                f"series by {segs} at {c['rate']} Hz",
            )
    if not over:
        other = Decimator(c["rate"], sched.clone(), split=not c["split"])(X)
        a = got if not c["split"] else torch.cat(list(got), -1)
        b = other if c["split"] else torch.cat(list(other), -1)
        same(a, b, "joint output and concatenated pieces")


@st.composite
def bad_cases(draw):
    c = draw(cases())
    c["kind"] = draw(
        st.sampled_from(
            ["shape", "backwards", "faster", "indivisible", "overlap", "length"]
        )
    )
    c["d"] = draw(st.integers(1, 5))
    c["which"] = draw(st.integers(0, 9)) % len(c["segs"])
    return c


@facet(bad_cases(), quick=1500, thorough=20000, shards=2)
def malformed_schedules_rejected(c, ctx):
    sched = schedule(c)
    rate, kind, i, d = c["rate"], c["kind"], c["which"], c["d"]
    ctx.label(kind)
    make = lambda s: Decimator(rate, s, split=c["split"])
    if kind == "shape":
        bad = [sched[:, :2], sched[0], sched[None], torch.cat([sched, sched], 1)]
        for s in bad:
            raises(ValueError, lambda: make(s), f"schedule {tuple(s.shape)}")
    elif kind == "backwards":
        sched[i, 1] = sched[i, 0] - (0 if d > 3 else d)
        raises(ValueError, lambda: make(sched), f"schedule {sched.tolist()}")
    elif kind in ("faster", "indivisible"):
        r = rate * (d + 1)
        if kind == "indivisible":
            r = next(k for k in range(2, 99) if rate % k)
        sched[i, 2] = r
        raises(ValueError, lambda: make(sched), f"rate {r} of {rate}")
    elif kind == "overlap":
        s = torch.tensor([[0, 4, rate], [4 - min(d, 4), 9, rate]])
        if d == 5:
            s = torch.tensor([[0, 2, rate], [2, 6, rate], [5, 9, rate]])
        raises(
            ValueError, lambda: Decimator(rate, s),
            f"overlapping schedule {s.tolist()} without split",
        )
    else:
        n = length(c) + (d if d > 2 else -min(d, length(c)))
        raises(
            ValueError, lambda: make(sched)(torch.zeros(1, 1, n)),
            f"{n} samples for a schedule of {length(c)}",
        )


batches.independent(__name__, "Decimator")
arguments.ways(__name__, "decimator")
histories.pure(__name__, "Decimator")
