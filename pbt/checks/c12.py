"""C12: HDF5 batches hold true windows of the files, as configured."""
import os
import shutil
import tempfile
import warnings
from pathlib import Path

import h5py
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import arguments
from pbt.core import check, fail, facet, raises, upto

from ml4gw.dataloading import Hdf5TimeSeriesDataset
from ml4gw.dataloading.hdf5_dataset import ContiguousHdf5Warning

RULE = (
    "A case is a set of files (lengths, storage layout, channels) written to "
    "a scratch folder with distinct values, a request, and a random state. "
    "Non-trivial: more than one window exists."
)
ASSUMPTIONS = [
    "whether the very last position of a file can be drawn is left open (as "
    "for the other samplers of the package)",
    "with a limit on files per batch, files are weighted by length within "
    "the drawn subset only, so proportions are checked without a limit",
    "workers are simulated by the worker information PyTorch hands to them",
]

NAMES = ["H1", "L1", "V1", "strain"]


@st.composite
def cases(draw):
    k = draw(upto(1, 10, 150))
    nf = draw(upto(1, 4, 10))
    nch = draw(upto(1, 3, 6))
    return dict(
        k=k, sizes=[draw(upto(k, k + 25, k + 3000)) for _ in range(nf)],
        channels=draw(st.permutations(range(len(NAMES))))[:nch],
        layout=[
            draw(st.sampled_from(["contiguous", "chunked"]))
            for _ in range(nf)
        ],
        dtype=draw(st.sampled_from(["float32", "float64", "int32"])),
        batch=draw(upto(1, 8, 150)),
        per=draw(st.integers(0, 5)),
        coincident=draw(st.sampled_from([True, False, "files"])),
        limit=draw(st.one_of(st.none(), st.integers(1, nf))),
        paths=draw(st.sampled_from(["str", "Path"])),
        seed=draw(st.integers(0, 2**31)),
    )


class Scratch:
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        c = self.c
        self.dir = tempfile.mkdtemp(prefix="c12_")
        self.fnames, self.start, pos = [], [], 0
        self.spans = []
        # listing order differs from the alphabetical one
        for i, (size, layout) in enumerate(zip(c["sizes"], c["layout"])):
            fname = os.path.join(self.dir, f"{(i * 7 + 3) % 10}_{i}.h5")
            span = []
            with h5py.File(fname, "w") as f:
                for name in NAMES:
                    x = np.arange(pos, pos + size).astype(c["dtype"])
                    kw = {}
                    if layout == "chunked":
                        kw["chunks"] = (max(1, min(size, 4)),)
                    f.create_dataset(name, data=x, **kw)
                    span.append((pos, pos + size))
                    pos += size
            self.spans.append(span)
            self.fnames.append(
                Path(fname) if c.get("paths") == "Path" else fname
            )
        return self

    def __exit__(self, *_):
        shutil.rmtree(self.dir)

    def locate(self, x):
        """(file, time) of each kernel; x is (batch, channels, k)."""
        c = self.c
        k = x.shape[-1]
        if not np.array_equal(x, x[..., :1] + np.arange(k)):
            fail("a kernel is not contiguous")
        files = np.full(x.shape[:2], -1)
        times = np.full(x.shape[:2], -1)
        for j, chan in enumerate(c["channels"]):
            for i, span in enumerate(self.spans):
                lo, hi = span[chan]
                hit = (x[:, j, 0] >= lo) & (x[:, j, -1] < hi)
                files[hit, j] = i
                times[hit, j] = x[hit, j, 0] - lo
        if files.min() < 0:
            b, j = np.argwhere(files < 0)[0]
            fail(
                f"kernel {b}, channel {j} is no window of the dataset "
                f"{NAMES[c['channels'][j]]!r}: {x[b, j, :5]}..."
            )
        return files, times


def make(c, s, **over):
    kw = dict(
        kernel_size=c["k"], batch_size=c["batch"],
        batches_per_epoch=c["per"], coincident=c["coincident"],
    )
    if c["limit"] is not None:
        kw["num_files_per_batch"] = c["limit"]
    kw.update(over)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore", ContiguousHdf5Warning)
        return Hdf5TimeSeriesDataset(
            s.fnames, [NAMES[i] for i in c["channels"]], **kw
        )


def seed(c):
    np.random.seed(c["seed"] % 2**32)
    torch.manual_seed(c["seed"])


@facet(cases(), quick=3000, thorough=60000, shards=6, large=120)
def kernels_are_windows_of_the_files(c, ctx):
    with Scratch(c) as s:
        ds = make(c, s)
        seed(c)
        batches = list(ds)
    ctx.label(
        f"coincident {c['coincident']}",
        "limit" if c["limit"] else "no limit",
        "exact fit" if c["k"] in c["sizes"] else "slack",
    )
    ctx.trivial(not batches or (len(c["sizes"]) == 1 and c["sizes"][0] == c["k"]))
    check(len(ds) == c["per"], f"length {len(ds)}")
    check(len(batches) == c["per"], f"{len(batches)} batches")
    for x in batches:
        check(
            isinstance(x, torch.Tensor)
            and tuple(x.shape) == (c["batch"], len(c["channels"]), c["k"]),
            f"batch of shape {tuple(x.shape)}",
        )
        files, times = s.locate(x.numpy())
        if c["coincident"] is not False:
            check(
                (files == files[:, :1]).all(),
                "channels of one sample come from different files",
            )
        if c["coincident"] is True:
            check(
                (times == times[:, :1]).all(),
                "channels of one sample start at different times",
            )
        limit = c["limit"] or len(c["sizes"])
        used = len(set(files.ravel()))
        check(used <= limit, f"{used} files in one batch, limit {limit}")


@st.composite
def cover_cases(draw):
    k = draw(st.integers(1, 5))
    nf = draw(st.integers(1, 3))
    return dict(
        k=k, sizes=[draw(st.integers(k, k + 9)) for _ in range(nf)],
        channels=draw(st.permutations(range(len(NAMES))))[
            : draw(st.integers(1, 2))
        ],
        layout=["chunked"] * nf, dtype="float64", batch=1200, per=1,
        coincident=draw(st.sampled_from([True, False, "files"])),
        limit=draw(st.sampled_from([None, None, nf])),
        seed=draw(st.integers(0, 2**31)),
    )


@facet(cover_cases(), quick=60, thorough=1500, shards=6)
def positions_and_files_are_all_drawn(c, ctx):
    """1200 draws. A file holding the fraction p of all samples is drawn
    within 7 deviations of p; inside a file positions are uniform."""
    with Scratch(c) as s:
        ds = make(c, s)
        seed(c)
        x = ds.sample_batch().numpy()
    ctx.label(f"coincident {c['coincident']}", f"{len(c['sizes'])} files")
    ctx.trivial(len(c["sizes"]) == 1 and c["sizes"][0] == c["k"])
    files, times = s.locate(x)
    total, n = sum(c["sizes"]), len(x)
    for j in range(files.shape[1]):
        for i, size in enumerate(c["sizes"]):
            p = size / total
            hits = int((files[:, j] == i).sum())
            check(
                abs(hits - n * p) <= 7 * (n * p * (1 - p)) ** 0.5,
                f"file of {size}/{total} samples drawn {hits}/{n} times",
            )
            counts = np.bincount(
                times[files[:, j] == i, j], minlength=size - c["k"] + 1
            )
            last = max(size - c["k"] - 1, 0)
            main = counts[: last + 1]
            mean = hits / main.size
            if mean > 40:
                check(
                    main.min() > 0,
                    f"positions of file {i} never drawn: {counts}",
                )
            check(
                main.max() < mean + 8 * mean**0.5 + 8,
                f"positions of file {i} are not uniform: {counts}",
            )
    if files.shape[1] > 1:
        if c["coincident"] is False and len(c["sizes"]) > 1:
            check(
                (files[:, 0] != files[:, 1]).any(),
                "channels always share a file although independent",
            )
        if c["coincident"] is not True and min(c["sizes"]) > c["k"] + 1:
            check(
                (times[:, 0] != times[:, 1]).any(),
                "channels always share a time although independent",
            )


@st.composite
def limit_cases(draw):
    c = draw(cases())
    nf = draw(st.integers(2, 4))
    c["sizes"] = [c["k"] + 10] * nf
    c["layout"] = ["chunked"] * nf
    c["limit"] = draw(st.integers(1, nf))
    c["batch"] = 200
    return c


@facet(limit_cases(), quick=60, thorough=1000, shards=2)
def limit_is_reached(c, ctx):
    """200 draws over at most 4 equal files: exactly `limit` of them appear
    in a batch, and over 120 draws of names every file does."""
    with Scratch(c) as s:
        ds = make(c, s)
        seed(c)
        used = [set(s.locate(ds.sample_batch().numpy())[0].ravel())]
        names = [set(ds.sample_fnames((200,))) for _ in range(120)]
    ctx.label(f"limit {c['limit']} of {len(c['sizes'])}")
    for u in used + names:
        check(len(u) == c["limit"], f"{len(u)} files, limit {c['limit']}")
    seen = set().union(*names)
    check(len(seen) == len(c["sizes"]), f"files never drawn: {len(seen)}")


class Info:
    def __init__(self, id, num_workers):
        self.id, self.num_workers = id, num_workers
        self.seed, self.dataset = 0, None


@st.composite
def worker_cases(draw):
    return dict(
        k=2, sizes=[6], channels=[0], layout=["chunked"], dtype="float32",
        batch=1, per=draw(st.integers(0, 40)), coincident=True, limit=None,
        workers=draw(st.integers(1, 12)), seed=0,
    )


@facet(worker_cases(), quick=150, thorough=2000, shards=2)
def epochs_add_up_across_workers(c, ctx):
    ctx.label("divides" if c["per"] % c["workers"] == 0 else "remainder")
    ctx.trivial(c["per"] == 0)
    real = torch.utils.data.get_worker_info
    with Scratch(c) as s:
        ds = make(c, s)
        counts = []
        try:
            for w in range(c["workers"]):
                torch.utils.data.get_worker_info = lambda: Info(
                    w, c["workers"]
                )
                counts.append(sum(1 for _ in ds))
        finally:
            torch.utils.data.get_worker_info = real
    check(
        sum(counts) == c["per"] and max(counts) - min(counts) <= 1,
        f"{c['per']} batches split as {counts}",
    )


@st.composite
def real_worker_cases(draw):
    c = draw(cases())
    c["per"] = draw(st.integers(0, 7))
    c["workers"] = draw(st.integers(1, 3))
    return c


@facet(real_worker_cases(), quick=6, thorough=60, shards=2)
def real_workers(c, ctx):
    with Scratch(c) as s:
        ds = make(c, s)
        loader = torch.utils.data.DataLoader(
            ds, batch_size=None, num_workers=c["workers"]
        )
        batches = list(loader)
    check(len(batches) == c["per"], f"{len(batches)} of {c['per']} batches")
    for x in batches:
        s.locate(x.numpy())


@st.composite
def bad_cases(draw):
    c = draw(cases())
    c["bad"] = draw(st.sampled_from(["coincident", "limit", "short", "none"]))
    c["word"] = draw(st.sampled_from(["file", "true", "", "channels"]))
    c["d"] = draw(st.integers(1, 3))
    return c


@facet(bad_cases(), quick=400, thorough=4000, shards=2)
def inconsistent_requests_rejected(c, ctx):
    ctx.label(c["bad"])
    with Scratch(c) as s:
        if c["bad"] == "coincident":
            raises(
                ValueError, lambda: make(c, s, coincident=c["word"]),
                f"coincident={c['word']!r}",
            )
        elif c["bad"] == "limit":
            n = len(c["sizes"]) + c["d"]
            raises(
                ValueError, lambda: make(c, s, num_files_per_batch=n),
                f"{n} files per batch of {len(c['sizes'])}",
            )
        elif c["bad"] == "short":
            k = max(c["sizes"]) + c["d"]
            raises(
                ValueError,
                lambda: make(c, s, kernel_size=k).sample_batch(),
                f"kernel of {k} from files of {c['sizes']}",
            )
        else:  # storage warnings, one per contiguous file
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                Hdf5TimeSeriesDataset(
                    s.fnames, [NAMES[i] for i in c["channels"]], c["k"],
                    c["batch"], c["per"], c["coincident"], c["limit"],
                )
            got = sum(
                issubclass(x.category, ContiguousHdf5Warning) for x in w
            )
            want = c["layout"].count("contiguous")
            check(got == want, f"{got} storage warnings, expected {want}")


arguments.ways(__name__, "Hdf5")
