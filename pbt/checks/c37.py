"""C37: randomness comes from the seeded generators, and nothing else moves."""
import contextlib
import copy
import importlib
import logging
import os
import pkgutil
import random
import shutil
import signal
import sys
import tempfile
import threading
import warnings

import h5py
import numpy as np
import torch
from hypothesis import strategies as st

import ml4gw
from ml4gw import augmentations, distributions as dist, transforms as T
from ml4gw.dataloading import (
    ChunkedTimeSeriesDataset,
    Hdf5TimeSeriesDataset,
    InMemoryDataset,
)
from ml4gw.nn.autoencoder import ConvolutionalAutoencoder
from ml4gw.nn.resnet import ResNet1D, ResNet2D
from ml4gw.nn.ssm.s4d import S4D, S4Model
from ml4gw.utils.slicing import sample_kernels

from pbt.core import check, facet, same
from pbt.subjects import SUBJECTS, built, flat, pick, rate

RULE = (
    "A case is a public computation with a configuration, or a random "
    "component with a configuration and random seeds. Non-trivial: the "
    "computation returned a result, or the component drew values."
)
ASSUMPTIONS = [
    "the seeded generators are the global ones of torch, numpy and Python; a "
    "component may use any of them",
    "draws are large enough that two independent ones coincide with a "
    "probability below 1e-15",
    "worker processes are seeded by PyTorch: a worker's copy of a component "
    "is a deep copy that draws under another seed",
]

# ------------------------------------------------------- the process's state


def generators():
    return dict(
        torch=torch.get_rng_state().clone(),
        numpy=np.random.get_state(),
        python=random.getstate(),
    )


def same_generators(before, what):
    now = generators()
    same(now["torch"], before["torch"], f"{what}: torch's generator")
    for a, b in zip(now["numpy"], before["numpy"]):
        check(np.array_equal(a, b), f"{what} moved numpy's generator")
    check(
        now["python"] == before["python"], f"{what} moved Python's generator"
    )


SILENT = (Warning, UserWarning, RuntimeWarning, FutureWarning)


def surroundings():
    return dict(
        default_dtype=torch.get_default_dtype(),
        default_device=torch.get_default_device(),
        gradients=torch.is_grad_enabled(),
        inference=torch.is_inference_mode_enabled(),
        threads=torch.get_num_threads(),
        deterministic=torch.are_deterministic_algorithms_enabled(),
        anomaly=torch.is_anomaly_enabled(),
        matmul=torch.get_float32_matmul_precision(),
        benchmark=torch.backends.cudnn.benchmark,
        tf32=(
            torch.backends.cuda.matmul.allow_tf32,
            torch.backends.cudnn.allow_tf32,
        ),
        mkldnn=torch.backends.mkldnn.enabled,
        autocast=torch.is_autocast_enabled("cpu"),
        flush=float(torch.tensor([1e-40]) * 1.0) != 0,
        validation=torch.distributions.Distribution._validate_args,
        numpy_errors=np.geterr(),
        numpy_print=repr(np.get_printoptions()),
        torch_print=repr(vars(torch._tensor_str.PRINT_OPTS)),
        # (a library imported late may add filters for warnings of its own)
        silenced=[
            f for f in warnings.filters
            if f[0] == "ignore" and f[1] is None and f[3] is None
            and f[2] in SILENT
        ],
        show=warnings.showwarning,
        folder=os.getcwd(),
        streams=(sys.stdout, sys.stderr),
        log_level=logging.root.level,
        disabled=logging.root.manager.disable,
        recursion=sys.getrecursionlimit(),
        interrupt=signal.getsignal(signal.SIGINT),
        running={t for t in threading.enumerate() if not t.daemon},
    )


def same_surroundings(before, what):
    now = surroundings()
    for k, v in before.items():
        check(now[k] == v, f"{what} left {k} at {now[k]}, was {v}")


def seed_all(s):
    torch.manual_seed(s)
    np.random.seed(s % 2**32)
    random.seed(s)


@contextlib.contextmanager
def ambient(c):
    """Settings other than the usual, so that code which sets the usual ones
    is noticed; all warnings pass, and are swallowed."""
    old = torch.get_num_threads(), torch.get_default_dtype()
    try:
        with warnings.catch_warnings(record=True), np.errstate(
            over=c["errors"], under=c["errors"]
        ), torch.set_grad_enabled(c["grad"]):
            warnings.resetwarnings()
            warnings.simplefilter("default")
            torch.set_num_threads(c["threads"])
            torch.backends.cudnn.benchmark = c["benchmark"]
            torch.distributions.Distribution.set_default_validate_args(
                c["validate"]
            )
            yield
    finally:
        torch.set_num_threads(old[0])
        torch.set_default_dtype(old[1])
        torch.backends.cudnn.benchmark = False
        torch.distributions.Distribution.set_default_validate_args(True)


AMBIENT = dict(
    threads=st.integers(1, 2), errors=st.sampled_from(["warn", "ignore"]),
    grad=st.booleans(), benchmark=st.booleans(), validate=st.booleans(),
)

# ---------------------------------------------------------- computations

# these seed or use a generator in their construction or call
RANDOM_MAKE = {
    "resnet_1d", "resnet_2d", "s4d", "s4_model", "autoencoder", "GroupNorm",
}
RANDOM_CALL = {
    "cosine", "sine", "log_uniform", "log_normal", "power_law", "delta",
    "comoving_redshift", "comoving_distance", "rate_evolution",
    "SnrRescaler_shuffling", "sample_kernels", "in_memory",
    "WaveformSampler",
}


@st.composite
def cases(draw):
    return dict(
        subject=draw(st.sampled_from(sorted(SUBJECTS))),
        config=draw(st.integers(0, 10**6)),
        seed=draw(st.integers(0, 10**6)),
        state=draw(st.integers(0, 2**31)),
        ops=draw(
            st.lists(
                st.sampled_from(["call", "backward", "failing", "other"]),
                min_size=1, max_size=4,
            )
        ),
        **{k: draw(v) for k, v in AMBIENT.items()},
    )


def spoiled(x, how):
    """Inputs a computation is likely to reject half way."""
    x = [t.clone() for t in x]
    i = how % max(len(x), 1)
    if not x:
        return x
    t = x[i]
    how //= max(len(x), 1)
    if how % 3 == 0 and t.ndim:
        x[i] = t[..., : max(t.shape[-1] // 2, 1)]
    elif how % 3 == 1:
        x[i] = t[None]
    else:
        x[i] = t[:0] if t.ndim else t[None, None]
    return x


@facet(cases(), quick=1000, thorough=24000, shards=8)
def computations_leave_the_process_alone(c, ctx):
    ctx.label(c["subject"], *c["ops"])
    with ambient(c):
        compute(c, ctx)


def compute(c, ctx):
    name = c["subject"]
    seed_all(c["state"])
    s = built(c)
    fixed = name not in RANDOM_CALL
    before, state = surroundings(), generators()
    m = s.make()
    same_surroundings(before, f"constructing {name}")
    if fixed and name not in RANDOM_MAKE:
        same_generators(state, f"constructing {name}")
    before, state = surroundings(), generators()
    done = False
    for op in c["ops"]:
        x = s.feed(c["seed"])
        if op == "backward" and s.grads and c["grad"]:
            for i in s.grads:
                x[i].requires_grad_()
        try:
            if op == "failing":
                s.call(m, spoiled(x, c["seed"]))
            elif op == "other":
                s.call(m, s.feed(c["seed"] + 1))
            else:
                out = flat(s.call(m, x))
                done = done or bool(out)
                if op == "backward" and c["grad"]:
                    total = sum(
                        t.abs().sum() for t in out if t.requires_grad
                    )
                    if isinstance(total, torch.Tensor):
                        try:
                            total.backward()
                        except RuntimeError:  # which C34 judges
                            ctx.label("no gradient")
        except Exception:
            if op != "failing":
                raise
            ctx.label("rejected")
        same_surroundings(before, f"a {op} of {name}")
        if fixed:
            same_generators(state, f"a {op} of {name}")
    ctx.trivial(not done)
    if fixed and done:
        # and no draw of a generator enters the result
        x = s.feed(c["seed"])
        want = flat(s.call(m, x))
        seed_all(c["state"] + 1)
        for a, b in zip(flat(s.call(m, s.feed(c["seed"]))), want):
            same(a, b, f"{name} under another random state")


MODULES = sorted(
    m.name for m in pkgutil.walk_packages(ml4gw.__path__, "ml4gw.")
)


@st.composite
def import_cases(draw):
    return dict(
        first=draw(st.lists(st.sampled_from(MODULES), max_size=4)),
        state=draw(st.integers(0, 2**31)),
        double=draw(st.booleans()),
        **{k: draw(v) for k, v in AMBIENT.items()},
    )


@facet(import_cases(), quick=12, thorough=100)
def importing_leaves_the_process_alone(c, ctx):
    # with everything imported that the package itself imports
    for name in MODULES:
        importlib.import_module(name)
    mine = {
        k: v for k, v in sys.modules.items()
        if k == "ml4gw" or k.startswith("ml4gw.")
    }
    with ambient(c):
        try:
            for k in mine:
                del sys.modules[k]
            if c["double"]:
                torch.set_default_dtype(torch.float64)
            seed_all(c["state"])
            before, state = surroundings(), generators()
            for name in c["first"] + MODULES:
                importlib.import_module(name)
                same_surroundings(before, f"importing {name}")
                same_generators(state, f"importing {name}")
        finally:
            for k in [
                k for k in sys.modules
                if k == "ml4gw" or k.startswith("ml4gw.")
            ]:
                del sys.modules[k]
            sys.modules.update(mine)


# ---------------------------------------------------- random components

RANDOM = {}


class Random:
    """make() builds the component, draw(m) gives a list of tensors, each of
    which has to be drawn afresh."""

    def __init__(self, make, draw):
        self.make, self.draw = make, draw


def component(fn):
    RANDOM[fn.__name__] = fn
    return fn


def sampler(build):
    def fn(r, folder):
        n, k = pick(r, (40,), (8, 9), (100,)), int(r.integers(2))
        return Random(lambda: build(k), lambda m: [m.sample(n)])

    return fn


for _name, _build in [
    ("cosine", lambda k: dist.Cosine()),
    ("sine", lambda k: dist.Sine()),
    ("log_uniform", lambda k: dist.LogUniform(2.0, 30.0)),
    ("log_normal", lambda k: dist.LogNormal(10.0, 4.0)),
    ("power_law", lambda k: dist.PowerLaw(3.0, 50.0, -1 - k)),
    ("comoving", lambda k: dist.UniformComovingVolume(
        0.01, 1.5, grid_size=500)),
    ("rate_evolution", lambda k: dist.RateEvolution(
        rate, 0.01, 1.5, grid_size=500)),
]:
    RANDOM[_name] = sampler(_build)


def ramp(*shape):
    return torch.arange(float(np.prod(shape))).reshape(*shape)


@component
def inverter(r, folder):
    n = int(r.integers(16, 40))
    return Random(
        lambda: augmentations.SignalInverter(0.5),
        lambda m: [m(1 + ramp(n, 4, 3))],
    )


@component
def reverser(r, folder):
    n = int(r.integers(16, 40))
    return Random(
        lambda: augmentations.SignalReverser(0.5),
        lambda m: [m(1 + ramp(n, 4, 3))],
    )


@component
def waveform_sampler(r, folder):
    n = int(r.integers(60, 200))
    return Random(
        lambda: T.WaveformSampler(
            ramp(n, 2), plus=ramp(n, 3), cross=-ramp(n, 3)
        ),
        lambda m: flat(m(50)),
    )


@component
def snr_rescaler(r, folder):
    n = int(r.integers(20, 40))
    bg = [torch.tensor(r.standard_normal(256)).float() for _ in range(2)]
    x = torch.tensor(r.standard_normal((n, 2, 64))).float()

    def make():
        m = T.SnrRescaler(2, 64, 1.0)
        m.fit(*bg, fftlength=1.0)
        return m

    return Random(make, lambda m: list(m(x)))


def first_values(x, *spans):
    """The digits of each kernel's first value to the mixed base spans: one
    random choice each."""
    first, out = x[..., 0].abs(), []
    for n in spans:
        out.append(first % n)
        first = first.div(n, rounding_mode="floor")
    return out


@component
def kernels(r, folder):
    kind = pick(r, "batch", "coincident", "independent")
    n = int(r.integers(40, 80))
    if kind == "batch":
        return Random(
            lambda: None, lambda m: [sample_kernels(ramp(n, 2, 60), 9)]
        )
    return Random(
        lambda: None,
        lambda m: [
            sample_kernels(
                ramp(2, 4000), 9, N=n, coincident=kind == "coincident"
            )[:, j]
            for j in range(2)
        ],
    )


@component
def in_memory(r, folder):
    coincident = pick(r, True, False)
    n = int(r.integers(300, 500))
    return Random(
        lambda: InMemoryDataset(
            ramp(2, n), 9, batch_size=32, stride=2, coincident=coincident,
            batches_per_epoch=None if coincident else 3,
        ),
        lambda m: list(torch.cat(list(m)).unbind(1)),
    )


@component
def chunked(r, folder):
    coincident = pick(r, True, False)
    chunks = [ramp(5, 2, 200), ramp(5, 2, 200)]
    return Random(
        lambda: ChunkedTimeSeriesDataset(
            chunks, kernel_size=9, batch_size=16, batches_per_chunk=4,
            coincident=coincident,
        ),
        lambda m: [
            d for x in torch.cat(list(m)).unbind(1)
            # time and row
            for d in first_values(x, 200, 2, 5)[::2]
        ],
    )


@component
def hdf5(r, folder):
    names, chunks = [], pick(r, (64,), None)
    for i in range(3):
        names.append(os.path.join(folder, f"{i}.h5"))
        if not os.path.exists(names[-1]):
            with h5py.File(names[-1], "w") as f:
                for j, k in enumerate(["H1", "L1"]):
                    f.create_dataset(
                        k, data=np.arange(300.0) + 300 * i + 900 * j,
                        chunks=chunks,
                    )
    coincident = pick(r, True, False, "files")
    limit = pick(r, None, 2)
    return Random(
        lambda: Hdf5TimeSeriesDataset(
            names, ["H1", "L1"], kernel_size=9, batch_size=32,
            batches_per_epoch=3, coincident=coincident,
            num_files_per_batch=limit,
        ),
        lambda m: [
            d for x in torch.cat(list(m)).unbind(1)
            # time and file
            for d in first_values(x, 300, 3)
        ],
    )


def weights(build):
    def fn(r, folder):
        k = int(r.integers(2, 5))

        def draw(m):
            return [
                p.detach().clone() for n, p in build(k).named_parameters()
                if (p.ndim > 1 or n.endswith(("log_dt", ".D")))
                and not n.endswith(("A_imag", "log_A_real"))
                and bool((p != p.flatten()[0]).any())
            ]

        return Random(lambda: None, draw)

    return fn


for _name, _build in [
    ("resnet_1d", lambda k: ResNet1D(k, [1, 1], 4)),
    ("resnet_2d", lambda k: ResNet2D(k, [1, 1], 4)),
    ("s4d", lambda k: S4D(4 * k, 16)),
    ("s4_model", lambda k: S4Model(3, k, 16, 8, 2)),
    ("autoencoder", lambda k: ConvolutionalAutoencoder(k, [8, 8], 3)),
]:
    RANDOM["weights of " + _name] = weights(_build)


@component
def dropout(r, folder):
    seed = int(r.integers(2**30))
    x = torch.tensor(r.standard_normal((8, 3, 40))).float()

    def make():
        # the same weights in every instance, and the generator untouched
        with torch.random.fork_rng(devices=[]):
            torch.manual_seed(seed)
            return S4Model(3, 2, 16, 8, 2, dropout=0.5).train()

    return Random(make, lambda m: [m(x)])


@st.composite
def draw_cases(draw):
    return dict(
        component=draw(st.sampled_from(sorted(RANDOM))),
        config=draw(st.integers(0, 10**6)),
        seeds=draw(
            st.lists(
                st.one_of(st.integers(0, 9), st.integers(0, 2**31)),
                min_size=2, max_size=3, unique=True,
            )
        ),
        draws=draw(st.integers(2, 4)),
        **{k: draw(v) for k, v in AMBIENT.items()},
    )


def equal(a, b):
    return len(a) == len(b) and all(
        x.shape == y.shape and torch.equal(x, y) for x, y in zip(a, b)
    )


def apart(a, b):
    return not any(
        x.shape == y.shape and torch.equal(x, y) for x, y in zip(a, b)
    )


def copies(ts):
    return [t.detach().clone() for t in ts]


@facet(draw_cases(), quick=300, thorough=10000, shards=4)
def draws_follow_the_seed(c, ctx):
    ctx.label(c["component"])
    folder = tempfile.mkdtemp(prefix="c37_")
    try:
        with ambient(c):
            follow(c, folder)
    finally:
        shutil.rmtree(folder)


def follow(c, folder):
    def rig():
        return RANDOM[c["component"]](
            np.random.default_rng(c["config"]), folder
        )

    name = c["component"]
    before = surroundings()
    seen = {}
    rest = {}
    for s in c["seeds"]:
        seed_all(s)
        k = rig()
        m = k.make()
        seen[s] = [copies(k.draw(m)) for _ in range(c["draws"])]
        rest[s] = torch.rand(8), np.random.rand(8)
        for i, d in enumerate(seen[s]):
            for j in range(i):
                check(
                    apart(d, seen[s][j]),
                    f"draws {j} and {i} of {name} are the same",
                )
        same_surroundings(before, f"drawing from {name}")
        # again, from a component that starts afresh
        seed_all(s)
        k = rig()
        m2 = k.make()
        again = [copies(k.draw(m2)) for _ in range(c["draws"])]
        for i, (a, b) in enumerate(zip(again, seen[s])):
            check(
                equal(a, b),
                f"draw {i} of {name} differs under the same seed {s}",
            )
        # and from the used one and its copy: what was drawn before is
        # not remembered
        seed_all(s)
        first = copies(k.draw(m))
        m3 = copy.deepcopy(m)
        seed_all(s)
        check(
            equal(copies(k.draw(m3)), first),
            f"a copy of {name} draws otherwise under the same seed",
        )
        m4 = k.make()
        seed_all(s)
        check(
            equal(copies(k.draw(m4)), first),
            f"a used {name} draws otherwise than a new one",
        )
    a, b = c["seeds"][:2]
    for i in range(c["draws"]):
        for j in range(c["draws"]):
            check(
                apart(seen[a][i], seen[b][j]),
                f"draws {i} and {j} of {name} agree under seeds {a} and {b}",
            )
    # the generators were not reset on the way
    check(
        not torch.equal(rest[a][0], rest[b][0]),
        f"{name} resets torch's generator",
    )
    check(
        not np.array_equal(rest[a][1], rest[b][1]),
        f"{name} resets numpy's generator",
    )
    # copies of one component, as data-loading workers hold, draw apart
    k = rig()
    m = k.make()
    drawn = []
    for s in (a, b):
        w = copy.deepcopy(m)
        seed_all(s)
        drawn.append(copies(k.draw(w)))
    check(
        apart(*drawn),
        f"copies of {name} draw the same under seeds {a} and {b}",
    )
