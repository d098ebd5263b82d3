"""Shared machinery of the checks.

A *facet* is one generated-input search: a Hypothesis strategy that yields a
plain JSON case, and a body that runs the code under test on that case and
compares it with an oracle. A property's check is a set of facets. Because a
case is JSON, the shrunk failing case is the replay file, and a replay simply
calls the body, with no Hypothesis involved.

Outcomes of a body:
  * returns                     the case held
  * raises Violation            the property is broken on this case
  * an exception that passed through a frame of the ml4gw package
                                also a violation: every generated case is one
                                the code is documented to accept
  * raises another ordinary exception while judging the output
                                also a violation: the output is not of the
                                form the oracle can read (on the unchanged
                                tree no case ends like this)
  * any other exception (memory, files, imports, interrupts, Hypothesis)
                                an error of the harness (exit 2, no VIOLATION)
"""
import hashlib
import json
import os
import pickle
import random
import sys
import traceback
import zlib
from collections import Counter

import numpy as np
import torch

import pbt.deps  # noqa: F401
import hypothesis
from hypothesis import HealthCheck, Phase, settings
from hypothesis import strategies as st

try:  # bound the time spent minimising a failure
    import hypothesis.internal.conjecture.engine as _engine

    _engine.MAX_SHRINKING_SECONDS = 60
except Exception:  # pragma: no cover
    pass

torch.set_num_threads(1)

import ml4gw  # noqa: E402

PKG = os.path.dirname(os.path.realpath(ml4gw.__file__)) + os.sep

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(ROOT, "known_findings.txt")


class Violation(Exception):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Facet:
    def __init__(self, name, strategy, body, quick, thorough, shards, examples):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.examples = examples


def facet(strategy, quick=200, thorough=None, shards=1, examples=(), large=0):
    """Register the decorated body as a facet of its module; with so many
    further cases in which one of the sizes is a large one."""

    def wrap(body):
        reg = sys.modules[body.__module__].__dict__.setdefault("FACETS", [])
        if large:
            reg.append(
                Facet(
                    f"{body.__name__}_large", larger(strategy), body, large,
                    large * 20, 1, [],
                )
            )
        reg.append(
            Facet(
                body.__name__,
                strategy,
                body,
                quick,
                thorough or quick * 20,
                shards,
                list(examples),
            )
        )
        return body

    return wrap


# --------------------------------------------------------------------------
# helpers for bodies


class Ctx:
    """Per-case record: labels, triviality and expected findings."""

    def __init__(self, prop, known):
        self.prop = prop
        self.known = known
        self.labels = []
        self.nontrivial = True

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def trivial(self, when=True):
        if when:
            self.nontrivial = False


def fail(message, key=None):
    raise Violation(message, key)


def check(cond, message, key=None):
    if not bool(cond):
        raise Violation(message() if callable(message) else message, key)


def to_np(x):
    if isinstance(x, torch.Tensor):
        x = x.detach().cpu()
        if x.dtype == torch.bfloat16:
            x = x.float()
        return x.resolve_conj().numpy()
    return np.asarray(x)


def close(
    got, want, what, rtol=1e-5, atol=0.0, scale=None, key=None, equal_nan=False
):
    """Shapes agree and |got - want| <= atol + rtol * scale.

    scale defaults to |want| elementwise; pass "max" for the largest |want|,
    or an array or number.
    """
    got = to_np(got)
    want = to_np(want)
    if got.shape != want.shape:
        raise Violation(
            f"{what}: shape {got.shape}, expected {want.shape}", key
        )
    if got.size == 0:
        return
    wide = np.complex128 if (
        np.iscomplexobj(got) or np.iscomplexobj(want)
    ) else np.float64
    got = got.astype(wide)
    want = want.astype(wide)
    if scale is None:
        scale = np.abs(want)
    elif isinstance(scale, str):
        scale = np.max(np.abs(want))
    tol = atol + rtol * np.asarray(scale, dtype=np.float64)
    with np.errstate(invalid="ignore"):
        err = np.abs(got - want)
        bad = ~(err <= tol)
    bad &= ~((got == want))
    if equal_nan:
        bad &= ~(np.isnan(got) & np.isnan(want))
    if bad.any():
        tol = np.broadcast_to(tol, got.shape)
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        with np.errstate(invalid="ignore", divide="ignore"):
            worst = np.nanmax(err / np.maximum(tol, 1e-300))
        raise Violation(
            f"{what}: {int(bad.sum())}/{bad.size} values differ; first at "
            f"{i}: got {got[i]!r}, expected {want[i]!r} "
            f"(tolerance {tol[i]:.3g}, worst {worst:.3g}x tolerance)",
            key,
        )


def same(got, want, what, key=None):
    """Exactly equal, shapes included."""
    got = to_np(got)
    want = to_np(want)
    if got.shape != want.shape:
        raise Violation(
            f"{what}: shape {got.shape}, expected {want.shape}", key
        )
    if not np.array_equal(got, want, equal_nan=got.dtype.kind in "fc"):
        bad = np.argwhere(~(got == want))
        i = tuple(int(k) for k in bad[0]) if len(bad) else ()
        raise Violation(
            f"{what}: {len(bad)}/{got.size} values differ; first at {i}: "
            f"got {got[i]!r}, expected {want[i]!r}",
            key,
        )


def raises(exc, fn, what, key=None):
    """Calling fn raises one of exc (and nothing else)."""
    try:
        out = fn()
    except exc as e:
        return e
    except Exception as e:
        raise Violation(
            f"{what}: expected {exc}, got {type(e).__name__}: {e}", key
        ) from None
    desc = tuple(out.shape) if isinstance(out, torch.Tensor) else type(out)
    raise Violation(f"{what}: accepted (returned {desc}), expected {exc}", key)


HUGE = []  # in large cases, how many sizes to draw until a huge one


@st.composite
def larger(draw, strategy):
    """Cases of the strategy in which one of its sizes is huge."""
    which = draw(st.integers(1, 6))
    HUGE.append(which)
    try:
        return draw(strategy)
    finally:
        HUGE.pop()


@st.composite
def upto(draw, lo, hi, most, rare=15):
    """A size from lo to hi, and now and then a large one."""
    if HUGE:
        HUGE[-1] -= 1
        if HUGE[-1] == 0:
            return draw(st.integers(most + 1, 6 * most))
        return draw(st.integers(lo, hi))
    if draw(st.integers(0, rare)) == rare:
        return draw(st.integers(hi + 1, most))
    return draw(st.integers(lo, hi))


def data(seed, shape, kind="normal", dtype=np.float64, scale=1.0):
    """Deterministic array contents, a function of the case only."""
    rng = np.random.default_rng(seed)
    shape = tuple(shape)
    if kind == "normal":
        x = rng.standard_normal(shape)
    elif kind == "uniform":
        x = rng.uniform(-1, 1, shape)
    elif kind == "positive":
        x = rng.uniform(0.1, 2.0, shape)
    elif kind == "offset":  # large mean, small fluctuations
        x = rng.standard_normal(shape) + 3.0 * rng.standard_normal(
            shape[:-1] + (1,)
        )
    elif kind == "impulse":
        x = np.zeros(shape)
        flat = x.reshape(-1, shape[-1])
        for row in flat:
            row[rng.integers(0, shape[-1])] = 1.0
    elif kind == "ramp":
        x = rng.standard_normal(shape) * 0.1 + np.linspace(-1, 1, shape[-1])
    elif kind == "tone":
        n = shape[-1]
        f = rng.uniform(0.01, 0.45, shape[:-1] + (1,))
        x = np.sin(2 * np.pi * f * np.arange(n)) + 0.1 * rng.standard_normal(
            shape
        )
    elif kind == "counter":  # every element distinct, exact in float32
        x = np.arange(int(np.prod(shape)), dtype=np.float64).reshape(shape)
    elif kind == "zeros":
        x = np.zeros(shape)
    else:
        raise ValueError(kind)
    return (x * scale).astype(dtype)


def tensor(*args, **kwargs):
    return torch.from_numpy(np.ascontiguousarray(data(*args, **kwargs)))


# --------------------------------------------------------------------------
# known findings


def load_findings():
    """{(property, key): text} for every listed finding.

    Lines of the file: `KNOWN-FINDING: property=<id> key=<key> <text>`, and
    `fixed: property=<id> <commit> <text>`, which suppresses nothing.
    """
    out = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("KNOWN-FINDING:"):
                    continue
                _, prop, key, text = line.split(" ", 3)
                out[prop.split("=", 1)[1], key.split("=", 1)[1]] = text
    return out


# --------------------------------------------------------------------------
# running


def canon(case):
    return json.dumps(case, sort_keys=True)


# raised by an oracle that meets an output of the wrong type or shape ...
UNREADABLE = (
    TypeError,
    ValueError,
    AttributeError,
    LookupError,
    ArithmeticError,
    AssertionError,
    RuntimeError,
    pickle.PickleError,
)
# ... but not these
HARNESS = (NotImplementedError, RecursionError, UnicodeError)


def execute(prop, fct, case, known):
    """Run one case. Returns (ctx, violation or None, finding key or None)."""
    text = canon(case)
    case = json.loads(text)
    seed = zlib.crc32(text.encode())
    torch.manual_seed(seed)
    np.random.seed(seed)
    random.seed(seed)
    ctx = Ctx(prop, known)
    try:
        fct.body(case, ctx)
    except Violation as v:
        if v.key is not None and (prop, v.key) in known:
            return ctx, None, v.key
        return ctx, v, None
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        if isinstance(e, hypothesis.errors.HypothesisException):
            raise
        frames = [
            f.filename
            for f in traceback.extract_tb(e.__traceback__)
        ]
        if any(os.path.realpath(f).startswith(PKG) for f in frames):
            tb = traceback.extract_tb(e.__traceback__)
            where = [
                f"{os.path.relpath(f.filename, os.path.dirname(PKG[:-1]))}"
                f":{f.lineno}"
                for f in tb
                if os.path.realpath(f.filename).startswith(PKG)
            ]
            return ctx, Violation(
                f"{type(e).__name__}: {e} (raised on an accepted input, via "
                f"{' > '.join(where[-3:])})"
            ), None
        if isinstance(e, UNREADABLE) and not isinstance(e, HARNESS):
            last = traceback.extract_tb(e.__traceback__)[-1]
            return ctx, Violation(
                f"the output cannot be judged: {type(e).__name__}: {e} "
                f"({os.path.basename(last.filename)}:{last.lineno})"
            ), None
        raise
    return ctx, None, None


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = Counter()
        self.findings = Counter()
        self.samples = []


def run_facet(prop, fct, tier, shard, seed):
    """One shard of a facet. Returns a plain dict."""
    known = load_findings()
    stats = Stats()
    failing = {}

    def one(case):
        stats.evaluations += 1
        ctx, violation, finding = execute(prop, fct, case, known)
        for name in ctx.labels:
            stats.labels[name] += 1
        if finding is not None:
            stats.findings[finding] += 1
        if ctx.nontrivial:
            h = hashlib.blake2b(canon(case).encode(), digest_size=8)
            stats.nontrivial.add(h.hexdigest())
            if len(stats.samples) < 3 or (
                len(stats.samples) < 6 and stats.evaluations % 37 == 0
            ):
                stats.samples.append(case)
        if violation is not None:
            failing["case"] = json.loads(canon(case))
            failing["message"] = str(violation)
            raise violation

    total = fct.quick if tier == "quick" else fct.thorough
    n = max(1, total // fct.shards)
    sid = zlib.crc32(f"{prop}/{fct.name}/{shard}/{seed}".encode())

    error = None
    try:
        if shard == 0:
            for case in fct.examples:
                one(case)
        if fct.strategy is not None:

            @hypothesis.seed(sid)
            @settings(
                max_examples=n,
                database=None,
                deadline=None,
                report_multiple_bugs=False,
                print_blob=False,
                phases=[Phase.generate, Phase.target, Phase.shrink],
                suppress_health_check=list(HealthCheck),
            )
            @hypothesis.given(fct.strategy)
            def test(case):
                one(case)

            test()
    except Violation:
        pass
    except BaseException:
        if failing and "Flaky" in traceback.format_exc():
            # seen to fail, but the shrinker could not repeat it: state
            # leaks between cases. Keep the failing case.
            failing["message"] += " (not reproduced on every run)"
        else:
            error = traceback.format_exc()
            failing = {}
    return {
        "facet": fct.name,
        "shard": shard,
        "evaluations": stats.evaluations,
        "nontrivial": sorted(stats.nontrivial),
        "labels": dict(stats.labels),
        "findings": dict(stats.findings),
        "samples": stats.samples,
        "failing": failing or None,
        "error": error,
    }
