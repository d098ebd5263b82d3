"""The check that results depend only on the inputs and the fitted state,
whatever the history, the memory layout and the recording of gradients: used
for all of the package's computations (C33) and by the properties of single
ones."""
import copy
import io
import pickle
import sys

import torch
from hypothesis import strategies as st

from pbt.batches import AXES, PERMUTED
from pbt.core import Facet, check, close, same
from pbt.subjects import SUBJECTS, built, flat


def copies(out):
    return [t.detach().clone() for t in flat(out)]


def agree(got, want, what, inputs, loose=1.0):
    got, want = flat(got), flat(want)
    single = any(t.dtype in (torch.float32, torch.complex64) for t in inputs)
    check(
        len(got) == len(want), f"{what}: {len(got)} results, not {len(want)}"
    )
    for i, (g, w) in enumerate(zip(got, want)):
        w = w.detach()
        check(g.dtype == w.dtype, f"{what}: {g.dtype}, was {w.dtype}")
        double = not single and w.dtype not in (
            torch.float32, torch.complex64
        )
        finite = torch.isfinite(w) if w.numel() else w
        big = float(w[finite].abs().max()) if (
            w.numel() and bool(finite.any())
        ) else 0.0
        close(
            g, w, f"{what} (result {i})", equal_nan=True,
            rtol=loose * (1e-12 if double else 1e-6), scale=big,
        )


def unchanged(tensors, before, what):
    for i, (t, b) in enumerate(zip(tensors, before)):
        same(t, b, f"{what} {i} after the call")
        check(t.dtype == b.dtype, f"{what} {i} changed its type")


def state_of(m):
    if isinstance(m, torch.nn.Module):
        return {k: v.clone() for k, v in m.state_dict().items()}
    return {}


def same_state(m, before, what):
    if isinstance(m, torch.nn.Module):
        after = m.state_dict()
        check(
            list(after) == list(before),
            f"{what}: state entries changed to {sorted(after)}",
        )
        for k, v in after.items():
            same(v, before[k], f"{what}: state entry {k}")


def spoil(out):
    """Overwrite a result in place, where its memory allows it."""
    for t in flat(out):
        t = t.detach()
        if t.numel() == 0 or any(
            s == 0 and n > 1 for s, n in zip(t.stride(), t.shape)
        ):
            continue
        try:
            t.mul_(0).add_(77)
        except RuntimeError:  # overlapping windows
            continue


OPS = [
    "again", "other", "other instance", "spoil", "no_grad", "inference",
    "requires_grad", "copied", "pickled", "reloaded", "eval", "refilled",
    "resized",
]


@st.composite
def cases(draw, names):
    return dict(
        subject=draw(st.sampled_from(sorted(names))),
        config=draw(st.integers(0, 10**6)),
        seed=draw(st.integers(0, 10**6)),
        ops=draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=5)),
    )


def results_do_not_depend_on_history(c, ctx):
    s = built(c)
    ctx.label(c["subject"])
    ctor = [t.clone() for t in s.ctor]
    m = s.make()
    unchanged(s.ctor, ctor, "constructor argument")
    state = state_of(m)
    x = s.feed(c["seed"])
    first = s.call(m, x)
    unchanged(x, s.feed(c["seed"]), "input")
    unchanged(s.ctor, ctor, "constructor argument")
    same_state(m, state, "one call")
    want = copies(first)
    ctx.trivial(
        not any(bool(torch.isfinite(t).any()) for t in want if t.numel())
    )
    is_module = isinstance(m, torch.nn.Module)
    for op in c["ops"]:
        if op == "again":
            out = s.call(m, x)
            agree(out, want, "a repeated call", x)
        elif op == "other":
            s.call(m, s.feed(c["seed"] + 50))
        elif op == "refilled":
            # the same tensors, holding other values
            y = s.feed(c["seed"])
            s.call(m, y)
            new = s.feed(c["seed"] + 50)
            for t, v in zip(y, new):
                t.copy_(v)
            agree(
                s.call(m, y), copies(s.call(s.make(), new)),
                "on refilled inputs", x,
            )
        elif op == "resized":
            # more elements than before
            axes = AXES.get(c["subject"])
            axes = axes and axes(s, x)
            if not axes:
                continue
            ins, _ = axes[c["seed"] % len(axes)]
            y = [
                torch.cat([t, t.narrow(ins[i], 0, 1)], ins[i])
                if i in ins else t
                for i, t in enumerate(s.feed(c["seed"] + 50))
            ]
            agree(
                s.call(m, y), copies(s.call(s.make(), y)),
                "on another number of elements", x,
            )
        elif op == "other instance":
            o = built(c, c["config"] + 1)
            o.call(o.make(), o.feed(c["seed"] + 90))
        elif op == "spoil":
            y = s.feed(c["seed"])
            spoil(s.call(m, y))
        elif op == "no_grad":
            with torch.no_grad():
                agree(s.call(m, x), want, "without gradients", x)
        elif op == "inference":
            with torch.inference_mode():
                agree(s.call(m, x), want, "in inference mode", x)
        elif op == "requires_grad":
            y = [
                t.requires_grad_() if i in s.grads else t
                for i, t in enumerate(s.feed(c["seed"]))
            ]
            agree(s.call(m, y), want, "on inputs that require gradients", x)
        elif op == "copied" and is_module:
            m2 = copy.deepcopy(m)
            agree(s.call(m2, x), want, "a deep copy", x)
            m2 = copy.deepcopy(s.make())
            agree(s.call(m2, x), want, "a deep copy of a fresh one", x)
        elif op == "pickled" and is_module:
            for o, what in (
                (m, "a pickled module"), (s.make(), "a fresh pickled module")
            ):
                m2 = pickle.loads(pickle.dumps(o))
                agree(s.call(m2, x), want, what, x)
        elif op == "reloaded" and is_module:
            f = io.BytesIO()
            torch.save(m.state_dict(), f)
            f.seek(0)
            # `make` gives fitted modules, whose state is then overwritten
            m2 = s.make()
            m2.load_state_dict(torch.load(f))
            agree(s.call(m2, x), want, "a module given the saved state", x)
        elif op == "eval" and is_module:
            m.eval()
        unchanged(x, s.feed(c["seed"]), "input")
        unchanged(flat(first), want, "the first result")
        unchanged(s.ctor, ctor, "constructor argument")
        same_state(m, state, f"after {op}")
    agree(s.call(m, x), want, f"after {c['ops']}", x)
    agree(s.call(s.make(), s.feed(c["seed"])), want, "a fresh instance", x)


LAYOUTS = ["transposed", "strided", "offset", "slot", "shared"]


def relayout(t, how):
    """The same values in another memory layout."""
    if t.ndim == 0:
        return t
    if how == "transposed" and t.ndim > 1:
        out = t.transpose(0, -1).contiguous().transpose(0, -1)
    elif how == "strided":
        wide = torch.full(
            t.shape[:-1] + (2 * t.shape[-1],), 9, dtype=t.dtype
        )
        wide[..., ::2] = t
        out = wide[..., ::2]
    elif how == "slot" and t.ndim > 1:
        # one slot of a larger block
        wide = torch.stack([torch.full_like(t, 9), t], 1)
        out = wide[:, 1]
    else:
        wide = torch.full((t.numel() + 3,), 9, dtype=t.dtype)
        wide[3:] = t.reshape(-1)
        out = wide[3:].view(t.shape)
    assert torch.equal(out, t)
    return out


def shared(s, c, x):
    """Inputs whose elements along one axis are the same memory."""
    axes = AXES.get(c["subject"]) or PERMUTED.get(c["subject"])
    options = [
        ins for ins, _ in (axes(s, x) if axes else [])
        # but not the grid of frequencies
        if c["subject"] not in ("taylorf2", "phenom_d", "phenom_p")
        or 0 not in ins
    ]
    ins = options[c["seed"] % len(options)] if options else {}
    return {
        i: x[i].narrow(axis, 0, 1).expand_as(x[i]) for i, axis in ins.items()
    }


@st.composite
def layout_cases(draw, names):
    c = draw(cases(names))
    del c["ops"]
    c["layouts"] = draw(
        st.lists(st.sampled_from(LAYOUTS), min_size=1, max_size=3)
    )
    return c


def memory_layout_does_not_matter(c, ctx):
    s = built(c)
    ctx.label(c["subject"], *c["layouts"])

    y = s.feed(c["seed"])
    same_memory = shared(s, c, y) if "shared" in c["layouts"] else {}
    others = [k for k in c["layouts"] if k != "shared"] or ["offset"]
    y = [
        same_memory[i] if i in same_memory
        else relayout(t, others[i % len(others)]) for i, t in enumerate(y)
    ]
    x = [t.contiguous().clone() for t in y]
    ctx.trivial(not x)
    want = copies(s.call(s.make(), x))
    got = s.call(s.make(), y)
    unchanged(y, x, "input")
    agree(got, want, f"on {c['layouts']} inputs", x, loose=20)


def pure(module, *names, quick=100, layouts=80, times=20, shards=(1, 1)):
    """Give a property's module the check for its own computations."""
    names = names or sorted(SUBJECTS)
    for k in names:
        assert k in SUBJECTS, k
    n = 1 if len(names) == len(SUBJECTS) else len(names)
    for body, strategy, count, k in (
        (results_do_not_depend_on_history, cases, quick * n, shards[0]),
        (memory_layout_does_not_matter, layout_cases, layouts * n, shards[1]),
    ):

        def run(c, ctx, body=body):
            return body(c, ctx)

        sys.modules[module].__dict__.setdefault("FACETS", []).append(
            Facet(
                body.__name__, strategy(names), run, count, count * times, k,
                [],
            )
        )
