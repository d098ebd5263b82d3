"""C34: gradients are the derivatives of the results."""
import numpy as np
import torch
from hypothesis import strategies as st

from pbt.subjects import built, flat
from pbt.core import check, facet, fail
from pbt.subjects import SUBJECTS

RULE = (
    "A case is one of the package's differentiable computations, a "
    "configuration and inputs; the gradient of a random combination of the "
    "results along a random direction is compared with differences. "
    "Non-trivial: the gradient along the direction is not zero."
)
ASSUMPTIONS = [
    "at random inputs the results are smooth over at least one of the steps "
    "of the difference quotients (1e-2 to 1e-8 of the inputs' size)",
    "gradients are compared with the difference quotients to a relative "
    "1e-4, 1% for networks with kinks, or 3% where the package computes in "
    "single precision",
    "frequency-domain approximants are differentiated at positive "
    "frequencies only",
]
SMOOTH = sorted(
    k for k in SUBJECTS
    if any(SUBJECTS[k](np.random.default_rng(i)).grads for i in range(8))
)
NETS = ["GroupNorm", "resnet_1d", "resnet_2d", "s4d", "s4_model",
        "autoencoder"]
STEPS = (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8)
# piecewise linear networks have kinks at any distance
RELU = {"resnet_1d", "resnet_2d", "autoencoder"}


def double(t):
    if t.dtype == torch.float32:
        return t.double()
    return t.to(torch.complex128) if t.dtype == torch.complex64 else t


def noise(rng, like):
    v = rng.standard_normal(tuple(like.shape))
    if like.is_complex():
        v = v + 1j * rng.standard_normal(tuple(like.shape))
    return torch.as_tensor(np.asarray(v)).to(like.dtype)


def parts(t):
    return [t.real, t.imag] if t.is_complex() else [t]


class Scalar:
    """A fixed random combination of the finite results."""

    def __init__(self, out, rng):
        self.w = []
        for t in flat(out):
            for p in parts(t.detach()):
                w = noise(rng, p.double())
                size = p.double().abs()
                size = size[torch.isfinite(size)]
                big = float(size.max()) if size.numel() else 0.0
                self.w.append(w / (big or 1.0))

    def __call__(self, out):
        total = 0.0
        ps = [p for t in flat(out) for p in parts(t)]
        check(len(ps) == len(self.w), "the number of results changed")
        for p, w in zip(ps, self.w):
            ok = torch.isfinite(p.detach())
            total = total + (p[ok].double() * w[ok]).sum()
        return total


margins = []


def compare(f, leaves, rng, single, ctx, what, kinks=False):
    """f: tensors -> results."""
    live = [t.detach().clone().requires_grad_() for t in leaves]
    out = f(live)
    for i, t in enumerate(flat(out)):
        check(
            t.numel() == 0 or t.requires_grad or not (t.is_floating_point() or t.is_complex()),
            f"{what}: result {i} is cut off from the inputs",
        )
    L = Scalar(out, rng)
    grads = torch.autograd.grad(L(out), live, allow_unused=True)
    move = [
        noise(rng, t) * (float(t.abs().mean()) or 1.0) for t in leaves
    ]
    terms = []
    for i, (g, v) in enumerate(zip(grads, move)):
        if g is None:
            fail(f"{what}: no gradient with respect to input {i}")
        check(
            torch.isfinite(torch.view_as_real(g) if g.is_complex() else g)
            .all(),
            f"{what}: the gradient with respect to input {i} is not finite",
        )
        terms.append((g.conj() * v).real.double())
    got = float(sum(t.sum() for t in terms))
    size = float(sum((t**2).sum() for t in terms)) ** 0.5
    ctx.trivial(size == 0)
    tol = 3e-2 if single else 1e-2 if kinks else 1e-4
    tol = tol * (abs(got) + size) + 1e-9
    quotients = []
    best = np.inf
    with torch.no_grad():
        for h in STEPS:
            hi = [t + h * v for t, v in zip(leaves, move)]
            lo = [t - h * v for t, v in zip(leaves, move)]
            q = float((L(f(hi)) - L(f(lo))) / (2 * h))
            quotients.append(q)
            best = min(best, abs(q - got))
            if best <= 0.02 * tol:
                break
    margins.append((best / tol, what))
    if best > tol:
        fail(
            f"{what}: derivative {got} along a direction, difference "
            f"quotients {quotients} for steps {STEPS[: len(quotients)]}"
        )


@st.composite
def cases(draw):
    return dict(
        subject=draw(st.sampled_from(SMOOTH)),
        config=draw(st.integers(0, 10**6)), seed=draw(st.integers(0, 10**6)),
    )


@facet(cases(), quick=1600, thorough=30000, shards=8)
def input_gradients_are_derivatives(c, ctx):
    s = built(c)
    m = s.make()
    x = s.feed(c["seed"])
    if s.double:
        x = [double(t) for t in x]
        if isinstance(m, torch.nn.Module):
            m = m.double()
    ctx.label(c["subject"])
    ctx.trivial(not s.grads)
    if not s.grads:
        return

    def f(leaves):
        y = list(x)
        for i, t in zip(s.grads, leaves):
            y[i] = t
        return s.call(m, y)

    leaves = [x[i] for i in s.grads]
    single = not s.double or any(
        t.dtype in (torch.float32, torch.complex64)
        for t in flat(s.call(m, x))
    )
    compare(
        f, leaves, np.random.default_rng(c["seed"]),
        single or c["subject"] in ROUNDED, ctx, c["subject"],
        c["subject"] in RELU,
    )


# results in double precision of computations in single precision
ROUNDED = {"SnrRescaler", "reweight_snrs"}


@st.composite
def net_cases(draw):
    return dict(
        subject=draw(st.sampled_from(NETS)),
        config=draw(st.integers(0, 10**6)), seed=draw(st.integers(0, 10**6)),
    )


@facet(net_cases(), quick=160, thorough=4000, shards=4)
def parameter_gradients_are_derivatives(c, ctx):
    s = built(c)
    m = s.make().double()
    x = [double(t) for t in s.feed(c["seed"])]
    ctx.label(c["subject"])
    named = dict(m.named_parameters())
    names = sorted(named)
    check(names, f"{c['subject']}: no parameters")

    def f(leaves):
        return torch.func.functional_call(m, dict(zip(names, leaves)), x[0])

    compare(
        f, [named[k].detach() for k in names],
        np.random.default_rng(c["seed"]), False, ctx,
        f"{c['subject']} parameters", c["subject"] in RELU,
    )
