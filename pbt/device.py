"""A second device without hardware: tensors that say they live on another
device ("meta", which every build of PyTorch knows) but hold data, and a mode
that refuses what a GPU refuses.

Under `Elsewhere()`, moving a tensor or module to `DEVICE` keeps its values;
an operation on tensors of both devices raises `DeviceMix`, except for what
CUDA accepts as well: zero-dimensional tensors of the CPU as operands, copies
between devices, and indices held on the CPU.
"""
import torch
from torch.utils._mode_utils import no_dispatch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_map, tree_unflatten

from torch.utils.backend_registration import _setup_privateuseone_for_python_backend as _s
_s('elsewhere')
DEVICE = torch.device("elsewhere:0")
aten = torch.ops.aten


class DeviceMix(RuntimeError):
    pass


class Held(torch.Tensor):
    @staticmethod
    def __new__(cls, inner):
        return torch.Tensor._make_wrapper_subclass(
            cls, inner.shape, strides=inner.stride(),
            storage_offset=inner.storage_offset(), dtype=inner.dtype,
            layout=inner.layout, device=DEVICE, requires_grad=False,
        )

    def __init__(self, inner):
        self.inner = inner

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return run(func, args, kwargs or {})

    def __repr__(self):
        return f"Held({self.inner!r})"

    def tolist(self):
        return self.inner.tolist()

    def numpy(self, *a, **k):
        raise DeviceMix("a tensor of the device taken as a NumPy array")

    __array__ = numpy


# operations between devices
COPIES = {"copy_", "copy", "_to_copy", "to", "set_", "_copy_from"}
# operations that take indices from the CPU
INDEXING = {
    "index", "index_put", "index_put_", "_unsafe_index", "_index_put_impl_",
    "_unsafe_index_put",
}


def run(func, args, kwargs):
    # lazily conjugated or negated tensors are resolved above this level
    func = {
        aten._conj.default: aten.conj_physical.default,
        aten._neg_view.default: aten.neg.default,
    }.get(func, func)
    name = func._schema.name.split("::")[1]
    flat, spec = tree_flatten((args, kwargs))
    tensors = [t for t in flat if isinstance(t, torch.Tensor)]
    held = [t for t in tensors if isinstance(t, Held)]
    plain = [t for t in tensors if not isinstance(t, Held)]
    device = kwargs.get("device")
    device = None if device is None else torch.device(device)
    if held and plain and name not in COPIES:
        wrong = [t for t in plain if t.ndim]
        if name in INDEXING and isinstance(args[0], Held):
            values = args[2:3]
            wrong = [t for t in wrong if any(t is v for v in values)]
        if wrong:
            raise DeviceMix(
                f"{name} of tensors on two devices: "
                f"{[('device', *t.shape) if isinstance(t, Held) else ('cpu', *t.shape) for t in tensors]}"
            )
    if name in INDEXING and held and not isinstance(args[0], Held):
        raise DeviceMix(f"{name} of a tensor on the CPU by one elsewhere")
    if held and torch.Tag.inplace_view in func.tags:
        # the shape the outer tensor claims has to follow
        with no_dispatch():
            func(*args, **kwargs)
    inner = {id(t.inner): t for t in held}
    flat = [t.inner if isinstance(t, Held) else t for t in flat]
    a, k = tree_unflatten(flat, spec)
    if device is not None:
        k = dict(k, device=torch.device("cpu"))
    out = func(*a, **k)
    if name in ("copy_", "set_"):
        there = isinstance(args[0], Held)
    elif device is not None:
        there = device.type == DEVICE.type
    else:
        there = bool(held)

    def back(t):
        if not isinstance(t, torch.Tensor):
            return t
        if id(t) in inner:
            t = inner[id(t)]
            assert t.shape == t.inner.shape, name
            assert t.stride() == t.inner.stride(), name
            return t
        return Held(t) if there else t

    return tree_map(back, out)


class Elsewhere(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return run(func, args, kwargs or {})


def send(x):
    """Tensors in nested lists, moved to the device."""
    return tree_map(
        lambda t: Held(t.detach().clone())
        if isinstance(t, torch.Tensor) else t, x,
    )

# what the constructors of tensors call directly
_lib = torch.library.Library("aten", "IMPL", "PrivateUse1")
for _op in (
    aten.empty_strided.default, aten.empty.memory_format,
    aten._local_scalar_dense.default, aten.copy_.default,
    aten._to_copy.default, aten._copy_from.default, aten.view.default,
    aten.as_strided.default, aten.resize_.default,
):
    _lib.impl(
        _op._name.removeprefix("aten::").removesuffix(".default"),
        lambda *a, _op=_op, **k: run(_op, a, k),
    )
