"""Symbolic torch tensors: a torch.Tensor wrapper subclass that intercepts ATen operations.

Python-level and composite C++ code of torch (einsum, pad, indexing, ...) runs as it is and bottoms out in
ATen operations; each is run here on terms. Shapes, dtypes and errors come from running the very same
operation on meta tensors.
"""
from __future__ import annotations

import numpy as np
import torch
from torch.utils import _pytree as pytree

from . import dag, einapi, engine, symnp
from .dag import T, Unsupported
from .symnp import SymNd, lift_array, make, objarr, plain

KT = {"b": torch.bool, "i": torch.int64, "f": torch.float64}


def kind_of(dt):
    if dt == torch.bool:
        return "b"
    if dt.is_floating_point:
        return "f"
    if dt in (torch.int8, torch.int16, torch.int32, torch.int64, torch.uint8):
        return "i"
    raise Unsupported(f"torch dtype {dt}")


class SymTensor(torch.Tensor):
    _symtensor = True

    @staticmethod
    def __new__(cls, nd: SymNd, dtype=None):
        nd = lift_array(nd)
        r = torch.Tensor._make_wrapper_subclass(cls, tuple(nd.shape), dtype=dtype or KT[nd._k], device="cpu")
        r.nd = nd
        return r

    def __repr__(self):
        return f"SymTensor({self.nd!r})"

    def __array__(self, dtype=None):
        return self.nd if dtype is None else symnp.cast(self.nd, symnp.kind_of_dtype(dtype))

    def numpy(self, *a, **k):
        return self.nd

    def tolist(self):
        return plain(self.nd).tolist()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        conv = [x.nd if isinstance(x, SymTensor) else x.numpy() if isinstance(x, torch.Tensor) else x for x in inputs]
        r = symnp.array_ufunc(ufunc, method, conv, kw)
        return SymTensor(r)

    def __reduce_ex__(self, proto):
        raise Unsupported("pickling a symbolic tensor")

    def __deepcopy__(self, memo):
        return SymTensor(self.nd.copy(), self.dtype)

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def lift(x) -> SymNd:
    if isinstance(x, SymTensor):
        return x.nd
    if isinstance(x, torch.Tensor):
        return lift_array(x.detach().numpy())
    return lift_array(x)


def meta(x):
    if isinstance(x, torch.Tensor):
        if isinstance(x, SymTensor) and not x.ndim and False:
            pass
        return torch.empty_strided(x.shape, x.stride(), dtype=x.dtype, device="meta")
    return x


def base(func):
    return func._schema.name.split("::")[-1]


def _bool_to_int(a, dt):
    return symnp.cast(a, kind_of(dt))


ELEM = {
    "add": "add", "sub": "subtract", "mul": "multiply", "neg": "negative", "reciprocal": "reciprocal",
    "exp": "exp", "sin": "sin", "cos": "cos", "logical_not": "logical_not", "remainder": "remainder",
    "fmod": "fmod", "pow": "power", "minimum": "minimum", "maximum": "maximum", "lt": "less",
    "le": "less_equal", "gt": "greater", "ge": "greater_equal", "eq": "equal", "ne": "not_equal",
    "logical_and": "logical_and", "logical_or": "logical_or", "logical_xor": "logical_xor",
    "abs": "absolute", "div": "divide", "true_divide": "divide", "sign": "sign", "bitwise_and": "bitwise_and",
    "bitwise_or": "bitwise_or", "bitwise_not": "invert", "tanh": "tanh", "log": "log", "sqrt": "sqrt",
    "rsub": "rsub", "bitwise_xor": "bitwise_xor", "square": "square", "fmin": "fmin", "fmax": "fmax",
}
REDUCERS = {"sum": np.add, "amin": np.minimum, "amax": np.maximum, "prod": np.multiply, "any": np.logical_or,
            "all": np.logical_and}
CMP = {"lt", "le", "gt", "ge", "eq", "ne"}
LOGIC = {"logical_not", "logical_and", "logical_or", "logical_xor"}
MOVE1 = {"replication_pad1d", "replication_pad2d", "replication_pad3d", "flip", "roll", "repeat", "clone",
         "_to_copy", "contiguous", "lift_fresh", "index_select", "constant_pad_nd", "reflection_pad1d",
         "reflection_pad2d", "reflection_pad3d", "_unsafe_view", "tril", "triu", "unfold", "diagonal", "take",
         "lift_fresh_copy", "_reshape_alias", "as_strided", "repeat_interleave"}


def dispatch(func, args, kwargs):
    name = base(func)
    if name in ("_local_scalar_dense", "item"):
        t = args[0].nd._one()
        if t.k == "b":
            return engine.decide_bool(t)
        if t.k == "i":
            return engine.decide_int(t)
        return float(t)
    if name == "is_nonzero":
        return engine.decide_bool(dag.tob(args[0].nd._one()))
    if name == "equal":
        return symnp.np_array_equal(lift(args[0]), lift(args[1]))
    inplace = name.endswith("_") and not name.startswith("__")
    core = name[:-1] if inplace else name
    margs, mkwargs = pytree.tree_map(meta, (args, kwargs))
    data_dep = core in ("nonzero", "masked_select") or (core == "repeat_interleave" and isinstance(args[0], torch.Tensor) and len(args) > 1 and isinstance(args[1], torch.Tensor))
    if data_dep:
        raise Unsupported(f"torch {name} on symbolic data")
    mout = func(*margs, **mkwargs)
    single = isinstance(mout, torch.Tensor)
    shapes = [(tuple(m.shape), m.dtype) for m in ([mout] if single else mout) if isinstance(m, torch.Tensor)]
    outs = compute(func, core, args, kwargs, shapes)
    if not isinstance(outs, (list, tuple)) or isinstance(outs, SymNd):
        outs = [outs]
    if inplace or "out" in kwargs:
        tgt = kwargs.get("out", args[0])
        if not isinstance(tgt, SymTensor):
            raise Unsupported("in-place on a concrete tensor")
        r = symnp.cast(lift_array(outs[0]), tgt.nd._k)
        np.copyto(plain(tgt.nd), np.broadcast_to(plain(r), tgt.nd.shape))
        return tgt
    res = []
    for o, (shape, dt) in zip(outs, shapes):
        o = lift_array(o)
        if tuple(o.shape) != shape:
            raise Unsupported(f"model of torch {name} gives shape {o.shape}, torch says {shape}")
        k = kind_of(dt)
        if o._k != k:
            o = symnp.cast(o, k)
        res.append(SymTensor(o, dt))
    return res[0] if single else type(mout)(res) if isinstance(mout, (list, tuple)) else tuple(res)


def move(func, args, kwargs):
    """Run a data movement on positions instead of values."""
    off, total = 0, []
    # tensors joined with symbolic ones are data, whatever their dtype; otherwise integers are positions
    everything = func.__name__.split(".")[0] in ("cat", "concat", "concatenate", "stack", "hstack", "vstack", "dstack", "column_stack", "row_stack")

    def conv(x):
        nonlocal off
        if isinstance(x, SymTensor) or (isinstance(x, torch.Tensor) and (x.is_floating_point() or everything)):
            a = lift(x)
            idx = torch.arange(off, off + a.size, dtype=torch.float64).reshape(a.shape)
            off += a.size
            total.append(a)
            return idx
        return x

    a2, k2 = pytree.tree_map(conv, (args, kwargs))
    k2.pop("dtype", None)
    out = func(*a2, **k2)
    k = dag.promote(*(a._k for a in total))
    flat = [x for a in total for x in plain(symnp.cast(a, k)).ravel()]

    def back(o):
        ix = o.to(torch.int64).numpy()
        return make(objarr(ix.shape, [flat[i] for i in ix.ravel()]), k)

    return [back(o) for o in out] if isinstance(out, (list, tuple)) else back(out)


def _view(a, f):
    return make(f(plain(a)), a._k)


def _dims(d, ndim):
    if d is None or (isinstance(d, (list, tuple)) and not len(d)):
        return tuple(range(ndim))
    if isinstance(d, int):
        d = [d]
    return tuple(x % max(ndim, 1) for x in d)


def compute(func, core, args, kwargs, shapes):
    shape0, dt0 = shapes[0] if shapes else ((), None)
    k0 = kind_of(dt0) if dt0 is not None else None
    if core in ELEM:
        ops = [lift(a) for a in args if isinstance(a, (torch.Tensor, int, float, bool))]
        alpha = kwargs.get("alpha", 1)
        if core in ("add", "sub", "rsub") and alpha != 1:
            ops[1] = make(*symnp.elementwise("multiply", [ops[1], alpha]))
        if core == "rsub":
            ops, nm = [ops[1], ops[0]], "subtract"
        else:
            nm = ELEM[core]
        if core == "div" and kwargs.get("rounding_mode"):
            raise Unsupported("div with rounding")
        if core not in CMP and core not in LOGIC and k0 is not None:
            # torch computes in the result type
            ops = [symnp.cast(o, k0) if o._k != k0 and "bif".index(o._k) < "bif".index(k0) else o for o in ops]
        if core == "pow" and len(ops) == 2 and k0 == "f":
            nm = "float_power"
        return make(*symnp.elementwise(nm, ops))
    if core in REDUCERS:
        a = lift(args[0])
        dim = kwargs.get("dim", args[1] if len(args) > 1 else None)
        keep = kwargs.get("keepdim", args[2] if len(args) > 2 else False)
        if core in ("sum", "prod") and k0 is not None:
            a = symnp.cast(a, k0)
        if core in ("any", "all"):
            a = symnp.cast(a, "b")
        if not a.ndim:
            return a
        return symnp.reduce_ufunc(REDUCERS[core], a, axis=_dims(dim, a.ndim), keepdims=bool(keep))
    if core in ("min", "max"):
        a = lift(args[0])
        uf = np.minimum if core == "min" else np.maximum
        if len(args) == 1:
            return symnp.reduce_ufunc(uf, a, axis=None)
        if isinstance(args[1], torch.Tensor):
            return make(*symnp.elementwise("minimum" if core == "min" else "maximum", [a, lift(args[1])]))
        raise Unsupported("torch min/max with indices")
    if core == "_to_copy":
        return symnp.cast(lift(args[0]), k0).copy()
    if core == "clone" or core in ("contiguous", "lift_fresh_copy"):
        return lift(args[0]).copy()
    if core in ("detach", "alias", "lift_fresh"):
        return _view(lift(args[0]), lambda p: p[...])
    if core in ("view", "reshape", "_unsafe_view", "_reshape_alias"):
        return _view(lift(args[0]), lambda p: p.reshape(shape0))
    if core == "permute":
        return _view(lift(args[0]), lambda p: p.transpose([d % max(p.ndim, 1) for d in args[1]]))
    if core == "transpose":
        return _view(lift(args[0]), lambda p: p.swapaxes(args[1], args[2]) if p.ndim else p)
    if core == "t":
        return _view(lift(args[0]), lambda p: p.T)
    if core in ("squeeze", "unsqueeze"):
        return _view(lift(args[0]), lambda p: p.reshape(shape0))
    if core == "expand":
        return _view(lift(args[0]), lambda p: np.broadcast_to(p, shape0))
    if core == "slice":
        a = lift(args[0])
        dim, st, en, step = (list(args[1:]) + [0, None, None, 1][len(args) - 1:])[:4]
        return _view(a, lambda p: p[(slice(None),) * (dim % p.ndim) + (slice(st, None if en is not None and en > 2**62 else en, step),)])
    if core == "select":
        a = lift(args[0])
        return _view(a, lambda p: np.asarray(p[(slice(None),) * (args[1] % p.ndim) + (args[2],)], dtype=object).reshape(shape0) if p.ndim == 1 else p[(slice(None),) * (args[1] % p.ndim) + (args[2],)])
    if core in ("split", "split_with_sizes", "unbind", "chunk", "cat", "stack", "concat"):
        return move(func, args, kwargs)
    if core in MOVE1:
        if any(isinstance(x, SymTensor) for x in pytree.tree_leaves((args[1:], kwargs))):
            if core == "index_select":
                return symnp.np_take(_inb(args[0], args[2], args[1]), lift(args[2]), axis=args[1])
            raise Unsupported(f"torch {core} with symbolic parameter")
        if core == "constant_pad_nd":
            v = args[2] if len(args) > 2 else 0
            a = lift(args[0])
            ix = func(torch.arange(1, a.size + 1, dtype=torch.float64).reshape(a.shape), args[1], 0).to(torch.int64).numpy()
            flat = plain(a).ravel()
            return make(objarr(ix.shape, [flat[i - 1] if i else dag.tok(dag.lift(v), a._k) for i in ix.ravel()]), a._k)
        if core in ("tril", "triu"):
            raise Unsupported(core)
        return move(func, args, kwargs)
    if core in ("clamp", "clip", "clamp_min", "clamp_max"):
        a = lift(args[0])
        lo = kwargs.get("min", args[1] if len(args) > 1 and core != "clamp_max" else None)
        hi = kwargs.get("max", args[2] if len(args) > 2 else args[1] if core == "clamp_max" and len(args) > 1 else None)
        if lo is not None:
            a = make(*symnp.elementwise("maximum", [a, lift(lo)]))
        if hi is not None:
            a = make(*symnp.elementwise("minimum", [a, lift(hi)]))
        return a
    if core == "where":
        c, x, y = args
        return symnp.np_where(lift(c), lift(x), lift(y))
    if core == "masked_fill":
        return symnp.np_where(lift(args[1]), symnp.cast(lift(args[2]), k0), lift(args[0]))
    if core == "gather":
        return gather(*args[:3])
    if core == "take_along_dim":
        raise Unsupported(core)
    if core == "index":
        return index(*args)
    if core == "embedding":
        raise Unsupported(core)
    if core in ("bmm", "mm", "mv", "dot", "matmul"):
        a, b = lift(args[0]), lift(args[1])
        sub = {"bmm": "bij,bjk->bik", "mm": "ij,jk->ik", "mv": "ij,j->i", "dot": "i,i->"}.get(core)
        return symnp.np_einsum(sub, a, b) if sub else symnp.np_matmul(a, b)
    if core == "ones_like":
        return symnp.p_full(shape0, 1, symnp.DT[k0])
    if core == "zeros_like":
        return symnp.p_full(shape0, 0, symnp.DT[k0])
    if core == "full_like":
        return symnp.p_full(shape0, args[1], symnp.DT[k0])
    if core == "empty_like" or core == "new_empty":
        return symnp.p_empty(shape0, symnp.DT[k0])
    if core in ("new_zeros", "new_ones", "new_full"):
        v = 0 if core == "new_zeros" else 1 if core == "new_ones" else args[2]
        return symnp.p_full(shape0, v, symnp.DT[k0])
    if core in ("copy",):
        return symnp.cast(lift(args[1]), kind_of(args[0].dtype))
    if core in ("fill", "zero"):
        v = 0 if core == "zero" else args[1]
        return symnp.p_full(args[0].shape, v if not isinstance(v, torch.Tensor) else lift(v)._one(), symnp.DT[kind_of(args[0].dtype)])
    if core in ("isnan", "isinf"):
        return symnp.p_full(shape0, False, bool)
    raise Unsupported(f"torch {func}")


def _inb(a, ix, dim):
    n = a.shape[dim] if a.ndim else 1
    for x in plain(lift(ix)).ravel():
        if not engine.decide_bool(dag.and_(dag.cmp("le", dag.const(0, "i"), x), dag.cmp("lt", x, dag.const(n, "i")))):
            raise IndexError("index out of range in self")
    return lift(a)


def gather(inp, dim, idx):
    a, ix = lift(inp), lift(idx)
    if not a.ndim:
        return make(plain(a).reshape(()), a._k)
    dim %= a.ndim
    n = a.shape[dim]
    pa, pi = plain(a), plain(ix)
    out = objarr(ix.shape)
    for pos in np.ndindex(*ix.shape):
        t = pi[pos]
        ok = dag.and_(dag.cmp("le", dag.const(0, "i"), t), dag.cmp("lt", t, dag.const(n, "i")))
        if not engine.decide_bool(ok):
            raise RuntimeError(f"index out of bounds for dimension {dim} with size {n}")
        col = pa[pos[:dim] + (slice(None),) + pos[dim + 1:]]
        out[pos] = symnp._select(col, [t])
    return make(out, a._k)


def index(inp, indices):
    a = lift(inp)
    items = []
    for n, it in enumerate(indices):
        if it is None:
            items.append(slice(None))
            continue
        ix = lift(it)
        if ix._k == "b":
            raise Unsupported("boolean mask")
        items.append(ix)
    if all(symnp._all_const(i) for i in items if isinstance(i, SymNd)):
        conv = tuple(i if isinstance(i, slice) else symnp.to_concrete(i) for i in items)
        r = plain(a)[conv]
        return make(r if isinstance(r, np.ndarray) else objarr((), [r]), a._k)
    # torch keeps 0-d index tensors as index arrays: same placement rule as numpy
    return symnp.gather_items(a, items)


def run_sym_torch(case, arrs):
    outs = []
    einapi.SYMBOLIC[0] = "torch"
    try:
        args = [SymTensor(a.copy()) for a in arrs]
        for leaf, env in einapi.build(case.prog, case.mode, args):
            r = einapi.evaluate("torch", leaf.expr, dict(env))
            outs.append(from_torch(r))
    finally:
        einapi.SYMBOLIC[0] = None
    return outs


def from_torch(r):
    if isinstance(r, tuple):
        raise TypeError("tuple result")
    return lift(r)
