"""Symbolic NumPy arrays: object arrays of terms that obey NumPy's int64/float64/bool semantics.

The real ein code runs on these: NumPy dispatches its functions to the methods below
(__array_ufunc__, __array_function__), views share memory as real views do, and in-place writes are
visible through aliases.
"""
from __future__ import annotations

import sys
import types

import numpy as np

from . import dag, engine
from .dag import T, Unsupported

DT = {"b": np.dtype(bool), "i": np.dtype(np.int64), "f": np.dtype(np.float64)}


def kind_of_dtype(dt) -> str:
    dt = np.dtype(dt)
    if dt.kind == "b":
        return "b"
    if dt.kind in "iu":
        return "i"
    if dt.kind == "f":
        return "f"
    raise Unsupported(f"dtype {dt}")


class _Data:
    """Content-based stand-in for ndarray.data (used for hashing constants)."""

    def __init__(self, a):
        self.a = a

    def tobytes(self):
        a = self.a
        flat = [x for x in plain(a).ravel()]
        if all(dag.isc(x) for x in flat):
            return to_concrete(a).tobytes()
        return repr([x.id for x in flat]).encode()

    def __len__(self):
        if not self.a.ndim:
            raise TypeError("0-dim memory has no length")
        return self.a.shape[0]


class SymNd(np.ndarray):
    _k = None
    _scalar = False

    def __array_finalize__(self, obj):
        self._k = getattr(obj, "_k", None)
        self._scalar = False

    # ------------------------------------------------------------ attributes
    @property
    def dtype(self):
        return DT[self._k]

    @property
    def data(self):
        return _Data(self)

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    @property
    def itemsize(self):
        return self.dtype.itemsize

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        return cast(self, kind_of_dtype(dtype))

    def copy(self, order="C"):
        return make(plain(self).copy(), self._k)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a, **k):
        if not a and not k:
            return super().view()
        raise Unsupported("view with dtype")

    def item(self, *a):
        return plain(self).item(*a)

    def tobytes(self, *a):
        return self.data.tobytes()

    def fill(self, v):
        plain(self)[...] = dag.tok(dag.lift(v), self._k)

    def clip(self, min=None, max=None, out=None, **kw):
        return np_clip(self, min, max, out=out, **kw)

    def dot(self, o):
        return np_matmul(self, o)

    def argmin(self, *a, **k):
        raise Unsupported("argmin")

    argmax = argsort = sort = cumsum = cumprod = prod_ = argmin

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_ufunc(np.add, self, axis=axis, keepdims=keepdims, **kw)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_ufunc(np.minimum, self, axis=axis, keepdims=keepdims, **kw)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_ufunc(np.maximum, self, axis=axis, keepdims=keepdims, **kw)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_ufunc(np.multiply, self, axis=axis, keepdims=keepdims, **kw)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_ufunc(np.logical_or, self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_ufunc(np.logical_and, self, axis=axis, keepdims=keepdims)

    def take(self, indices, axis=None, out=None, mode="raise"):
        return np_take(self, indices, axis=axis, mode=mode)

    def repeat(self, repeats, axis=None):
        return np_repeat(self, repeats, axis)

    # ------------------------------------------------------------ conversions to python
    def _one(self) -> T:
        if self.size != 1:
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        return plain(self).reshape(())[()]

    def __bool__(self):
        if self.size != 1:
            if self.size == 0:
                return False
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return engine.decide_bool(dag.tob(self._one()))

    def __index__(self):
        if self.ndim or self._k == "f":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return engine.decide_int(dag.toi(self._one()))

    def __int__(self):
        return int(self._one())

    def __float__(self):
        return float(self._one())

    def __hash__(self):
        raise TypeError("unhashable")

    def __repr__(self):
        return f"SymNd[{self._k}]{list(self.shape)}{plain(self).tolist()}"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # ------------------------------------------------------------ indexing
    def __getitem__(self, item):
        return getitem(self, item)

    def __setitem__(self, item, value):
        setitem(self, item, value)

    def __iter__(self):
        if not self.ndim:
            raise TypeError("iteration over a 0-d array")
        return (self[i] for i in range(self.shape[0]))

    # ------------------------------------------------------------ dispatch
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return array_function(func, args, kwargs)


def plain(a) -> np.ndarray:
    return np.ndarray.view(a, np.ndarray)


def make(obj: np.ndarray, k: str, scalar=False) -> SymNd:
    """Wrap an object array (sharing its memory)."""
    assert k in ("b", "i", "f"), k
    r = np.ndarray.view(obj, SymNd)
    r._k = k
    r._scalar = scalar
    return r


def objarr(shape, flat=None) -> np.ndarray:
    a = np.empty(shape, dtype=object)
    if flat is not None:
        f = a.reshape(-1)
        for i, x in enumerate(flat):
            f[i] = x[()] if isinstance(x, np.ndarray) else x
    return a


def from_terms(terms, shape, k) -> SymNd:
    return make(objarr(shape, terms), k)


def scalar(t: T) -> SymNd:
    return make(objarr((), [t]), t.k, scalar=True)


def lift_array(x) -> SymNd:
    """SymNd for anything array-like."""
    if isinstance(x, SymNd):
        return x
    if isinstance(x, T):
        return make(objarr((), [x]), x.k)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            flat = [dag.lift(y) for y in x.ravel()]
            k = dag.promote(*(t.k for t in flat)) if flat else "f"
            return make(objarr(x.shape, [dag.tok(t, k) for t in flat]), k)
        k = kind_of_dtype(x.dtype)
        return make(objarr(x.shape, [dag.tok(dag.lift(y), k) for y in x.ravel()]), k)
    if isinstance(x, (bool, int, float, np.generic)):
        t = dag.lift(x)
        return make(objarr((), [t]), t.k)
    if isinstance(x, (list, tuple)):
        if not x:
            return make(objarr((0,)), "f")
        parts = [lift_array(y) for y in x]
        shapes = {p.shape for p in parts}
        if len(shapes) != 1:
            raise ValueError("setting an array element with a sequence: inhomogeneous shape")
        k = dag.promote(*(p._k for p in parts))
        out = objarr((len(parts),) + parts[0].shape)
        for i, p in enumerate(parts):
            out[i, ...] = plain(cast(p, k))
        return make(out, k)
    raise Unsupported(f"array from {type(x).__name__}")


def cast(a: SymNd, k: str) -> SymNd:
    a = lift_array(a)
    return make(objarr(a.shape, [dag.tok(x, k) for x in plain(a).ravel()]), k)


def to_concrete(a) -> np.ndarray:
    return np.array(
        [float(dag.cv(x)) if a._k == "f" else dag.cv(x) for x in plain(a).ravel()], dtype=DT[a._k]
    ).reshape(a.shape)


# ------------------------------------------------------------------ element operations
def _arith_kind(ks, what):
    k = dag.promote(*ks)
    return k


def _mul(x, y):
    return dag.and_(x, y) if x.k == "b" else dag.mul(x, y)


def _add(x, y):
    return dag.or_(x, y) if x.k == "b" else dag.add(x, y)


def _sub(x, y):
    if x.k == "b":
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    return dag.sub(x, y)


def _neg(x):
    if x.k == "b":
        raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
    return dag.neg(x)


def _floor_mod(x, y):
    if x.k == "f":
        raise Unsupported("modulo of reals")
    return dag.mod(dag.toi(x), dag.toi(y))


def _pow(x, y):
    if y.k != "f" and dag.isc(y) and 0 <= dag.cv(y) <= 16 and x.k != "b":
        r = dag.const(1, x.k)
        for _ in range(dag.cv(y)):
            r = dag.mul(r, x)
        return r
    if x.k != "f":
        raise Unsupported("integer power")
    return pow_real(x, dag.tof(y))


def pow_real(x, y):
    """x ** y over the reals: small integer exponents are products, others uninterpreted."""
    if dag.isc(y) and not isinstance(dag.cv(y), float) and dag.cv(y).denominator == 1 and abs(dag.cv(y)) <= 8:
        n = int(dag.cv(y))
        r = dag.const(1, "f")
        for _ in range(abs(n)):
            r = dag.mul(r, x)
        return dag.recip(r) if n < 0 else r
    return dag.uf("pow", x, y)


def _recip(x):
    if x.k == "i":
        raise Unsupported("integer reciprocal")
    return dag.recip(dag.tof(x))


def _div(x, y):
    return dag.mul(dag.tof(x), dag.recip(dag.tof(y)))


def _abs(x):
    return x if x.k == "b" else dag.max_(x, dag.neg(x))


def _sign(x):
    z, one = dag.const(0, x.k), dag.const(1, x.k)
    return dag.ite(dag.cmp("lt", x, z), dag.neg(one), dag.ite(dag.eq(x, z), z, one))


def _clip3(x, lo, hi):
    return dag.min_(dag.max_(x, lo), hi)


def _ufn(name):
    return lambda x: dag.uf(name, dag.tof(x))


def _eq(x, y):
    return dag.eq(x, y)


def _same(f):
    return ("same", f)


def _bool(f):
    return ("bool", f)


def _logic(f):
    return ("logic", f)


def _flt(f):
    return ("float", f)


# how: same = promote operands, result of the same kind; bool = promote, boolean result;
# logic = operands to bool; float = operands to float
OPS = {
    "add": _same(_add), "subtract": _same(_sub), "multiply": _same(_mul), "negative": _same(_neg),
    "positive": _same(lambda x: x), "minimum": _same(dag.min_), "maximum": _same(dag.max_),
    "fmin": _same(dag.min_), "fmax": _same(dag.max_),
    "remainder": _same(_floor_mod), "mod": _same(_floor_mod), "fmod": _same(lambda x, y: dag.rem(x, y)),
    "power": _same(_pow), "float_power": _flt(_pow), "reciprocal": _same(_recip), "absolute": _same(_abs),
    "sign": _same(_sign), "square": _same(lambda x: _mul(x, x)), "clip": _same(_clip3),
    "conjugate": _same(lambda x: x),
    "divide": _flt(_div), "true_divide": _flt(_div),
    "exp": _flt(_ufn("exp")), "sin": _flt(_ufn("sin")), "cos": _flt(_ufn("cos")), "tanh": _flt(_ufn("tanh")),
    "log": _flt(_ufn("log")), "sqrt": _flt(_ufn("sqrt")),
    "less": _bool(lambda x, y: dag.cmp("lt", x, y)), "less_equal": _bool(lambda x, y: dag.cmp("le", x, y)),
    "greater": _bool(lambda x, y: dag.cmp("lt", y, x)), "greater_equal": _bool(lambda x, y: dag.cmp("le", y, x)),
    "equal": _bool(_eq), "not_equal": _bool(lambda x, y: dag.not_(_eq(x, y))),
    "logical_and": _logic(dag.and_), "logical_or": _logic(dag.or_), "logical_not": _logic(dag.not_),
    "logical_xor": _logic(lambda x, y: dag.not_(dag.eq(x, y))),
    "isnan": ("bool", lambda x: dag.FALSE), "isfinite": ("bool", lambda x: dag.TRUE),
    "floor": _flt(lambda x: _no("floor")), "rint": _flt(lambda x: _no("rint")),
}
BITWISE = {"bitwise_and": "logical_and", "bitwise_or": "logical_or", "invert": "logical_not",
           "bitwise_xor": "logical_xor"}


def _no(what):
    raise Unsupported(what)


def elementwise(name, args):
    """Apply a named elementwise operation to SymNd operands; returns (object array, kind)."""
    args = [lift_array(a) for a in args]
    if name in BITWISE:
        if any(a._k != "b" for a in args):
            raise Unsupported(name)
        name = BITWISE[name]
    if name == "floor_divide":
        raise Unsupported(name)
    if name == "matmul":
        r = np_matmul(*args)
        return plain(r), r._k
    if name not in OPS:
        raise Unsupported(f"ufunc {name}")
    how, f = OPS[name]
    if how in ("same", "bool"):
        k = dag.promote(*(a._k for a in args))
    elif how == "float":
        k = "f"
    else:
        k = "b"
    if k == "b" and name in ("power", "remainder", "mod", "square", "reciprocal", "sign"):
        raise Unsupported(f"{name} of booleans")
    ops = [plain(a) if a._k == k else plain(cast(a, k)) for a in args]
    if not ops:
        raise Unsupported(name)
    b = np.broadcast(*ops) if len(ops) > 1 else None
    shape = b.shape if b is not None else ops[0].shape
    ops = [np.broadcast_to(o, shape).ravel() for o in ops]
    out = objarr(shape)
    flat = out.reshape(-1)
    for i in range(flat.shape[0]):
        flat[i] = f(*(o[i] for o in ops))
    rk = "b" if how in ("bool", "logic") else "f" if how == "float" else k
    return out, rk


def _same_kind_ok(src, dst):
    return "bif".index(src) <= "bif".index(dst)


UINT_NONE = object()


def array_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    out = kw.pop("out", None)
    if isinstance(out, tuple):
        (out,) = out
    name = ufunc.__name__
    if method == "reduce":
        return reduce_ufunc(ufunc, inputs[0], out=out, **kw) if len(inputs) == 1 else reduce_ufunc(
            ufunc, inputs[0], axis=inputs[1], out=out, **kw)
    if method == "outer":
        a, b = lift_array(inputs[0]), lift_array(inputs[1])
        a = make(plain(a).reshape(a.shape + (1,) * b.ndim), a._k)
        res, k = elementwise(name, [a, b])
        return make(res, k)
    if method != "__call__":
        raise Unsupported(f"ufunc method {method}")
    dtype = kw.pop("dtype", None)
    where = kw.pop("where", True)
    casting = kw.pop("casting", "same_kind")
    for o in ("subok", "order"):
        kw.pop(o, None)
    if kw:
        raise Unsupported(f"ufunc keyword {sorted(kw)}")
    if where is not True:
        raise Unsupported("ufunc where=")
    res, k = elementwise(name, inputs)
    if dtype is not None:
        k2 = kind_of_dtype(dtype)
        res, k = plain(cast(make(res, k), k2)), k2
    if out is not None:
        return write_out(res, k, out, name, casting)
    return make(res, k, scalar=not res.ndim)


def write_out(res, k, out, name, casting="same_kind"):
    if isinstance(out, SymNd):
        if out._scalar:
            raise TypeError("return arrays must be of ArrayType")
        if casting != "unsafe" and not _same_kind_ok(k, out._k):
            raise TypeError(f"Cannot cast ufunc '{name}' output from {DT[k]} to {DT[out._k]} with casting rule 'same_kind'")
        if np.broadcast_shapes(res.shape, out.shape) != out.shape:
            raise ValueError(f"non-broadcastable output operand with shape {out.shape} doesn't match the broadcast shape {res.shape}")
        if not out.flags.writeable:
            raise ValueError("output array is read-only")
        conv = plain(cast(make(res, k), out._k))
        np.copyto(plain(out), np.broadcast_to(conv, out.shape))
        return out
    if isinstance(out, np.ndarray):
        raise Unsupported("symbolic value written into a concrete buffer")
    raise TypeError("return arrays must be of ArrayType")


IDENT = {"add": 0, "multiply": 1, "logical_or": False, "logical_and": True}


def reduce_ufunc(ufunc, a, axis=0, dtype=None, out=None, keepdims=False, initial=UINT_NONE, where=True, **kw):
    a = lift_array(a)
    name = ufunc.__name__
    if where is not True:
        raise Unsupported("reduce where=")
    if initial is not UINT_NONE and initial.__class__.__name__ == "_NoValueType":
        initial = UINT_NONE
    k = a._k
    if name in ("add", "multiply") and k == "b":
        a, k = cast(a, "i"), "i"
    if dtype is not None:
        k = kind_of_dtype(dtype)
        a = cast(a, k)
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(ax % a.ndim for ax in axis)
    else:
        ax = int(axis)
        if not -a.ndim <= ax < a.ndim:
            raise np.exceptions.AxisError(ax, a.ndim)
        axes = (ax % a.ndim,)
    p = plain(a)
    rest = [i for i in range(a.ndim) if i not in axes]
    moved = p.transpose(list(axes) + rest)
    n = int(np.prod([p.shape[i] for i in axes], dtype=int))
    oshape = tuple(p.shape[i] for i in rest)
    moved = moved.reshape((n,) + oshape)
    if n == 0 and initial is UINT_NONE and name not in IDENT:
        if int(np.prod(oshape, dtype=int)):
            raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
    if initial is UINT_NONE or initial is None:
        acc = None
        if name in IDENT:
            acc = objarr(oshape, [dag.tok(dag.lift(IDENT[name]), k if name in ("add", "multiply") else "b")] * int(np.prod(oshape, dtype=int)))
    else:
        t = dag.lift(initial) if not isinstance(initial, SymNd) else initial._one()
        if t.k != k:
            k2 = dag.promote(t.k, k)
            a = cast(a, k2)
            moved = plain(a).transpose(list(axes) + rest).reshape((n,) + oshape)
            k, t = k2, dag.tok(t, k2)
        acc = objarr(oshape, [t] * int(np.prod(oshape, dtype=int)))
    rk = "b" if name.startswith("logical") else k
    cur = None if acc is None else make(acc, rk)
    for i in range(n):
        row = make(moved[i] if oshape else objarr((), [moved[i]]), a._k)
        if cur is None:
            cur = row
        else:
            r, rk = elementwise(name, [cur, row])
            cur = make(r, rk)
    if cur is None:
        cur = make(objarr(oshape), k)
    res = plain(cur).copy()
    if keepdims:
        res = res.reshape(tuple(1 if i in axes else p.shape[i] for i in range(a.ndim)))
    if out is not None:
        if isinstance(out, tuple):
            (out,) = out
        if out is not None:
            return write_out(res, cur._k, out, name)
    return make(res, cur._k, scalar=not res.ndim)


# ------------------------------------------------------------------ indexing
def _norm_slice(s: slice):
    def c(v):
        if v is None or isinstance(v, int):
            return v
        return v.__index__()

    return slice(c(s.start), c(s.stop), c(s.step))


def getitem(a: SymNd, item):
    items = item if isinstance(item, tuple) else (item,)
    if any(isinstance(it, (SymNd, T)) for it in items) and _has_symbolic(items):
        return gather_items(a, items)
    conv = tuple(_concrete_index(it) for it in items)
    r = np.ndarray.__getitem__(plain(a), conv if isinstance(item, tuple) or len(conv) == 1 and False else conv)
    if isinstance(r, np.ndarray):
        rr = make(r, a._k)
        # numpy returns a scalar (not an array) for full integer indexing
        return rr
    return scalar(r)


def _has_symbolic(items):
    for it in items:
        if isinstance(it, T) and not dag.isc(it):
            return True
        if isinstance(it, SymNd) and not all(dag.isc(x) for x in plain(it).ravel()):
            return True
    return False


def _concrete_index(it):
    if isinstance(it, slice):
        return _norm_slice(it)
    if isinstance(it, T):
        return it.__index__()
    if isinstance(it, SymNd):
        if it._k == "f":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        c = to_concrete(it)
        return c if c.ndim else (int(c) if it._k == "i" else bool(c))
    if isinstance(it, list):
        return [x.__index__() if isinstance(x, (SymNd, T)) else x for x in it]
    if isinstance(it, float):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    return it


def gather_items(a: SymNd, items):
    """Advanced indexing with symbolic integer arrays: an if-then-else over the positions of each axis."""
    items = list(items)
    if Ellipsis in [it for it in items if not isinstance(it, (np.ndarray, T))]:
        raise Unsupported("ellipsis with symbolic index")
    items += [slice(None)] * (a.ndim - sum(it is not None for it in items if not isinstance(it, np.ndarray)) - sum(isinstance(it, np.ndarray) for it in items))
    if any(it is None for it in items if not isinstance(it, (np.ndarray, T))):
        raise Unsupported("newaxis with symbolic index")
    arr_pos, arrs = [], []
    base = plain(a)
    pre = []
    for it in items:
        pre.append(_norm_slice(it) if isinstance(it, slice) else slice(None))
    base = base[tuple(pre)]
    for pos, it in enumerate(items):
        if isinstance(it, slice):
            continue
        s = lift_array(it if not isinstance(it, list) else np.array(it))
        if s._k == "f":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        if s._k == "b":
            raise Unsupported("symbolic boolean mask")
        arr_pos.append(pos)
        arrs.append(s)
    bshape = np.broadcast_shapes(*(s.shape for s in arrs))
    idxs = [np.broadcast_to(plain(s), bshape).ravel() for s in arrs]
    # bounds: an index outside [-n, n) raises
    for s, pos in zip(arrs, arr_pos):
        n = a.shape[pos]
        for x in plain(s).ravel():
            ok = dag.and_(dag.cmp("le", dag.const(-n, "i"), x), dag.cmp("lt", x, dag.const(n, "i")))
            if not engine.decide_bool(ok):
                raise IndexError(f"index is out of bounds for axis {pos} with size {n}")
    rest = [p for p in range(a.ndim) if p not in arr_pos]
    rest_shape = tuple(base.shape[p] for p in rest)
    moved = base.transpose(arr_pos + rest)
    m = len(idxs[0]) if bshape else 1
    res = objarr((m,) + rest_shape)
    for j in range(m):
        v = _select(moved, [idxs[q][j] for q in range(len(arrs))])
        res[j, ...] = v
    res = res.reshape(bshape + rest_shape)
    # numpy's placement of the indexed axes: in place when adjacent, first otherwise
    adjacent = all(arr_pos[i + 1] == arr_pos[i] + 1 for i in range(len(arr_pos) - 1))
    if adjacent and arr_pos:
        nb = len(bshape)
        before = sum(1 for p in rest if p < arr_pos[0])
        perm = list(range(nb, nb + before)) + list(range(nb)) + list(range(nb + before, nb + len(rest)))
        res = res.transpose(perm)
    return make(res, a._k, scalar=not res.ndim)


def _select(moved, idx):
    """moved[idx...] with symbolic idx (already in bounds): result is a sub-array (or a term)."""
    if not idx:
        return moved
    t, n = idx[0], moved.shape[0]
    if dag.isc(t):
        return _select(moved[dag.cv(t)], idx[1:])
    branches = [_select(moved[i], idx[1:]) for i in range(n)]
    if n == 0:
        raise IndexError("index out of bounds for axis with size 0")
    res = branches[-1]
    for i in range(n - 2, -1, -1):
        c = dag.or_(dag.eq(t, dag.const(i, "i")), dag.eq(t, dag.const(i - n, "i")))
        res = _ite_arr(c, branches[i], res)
    return res


def _ite_arr(c, x, y):
    if isinstance(x, np.ndarray):
        out = objarr(x.shape)
        fo, fx, fy = out.reshape(-1), x.ravel(), y.ravel()
        for i in range(fo.shape[0]):
            fo[i] = dag.ite(c, fx[i], fy[i])
        return out
    return dag.ite(c, x, y)


def setitem(a: SymNd, item, value):
    items = item if isinstance(item, tuple) else (item,)
    if _has_symbolic(items):
        raise Unsupported("assignment at a symbolic index")
    if a._scalar:
        raise TypeError("scalar does not support item assignment")
    conv = tuple(_concrete_index(it) for it in items)
    v = lift_array(value)
    if "bif".index(v._k) > "bif".index(a._k):
        # numpy casts unsafely on assignment
        v = cast(v, a._k)
    else:
        v = cast(v, a._k)
    if not a.flags.writeable:
        raise ValueError("assignment destination is read-only")
    p = plain(a)
    target = p[conv]
    if isinstance(target, np.ndarray):
        np.broadcast_to(plain(v), target.shape)  # raises when it cannot broadcast
        p[conv] = plain(v) if v.ndim else v._one()
    else:
        p[conv] = v._one()


# ------------------------------------------------------------------ numpy functions
def np_where(cond, *xy):
    if not xy:
        raise Unsupported("where with one argument")
    x, y = xy
    c, x, y = cast(lift_array(cond), "b"), lift_array(x), lift_array(y)
    k = dag.promote(x._k, y._k)
    x, y = cast(x, k), cast(y, k)
    shape = np.broadcast_shapes(c.shape, x.shape, y.shape)
    cs, xs, ys = (np.broadcast_to(plain(o), shape).ravel() for o in (c, x, y))
    return make(objarr(shape, [dag.ite(p, q, r) for p, q, r in zip(cs, xs, ys)]), k)


def np_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    r = lift_array(a)
    if a_min is not None:
        o, k = elementwise("maximum", [r, a_min])
        r = make(o, k)
    if a_max is not None:
        o, k = elementwise("minimum", [r, a_max])
        r = make(o, k)
    if out is not None:
        return write_out(plain(r), r._k, out, "clip")
    return make(plain(r), r._k, scalar=not r.ndim)


def _axis(axis, ndim):
    axis = int(axis)
    if not -ndim <= axis < ndim:
        raise np.exceptions.AxisError(axis, ndim)
    return axis % ndim


def np_take(a, indices, axis=None, out=None, mode="raise"):
    a, ix = lift_array(a), lift_array(indices)
    if ix._k == "f":
        raise TypeError("Cannot cast array data from dtype('float64') to dtype('int64') according to the rule 'safe'")
    if axis is None:
        a = make(plain(a).ravel(), a._k)
        axis = 0
    axis = _axis(axis, a.ndim)
    n = a.shape[axis]
    if mode == "clip":
        if n == 0:
            if ix.size:
                raise IndexError("cannot do a non-empty take from an empty axes.")
        else:
            ix = np_clip(cast(ix, "i"), 0, n - 1)
    elif mode == "wrap":
        ix = make(elementwise("remainder", [cast(ix, "i"), n])[0], "i")
    return make(plain(getitem(a, (slice(None),) * axis + (cast(ix, "i") if not _all_const(ix) else cast(ix, "i"),))), a._k)


def _all_const(a):
    return all(dag.isc(x) for x in plain(a).ravel())


def np_take_along_axis(arr, indices, axis):
    a, ix = lift_array(arr), lift_array(indices)
    if ix._k != "i":
        raise IndexError("`indices` must be an integer array")
    if axis is None:
        a = make(plain(a).ravel(), a._k)
        axis = 0
    if a.ndim != ix.ndim:
        raise ValueError("`indices` and `arr` must have the same number of dimensions")
    axis = _axis(axis, a.ndim)
    # as numpy: fancy indexing with aranges of arr's shape broadcast against indices
    idx = []
    for d in range(a.ndim):
        if d == axis:
            idx.append(ix)
        else:
            sh = [1] * a.ndim
            sh[d] = a.shape[d]
            idx.append(lift_array(np.arange(a.shape[d]).reshape(sh)))
    if _all_const(ix):
        return make(plain(a)[tuple(to_concrete(i) for i in idx)], a._k)
    return gather_items(a, idx)


def np_repeat(a, repeats, axis=None):
    a = lift_array(a)
    if isinstance(repeats, (SymNd, T)):
        if isinstance(repeats, SymNd) and repeats.ndim:
            repeats = [x.__index__() for x in plain(repeats)]
        else:
            repeats = repeats.__index__()
    return make(np.repeat(plain(a), repeats, axis=axis), a._k)


def np_pad(array, pad_width, mode="constant", **kw):
    a = lift_array(array)

    def conc(w):
        if isinstance(w, (SymNd, T)):
            if isinstance(w, SymNd) and w.ndim:
                return [conc(x) for x in w]
            return w.__index__()
        if isinstance(w, (list, tuple)):
            return tuple(conc(x) for x in w)
        return w

    w = conc(pad_width)
    if mode == "constant":
        cvs = kw.pop("constant_values", 0)
        t = dag.tok(dag.lift(cvs), a._k)
        idx = np.pad(np.arange(a.size).reshape(a.shape), w, mode="constant", constant_values=-1)
        flat = plain(a).ravel()
        return make(objarr(idx.shape, [flat[i] if i >= 0 else t for i in idx.ravel()]), a._k)
    idx = np.pad(np.arange(a.size).reshape(a.shape), w, mode=mode, **kw)
    flat = plain(a).ravel()
    return make(objarr(idx.shape, [flat[i] for i in idx.ravel()]), a._k)


def np_einsum(subs, *operands, optimize=False, **kw):
    if not isinstance(subs, str):
        raise Unsupported("einsum sublists")
    ops = [lift_array(o) for o in operands]
    k = dag.promote(*(o._k for o in ops))
    subs = subs.replace(" ", "")
    if "..." in subs:
        raise Unsupported("einsum ellipsis")
    if "->" in subs:
        ins, out = subs.split("->")
    else:
        ins = subs
        letters = ins.replace(",", "")
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise ValueError("more operands provided to einstein sum function than specified in the subscripts string")
    dims: dict = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match operand rank")
        for c, d in zip(s, o.shape):
            if c in dims and dims[c] != d:
                if dims[c] == 1:
                    dims[c] = d
                elif d != 1:
                    raise ValueError("operands could not be broadcast together in einsum")
            else:
                dims.setdefault(c, d)
    contracted = [c for c in dims if c not in out]
    shape = tuple(dims[c] for c in out)
    res = objarr(shape)
    flat = res.reshape(-1)
    ps = [plain(cast(o, k)) for o in ops]
    for n, oi in enumerate(np.ndindex(*shape)):
        env = dict(zip(out, oi))
        acc = dag.const(0, k if k != "b" else "i") if k != "b" else dag.FALSE
        for ci in np.ndindex(*(dims[c] for c in contracted)):
            env.update(zip(contracted, ci))
            prod = None
            for s, p in zip(ins, ps):
                x = p[tuple(env[c] if p.shape[j] != 1 else 0 for j, c in enumerate(s))]
                prod = x if prod is None else _mul(prod, x)
            acc = _add(acc, prod)
        flat[n] = acc
    return make(res, k, scalar=False)


def np_matmul(a, b, **kw):
    a, b = lift_array(a), lift_array(b)
    if a.ndim == 1 and b.ndim == 1:
        return np_einsum("i,i->", a, b)
    if a.ndim == 2 and b.ndim == 2:
        return np_einsum("ij,jk->ik", a, b)
    if a.ndim == 2 and b.ndim == 1:
        return np_einsum("ij,j->i", a, b)
    if a.ndim == 1 and b.ndim == 2:
        return np_einsum("i,ij->j", a, b)
    raise Unsupported("matmul of higher rank")


def np_tensordot(a, b, axes=2):
    a, b = lift_array(a), lift_array(b)
    if isinstance(axes, int):
        axes = (list(range(a.ndim - axes, a.ndim)), list(range(axes)))
    xa, xb = axes
    xa = [xa] if isinstance(xa, int) else [x % a.ndim for x in xa]
    xb = [xb] if isinstance(xb, int) else [x % b.ndim for x in xb]
    la = [chr(97 + i) for i in range(a.ndim)]
    lb = [chr(97 + a.ndim + i) for i in range(b.ndim)]
    for p, q in zip(xa, xb):
        lb[q] = la[p]
    out = [c for i, c in enumerate(la) if i not in xa] + [c for i, c in enumerate(lb) if i not in xb]
    return np_einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), a, b)


def np_array_equal(a1, a2, equal_nan=False):
    a, b = lift_array(a1), lift_array(a2)
    if a.shape != b.shape:
        return False
    acc = dag.TRUE
    for x, y in zip(plain(a).ravel(), plain(b).ravel()):
        if x is y:
            continue
        acc = dag.and_(acc, dag.eq(x, y))
    if dag.isc(acc):
        return dag.cv(acc)
    return bool(engine.decide_bool(acc))


def np_concatenate(arrays, axis=0, out=None, **kw):
    parts = [lift_array(a) for a in arrays]
    k = dag.promote(*(p._k for p in parts))
    return make(np.concatenate([plain(cast(p, k)) for p in parts], axis=axis), k)


def np_stack(arrays, axis=0, **kw):
    parts = [lift_array(a) for a in arrays]
    k = dag.promote(*(p._k for p in parts))
    return make(np.stack([plain(cast(p, k)) for p in parts], axis=axis), k)


def np_empty_like(a, dtype=None, order="K", subok=True, shape=None):
    a_ = lift_array(a)
    k = a_._k if dtype is None else kind_of_dtype(dtype)
    return p_empty(a_.shape if shape is None else shape, DT[k])


def np_full_like(a, fill_value, dtype=None, **kw):
    a_ = lift_array(a)
    k = a_._k if dtype is None else kind_of_dtype(dtype)
    return p_full(a_.shape, fill_value, DT[k])


def np_shape(a):
    return lift_array(a).shape


def np_broadcast_arrays(*args, **kw):
    parts = [lift_array(a) for a in args]
    outs = np.broadcast_arrays(*(plain(p) for p in parts))
    return [make(o, p._k) for o, p in zip(outs, parts)]


def np_result_type(*args):
    ks = []
    for a in args:
        if isinstance(a, SymNd):
            ks.append(a._k)
        elif isinstance(a, np.ndarray):
            ks.append(kind_of_dtype(a.dtype))
        elif isinstance(a, (bool, int, float)):
            ks.append(dag.lift(a).k)
        else:
            ks.append(kind_of_dtype(a))
    return DT[dag.promote(*ks)]


def _reducer(uf):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=UINT_NONE, where=True):
        return reduce_ufunc(uf, a, axis=axis, dtype=dtype, out=out, keepdims=bool(keepdims) if not hasattr(keepdims, "__class__") or keepdims.__class__.__name__ != "_NoValueType" else False,
                            initial=initial, where=True if where.__class__.__name__ == "_NoValueType" else where)

    return f


def np_copyto(dst, src, casting="same_kind", where=True):
    if where is not True:
        raise Unsupported("copyto where=")
    s = lift_array(src)
    write_out(plain(s), s._k, dst, "copyto", casting)


def np_select(condlist, choicelist, default=0):
    r = lift_array(default)
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = np_where(c, x, r)
    return r


def np_ndim(a):
    return a.ndim


SPECIAL = {
    np.where: np_where, np.clip: np_clip, np.take: np_take, np.take_along_axis: np_take_along_axis,
    np.repeat: np_repeat, np.pad: np_pad, np.einsum: np_einsum, np.array_equal: np_array_equal,
    np.concatenate: np_concatenate, np.stack: np_stack, np.empty_like: np_empty_like,
    np.full_like: np_full_like, np.zeros_like: lambda a, dtype=None, **k: np_full_like(a, 0, dtype),
    np.ones_like: lambda a, dtype=None, **k: np_full_like(a, 1, dtype),
    np.sum: _reducer(np.add), np.min: _reducer(np.minimum), np.max: _reducer(np.maximum),
    np.amin: _reducer(np.minimum), np.amax: _reducer(np.maximum), np.prod: _reducer(np.multiply),
    np.any: _reducer(np.logical_or), np.all: _reducer(np.logical_and),
    np.dot: np_matmul, np.tensordot: np_tensordot, np.broadcast_arrays: np_broadcast_arrays,
    np.result_type: np_result_type, np.copyto: np_copyto, np.select: np_select,
    np.shape: np_shape, np.ndim: np_ndim,
    np.hstack: lambda arrays, **k: np_concatenate(arrays, axis=1 if lift_array(arrays[0]).ndim > 1 else 0),
    np.vstack: lambda arrays, **k: np_concatenate([a if a.ndim > 1 else a[None] for a in map(lift_array, arrays)], axis=0),
    np.isrealobj: lambda x: True, np.iscomplexobj: lambda x: False,
    np.size: lambda a, axis=None: lift_array(a).size if axis is None else lift_array(a).shape[axis],
    np.copy: lambda a, **k: lift_array(a).copy(),
    np.may_share_memory: lambda a, b, **k: np.may_share_memory(plain(a), plain(b)),
    np.shares_memory: lambda a, b, **k: np.shares_memory(plain(a), plain(b)),
    np.outer: lambda a, b, out=None: make(elementwise("multiply", [plain2(a).reshape(-1, 1), plain2(b).reshape(1, -1)])[0], dag.promote(lift_array(a)._k, lift_array(b)._k)),
}


def plain2(a):
    a = lift_array(a)
    return make(plain(a), a._k)


# functions that only move data around: run on the object array itself
MOVES = {
    np.transpose, np.squeeze, np.expand_dims, np.reshape, np.ravel, np.moveaxis, np.swapaxes, np.rollaxis,
    np.broadcast_to, np.flip, np.roll, np.tile, np.diagonal, np.atleast_1d, np.atleast_2d,
    np.split, np.array_split, np.rot90, np.fliplr, np.flipud, np.delete, np.diag,
}


def array_function(func, args, kwargs):
    if func in SPECIAL:
        return SPECIAL[func](*args, **kwargs)
    if func in MOVES:
        kinds = []

        def decay(x):
            if isinstance(x, SymNd):
                kinds.append(x._k)
                return plain(x)
            if isinstance(x, (list, tuple)):
                return type(x)(decay(y) for y in x)
            return x

        a = [decay(args[0])] if args else []
        rest = [_conc_arg(x) for x in args[1:]]
        kw = {k: (decay(v) if k in ("a", "m", "arr", "ary") else _conc_arg(v)) for k, v in kwargs.items()}
        r = func(*a, *rest, **kw)

        def rewrap(x):
            if isinstance(x, np.ndarray):
                return make(x, kinds[0])
            if isinstance(x, (list, tuple)):
                return type(x)(rewrap(y) for y in x)
            return x

        return rewrap(r)
    raise Unsupported(f"numpy.{getattr(func, '__name__', func)}")


def _conc_arg(x):
    if isinstance(x, (SymNd, T)):
        return x.__index__() if not getattr(x, "ndim", 0) else [y.__index__() for y in x]
    if isinstance(x, (list, tuple)):
        return type(x)(_conc_arg(y) for y in x)
    return x


# ------------------------------------------------------------------ creation functions (proxied)
def _shape(shape):
    if isinstance(shape, (SymNd, T)):
        if getattr(shape, "ndim", 0):
            return tuple(x.__index__() for x in shape)
        return (shape.__index__(),)
    if isinstance(shape, (int, np.integer)):
        return (int(shape),)
    return tuple(x.__index__() for x in shape)


def p_array(obj, dtype=None, *, copy=True, order="K", subok=False, ndmin=0, like=None):
    if isinstance(obj, np.ndarray) and not isinstance(obj, SymNd) and obj.dtype.kind not in "biufO":
        return np.array(obj, dtype=dtype)
    a = lift_array(obj)
    if dtype is not None and kind_of_dtype(dtype) != a._k:
        a = cast(a, kind_of_dtype(dtype))
    elif copy and isinstance(obj, np.ndarray):
        a = a.copy()
    if ndmin > a.ndim:
        a = make(plain(a).reshape((1,) * (ndmin - a.ndim) + a.shape), a._k)
    return a


def p_asarray(obj, dtype=None, order=None, *, copy=None, like=None):
    if isinstance(obj, SymNd):
        if dtype is not None and kind_of_dtype(dtype) != obj._k:
            return cast(obj, kind_of_dtype(dtype))
        return obj
    return p_array(obj, dtype)


def p_empty(shape, dtype=float, order="C", **kw):
    k = kind_of_dtype(dtype)
    shape = _shape(shape)
    if any(s < 0 for s in shape):
        raise ValueError("negative dimensions are not allowed")
    n = int(np.prod(shape, dtype=int))
    return from_terms([dag.uninit(k) for _ in range(n)], shape, k)


def p_full(shape, fill_value, dtype=None, order="C", **kw):
    t = lift_array(fill_value)._one()
    k = t.k if dtype is None else kind_of_dtype(dtype)
    shape = _shape(shape)
    if any(s < 0 for s in shape):
        raise ValueError("negative dimensions are not allowed")
    return from_terms([dag.tok(t, k)] * int(np.prod(shape, dtype=int)), shape, k)


def p_zeros(shape, dtype=float, order="C", **kw):
    return p_full(shape, 0, dtype)


def p_ones(shape, dtype=None, order="C", **kw):
    return p_full(shape, 1, float if dtype is None else dtype)


def p_arange(*args, dtype=None, **kw):
    args = [int(a) if isinstance(a, (SymNd, T)) else a for a in args]
    a = lift_array(np.arange(*args, **{k: int(v) if isinstance(v, SymNd) else v for k, v in kw.items()}))
    return cast(a, kind_of_dtype(dtype)) if dtype is not None else a


def p_isscalar(x):
    if isinstance(x, T):
        return True
    if isinstance(x, SymNd):
        return False
    return np.isscalar(x)


def p_eye(*args, dtype=float, **kw):
    return lift_array(np.eye(*args, dtype=dtype, **kw))


def p_int64(x=0):
    return cast(lift_array(x), "i") if isinstance(x, (SymNd, T)) else np.int64(x)


def p_einsum_path(*args, **kw):
    return np.einsum_path(*[np.empty(a.shape) if isinstance(a, SymNd) else a for a in args], **kw)


def p_indices(dimensions, dtype=int, **kw):
    return lift_array(np.indices(_shape(dimensions), dtype=dtype))


PROXY = {
    "array": p_array, "asarray": p_asarray, "ascontiguousarray": lambda a, dtype=None, **k: p_asarray(a, dtype),
    "asanyarray": p_asarray, "empty": p_empty, "full": p_full, "zeros": p_zeros, "ones": p_ones,
    "arange": p_arange, "isscalar": p_isscalar, "eye": p_eye, "identity": lambda n, dtype=float: p_eye(n, dtype=dtype),
    "einsum_path": p_einsum_path, "indices": p_indices,
    "result_type": lambda *a: np_result_type(*a), "promote_types": lambda *a: np_result_type(*a),
    "broadcast": lambda *a: np.broadcast(*(plain(x) if isinstance(x, SymNd) else x for x in a)),
    "ndindex": lambda *a: np.ndindex(*_shape(a[0] if len(a) == 1 and isinstance(a[0], tuple) else a)),
    "linspace": lambda *a, **k: lift_array(np.linspace(*a, **k)),
}


class NumpyProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, name):
        if name in PROXY:
            return PROXY[name]
        return getattr(np, name)


PROXY_MODULE = NumpyProxy()
_BY_FUN = {getattr(np, n): f for n, f in PROXY.items()}


# ------------------------------------------------------------------ switching ein between real and symbolic
class symbolic_numpy:
    """Context: inside, the ein modules see the numpy proxy and symbolic constants."""

    extra: list = []  # (real module, proxy module, {real function: proxy function}) added by symtorch

    def __enter__(self):
        self.undo = []
        subs = [(np, PROXY_MODULE, _BY_FUN)] + list(self.extra)
        for mname, m in list(sys.modules.items()):
            if not (mname == "ein" or mname.startswith("ein.")) or m is None:
                continue
            for name, val in list(vars(m).items()):
                for real, proxy, funs in subs:
                    new = None
                    if val is real:
                        new = proxy
                    else:
                        try:
                            if callable(val) and val in funs:
                                new = funs[val]
                        except TypeError:
                            pass
                    if new is not None:
                        self.undo.append((m, name, val))
                        setattr(m, name, new)
        self._values()
        self._to_float()
        return self

    def _values(self):
        """Constants created at import time (e.g. monoid identities) become symbolic arrays too."""
        import ein.value

        for v in _import_time_values():
            if isinstance(v.value, np.ndarray) and not isinstance(v.value, SymNd):
                try:
                    new = lift_array(v.value)
                except Unsupported:
                    continue
                self.undo.append((v, "value", v.value))
                v.value = new

    def _to_float(self):
        import functools

        try:
            from ein.phi import phi, type_system
        except ImportError:
            return
        uf = getattr(getattr(phi, "CastToFloat", None), "ufunc", None)
        if isinstance(uf, functools.partial) and uf.func is np.ndarray.astype and dict(uf.keywords) == {"dtype": float} and not uf.args:
            self.undo.append((phi.CastToFloat, "ufunc", staticmethod(uf)))
            rep = _SymToFloat(uf)
            phi.CastToFloat.ufunc = rep

    def __exit__(self, *exc):
        for m, name, val in reversed(self.undo):
            setattr(m, name, val)


class _SymToFloat:
    """Stands for partial(ndarray.astype, dtype=float): equal to it, but also works on symbolic arrays."""

    def __init__(self, real):
        self.real = real

    def __call__(self, x):
        return cast(x, "f") if isinstance(x, SymNd) else self.real(x)

    def __eq__(self, o):
        return o is self or o is self.real

    def __hash__(self):
        return hash(self.real)


_values_cache = None


def _import_time_values():
    global _values_cache
    if _values_cache is None:
        import gc

        import ein.value

        _values_cache = [o for o in gc.get_objects() if isinstance(o, ein.value.Value)]
    return _values_cache
