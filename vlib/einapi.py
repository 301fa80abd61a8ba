"""The ein API as seen by corpus programs (class E mirrors refein.E), and entry points to evaluate them."""
from __future__ import annotations

import dataclasses
import functools
import operator

import numpy as np

from . import dag
from .symnp import SymNd, lift_array, make, objarr, plain


def ext_fun(name):
    """A vectorised external function: uninterpreted on symbolic arrays, a fixed polynomial otherwise."""
    f = dag.UFEVAL[name]

    def fun(*args):
        if any(isinstance(a, SymNd) for a in args):
            args = [lift_array(a) for a in args]
            shape = np.broadcast_shapes(*(a.shape for a in args))
            flats = [np.broadcast_to(plain(a), shape).ravel() for a in args]
            return make(objarr(shape, [dag.uf_g(name, *xs) for xs in zip(*flats)]), "f")
        if any(hasattr(a, "_symtensor") for a in args):
            from .symtorch import SymTensor

            return SymTensor(fun(*(a.nd if hasattr(a, "_symtensor") else a.numpy() if hasattr(a, "numpy") else a for a in args)))
        if SYMBOLIC[0] == "jax":
            from .symjax import jax_uf

            return jax_uf(name, *args)
        return f(*args)

    fun.__name__ = name
    return fun


# External functions of vectors and matrices (over the trailing axes), and the ranks of their results.
VFUNS = {
    "vsum": (lambda x: functools.reduce(operator.add, [x[..., k] for k in range(x.shape[-1])]), 0),
    "vdiff": (lambda x: x[..., 1:] - x[..., :1] * 2.0, 1),
    "vdot": (lambda x, y: functools.reduce(operator.add, [x[..., k] * y[..., k] for k in range(x.shape[-1])]), 0),
    "voff": (lambda x, y: x - y[..., :1], 1),
    "vscale": (lambda x, s: x * s[..., None], 1),
    "sscale": (lambda s, x: x[..., 0] - s * x[..., -1], 0),
    "mdiff": (lambda x: x[..., 1:, :] - x[..., :1, :] * 2.0, 2),
    "mpick": (lambda x: x[..., 0, :] - x[..., -1, :] * 3.0, 1),
    "mvec": (lambda m, v: functools.reduce(operator.add, [m[..., k] * v[..., k:k + 1] for k in range(m.shape[-1])]), 1),
}


def vext_fun(name):
    f = VFUNS[name][0]

    def fun(*args):
        if any(hasattr(a, "_symtensor") for a in args):
            from .symtorch import SymTensor

            return SymTensor(fun(*(a.nd if hasattr(a, "_symtensor") else a.numpy() if hasattr(a, "numpy") else a for a in args)))
        if any(isinstance(a, SymNd) for a in args):
            args = [lift_array(a) for a in args]
        return f(*args)

    fun.__name__ = name
    return fun


_EXT = {}


class E:
    is_ref = False

    @staticmethod
    def wrap(x):
        import ein

        if isinstance(x, np.ndarray) and not isinstance(x, SymNd) and SYMBOLIC[0] == "numpy":
            x = lift_array(x)
        return ein.wrap(x)

    @staticmethod
    def array(f, *, size=None):
        import ein

        return ein.array(f, size=size) if size is not None else ein.array(f)

    @staticmethod
    def fold(init, step, count=None):
        import ein

        return ein.fold(init, step, count=count) if count is not None else ein.fold(init, step)

    @staticmethod
    def where(c, x, y):
        import ein

        return ein.where(c, x, y)

    @staticmethod
    def ext(name, out_kind="f", sig=None):
        import ein

        if name not in _EXT:
            _EXT[name] = ext_fun(name)
        t = ein.scalar_type(float)
        if sig is not None:
            sig = tuple(ein.scalar_type({"f": float, "i": int, "b": bool}[k]) for k in sig)
            return ein.ext(_EXT[name], (sig, t))
        return ein.ext(_EXT[name], t)

    @staticmethod
    def extv(name):
        import ein

        if name not in _EXT:
            _EXT[name] = vext_fun(name)
        return ein.ext(_EXT[name], ein.ndarray_type(VFUNS[name][1], float))

    @staticmethod
    def kind(x):
        """Scalar kind of an array: 'b', 'i' or 'f'."""
        t = x.expr.type
        while hasattr(t, "elem"):
            t = t.elem
        return {bool: "b", int: "i", float: "f"}[t.kind]

    @staticmethod
    def rank(x):
        t, n = x.expr.type, 0
        while hasattr(t, "elem"):
            t, n = t.elem, n + 1
        return n

    @staticmethod
    def let(x, f):
        """An explicit let-binding of a scalar or (plain) vector."""
        import ein

        x = ein.wrap(x)
        try:
            from ein.frontend.ndarray import _to_array
            from ein.phi import phi
            from ein.symbols import Variable
        except ImportError:
            return f(x)
        v = Variable()
        body = f(_to_array(phi.variable(v, x.expr.type), x.layout))
        if v not in body.expr.free_symbols:
            return body
        return _to_array(phi.Let(v, x.expr, body.expr), body.layout)


def _std(name, alias=None):
    def f(*a, **k):
        import ein.frontend.std as std

        return getattr(std, alias or name)(*a, **k)

    return staticmethod(f)


for _n in ("concat", "min", "max", "fold_sum", "fold_min", "fold_max", "fold_argmin",
           "reduce_sum", "reduce_min", "reduce_max", "reduce_argmin"):
    setattr(E, _n, _std(_n))

SYMBOLIC = [None]
PYK = {"f": float, "i": int, "b": bool}


def leaves(x):
    if isinstance(x, (tuple, list)):
        return [l for y in x for l in leaves(y)]
    if isinstance(x, dict):
        return [l for y in x.values() for l in leaves(y)]
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return [l for f in dataclasses.fields(x) for l in leaves(getattr(x, f.name))]
    return [x]


def build(prog, mode, args):
    """Programs leaves as (expr, env). args: arrays (SymNd, ndarray, ...) for each input."""
    import ein

    out = []
    if mode == "const":
        res = prog.fn(E, *(E.wrap(a) for a in args))
        for leaf in leaves(res):
            out.append((ein.wrap(leaf), {}))
        return out
    types = [ein.ndarray_type(len(i.dims), PYK[i.kind]) for i in prog.inputs]
    holder = {}

    def fun(*a):
        if mode == "mixed":
            a = [x if n % 2 else E.wrap(args[n]) for n, x in enumerate(a)]
        ls = leaves(prog.fn(E, *a))
        holder["n"] = len(ls)
        return ls[holder["k"]]

    k, n = 0, 1
    while k < n:
        holder["k"] = k
        varargs, expr = ein.with_varargs(types, fun)
        n = holder["n"]
        out.append((_arr(expr), {v: a for m, (v, a) in enumerate(zip(varargs, args)) if mode != "mixed" or m % 2}))
        k += 1
    return out


class _arr:
    def __init__(self, expr):
        self.expr = expr


def evaluate(backend, expr, env):
    from ein.backend import BACKENDS

    return BACKENDS[backend](expr, env)
