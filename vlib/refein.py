"""Reference reading of ein's public API: every construct evaluated pointwise, index by index.

Independent of ein's code. Scalars are terms (dag.T); vectors are Python lists of elements, together
with a prototype element (so that empty arrays keep the shape and kind of their elements).
"""
from __future__ import annotations

import dataclasses
import inspect

from . import dag, engine
from .dag import T


# constructs used by the program being run (when a set is put here)
USED: list = [None]


def _use(*names):
    if USED[0] is not None:
        USED[0].update(names)


class OutOfContract(Exception):
    """The program is outside what the property promises for these inputs (e.g. sizes disagree)."""


def _mod(x, y):
    # modulo zero is undefined
    if not dag.isc(y) and engine.decide_bool(dag.eq(y, dag.const(0, "i"))):
        return dag.undef("i")
    return dag.mod(x, y)


def _div(x, y):
    # division by zero is undefined
    if dag.isc(y) and dag.cv(y) == 0:
        return dag.undef("f")
    return dag.mul(x, dag.recip(y))


class RS:
    """Scalar."""

    __slots__ = ("t", "probe")

    def __init__(self, t: T, probe=None):
        self.t = t
        self.probe = probe

    def __bool__(self):
        raise TypeError("ein arrays have no truth value")

    def __iter__(self):
        raise TypeError("ein arrays cannot be iterated")

    def _bin(self, o, f, kinds="if", rk=None):
        o = wrap(o)
        if not isinstance(o, RS) or o.t.k != self.t.k or self.t.k not in kinds:
            raise TypeError("operand kinds")
        return RS(f(self.t, o.t))

    def __add__(self, o):
        return self._bin(o, dag.add)

    def __radd__(self, o):
        return wrap(o) + self

    def __sub__(self, o):
        return self._bin(o, dag.sub)

    def __rsub__(self, o):
        return wrap(o) - self

    def __mul__(self, o):
        return self._bin(o, dag.mul)

    def __rmul__(self, o):
        return wrap(o) * self

    def __neg__(self):
        if self.t.k == "b":
            raise TypeError
        return RS(dag.neg(self.t))

    def __truediv__(self, o):
        return self._bin(o, _div, "f")

    def __rtruediv__(self, o):
        return wrap(o) / self

    def __mod__(self, o):
        return self._bin(o, _mod, "i")

    def __pow__(self, p):
        if isinstance(p, int) and not isinstance(p, bool):
            base = self.t
            if p < 0:
                if base.k != "f":
                    raise TypeError
                base = dag.recip(base)
            r = dag.const(1, base.k)
            for _ in range(abs(p)):
                r = dag.mul(r, base)
            return RS(r)
        from .symnp import pow_real

        return self._bin(p, pow_real, "f")

    def __invert__(self):
        if self.t.k != "b":
            raise TypeError
        return RS(dag.not_(self.t))

    def __and__(self, o):
        return self._bin(o, dag.and_, "b")

    def __or__(self, o):
        return self._bin(o, dag.or_, "b")

    def __lt__(self, o):
        return self._bin(o, lambda x, y: dag.cmp("lt", x, y))

    def __le__(self, o):
        return self._bin(o, lambda x, y: dag.cmp("le", x, y))

    def __gt__(self, o):
        return self._bin(o, lambda x, y: dag.cmp("lt", y, x))

    def __ge__(self, o):
        return self._bin(o, lambda x, y: dag.cmp("le", y, x))

    def __eq__(self, o):
        return self._bin(o, dag.eq)

    def __ne__(self, o):
        return self._bin(o, lambda x, y: dag.not_(dag.eq(x, y)))

    __hash__ = None

    def where(self, x, y):
        x, y = wrap(x), wrap(y)
        if self.t.k != "b" or x.t.k != y.t.k:
            raise TypeError
        return RS(dag.ite(self.t, x.t, y.t))

    def min(self, o):
        return self._bin(o, dag.min_)

    def max(self, o):
        return self._bin(o, dag.max_)

    def abs(self):
        return RS(dag.ite(dag.cmp("lt", self.t, dag.const(0, self.t.k)), dag.neg(self.t), self.t))

    __abs__ = abs

    def _f(self, name):
        if self.t.k != "f":
            raise TypeError
        return RS(dag.uf(name, self.t))

    def exp(self):
        return self._f("exp")

    def sin(self):
        return self._f("sin")

    def cos(self):
        return self._f("cos")

    def tanh(self):
        p, q = self.exp(), (-self).exp()
        return (p - q) / (p + q)

    def float(self):
        if self.t.k != "i":
            raise TypeError
        return RS(dag.tof(self.t))

    def assume(self, other):
        return self

    def __int__(self):
        return engine.decide_int(self.t)


class RV:
    """Vector: list of elements, prototype element."""

    def __init__(self, elems, proto, captured=()):
        self.elems = list(elems)
        self.proto = proto
        self.captured = captured

    def __bool__(self):
        raise TypeError

    def __iter__(self):
        raise TypeError

    def __getitem__(self, item):
        items = item if isinstance(item, tuple) else (item,)
        if not items:
            return self
        it, rest = items[0], items[1:]
        if isinstance(it, slice):
            if it != slice(None):
                raise ValueError("only [:]")
            es = [(e[rest] if rest else e) for e in self.elems]
            return RV(es, self.proto[rest] if rest else self.proto)
        it = wrap(it)
        if it.t.k != "i":
            raise TypeError("index must be an integer")
        if it.probe is not None and not any(p is it.probe for p in self.captured):
            it.probe.append(len(self.elems))
        v = self._at(it.t)
        return v[rest] if rest else v

    def _at(self, t: T):
        n = len(self.elems)
        if n == 0:
            return map_struct(lambda s: RS(dag.undef(s.t.k)), self.proto)
        if dag.isc(t):
            return self.elems[min(max(dag.cv(t), 0), n - 1)]
        res = self.elems[n - 1]
        for i in range(n - 2, -1, -1):
            c = dag.cmp("le", t, dag.const(i, "i"))
            res = select(c, self.elems[i], res)
        return res

    def size(self, axis=0):
        v = self
        for _ in range(axis):
            v = v.elems[0] if v.elems else v.proto
        return RS(dag.const(len(v.elems), "i"))

    def concat(self, other):
        _use("concat")
        # the elements have to have the same shape
        map_struct(lambda a, b: a, self.elems[0] if self.elems else self.proto, other.elems[0] if other.elems else other.proto)
        return RV(self.elems + other.elems, self.proto)

    def or_empty(self, item, empty):
        return self[item] if self.elems else normal(empty)

    def reduce(self, init, f):
        _use("reduce")
        acc = normal(init)
        for e in self.elems:
            acc = normal(f(acc, e))
        return acc

    def assume(self, other):
        return self


def wrap(x):
    if isinstance(x, (RS, RV)):
        return x
    if isinstance(x, (T, bool, int, float)):
        return RS(dag.lift(x))
    import numpy

    if isinstance(x, numpy.ndarray) and x.dtype == object and x.ndim == 0 and isinstance(x.item(), RS):
        return x.item()
    if isinstance(x, (numpy.ndarray, numpy.generic)):
        return from_array(x)
    raise TypeError(f"Invalid type for an ein Array: {type(x).__name__}")


def from_array(x):
    from .symnp import SymNd, lift_array, plain

    a = lift_array(x)
    p = plain(a)

    def go(sub, shape):
        if not shape:
            return RS(sub if isinstance(sub, T) else sub[()])
        return RV([go(sub[i], shape[1:]) for i in range(shape[0])], proto(shape[1:]))

    def proto(shape):
        if not shape:
            return RS(dag.undef(a._k))
        return RV([proto(shape[1:]) for _ in range(shape[0])], proto(shape[1:]))

    return go(p, a.shape)


# ------------------------------------------------------------------ records
def normal(x):
    """Scalars wrapped, lists become tuples (as ein's records do)."""
    if not isinstance(x, (RS, RV)):
        _use("record" if isinstance(x, (tuple, list, dict)) or dataclasses.is_dataclass(x) else "array")
    if isinstance(x, (tuple, list)):
        return tuple(normal(y) for y in x)
    if isinstance(x, dict):
        return {k: normal(v) for k, v in x.items()}
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return type(x)(**{f.name: normal(getattr(x, f.name)) for f in dataclasses.fields(x)})
    return wrap(x)


def map_struct(f, *xs):
    x = xs[0]
    if isinstance(x, RS):
        return f(*xs)
    if isinstance(x, RV):
        if len({len(y.elems) for y in xs}) != 1:
            raise OutOfContract("sizes differ")
        return RV([map_struct(f, *es) for es in zip(*(y.elems for y in xs))], map_struct(f, *(y.proto for y in xs)))
    if isinstance(x, tuple):
        return tuple(map_struct(f, *es) for es in zip(*xs, strict=True))
    if isinstance(x, dict):
        return {k: map_struct(f, *(y[k] for y in xs)) for k in x}
    return type(x)(**{fl.name: map_struct(f, *(getattr(y, fl.name) for y in xs)) for fl in dataclasses.fields(x)})


def select(c: T, x, y):
    return map_struct(lambda a, b: RS(dag.ite(c, a.t, b.t)), x, y)


def mark_captured(x, probe):
    """x, with its reads not counting towards the extent inferred for the given index."""
    if isinstance(x, RV):
        return RV([mark_captured(e, probe) for e in x.elems], mark_captured(x.proto, probe), (*x.captured, probe))
    if isinstance(x, tuple):
        return tuple(mark_captured(y, probe) for y in x)
    if isinstance(x, dict):
        return {k: mark_captured(v, probe) for k, v in x.items()}
    if isinstance(x, RS):
        return x
    return type(x)(**{f.name: mark_captured(getattr(x, f.name), probe) for f in dataclasses.fields(x)})


def leaves(x):
    """Leaves of a record in field order."""
    if isinstance(x, (tuple, list)):
        return [l for y in x for l in leaves(y)]
    if isinstance(x, dict):
        return [l for y in x.values() for l in leaves(y)]
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return [l for f in dataclasses.fields(x) for l in leaves(getattr(x, f.name))]
    return [x]


# ------------------------------------------------------------------ comprehensions
def _size(n):
    n = wrap(n)
    if n.t.k != "i":
        raise TypeError("size must be an integer")
    return engine.decide_int(n.t)


ZERO = None


def _zero():
    return dag.const(0, "i")


def array(constructor, *, size=None):
    _use("array")
    if size is not None and not isinstance(size, tuple):
        size = (size,)
    n = len(inspect.signature(constructor).parameters) if size is None else len(size)
    if n == 0:
        return normal(constructor())
    if size is None:
        probes = [[] for _ in range(n)]
        constructor(*(RS(_zero(), p) for p in probes))
        sizes = []
        for p in probes:
            if not p:
                raise OutOfContract("bounds cannot be inferred at these extents")
            if len(set(p)) != 1:
                raise OutOfContract("inferred sizes differ")
            sizes.append(p[0])
    else:
        sizes = [_size(s) for s in size]
        if any(s < 0 for s in sizes):
            raise OutOfContract("negative size")

    def go(prefix, rest):
        if not rest:
            return normal(constructor(*prefix))
        elems = [go(prefix + [RS(dag.const(i, "i"))], rest[1:]) for i in range(rest[0])]
        proto = elems[0] if elems else go(prefix + [RS(_zero())], rest[1:])
        return RV(elems, proto)

    return go([], sizes)


def infer_count(step, init):
    p = []
    step(RS(_zero(), p), mark_captured(init, p))
    if not p:
        raise OutOfContract("bounds cannot be inferred at these extents")
    if len(set(p)) != 1:
        raise OutOfContract("inferred sizes differ")
    return p[0]


def fold(init, step, count=None):
    _use("fold")
    acc = normal(init)
    n = infer_count(step, acc) if count is None else _size(count)
    if STATIC[0]:
        same_shape(acc, normal(step(RS(_zero()), acc)))
    for i in range(max(n, 0)):
        acc = normal(step(RS(dag.const(i, "i")), acc))
        if STATIC[0]:
            same_shape(normal(init), acc)
    return acc


# JAX: the extents of what a loop carries have to be the same in every iteration
STATIC = [False]


def same_shape(x, y):
    map_struct(lambda a, b: a, x, y)


def where(cond, true, false):
    _use("where")
    c = wrap(cond).t
    if c.k != "b":
        raise TypeError
    return select(c, normal(true), normal(false))


def concat(*args):
    r = args[0]
    for a in args[1:]:
        r = r.concat(a)
    return r


def _items(f, count):
    _use("std")
    if count is None:
        n = infer_count(lambda i, acc: f(i), wrap(0))
    else:
        n = _size(count)
    return [wrap(f(RS(dag.const(i, "i")))) for i in range(max(n, 0))]


def _isum(f, count=None):
    acc = wrap(0.0)
    for e in _items(f, count):
        acc = acc + e
    return acc


def _imin(f, count=None):
    acc = wrap(dag.INF)
    for e in _items(f, count):
        acc = acc.min(e)
    return acc


def _imax(f, count=None):
    acc = wrap(-dag.INF)
    for e in _items(f, count):
        acc = acc.max(e)
    return acc


def _iargmin(f, count=None):
    xs = _items(f, count)
    if not xs:
        return wrap(0)
    # the first index whose value is <= every other value
    best = dag.const(len(xs) - 1, "i")
    for i in reversed(range(len(xs) - 1)):
        c = dag.TRUE
        for j, y in enumerate(xs):
            if j != i:
                c = dag.and_(c, dag.cmp("le", xs[i].t, y.t))
        best = dag.ite(c, dag.const(i, "i"), best)
    return RS(best)


fold_sum = reduce_sum = _isum
fold_min = reduce_min = _imin
fold_max = reduce_max = _imax
fold_argmin = reduce_argmin = _iargmin


def min_n(*args):
    _use("std")
    r = wrap(args[0])
    for a in args[1:]:
        r = r.min(a)
    return r


def max_n(*args):
    _use("std")
    r = wrap(args[0])
    for a in args[1:]:
        r = r.max(a)
    return r


def shape_of(v):
    """Shape of a leaf (scalar or vector of ... of scalars)."""
    s = []
    while isinstance(v, RV):
        s.append(len(v.elems))
        v = v.elems[0] if v.elems else v.proto
    return tuple(s)


def flat_terms(v):
    if isinstance(v, RS):
        return [v.t]
    return [t for e in v.elems for t in flat_terms(e)]


def kind_of(v):
    while isinstance(v, RV):
        v = v.elems[0] if v.elems else v.proto
    return v.t.k


class E:
    """The API object handed to corpus programs (the same names exist over ein itself)."""

    array, fold, where, wrap, concat = staticmethod(array), staticmethod(fold), staticmethod(where), staticmethod(wrap), staticmethod(concat)
    min, max = staticmethod(min_n), staticmethod(max_n)
    fold_sum = reduce_sum = staticmethod(_isum)
    fold_min = reduce_min = staticmethod(_imin)
    fold_max = reduce_max = staticmethod(_imax)
    fold_argmin = reduce_argmin = staticmethod(_iargmin)
    is_ref = True

    @staticmethod
    def ext(name, out_kind="f", sig=None):
        """An arbitrary elementwise function of the given name (see dag.UFEVAL)."""

        def call(*args):
            return RS(dag.uf_g(name, *(wrap(a).t for a in args)))

        return call

    @staticmethod
    def extv(name):
        """One of einapi.VFUNS, applied to the operands' own axes."""
        import numpy

        from .einapi import VFUNS

        def nd(x):
            if isinstance(x, RS):
                r = numpy.empty((), object)
                r[()] = x
                return r
            r = numpy.empty(shape_of(x), object)
            for ix in numpy.ndindex(*r.shape):
                e = x
                for i in ix:
                    e = e.elems[i]
                r[ix] = e
            return r

        def back(r):
            if getattr(r, "ndim", 0) == 0:
                return r.item() if isinstance(r, numpy.ndarray) else r
            p = RS(dag.const(0, "f"))
            for n in reversed(r.shape[1:]):
                p = RV([p] * n, p)
            return RV([back(x) for x in r], p)

        def call(*args):
            ops = [nd(wrap(a)) for a in args]
            if any(0 in o.shape for o in ops):
                raise OutOfContract("external function of an empty array")
            return back(VFUNS[name][0](*ops))

        return call

    @staticmethod
    def let(x, f):
        return f(normal(x))

    kind = staticmethod(lambda x: kind_of(x))
    rank = staticmethod(lambda x: len(shape_of(x)))
