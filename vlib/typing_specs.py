"""C12 (typing) and C20 (refusals): every combination of operand types / escaping symbols within a finite space.

The combination is a vector of symbolic integers; the engine partitions the space and the assertion is discharged on
every part.  Expected outcomes come from the tables below, which do not read the code under check.
"""
from __future__ import annotations

import dataclasses
import itertools

import numpy as np

from . import dag, engine
from .corpus_base import Prog
from .decide import SPECS, Case
from .dag import Unsupported
from .specs import Pairs, PairSpec, typed_function

PY = {"f": float, "i": int, "b": bool}
SC = ("f0", "i0", "b0")
VE = ("f1", "i1", "b1", "f2", "i2")
REC = ("r1", "q1", "s1")
LIT = ("Lf", "Li", "Lb")  # Python literals
TYPES = SC + VE + REC
LITV = {"Lf": 1.5, "Li": 2, "Lb": True}


class Choice:
    def __init__(self, name, domains, attempt, prop):
        self.name, self.domains, self.attempt, self.prop = name, domains, attempt, prop


CHOICES: dict = {}


def choice(name, prop, *domains):
    def add(f):
        CHOICES[name] = Choice(name, [tuple(d) for d in domains], f, prop)
        return f

    return add


class ChoiceSpec(PairSpec):
    def reference(self, case, arrs):
        return None

    def assumptions(self, case):
        cs = []
        for n, d in enumerate(CHOICES[case.prog.name].domains):
            v = dag.var(f"c{n}", "i")
            cs += [dag.cmp("le", dag.const(0, "i"), v), dag.cmp("lt", v, dag.const(len(d), "i"))]
        return cs

    def random_env(self, case, rng):
        return {f"c{n}": rng.randrange(len(d)) for n, d in enumerate(CHOICES[case.prog.name].domains)}

    def note(self, case, env):
        return {k: v for k, v in (env or {}).items() if k.startswith("c")}

    def sym(self, case, arrs):
        ch = CHOICES[case.prog.name]
        return self._run(ch, [d[engine.decide_int(dag.var(f"c{n}", "i"))] for n, d in enumerate(ch.domains)])

    def real(self, case, arrs, env):
        ch = CHOICES[case.prog.name]
        return self._run(ch, [d[int(env.get(f"c{n}", 0))] for n, d in enumerate(ch.domains)])

    def _run(self, ch, vals):
        out = Pairs()
        try:
            bad = ch.attempt(*vals)
        except (Unsupported, engine.TooManyPaths):
            raise
        except (ImportError, AttributeError) as e:
            raise Unsupported(f"{ch.name}{tuple(vals)}: {type(e).__name__}: {e}") from e
        except Exception as e:  # noqa: BLE001
            bad = f"raised {type(e).__name__}: {str(e)[:200]}"
        if bad is not None:
            out.problem = f"{ch.name}{tuple(vals)}: {bad}"
        else:
            out.add(ch.name, np.zeros((), object), np.zeros((), object), [True])
        return out


SPECS["choice"] = ChoiceSpec()


def cases(prop):
    return [Case(Prog(n, (), [{}], None, frozenset()), {}, "numpy", "choices", "choice") for n, c in CHOICES.items() if c.prop == prop]


# ------------------------------------------------------------------ operands
@dataclasses.dataclass
class Point:
    x: object
    y: object


def with_operands(tokens, body):
    """body(*operands) with fresh variables of the given types."""
    import ein

    types, makers = [], []
    for t in tokens:
        if t in LITV:
            makers.append((0, lambda t=t: LITV[t]))
        elif t == "r1":
            types += [ein.ndarray_type(1, float), ein.ndarray_type(1, int)]
            makers.append((2, lambda a, p: ein.array(lambda k: (a[k], p[k]))))
        elif t == "q1":
            types += [ein.ndarray_type(1, float), ein.ndarray_type(1, int)]
            makers.append((2, lambda a, p: ein.array(lambda k: {"x": a[k], "y": p[k]})))
        elif t == "s1":
            types += [ein.ndarray_type(1, float), ein.ndarray_type(1, float)]
            makers.append((2, lambda a, p: ein.array(lambda k: (a[k], p[k]))))
        else:
            types.append(ein.ndarray_type(int(t[1]), PY[t[0]]))
            makers.append((1, lambda a: a))
    box = []

    def fun(*args):
        ops, i = [], 0
        for n, mk in makers:
            ops.append(mk(*args[i:i + n]))
            i += n
        box.append(body(*ops))
        return ein.wrap(0.0)

    ein.with_varargs(types, fun)
    return box[0]


def outcome(tokens, construct):
    """('ok', result) | ('refused', None) | ('raised', message) of construct(*operands)."""

    def body(*ops):
        try:
            r = construct(*ops)
            leaf(r)
            return "ok", r
        except TypeError:
            return "refused", None
        except Exception as e:  # noqa: BLE001
            return "raised", e

    return with_operands(tokens, body)


def leaf(r):
    """Types of the leaves of a result (forces nothing else)."""
    if isinstance(r, (tuple, list)):
        return [leaf(x) for x in r]
    if isinstance(r, dict):
        return {k: leaf(x) for k, x in r.items()}
    if dataclasses.is_dataclass(r) and not isinstance(r, type) and not hasattr(r, "expr"):
        return [leaf(getattr(r, f.name)) for f in dataclasses.fields(r)]
    return r.expr.type


def judge(tokens, construct, want, also=()):
    """want: None (to be refused) or a type token (to be accepted with that type), or 'any'."""
    import ein

    tag, r = outcome(tokens, construct)
    if want is None:
        if tag == "refused" or (tag == "raised" and isinstance(r, also)):
            return None
        return "accepted" if tag == "ok" else f"raised {type(r).__name__} instead of TypeError"
    if tag == "refused":
        return "refused"
    if tag == "raised":
        return f"raised {type(r).__name__}: {str(r)[:100]}"
    if want == "any":
        return None
    if isinstance(want, list):
        got = leaf(r)
        got = list(got.values()) if isinstance(got, dict) else got
        exp = [ein.ndarray_type(int(w[1]), PY[w[0]]) for w in want]
        return None if got == exp else f"has types {got}, expected {exp}"
    exp = ein.ndarray_type(int(want[1]), PY[want[0]])
    got = leaf(r)
    return None if got == exp else f"has type {got}, expected {exp}"


def kind(t):
    return t[1] if t[0] == "L" else t[0]


def is_scalar(t):
    return t[0] == "L" or t in SC


# ------------------------------------------------------------------ C12: scalar operators
NUM, FLT, INT, BOO = set("fi"), set("f"), set("i"), set("b")
UNARY = {
    "neg": (lambda x: -x, NUM, None), "abs": (lambda x: abs(x), NUM, None), "inv": (lambda x: ~x, BOO, None),
    "exp": (lambda x: x.exp(), FLT, None), "sin": (lambda x: x.sin(), FLT, None), "cos": (lambda x: x.cos(), FLT, None),
    "tanh": (lambda x: x.tanh(), FLT, None), "float": (lambda x: x.float(), INT, "f"),
    "pow2": (lambda x: x ** 2, NUM, None), "pow3": (lambda x: x ** 3, NUM, None), "powneg": (lambda x: x ** -2, FLT, None),
}
BINARY = {
    "add": (lambda x, y: x + y, NUM, None), "sub": (lambda x, y: x - y, NUM, None), "mul": (lambda x, y: x * y, NUM, None),
    "div": (lambda x, y: x / y, FLT, None), "mod": (lambda x, y: x % y, INT, None),
    "lt": (lambda x, y: x < y, NUM, "b"), "le": (lambda x, y: x <= y, NUM, "b"), "gt": (lambda x, y: x > y, NUM, "b"),
    "ge": (lambda x, y: x >= y, NUM, "b"), "eq": (lambda x, y: x == y, NUM, "b"), "ne": (lambda x, y: x != y, NUM, "b"),
    "and": (lambda x, y: x & y, BOO, None), "or": (lambda x, y: x | y, BOO, None),
    "min": (lambda x, y: x.min(y), NUM, None), "max": (lambda x, y: x.max(y), NUM, None),
}

for _n, (_f, _ks, _r) in UNARY.items():
    @choice("unary_" + _n, "C12", TYPES)
    def _(t, f=_f, ks=_ks, r=_r):
        ok = is_scalar(t) and kind(t) in ks
        return judge([t], f, ((r or kind(t)) + "0") if ok else None, also=AttributeError)

for _n, (_f, _ks, _r) in BINARY.items():
    @choice("binary_" + _n, "C12", TYPES, TYPES + LIT)
    def _(t, u, f=_f, ks=_ks, r=_r, n=_n):
        if n in ("eq", "ne") and not is_scalar(t) and not is_scalar(u):
            return None  # Python's own identity comparison of two vectors
        ok = is_scalar(t) and is_scalar(u) and kind(t) == kind(u) and kind(t) in ks
        return judge([t, u], f, ((r or kind(t)) + "0") if ok else None, also=AttributeError)

    if _n not in ("mod", "and", "or", "min", "max"):
        @choice("binary_left_literal_" + _n, "C12", LIT, TYPES)
        def _(t, u, f=_f, ks=_ks, r=_r, n=_n):
            if n in ("eq", "ne") and not is_scalar(u):
                return None
            ok = is_scalar(u) and kind(t) == kind(u) and kind(t) in ks
            return judge([t, u], f, ((r or kind(t)) + "0") if ok else None)


@choice("binary_pow", "C12", TYPES, TYPES + ("Lf",))
def _(t, u):
    ok = is_scalar(t) and is_scalar(u) and kind(t) == kind(u) == "f"
    return judge([t, u], lambda x, y: x ** y, "f0" if ok else None)


@choice("ternary_where_method", "C12", SC + ("f1", "b1"), TYPES + LIT, TYPES + LIT)
def _(c, t, u):
    ok = c == "b0" and is_scalar(t) and is_scalar(u) and kind(t) == kind(u)
    return judge([c, t, u], lambda x, y, z: x.where(y, z), kind(t) + "0" if ok else None, also=AttributeError)


@choice("std_where", "C12", SC + ("f1", "Lb", "Li"), TYPES + LIT, TYPES + LIT)
def _(c, t, u):
    import ein

    same = t == u or (is_scalar(t) and is_scalar(u) and kind(t) == kind(u))
    ok = c in ("b0", "Lb") and same
    want = None if not ok else "any" if t in REC else (kind(t) + ("0" if is_scalar(t) else t[1]))
    return judge([c, t, u], lambda x, y, z: ein.where(x, y, z), want, also=AttributeError)


@choice("std_min_max", "C12", ("min", "max"), SC + LIT + ("f1",), SC + LIT + ("i1",), SC + LIT)
def _(n, t, u, v):
    import ein.frontend.std as std

    ok = all(is_scalar(x) and kind(x) == kind(t) for x in (t, u, v)) and kind(t) in NUM
    return judge([t, u, v], lambda *a: getattr(std, n)(*a), kind(t) + "0" if ok else None, also=AttributeError)


# ------------------------------------------------------------------ C12: arrays
ELEM = {"f1": "f0", "i1": "i0", "b1": "b0", "f2": "f1", "i2": "i1", "r1": ["f0", "i0"], "q1": ["f0", "i0"], "s1": ["f0", "f0"]}


@choice("read", "C12", TYPES, TYPES + LIT)
def _(t, u):
    ok = t in ELEM and is_scalar(u) and kind(u) == "i"
    return judge([t, u], lambda a, i: a[i], ELEM[t] if ok else None)


@choice("read2", "C12", SC + VE, SC + LIT, SC + LIT)
def _(t, u, v):
    ok = t in ("f2", "i2") and kind(u) == kind(v) == "i"
    return judge([t, u, v], lambda a, i, j: a[i, j], t[0] + "0" if ok else None)


@choice("read_in_array", "C12", TYPES, SC)
def _(t, u):
    import ein

    ok = t not in SC and kind(u) == "i"
    return judge([t, u], lambda a, i: ein.array(lambda k: a[i], size=2), None if not ok else "any" if t in REC else t)


@choice("size_of", "C12", VE + REC, (0,))
def _(t, ax):
    return judge([t], lambda a: a.size(ax), "i0")


@choice("array_size", "C12", TYPES, TYPES + LIT)
def _(t, s):
    import ein

    ok = is_scalar(s) and kind(s) == "i"
    want = None if not ok else "any" if t in REC else t[0] + str(int(t[1]) + 1)
    return judge([t, s], lambda x, n: ein.array(lambda i: x, size=n), want)


@choice("array_size2", "C12", SC + ("f1", "Li", "Lf"), SC + ("f1", "Li", "Lb"))
def _(s, u):
    import ein

    ok = all(is_scalar(x) and kind(x) == "i" for x in (s, u))
    return judge([s, u], lambda n, m: ein.array(lambda i, j: i.float() + j.float(), size=(n, m)), "f2" if ok else None)


@choice("fold_types", "C12", TYPES + LIT, TYPES + LIT)
def _(t, u):
    import ein

    same = t == u or (is_scalar(t) and is_scalar(u) and kind(t) == kind(u))
    if {t, u} == {"r1", "q1"} or {t, u} <= set(REC) and t != u:
        if {t, u} == {"r1", "q1"}:
            return None  # same fields under other names: structure is not part of this property
    want = None if not same else "any" if t in REC else (kind(t) + ("0" if is_scalar(t) else t[1]))
    return judge([t, u], lambda x, y: ein.fold(x, lambda i, acc: y, count=3), want, also=ValueError)


@choice("fold_acc_use", "C12", SC, SC)
def _(t, u):
    import ein

    ok = t == u and kind(t) in NUM
    return judge([t, u], lambda x, y: ein.fold(x, lambda i, acc: acc + y, count=3), t if ok else None)


@choice("fold_count", "C12", TYPES + LIT)
def _(s):
    import ein

    ok = is_scalar(s) and kind(s) == "i"
    return judge([s], lambda n: ein.fold(0.0, lambda i, acc: acc + 1.0, count=n), "f0" if ok else None)


@choice("fold_records", "C12", SC, SC, SC, SC)
def _(t, u, v, w):
    import ein

    ok = t == v and u == w
    return judge([t, u, v, w], lambda a, b, c, d: ein.fold((a, b), lambda i, acc: (c, d), count=2), [t, u] if ok else None)


@choice("reduce_types", "C12", TYPES, TYPES + LIT, TYPES + LIT)
def _(t, u, v):
    elem = {"f1": "f0", "i1": "i0", "b1": "b0", "f2": "f1", "i2": "i1"}.get(t)

    def same(x):
        return x == elem or (elem is not None and is_scalar(elem) and is_scalar(x) and kind(x) == kind(elem))

    ok = elem is not None and same(u) and same(v)
    return judge([t, u, v], lambda a, z, r: a.reduce(z, lambda x, y: r), elem if ok else None, also=AttributeError)


@choice("reduce_op", "C12", VE, SC + LIT, ("add", "and", "lt", "first", "min"))
def _(t, z, op):
    fs = {"add": lambda x, y: x + y, "and": lambda x, y: x & y, "lt": lambda x, y: x < y, "first": lambda x, y: x, "min": lambda x, y: x.min(y)}
    k = t[0]
    ok = t[1] == "1" and kind(z) == k and {"add": k in NUM, "and": k == "b", "lt": False, "first": True, "min": k in NUM}[op]
    return judge([t, z], lambda a, i: a.reduce(i, fs[op]), k + "0" if ok else None, also=AttributeError)


@choice("reduce_records", "C12", SC, SC, SC, SC)
def _(t, u, v, w):
    import ein

    ok = (t, u) == ("f0", "i0") == (v, w)
    return judge(["r1", t, u, v, w], lambda a, p, q, r, s: a.reduce((p, q), lambda x, y: (r, s)), ["f0", "i0"] if ok else None)


@choice("concat_types", "C12", TYPES, TYPES)
def _(t, u):
    ok = t == u and t not in SC
    return judge([t, u], lambda a, b: a.concat(b), None if not ok else "any" if t in REC else t, also=AttributeError)


@choice("concat3_types", "C12", ("f1", "i1", "f2", "r1"), ("f1", "i1", "b1"), ("f1", "i1", "f0"))
def _(t, u, v):
    import ein.frontend.std as std

    ok = t == u == v
    return judge([t, u, v], lambda a, b, c: std.concat(a, b, c), t if ok else None, also=AttributeError)


@choice("ext_types", "C12", TYPES + LIT, TYPES + LIT, ("f", "i", "b"))
def _(t, u, out):
    import ein

    def fun(x, y):
        return x

    f = ein.ext(fun, ((ein.scalar_type(float), ein.scalar_type(int)), ein.scalar_type(PY[out])))
    ok = is_scalar(t) and is_scalar(u) and kind(t) == "f" and kind(u) == "i"
    return judge([t, u], lambda x, y: f(x, y), out + "0" if ok else None, also=(ValueError,) if t in REC or u in REC else ())


_SIGS = [s for n in range(4) for s in itertools.product("fib", repeat=n)]


@choice("ext_declared", "C17", ["".join(s) for s in _SIGS if len(s) < 3] + ["fif", "bii"], ["".join(s) for s in _SIGS], ("f", "i"))
def _(sig, args, out):
    """A declared signature admits the arguments of its kinds, in number and order, only."""
    import ein

    f = ein.ext(lambda *xs: xs[0], (tuple(ein.scalar_type(PY[k]) for k in sig), ein.scalar_type(PY[out])))
    return judge([k + "0" for k in args], lambda *xs: f(*xs), out + "0" if sig == args else None, also=(ValueError,))


@choice("ext_declared_vectors", "C17", *[("f0", "i0", "f1", "f2")] * 2, *[("f0", "i0", "f1", "f2", "i1", "Lf", "Li")] * 2, ("f1",))
def _(s, t, u, v, out):
    import ein

    f = ein.ext(lambda x, y: x, (tuple(ein.ndarray_type(int(k[1]), PY[k[0]]) for k in (s, t)), ein.ndarray_type(int(out[1]), PY[out[0]])))
    ok = all(a == b or (b[0] == "L" and a == b[1] + "0") for a, b in ((s, u), (t, v)))
    return judge([u, v], lambda x, y: f(x, y), out if ok else None, also=(ValueError,))


@choice("ext_undeclared", "C17", ["".join(s) for s in _SIGS if s], ("f", "i", "b"))
def _(args, out):
    import ein

    return judge([k + "0" for k in args], lambda *xs: ein.ext(lambda *ys: ys[0], ein.scalar_type(PY[out]))(*xs), out + "0")


@choice("wrap_values", "C12", ("str", "none", "list", "complex", "object", "cplx_array", "str_array", "f", "i", "b", "f_array", "i_array", "b_array", "i32", "f32"))
def _(n):
    import ein

    bad = {"str": "x", "none": None, "list": [1.0], "complex": 1j, "object": object(), "cplx_array": np.zeros(2, complex), "str_array": np.array(["a"])}
    good = {"f": (1.5, "f0"), "i": (3, "i0"), "b": (False, "b0"), "f_array": (np.zeros((2, 1)), "f2"), "i_array": (np.zeros(2, int), "i1"),
            "b_array": (np.zeros(2, bool), "b1"), "i32": (np.zeros(2, np.int32), "i1"), "f32": (np.zeros(2, np.float32), "f1")}
    if n in bad:
        return judge([], lambda: ein.wrap(bad[n]), None)
    return judge([], lambda: ein.wrap(good[n][0]), good[n][1])


@choice("project", "C12", ("tuple", "dict", "dataclass", "nested"), (0, 1))
def _(layout, which):
    import ein

    def rec(a, p):
        return {"tuple": lambda: (a, p), "dict": lambda: {"x": a, "y": p}, "dataclass": lambda: Point(a, p), "nested": lambda: ((a, p), [p])}[layout]()

    def pick(r):
        return {"tuple": lambda: r[which], "dict": lambda: r["xy"[which]], "dataclass": lambda: getattr(r, "xy"[which]),
                "nested": lambda: r[0][which]}[layout]()

    return judge(["f0", "i0"], lambda a, p: pick(ein.array(lambda k: rec(a, p), size=2)[0]), ["f0", "i0"][which])


# ------------------------------------------------------------------ C20
WRAPS = {
    "plain": lambda E, x, a: x,
    "arith": lambda E, x, a: x * x + 1,
    "array": lambda E, x, a: E.array(lambda k: a[k] + x.float()),
    "index": lambda E, x, a: a[x],
    "index_arr": lambda E, x, a: E.array(lambda k: a[k + x], size=2),
    "fold": lambda E, x, a: E.fold(0.0, lambda k, acc: acc + a[k] * x.float()),
    "fold_loop": lambda E, x, a: E.fold(0.0, lambda k, acc: acc * a[k] + x.float()),
    "count": lambda E, x, a: E.fold(0.0, lambda k, acc: acc + 1.0, count=x),
    "unused_branch": lambda E, x, a: E.where(E.wrap(True), a[0], x.float()),
    "reduce": lambda E, x, a: a.reduce(x.float(), lambda p, q: p + q),
    "record": lambda E, x, a: E.array(lambda k: (a[k], x))[0][1],
    "concat": lambda E, x, a: a.concat(E.array(lambda k: x.float(), size=1)),
    "zero_times": lambda E, x, a: E.array(lambda k: x.float() * 0.0, size=0),
    "zero_size": lambda E, x, a: E.array(lambda k: a[x], size=0).size(0) if False else E.array(lambda k: x, size=0),
}


def leak(which):
    """A scalar integer array depending on a symbol that is out of scope."""
    import ein

    box = []

    def keep(x, r):
        box.append(x)
        return r

    a = ein.wrap(np.array([1.0, 2.0, 3.0]))
    p = ein.wrap(np.array([1, 2, 3]))
    if which == "index":
        ein.array(lambda i: keep(i, a[i]))
    elif which == "inner_index":
        ein.array(lambda i: ein.array(lambda j: keep(j + i, a[j])), size=2)
    elif which == "index_read":
        ein.array(lambda i: keep(p[i], a[i]))
    elif which == "counter":
        ein.fold(0.0, lambda i, acc: keep(i, acc + a[i]))
    elif which == "acc":
        ein.fold(1, lambda i, acc: keep(acc, acc * p[i]))
    elif which == "monoid_left":
        p.reduce(0, lambda x, y: keep(x, x + y))
    elif which == "monoid_right":
        p.reduce(0, lambda x, y: keep(y, x + y))
    elif which == "argument":
        ein.with_varargs([ein.scalar_type(int)], lambda x: keep(x, x))
    elif which == "argument_vec":
        ein.with_varargs([ein.vector_type(int)], lambda x: keep(x[0], x[0]))
    else:
        ein.with_varargs([ein.vector_type(int)], lambda x: keep(x.size(), x[0]))
    return box[0]


LEAKS = ("index", "inner_index", "index_read", "counter", "acc", "monoid_left", "monoid_right", "argument", "argument_vec", "argument_size")


@choice("unbound", "C20", LEAKS, tuple(WRAPS), ("numpy", "torch", "jax", "naive"), ("none", "empty", "other"))
def _(which, how, backend, env):
    import ein

    from .einapi import E

    a = ein.wrap(_const(backend, [1.0, 2.0, 3.0]))
    x = leak(which)
    try:
        r = WRAPS[how](E, x, a)
    except TypeError:
        return None  # refused when it was built
    e = None
    if env == "empty":
        e = {}
    elif env == "other":
        (v,), _ = ein.with_varargs([ein.scalar_type(int)], lambda y: y)
        e = {v: _const(backend, 1)}
    try:
        got = r.eval(env=e, backend=backend)
    except Exception:  # noqa: BLE001
        return None
    return f"evaluated to {got!r}"


def _const(backend, v):
    if backend == "torch":
        import torch

        return torch.tensor(np.array(v))
    if backend == "jax":
        import jax.numpy as jnp

        v = np.array(v)
        return jnp.asarray(v, dtype=v.dtype)
    return np.array(v)


@choice("partly_bound", "C20", (0, 1, 2, 3), (0, 1, 2, 3, 4, 5, 6, 7), ("numpy", "naive", "torch"))
def _(shape, bound, backend):
    """Three arguments, any subset of them bound: a value exactly when all the used ones are."""
    import ein

    progs = [
        (lambda x, y, z: x + y * z, {0, 1, 2}),
        (lambda x, y, z: ein.array(lambda i: x * i.float() + z, size=2), {0, 2}),
        (lambda x, y, z: ein.fold(x, lambda i, acc: acc * y, count=2), {0, 1}),
        (lambda x, y, z: ein.array(lambda i, j: ein.array(lambda k: y, size=1)[0], size=(1, 2)), {1}),
    ]
    fn, used = progs[shape]
    box = []
    vs, expr = ein.with_varargs([ein.scalar_type(float)] * 3, lambda *a: box.append(fn(*a)) or box[0])
    env = {v: _const(backend, 1.5 + n) for n, v in enumerate(vs) if bound >> n & 1}
    have = {n for n in range(3) if bound >> n & 1}
    try:
        box[0].eval(env=env, backend=backend)
        ok = True
    except ValueError:
        ok = False
    except Exception as e:  # noqa: BLE001
        return None if not used <= have else f"raised {type(e).__name__}"
    if ok and not used <= have:
        return f"evaluated with {have} bound although {used} are used"
    if not ok and used <= have:
        return f"refused with {have} bound although only {used} are used"
    return None


JAGGED = {
    "index": lambda E, i, p, a: i,
    "shifted": lambda E, i, p, a: i + 1,
    "read": lambda E, i, p, a: p[i],
    "where": lambda E, i, p, a: E.where(i > 0, 2, 3),
    "minmax": lambda E, i, p, a: i.min(2).max(1),
    "mod": lambda E, i, p, a: i % 2 + 1,
    "fold": lambda E, i, p, a: E.fold(1, lambda k, acc: acc + p[i], count=2),
    "folded_init": lambda E, i, p, a: E.fold(i, lambda k, acc: acc + 1, count=2),
    "let": lambda E, i, p, a: E.let(i + 1, lambda v: v * 2),
    "size_of": lambda E, i, p, a: E.array(lambda k: a[k], size=p[i]).size(),
    "read2": lambda E, i, p, a: p[p[i]],
    "zero_times": lambda E, i, p, a: i * 0 + 2,
    "record": lambda E, i, p, a: E.array(lambda k: (p[i], k), size=2)[0][0],
    "reduce": lambda E, i, p, a: E.array(lambda k: p[i] + k, size=2).reduce(0, lambda x, y: x + y),
}


@choice("jagged", "C20", tuple(JAGGED), ("inner", "inner2", "outer_of_two", "nested3", "in_fold", "in_record"))
def _(how, where):
    import ein

    from .einapi import E

    p = ein.wrap(np.array([1, 2, 3]))
    a = ein.wrap(np.array([1.0, 2.0, 3.0]))
    s = lambda i: JAGGED[how](E, i, p, a)  # noqa: E731
    progs = {
        "inner": lambda: ein.array(lambda i: ein.array(lambda j: a[j], size=s(i)), size=3),
        "inner2": lambda: ein.array(lambda i: ein.array(lambda j, k: a[j] + a[k], size=(2, s(i))), size=3),
        "outer_of_two": lambda: ein.array(lambda i: ein.array(lambda j, k: a[j] + a[k], size=(s(i), 2)), size=3),
        "nested3": lambda: ein.array(lambda i, j: ein.array(lambda k: a[k], size=s(j)), size=(3, 3)),
        "in_fold": lambda: ein.array(lambda i: ein.fold(0.0, lambda k, acc: acc + ein.array(lambda j: a[j], size=s(i))[k], count=2), size=3),
        "in_record": lambda: ein.array(lambda i: (a[i], ein.array(lambda j: a[j], size=s(i)))),
    }
    try:
        progs[where]()
    except TypeError:
        return None
    except Exception as e:  # noqa: BLE001
        return f"raised {type(e).__name__} instead of TypeError"
    return "a comprehension with a size depending on an index was built"


@choice("jagged_inferred", "C20", tuple(JAGGED), (0, 1, 2))
def _(how, form):
    """The size is inferred from an array whose own size depends on an index."""
    import ein

    from .einapi import E

    p = ein.wrap(np.array([1, 2, 3]))
    a = ein.wrap(np.array([1.0, 2.0, 3.0]))

    def sub(i):
        return ein.array(lambda k: a[k], size=JAGGED[how](E, i, p, a))

    progs = [
        lambda: ein.array(lambda i: ein.array(lambda j: sub(i)[j]), size=3),
        lambda: ein.array(lambda i, j: sub(i)[j], size=None),
        lambda: ein.array(lambda i: ein.fold_sum(lambda j: sub(i)[j]) if hasattr(ein, "fold_sum") else ein.fold(0.0, lambda j, acc: acc + sub(i)[j]), size=3),
    ]
    try:
        progs[form]()
    except (TypeError, ValueError):
        return None
    except Exception as e:  # noqa: BLE001
        return f"raised {type(e).__name__}"
    return "built"


UNSIZED = {
    "unused": lambda E, i, a, b, q: 1.0,
    "arith": lambda E, i, a, b, q: i.float() * 2.0,
    "shifted": lambda E, i, a, b, q: a[i + 1],
    "clipped": lambda E, i, a, b, q: a[i.min(1)],
    "scaled": lambda E, i, a, b, q: a[i * 2],
    "negated": lambda E, i, a, b, q: a[-i],
    "through": lambda E, i, a, b, q: a[q[0] + i],
    "shadowed": lambda E, i, a, b, q: E.array(lambda k: a[k])[i - 1],
    "second_of_arith": lambda E, i, a, b, q: b[0, i + 0],
    "compare": lambda E, i, a, b, q: E.where(i < 2, a[0], a[1]),
}


@choice("unsized", "C20", tuple(UNSIZED), ("array", "array2", "array2b", "fold", "nested", "reduce"))
def _(how, where):
    import ein

    from .einapi import E

    a = ein.wrap(np.array([1.0, 2.0, 3.0]))
    b = ein.wrap(np.array([[1.0, 2.0, 3.0]]))
    q = ein.wrap(np.array([0, 1]))
    f = lambda i: ein.wrap(UNSIZED[how](E, i, a, b, q))  # noqa: E731
    progs = {
        "array": lambda: ein.array(lambda i: f(i)),
        "array2": lambda: ein.array(lambda i, j: a[i] + f(j)),
        "array2b": lambda: ein.array(lambda i, j: f(i) * a[j]),
        "fold": lambda: ein.fold(0.0, lambda i, acc: acc + f(i)),
        "nested": lambda: ein.array(lambda i: ein.array(lambda j: f(j)), size=2),
        "reduce": lambda: ein.array(lambda i: f(i)).reduce(0.0, lambda x, y: x + y),
    }
    try:
        progs[where]()
    except ValueError:
        return None
    except Exception as e:  # noqa: BLE001
        return f"raised {type(e).__name__} instead of ValueError"
    return "a comprehension without a size was built"


@choice("bad_size", "C20", ("float", "bool", "vector", "matrix", "float_var", "read_float", "compare", "none_in_tuple", "str"), ("array", "array2", "fold"))
def _(s, where):
    import ein

    a = ein.wrap(np.array([1.0, 2.0, 3.0]))
    v = {"float": 2.0, "bool": True, "vector": np.array([1, 2]), "matrix": np.zeros((2, 2), int), "float_var": ein.wrap(2.0), "read_float": a[0],
         "compare": a.size() > 1, "none_in_tuple": None, "str": "3"}[s]
    if v is None and where != "array2":
        return None
    progs = {
        "array": lambda: ein.array(lambda i: a[i], size=v),
        "array2": lambda: ein.array(lambda i, j: a[i] + a[j], size=(2, v)),
        "fold": lambda: ein.fold(0.0, lambda i, acc: acc + a[i], count=v),
    }
    try:
        progs[where]()
    except TypeError:
        return None
    except Exception as e:  # noqa: BLE001
        return f"raised {type(e).__name__} instead of TypeError"
    return "accepted"


def _subject(n):
    import ein

    a = ein.wrap(np.array([1.0, 2.0, 3.0]))
    m = ein.wrap(np.array([[True], [False]]))
    return {"scalar": lambda: ein.wrap(1.0), "bool": lambda: ein.wrap(True), "compare": lambda: a[0] < a[1], "vec": lambda: a, "mat": lambda: m,
            "comprehension": lambda: ein.array(lambda i: a[i] + 1.0), "records": lambda: ein.array(lambda i: (a[i], i)), "empty": lambda: ein.wrap(np.zeros(0)),
            "size": lambda: a.size(), "equal": lambda: a[0] == a[0], "fold": lambda: ein.fold(0.0, lambda i, acc: acc + a[i])}[n]()


def _unpack(x):
    p, q, r = x
    return p


@choice("truth_and_iteration", "C20",
        ("scalar", "bool", "compare", "vec", "mat", "comprehension", "records", "empty", "size", "equal", "fold"),
        ("if", "not", "and", "or", "while", "bool", "all", "for", "list", "unpack", "star", "iter", "sum", "in", "chain_cmp", "assert"))
def _(subject, use):
    x = _subject(subject)

    def loop():
        while x:
            return 1

    def each():
        for _ in x:
            return 1
        return 0

    uses = {
        "if": lambda: 1 if x else 2, "not": lambda: not x, "and": lambda: x and 1, "or": lambda: x or 1, "while": loop, "bool": lambda: bool(x),
        "all": lambda: all([x]), "for": each, "list": lambda: list(x), "unpack": lambda: _unpack(x), "star": lambda: max(*x), "iter": lambda: iter(x),
        "sum": lambda: sum(x), "in": lambda: 1.0 in x, "chain_cmp": lambda: 0 if subject in ("vec", "mat", "comprehension", "records", "empty") and (x or True) else 0 < x < 2,
        "assert": lambda: 1 if not not x else 0,
    }
    try:
        r = uses[use]()
    except TypeError:
        return None
    except Exception as e:  # noqa: BLE001
        return f"raised {type(e).__name__} instead of TypeError"
    return f"gave {r!r}"


# ------------------------------------------------------------------ structures
@dataclasses.dataclass
class Other:
    x: object
    y: object


@dataclasses.dataclass
class Swapped:
    y: object
    x: object


# name -> (construct from two scalars, fields by name or position as a canonical description)
MAKE = {
    "tuple": (lambda a, b: (a, b), ("p", 0, 1)), "list": (lambda a, b: [a, b], ("p", 0, 1)),
    "dict": (lambda a, b: {"x": a, "y": b}, ("n", "x", "y")), "dict_yx": (lambda a, b: {"y": b, "x": a}, ("n", "y", "x")),
    "dict_uv": (lambda a, b: {"u": a, "v": b}, ("n", "u", "v")), "dict1": (lambda a, b: {"x": a}, ("n", "x")),
    "dict3": (lambda a, b: {"x": a, "y": b, "z": a}, ("n", "x", "y", "z")),
    "point": (lambda a, b: Point(a, b), ("d", "Point")), "other": (lambda a, b: Other(a, b), ("d", "Other")),
    "swapped": (lambda a, b: Swapped(x=a, y=b), ("d", "Swapped")),
    "nested": (lambda a, b: ((a, b),), ("p", ("p", 0, 1))), "triple": (lambda a, b: (a, b, a), ("p", 0, 1, 2)), "single": (lambda a, b: (a,), ("p", 0)),
    "pair_left": (lambda a, b: ((a, b), b), ("p", ("p", 0, 1), 2)), "pair_right": (lambda a, b: (a, (b, b)), ("p", 0, ("p", 1, 2))), "scalar": (lambda a, b: a, ("s",)),
}
BY_NAME = ("dict", "dict_yx", "point", "other", "swapped", "dict3", "dict1")


def _field_x(r):
    return r["x"] if isinstance(r, dict) else r.x


@choice("structures", "C12", ("fold", "fold_vec", "reduce", "reduce_init", "concat", "where"), tuple(MAKE), tuple(MAKE))
def _(construct, s, t):
    """Structures that differ are refused; where a construct matches fields by name instead, it must match them by name."""
    import ein

    a, b = ein.wrap(np.array([1.0, 2.0])), ein.wrap(np.array([10.0, 20.0]))
    (f, ds), (g, dt) = MAKE[s], MAKE[t]
    progs = {
        "fold": lambda: ein.fold(f(a[0], b[0]), lambda k, acc: g(a[1], b[1]), count=1),
        "fold_vec": lambda: ein.fold(ein.array(lambda i: f(a[i], b[i])), lambda k, acc: ein.array(lambda i: g(a[i], b[i])), count=1)[1],
        "reduce": lambda: ein.array(lambda i: f(a[i], b[i])).reduce(f(0.0, 0.0), lambda p, q: g(a[1], b[1])),
        "reduce_init": lambda: ein.array(lambda i: f(a[i], b[i])).reduce(g(0.0, 0.0), lambda p, q: f(a[1], b[1])),
        "concat": lambda: ein.array(lambda i: f(a[i], b[i])).concat(ein.array(lambda i: g(a[i], b[i])))[3],
        "where": lambda: ein.where(a[0] > 5.0, f(a[0], b[0]), g(a[1], b[1])),
    }
    try:
        r = progs[construct]()
    except (TypeError, ValueError, KeyError, AttributeError) as e:
        return None if ds != dt else f"refused ({type(e).__name__}: {str(e)[:80]})"
    if ds != dt:
        if s not in BY_NAME or t not in BY_NAME:
            return "accepted"
        same = {n for n in ("x", "y", "z") if n in (ds if ds[0] == "n" else ("x", "y"))} == {n for n in ("x", "y", "z") if n in (dt if dt[0] == "n" else ("x", "y"))}
        if not same:
            return "accepted though the fields differ"
    if s in BY_NAME:
        got = float(_field_x(r).eval())
        return None if got == 2.0 else f"the field x of the result is {got}, expected 2.0"
    return None


# ------------------------------------------------------------------ declared signatures of functions
SIGT = ("f0", "i0", "f1", "i1", "b1", "f2")


def _arg(t, backend):
    v = np.ones((2,) * int(t[1]), dtype=PY[t[0]])
    if backend == "torch":
        import torch

        return torch.from_numpy(v)
    return v


@choice("typed_function", "C12", SIGT[1:5], SIGT[:4], SIGT, SIGT, ("numpy", "torch"))
def _(s, t, u, v, backend):
    """A function with a declared signature takes arguments of those kinds and ranks, in that order, only."""
    import ein

    fun = typed_function(*(ein.ndarray_type(int(x[1]), PY[x[0]]) for x in (s, t)))(lambda p, q: ein.wrap(1.0))
    try:
        r = getattr(fun, backend)(_arg(u, backend), _arg(v, backend))
    except TypeError as e:
        return None if (s, t) != (u, v) else f"refused: {e}"
    return None if (s, t) == (u, v) and float(r) == 1.0 else "accepted" if (s, t) != (u, v) else f"gave {r}"


@choice("typed_arity", "C12", ((), ("f0",), ("f1",), ("f1", "i0"), ("f1", "f1", "b0")), ((), ("f0",), ("f1",), ("f1", "i0"), ("f1", "f1"), ("f1", "f1", "b0"), ("f1", "f1", "b0", "f0")))
def _(sig, args):
    import ein

    fun = typed_function(*(ein.ndarray_type(int(x[1]), PY[x[0]]) for x in sig))(lambda *ps: ein.wrap(1.0))
    try:
        fun.numpy(*(_arg(t, "numpy") for t in args))
    except TypeError as e:
        return None if sig != args else f"refused: {e}"
    return None if sig == args else "accepted"


# ------------------------------------------------------------------ slices
SLICES = {"from": slice(1, None), "to": slice(None, 2), "step": slice(None, None, 2), "both": slice(1, 3), "neg": slice(-2, None), "rev": slice(None, None, -1),
          "zero": slice(0, None), "one_step": slice(None, None, 1), "empty": slice(2, 2), "to_zero": slice(None, 0)}


@choice("slices", "C20", tuple(SLICES), ("only", "first", "second", "middle", "after_index", "inside"))
def _(sl, where):
    """Only whole-axis slices are supported: any other slice is refused (or means what it means for NumPy)."""
    import ein

    s = SLICES[sl]
    v, m, c = np.arange(4.0), np.arange(12.0).reshape(3, 4), np.arange(24.0).reshape(2, 4, 3)
    pick = {
        "only": (v, (s,)), "first": (m, (s, 1)), "second": (m, (slice(None), s)), "middle": (c, (slice(None), s, slice(None))), "after_index": (m, (1, s)), "inside": (c, (0, s, 1)),
    }
    arr, at = pick[where]
    try:
        got = ein.wrap(arr)[at].eval()
    except (ValueError, TypeError, NotImplementedError, IndexError):
        return None
    except Exception as e:  # noqa: BLE001
        return f"raised {type(e).__name__} instead of ValueError"
    want = arr[at]
    return None if np.shape(got) == want.shape and np.array_equal(got, want) else f"silently gave {np.asarray(got).tolist()}"
