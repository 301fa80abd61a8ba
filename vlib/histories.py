"""Call histories for C15: functions over the public API and the argument variants they are called with."""
from __future__ import annotations

from .corpus_base import PROGS, Prog
from .specs import history as H
from .specs import variant as V

T = "torch"

H("matmul", lambda E, a, b: E.array(lambda i, j: E.fold_sum(lambda k: a[i, k] * b[k, j])),
  [V("f:2x2 f:2x2"), V("f:1x3 f:3x2"), V("f:2x0 f:0x2"), V("f:3x2 f:2x1")])
H("add_kinds", lambda E, a, b: E.array(lambda i: a[i] + b[i]),
  [V("f:2 f:2"), V("i:2 i:2"), V("f:3 f:3"), V("i:1 i:1"), V("f:0 f:0")])
H("concat_ranks", lambda E, a, b: a.concat(b),
  [V("f:2 f:1"), V("f:1x2 f:2x2"), V("i:2 i:2"), V("b:1 b:2"), V("f:0 f:1")])
H("first_ranks", lambda E, a: E.array(lambda i: a[0], size=2),
  [V("f:2"), V("f:2x2"), V("i:3"), V("b:2x1"), V("f:1x2x2")])
H("scale", lambda E, a, x: E.array(lambda i: a[i] * x - x), [V("f:2 f:"), V("f:3 f:"), V("i:2 i:"), V("f:0 f:")])
H("temporaries", lambda E, a, b: E.array(lambda i: (a[i] + b[i]) * 2.0 + (a[i] - b[i]) * (a[i] + b[i])),
  [V("f:2 f:2"), V("f:1 f:1"), V("f:3 f:3")])
H("const_captured", lambda E, a: (lambda c: E.array(lambda i: a[i] + c[i] * c[i], size=2))(E.wrap(_C)),
  [V("f:2"), V("f:1"), V("f:3")])
H("range_tmp", lambda E, a: E.array(lambda i: (i.float() + a[i]) * 2.0 + i.float()), [V("f:2"), V("f:3"), V("f:1")])
H("shift", lambda E, a, s: E.array(lambda i: a[i + 1] - a[i - 1] + s, size=a.size()), [V("f:2 f:"), V("f:3 f:"), V("f:1 f:")])
H("shift_dyn", lambda E, a: E.array(lambda i: a[i + a.size() - 2], size=a.size() + 1), [V("f:2"), V("f:3"), V("i:4"), V("b:1")])
H("fold_loop", lambda E, a: E.fold(1.0, lambda i, acc: acc * a[i] + 1.0), [V("f:2"), V("f:3"), V("f:0")])
H("fold_arr", lambda E, a, b: E.fold(a, lambda i, acc: E.array(lambda j: acc[j] * b[i] + a[j])), [V("f:2 f:2"), V("f:1 f:2"), V("f:2 f:0")])
H("reduce", lambda E, a: a.reduce(0.0, lambda x, y: x + y), [V("f:2"), V("f:3"), V("f:4"), V("f:0"), V("f:1")])
H("reduce_min", lambda E, a: E.reduce_min(lambda i: a[i]), [V("f:2"), V("f:3"), V("f:0")])
H("argmin", lambda E, a: E.fold_argmin(lambda i: a[i]), [V("f:2"), V("f:1"), V("f:0")])
H("let_shared", lambda E, a: (lambda s: E.array(lambda i: s * a[i] + s))(E.fold_sum(lambda i: a[i])), [V("f:2"), V("f:3"), V("f:1")])
H("sizes_differ", lambda E, a, b: E.array(lambda i: a[i] + b[i], size=a.size()), [V("f:2 f:2"), V("f:2 f:3"), V("f:3 f:2"), V("f:1 f:2")])
H("broadcast1", lambda E, a, b: E.array(lambda i, j: a[i, j] + b[j, i]), [V("f:1x2 f:2x1"), V("f:2x2 f:2x2"), V("f:2x1 f:1x2")])
H("record", lambda E, a, b: E.array(lambda i: {"x": a[i], "y": b[i]})[0]["y"], [V("f:2 f:2"), V("i:2 f:2"), V("f:1 b:1"), V("f:2 i:2")])
H("rank_size", lambda E, a: a.size(), [V("f:2"), V("f:3x2"), V("i:1"), V("b:0")])
H("size1", lambda E, a: E.array(lambda i: a.size(1) + i, size=2), [V("f:2x3"), V("f:3x2"), V("i:1x1x2"), V("f:2x0")])
H("scalar", lambda E, x, y: x * y + x, [V("f: f:"), V("i: i:")])
H("where", lambda E, c, x: E.array(lambda i: E.where(c[i], x[i], -x[i])), [V("b:2 f:2"), V("b:2 i:2"), V("b:1 f:1")])
H("typed", lambda E, a, b: E.array(lambda i: a[i] - b), [V("f:2 f:"), V("f:1 f:"), V("i:2 f:", ok=False), V("f:2x2 f:", ok=False), V("f:2 i:", ok=False)],
  types=[("f", 1), ("f", 0)])
H("typed_int", lambda E, a: E.array(lambda i: a[i] * 2), [V("i:2"), V("b:2", ok=False), V("f:2", ok=False), V("i:3"), V("i:", ok=False)], types=[("i", 1)])
H("torch_mix", lambda E, a, b: E.array(lambda i: a[i] - b[i] * 2.0), [V("f:2 f:2"), V("f:2 f:2", T), V("f:3 f:3"), V("f:1 f:1", T)])
H("torch_kinds", lambda E, a, b: E.array(lambda i: a[i] - b[i]), [V("f:2 f:2", T), V("i:2 i:2", T), V("i:2 i:2"), V("f:3 f:3", T)])
H("torch_ranks", lambda E, a, b: a.concat(b), [V("f:2 f:1", T), V("f:1x2 f:2x2", T), V("i:1 i:2", T), V("f:2 f:2")])
H("torch_fold", lambda E, a: E.fold(0.0, lambda i, acc: acc * 2.0 + a[i]), [V("f:2", T), V("f:3", T), V("f:2"), V("f:0", T)])

import numpy as _np  # noqa: E402

_C = _np.array([1.5, -2.0])


# ------------------------------------------------------------------ kinds and ranks seen by the program
J = "jax"


def _one(E, x):
    return {"f": 1.0, "i": 1, "b": True}[E.kind(x)]


def _total(E, x, acc=None):
    if E.rank(x) == 0:
        return x
    return E.fold({"f": 0.0, "i": 0}[E.kind(x)], lambda i, acc: acc + _total(E, x[i]))


H("literal_kinds", lambda E, a: E.array(lambda i: a[i] * 2 + 1 if E.kind(a) == "i" else a[i] * 2.0 + 0.5), [V("f:2"), V("i:2"), V("f:3"), V("i:1")])
H("literal_kinds3", lambda E, a, b: E.array(lambda i: E.where(a[i] if E.kind(a) == "b" else a[i] > (0 if E.kind(a) == "i" else 0.5), b[i], b[0])),
  [V("f:2 f:2"), V("i:2 f:2"), V("b:2 i:2"), V("b:2 f:2"), V("f:2 i:2")])
H("div_kinds", lambda E, a, b: E.array(lambda i: a[i] / (b[i] * b[i] + 1.0)), [V("f:2 f:2"), V("i:2 f:2", ok=False), V("f:2 i:2", ok=False), V("f:1 f:1"), V("b:2 f:2", ok=False)])
H("float_kinds", lambda E, a: E.array(lambda i: a[i].float()), [V("i:2"), V("f:2", ok=False), V("b:2", ok=False), V("i:3")])
H("index_kinds", lambda E, a, j: a[j], [V("f:2 i:"), V("f:2 f:", ok=False), V("f:2 b:", ok=False), V("i:3 i:"), V("f:2x2 i:")])
H("mixed_kinds", lambda E, a, b: E.array(lambda i: a[i] - b[i]), [V("f:2 f:2"), V("f:2 i:2", ok=False), V("i:2 f:2", ok=False), V("i:2 i:2")])
H("logic_kinds", lambda E, a, b: E.array(lambda i: a[i] & ~b[i]), [V("b:2 b:2"), V("i:2 i:2", ok=False), V("b:1 b:1"), V("f:2 b:2", ok=False)])
H("total_ranks", lambda E, a: _total(E, a), [V("f:2"), V("f:2x2"), V("f:"), V("i:3"), V("i:1x2")])
H("wrong_ranks", lambda E, a, b: E.array(lambda i: a[i, 0] * b[i]), [V("f:2x2 f:2"), V("f:2x1 f:2"), V("f:1x3 f:1"), V("f:2x2x1 f:2", ok=False)])
H("jax_mix", lambda E, a, b: E.array(lambda i: a[i] - b[i] * 2.0), [V("f:2 f:2"), V("f:2 f:2", J), V("f:3 f:3", J), V("f:2 f:2", T)])
H("jax_kinds", lambda E, a: E.array(lambda i: a[i] + _one(E, a)), [V("f:2", J), V("i:2", J), V("f:2"), V("i:2"), V("f:3", J)])
H("jax_fold", lambda E, a: E.fold(0.0, lambda i, acc: acc * 2.0 + a[i]), [V("f:2", J), V("f:3", J), V("f:2"), V("f:2", T)])
H("jax_args", lambda E, a, b, c: E.array(lambda i: a[i] - b * c[i], size=a.size()), [V("f:2 f: f:2", J), V("f:2 f: f:3", J), V("f:1 f: f:1", J)])
H("twins", [lambda E, a: E.array(lambda i: a[i] * 2.0), lambda E, a: E.array(lambda i: a[i] * 3.0)],
  [V("f:2"), V("f:2", which=1), V("f:3"), V("f:3", which=1), V("f:2", T), V("f:2", T, which=1)])


def _affine(k):
    def affine(E, a):
        return E.array(lambda i: a[i] * k + 1.0)

    return affine


H("closures", [_affine(2.0), _affine(3.0), _affine(-1.0)], [V("f:2"), V("f:2", which=1), V("f:2", which=2), V("f:1", which=1)])
H("order_args", lambda E, a, b: E.array(lambda i, j: a[i] - b[j]), [V("f:2 f:1"), V("f:1 f:2"), V("f:2 f:2"), V("i:2 i:1")])
H("unused_arg", lambda E, a, b: E.array(lambda i: a[i] + a[0]), [V("f:2 f:3"), V("f:2 i:2"), V("f:1 f:2x2"), V("i:2 b:1")])
H("bool_int", lambda E, a, b: E.array(lambda i: E.where(a[i] == b[i], a[i], b[0])), [V("f:2 f:2"), V("i:2 i:2"), V("b:2 b:2", ok=False)])
H("scalar_vec", lambda E, a: a if E.rank(a) == 0 else a[0], [V("f:"), V("f:2"), V("i:"), V("i:2x2")])
H("size_kinds", lambda E, a, b: E.array(lambda i: a[i + b.size(E.rank(b) - 1)], size=3), [V("f:3 f:1"), V("f:3 f:1x2"), V("f:2 f:0"), V("i:3 f:2x1")])

# ------------------------------------------------------------------ results kept by the caller, argument arrays overwritten by the caller
for _n, _f, _vs in [
    ("axpy", lambda E, a, x: E.array(lambda i: a[i] * x + a[0]), "f:2 f:|f:3 f:|i:2 i:"),
    ("prefix", lambda E, a: E.array(lambda i: E.fold(0.0, lambda k, acc: acc + E.where(k <= i, a[k], 0.0)), size=a.size()), "f:2|f:3|f:1"),
    ("shifted", lambda E, a: E.array(lambda i: a[i - 1] + a[i]), "f:2|f:3|i:2"),
    ("loop", lambda E, a: E.fold(a, lambda i, acc: E.array(lambda j: acc[j] * a[i] + 1.0)), "f:2|f:1|f:0"),
    ("sum", lambda E, a, b: E.fold_sum(lambda i: a[i] * b[i]), "f:2 f:2|f:3 f:3|f:0 f:0"),
    ("halves", lambda E, a: a.concat(E.array(lambda i: a[i] * 0.5)), "f:2|f:1|f:3"),
    ("same", lambda E, a: a, "f:2|i:2|f:1x2"),
    ("rows", lambda E, a: E.array(lambda i: a[i, 0] - a[0, i], size=2), "f:2x2|f:3x2|i:2x2"),
    ("least", lambda E, a: E.reduce_min(lambda i: a[i]), "f:2|f:3|f:1"),
    ("tree", lambda E, a: a.reduce(1.0, lambda x, y: x * y), "f:2|f:3|f:5"),
    ("constant", lambda E, a: E.array(lambda i: i.float() * 2.0, size=a.size()), "f:2|f:3|i:2"),
    ("ones", lambda E, a: E.array(lambda i: 1.0, size=a.size()), "f:2|f:3|i:2"),
    ("captured", lambda E, a: E.array(lambda i: E.wrap(_C)[i] + a[i]), "f:2"),
    ("capt_only", lambda E, a: E.wrap(_C), "f:2|f:1"),
]:
    _v = [V(x) for x in _vs.split("|")]
    H(f"keep_{_n}", _f, _v + [V(_vs.split("|")[0], T)])
    H(f"reuse_{_n}", _f, _v, reuse=True)
H("keep_jax", lambda E, a: E.array(lambda i: a[i] * 2.0 - a[0]), [V("f:2", J), V("f:3", J), V("f:2"), V("f:2", T)])
H("long", lambda E, a: E.array(lambda i: a[i] * a[i] + a[0]), [V("f:2"), V("i:2"), V("f:3")], length=5)
H("long_torch", lambda E, a: E.array(lambda i: a[i] * a[i] + a[0]), [V("f:2", T), V("f:2"), V("i:2", T)], length=5)
H("long_typed", lambda E, a: E.array(lambda i: a[i] - a[0]), [V("f:2"), V("i:2", ok=False), V("f:3")], length=5, types=[("f", 1)])
H("same_arg_sizes", lambda E, a, b: E.array(lambda i, j: a[i] * b[j]), [V("f:2 f:2"), V("f:1 f:1"), V("f:2 f:1"), V("f:0 f:2")], length=4)
H("ext_calls", lambda E, a: E.array(lambda i: E.where(a[i] > 0.0, a[i], -a[i])), [V("f:2"), V("f:1"), V("f:2", T), V("f:2", J)], length=4)
H("stored_scalars", lambda E, x, y: E.array(lambda i: x - y * i.float(), size=3), [V("f: f:"), V("f: f:", T), V("f: f:", J)], length=4)
H("dyn_sizes", lambda E, a: E.array(lambda i: i * 2, size=a.size() + 1), [V("f:2"), V("f:0"), V("i:2"), V("f:3")], length=4)
