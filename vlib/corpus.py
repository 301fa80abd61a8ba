"""Hand-written corpus: programs over the public API, each run for all element values (symbolically).

Tags name the property whose check owns the program on the NumPy backend; the checks of the other backends
and of the cross-cutting properties use the whole corpus.
"""
from __future__ import annotations

import dataclasses
import itertools

import numpy as np

from .corpus_base import prog as P


def owns(*names):
    return " ".join(names)


# ============================================================ C01: comprehensions
for perm in itertools.permutations(range(3)):
    nm = "".join("ijk"[x] for x in perm)
    P(f"perm3_{nm}", "a:f[p,q,r]", "p=2 q=3 r=4", "C01",
      lambda E, a, perm=perm: E.array(lambda i, j, k: a[tuple([i, j, k][x] for x in perm)]))
    P(f"perm3_add_{nm}", "a:f[p,q,r];b:f[q,p]", "p=2 q=3 r=2", "C01",
      lambda E, a, b, perm=perm: E.array(lambda x, y, z: (lambda t: a[t[0], t[1], t[2]] - b[t[1], t[0]])(
          [[x, y, z][perm.index(w)] for w in range(3)]), size=tuple([2, 3, 2][x] for x in perm)))
for perm in [(3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1), (0, 3, 2, 1), (3, 0, 1, 2)]:
    P("perm4_" + "".join(map(str, perm)), "a:f[p,q,r,s]", "p=2 q=3 r=1 s=2", "C01",
      lambda E, a, perm=perm: E.array(lambda i, j, k, l: a[tuple([i, j, k, l][x] for x in perm)]))

P("id1", "a:f[n]", "n=3 | n=0 | n=1", "C01 C09", lambda E, a: E.array(lambda i: a[i]))
P("id2", "a:f[n,m]", "n=2 m=3 | n=0 m=2 | n=2 m=0", "C01 C09", lambda E, a: E.array(lambda i, j: a[i, j]))
P("transpose", "a:f[n,m]", "n=2 m=3 | n=3 m=1 | n=0 m=2 | n=2 m=0", "C01 C09", lambda E, a: E.array(lambda i, j: a[j, i]))
P("tr_int", "a:i[n,m]", "n=2 m=3", "C01", lambda E, a: E.array(lambda i, j: a[j, i] * 2 - i))
P("tr_bool", "a:b[n,m]", "n=2 m=3", "C01", lambda E, a: E.array(lambda i, j: ~a[j, i]))
P("diag", "a:f[n,n]", "n=3 | n=1 | n=0", "C01 C02", lambda E, a: E.array(lambda i: a[i, i]))
P("diag_rect", "a:f[n,m]", "n=3 m=2 | n=2 m=3", "C02", lambda E, a: E.array(lambda i: a[i, i], size=3))
P("diag3", "a:f[n,n,n]", "n=2", "C01", lambda E, a: E.array(lambda i: a[i, i, i]))
P("diag3_part", "a:f[n,m,n]", "n=2 m=3", "C01", lambda E, a: E.array(lambda i, j: a[i, j, i] + a[j, 0, i], size=(2, 3)))
P("diag3_ext", "a:f[n,n,m]", "n=2 m=3", "C01", lambda E, a: E.array(lambda j, i: a[i, i, j]))
P("outer", "a:f[n];b:f[m]", "n=2 m=3 | n=0 m=2 | n=2 m=0", "C01", lambda E, a, b: E.array(lambda i, j: a[i] * b[j]))
P("outer_rev", "a:f[n];b:f[m]", "n=2 m=3", "C01", lambda E, a, b: E.array(lambda j, i: a[i] - b[j]))
P("outer3", "a:f[n];b:f[m];c:f[k]", "n=2 m=3 k=2", "C01", lambda E, a, b, c: E.array(lambda i, j, k: (a[i] - b[j]) * c[k]))
P("outer3_mixed", "a:f[n];b:f[m];c:f[k]", "n=2 m=3 k=2", "C01", lambda E, a, b, c: E.array(lambda k, i, j: a[i] - b[j] * c[k] - a[i] * c[k]))
P("bcast_sub", "a:f[n,m];b:f[m]", "n=2 m=3", "C01", lambda E, a, b: E.array(lambda i, j: a[i, j] - b[j]))
P("bcast_sub_t", "a:f[n,m];b:f[n]", "n=2 m=3 | n=3 m=3", "C01", lambda E, a, b: E.array(lambda i, j: b[i] - a[i, j]))
P("bcast_sub_tt", "a:f[n,m];b:f[n]", "n=2 m=3 | n=2 m=2", "C01", lambda E, a, b: E.array(lambda j, i: b[i] - a[i, j]))
P("bcast_mid", "a:f[n,m,k];b:f[m]", "n=2 m=3 k=2 | n=2 m=2 k=2", "C01", lambda E, a, b: E.array(lambda i, j, k: a[i, j, k] - b[j]))
P("bcast_pair", "a:f[n,k];b:f[m,k];c:f[n,m]", "n=2 m=3 k=2 | n=2 m=2 k=2", "C01", lambda E, a, b, c: E.array(lambda i, j, k: a[i, k] * c[i, j] - b[j, k]))
P("bcast_pair_perm", "a:f[n,k];b:f[m,k];c:f[n,m]", "n=2 m=3 k=2 | n=2 m=2 k=2", "C01", lambda E, a, b, c: E.array(lambda k, j, i: a[i, k] * c[i, j] - b[j, k]))
P("unused_inner", "a:f[n]", "n=3 | n=0", "C01 C09", lambda E, a: E.array(lambda i, j: a[i], size=(3, 2)))
P("unused_outer", "a:f[n]", "n=3", "C01 C09", lambda E, a: E.array(lambda i, j: a[j], size=(2, 3)))
P("unused_mid", "a:f[n,m]", "n=2 m=3", "C01 C09", lambda E, a: E.array(lambda i, j, k: a[i, k], size=(2, 4, 3)))
P("unused_all", "x:f", "", "C01 C09", lambda E, x: E.array(lambda i, j: x * x, size=(2, 3)))
P("unused_const", "x:f", "", "C01 C09", lambda E, x: E.array(lambda i: E.wrap(1.5), size=4))
P("unused_zero", "x:f", "", "C01 C09", lambda E, x: E.array(lambda i, j: x, size=(0, 3)))
P("idx_arith", "x:i", "", "C01", lambda E, x: E.array(lambda i, j: i * 3 + j - x, size=(2, 3)))
P("idx_arith_t", "x:i", "", "C01", lambda E, x: E.array(lambda j, i: i * 3 + j * x, size=(2, 3)))
P("idx_float", "a:f[n]", "n=4 | n=0", "C01", lambda E, a: E.array(lambda i: i.float() * a[i] + 0.5))
P("idx_cmp", "a:f[n,n]", "n=3", "C01", lambda E, a: E.array(lambda i, j: E.where(i < j, a[i, j], a[j, i])))
P("idx_eq", "a:f[n]", "n=3", "C01", lambda E, a: E.array(lambda i, j: E.where(i == j, a[i], 0.0), size=(3, 3)))
P("idx_tri", "a:f[n,m]", "n=3 m=2 | n=2 m=2", "C01", lambda E, a: E.array(lambda i, j: E.where(i >= j, a[i, j], -a[i, j])))
P("nested", "a:f[n,m]", "n=2 m=3", "C01", lambda E, a: E.array(lambda i: E.array(lambda j: a[i, j] + 1.0)))
P("nested_tr", "a:f[n,m]", "n=2 m=3", "C01", lambda E, a: E.array(lambda j: E.array(lambda i: a[i, j] + i.float()), size=3))
P("nested_mix", "a:f[n];b:f[m]", "n=2 m=3", "C01", lambda E, a, b: E.array(lambda i: E.array(lambda j: E.array(lambda k: a[i] * b[j] - a[k]))))
P("nested_get", "a:f[n,m]", "n=2 m=3", "C01", lambda E, a: E.array(lambda j, i: E.array(lambda t: a[i, t] * 2.0)[j], size=(3, 2)))
P("inner_of_inner", "a:f[n];b:f[m]", "n=2 m=3", "C01", lambda E, a, b: E.array(lambda i: E.array(lambda j: a[i] + b[j])[0] + E.array(lambda j: a[i] - b[j])[2]))
P("partial_rows", "a:f[n,m]", "n=2 m=3", "C01", lambda E, a: E.array(lambda i: a[i]))
P("partial_rows_twice", "a:f[n,m,k]", "n=2 m=3 k=2", "C01", lambda E, a: E.array(lambda j: E.array(lambda i: a[i, j])))
P("partial_slice", "a:f[n,m]", "n=2 m=3", "C01", lambda E, a: a[:, 1])
P("partial_slice2", "a:f[n,m,k]", "n=2 m=3 k=2", "C01", lambda E, a: a[:, 1, :])
P("partial_slice3", "a:f[n,m,k]", "n=2 m=3 k=2", "C01", lambda E, a: E.array(lambda k, i: a[:, :, k][i, 1], size=(2, 2)))
P("compose", "a:f[n]", "n=3", "C01", lambda E, a: (lambda b: E.array(lambda i: b[i] - b[0]))(E.array(lambda i: a[i] * a[i])))
P("compose2", "a:f[n,m]", "n=2 m=3", "C01", lambda E, a: (lambda b: E.array(lambda i, j: b[j, i] + a[i, j]))(E.array(lambda j, i: a[i, j] * 2.0)))
P("compose3", "a:f[n,m]", "n=3 m=2", "C01 C14", lambda E, a: (lambda b: E.array(lambda i, j: b[j, i] * b[0, j], size=(3, 2)))(E.array(lambda j, i: a[i, j] - 1.0)))
P("compose_diag", "a:f[n];b:f[n]", "n=3", "C01", lambda E, a, b: (lambda o: E.array(lambda i: o[i, i]))(E.array(lambda i, j: a[i] - b[j])))
P("same_idx_two_arrays", "a:f[n,m];b:f[m,n]", "n=2 m=3 | n=2 m=2", "C01", lambda E, a, b: E.array(lambda i, j: a[i, j] - b[j, i]))
P("rep_operand", "a:f[n,m]", "n=2 m=2", "C01", lambda E, a: E.array(lambda i, j: a[i, j] - a[j, i]))
P("four_way", "a:f[n,m];b:f[k,l]", "n=2 m=1 k=3 l=2", "C01", lambda E, a, b: E.array(lambda i, k, j, l: a[i, j] - b[k, l]))
P("four_way2", "a:f[n,m];b:f[k,l]", "n=2 m=1 k=3 l=2", "C01", lambda E, a, b: E.array(lambda l, j, k, i: a[i, j] * b[k, l]))
P("where_mixed", "c:b[n];a:f[m];b:f[n,m]", "n=2 m=3 | n=2 m=2", "C01", lambda E, c, a, b: E.array(lambda i, j: E.where(c[i], a[j], b[i, j])))
P("where_mixed_t", "c:b[n];a:f[m];b:f[n,m]", "n=2 m=3 | n=2 m=2", "C01", lambda E, c, a, b: E.array(lambda j, i: E.where(c[i], a[j], b[i, j])))
P("where_idx", "a:f[n];b:f[m]", "n=2 m=3", "C01", lambda E, a, b: E.array(lambda i, j: E.where(a[i] < b[j], i, j)))
P("bool_mix", "a:b[n];b:b[m]", "n=2 m=3", "C01", lambda E, a, b: E.array(lambda j, i: (a[i] | ~b[j]) & (i < 1)))
P("unary_chain", "a:f[n,m]", "n=2 m=2", "C01", lambda E, a: E.array(lambda j, i: (-a[i, j]).exp().sin() - a[i, j].cos()))
P("scalar_res", "a:f[n]", "n=3", "C01", lambda E, a: a[1] * a[2])
P("zero_index_array", "x:f", "", "C01", lambda E, x: E.array(lambda: x * 2.0))
P("size1_axes", "a:f[n,m];b:f[m,k]", "n=1 m=1 k=1 | n=1 m=2 k=1 | n=2 m=1 k=2", "C01", lambda E, a, b: E.array(lambda i, j, k: a[i, j] * b[j, k] - a[i, j]))
P("int_mat", "a:i[n,m];b:i[n]", "n=2 m=3", "C01", lambda E, a, b: E.array(lambda j, i: a[i, j] * b[i] + j))
P("many_idx", "a:f[n,m]", "n=2 m=2", "C01", lambda E, a: E.array(lambda i, j, k, l: a[i, j] - a[k, l] * a[i, l]))
P("five_idx", "a:f[n];b:f[m]", "n=1 m=2", "C01", lambda E, a, b: E.array(lambda i, j, k, l, m: a[i] + b[j] * b[k] - a[l] * b[m]))
P("let_row", "a:f[n,m]", "n=2 m=3", "C14 C01", lambda E, a: E.array(lambda i: (lambda row: E.array(lambda j: row[j] * row[0]))(a[i])))
P("vec_of_const_vec", "a:f[n]", "n=2", "C01 C09", lambda E, a: E.array(lambda i: E.array(lambda j: j.float(), size=3), size=2))
P("vec_of_vec_free", "a:f[n]", "n=3", "C01 C09", lambda E, a: E.array(lambda i: a, size=2))
P("vec_of_vec_free2", "a:f[n]", "n=3", "C01 C09", lambda E, a: E.array(lambda i, j: E.array(lambda k: a[k] * 2.0), size=(2, 2)))
P("vec_row_pick", "a:f[n,m,k]", "n=2 m=3 k=2", "C01 C02", lambda E, a: E.array(lambda j: a[1, j], size=3))

# ============================================================ C02: reads
for sh in (-4, -3, -1, 0, 1, 2, 3, 5):
    P(f"shift_{sh}", "a:f[n]", "n=3 | n=1", "C02", lambda E, a, sh=sh: E.array(lambda i: a[i + sh], size=3), thorough=sh in (-3, 3))
P("shift_sym", "a:f[n];s:i", "n=3 | n=1", "C02", lambda E, a, s: E.array(lambda i: a[i + s], size=3), dyn="s")
P("shift_sym_neg", "a:f[n];s:i", "n=3", "C02", lambda E, a, s: E.array(lambda i: a[i - s], size=2), dyn="s")
P("shift_sym_rev", "a:f[n];s:i", "n=3", "C02", lambda E, a, s: E.array(lambda i: a[s + i], size=4), dyn="s")
P("shift_sym2", "a:f[n];s:i;t:i", "n=2", "C02", lambda E, a, s, t: E.array(lambda i: a[(i + s) - t], size=2), dyn="s t")
P("shift_int_arr", "a:i[n];s:i", "n=3", "C02 C11", lambda E, a, s: E.array(lambda i: a[i + s], size=4), dyn="s")
P("shift_bool_arr", "a:b[n];s:i", "n=3", "C02 C11", lambda E, a, s: E.array(lambda i: a[i + s], size=4), dyn="s")
P("rev_idx", "a:f[n]", "n=3", "C02", lambda E, a: E.array(lambda i: a[2 - i], size=3))
P("rev_idx_sym", "a:f[n];s:i", "n=3", "C02", lambda E, a, s: E.array(lambda i: a[s - i], size=3))
P("double_idx", "a:f[n]", "n=3", "C02", lambda E, a: E.array(lambda i: a[i * 2], size=3))
P("neg_idx", "a:f[n]", "n=3", "C02", lambda E, a: E.array(lambda i: a[-i], size=3))
P("two_idx_sum", "a:f[n]", "n=3", "C02", lambda E, a: E.array(lambda i, j: a[i + j], size=(2, 3)))
P("two_idx_diff", "a:f[n]", "n=3", "C02", lambda E, a: E.array(lambda i, j: a[i - j], size=(3, 3)))
P("two_idx_min", "a:f[n]", "n=3", "C02", lambda E, a: E.array(lambda i, j: a[E.min(i, j)], size=(3, 2)))
P("idx_plus_idx_self", "a:f[n]", "n=3", "C02", lambda E, a: E.array(lambda i: a[i + i], size=3))
P("clip_max", "a:f[n];lo:i", "n=3", "C02", lambda E, a, lo: E.array(lambda i: a[E.max(i, lo)], size=3), dyn="lo")
P("clip_min", "a:f[n];hi:i", "n=3", "C02", lambda E, a, hi: E.array(lambda i: a[E.min(i, hi)], size=3), dyn="hi")
P("clip_min_rev", "a:f[n];hi:i", "n=3", "C02", lambda E, a, hi: E.array(lambda i: a[hi.min(i)], size=3), dyn="hi")
P("clip_minmax", "a:f[n];lo:i;hi:i", "n=3", "C02", lambda E, a, lo, hi: E.array(lambda i: a[E.min(E.max(i, lo), hi)], size=3), dyn="lo hi")
P("clip_maxmin", "a:f[n];lo:i;hi:i", "n=3", "C02", lambda E, a, lo, hi: E.array(lambda i: a[E.max(E.min(i, hi), lo)], size=3), dyn="lo hi")
P("clip_shift", "a:f[n];lo:i;s:i", "n=2", "C02", lambda E, a, lo, s: E.array(lambda i: a[E.max(i + s, lo)], size=3), dyn="lo s")
P("clip_shift_hi", "a:f[n];hi:i;s:i", "n=2", "C02", lambda E, a, hi, s: E.array(lambda i: a[E.min(i - s, hi)], size=3), dyn="hi s")
P("clip_shift_full", "a:f[n];lo:i{-2..4};hi:i{-2..4};s:i{-3..3}", "n=3", "C02", lambda E, a, lo, hi, s: E.array(lambda i: a[E.min(E.max(i + s, lo), hi)], size=2), dyn="lo hi s", skip="jax")
P("clip_nest3", "a:f[n];x:i{-2..4};y:i{-2..4};z:i{-2..4}", "n=3", "C02", lambda E, a, x, y, z: E.array(lambda i: a[E.max(E.min(E.max(i, x), y), z)], size=3), dyn="x y z", skip="jax")
P("clip_nest4", "a:f[n];x:i{-1..3};y:i{-1..3};z:i{-1..3}", "n=2", "C02", lambda E, a, x, y, z: E.array(lambda i: a[E.min(E.max(E.min(E.max(i - 1, x), y), z), 1)], size=3), dyn="x y z", skip="jax")
P("clip_minmin", "a:f[n];x:i;y:i", "n=3", "C02", lambda E, a, x, y: E.array(lambda i: a[E.min(E.min(i, x), y)], size=3), dyn="x y")
P("clip_maxmax", "a:f[n];x:i;y:i", "n=3", "C02", lambda E, a, x, y: E.array(lambda i: a[E.max(E.max(i, x), y)], size=3), dyn="x y")
P("clip_shift_outside", "a:f[n];lo:i;s:i", "n=3", "C02", lambda E, a, lo, s: E.array(lambda i: a[E.max(i, lo) + s], size=3), dyn="lo s")
P("clip_shift_outside2", "a:f[n];hi:i", "n=3", "C02", lambda E, a, hi: E.array(lambda i: a[E.min(i, hi) - 1], size=3), dyn="hi")
P("clip_neg", "a:f[n];x:i", "n=3", "C02", lambda E, a, x: E.array(lambda i: a[-E.min(i, x)], size=3))
P("clip_const_out", "a:f[n]", "n=4 | n=2 | n=1", "C02", lambda E, a: E.array(lambda i: a[E.max(i - 3, -5)] - a[E.min(i, 3)], size=4))
P("clip_size1", "a:f[n];lo:i", "n=3", "C02", lambda E, a, lo: E.array(lambda i: a[E.max(i, lo)], size=1), dyn="lo")
P("stencil", "a:f[n]", "n=4 | n=2 | n=1", "C02", lambda E, a: E.array(lambda i: a[i] * 2.0 - a[i - 1] - a[i + 1]))
P("stencil2d", "a:f[n,m]", "n=2 m=3 | n=1 m=2", "C02", lambda E, a: E.array(lambda i, j: a[i, j] - a[i - 1, j + 1] - a[i + 1, j - 1]))
P("shift2d", "a:f[n,m]", "n=2 m=3 | n=3 m=2", "C02", lambda E, a: E.array(lambda i, j: a[i + 1, j - 2], size=(3, 4)))
P("shift2d_t", "a:f[n,m]", "n=2 m=3", "C02", lambda E, a: E.array(lambda j, i: a[i + 1, j - 2], size=(4, 3)))
P("shift2d_sym", "a:f[n,m];s:i{-3..3};t:i{-3..3}", "n=2 m=3", "C02", lambda E, a, s, t: E.array(lambda i, j: a[i + s, j - t], size=(2, 2)), dyn="s t", skip="jax")
P("shift2d_same", "a:f[n,m]", "n=2 m=3", "C02", lambda E, a: E.array(lambda i: a[i + 1, i - 1], size=3))
P("shift_rows", "a:f[n,m]", "n=3 m=2", "C02", lambda E, a: E.array(lambda i: a[i - 1], size=4))
P("shift_then_pick", "a:f[n,m]", "n=3 m=2", "C02", lambda E, a: E.array(lambda i, j: a[i - 1][j], size=(4, 2)))
P("shift3d", "a:f[n,m,k]", "n=2 m=3 k=2", "C02", lambda E, a: E.array(lambda k, i, j: a[i + 1, j - 1, k + 1], size=(2, 2, 2)))
P("shift_of_expr", "a:f[n];b:f[m]", "n=2 m=3", "C02", lambda E, a, b: (lambda o: E.array(lambda j, i: o[i + 1, j - 1], size=(3, 2)))(E.array(lambda i, j: a[i] * b[j])))
P("read_bigger", "a:f[n]", "n=2 | n=3 | n=5", "C02 C09", lambda E, a: E.array(lambda i: a[i], size=3))
P("read_bigger2", "a:f[n,m]", "n=2 m=3 | n=3 m=2", "C02 C09", lambda E, a: E.array(lambda i, j: a[i, j] - a[j, i], size=(3, 3)))
P("read_const", "a:f[n]", "n=3 | n=1", "C02", lambda E, a: a[5] * 1.0 - a[-2] + a[0] * a[1])
P("read_sym", "a:f[n];s:i", "n=3 | n=1", "C02", lambda E, a, s: a[s])
P("read_sym2", "a:f[n,m];s:i;t:i", "n=2 m=3", "C02", lambda E, a, s, t: a[s, t] - a[t, s])
P("read_sym_row", "a:f[n,m];s:i", "n=2 m=3", "C02", lambda E, a, s: E.array(lambda j: a[s, j] - a[0, j]))
P("read_sym_col", "a:f[n,m];s:i", "n=2 m=3", "C02", lambda E, a, s: E.array(lambda i: a[i, s]))
P("gather1", "a:f[n];p:i[m]", "n=3 m=2 | n=1 m=2 | n=3 m=0", "C02", lambda E, a, p: E.array(lambda i: a[p[i]]))
P("gather_int", "a:i[n];p:i[m]", "n=3 m=2", "C02", lambda E, a, p: E.array(lambda i: a[p[i] + 1] - p[i]))
P("gather2", "a:f[n,m];p:i[k];q:i[k]", "n=2 m=3 k=2", "C02", lambda E, a, p, q: E.array(lambda i: a[p[i], q[i]]))
P("gather2_outer", "a:f[n,m];p:i[k];q:i[l]", "n=2 m=3 k=2 l=3", "C02", lambda E, a, p, q: E.array(lambda i, j: a[p[i], q[j]]))
P("gather2_outer_t", "a:f[n,m];p:i[k];q:i[l]", "n=2 m=3 k=2 l=3", "C02", lambda E, a, p, q: E.array(lambda j, i: a[p[i], q[j]]))
P("gather_rows", "a:f[n,m];p:i[k]", "n=3 m=2 k=2", "C02", lambda E, a, p: E.array(lambda i: a[p[i]]))
P("gather_rows_j", "a:f[n,m];p:i[k]", "n=3 m=2 k=2 | n=2 m=2 k=2", "C02", lambda E, a, p: E.array(lambda i, j: a[p[i], j]))
P("gather_cols", "a:f[n,m];p:i[k]", "n=2 m=3 k=2 | n=2 m=2 k=2", "C02", lambda E, a, p: E.array(lambda i, j: a[i, p[j]]))
P("gather_cols_t", "a:f[n,m];p:i[k]", "n=2 m=3 k=2", "C02", lambda E, a, p: E.array(lambda j, i: a[i, p[j]], size=(2, 2)))
P("gather_shared", "a:f[n,m];p:i[n]", "n=2 m=3 | n=3 m=2", "C02", lambda E, a, p: E.array(lambda i: a[i, p[i]]))
P("gather_shared3", "a:f[n,m,k];p:i[n]", "n=2 m=3 k=2 | n=2 m=2 k=3", "C02", lambda E, a, p: E.array(lambda i: a[i, p[i]]))
P("gather_shared3j", "a:f[n,m,k];p:i[n]", "n=2 m=3 k=2 | n=2 m=2 k=2", "C02", lambda E, a, p: E.array(lambda i, j: a[i, p[i], j], size=(2, 2)))
P("gather_shared3k", "a:f[n,k,m];p:i[n]", "n=2 m=3 k=2", "C02", lambda E, a, p: E.array(lambda i, j: a[i, j, p[i]]))
P("gather_shared_mat", "a:f[n,m];p:i[n,k]", "n=2 m=3 k=2 | n=2 m=3 k=3", "C02", lambda E, a, p: E.array(lambda i, j: a[i, p[i, j]]))
P("gather_shared_mat_t", "a:f[n,m];p:i[n,k]", "n=2 m=3 k=2", "C02", lambda E, a, p: E.array(lambda j, i: a[i, p[i, j]]))
P("gather_shared_mat2", "a:f[n,m];p:i[k,n]", "n=2 m=3 k=2 | n=3 m=2 k=2", "C02", lambda E, a, p: E.array(lambda i, j: a[i, p[j, i]]))
P("gather_shared_mat3", "a:f[n,m];p:i[k,n]", "n=2 m=3 k=3", "C02", lambda E, a, p: E.array(lambda j, i: a[i, p[j, i]] * a[i, 0]))
P("gather_mat", "a:f[n];p:i[m,k]", "n=3 m=2 k=2", "C02", lambda E, a, p: E.array(lambda j, i: a[p[i, j]]))
P("gather_gather", "a:f[n];p:i[n];q:i[m]", "n=3 m=2", "C02", lambda E, a, p, q: E.array(lambda i: a[p[q[i]]]))
P("gather_data_expr", "a:f[n];p:i[n]", "n=3", "C02", lambda E, a, p: E.array(lambda i: a[p[i] * 2 - i]))
P("gather_where", "a:f[n];c:b[m]", "n=3 m=2", "C02", lambda E, a, c: E.array(lambda i: a[E.where(c[i], i, 2 - i)]))
P("gather_mod", "a:f[n];s:i", "n=3", "C02", lambda E, a, s: E.array(lambda i: a[(i + s) % 3], size=3))
P("gather_of_outer", "a:f[n];b:f[m];p:i[n]", "n=2 m=3", "C02", lambda E, a, b, p: E.array(lambda i: E.array(lambda j: a[i] * b[j])[p[i]]))
P("gather_of_outer2", "a:f[n];b:f[m];p:i[n,k]", "n=2 m=3 k=2", "C02", lambda E, a, b, p: E.array(lambda k, i: E.array(lambda j: a[i] - b[j])[p[i, k]]))
P("idx_dependent_target", "a:f[n,m]", "n=3 m=3", "C02", lambda E, a: E.array(lambda i: E.array(lambda j: a[i, j] * i.float())[i]))
P("idx_dependent_target_shift", "a:f[n,m]", "n=3 m=3", "C02", lambda E, a: E.array(lambda i: E.array(lambda j: a[i, j] - j.float())[i + 1]))
P("idx_dep_shift2", "a:f[n,m]", "n=2 m=3", "C02", lambda E, a: E.array(lambda i: a[i][i + 1], size=3))
P("idx_dep_shift3", "a:f[n,n,m]", "n=2 m=2", "C02", lambda E, a: E.array(lambda i: a[i, i - 1], size=3))
P("idx_dep_clip", "a:f[n,n]", "n=3", "C02", lambda E, a: E.array(lambda i, j: a[i, E.min(i, j)], size=(3, 3)))
P("idx_dep_clip2", "a:f[n,n];h:i", "n=2", "C02", lambda E, a, h: E.array(lambda i: a[i, E.min(i + 1, h)]))
P("idx_two_same_arr", "a:f[n,n]", "n=3", "C02", lambda E, a: E.array(lambda i, j: a[i + 1, j] - a[i, j - 1], size=(3, 3)))
P("shift_by_size", "a:f[n]", "n=3 | n=1", "C02 C09", lambda E, a: E.array(lambda i: a[i + a.size() - 1], size=2))
P("rev_by_size", "a:f[n]", "n=3 | n=1 | n=0", "C02 C09", lambda E, a: E.array(lambda i: a[a.size() - 1 - i], size=a.size()))
P("shift_by_data", "a:f[n];p:i[m]", "n=3 m=2", "C02", lambda E, a, p: E.array(lambda i: a[i + p[0]], size=3), dyn="p", skip="jax")
P("shift_by_outer", "a:f[n];p:i[m]", "n=3 m=2", "C02", lambda E, a, p: E.array(lambda j, i: a[i + p[j]], size=(2, 3)))
P("clip_by_outer", "a:f[n];p:i[m]", "n=3 m=2", "C02", lambda E, a, p: E.array(lambda j, i: a[E.max(i, p[j])], size=(2, 3)))
P("shift_size0", "a:f[n]", "n=3 | n=1", "C02 C09", lambda E, a: E.array(lambda i: a[i + 1] * a[i - 1], size=0))
P("shift_size0_2d", "a:f[n,m]", "n=2 m=3", "C02 C09", lambda E, a: E.array(lambda i, j: a[i + 1, j - 1], size=(0, 2)))
P("shift_size0_2d_b", "a:f[n,m]", "n=2 m=3", "C02 C09", lambda E, a: E.array(lambda i, j: a[i - 1, j + 1], size=(2, 0)))
P("empty_shift", "a:f[n]", "n=0", "C02 C09", lambda E, a: E.array(lambda i: a[i] - a[i + 1]))
P("empty_gather", "a:f[n];p:i[m]", "n=0 m=0", "C02 C09", lambda E, a, p: E.array(lambda i: a[p[i]]))
P("empty_gather_int2", "a:i[n,k];p:i[m]", "n=0 k=2 m=0", "C02 C09 C11", lambda E, a, p: E.array(lambda i, j: a[p[i], j]))
P("empty_mid_shift", "a:f[n,m]", "n=0 m=3 | n=2 m=0", "C02 C09", lambda E, a: E.array(lambda i, j: a[i, j] - a[i - 1, j + 1]))
P("pad_both", "a:f[n]", "n=2 | n=1", "C02", lambda E, a: E.array(lambda i: a[i - 2], size=6))
P("pad_both_2d", "a:f[n,m]", "n=2 m=1 | n=1 m=2", "C02", lambda E, a: E.array(lambda i, j: a[i - 1, j - 2], size=(4, 5)))
P("pad_both_2d_int", "a:i[n,m]", "n=2 m=1", "C02 C11", lambda E, a: E.array(lambda i, j: a[i - 1, j - 2], size=(4, 5)))
P("pad_one_each", "a:f[n,m]", "n=2 m=3 | n=3 m=2", "C02", lambda E, a: E.array(lambda i, j: a[i - 1, j + 1], size=(3, 3)))
P("pad_one_each_int", "a:i[n,m]", "n=2 m=3", "C02 C11", lambda E, a: E.array(lambda i, j: a[i - 1, j + 1], size=(3, 3)))
P("pad_then_cmp", "a:i[n]", "n=3", "C02 C11", lambda E, a: E.array(lambda i: a[a[i + 1]], size=3))

# ============================================================ C03: folds
P("sum1", "a:f[n]", "n=3 | n=0 | n=1", "C03 C19", lambda E, a: E.fold_sum(lambda k: a[k]))
P("sum_sq", "a:f[n]", "n=3 | n=0", "C03 C19", lambda E, a: E.fold_sum(lambda k: a[k] * a[k]))
P("dot", "a:f[n];b:f[n]", "n=3 | n=0 | n=1", "C03", lambda E, a, b: E.fold_sum(lambda k: a[k] * b[k]))
P("matvec", "a:f[n,m];x:f[m]", "n=2 m=3 | n=2 m=0 | n=0 m=2", "C03", lambda E, a, x: E.array(lambda i: E.fold_sum(lambda k: a[i, k] * x[k])))
P("matvec_t", "a:f[n,m];x:f[n]", "n=2 m=3", "C03", lambda E, a, x: E.array(lambda j: E.fold_sum(lambda k: a[k, j] * x[k]), size=3))
P("matmul", "a:f[n,k];b:f[k,m]", "n=2 k=3 m=2 | n=2 k=2 m=2 | n=1 k=0 m=2", "C03", lambda E, a, b: E.array(lambda i, j: E.fold_sum(lambda t: a[i, t] * b[t, j])))
P("matmul_rev", "a:f[n,k];b:f[k,m]", "n=2 k=3 m=2", "C03", lambda E, a, b: E.array(lambda j, i: E.fold_sum(lambda t: b[t, j] * a[i, t])))
P("matmul_bt", "a:f[n,k];b:f[m,k]", "n=2 k=3 m=2", "C03", lambda E, a, b: E.array(lambda i, j: E.fold_sum(lambda t: a[i, t] * b[j, t])))
P("batch_matmul", "a:f[b,n,k];c:f[b,k,m]", "b=2 n=2 k=2 m=3", "C03", lambda E, a, c: E.array(lambda b, i, j: E.fold_sum(lambda t: a[b, i, t] * c[b, t, j])))
P("bilinear", "x:f[n];a:f[n,m];y:f[m]", "n=2 m=3 | n=0 m=2", "C03", lambda E, x, a, y: E.fold_sum(lambda i: E.fold_sum(lambda j: x[i] * a[i, j] * y[j])))
P("bilinear_fact", "x:f[n];a:f[n,m];y:f[m]", "n=2 m=3", "C03", lambda E, x, a, y: E.fold_sum(lambda i: x[i] * E.fold_sum(lambda j: a[i, j] * y[j])))
P("chain3", "a:f[n,k];b:f[k,l];c:f[l,m]", "n=2 k=2 l=3 m=2", "C03", lambda E, a, b, c: E.array(lambda i, j: E.fold_sum(lambda s: E.fold_sum(lambda t: a[i, s] * b[s, t] * c[t, j]))))
P("trace", "a:f[n,n]", "n=3 | n=0", "C03", lambda E, a: E.fold_sum(lambda k: a[k, k]))
P("trace_mm", "a:f[n,m];b:f[m,n]", "n=2 m=3", "C03", lambda E, a, b: E.fold_sum(lambda i: E.fold_sum(lambda j: a[i, j] * b[j, i])))
P("sum_prod3", "a:f[n];b:f[n];c:f[n]", "n=3", "C03", lambda E, a, b, c: E.fold_sum(lambda k: a[k] * b[k] * c[k]))
P("sum_add", "a:f[n];b:f[n]", "n=3 | n=0", "C03", lambda E, a, b: E.fold_sum(lambda k: a[k] * b[k] + a[k]))
P("sum_sub", "a:f[n];b:f[n]", "n=3", "C03", lambda E, a, b: E.fold_sum(lambda k: a[k] * b[k] - b[k]))
P("sum_neg", "a:f[n];b:f[n]", "n=3", "C03", lambda E, a, b: E.fold_sum(lambda k: -(a[k] * b[k])))
P("sum_sub_neg", "a:f[n];b:f[n]", "n=3", "C03", lambda E, a, b: E.fold_sum(lambda k: a[k] - (-(b[k] * a[k]) - b[k])))
P("sum_scaled", "a:f[n];b:f[n];x:f", "n=3 | n=0", "C03", lambda E, a, b, x: E.fold_sum(lambda k: a[k] * b[k] * x))
P("sum_indep", "a:f[n];b:f[n]", "n=3 | n=0", "C03", lambda E, a, b: E.fold_sum(lambda k: a[k] * b[k] + 2.0 * 3.0))
P("sum_indep_x", "a:f[n];x:f;y:f", "n=3", "C03", lambda E, a, x, y: E.fold_sum(lambda k: x * y + a[k]))
P("sum_indep_only", "x:f;y:f", "", "C03", lambda E, x, y: E.fold_sum(lambda k: x * y, count=4))
P("sum_indep_one", "x:f", "", "C03", lambda E, x: E.fold_sum(lambda k: x, count=4))
P("sum_indep_nest", "a:f[n];b:f[m];x:f", "n=2 m=3", "C03", lambda E, a, b, x: E.fold_sum(lambda i: E.fold_sum(lambda j: a[i] * x, count=3) + a[i] * a[i]))
P("sum_indep_nest2", "a:f[n];b:f[m]", "n=2 m=3", "C03", lambda E, a, b: E.fold_sum(lambda i: E.fold_sum(lambda j: b[j] * b[j]) + a[i] * a[i]))
P("sum_indep_nest3", "a:f[n];b:f[m]", "n=2 m=3", "C03", lambda E, a, b: E.fold_sum(lambda i: E.fold_sum(lambda j: a[i] * a[i] + b[j])))
P("sum_plus_sum", "a:f[n];b:f[m]", "n=2 m=3", "C03", lambda E, a, b: E.fold_sum(lambda i: a[i] * a[i]) + E.fold_sum(lambda j: b[j] * b[j]))
P("sum_times_sum", "a:f[n];b:f[m]", "n=2 m=3", "C03", lambda E, a, b: E.fold_sum(lambda i: a[i]) * E.fold_sum(lambda j: b[j]))
P("sum_of_sums", "a:f[n];b:f[n,m];c:f[n,m]", "n=2 m=3", "C03", lambda E, a, b, c: E.fold_sum(lambda i: E.fold_sum(lambda j: b[i, j]) * E.fold_sum(lambda j: c[i, j])))
P("sum_of_sum_sq", "b:f[n,m]", "n=2 m=2", "C03", lambda E, b: E.fold_sum(lambda i: (lambda s: s * s)(E.fold_sum(lambda j: b[i, j]))))
P("sum_of_sum_diff", "a:f[n];b:f[n,m]", "n=2 m=2", "C03", lambda E, a, b: E.fold_sum(lambda i: a[i] * a[i] - E.fold_sum(lambda j: b[i, j] * a[i])))
P("sum_idx", "a:f[n]", "n=3 | n=0", "C03", lambda E, a: E.fold_sum(lambda k: a[k] * k.float()))
P("sum_shift", "a:f[n];b:f[n]", "n=3", "C03", lambda E, a, b: E.fold_sum(lambda k: a[k + 1] * b[k]))
P("sum_shift2", "a:f[n]", "n=3", "C03", lambda E, a: E.fold_sum(lambda k: a[k + 1] * a[k - 1], count=4))
P("sum_gather", "a:f[n];p:i[m]", "n=3 m=2", "C03", lambda E, a, p: E.fold_sum(lambda k: a[p[k]]))
P("sum_gather2", "a:f[n];p:i[m];b:f[m]", "n=3 m=2", "C03", lambda E, a, p, b: E.fold_sum(lambda k: a[p[k]] * b[k]))
P("sum_count_bigger", "a:f[n]", "n=2", "C03", lambda E, a: E.fold_sum(lambda k: a[k], count=4))
P("sum_count_smaller", "a:f[n];b:f[n]", "n=4", "C03", lambda E, a, b: E.fold_sum(lambda k: a[k] * b[k], count=2))
P("sum_count_zero", "a:f[n];b:f[n]", "n=3", "C03", lambda E, a, b: E.fold_sum(lambda k: a[k] * b[k], count=0))
P("sum_count_sym", "a:f[n];c:i{-2..4}", "n=3", "C03", lambda E, a, c: E.fold_sum(lambda k: a[k], count=c), dyn="c")
P("sum_count_sym_dot", "a:f[n];b:f[n];c:i{-2..4}", "n=3", "C03", lambda E, a, b, c: E.fold_sum(lambda k: a[k] * b[k], count=c), dyn="c")
P("sum_count_size", "a:f[n];b:f[m]", "n=3 m=3 | n=3 m=2 | n=2 m=3", "C03 C09", lambda E, a, b: E.fold_sum(lambda k: a[k] * b[k], count=a.size()))
P("min_count_sym", "a:f[n];c:i{-1..3}", "n=2", "C03", lambda E, a, c: E.fold_min(lambda k: a[k], count=c), dyn="c")
P("loop_count_sym", "a:f[n];x:f;c:i{-2..4}", "n=3", "C03", lambda E, a, x, c: E.fold(x, lambda k, acc: acc * a[k] + k.float(), count=c), dyn="c")
P("loop_count_neg", "x:f", "", "C03", lambda E, x: E.fold(x, lambda k, acc: acc * 2.0, count=-2))
P("loop_count_neg_min", "a:f[n]", "n=2", "C03", lambda E, a: E.fold_min(lambda k: a[k], count=-1))
P("loop_count_neg_sum", "a:f[n]", "n=2", "C03", lambda E, a: E.fold_sum(lambda k: a[k] * a[k], count=-1))
P("horner", "a:f[n];x:f", "n=3 | n=0", "C03", lambda E, a, x: E.fold(0.0, lambda i, acc: acc * x + a[i]))
P("fold_first", "a:f[n];x:f", "n=3 | n=0", "C03", lambda E, a, x: E.fold(x, lambda i, acc: a[i] - acc))
P("fold_acc_left", "a:f[n];x:f", "n=3 | n=0", "C03", lambda E, a, x: E.fold(x, lambda i, acc: acc + a[i]))
P("fold_acc_right", "a:f[n];x:f", "n=3", "C03", lambda E, a, x: E.fold(x, lambda i, acc: a[i] + acc))
P("fold_acc_init1", "a:f[n]", "n=3 | n=0", "C03", lambda E, a: E.fold(1.0, lambda i, acc: acc + a[i] * a[i]))
P("fold_acc_twice", "a:f[n]", "n=3", "C03", lambda E, a: E.fold(1.0, lambda i, acc: acc + acc * a[i]))
P("fold_acc_self", "a:f[n]", "n=2", "C03", lambda E, a: E.fold(1.0, lambda i, acc: acc + acc, count=3))
P("fold_acc_sub", "a:f[n]", "n=3", "C03", lambda E, a: E.fold(0.0, lambda i, acc: acc - a[i]))
P("fold_acc_min_self", "a:f[n]", "n=3", "C03", lambda E, a: E.fold(1.0, lambda i, acc: acc.min(a[i] * acc)))
P("fold_acc_max_idx", "a:f[n]", "n=3", "C03", lambda E, a: E.fold(0.0, lambda i, acc: acc.max(a[i] + i.float())))
P("fold_ignore_acc", "a:f[n]", "n=3", "C03", lambda E, a: E.fold(0.5, lambda i, acc: a[i]))
P("fold_ignore_all", "x:f", "", "C03", lambda E, x: E.fold(0.5, lambda i, acc: x, count=2))
P("fold_ignore_acc_zero", "a:f[n];x:f", "n=3", "C03", lambda E, a, x: E.fold(x, lambda i, acc: a[i], count=0))
P("fold_idx_init", "a:f[n]", "n=3", "C03", lambda E, a: E.array(lambda i: E.fold(i.float(), lambda k, acc: a[k], count=2), size=2))
P("fold_idx_init2", "a:f[n]", "n=3", "C03", lambda E, a: E.array(lambda i: E.fold(a[i], lambda k, acc: acc * 2.0 - a[k])))
P("fold_idx_init3", "a:f[n];b:f[m]", "n=2 m=3", "C03", lambda E, a, b: E.array(lambda i, j: E.fold(a[i], lambda k, acc: acc * b[j] + b[k], count=2)))
P("fold_idx_init4", "a:f[n];b:f[m]", "n=2 m=3", "C03", lambda E, a, b: E.array(lambda j, i: E.fold(a[i] - b[j], lambda k, acc: b[j] - acc, count=3)))
P("fold_idx_body", "a:f[n,m]", "n=2 m=3", "C03", lambda E, a: E.array(lambda i: E.fold(0.0, lambda k, acc: acc * 0.5 + a[i, k])))
P("fold_idx_body2", "a:f[n,m];x:f", "n=2 m=3", "C03", lambda E, a, x: E.array(lambda i: E.fold(x, lambda k, acc: a[i, k] - acc)))
P("fold_idx_both", "a:f[n];b:f[m];c:f[l]", "n=2 m=3 l=2", "C03", lambda E, a, b, c: E.array(lambda i, j: E.fold(b[j], lambda k, acc: acc * a[i] - c[k])))
P("fold_idx_both_t", "a:f[n];b:f[m];c:f[l]", "n=2 m=3 l=2", "C03", lambda E, a, b, c: E.array(lambda j, i: E.fold(a[i], lambda k, acc: c[k] - acc * b[j])))
P("fold_zero_in_arr", "a:f[n];b:f[m]", "n=2 m=3", "C03", lambda E, a, b: E.array(lambda i, j: E.fold(a[i], lambda k, acc: acc * b[j], count=0), size=(2, 3)))
P("fold_of_fold", "a:f[n,m]", "n=2 m=3", "C03", lambda E, a: E.fold(1.0, lambda i, acc: acc * E.fold(0.0, lambda j, t: t * 0.5 + a[i, j])))
P("fold_of_fold_acc", "a:f[n,m]", "n=2 m=2", "C03", lambda E, a: E.fold(1.0, lambda i, acc: E.fold(acc, lambda j, t: t * a[i, j] + acc)))
P("fold_sum_outer_acc", "a:f[n,m]", "n=2 m=2", "C03", lambda E, a: E.fold(1.0, lambda i, acc: acc + E.fold_sum(lambda j: a[i, j] * acc)))
P("fold_sum_outer_acc2", "a:f[n,m]", "n=2 m=2", "C03", lambda E, a: E.fold(0.0, lambda i, acc: E.fold_sum(lambda j: a[i, j] * acc) + a[i, i]))
P("fold_vec", "a:f[n,m]", "n=3 m=2 | n=0 m=2", "C03", lambda E, a: E.fold(E.array(lambda j: E.wrap(0.0), size=2), lambda i, acc: E.array(lambda j: acc[j] * 0.5 + a[i, j])))
P("fold_vec_shift", "a:f[n];x:f", "n=3", "C03", lambda E, a, x: E.fold(a, lambda i, acc: E.array(lambda j: acc[j - 1] + acc[j]), count=2))
P("fold_vec_swap", "a:f[n]", "n=3", "C03", lambda E, a: E.fold(a, lambda i, acc: E.array(lambda j: acc[2 - j] * 2.0, size=3), count=3))
P("fold_mat", "a:f[n,n];x:f[n]", "n=2", "C03", lambda E, a, x: E.fold(x, lambda k, v: E.array(lambda i: E.fold_sum(lambda j: a[i, j] * v[j])), count=3))
P("fold_vec_in_arr", "a:f[n,m];b:f[k]", "n=2 m=2 k=2", "C03", lambda E, a, b: E.array(lambda i: E.fold(a[i], lambda k, acc: E.array(lambda j: acc[j] * b[k] + acc[0]))))
P("fold_vec_in_arr2", "a:f[n];b:f[k]", "n=2 k=3", "C03", lambda E, a, b: E.array(lambda i: E.fold(b, lambda k, acc: E.array(lambda j: acc[j] * a[i] + a[k]), count=2)))
P("fold_count_from_data", "p:i[n]{-2..3};x:f", "n=2", "C03", lambda E, p, x: E.fold(x, lambda i, acc: acc * 2.0 + 1.0, count=p[0].min(3)), dyn="p", skip="jax")
P("fold_int", "a:i[n]", "n=3 | n=0", "C03", lambda E, a: E.fold(0, lambda i, acc: acc + a[i]))
P("fold_int_mul", "a:i[n]", "n=3", "C03", lambda E, a: E.fold(1, lambda i, acc: acc * a[i] + i))
P("fold_int_min", "a:i[n];x:i", "n=3 | n=0", "C03", lambda E, a, x: E.fold(x, lambda i, acc: acc.min(a[i])))
P("fold_bool", "a:b[n]", "n=3 | n=0", "C03", lambda E, a: E.fold(E.wrap(True), lambda i, acc: acc & a[i]))
P("fold_bool2", "a:b[n];x:b", "n=3", "C03", lambda E, a, x: E.fold(x, lambda i, acc: E.where(a[i], ~acc, acc)))
P("fold_min1", "a:f[n]", "n=3 | n=0 | n=1", "C03 C19", lambda E, a: E.fold_min(lambda i: a[i]))
P("fold_max1", "a:f[n]", "n=3 | n=0", "C03 C19", lambda E, a: E.fold_max(lambda i: a[i]))
P("fold_min_rows", "a:f[n,m]", "n=2 m=3 | n=2 m=0", "C03 C19", lambda E, a: E.array(lambda i: E.fold_min(lambda j: a[i, j])))
P("fold_max_cols", "a:f[n,m]", "n=2 m=3 | n=0 m=2", "C03 C19", lambda E, a: E.array(lambda j: E.fold_max(lambda i: a[i, j]), size=2))
P("fold_min_init", "a:f[n];x:f", "n=3 | n=0", "C03", lambda E, a, x: E.fold(x, lambda i, acc: acc.min(a[i])))
P("fold_max_init", "a:f[n]", "n=3", "C03", lambda E, a: E.fold(2.0, lambda i, acc: a[i].max(acc)))
P("fold_min_outer", "a:f[n];b:f[m]", "n=2 m=3", "C03", lambda E, a, b: E.array(lambda i: E.fold_min(lambda j: a[i] - b[j])))
P("fold_min_two", "a:f[n];b:f[n]", "n=3", "C03", lambda E, a, b: E.fold_min(lambda i: a[i].max(b[i])))
P("minmax_mix", "a:f[n,m]", "n=2 m=3", "C03 C19", lambda E, a: E.fold_min(lambda i: E.fold_max(lambda j: a[i, j])))
P("sum_rows_bcast", "a:f[n,m]", "n=2 m=3", "C03", lambda E, a: E.array(lambda i, j: a[i, j] - E.fold_sum(lambda k: a[i, k])))
P("sum_cols_bcast", "a:f[n,m]", "n=2 m=3", "C03", lambda E, a: E.array(lambda i, j: a[i, j] * E.fold_sum(lambda k: a[k, j] * a[k, j])))
P("softmaxish", "a:f[n]", "n=3", "C03 C14", lambda E, a: (lambda m: (lambda e: E.array(lambda i: e[i] / E.fold_sum(lambda j: e[j])))(E.array(lambda i: (a[i] - m).exp())))(E.fold_max(lambda i: a[i])))
P("prefix_sums", "a:f[n]", "n=3", "C03", lambda E, a: E.array(lambda i: E.fold_sum(lambda j: E.where(j <= i, a[j], 0.0)), size=3))
P("conv", "a:f[n];w:f[m]", "n=4 m=2", "C03 C02", lambda E, a, w: E.array(lambda i: E.fold_sum(lambda k: a[i + k] * w[k]), size=4), skip="jax")
P("conv_same", "a:f[n];w:f[m]", "n=3 m=3", "C03 C02", lambda E, a, w: E.array(lambda i: E.fold_sum(lambda k: a[i + k - 1] * w[k]), size=3), skip="jax")
P("pairwise", "x:f[n,d]", "n=2 d=2 | n=3 d=1", "C03", lambda E, x: E.array(lambda i, j: E.fold_sum(lambda k: (x[i, k] - x[j, k]) * (x[i, k] - x[j, k]))))
P("einsum_bcast", "a:f[n,k];b:f[k]", "n=2 k=3", "C03", lambda E, a, b: E.array(lambda i, j: E.fold_sum(lambda t: a[i, t] * b[t] * a[j, t])))
P("einsum_diag", "a:f[k,k];b:f[k]", "k=3", "C03", lambda E, a, b: E.fold_sum(lambda t: a[t, t] * b[t]))
P("einsum_size_coinc", "a:f[n,m];b:f[m,n]", "n=2 m=2 | n=2 m=3", "C03 C09", lambda E, a, b: E.array(lambda i: E.fold_sum(lambda j: a[i, j] * b[j, i])))
P("sum_scalar_factor_out", "a:f[n];x:f", "n=3", "C03", lambda E, a, x: x * E.fold_sum(lambda i: a[i] * a[i]) - x)
P("sum_where", "a:f[n];c:b[n]", "n=3", "C03", lambda E, a, c: E.fold_sum(lambda i: E.where(c[i], a[i], 0.0)))
P("sum_exp", "a:f[n]", "n=2", "C03", lambda E, a: E.fold_sum(lambda i: a[i].exp() * a[i]))
P("sum_recip", "a:f[n];b:f[n]", "n=2", "C03", lambda E, a, b: E.fold_sum(lambda i: a[i] / b[i]))
P("sum_init_nz", "a:f[n];b:f[n]", "n=2 | n=0", "C03", lambda E, a, b: E.fold(3.0, lambda i, acc: acc + a[i] * b[i]))
P("sum_init_sym", "a:f[n];b:f[n];x:f", "n=2", "C03", lambda E, a, b, x: E.fold(x, lambda i, acc: a[i] * b[i] + acc))
P("sum_matrix_all", "a:f[n,m]", "n=2 m=3 | n=0 m=2 | n=2 m=0", "C03", lambda E, a: E.fold_sum(lambda i: E.fold_sum(lambda j: a[i, j])))
P("sum_three", "a:f[n,m,k]", "n=2 m=2 k=2", "C03", lambda E, a: E.array(lambda j: E.fold_sum(lambda i: E.fold_sum(lambda k: a[i, j, k] * a[i, j, k])), size=2))
P("sum_dup_counter", "a:f[n]", "n=3", "C03 C14", lambda E, a: (lambda s: s + s)(E.fold_sum(lambda i: a[i] * a[i])))
P("sum_dup_mult", "a:f[n]", "n=2", "C03 C14", lambda E, a: (lambda s: s * s)(E.fold_sum(lambda i: a[i] * a[i])))
P("sum_dup_in_sum", "a:f[n];b:f[m]", "n=2 m=2", "C03 C14", lambda E, a, b: (lambda s: E.fold_sum(lambda j: b[j] * s + s * b[j]))(E.fold_sum(lambda i: a[i] * a[i])))
P("sum_self_add", "a:f[n];b:f[n]", "n=2", "C03 C14", lambda E, a, b: E.fold_sum(lambda i: (lambda p: p + p)(a[i] * b[i])))

# ============================================================ C04: reduce
def _aff(E, a, b):
    return E.array(lambda i: (a[i], b[i])).reduce((1.0, 0.0), lambda x, y: (y[0] * x[0], y[0] * x[1] + y[1]))


for n in range(0, 10):
    P(f"red_affine_{n}", "a:f[n];b:f[n]", f"n={n}", "C04 C05", _aff, thorough=n in (6, 8, 9))
    P(f"red_sub_{n}", "a:f[n]", f"n={n}", "C04", lambda E, a: a.reduce(0.0, lambda x, y: x + y), thorough=n in (6, 8))


def _firstlast(E, a):
    # non-commutative: keeps the first and the last element
    return E.array(lambda i: (a[i], a[i], i + 1)).reduce(
        (0.0, 0.0, 0), lambda x, y: (E.where(x[2] == 0, y[0], x[0]), E.where(y[2] == 0, x[1], y[1]), x[2].max(y[2])))


P("red_firstlast", "a:f[n]", "n=0 | n=1 | n=2 | n=3 | n=5 | n=7", "C04 C05", _firstlast)


def _mm2(E, v):
    return v.reduce(E.array(lambda i, j: E.where(i == j, 1.0, 0.0), size=(2, 2)),
                    lambda x, y: E.array(lambda i, j: E.fold_sum(lambda k: x[i, k] * y[k, j])))


P("red_matmul", "a:f[n,2,2]", "n=0 | n=1 | n=2 | n=3", "C04", _mm2, deep="n=4 | n=5")
P("red_matmul_loop", "a:f[n,2,2]", "n=3 | n=2", "C04", lambda E, a: a.reduce(
    E.array(lambda i, j: E.where(i == j, 1.0, 0.0), size=(2, 2)),
    lambda x, y: E.array(lambda i, j: x[i, 0] * y[0, j] + x[i, 1] * y[1, j], size=(2, 2))))
P("red_perm", "p:i[n,3]{0..2}", "n=2 | n=3", "C04 C02", lambda E, p: p.reduce(E.array(lambda i: i, size=3), lambda x, y: E.array(lambda i: y[x[i]])))
P("red_sum", "a:f[n]", "n=0 | n=1 | n=4 | n=5", "C04 C19", lambda E, a: E.reduce_sum(lambda i: a[i]))
P("red_sum_expr", "a:f[n];b:f[n]", "n=3", "C04 C19", lambda E, a, b: E.reduce_sum(lambda i: a[i] * b[i] - i.float()))
P("red_min", "a:f[n]", "n=0 | n=3 | n=4", "C04 C19", lambda E, a: E.reduce_min(lambda i: a[i]))
P("red_max", "a:f[n]", "n=0 | n=3 | n=5", "C04 C19", lambda E, a: E.reduce_max(lambda i: a[i]))
P("red_argmin", "a:f[n]", "n=0 | n=1 | n=2 | n=3 | n=4", "C04 C19", lambda E, a: E.reduce_argmin(lambda i: a[i]), deep="n=5 | n=7")
P("red_int", "a:i[n]", "n=0 | n=3 | n=5", "C04", lambda E, a: a.reduce(0, lambda x, y: x + y))
P("red_bool_and", "a:b[n]", "n=0 | n=3", "C04", lambda E, a: a.reduce(E.wrap(True), lambda x, y: x & y))
P("red_bool_or", "a:b[n]", "n=5", "C04", lambda E, a: a.reduce(E.wrap(False), lambda x, y: x | y))
P("red_rows", "a:f[n,m]", "n=2 m=3 | n=3 m=2 | n=2 m=0 | n=2 m=1", "C04", lambda E, a: E.array(lambda i: a[i].reduce(0.0, lambda x, y: x + y)))
P("red_rows_nc", "a:f[n,m];b:f[n,m]", "n=2 m=3 | n=2 m=4", "C04 C05", lambda E, a, b: E.array(
    lambda i: E.array(lambda j: (a[i, j], b[i, j])).reduce((1.0, 0.0), lambda x, y: (y[0] * x[0], y[0] * x[1] + y[1]))[1]))
P("red_cols_nc", "a:f[n,m]", "n=3 m=2", "C04 C05", lambda E, a: E.array(
    lambda j: E.array(lambda i: (a[i, j], i.float())).reduce((1.0, 0.0), lambda x, y: (y[0] * x[0], y[0] * x[1] + y[1]))[1], size=2))
P("red_vec", "a:f[n,m]", "n=3 m=2 | n=0 m=2 | n=1 m=2", "C04", lambda E, a: a.reduce(E.array(lambda j: E.wrap(0.0), size=2), lambda x, y: E.array(lambda j: x[j] + y[j])))
P("red_vec_minmax", "a:f[n,m]", "n=3 m=2", "C04", lambda E, a: a.reduce(E.array(lambda j: E.wrap(-100.0), size=2), lambda x, y: E.array(lambda j: x[j].max(y[j]))), skip="all")
P("red_batch2", "a:f[n,m,k]", "n=2 m=2 k=3", "C04", lambda E, a: E.array(lambda j, i: a[i, j].reduce(0.0, lambda x, y: x + y), size=(2, 2)))
P("red_batch_shared", "a:f[n];b:f[m]", "n=2 m=3", "C04", lambda E, a, b: E.array(lambda i: b.reduce(0.0, lambda x, y: x + y) * a[i]))
P("red_batch_outer", "a:f[n];b:f[m]", "n=2 m=3", "C04", lambda E, a, b: E.array(lambda i: E.array(lambda j: a[i] * b[j]).reduce(0.0, lambda x, y: x + y)))
P("red_batch_idx_op", "a:f[n,m]", "n=2 m=3", "C04", lambda E, a: E.array(lambda i: E.array(lambda j: (a[i, j], 1.0)).reduce((0.0, 0.0), lambda x, y: (x[0] + y[0], x[1] + y[1]))[0]))
P("red_ext_free", "a:f[n];x:f", "n=3", "C04", lambda E, a, x: E.array(lambda i: a[i] - x).reduce(x - x, lambda p, q: p + q))
P("red_concatlike", "a:f[n]", "n=3 | n=4", "C04 C05", lambda E, a: E.array(lambda i: (a[i], 1.0)).reduce((0.0, 1.0), lambda x, y: (x[0] * 1.0 + y[0], x[1] * y[1])))
P("red_nested", "a:f[n,m]", "n=2 m=3", "C04", lambda E, a: E.array(lambda i: a[i].reduce(0.0, lambda x, y: x + y)).reduce(0.0, lambda x, y: x + y))
P("red_in_fold", "a:f[n,m]", "n=2 m=3", "C04 C03", lambda E, a: E.fold(1.0, lambda i, acc: acc * a[i].reduce(0.0, lambda x, y: x + y)))
P("fold_in_red", "a:f[n,2]", "n=3", "C04 C03", lambda E, a: a.reduce(E.array(lambda j: E.wrap(0.0), size=2), lambda x, y: E.array(lambda j: E.fold(x[j], lambda t, acc: acc + y[j], count=1), size=2)))
P("red_max_record", "a:f[n];b:i[n]", "n=3", "C04 C05", lambda E, a, b: E.array(lambda i: {"v": a[i], "k": b[i]}).reduce({"v": 0.0, "k": 0}, lambda x, y: {"v": x["v"] + y["v"], "k": x["k"] + y["k"]}))
P("red_nested_record", "a:f[n];b:f[n]", "n=3 | n=2", "C04 C05", lambda E, a, b: E.array(lambda i: ((a[i], b[i]), i)).reduce(((1.0, 0.0), 0), lambda x, y: ((y[0][0] * x[0][0], y[0][0] * x[0][1] + y[0][1]), x[1].max(y[1]))))
P("red_4tuple", "a:f[n];b:f[n];c:f[n]", "n=3", "C04 C05", lambda E, a, b, c: E.array(lambda i: (a[i], b[i], c[i], i)).reduce((0.0, 0.0, 0.0, 0), lambda x, y: (x[0] + y[0], x[1] + y[1], x[2] + y[2], x[3].max(y[3]))))
P("red_rec_vec", "a:f[n,2];b:f[n]", "n=3", "C04 C05", lambda E, a, b: E.array(lambda i: (a[i], b[i])).reduce((E.array(lambda j: E.wrap(0.0), size=2), 0.0), lambda x, y: (E.array(lambda j: x[0][j] + y[0][j]), x[1] + y[1])))
P("red_two", "a:f[n];b:f[n]", "n=3", "C04 C14", lambda E, a, b: a.reduce(0.0, lambda x, y: x + y) - b.reduce(0.0, lambda x, y: x + y))
P("red_dyn", "a:f[n];s:i{0..5}", "n=3", "C04 C09", lambda E, a, s: E.array(lambda i: a[i] * 2.0, size=s).reduce(0.0, lambda x, y: x + y), dyn="s")
P("red_dyn_nc", "a:f[n];s:i{0..5}", "n=2", "C04 C09", lambda E, a, s: E.array(lambda i: (a[i], i.float()), size=s).reduce((1.0, 0.0), lambda x, y: (y[0] * x[0], y[0] * x[1] + y[1])), dyn="s")
P("red_mean", "a:f[n]", "n=3", "C04", lambda E, a: a.reduce(0.0, lambda x, y: x + y) / a.size().float())


# ============================================================ C05: records
@dataclasses.dataclass
class Pt:
    x: object
    y: object


@dataclasses.dataclass
class Seg:
    a: Pt
    w: object


P("rec_tuple", "a:f[n];b:i[n]", "n=3 | n=0", "C05", lambda E, a, b: (lambda r: (E.array(lambda i: r[i][0] * 2.0), E.array(lambda i: r[i][1] + 1)))(E.array(lambda i: (a[i], b[i]))))
P("rec_swap", "a:f[n];b:f[n]", "n=3", "C05", lambda E, a, b: (lambda r: E.array(lambda i: (lambda p: p[1] - p[0])(r[i])))(E.array(lambda i: (a[i], b[i]))))
P("rec_dict", "a:f[n];b:f[n]", "n=3", "C05", lambda E, a, b: (lambda r: E.array(lambda i: r[i]["b"] - r[i]["a"]))(E.array(lambda i: {"b": a[i], "a": b[i]})))
P("rec_dict_ret", "a:f[n];b:f[n]", "n=2", "C05", lambda E, a, b: (lambda r: r[1])(E.array(lambda i: {"z": a[i], "y": b[i] * 2.0, "x": a[i] - b[i]})))
P("rec_dc", "a:f[n];b:f[n]", "n=3", "C05", lambda E, a, b: (lambda r: E.array(lambda i: r[i].x - r[i].y))(E.array(lambda i: Pt(y=a[i], x=b[i]))))
P("rec_dc_nest", "a:f[n];b:f[n];c:f[n]", "n=2", "C05", lambda E, a, b, c: (lambda r: E.array(lambda i: r[i].a.x - r[i].w * r[i].a.y))(E.array(lambda i: Seg(Pt(a[i], b[i]), c[i]))))
P("rec_dc_item", "a:f[n];b:f[n];c:f[n]", "n=2", "C05", lambda E, a, b, c: E.array(lambda i: Seg(Pt(a[i], b[i]), c[i]))[1])
P("rec_nest", "a:f[n];b:f[n];c:i[n]", "n=2", "C05", lambda E, a, b, c: (lambda r: (E.array(lambda i: r[i][0][1]), E.array(lambda i: r[i][1][0]), E.array(lambda i: r[i][1][1])))(E.array(lambda i: ((a[i], b[i]), (c[i], a[i] * b[i])))))
P("rec_nest3", "a:f[n];b:f[n]", "n=2", "C05", lambda E, a, b: (lambda r: E.array(lambda i: r[i][0][0][1] - r[i][0][1] * r[i][1]))(E.array(lambda i: (((a[i], b[i]), a[i] * 2.0), b[i] - 1.0))))
P("rec_3", "a:f[n];b:f[n];c:f[n]", "n=2", "C05", lambda E, a, b, c: (lambda r: E.array(lambda i: r[i][0] - r[i][1] * r[i][2]))(E.array(lambda i: (a[i], b[i], c[i]))))
P("rec_5", "a:f[n];b:f[n]", "n=2", "C05", lambda E, a, b: (lambda r: E.array(lambda i: r[i][4] - r[i][3] * r[i][2] + r[i][1] - r[i][0]))(E.array(lambda i: (a[i], b[i], a[i] * b[i], a[i] - 1.0, b[i] * 3.0))))
P("rec_1", "a:f[n]", "n=2", "C05", lambda E, a: (lambda r: E.array(lambda i: r[i][0] * 2.0))(E.array(lambda i: (a[i],))))
P("rec_vec_field", "a:f[n,m];b:f[n]", "n=2 m=3", "C05", lambda E, a, b: (lambda r: E.array(lambda i, j: r[i][0][j] - r[i][1], size=(2, 3)))(E.array(lambda i: (a[i], b[i]))))
P("rec_vec_field2", "a:f[n];b:f[m]", "n=2 m=3", "C05", lambda E, a, b: (lambda r: E.array(lambda j, i: r[i][1][j] * r[i][0], size=(3, 2)))(E.array(lambda i: (a[i], E.array(lambda j: b[j] - a[i])))))
P("rec_vec_of_rec", "a:f[n,m];b:f[m]", "n=2 m=2", "C05", lambda E, a, b: (lambda r: E.array(lambda i, j: r[i][j][0] - r[i][j][1], size=(2, 2)))(E.array(lambda i: E.array(lambda j: (a[i, j], b[j])))))
P("rec_2d", "a:f[n,m];b:f[m]", "n=2 m=3", "C05", lambda E, a, b: (lambda r: E.array(lambda j, i: r[i, j][0] - r[i, j][1], size=(3, 2)))(E.array(lambda i, j: (a[i, j], b[j]))))
P("rec_2d_row", "a:f[n,m];b:f[m]", "n=2 m=3", "C05", lambda E, a, b: (lambda r: E.array(lambda j: r[1][j][1] - r[0][j][0], size=3))(E.array(lambda i, j: (a[i, j], b[j]))))
P("rec_rec_vec", "a:f[n];b:f[n]", "n=2", "C05", lambda E, a, b: (lambda r: E.array(lambda i: r[i][0][0] + r[i][1]["k"][1] * r[i][1]["k"][0]))(E.array(lambda i: ((a[i], b[i]), {"k": (b[i], a[i])}))))
P("rec_gather", "a:f[n];b:i[n];p:i[m]", "n=3 m=2", "C05 C02", lambda E, a, b, p: (lambda r: (E.array(lambda i: r[p[i]][0]), E.array(lambda i: r[p[i]][1])))(E.array(lambda i: (a[i], b[i]))))
P("rec_shift", "a:f[n];b:f[n]", "n=3", "C05 C02", lambda E, a, b: (lambda r: E.array(lambda i: r[i - 1][0] - r[i + 1][1], size=3))(E.array(lambda i: (a[i], b[i]))))
P("rec_fold", "a:f[n]", "n=3 | n=0", "C05 C03", lambda E, a: E.fold((1.0, 0.0), lambda i, s: (s[1] + a[i], s[0] * a[i])))
P("rec_fold_dict", "a:f[n]", "n=3", "C05 C03", lambda E, a: E.fold({"p": 1.0, "q": 0}, lambda i, s: {"p": s["p"] * a[i], "q": s["q"] + i}))
P("rec_fold_dc", "a:f[n]", "n=2", "C05 C03", lambda E, a: E.fold(Pt(1.0, 2.0), lambda i, s: Pt(s.y, s.x * a[i])))
P("rec_fold_nest", "a:f[n]", "n=2", "C05 C03", lambda E, a: E.fold(((1.0, 0), 2.0), lambda i, s: ((s[1], s[0][1] + 1), s[0][0] - a[i])))
P("rec_fold_vec", "a:f[n];b:f[m]", "n=2 m=2", "C05 C03", lambda E, a, b: E.fold((b, 1.0), lambda i, s: (E.array(lambda j: s[0][j] * s[1] - a[i]), s[0][0])))
P("rec_fold_in_arr", "a:f[n,m]", "n=2 m=3", "C05 C03", lambda E, a: (lambda r: (E.array(lambda i: r[i][0]), E.array(lambda i: r[i][1])))(E.array(lambda i: E.fold((1.0, i.float()), lambda k, s: (s[1] - a[i, k], s[0])))))
P("rec_fold_in_arr2", "a:f[n];b:f[m]", "n=2 m=3", "C05 C03", lambda E, a, b: E.array(lambda j, i: E.fold((a[i], b[j]), lambda k, s: (s[1] * a[k], s[0] - 1.0), count=2)[0]))
P("rec_where", "a:f[n];b:f[n];c:b[n]", "n=3", "C05 C19", lambda E, a, b, c: (lambda r: E.array(lambda i: r[i][0] - r[i][1]))(E.array(lambda i: E.where(c[i], (a[i], b[i]), (b[i], a[i] * 2.0)))))
P("rec_where_vec", "a:f[n];b:f[n];c:b", "n=3", "C05 C19", lambda E, a, b, c: E.where(c, a, b))
P("rec_where_nest", "a:f[n];b:f[n];c:b", "n=2", "C05 C19", lambda E, a, b, c: E.where(c, {"u": a, "v": (1.0, b)}, {"u": b, "v": (2.0, a)}))
P("rec_concat", "a:f[n];b:i[n];c:f[m];d:i[m]", "n=2 m=3 | n=0 m=2", "C05 C16", lambda E, a, b, c, d: (lambda r: (E.array(lambda i: r[i][0]), E.array(lambda i: r[i][1])))(E.array(lambda i: (a[i], b[i])).concat(E.array(lambda i: (c[i], d[i])))))
P("rec_size", "a:f[n];b:f[n]", "n=3 | n=0", "C05 C09", lambda E, a, b: E.array(lambda i: (a[i], b[i])).size())
P("rec_const", "a:f[n]", "n=3", "C05", lambda E, a: (lambda r: E.array(lambda i: r[i][0] - r[i][1]))(E.array(lambda i: (a[i], 2.5))))
P("rec_const2", "a:f[n]", "n=2", "C05", lambda E, a: (lambda r: (E.array(lambda i: r[i][0], size=2), E.array(lambda i: r[i][1], size=2)))(E.array(lambda i: (1.5, i), size=2)))
P("rec_unused_idx", "a:f[n];x:f", "n=2", "C05", lambda E, a, x: (lambda r: (E.array(lambda i, j: r[i, j][0], size=(2, 3)), E.array(lambda i, j: r[i, j][1], size=(2, 3))))(E.array(lambda i, j: (a[i], x), size=(2, 3))))
P("rec_two_idx", "a:f[n];b:f[m]", "n=2 m=3", "C05", lambda E, a, b: (lambda r: E.array(lambda j, i: r[i, j][0] - r[i, j][1], size=(3, 2)))(E.array(lambda i, j: (a[i], b[j]))))
P("rec_of_sums", "a:f[n,m]", "n=2 m=2", "C05 C03", lambda E, a: (lambda r: E.array(lambda i: r[i][0] - r[i][1]))(E.array(lambda i: (E.fold_sum(lambda j: a[i, j] * a[i, j]), E.fold_max(lambda j: a[i, j])))))
P("rec_partial_proj", "a:f[n,m];b:f[n,m]", "n=2 m=2", "C05", lambda E, a, b: (lambda r: E.array(lambda i: E.array(lambda j: r[i][j][1])))(E.array(lambda i, j: (a[i, j], b[i, j]))))
P("rec_list", "a:f[n];b:f[n]", "n=2", "C05", lambda E, a, b: (lambda r: E.array(lambda i: r[i][1] - r[i][0]))(E.array(lambda i: (b[i], a[i] * a[i]))))
P("rec_dyn", "a:f[n];s:i{0..4}", "n=2", "C05 C09", lambda E, a, s: (lambda r: (E.array(lambda i: r[i][1] - r[i][0], size=s), r.size()))(E.array(lambda i: (a[i], i.float()), size=s)), dyn="s")
P("rec_free_in_both", "a:f[n];b:f[n]", "n=3", "C05 C14", lambda E, a, b: (lambda r: E.array(lambda i: r[i][0] * r[i][1]))(E.array(lambda i: (lambda t: (t + 1.0, t * t))(a[i] * b[i]))))

# ============================================================ C09: sizes
P("size_dyn", "a:f[n];s:i{0..5}", "n=3 | n=1", "C09", lambda E, a, s: E.array(lambda i: a[i] * i.float(), size=s), dyn="s")
P("size_dyn2", "a:f[n,m];s:i{0..3};t:i{0..3}", "n=2 m=2", "C09", lambda E, a, s, t: E.array(lambda i, j: a[i, j] * 2.0, size=(s, t)), dyn="s t")
P("size_dyn_t", "a:f[n,m];s:i{0..3};t:i{0..3}", "n=2 m=3", "C09", lambda E, a, s, t: E.array(lambda j, i: a[i, j], size=(s, t)), dyn="s t")
P("size_dyn_unused", "x:f;s:i{0..3}", "", "C09", lambda E, x, s: E.array(lambda i, j: x, size=(s, 2)), dyn="s")
P("size_dyn_expr", "a:f[n];s:i{0..3}", "n=3", "C09", lambda E, a, s: E.array(lambda i: a[i], size=s + 1), dyn="s")
P("size_two_arrays", "a:f[n];b:f[m]", "n=3 m=2 | n=2 m=3 | n=2 m=2", "C09 C02", lambda E, a, b: E.array(lambda i: a[i] - b[i], size=a.size()))
P("size_two_arrays2", "a:f[n];b:f[m]", "n=3 m=2 | n=2 m=3 | n=2 m=2", "C09 C02", lambda E, a, b: E.array(lambda i: a[i] - b[i], size=b.size()))
P("size_const_coinc", "a:f[n]", "n=3 | n=2 | n=4", "C09", lambda E, a: E.array(lambda i: a[i] * a[i], size=3))
P("size_min_sizes", "a:f[n];b:f[m]", "n=3 m=2 | n=2 m=3", "C09", lambda E, a, b: E.array(lambda i: a[i] - b[i], size=a.size().min(b.size())))
P("size_rep", "a:f[n,m]", "n=2 m=3 | n=0 m=3 | n=3 m=0", "C09", lambda E, a: (a.size(0), a.size(1), a[0].size() if False else a.size(1) * 2))
P("size_rep_row", "a:f[n,m]", "n=2 m=3", "C09", lambda E, a: a[0].size())
P("size_rep_comp", "a:f[n];b:f[m]", "n=2 m=3 | n=0 m=2", "C09", lambda E, a, b: (lambda c: (c.size(0), c.size(1)))(E.array(lambda i, j: a[i] * b[j])))
P("size_rep_comp_t", "a:f[n,m]", "n=2 m=3", "C09", lambda E, a: (lambda c: (c.size(0), c.size(1)))(E.array(lambda j, i: a[i, j])))
P("size_rep_dyn", "a:f[n];s:i{0..4}", "n=2", "C09", lambda E, a, s: E.array(lambda i: a[i], size=s).size(), dyn="s")
P("size_rep_nested", "a:f[n,m,k]", "n=2 m=3 k=4", "C09", lambda E, a: (lambda c: (c.size(0), c.size(1), c.size(2)))(E.array(lambda k, i: a[i, :, k] if False else E.array(lambda j: a[i, j, k], size=3), size=(4, 2))))
P("size_rep_in", "a:f[n];b:f[m]", "n=2 m=3", "C09", lambda E, a, b: E.array(lambda i: a[i] * b.size().float() - a.size().float()))
P("size_of_row_in", "a:f[n,m]", "n=2 m=3", "C09", lambda E, a: E.array(lambda i: a[i, 0] * a[i].size().float()))
P("size_concat", "a:f[n];b:f[m]", "n=2 m=3 | n=0 m=0", "C09 C16", lambda E, a, b: a.concat(b).size())
P("size_fold_grow", "a:f[n];x:f", "n=2", "C09 C16", lambda E, a, x: E.fold(a, lambda i, acc: acc.concat(a), count=2), skip="jax")
P("size_fold_grow_read", "a:f[n]", "n=2", "C09 C16", lambda E, a: (lambda g: E.array(lambda i: g[i] * 2.0))(E.fold(a, lambda i, acc: acc.concat(acc), count=2)), skip="jax")
P("size_fold_grow_read2", "a:f[n]", "n=2", "C09", lambda E, a: (lambda g: E.array(lambda i: g[i] - a[0]))(E.fold(a, lambda i, acc: E.array(lambda j: acc[j - 1], size=acc.size() + 1), count=2)), skip="jax")
P("size_fold_shrink", "a:f[n]", "n=3", "C09", lambda E, a: (lambda g: (E.array(lambda i: g[i] * 2.0), g.size()))(E.fold(a, lambda i, acc: E.array(lambda j: acc[j] + acc[j + 1], size=acc.size() - 1), count=2)), skip="jax")
P("size_fold_fixed", "a:f[n];b:f[m]", "n=2 m=2 | n=3 m=2", "C09", lambda E, a, b: (lambda g: E.array(lambda i: g[i] - a[i], size=2))(E.fold(b, lambda i, acc: E.array(lambda j: acc[j] * a[j]), count=2)), skip="all")
P("size_fold_body", "a:f[n]", "n=3", "C09 C03", lambda E, a: E.fold(a, lambda i, acc: E.array(lambda j: acc[j] - a[j], size=a.size()), count=2))
P("size_fold_zero", "a:f[n];b:f[m]", "n=2 m=3", "C09", lambda E, a, b: (lambda g: g.size())(E.fold(a, lambda i, acc: b, count=0)), skip="jax")
P("size_fold_switch", "a:f[n];b:f[m]", "n=2 m=3", "C09", lambda E, a, b: (lambda g: (E.array(lambda i: g[i] * 1.5), g.size()))(E.fold(a, lambda i, acc: b, count=1)), skip="jax")
P("size_fold_dyn", "a:f[n];s:i{0..3}", "n=2", "C09", lambda E, a, s: E.fold(a, lambda i, acc: acc.concat(a), count=s), dyn="s", skip="jax")
P("size_fold_sizes_read", "a:f[n];s:i{0..2}", "n=2", "C09 C03", lambda E, a, s: (lambda g: E.fold_sum(lambda i: g[i] * g[i]))(E.fold(a, lambda i, acc: acc.concat(a), count=s)), dyn="s", skip="jax")
P("size_nested_comp", "a:f[n,m]", "n=2 m=3 | n=3 m=2", "C09", lambda E, a: (lambda b: E.array(lambda j, i: b[i, j] * b[i, 0]))(E.array(lambda i, j: a[i, j] - 1.0)))
P("size_inner_outer", "a:f[n,m];b:f[m]", "n=2 m=3", "C09", lambda E, a, b: E.array(lambda i: E.array(lambda j: a[i, j] * b[j]).size()))
P("size_assume", "a:f[n];b:f[n]", "n=3", "C09", lambda E, a, b: E.array(lambda i: a[i] * b[i]))
P("size_three_cand", "a:f[n];b:f[n,m];c:f[m,n]", "n=2 m=3 | n=2 m=2", "C09", lambda E, a, b, c: E.array(lambda i, j: a[i] * b[i, j] - c[j, i]))
P("size_swap_coinc", "a:f[n,m]", "n=2 m=2 | n=2 m=3", "C09", lambda E, a: E.array(lambda i, j: a[i, j] - a[j, i], size=(a.size(0), a.size(1))))
P("size_swap_coinc2", "a:f[n,m]", "n=2 m=2 | n=2 m=3 | n=3 m=2", "C09", lambda E, a: E.array(lambda i, j: a[j, i] * 2.0, size=(a.size(0), a.size(1))))
P("size_row_equal", "a:f[n,m];b:f[k]", "n=2 m=3 k=3 | n=2 m=3 k=2", "C09 C02", lambda E, a, b: E.array(lambda i, j: a[i, j] - b[j], size=(2, b.size())))
P("size_let", "a:f[n]", "n=3", "C09 C14", lambda E, a: E.let(E.array(lambda i: a[i] * 2.0), lambda b: E.array(lambda i: b[i] - a[i])))
P("size_let_dyn", "a:f[n];s:i{0..4}", "n=2", "C09 C14", lambda E, a, s: E.let(E.array(lambda i: a[i] * 2.0, size=s), lambda b: E.array(lambda i: b[i] - a[i], size=s)), dyn="s")
P("size_let_mixed", "a:f[n];b:f[m]", "n=2 m=3", "C09 C14", lambda E, a, b: E.let(E.array(lambda i: a[i] - 1.0, size=b.size()), lambda c: E.array(lambda i: c[i] * b[i])))
P("size_get_dyn", "a:f[n];s:i{0..3}", "n=2", "C09", lambda E, a, s: (lambda m: E.array(lambda j, i: m[i, j], size=(2, s)))(E.array(lambda i, j: a[i] * j.float(), size=(s, 2))), dyn="s")
P("size_prod", "a:f[n];b:f[m]", "n=2 m=3", "C09", lambda E, a, b: E.array(lambda t: a[t % a.size()] * b[t], size=a.size() * b.size()))
P("size_flatten", "a:f[n,m]", "n=2 m=3 | n=0 m=3", "C09", lambda E, a: E.array(lambda t: a[0, t % a.size(1)] * t.float(), size=a.size(0) * a.size(1)))

# ============================================================ C14: sharing
P("share_scalar", "x:f;y:f", "", "C14", lambda E, x, y: (lambda s: s * s - s)(x * y + 1.0))
P("share_vec", "a:f[n]", "n=3", "C14", lambda E, a: (lambda b: E.array(lambda i: b[i] * b[0] - b[2]))(E.array(lambda i: a[i] * 2.0 + 1.0)))
P("share_two_idx", "a:f[n,m]", "n=3 m=3", "C14", lambda E, a: E.array(lambda i, j: (lambda f: f(i, j) - f(j, i))(lambda p, q: a[p, q] * a[p, 0] + 1.0)))
P("share_diff_idx", "a:f[n]", "n=3", "C14", lambda E, a: E.array(lambda i, j: (a[i] + 1.0) * (a[j] + 1.0) - (a[i] + 1.0)))
P("share_in_fold", "a:f[n];x:f", "n=3", "C14", lambda E, a, x: (lambda s: E.fold(s, lambda i, acc: acc * s + a[i] * s))(x * x + 1.0))
P("share_fold_inv", "a:f[n];x:f", "n=3", "C14", lambda E, a, x: E.fold(0.0, lambda i, acc: acc * (x * x + x.exp()) + a[i]))
P("share_fold_inv_idx", "a:f[n];b:f[m]", "n=2 m=3", "C14", lambda E, a, b: E.array(lambda i: E.fold(1.0, lambda k, acc: acc * (a[i] * a[i] - 2.0) + b[k])))
P("share_fold_inv_vec", "a:f[n];b:f[m]", "n=2 m=3", "C14", lambda E, a, b: E.array(lambda i: E.fold(1.0, lambda k, acc: acc + acc * E.array(lambda t: b[t] * a[i])[k])))
P("share_count_body", "a:f[n];s:i{0..3}", "n=3", "C14", lambda E, a, s: E.fold(1.0, lambda i, acc: acc * a[i] + (s + 1).float(), count=s + 1), dyn="s")
P("share_init_body", "a:f[n];x:f", "n=2", "C14", lambda E, a, x: E.fold(x * 2.0, lambda i, acc: acc * (x * 2.0) + a[i]))
P("share_nested_folds", "a:f[n]", "n=2", "C14", lambda E, a: (lambda s: E.fold(s, lambda i, acc: E.fold(acc, lambda j, t: t * s + a[j], count=2), count=2))(a[0] * a[1]))
P("share_nested_same", "a:f[n]", "n=2", "C14", lambda E, a: E.fold(1.0, lambda i, acc: acc * a[i] + E.fold(1.0, lambda j, t: t * a[j] + a[i])))
P("share_two_folds", "a:f[n]", "n=3", "C14", lambda E, a: (lambda f, g: f * g - f)(E.fold(1.0, lambda i, acc: acc * a[i] + 1.0), E.fold(2.0, lambda i, acc: acc * a[i] + 1.0)))
P("share_two_sums", "a:f[n];b:f[n]", "n=2", "C14", lambda E, a, b: (lambda s: E.array(lambda i: a[i] * s - E.fold_sum(lambda k: a[k] * b[k])))(E.fold_sum(lambda k: a[k] * b[k])))
P("share_const_eq", "a:f[n]", "n=2", "C14", lambda E, a: E.array(lambda i: a[i] * 2.0 + 2.0 - i.float() * 2.0))
P("share_const_kinds", "a:f[n];p:i[n]", "n=2", "C14 C11", lambda E, a, p: (E.array(lambda i: a[i] * 1.0 + 1.0), E.array(lambda i: p[i] * 1 + 1)))
P("share_const_kinds2", "a:f[n]", "n=2", "C14 C11", lambda E, a: E.array(lambda i: E.where(i == 1, 1.0, a[i] * (i + 1).float())))
P("share_zero_bool", "a:b[n];x:f", "n=2", "C14 C11", lambda E, a, x: E.array(lambda i: E.where(a[i] & True, x * 1.0, (i * 1 + 0).float())))
P("share_let1", "x:f;y:f", "", "C14", lambda E, x, y: E.let(x * y, lambda s: s * s - x))
P("share_let2", "a:f[n]", "n=3", "C14", lambda E, a: E.let(E.array(lambda i: a[i] * a[i]), lambda b: E.array(lambda i: b[i] - b[0])))
P("share_let_nest", "x:f;y:f", "", "C14", lambda E, x, y: E.let(x + y, lambda s: E.let(s * x, lambda t: t - s * t)))
P("share_let_in_arr", "a:f[n];b:f[m]", "n=2 m=3", "C14", lambda E, a, b: E.array(lambda i, j: E.let(a[i] * 2.0, lambda s: s * b[j] - s)))
P("share_let_in_arr_t", "a:f[n];b:f[m]", "n=2 m=3", "C14", lambda E, a, b: E.array(lambda j, i: E.let(a[i] * b[j], lambda s: s * s - b[j])))
P("share_let_vec_in_arr", "a:f[n,m]", "n=2 m=3", "C14", lambda E, a: E.array(lambda i: E.let(E.array(lambda j: a[i, j] * 2.0), lambda r: E.array(lambda j: r[j] - r[0]))), skip="naive")
P("share_let_fold", "a:f[n];x:f", "n=2", "C14 C03", lambda E, a, x: E.fold(x, lambda i, acc: E.let(acc * a[i], lambda s: s * s - acc)))
P("share_let_shadow", "x:f", "", "C14", lambda E, x: E.let(x * 2.0, lambda s: E.let(s + x, lambda t: E.let(t * s, lambda u: u - t + s))))
P("share_let_idx", "a:f[n];b:f[m]", "n=2 m=3", "C14", lambda E, a, b: E.array(lambda i: E.let(a[i] - 1.0, lambda s: E.array(lambda j: b[j] * s))))
P("share_under_binders", "a:f[n,m]", "n=2 m=2", "C14", lambda E, a: (lambda row: E.array(lambda i: E.fold_sum(lambda k: row(i)[k] * row(k)[i])))(lambda p: E.array(lambda q: a[p, q] + 1.0)))
P("share_invariant_arr", "a:f[n];b:f[m]", "n=2 m=3", "C14", lambda E, a, b: E.fold(a, lambda k, acc: E.array(lambda i: acc[i] * E.fold_sum(lambda j: b[j] * b[j])), count=2))
P("share_invariant_cond", "a:f[n];x:f", "n=3", "C14", lambda E, a, x: E.fold(x, lambda i, acc: E.where(x < 0.0, acc - a[i], acc * (x * x))))
P("share_idx_and_loop", "a:f[n];b:f[n]", "n=2", "C14", lambda E, a, b: E.array(lambda i: E.fold(a[i] * b[i], lambda k, acc: acc * (a[i] * b[i]) + a[k] * b[k])))
P("share_red_body", "a:f[n];x:f", "n=3", "C14 C04", lambda E, a, x: (lambda s: a.reduce(0.0, lambda p, q: p + q + (s - s)) * s)(x * x))
P("share_three_levels", "a:f[n]", "n=2", "C14", lambda E, a: (lambda p: (lambda q: (lambda r: r * q - p * r)(q * q + p))(p * p + a[1]))(a[0] + 1.0))
P("share_diamond", "a:f[n]", "n=2", "C14", lambda E, a: E.array(lambda i: (lambda s: (s + 1.0) * (s - 1.0) + (s + 1.0))(a[i] * a[i])))
P("share_diamond_vec", "a:f[n,m]", "n=2 m=2", "C14", lambda E, a: (lambda b: (lambda c, d: E.array(lambda i, j: c[i, j] - d[j, i]))(E.array(lambda i, j: b[i, j] + 1.0), E.array(lambda j, i: b[i, j] * 2.0)))(E.array(lambda i, j: a[i, j] * a[i, j])))
P("share_same_comp", "a:f[n]", "n=2", "C14", lambda E, a: E.array(lambda i: E.array(lambda j: a[j] * a[i])[0] - E.array(lambda j: a[j] * a[i])[1]))
P("share_shift_reuse", "a:f[n]", "n=3", "C14 C02", lambda E, a: (lambda b: E.array(lambda i: b[i + 1] - b[i] * b[i - 1]))(E.array(lambda i: a[i] * 2.0)))
P("share_where_dup", "a:f[n];c:b[n]", "n=2", "C14", lambda E, a, c: E.array(lambda i: (lambda t: E.where(c[i], t, -t) * t)(a[i] + 1.0)))
P("share_inf", "a:f[n]", "n=2", "C14 C19", lambda E, a: E.fold_min(lambda i: a[i]).max(E.fold_max(lambda i: a[i])))
P("share_int_idx_twice", "a:f[n];p:i[n]", "n=2", "C14 C02", lambda E, a, p: E.array(lambda i: a[p[i]] * a[p[i]] - a[p[0]]))
P("share_inplace", "a:f[n];b:f[n]", "n=2", "C14 C10", lambda E, a, b: (lambda t: E.array(lambda i: (t[i] + a[i]) * (t[i] - b[i])))(E.array(lambda i: a[i] * b[i])))

# ============================================================ C10: in-place reuse of buffers
P("inpl_bcast", "a:f[n];b:f[n,m]", "n=2 m=3 | n=2 m=2", "C10 C01", lambda E, a, b: E.array(lambda i, j: (a[i] * 2.0) + b[i, j]))
P("inpl_bcast_t", "a:f[n];b:f[n,m]", "n=2 m=3 | n=2 m=2", "C10 C01", lambda E, a, b: E.array(lambda j, i: (a[i] * 2.0) - b[i, j]))
P("inpl_bcast2", "a:f[n];b:f[m]", "n=2 m=3 | n=2 m=2", "C10 C01", lambda E, a, b: E.array(lambda i, j: (a[i] * 2.0) + (b[j] - 1.0)))
P("inpl_bcast1", "a:f[n];b:f[m]", "n=1 m=3 | n=3 m=1 | n=1 m=1", "C10 C01", lambda E, a, b: E.array(lambda i, j: (a[i] * 2.0 + b[j]) * (b[j] - a[i])))
P("inpl_cmp", "a:f[n];b:f[n]", "n=3", "C10 C11 C01", lambda E, a, b: E.array(lambda i: (a[i] * 2.0 < b[i]) | (a[i] + 1.0 == b[i])))
P("inpl_cmp_int", "a:i[n]", "n=3", "C10 C11 C01", lambda E, a: E.array(lambda i: a[i] + 1 <= i * 2))
P("inpl_cmp_where", "a:f[n];b:f[n]", "n=3", "C10 C11", lambda E, a, b: E.array(lambda i: E.where(a[i] * 2.0 < b[i] + 1.0, a[i], b[i])))
P("inpl_idx_cmp", "a:f[n]", "n=3", "C10 C11", lambda E, a: E.array(lambda i: E.where(i < 1, a[i], -a[i])))
P("inpl_cast", "p:i[n];a:f[n]", "n=3", "C10 C11", lambda E, p, a: E.array(lambda i: p[i].float() + a[i] * p[i].float()))
P("inpl_let_alias", "a:f[n]", "n=3", "C10 C14", lambda E, a: (lambda s: E.array(lambda i: (s[i] + s[i]) * (s[i] - 1.0) + s[i]))(E.array(lambda i: -a[i])))
P("inpl_fold_acc", "a:f[n];b:f[n]", "n=2", "C10 C03", lambda E, a, b: E.fold(a, lambda k, acc: E.array(lambda i: (acc[i] + b[i]) * acc[i]), count=2))
P("inpl_fold_acc2", "a:f[n];b:f[n]", "n=2", "C10 C03", lambda E, a, b: E.fold(a, lambda k, acc: E.array(lambda i: acc[i] * b[i] - a[i]), count=2))
P("inpl_fold_init_used", "a:f[n]", "n=2", "C10 C03", lambda E, a: (lambda f: E.array(lambda i: f[i] - a[i]))(E.fold(a, lambda k, acc: E.array(lambda i: acc[i] * 2.0 + acc[0]), count=2)))
P("inpl_range_shared", "a:f[n]", "n=3", "C10", lambda E, a: E.array(lambda i: ((i + 1) * (i + 2) - i).float() * a[i]))
P("inpl_range_shared2", "p:i[n]", "n=3", "C10", lambda E, p: E.array(lambda i, j: (i + p[j]) * (j + p[i]) - i * j, size=(3, 3)))
P("inpl_pad_alias", "a:f[n]", "n=3", "C10 C02", lambda E, a: E.array(lambda i: a[i + 1] + a[i - 1] - a[i]))
P("inpl_pad_zero", "a:f[n]", "n=3", "C10 C02", lambda E, a: E.array(lambda i: a[i + 0] + a[i], size=3))
P("inpl_pad_exact", "a:f[n]", "n=3 | n=4", "C10 C02", lambda E, a: E.array(lambda i: a[i] + 1.0, size=3))
P("inpl_reduce_axis", "a:f[n,m]", "n=2 m=3", "C10 C03", lambda E, a: E.array(lambda i: E.fold_min(lambda j: a[i, j]) + a[i, 0]))
P("inpl_where_tmp", "a:f[n];c:b[n]", "n=3", "C10", lambda E, a, c: E.array(lambda i: E.where(c[i], a[i], a[i]) + a[i]))
P("inpl_repeat", "a:f[n]", "n=2", "C10", lambda E, a: (lambda r: E.array(lambda i, j: r[i][j] + a[i], size=(2, 2)))(E.array(lambda i: a, size=2)))
P("inpl_mat_chain", "a:f[n,m];b:f[m]", "n=2 m=3", "C10", lambda E, a, b: E.array(lambda i, j: ((a[i, j] + b[j]) * a[i, j] - b[j]) / (b[j] * b[j] + 1.0)))
P("inpl_neg_add", "a:f[n]", "n=2", "C10", lambda E, a: E.array(lambda i: -a[i] + a[i] * 2.0))
P("inpl_bool", "a:b[n];b:b[n]", "n=2", "C10", lambda E, a, b: E.array(lambda i: (~a[i] & b[i]) | a[i]))
P("inpl_pow", "a:f[n]", "n=2", "C10", lambda E, a: E.array(lambda i: (a[i] * 2.0) ** 3 - a[i] ** 2))
P("inpl_recip", "a:f[n]", "n=2", "C10", lambda E, a: E.array(lambda i: 1.0 / (a[i] * a[i] + 1.0) + a[i]))

# ============================================================ C16: concat
P("cat1", "a:f[n];b:f[m]", "n=2 m=3 | n=0 m=2 | n=2 m=0 | n=0 m=0", "C16", lambda E, a, b: a.concat(b))
P("cat3", "a:f[n];b:f[m];c:f[k]", "n=1 m=2 k=3 | n=2 m=0 k=1", "C16", lambda E, a, b, c: E.concat(a, b, c))
P("cat4", "a:f[n];b:f[m]", "n=1 m=2", "C16", lambda E, a, b: E.concat(a, b, b, a))
P("cat_one", "a:f[n]", "n=2", "C16", lambda E, a: E.concat(a))
P("cat_int", "a:i[n];b:i[m]", "n=2 m=1", "C16", lambda E, a, b: b.concat(a))
P("cat_bool", "a:b[n];b:b[m]", "n=2 m=1", "C16", lambda E, a, b: b.concat(a))
P("cat_mat", "a:f[n,k];b:f[m,k]", "n=2 m=1 k=3 | n=0 m=2 k=2", "C16", lambda E, a, b: a.concat(b))
P("cat_rows", "a:f[n,m];b:f[n,k]", "n=2 m=1 k=3", "C16", lambda E, a, b: E.array(lambda i: a[i].concat(b[i])))
P("cat_rows_t", "a:f[m,n];b:f[n,k]", "n=2 m=1 k=3", "C16", lambda E, a, b: E.array(lambda i: E.array(lambda j: a[j, i]).concat(b[i])))
P("cat_diff_idx", "a:f[n,k];b:f[m,l]", "n=2 m=3 k=1 l=2", "C16", lambda E, a, b: E.array(lambda i, j: a[i].concat(b[j])))
P("cat_diff_idx_t", "a:f[n,k];b:f[m,l]", "n=2 m=3 k=1 l=2 | n=2 m=2 k=2 l=2", "C16", lambda E, a, b: E.array(lambda j, i: a[i].concat(b[j])))
P("cat_one_idx", "a:f[n,k];b:f[m]", "n=2 m=3 k=1", "C16", lambda E, a, b: E.array(lambda i: a[i].concat(b)))
P("cat_one_idx_r", "a:f[n,k];b:f[m]", "n=2 m=3 k=1", "C16", lambda E, a, b: E.array(lambda i: b.concat(a[i])))
P("cat_no_idx", "a:f[k];b:f[m]", "m=2 k=1", "C16", lambda E, a, b: E.array(lambda i: b.concat(a), size=2))
P("cat_mat_idx", "a:f[n,k,l];b:f[m,l]", "n=2 m=2 k=1 l=2", "C16", lambda E, a, b: E.array(lambda i: a[i].concat(b)))
P("cat_mat_idx2", "a:f[n,k,l];b:f[n,m,l]", "n=2 m=1 k=2 l=2", "C16", lambda E, a, b: E.array(lambda i: b[i].concat(a[i])))
P("cat_empty_mat", "a:f[n,k];b:f[m,k]", "n=0 m=0 k=2", "C16", lambda E, a, b: a.concat(b))
P("cat_comp", "a:f[n];b:f[m]", "n=2 m=3", "C16", lambda E, a, b: E.array(lambda i: a[i] * 2.0).concat(E.array(lambda i: b[i] - 1.0)))
P("cat_then_read", "a:f[n];b:f[m];s:i", "n=2 m=2", "C16 C02", lambda E, a, b, s: a.concat(b)[s])
P("cat_then_map", "a:f[n];b:f[m]", "n=2 m=1", "C16", lambda E, a, b: (lambda c: E.array(lambda i: c[i] - c[0]))(a.concat(b)))
P("cat_then_sum", "a:f[n];b:f[m]", "n=2 m=1 | n=0 m=2", "C16 C03", lambda E, a, b: (lambda c: E.fold_sum(lambda i: c[i] * c[i]))(a.concat(b)))
P("cat_self", "a:f[n]", "n=2", "C16 C14", lambda E, a: a.concat(a))
P("cat_sizes_differ_read", "a:f[n];b:f[m]", "n=2 m=1", "C16 C09", lambda E, a, b: (lambda c: E.array(lambda i: c[i] - a[i], size=3))(a.concat(b)))
P("cat_rec_nested", "a:f[n];b:f[n];c:f[m]", "n=1 m=2", "C16 C05", lambda E, a, b, c: (lambda r: E.array(lambda i: r[i][1][0] - r[i][0]))(E.array(lambda i: (a[i], (b[i], 1.0))).concat(E.array(lambda i: (c[i], (2.0, c[i]))))))
P("cat_rec_rows", "a:f[n,m];b:f[n,k]", "n=2 m=1 k=2", "C16 C05", lambda E, a, b: (lambda r: E.array(lambda i: r[i][0][1] * r[i][2][0]))(E.array(lambda i: E.array(lambda j: (a[i, j], 1.0)).concat(E.array(lambda j: (b[i, j], 2.0))))))
P("cat_vec_field", "a:f[n,k];b:f[n];c:f[m,k];d:f[m]", "n=1 m=2 k=2", "C16 C05", lambda E, a, b, c, d: (lambda r: E.array(lambda i, j: r[i][0][j] - r[i][1], size=(3, 2)))(E.array(lambda i: (a[i], b[i])).concat(E.array(lambda i: (c[i], d[i])))))
P("cat_in_fold", "a:f[n];b:f[m]", "n=2 m=2", "C16 C03", lambda E, a, b: E.fold(a.concat(b), lambda i, acc: E.array(lambda j: acc[j] * a[i], size=4)))
P("cat_fold_row", "a:f[n,m]", "n=2 m=2", "C16 C03", lambda E, a: E.array(lambda i: E.fold_sum(lambda k: a[i].concat(a[0])[k])))

# ============================================================ C17: external functions
P("ext1", "a:f[n]", "n=3 | n=0", "C17", lambda E, a: E.array(lambda i: E.ext("g1")(a[i])))
P("ext2", "a:f[n];b:f[n]", "n=3", "C17", lambda E, a, b: E.array(lambda i: E.ext("g2")(a[i], b[i])))
P("ext2_swap", "a:f[n];b:f[n]", "n=3", "C17", lambda E, a, b: E.array(lambda i: E.ext("g2")(b[i], a[i])))
P("ext2_outer", "a:f[n];b:f[m]", "n=2 m=3 | n=2 m=2", "C17", lambda E, a, b: E.array(lambda i, j: E.ext("g2")(a[i], b[j])))
P("ext2_outer_t", "a:f[n];b:f[m]", "n=2 m=3 | n=2 m=2", "C17", lambda E, a, b: E.array(lambda j, i: E.ext("g2")(a[i], b[j])))
P("ext2_mixed_rank", "a:f[n,m];b:f[m]", "n=2 m=3 | n=2 m=2", "C17", lambda E, a, b: E.array(lambda i, j: E.ext("g2")(a[i, j], b[j])))
P("ext2_mixed_rank2", "a:f[n,m];b:f[n]", "n=2 m=3 | n=2 m=2", "C17", lambda E, a, b: E.array(lambda i, j: E.ext("g2")(b[i], a[i, j])))
P("ext2_mixed_rank3", "a:f[n,m];b:f[n]", "n=2 m=3 | n=2 m=2", "C17", lambda E, a, b: E.array(lambda j, i: E.ext("g2")(a[i, j], b[i])))
P("ext2_const", "a:f[n]", "n=2", "C17", lambda E, a: E.array(lambda i: E.ext("g2")(a[i], 2.0) - E.ext("g2")(0.5, a[i])))
P("ext3", "a:f[n];b:f[m];c:f[n,m]", "n=2 m=3 | n=2 m=2", "C17", lambda E, a, b, c: E.array(lambda i, j: E.ext("g3")(b[j], c[i, j], a[i])))
P("ext3_t", "a:f[n];b:f[m];c:f[n,m]", "n=2 m=3 | n=2 m=2", "C17", lambda E, a, b, c: E.array(lambda j, i: E.ext("g3")(b[j], c[i, j], a[i])))
P("ext3_idx", "a:f[n];b:f[m];c:f[k]", "n=2 m=3 k=2", "C17", lambda E, a, b, c: E.array(lambda k, i, j: E.ext("g3")(a[i], b[j], c[k])))
P("ext_nested", "a:f[n]", "n=2", "C17", lambda E, a: E.array(lambda i: E.ext("g1")(E.ext("g2")(a[i], a[0]))))
P("ext_in_fold", "a:f[n];x:f", "n=2", "C17 C03", lambda E, a, x: E.fold(x, lambda i, acc: E.ext("g2")(acc, a[i])))
P("ext_in_sum", "a:f[n];b:f[n]", "n=2", "C17 C03", lambda E, a, b: E.fold_sum(lambda i: E.ext("g1")(a[i]) * b[i]))
P("ext_in_sum2", "a:f[n,m]", "n=2 m=2", "C17 C03", lambda E, a: E.array(lambda i: E.fold_sum(lambda j: E.ext("g1")(a[i, j]))))
P("ext_of_sum", "a:f[n,m]", "n=2 m=2", "C17 C03", lambda E, a: E.array(lambda i: E.ext("g1")(E.fold_sum(lambda j: a[i, j] * a[i, j]))))
P("ext_sig", "a:f[n];p:i[n]", "n=2", "C17", lambda E, a, p: E.array(lambda i: E.ext("g2", sig="fi")(a[i], p[i])))
P("ext_sig_idx", "a:f[n]", "n=3", "C17", lambda E, a: E.array(lambda i: E.ext("g2", sig="fi")(a[i], i)))
P("ext_scalar", "x:f;y:f", "", "C17", lambda E, x, y: E.ext("g2")(x, y))
P("ext_shift", "a:f[n]", "n=3", "C17 C02", lambda E, a: E.array(lambda i: E.ext("g2")(a[i - 1], a[i + 1]), size=3))
P("ext_gather", "a:f[n];p:i[n]", "n=2", "C17 C02", lambda E, a, p: E.array(lambda i: E.ext("g2")(a[p[i]], a[i])))
P("ext_unused", "a:f[n];x:f", "n=2", "C17", lambda E, a, x: E.array(lambda i, j: E.ext("g1")(a[i]), size=(2, 3)))
P("ext_shared", "a:f[n]", "n=2", "C17 C14", lambda E, a: E.array(lambda i: (lambda t: t * t - t)(E.ext("g1")(a[i]))))
P("ext_rec", "a:f[n];b:f[n]", "n=2", "C17 C05", lambda E, a, b: (lambda r: E.array(lambda i: r[i][1] - r[i][0]))(E.array(lambda i: (E.ext("g1")(a[i]), E.ext("g2")(b[i], a[i])))))

# ============================================================ C18: scalar operators
_ARITH = {
    "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y,
    "lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y,
    "eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "min": lambda x, y: x.min(y), "max": lambda x, y: x.max(y),
}
for _n, _f in _ARITH.items():
    for _k in "if":
        _c = 3 if _k == "i" else 2.5
        P(f"op_{_n}_{_k}", f"x:{_k};y:{_k}", "", "C18", lambda E, x, y, f=_f: f(x, y))
        P(f"op_{_n}_{_k}_const", f"x:{_k}", "", "C18", lambda E, x, f=_f, c=_c: (f(x, c), f(E.wrap(c), x)))
        if _n not in ("min", "max"):
            P(f"op_{_n}_{_k}_rconst", f"x:{_k}", "", "C18", lambda E, x, f=_f, c=_c: f(c, x))
        P(f"op_{_n}_{_k}_vec", f"a:{_k}[n];b:{_k}[m]", "n=2 m=2", "C18", lambda E, a, b, f=_f: E.array(lambda i, j: f(a[i], b[j])), thorough=True)
P("op_div", "x:f;y:f", "", "C18", lambda E, x, y: (x / y, y / x))
P("op_div_const", "x:f", "", "C18", lambda E, x: (x / 2.5, 2.5 / x, x / -4.0))
P("op_neg", "x:f;p:i", "", "C18", lambda E, x, p: (-x, -p))
P("op_mod", "p:i;q:i", "", "C18", lambda E, p, q: p % q)
for _m in (3, -3, 1, 7, -1):
    P(f"op_mod_{_m}", "p:i", "", "C18", lambda E, p, m=_m: p % m)
P("op_mod_vec", "p:i[n];q:i[n]", "n=2", "C18", lambda E, p, q: E.array(lambda i: (p[i] % q[i]) + (q[i] % p[0])))
for _e in (0, 1, 2, 3, 4, 5, 6, 7, -1, -2, -3):
    P(f"op_pow_{_e}", "x:f", "", "C18", lambda E, x, e=_e: x ** e)
for _e in (0, 1, 2, 3, 5):
    P(f"op_ipow_{_e}", "p:i", "", "C18", lambda E, p, e=_e: p ** e)
P("op_fpow", "x:f;y:f", "", "C18", lambda E, x, y: x ** y)
P("op_fpow_half", "x:f", "", "C18", lambda E, x: (x ** 0.5, x ** 2.5))
P("op_pow_vec", "a:f[n]", "n=2", "C18", lambda E, a: E.array(lambda i: a[i] ** 2 - a[i] ** 3))
P("op_abs", "x:f;p:i", "", "C18", lambda E, x, p: (x.abs(), p.abs(), abs(x)))
P("op_logic", "a:b;b:b", "", "C18", lambda E, a, b: (a & b, a | b, ~a, ~(a & ~b) | b))
P("op_logic_const", "a:b", "", "C18", lambda E, a: (a & True, a | False, a & False, a | True))
P("op_where", "c:b;x:f;y:f;p:i;q:i", "", "C18", lambda E, c, x, y, p, q: (c.where(x, y), c.where(p, q), (x < y).where(x, y), E.where(c, x, 1.0)))
P("op_where_bool", "c:b;a:b;b:b", "", "C18", lambda E, c, a, b: c.where(a, b))
P("op_fun", "x:f", "", "C18", lambda E, x: (x.exp(), x.sin(), x.cos(), x.tanh()))
P("op_float", "p:i", "", "C18", lambda E, p: p.float() / 2.0)
P("op_float_cmp", "p:i;x:f", "", "C18", lambda E, p, x: (p.float() < x, x <= p.float(), p.float() == x))
P("op_chain", "x:f;y:f;z:f", "", "C18", lambda E, x, y, z: (x - y - z, x - (y - z), x / y / z, x / (y / z), -(x - y) * z, 1.0 - x - 2.0))
P("op_chain_i", "x:i;y:i;z:i", "", "C18", lambda E, x, y, z: (x - y - z, x - (y - z), 3 - x * (y - 1), (x * y) % 5 - z))
P("op_minmax_n", "x:f;y:f;z:f", "", "C18 C19", lambda E, x, y, z: (E.min(x, y, z), E.max(x, y, z), E.min(x), E.max(x, 2.0)))
P("op_minmax_i", "x:i;y:i;z:i", "", "C18 C19", lambda E, x, y, z: (E.min(x, y, z), E.max(x, y, z), E.min(x, 2), E.max(-1, x)))
P("op_cmp_chain", "x:f;y:f;z:f", "", "C18", lambda E, x, y, z: (x < y) & (y < z) | ~(x >= z))
P("op_vec_div", "a:f[n];b:f[m]", "n=2 m=2", "C18", lambda E, a, b: E.array(lambda i, j: a[i] / b[j] - b[j] / 2.0))
P("op_vec_mix", "a:f[n];p:i[n]", "n=2", "C18", lambda E, a, p: E.array(lambda i: (2.0 - a[i]) * (3 - p[i]).float() + (i - 5).float()))
P("op_vec_rsub", "a:f[n]", "n=2", "C18", lambda E, a: E.array(lambda i: 1.0 - a[i]))
P("op_vec_rdiv", "a:f[n]", "n=2", "C18", lambda E, a: E.array(lambda i: 1.0 / a[i] - 3.0 / a[0]))
P("op_vec_abs", "a:f[n];p:i[n]", "n=2", "C18", lambda E, a, p: (E.array(lambda i: a[i].abs()), E.array(lambda i: p[i].abs() - i)))
P("op_vec_cmp", "a:f[n];b:f[n]", "n=2", "C18", lambda E, a, b: tuple((lambda f: E.array(lambda i: f(a[i], b[i])))(f) for f in (_ARITH["lt"], _ARITH["le"], _ARITH["gt"], _ARITH["ge"], _ARITH["eq"], _ARITH["ne"])))

# ============================================================ C19: std library
P("argmin", "a:f[n]", "n=0 | n=1 | n=2 | n=3", "C19 C03", lambda E, a: E.fold_argmin(lambda i: a[i]), deep="n=4 | n=5")
P("argmin_int", "a:f[n]", "n=3", "C19", lambda E, a: E.fold_argmin(lambda i: a[i] * a[i]))
P("argmin_rows", "a:f[n,m]", "n=2 m=3", "C19", lambda E, a: E.array(lambda i: E.fold_argmin(lambda j: a[i, j])))
P("argmin_cols", "a:f[n,m]", "n=3 m=2", "C19", lambda E, a: E.array(lambda j: E.fold_argmin(lambda i: a[i, j]), size=2))
P("argmin_outer", "a:f[n];b:f[m]", "n=2 m=2", "C19", lambda E, a, b: E.array(lambda i: E.fold_argmin(lambda j: (a[i] - b[j]) * (a[i] - b[j]))))
P("red_argmin_rows", "a:f[n,m]", "n=2 m=3", "C19 C04", lambda E, a: E.array(lambda i: E.reduce_argmin(lambda j: a[i, j])))
P("argmin_use", "a:f[n];b:f[n]", "n=3", "C19 C02", lambda E, a, b: b[E.fold_argmin(lambda i: a[i])])
P("argmin_count", "a:f[n]", "n=3", "C19", lambda E, a: E.fold_argmin(lambda i: a[i], count=5))
P("red_min_rows", "a:f[n,m]", "n=2 m=3 | n=2 m=0", "C19 C04", lambda E, a: E.array(lambda i: E.reduce_min(lambda j: a[i, j])))
P("red_max_count", "a:f[n]", "n=3", "C19 C04", lambda E, a: E.reduce_max(lambda j: a[j], count=2))
P("red_sum_rows", "a:f[n,m]", "n=2 m=3", "C19 C04", lambda E, a: E.array(lambda i: E.reduce_sum(lambda j: a[i, j] * a[0, j])))
P("or_empty", "a:f[n];x:f", "n=3 | n=0", "C19", lambda E, a, x: a.or_empty(0, x))
P("or_empty_idx", "a:f[n];x:f;s:i", "n=2 | n=0", "C19", lambda E, a, x, s: a.or_empty(s, x))
P("or_empty_rows", "a:f[n,m];x:f[n]", "n=2 m=2 | n=2 m=0", "C19", lambda E, a, x: E.array(lambda i: a[i].or_empty(1, x[i])))
P("or_empty_i", "a:i[n]", "n=2 | n=0", "C19", lambda E, a: a.or_empty(1, -1))
P("where_rec", "c:b;x:f;y:f", "", "C19 C05", lambda E, c, x, y: E.where(c, (x, {"a": y}), (y, {"a": x * 2.0})))
P("where_vec", "c:b[n];a:f[n,m];b:f[n,m]", "n=2 m=2", "C19", lambda E, c, a, b: E.array(lambda i: E.where(c[i], a[i], b[i])))
P("where_mat", "c:b;a:f[n,m];b:f[n,m]", "n=2 m=2", "C19", lambda E, c, a, b: E.where(c, a, b))
P("where_vec_rec", "c:b;a:f[n];b:f[n]", "n=2", "C19 C05", lambda E, c, a, b: (lambda r: E.array(lambda i: r[i][0] - r[i][1]))(E.where(c, E.array(lambda i: (a[i], b[i])), E.array(lambda i: (b[i], 1.0)))))
P("minmax_of_idx", "a:f[n]", "n=3", "C19", lambda E, a: E.array(lambda i, j: E.min(a[i], a[j], 1.0) - E.max(a[i], a[j], -1.0)))
P("fold_min_idx", "a:f[n]", "n=3", "C19 C03", lambda E, a: E.fold_min(lambda i: a[i] * i.float()))
P("fold_max_nested", "a:f[n,m]", "n=2 m=2", "C19 C03", lambda E, a: E.array(lambda i: E.fold_max(lambda j: a[i, j] * a[j, i])))
P("fold_sum_count0", "a:f[n]", "n=2", "C19 C03", lambda E, a: E.fold_sum(lambda i: a[i], count=0))
P("fold_min_count0", "a:f[n]", "n=2", "C19 C03", lambda E, a: E.fold_min(lambda i: a[i], count=0))
P("logsumexpish", "a:f[n]", "n=2", "C19", lambda E, a: (lambda m: m + E.fold_sum(lambda i: (a[i] - m).exp()))(E.reduce_max(lambda i: a[i])))

# ============================================================ regressions and corners found by reading the code
P("size_grow1", "a:f[n]", "n=2 | n=3", "C09 C03", lambda E, a: (lambda g: E.array(lambda i: g[i] - a[i], size=a.size()))(
    E.fold(a, lambda i, acc: E.array(lambda j: acc[j] + a[j]).concat(a), count=1)), skip="jax")
P("size_grow1_inner", "a:f[n]", "n=2", "C09 C03", lambda E, a: (lambda g: E.array(lambda i: g[i] - a[i], size=a.size()))(
    E.fold(a, lambda i, acc: E.array(lambda j: acc[j] + a[j], size=a.size()).concat(E.array(lambda j: acc[j] * 2.0, size=1)), count=1)), skip="jax")
P("size_grow_init", "a:f[n];b:f[m]", "n=2 m=3 | n=3 m=2", "C09 C03", lambda E, a, b: (lambda g: E.array(lambda i: g[i] - a[i], size=a.size()))(
    E.fold(a, lambda i, acc: E.array(lambda j: b[j] + acc[j], size=b.size()), count=1)), skip="jax")
P("red_batch_vec", "a:f[n,m];z:f[p]", "n=2 m=3 p=2", "C04", lambda E, a, z: E.array(lambda i, k: E.array(lambda j: E.array(lambda p: a[i, j] * k.float() + z[p])).reduce(
    E.array(lambda p: 0.0 * z[p]), lambda x, y: E.array(lambda p: x[p] + y[p])), size=(2, 3)))
P("red_batch_vec_neg", "a:f[n,m];z:f[p]", "n=2 m=3 p=2", "C04", lambda E, a, z: E.array(lambda i, k: E.array(lambda j: E.array(lambda p: a[i, j] * k.float() + z[p])).reduce(
    z, lambda x, y: E.array(lambda p: -z[p] + x[p] + y[p])), size=(2, 3)))
P("red_batch_vec_neg1", "a:f[n,m];z:f[p]", "n=2 m=3 p=2 | n=2 m=2 p=2", "C04", lambda E, a, z: E.array(lambda i: E.array(lambda j: E.array(lambda p: a[i, j] + z[p])).reduce(
    z, lambda x, y: E.array(lambda p: -z[p] + x[p] + y[p]))))
P("red_vec_neg", "a:f[m];z:f[p]", "m=3 p=2 | m=2 p=2", "C04", lambda E, a, z: E.array(lambda j: E.array(lambda p: a[j] + z[p])).reduce(
    z, lambda x, y: E.array(lambda p: -z[p] + x[p] + y[p])))
P("red_batch_scalar_z", "a:f[n,m];z:f[n]", "n=2 m=3 | n=3 m=2", "C04", lambda E, a, z: E.array(lambda i: E.array(lambda j: a[i, j] + z[i]).reduce(z[i], lambda x, y: x - z[i] + y)))
P("red_batch_scalar_zz", "a:f[m];z:f[n]", "n=2 m=3 | n=3 m=2", "C04", lambda E, a, z: E.array(lambda i: E.array(lambda j: a[j] + z[0]).reduce(z[0], lambda x, y: x - z[0] + y + (z[i] - z[i]))))
P("red_batch_body_idx", "a:f[m];z:f[n]", "n=2 m=3 | n=3 m=2 | n=2 m=2", "C04", lambda E, a, z: E.array(lambda i: E.array(lambda j: a[j] + z[i]).reduce(z[i], lambda x, y: -z[i] + x + y)))
P("red_unused_axis", "a:f[m];z:f[n]", "n=2 m=3", "C04", lambda E, a, z: E.array(lambda i, k: E.array(lambda j: a[j] * z[i]).reduce(1.0, lambda x, y: x * y), size=(2, 2)))
P("red_right", "a:f[n,m]", "n=2 m=3", "C04", lambda E, a: E.array(lambda i: E.array(lambda j: a[i, j]).reduce(7.0, lambda x, y: y)) if False else E.array(lambda i: E.array(lambda j: (a[i, j], True)).reduce((0.0, False), lambda x, y: (E.where(y[1], y[0], x[0]), x[1] | y[1]))[0]))

# ============================================================ coincidences: equal data, equal types, equal sizes
_c23, _c32 = np.arange(6.0).reshape(2, 3), np.arange(6.0).reshape(3, 2)
P("const_two_shapes", "x:f", "", "C14 C09", lambda E, x: (lambda A, B: E.array(lambda i: A[i, 0] * x + B[i, 0], size=2))(E.wrap(_c23), E.wrap(_c32)))
P("const_two_shapes2", "x:f", "", "C14 C09", lambda E, x: (lambda A, B: E.array(lambda i, j: A[i, j] * x + B[j, i]))(E.wrap(_c23), E.wrap(_c32)))
P("const_two_shapes3", "x:f", "", "C14 C09", lambda E, x: (lambda A, B: E.fold_sum(lambda i: E.fold_sum(lambda j: A[i, j] * B[j, i]) * x))(E.wrap(_c32), E.wrap(_c23)))
P("const_row_col", "x:f", "", "C14 C09", lambda E, x: (lambda A, B: E.array(lambda i, j: A[0, j] * x - B[i, 0]))(E.wrap(np.arange(3.0).reshape(1, 3)), E.wrap(np.arange(3.0).reshape(3, 1))))
P("const_two_empty", "x:f", "", "C14 C09", lambda E, x: (E.array(lambda i, j: E.wrap(np.zeros((0, 2)))[i, j] + x), E.array(lambda i, j: E.wrap(np.zeros((2, 0)))[i, j] + x)))
P("const_two_kinds", "x:f", "", "C14", lambda E, x: (lambda A, B: E.array(lambda i: A[i] * x + B[i].float() * 0.5))(E.wrap(np.array([1.0, 0.0, 2.0])), E.wrap(np.array([1, 0, 2]))))
P("const_two_kinds_b", "x:f", "", "C14", lambda E, x: (lambda A, B: E.array(lambda i: E.where(A[i], x, B[i].float() * 0.5)))(E.wrap(np.array([True, False])), E.wrap(np.array([1, 0]))))
P("const_scalar_kinds", "x:f;p:i", "", "C14", lambda E, x, p: (E.wrap(1.0) * x, E.wrap(1) * p, E.where(E.wrap(True), x, 1.0), p - 1, x - 1.0))
P("const_scalar_kinds0", "x:f;p:i", "", "C14", lambda E, x, p: E.where(p == 0, x * 0.0 + 1.0, (p + 1).float() - 0.0))
P("const_signs", "x:f", "", "C14", lambda E, x: (x * 1.0 + x * -1.0 * x, (x - 1.0) * (x + 1.0), x * 2.0 - x * 2.5))
P("const_nan_free", "a:f[n]", "n=2", "C14", lambda E, a: E.array(lambda i: E.array(lambda j: E.wrap(np.array([[1.0, 2.0], [1.0, 3.0]]))[i, j] * a[j])[1] - E.wrap(np.array([[1.0, 2.0], [2.0, 3.0]]))[i, 1]))
P("size_cat_other", "a:f[n];b:f[m]", "n=2 m=4 | n=3 m=2", "C09 C16", lambda E, a, b: (lambda c: E.array(lambda i: a[i] + c[i + 1], size=b.size()))(a.concat(b)))
P("size_cat_other2", "a:f[n];b:f[m]", "n=2 m=4 | n=3 m=2", "C09 C16", lambda E, a, b: (lambda c: E.array(lambda i: b[i] - c[i], size=a.size()))(a.concat(b)))
P("size_cat_sum", "a:f[n];b:f[m]", "n=2 m=3 | n=3 m=1", "C09 C16", lambda E, a, b: (lambda c: E.array(lambda i: c[i] * a[i] - b[i], size=a.size() + b.size()))(a.concat(b)))
P("size_cat_whole", "a:f[n];b:f[m]", "n=2 m=3 | n=3 m=1", "C09 C16", lambda E, a, b: (lambda c: E.array(lambda i: c[i] - a[i], size=c.size()))(a.concat(b)))
P("size_cat_whole2", "a:f[n];b:f[m]", "n=2 m=3 | n=3 m=1", "C09 C16", lambda E, a, b: (lambda c: E.array(lambda i: c[c.size() - 1 - i] - b[i], size=c.size()))(a.concat(b)))
P("size_cat_mat", "a:f[n,k];b:f[m,k]", "n=2 m=3 k=2 | n=3 m=1 k=2", "C09 C16", lambda E, a, b: (lambda c: E.array(lambda i, j: c[i, j] - a[i, 0] * b[i, j], size=(b.size(), a.size(1))))(a.concat(b)))
P("size_cat_three", "a:f[n];b:f[m];c:f[k]", "n=1 m=2 k=3", "C09 C16", lambda E, a, b, c: (lambda d: E.array(lambda i: d[i] - a[i] * b[i] + c[i], size=c.size()))(a.concat(b).concat(c)))
P("size_cat_under", "a:f[n,k];b:f[m]", "n=2 m=3 k=2", "C09 C16", lambda E, a, b: E.array(lambda i: (lambda c: E.array(lambda j: c[j] - a[i, j], size=b.size()))(a[i].concat(b))))
P("size_where_other", "c:b;a:f[n];b:f[n];d:f[m]", "n=3 m=2 | n=2 m=4", "C09 C19", lambda E, c, a, b, d: (lambda w: E.array(lambda i: w[i] - d[i], size=d.size()))(E.where(c, a, b)))
P("size_fold_other", "a:f[n];d:f[m]", "n=3 m=2 | n=2 m=4", "C09 C03", lambda E, a, d: (lambda w: E.array(lambda i: w[i] - d[i], size=d.size()))(E.fold(a, lambda k, acc: E.array(lambda j: acc[j] * d[k]))))
P("size_reduce_other", "a:f[n,k];d:f[m]", "n=2 k=2 m=3", "C09 C04", lambda E, a, d: (lambda w: E.array(lambda i: w[i] - d[i], size=d.size()))(
    a.reduce(E.array(lambda j: 0.0, size=2), lambda x, y: E.array(lambda j: x[j] + y[j]))))
P("size_gather_other", "a:f[n];p:i[m]", "n=3 m=2 | n=2 m=4", "C09 C02", lambda E, a, p: (lambda w: E.array(lambda i: w[i] - a[i], size=a.size()))(E.array(lambda i: a[p[i]])))
P("size_mul", "a:f[n];b:f[m]", "n=2 m=3", "C09", lambda E, a, b: E.array(lambda i: a[i] - b[i], size=a.size() * b.size() - 3))
P("size_minmax", "a:f[n];b:f[m]", "n=2 m=3 | n=3 m=1", "C09", lambda E, a, b: (E.array(lambda i: a[i] - b[i], size=E.min(a.size(), b.size())), E.array(lambda i: a[i] * b[i], size=E.max(a.size(), b.size()))))
P("size_where", "a:f[n];b:f[m];c:b", "n=2 m=3", "C09", lambda E, a, b, c: E.array(lambda i: a[i] - b[i], size=E.where(c, a.size(), b.size())), dyn="c", skip="jax")
P("size_half", "a:f[n]", "n=4 | n=3", "C09", lambda E, a: E.array(lambda i: a[i * 2] - a[i], size=a.size() - 2))
P("einsum_nine", "a:f[n,m,m,n,m];b:f[m,n,m,m,n]", "n=1 m=2", "C03", lambda E, a, b: E.array(lambda i, j, k, l, m, n, o, p: E.fold_sum(lambda t: a[i, j, k, l, t] * b[t, m, n, o, p])))
P("einsum_nine_b", "a:f[n,n,n,n,m];b:f[m,m,n,n,n]", "n=1 m=2", "C03", lambda E, a, b: E.array(lambda i, j, k, l, m, n, o, p: E.fold_sum(lambda t: a[i, j, k, l, t] * b[t, m, n, o, p])))
P("einsum_ten_red", "a:f[n,n,m,m];b:f[m,m,n,n];c:f[n,n,m,m]", "n=1 m=2", "C03", lambda E, a, b, c: E.array(lambda i, j, k, l, m, n: E.fold_sum(lambda t: E.fold_sum(lambda u: a[i, j, t, u] * b[t, u, k, l] * c[m, n, t, u]))))
_two = lambda E, a, b, f: f(E.fold((0.0, 1.0), lambda i, s: (s[0] + a[i] * s[1], s[1] * a[i])), E.fold((2.0, 1.0), lambda i, s: (s[0] - b[i] * s[1], s[1] * b[i])))
P("same_type_mix", "a:f[n];b:f[n]", "n=2", "C05", lambda E, a, b: _two(E, a, b, lambda u, v: (u[0], v[1])))
P("same_type_mix_arr", "a:f[n];b:f[n]", "n=2", "C05", lambda E, a, b: _two(E, a, b, lambda u, v: (lambda r: E.array(lambda i: r[i][0] - r[i][1] * 3.0))(E.array(lambda i: (u[0], v[1]), size=2))))
P("same_type_mix_fold", "a:f[n];b:f[n]", "n=2", "C05", lambda E, a, b: _two(E, a, b, lambda u, v: E.fold((u[0], v[1]), lambda i, s: (s[0] + a[i], s[1] * 2.0))[1]))
P("same_type_mix_where", "a:f[n];b:f[n];c:b", "n=2", "C05", lambda E, a, b, c: _two(E, a, b, lambda u, v: (lambda w: w[0] - w[1])(E.where(c, (u[0], v[1]), (v[0], u[1])))))
P("same_type_mix_rows", "a:f[n];b:f[n]", "n=2", "C05", lambda E, a, b: (lambda u, v: (lambda r: E.array(lambda i: r[i][0] - r[i][1] * r[0][1]))(E.array(lambda i: (u[i][0], v[i][1]))))(
    E.array(lambda i: (a[i], a[i] * b[0])), E.array(lambda i: (b[i] - a[0], b[i]))))
P("same_type_mix_rows2", "a:f[n];b:f[n]", "n=2", "C05", lambda E, a, b: (lambda u, v: (lambda r: E.array(lambda i: r[i][0] - r[i][1]))(E.array(lambda i: (u[i][0], v[1 - i][1]), size=2)))(
    E.array(lambda i: (a[i], a[i] * b[0])), E.array(lambda i: (b[i] - a[0], b[i]))))
P("same_rec_reads", "a:f[n];b:f[n]", "n=2", "C05", lambda E, a, b: (lambda u: (lambda r: E.array(lambda i: r[i][0] - r[i][1]))(E.array(lambda i: (u[i][0], u[0][1]))))(E.array(lambda i: (a[i], b[i] * a[0]))))
P("same_rec_shift", "a:f[n];b:f[n]", "n=3", "C05", lambda E, a, b: (lambda u: (lambda r: E.array(lambda i: r[i][0] - r[i][1]))(E.array(lambda i: (u[i][0], u[i + 1][1]))))(E.array(lambda i: (a[i], b[i] * a[0]))))
P("same_type_fold_state", "a:f[n];b:f[n]", "n=2", "C05 C03", lambda E, a, b: _two(E, a, b, lambda u, v: E.fold(u, lambda i, s: (s[0], v[1] * s[1]), count=2)))
P("same_type_fold_state2", "a:f[n];b:f[n]", "n=2", "C05 C03", lambda E, a, b: _two(E, a, b, lambda u, v: E.fold(((u[0], v[1]), (v[0], u[1])), lambda i, s: ((s[1][0], s[0][1]), (s[0][0], s[1][1] * a[i])))))
P("tuple_of_arr_mix", "a:f[n];b:f[n]", "n=2", "C05", lambda E, a, b: (lambda u, v: E.array(lambda i: u[i][0] * v[i][1]))(E.array(lambda i: (b[i], a[i])), E.array(lambda i: (a[i], b[i] * 2.0))))

# ============================================================ regressions of repaired defects
P("acc_own_index", "a:f[n,m];b:f[n]", "n=2 m=2 | n=3 m=2", "C03 C02", lambda E, a, b: E.array(lambda i: E.fold(b, lambda k, acc: E.array(lambda j: b[j] * a[i, k] - acc[i]), count=2)[i]))
P("acc_own_index2", "a:f[n,m];b:f[n]", "n=2 m=2", "C03 C02", lambda E, a, b: E.array(lambda i: E.fold(b, lambda k, acc: E.array(lambda j: acc[j] - acc[i] * a[i, k]), count=2)))
P("acc_own_index3", "a:f[n];b:f[n]", "n=2", "C03 C02", lambda E, a, b: E.array(lambda i, l: E.fold(E.array(lambda j: b[j] * a[i]), lambda k, acc: E.array(lambda j: acc[l] - acc[i] * a[j]), count=1)[l], size=(2, 2)))
P("acc_own_shift", "a:f[n];b:f[n]", "n=3", "C03 C02", lambda E, a, b: E.array(lambda i: E.fold(b, lambda k, acc: E.array(lambda j: acc[j] - acc[i + 1] * a[i]), count=2)[i]))
P("acc_own_shift2", "a:f[n];b:f[n]", "n=3", "C03 C02", lambda E, a, b: E.array(lambda i: E.fold(E.array(lambda j: b[j] * a[i]), lambda k, acc: E.array(lambda j: acc[j] - acc[i - 1]), count=2)[0]))
P("acc_own_gather", "a:f[n];p:i[n]", "n=2", "C03 C02", lambda E, a, p: E.array(lambda i: E.fold(a, lambda k, acc: E.array(lambda j: acc[j] - acc[p[i]] * a[j]), count=1)[p[i]]))
P("acc_rows_own", "a:f[n,n]", "n=2", "C03 C02", lambda E, a: E.array(lambda i: E.fold(a, lambda k, acc: E.array(lambda j, l: acc[j, l] - acc[i, j]), count=1)[i, 0], size=2))
for _f in ("values", "items", "keys", "get", "pop", "copy"):
    P(f"dict_field_{_f}", "a:f[n];b:f[n]", "n=2", "C05", lambda E, a, b, f=_f: (lambda r: E.array(lambda i: r[i][f] - r[0]["z"]))(E.array(lambda i: {f: a[i] * b[i], "z": b[i]})), thorough=_f in ("pop", "copy"))
    P(f"dict_field_fold_{_f}", "a:f[n]", "n=2", "C05", lambda E, a, f=_f: E.fold({"z": 1.0, f: 2.0}, lambda i, s: {"z": s[f] * a[i], f: s["z"] - a[i]}), thorough=_f in ("keys", "pop", "copy"))
P("dict_field_int", "a:f[n];b:f[n]", "n=2", "C05", lambda E, a, b: (lambda r: E.array(lambda i: r[i][0] - r[0][1]))(E.array(lambda i: {1: a[i] * b[i], 0: b[i]})))
P("dict_field_int2", "a:f[n];b:f[n]", "n=2", "C05", lambda E, a, b: (lambda r: E.array(lambda i: r[i][7] - r[0][-1]))(E.array(lambda i: {7: a[i] * b[i], -1: b[i]})))
P("dict_field_int_fold", "a:f[n]", "n=2", "C05", lambda E, a: E.fold({1: 1.0, 0: 2.0}, lambda i, s: {1: s[0] * a[i], 0: s[1] - a[i]}))
P("dict_field_where", "a:f[n];b:f[n];c:b", "n=2", "C05 C19", lambda E, a, b, c: (lambda r: r["values"] - r["keys"])(E.where(c, {"values": a[0], "keys": b[0]}, {"values": b[1], "keys": a[1]})))
P("dict_field_cat", "a:f[n];b:f[n]", "n=2", "C05 C16", lambda E, a, b: (lambda r: E.array(lambda i: r[i]["items"] - r[i]["get"]))(E.array(lambda i: {"items": a[i], "get": b[i]}).concat(E.array(lambda i: {"items": b[i], "get": a[i] * 2.0}))))
P("dict_field_reduce", "a:f[n];b:f[n]", "n=2", "C05 C04", lambda E, a, b: (lambda r: r["items"] - r[0])(E.array(lambda i: {"items": a[i], 0: b[i]}).reduce({"items": 1.0, 0: 0.0}, lambda x, y: {"items": x["items"] * y["items"], 0: x["items"] * y[0] + x[0]})))
_V = lambda E, a, b, z, i: E.fold(z, lambda k, acc: E.array(lambda t: acc[t] + a[i] * (b[k] * 2.0 + 1.0)), count=2)
P("foldcopy_1", "a:f[n];b:f[m];z:f[q]", "n=2 m=2 q=2", "C14 C03", lambda E, a, b, z: E.array(lambda i: (lambda v: E.array(lambda j: v[j] * 2.0))(_V(E, a, b, z, i)), size=2))
P("foldcopy_2", "a:f[n];b:f[m];z:f[q]", "n=2 m=2 q=2", "C14 C03 C16", lambda E, a, b, z: E.array(lambda i: (lambda v: E.array(lambda j: v[j] * a[i]))(
    E.fold(z, lambda k, acc: E.array(lambda t: acc[t] * (b[k].exp() + 1.0)).concat(z), count=2)), size=2), skip="jax")
P("foldcopy_3", "a:f[n];b:f[m];z:f[q]", "n=2 m=2 q=2", "C14 C03 C16", lambda E, a, b, z: E.array(lambda i: (lambda v: E.array(lambda j: v[j] * 2.0))(_V(E, a, b, z, i).concat(_V(E, a, b, z, 0))), size=2))
P("foldcopy_4", "a:f[n];b:f[m];z:f[q]", "n=2 m=2 q=2", "C14 C03 C16", lambda E, a, b, z: E.array(lambda i: (lambda v: E.array(lambda j: v[j] * 2.0))(
    E.array(lambda t: E.fold(a[i] * z[t], lambda k, acc: acc + (b[k] * b[k] * 2.0), count=2)).concat(_V(E, a, b, z, i))), size=2))
P("foldcopy_rec", "a:f[n];b:f[m]", "n=3 m=2", "C14 C05", lambda E, a, b: (lambda r: E.array(lambda i: r[i][0] - r[i][1]))(E.array(lambda i: (lambda t: (t + 1.0, t * t))(E.fold(1.0, lambda k, acc: acc * a[i] + b[k] * b[k], count=2)), size=3)))
P("foldcopy_rec_vec", "a:f[n];b:f[m];z:f[q]", "n=2 m=2 q=2", "C14 C05", lambda E, a, b, z: (lambda r: E.array(lambda i: r[i][0] - r[i][1]))(
    E.array(lambda i: (lambda t: (t + 1.0, t * t))(E.fold(z, lambda k, acc: E.array(lambda t: acc[t] * a[i] + b[k] * b[k]), count=2)[1]), size=2)))
P("foldcopy_sum", "a:f[n];b:f[m];c:f[n,m];z:f[q]", "n=2 m=2 q=3", "C14 C03", lambda E, a, b, c, z: E.fold_sum(lambda k: (lambda v: a[k] * v[1] + c[k, 1] * E.fold(v[2], lambda q, acc: acc * acc * b[q], count=1))(
    E.fold(z, lambda l, acc: E.array(lambda t: acc[t] * a[k] + b[l] * b[l]), count=2)), count=2))
P("foldcopy_reduce", "a:f[n];b:f[m]", "n=2 m=2", "C14 C04", lambda E, a, b: E.array(lambda i: (lambda v: E.array(lambda j: v[j] - v[0]))(E.array(lambda t: E.array(lambda k: b[k] * a[i] + b[t] * 2.0).reduce(0.0, lambda x, y: x + y))), size=2))
P("foldcopy_where", "a:f[n];b:f[m];z:f[q]", "n=2 m=2 q=2", "C14 C19 C16", lambda E, a, b, z: E.array(lambda i: (lambda v: E.array(lambda j: v[j] * a[i]))(E.where(a[i] < 0.0, _V(E, a, b, z, i).concat(z), z.concat(_V(E, a, b, z, i)))), size=2))
P("foldcopy_ext", "a:f[n];b:f[m];z:f[q]", "n=2 m=2 q=2", "C14 C17", lambda E, a, b, z: E.array(lambda i: (lambda v: E.array(lambda j: E.ext("g2")(v[j], v[0])))(_V(E, a, b, z, i)), size=2))
P("foldcopy_twice", "a:f[n];b:f[m];z:f[q]", "n=2 m=2 q=2", "C14 C03", lambda E, a, b, z: E.array(lambda i, l: (lambda v, w: E.array(lambda j: v[j] * w[0] - v[0]))(_V(E, a, b, z, i), _V(E, b, a, z, l)), size=(2, 2)))
P("shift_own_axes", "a:f[n];p:i[m]", "n=3 m=2", "C02", lambda E, a, p: E.array(lambda j: E.array(lambda i: a[i + p[j]], size=2)[0] - a[j], size=2))
P("shift_by_fold", "a:f[n];b:i[m]", "n=3 m=2", "C02 C03", lambda E, a, b: E.array(lambda i: a[i + E.fold(0, lambda k, s: s + b[k])], size=2), skip="jax", dyn="b")
P("shift_by_fold_rows", "a:f[n];b:i[m,m]", "n=2 m=2", "C02 C03", lambda E, a, b: E.array(lambda j, i: a[i + E.fold(0, lambda k, s: s + b[j, k], count=2)], size=(2, 2)))

# ============================================================ external functions of vectors (batch axes in front)
P("vext_sum", "a:f[n]", "n=3", "C17", lambda E, a: E.extv("vsum")(a))
P("vext_sum_rows", "a:f[n,m]", "n=2 m=3 | n=2 m=2", "C17", lambda E, a: E.array(lambda i: E.extv("vsum")(a[i])))
P("vext_sum_cols", "a:f[n,m]", "n=2 m=3 | n=2 m=2", "C17", lambda E, a: E.array(lambda j: E.extv("vsum")(E.array(lambda i: a[i, j])), size=a.size(1)))
P("vext_sum_outer", "a:f[n];b:f[m]", "n=2 m=3", "C17", lambda E, a, b: E.array(lambda j: E.extv("vsum")(E.array(lambda i: a[i] * b[j]))))
P("vext_sum_two", "a:f[n];b:f[m];c:f[k]", "n=2 m=3 k=2", "C17", lambda E, a, b, c: E.array(lambda j, k: E.extv("vsum")(E.array(lambda i: a[i] * b[j] - c[k]))))
P("vext_diff", "a:f[n]", "n=3 | n=1", "C17 C09", lambda E, a: E.extv("vdiff")(a))
P("vext_diff_rows", "a:f[n,m]", "n=2 m=3 | n=2 m=2", "C17", lambda E, a: E.array(lambda i: E.extv("vdiff")(a[i])))
P("vext_diff_cols", "a:f[n,m]", "n=3 m=2 | n=2 m=2", "C17", lambda E, a: E.array(lambda j: E.extv("vdiff")(E.array(lambda i: a[i, j])), size=a.size(1)))
P("vext_diff_read", "a:f[n,m]", "n=2 m=3", "C17 C02", lambda E, a: E.array(lambda j, i: E.extv("vdiff")(a[i])[j], size=(2, 2)))
P("vext_diff_use", "a:f[n]", "n=3", "C17 C09", lambda E, a: (lambda d: E.array(lambda i: d[i] - a[i], size=d.size()))(E.extv("vdiff")(a)))
P("vext_diff_twice", "a:f[n,m]", "n=2 m=3", "C17", lambda E, a: E.array(lambda i: E.extv("vdiff")(E.extv("vdiff")(a[i]))))
P("vext_dot", "a:f[n];b:f[n]", "n=3", "C17", lambda E, a, b: E.extv("vdot")(a, b))
P("vext_dot_mat", "a:f[n,k];b:f[m,k]", "n=2 m=3 k=2 | n=2 m=2 k=2", "C17", lambda E, a, b: E.array(lambda i, j: E.extv("vdot")(a[i], b[j])))
P("vext_dot_mat_t", "a:f[n,k];b:f[m,k]", "n=2 m=3 k=2 | n=2 m=2 k=2", "C17", lambda E, a, b: E.array(lambda j, i: E.extv("vdot")(a[i], b[j])))
P("vext_dot_matmul", "a:f[n,k];b:f[k,m]", "n=2 m=3 k=2 | n=2 m=2 k=2", "C17", lambda E, a, b: E.array(lambda j, i: E.extv("vdot")(a[i], E.array(lambda k: b[k, j])), size=(b.size(1), a.size(0))))
P("vext_dot_one", "a:f[n,k];b:f[k]", "n=2 k=3 | n=2 k=2", "C17", lambda E, a, b: E.array(lambda i: E.extv("vdot")(b, a[i])))
P("vext_dot_same", "a:f[n,n]", "n=2", "C17 C14", lambda E, a: E.array(lambda i: E.extv("vdot")(a[i], E.array(lambda k: a[k, i]))))
P("vext_off", "a:f[n,k];b:f[m,k]", "n=2 m=3 k=2", "C17", lambda E, a, b: E.array(lambda j, i: E.extv("voff")(a[i], b[j])))
P("vext_off_swap", "a:f[n,k];b:f[n,k]", "n=2 k=2", "C17", lambda E, a, b: E.array(lambda i: E.extv("voff")(b[i], a[i])))
P("vext_off_free", "a:f[n,k];b:f[m]", "n=2 m=3 k=2", "C17", lambda E, a, b: E.array(lambda i, j: E.extv("voff")(a[i], b)[j], size=(2, 2)))
P("vext_scale", "a:f[n];x:f", "n=3", "C17", lambda E, a, x: E.extv("vscale")(a, x))
P("vext_scale_rows", "a:f[n,k];b:f[n]", "n=2 k=3 | n=2 k=2", "C17", lambda E, a, b: E.array(lambda i: E.extv("vscale")(a[i], b[i])))
P("vext_scale_outer", "a:f[n,k];b:f[m]", "n=2 k=3 m=2 | n=2 k=2 m=3", "C17", lambda E, a, b: E.array(lambda i, j: E.extv("vscale")(a[i], b[j])))
P("vext_scale_outer_t", "a:f[n,k];b:f[m]", "n=2 k=3 m=2 | n=2 k=2 m=2", "C17", lambda E, a, b: E.array(lambda j, i: E.extv("vscale")(a[i], b[j])))
P("vext_scale_free", "a:f[k];b:f[m]", "k=3 m=2 | k=2 m=2", "C17", lambda E, a, b: E.array(lambda j: E.extv("vscale")(a, b[j])))
P("vext_sscale", "a:f[n,k];b:f[m]", "n=2 k=3 m=2 | n=2 k=2 m=2", "C17", lambda E, a, b: E.array(lambda j, i: E.extv("sscale")(b[j], a[i])))
P("vext_sscale_idx", "a:f[n,k]", "n=2 k=2", "C17", lambda E, a: E.array(lambda i: E.extv("sscale")(i.float(), a[i])))
P("vext_mdiff", "a:f[n,m,k]", "n=2 m=3 k=2", "C17", lambda E, a: E.array(lambda i: E.extv("mdiff")(a[i])))
P("vext_mdiff_t", "a:f[n,m,k]", "n=2 m=3 k=2", "C17", lambda E, a: E.array(lambda k: E.extv("mdiff")(E.array(lambda j, i: a[i, j, k])), size=a.size(2)))
P("vext_mpick", "a:f[n,m,k]", "n=2 m=3 k=2", "C17", lambda E, a: E.array(lambda j: E.extv("mpick")(E.array(lambda i, k: a[i, j, k])), size=a.size(1)))
P("vext_mpick_read", "a:f[n,m,k]", "n=2 m=2 k=2", "C17", lambda E, a: E.array(lambda k, j: E.extv("mpick")(E.array(lambda i, l: a[i, j, l]))[k], size=(2, 2)))
P("vext_mvec", "m:f[n,k];v:f[k]", "n=2 k=3 | n=2 k=2", "C17", lambda E, m, v: E.extv("mvec")(m, v))
P("vext_mvec_batch", "m:f[n,k];v:f[l,k]", "n=2 k=2 l=3 | n=2 k=2 l=2", "C17", lambda E, m, v: E.array(lambda l: E.extv("mvec")(m, v[l])))
P("vext_mvec_batch2", "m:f[p,n,k];v:f[l,k]", "p=2 n=1 k=2 l=3", "C17", lambda E, m, v: E.array(lambda l, p: E.extv("mvec")(m[p], v[l])))
P("vext_in_fold", "a:f[n];b:f[m,n]", "n=2 m=2", "C17 C03", lambda E, a, b: E.fold(a, lambda k, acc: E.extv("voff")(acc, b[k])))
P("vext_in_fold_rows", "a:f[n,k];b:f[m,k]", "n=2 m=2 k=2", "C17 C03", lambda E, a, b: E.array(lambda i: E.fold(a[i], lambda k, acc: E.extv("voff")(acc, b[k]))))
P("vext_of_fold", "a:f[n,m];b:f[k]", "n=2 m=2 k=2", "C17 C03", lambda E, a, b: E.array(lambda i: E.extv("vsum")(E.fold(a[i], lambda k, acc: E.array(lambda j: acc[j] * b[k])))))
P("vext_of_cat", "a:f[n,m];b:f[k]", "n=2 m=2 k=1", "C17 C16", lambda E, a, b: E.array(lambda i: E.extv("vdiff")(a[i].concat(b))))
P("vext_cat", "a:f[n,m];b:f[k]", "n=2 m=3 k=2", "C17 C16", lambda E, a, b: E.array(lambda i: E.extv("vdiff")(a[i]).concat(b)))
P("vext_in_reduce", "a:f[n,m]", "n=3 m=2", "C17 C04", lambda E, a: a.reduce(E.array(lambda j: 0.0, size=2), lambda x, y: E.array(lambda j: x[j] + y[j] + 0.0 * E.extv("vsum")(x))))
P("vext_rec", "a:f[n,m];b:f[n]", "n=2 m=2", "C17 C05", lambda E, a, b: (lambda r: E.array(lambda i: r[i][0][1] - r[i][1]))(E.array(lambda i: (E.extv("vscale")(a[i], b[i]), E.extv("vsum")(a[i])))))
P("vext_shared", "a:f[n,m]", "n=2 m=2", "C17 C14", lambda E, a: E.array(lambda i: (lambda v: E.array(lambda j: v[j] - v[0]))(E.extv("vdiff")(a[i]))))
P("vext_where", "a:f[n,m];c:b[n]", "n=2 m=2", "C17 C19", lambda E, a, c: E.array(lambda i: E.where(c[i], E.extv("voff")(a[i], a[0]), a[i])))
