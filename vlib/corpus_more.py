"""Further families: records of every shape through every construct, self-concatenation, explicit repetition,
and folds whose steps ignore parts of their state."""
from __future__ import annotations

import dataclasses

from .corpus_base import prog as P


@dataclasses.dataclass
class Tri:
    p: object
    q: object
    r: object


# structure name -> (build from three scalars, ordered projections)
STRUCT = {
    "t3": (lambda x, y, z: (x, y, z), [lambda t: t[0], lambda t: t[1], lambda t: t[2]]),
    "tr": (lambda x, y, z: (x, (y, z)), [lambda t: t[0], lambda t: t[1][0], lambda t: t[1][1]]),
    "tl": (lambda x, y, z: ((x, y), z), [lambda t: t[0][0], lambda t: t[0][1], lambda t: t[1]]),
    "d3": (lambda x, y, z: {"z": x, "a": y, "m": z}, [lambda t: t["z"], lambda t: t["a"], lambda t: t["m"]]),
    "dc": (lambda x, y, z: Tri(x, (y,), z), [lambda t: t.p, lambda t: t.q[0], lambda t: t.r]),
    "one": (lambda x, y, z: ((x,), ({"k": y}, (z,))), [lambda t: t[0][0], lambda t: t[1][0]["k"], lambda t: t[1][1][0]]),
}


def _each(projs, f):
    return tuple(f(q) for q in projs)


def _fields(E, r, projs):
    return tuple((lambda q: E.array(lambda i: q(r[i])))(q) for q in projs)


for _s, (_mk, _pr) in STRUCT.items():
    P(f"st_{_s}_arr", "a:f[n];b:i[n];c:f[n]", "n=2", "C05",
      lambda E, a, b, c, mk=_mk, pr=_pr: _fields(E, E.array(lambda i: mk(a[i], b[i], c[i] * 2.0)), pr))
    P(f"st_{_s}_arr_idx", "a:f[n];b:i[n]", "n=3", "C05 C02",
      lambda E, a, b, mk=_mk, pr=_pr: (lambda r: _each(pr, lambda q: E.array(lambda i: q(r[2 - i]), size=3)))(
          E.array(lambda i: mk(a[i], b[i] - i, a[0]))))
    P(f"st_{_s}_cat", "a:f[n];b:i[n];c:f[m];d:i[m]", "n=2 m=3 | n=0 m=2 | n=1 m=0", "C05 C16",
      lambda E, a, b, c, d, mk=_mk, pr=_pr: _fields(E, E.array(lambda i: mk(a[i], b[i], a[i] - 1.0)).concat(
          E.array(lambda i: mk(c[i], d[i], c[i] * 2.0))), pr))
    P(f"st_{_s}_cat_self", "a:f[n];b:i[n]", "n=2", "C05 C16",
      lambda E, a, b, mk=_mk, pr=_pr: (lambda v: _fields(E, v.concat(v), pr))(E.array(lambda i: mk(a[i], b[i], a[i] - 1.0))))
    P(f"st_{_s}_cat3", "a:f[n];b:i[n]", "n=2", "C05 C16",
      lambda E, a, b, mk=_mk, pr=_pr: (lambda v, w: _fields(E, v.concat(w).concat(v), pr))(
          E.array(lambda i: mk(a[i], b[i], a[i] - 1.0)), E.array(lambda i: mk(a[i] * 3.0, i, 0.5))))
    P(f"st_{_s}_cat_rows", "a:f[n,m];b:i[n,k]", "n=2 m=1 k=2 | n=2 m=2 k=2", "C05 C16",
      lambda E, a, b, mk=_mk, pr=_pr: _each(pr, lambda q: E.array(lambda i, j: q(E.array(lambda t: mk(a[i, t], t, 0.5)).concat(
              E.array(lambda t: mk(1.0, b[i, t], a[i, 0])))[j]), size=(2, 3))))
    P(f"st_{_s}_fold", "a:f[n];b:i[n];x:f", "n=3 | n=0", "C05 C03",
      lambda E, a, b, x, mk=_mk, pr=_pr: (lambda s: tuple(q(s) for q in pr))(E.fold(
          mk(x, 1, 2.0), lambda i, s: mk(pr[2](s) + a[i], pr[1](s) * b[i], pr[0](s) - a[i]))))
    P(f"st_{_s}_fold_rows", "a:f[n,m];b:i[n]", "n=2 m=2", "C05 C03",
      lambda E, a, b, mk=_mk, pr=_pr: _each(pr, lambda q: E.array(lambda i: q(E.fold(
          mk(a[i, 0], b[i], 0.5), lambda k, s: mk(pr[2](s) * a[i, k], pr[1](s) - k, pr[0](s) - 1.0))))))
    P(f"st_{_s}_red", "a:f[n];b:i[n]", "n=0 | n=1 | n=2 | n=3 | n=4", "C05 C04",
      lambda E, a, b, mk=_mk, pr=_pr: (lambda s: tuple(q(s) for q in pr))(
          E.array(lambda i: mk(a[i], b[i], a[i] * 2.0)).reduce(mk(0.0, 1, 0.0), lambda s, t: mk(
              pr[0](s) + pr[0](t), pr[1](s) * pr[1](t), pr[2](s) + pr[2](t)))))
    P(f"st_{_s}_red_rows", "a:f[n,m];b:i[m]", "n=2 m=3 | n=2 m=2", "C05 C04",
      lambda E, a, b, mk=_mk, pr=_pr: _each(pr, lambda q: E.array(lambda i: q(
          E.array(lambda j: mk(a[i, j], b[j], a[i, j] - 1.0)).reduce(mk(0.0, 1, 0.0), lambda s, t: mk(
              pr[0](s) + pr[0](t), pr[1](s) * pr[1](t), pr[2](s) + pr[2](t)))))))
    P(f"st_{_s}_nested_arr", "a:f[n,m];b:i[m]", "n=2 m=3 | n=2 m=2", "C05",
      lambda E, a, b, mk=_mk, pr=_pr: (lambda r: _each(pr, lambda q: E.array(lambda j, i: q(r[i][j]), size=(b.size(), a.size(0)))))(
          E.array(lambda i: E.array(lambda j: mk(a[i, j], b[j], a[i, 0])))))
    P(f"st_{_s}_vec_field", "a:f[n,m];b:f[n]", "n=2 m=3 | n=2 m=2", "C05",
      lambda E, a, b, mk=_mk, pr=_pr: (lambda r: (E.array(lambda i: pr[0](r[i])), E.array(lambda i, j: pr[1](r[i])[j], size=(a.size(0), a.size(1))),
                                                  E.array(lambda j, i: pr[2](r[i])[j], size=(a.size(1), a.size(0)))))(
          E.array(lambda i: mk(b[i], a[i], E.array(lambda j: a[i, j] * b[i])))))
    P(f"st_{_s}_rep", "a:f[n];b:i;k:i{0..3}", "n=2", "C05 C09",
      lambda E, a, b, k, mk=_mk, pr=_pr: (lambda r: _each(pr, lambda q: E.array(lambda i: q(r[i]), size=k)))(
          E.array(lambda i: mk(a[0], b, a[1]), size=k)), dyn="k")
    P(f"st_{_s}_size", "a:f[n];b:f[m]", "n=2 m=3", "C05 C09",
      lambda E, a, b, mk=_mk, pr=_pr: (lambda r: (r.size(), E.array(lambda i: pr[2](r[i]) - b[i], size=r.size())))(
          E.array(lambda i: mk(a[i], i, a[i] * a[i]))))

# ------------------------------------------------------------ self-concatenation
P("selfcat_comp", "a:f[n]", "n=2 | n=1 | n=0", "C16 C14", lambda E, a: (lambda v: v.concat(v))(E.array(lambda i: a[i] * 2.0)))
P("selfcat_int", "a:i[n]", "n=2", "C16", lambda E, a: (lambda v: v.concat(v))(E.array(lambda i: a[i] - i)))
P("selfcat_mat", "a:f[n,m]", "n=2 m=2 | n=1 m=3", "C16", lambda E, a: (lambda v: v.concat(v))(E.array(lambda i, j: a[i, j] * 2.0)))
P("selfcat_rows", "a:f[n,m]", "n=2 m=2 | n=1 m=3", "C16", lambda E, a: E.array(lambda i: a[i].concat(a[i])))
P("selfcat_rows_comp", "a:f[n,m]", "n=2 m=2", "C16 C14", lambda E, a: E.array(lambda i: (lambda v: v.concat(v))(E.array(lambda j: a[i, j] - a[0, j]))))
P("selfcat_const", "x:f", "", "C16", lambda E, x: (lambda v: v.concat(v))(E.array(lambda i: x + i.float(), size=2)))
P("selfcat_quad", "a:f[n]", "n=2", "C16 C14", lambda E, a: (lambda v: (lambda w: w.concat(w))(v.concat(v)))(E.array(lambda i: a[i] * a[i])))
P("selfcat_mix", "a:f[n];b:f[m]", "n=2 m=1", "C16 C14", lambda E, a, b: (lambda v: v.concat(b).concat(v))(E.array(lambda i: a[i] + 1.0)))
P("selfcat_size", "a:f[n]", "n=2 | n=0", "C16 C09", lambda E, a: (lambda v: v.concat(v).size())(E.array(lambda i: a[i] + 1.0)))
P("selfcat_sum", "a:f[n]", "n=2 | n=0", "C16 C03", lambda E, a: (lambda w: E.fold_sum(lambda i: w[i]))((lambda v: v.concat(v))(E.array(lambda i: a[i] + 1.0))))
P("selfcat_outer_read", "a:f[n]", "n=2", "C16", lambda E, a: (lambda w: E.array(lambda i, j: w[i] - w[j]))(a.concat(a)))
P("selfcat_empty_lit", "a:f[n]", "n=2", "C16", lambda E, a: (lambda e: (e.concat(a), a.concat(e), e.concat(e)))(E.array(lambda i: E.wrap(1.0), size=0)))
P("selfcat_in_fold", "a:f[n];b:f[m]", "n=2 m=2", "C16 C03", lambda E, a, b: E.fold(0.0, lambda k, acc: acc * 0.5 + (lambda v: v.concat(v))(E.array(lambda i: a[i] * b[k]))[k + 1]))

# ------------------------------------------------------------ explicit repetition
P("rep_sym_rows", "a:f[n];b:f[m];k:i{0..3}", "n=2 m=2", "C01 C09 C10",
  lambda E, a, b, k: (lambda r: E.array(lambda i, j: r[i, j] * b[j], size=(k, 2)))(E.array(lambda i: a, size=k)), dyn="k")
P("rep_sym_elem", "a:f[n];b:f[m];k:i{0..3}", "n=2 m=2", "C01 C09 C10",
  lambda E, a, b, k: E.array(lambda i, j: E.array(lambda t: a, size=k)[i, j] - b[j], size=(k, 2)), dyn="k")
P("rep_sym_free", "a:f[n];b:f[n];k:i{0..3}", "n=2", "C01 C09 C10",
  lambda E, a, b, k: (lambda r: E.array(lambda i, j: r[i, j] * 2.0 + b[j]))(E.array(lambda i: a, size=k)), dyn="k")
P("rep_sym_free_elem", "a:f[n];b:f[n];k:i{0..3}", "n=2", "C01 C09 C10",
  lambda E, a, b, k: E.array(lambda i, j: E.array(lambda t: a, size=k)[i, j] * b[j], size=(k, a.size())), dyn="k")
P("rep_sym_free_outer", "a:f[n];b:f[n];k:i{0..3}", "n=2", "C01 C09 C10",
  lambda E, a, b, k: (lambda r: E.array(lambda j, i: r[i, j] - b[j]))(E.array(lambda i: a, size=k)), dyn="k")
P("rep_sym_free_neg", "a:f[n];k:i{0..3}", "n=2", "C01 C09 C10",
  lambda E, a, k: (lambda r: E.array(lambda i, j: -r[i, j]))(E.array(lambda i: a, size=k)), dyn="k")
P("rep_sym_free_inner", "a:f[n];b:f[n];k:i{0..3}", "n=2", "C01 C09 C10",
  lambda E, a, b, k: (lambda r: E.array(lambda j, i: r[j, i] * 2.0 + b[j]))(E.array(lambda j: E.array(lambda i: a[j], size=k))), dyn="k")
for _k in (0, 1, 2):
    P(f"rep_lit{_k}", "a:f[n]", "n=2 | n=1", "C01 C10", lambda E, a, k=_k: E.array(lambda i: a, size=k))
    P(f"rep_lit{_k}_free", "a:f[n];b:f[n]", "n=2 | n=1", "C01 C10",
      lambda E, a, b, k=_k: (lambda r: E.array(lambda i, j: r[i, j] * 2.0 + b[j]))(E.array(lambda i: a, size=k)))
    P(f"rep_lit{_k}_mul", "a:f[n];b:f[n]", "n=2 | n=1", "C01 C10",
      lambda E, a, b, k=_k: (lambda r: E.array(lambda i, j: r[i, j] * b[j], size=(k, a.size())))(E.array(lambda i: a, size=k)))
    P(f"rep_lit{_k}_inner", "a:f[n];b:f[n]", "n=2 | n=1", "C01 C10",
      lambda E, a, b, k=_k: E.array(lambda j, i: a[j] - b[j], size=(a.size(), k)))
    P(f"rep_lit{_k}_two", "a:f[n]", "n=2 | n=1", "C01 C10",
      lambda E, a, k=_k: (lambda r: (r, E.array(lambda i, j: r[i, j] + 1.0, size=(k, a.size()))))(E.array(lambda i: a, size=k)))
    P(f"rep_lit{_k}_sum", "a:f[n];b:f[n]", "n=2 | n=1", "C01 C03 C10",
      lambda E, a, b, k=_k: (lambda r: E.array(lambda j: E.fold_sum(lambda i: r[i, j], count=k), size=a.size()))(E.array(lambda i: E.array(lambda j: a[j] * b[j]), size=k)))
    P(f"rep_lit{_k}_cat", "a:f[n];b:f[n]", "n=2 | n=1", "C16 C10",
      lambda E, a, b, k=_k: E.array(lambda i: a, size=k).concat(E.array(lambda i: b, size=1)))
    P(f"rep_lit{_k}_red", "a:f[n];b:f[n]", "n=2 | n=1", "C04 C10",
      lambda E, a, b, k=_k: E.array(lambda i: a[0], size=k).reduce(0.0, lambda x, y: x + y))
    P(f"rep_lit{_k}_redrows", "a:f[n];b:f[n]", "n=2 | n=1", "C04 C10",
      lambda E, a, b, k=_k: E.array(lambda i: E.array(lambda t: a[i], size=k).reduce(0.0, lambda x, y: x + y)))
    P(f"rep_lit{_k}_redinit", "a:f[n];b:f[n]", "n=2 | n=1", "C04",
      lambda E, a, b, k=_k: E.array(lambda i, j: E.array(lambda t: a[i] * b[t], size=k).reduce(0.0, lambda x, y: x + y), size=(a.size(), 2)))
    P(f"rep_lit{_k}_fold", "a:f[n];b:f[n]", "n=2 | n=1", "C03 C10",
      lambda E, a, b, k=_k: E.fold(E.array(lambda i: a, size=k), lambda t, acc: E.array(lambda i, j: acc[i, j] * b[t], size=(k, a.size()))))
P("rep_red_body_free", "a:f[n,m];z:f", "n=2 m=3", "C04", lambda E, a, z: E.array(lambda i, j: a[i].reduce(0.0, lambda x, y: x + y), size=(2, 2)))
P("rep_red_sym", "a:f[n];k:i{0..4};z:f", "n=2", "C04", lambda E, a, k, z: E.array(lambda t: z, size=k).reduce(0.0, lambda x, y: x + y), dyn="k")
P("rep_red_sym_idx", "a:f[n];k:i{0..4}", "n=2", "C04", lambda E, a, k: E.array(lambda i: E.array(lambda t: a[i], size=k).reduce(0.0, lambda x, y: x + y)), dyn="k")
P("rep_red_two", "a:f[n];b:f[m]", "n=2 m=3", "C04", lambda E, a, b: E.array(lambda i: (lambda r: r[0] - r[1])(
    E.array(lambda j: (a[i], b[j])).reduce((0.0, 0.0), lambda x, y: (x[0] + y[0], x[1] + y[1])))))
P("rep_red_two_const", "a:f[n];b:f[m]", "n=2 m=3", "C04", lambda E, a, b: E.array(lambda i: (lambda r: r[0] - r[1])(
    E.array(lambda j: (1.0, b[j] * a[i])).reduce((0.0, 0.0), lambda x, y: (x[0] + y[0], x[1] + y[1])))))
P("rep_red_two_init", "a:f[n];b:f[m]", "n=2 m=3", "C04", lambda E, a, b: E.array(lambda i, k: (lambda r: r[0] - r[1])(
    E.array(lambda j: (b[j], 1.0)).reduce((0.0, 0.0), lambda x, y: (x[0] + y[0], x[1] + y[1]))) * a[i], size=(2, 2)))

# ------------------------------------------------------------ folds whose step ignores something
P("ign_acc_scalar", "a:f[n];x:f", "n=3 | n=0", "C03", lambda E, a, x: E.fold(0.0, lambda i, acc: x + a[i]))
P("ign_acc_scalar_r", "a:f[n];x:f", "n=3 | n=0", "C03", lambda E, a, x: E.fold(0.0, lambda i, acc: a[i] + x))
P("ign_acc_same_init", "a:f[n];x:f", "n=3 | n=0", "C03", lambda E, a, x: E.fold(x, lambda i, acc: x + a[i]))
P("ign_acc_counter", "x:f;a:f[n]", "n=3", "C03", lambda E, x, a: E.fold(x, lambda i, acc: i.float() + x, count=3))
P("ign_acc_counter_i", "x:i", "", "C03", lambda E, x: E.fold(x, lambda i, acc: i + x, count=3))
P("ign_acc_elem", "a:f[n];b:f[n]", "n=3 | n=0", "C03", lambda E, a, b: E.fold(1.0, lambda i, acc: a[0] + b[i]))
P("ign_acc_min", "a:f[n];x:f", "n=3 | n=0", "C03", lambda E, a, x: E.fold(1.0, lambda i, acc: x.min(a[i])))
P("ign_acc_max_i", "a:i[n];x:i", "n=3 | n=0", "C03", lambda E, a, x: E.fold(1, lambda i, acc: a[i].max(x)))
P("ign_acc_mul", "a:f[n];x:f", "n=3 | n=0", "C03", lambda E, a, x: E.fold(1.0, lambda i, acc: x * a[i]))
P("ign_acc_and", "a:b[n];x:b", "n=3 | n=0", "C03", lambda E, a, x: E.fold(E.wrap(True), lambda i, acc: x & a[i]))
P("ign_acc_or", "a:b[n];x:b", "n=3 | n=0", "C03", lambda E, a, x: E.fold(E.wrap(False), lambda i, acc: a[i] | x))
P("ign_acc_arr", "a:f[n,m];x:f", "n=2 m=3 | n=2 m=0", "C03", lambda E, a, x: E.array(lambda i: E.fold(0.0, lambda j, acc: x + a[i, j])))
P("ign_acc_outer_idx", "a:f[n,m];b:f[n]", "n=2 m=3 | n=2 m=0", "C03", lambda E, a, b: E.array(lambda i: E.fold(0.0, lambda j, acc: b[i] + a[i, j])))
P("ign_acc_outer_acc", "a:f[n,m];x:f", "n=2 m=2", "C03", lambda E, a, x: E.fold(x, lambda i, acc: E.fold(0.0, lambda j, t: acc + a[i, j])))
P("ign_acc_outer_acc2", "a:f[n,m];x:f", "n=2 m=2", "C03", lambda E, a, x: E.fold(x, lambda i, acc: E.fold(0.0, lambda j, t: t + acc * a[i, j])))
P("ign_acc_outer_acc3", "a:f[n,m];x:f", "n=2 m=2", "C03", lambda E, a, x: E.fold(x, lambda i, acc: E.fold(acc, lambda j, t: a[i, j] + acc)))
P("ign_acc_outer_max", "a:f[n,m];x:f", "n=2 m=2", "C03", lambda E, a, x: E.fold(x, lambda i, acc: E.fold(1.0, lambda j, t: acc.max(a[i, j]))))
P("acc_plus_dep", "a:f[n];x:f", "n=3", "C03", lambda E, a, x: E.fold(x, lambda i, acc: acc + (a[i] - acc)))
P("acc_plus_dep_cond", "a:f[n];x:f", "n=3", "C03", lambda E, a, x: E.fold(x, lambda i, acc: acc + E.where(acc > 0.0, a[i], 1.0)))
P("acc_max_dep", "a:f[n];x:f", "n=3", "C03", lambda E, a, x: E.fold(x, lambda i, acc: acc.max(acc * a[i])))
P("acc_min_dep_r", "a:f[n];x:f", "n=3", "C03", lambda E, a, x: E.fold(x, lambda i, acc: (acc + a[i]).min(acc)))
P("acc_mul", "a:f[n];x:f", "n=3 | n=0", "C03", lambda E, a, x: E.fold(x, lambda i, acc: acc * a[i]))
P("acc_let_shared", "a:f[n];x:f", "n=3", "C03 C14", lambda E, a, x: E.fold(x, lambda i, acc: (lambda t: t + t * a[i])(acc * acc)))
P("rec_fold_ignore", "a:f[n];x:f", "n=2 | n=0", "C05 C03", lambda E, a, x: (lambda s: (s[0], s[1]))(E.fold((x, 1.0), lambda i, s: (a[i], s[0]))))
P("rec_fold_ignore2", "a:f[n];x:f", "n=2 | n=0", "C05 C03", lambda E, a, x: (lambda s: (s[0], s[1]))(E.fold((x, 1.0), lambda i, s: (x + a[i], s[1] + a[i]))))
P("fold_drop_field", "a:f[n];x:f", "n=3", "C05 C03", lambda E, a, x: E.fold((x, 1.0), lambda i, s: (s[0] + a[i], s[1] * s[0]))[0])
P("fold_swap", "a:f[n];x:f", "n=3", "C05 C03", lambda E, a, x: (lambda s: (s[0], s[1]))(E.fold((x, 1.0), lambda i, s: (s[1], s[0]), count=3)))

# two arrays contracted along different pairs of axes: the two sides must be multiplied, in every orientation
P("dot_same_axis", "a:f[n];b:f[n];c:f[m];d:f[m]", "n=2 m=2", "C03", lambda E, a, b, c, d: E.array(lambda j: E.fold_sum(lambda i: a[i] * b[i] * c[j]) + d[j]))
P("dot_scalar_factor", "a:f[n];b:f[n];x:f", "n=2 | n=0", "C03", lambda E, a, b, x: E.fold_sum(lambda i: (a[i] * x) * b[i]))
P("dot_scalar_only", "a:f[n];x:f;y:f", "n=2 | n=0", "C03", lambda E, a, x, y: E.fold_sum(lambda i: x * y, count=2))
P("dot_add_inside", "a:f[n];b:f[n]", "n=2", "C03", lambda E, a, b: E.fold_sum(lambda i: a[i] * (b[i] + a[i])))
P("dot_div_inside", "a:f[n];b:f[n]", "n=2", "C03", lambda E, a, b: E.fold_sum(lambda i: a[i] * (1.0 / (b[i] * b[i] + 1.0))))
P("dot_int", "a:i[n];b:i[n]", "n=2 | n=0", "C03 C11", lambda E, a, b: E.fold(0, lambda i, acc: acc + a[i] * b[i]))
P("dot_int_mat", "a:i[n,k];b:i[k,m]", "n=2 m=2 k=2", "C03 C11", lambda E, a, b: E.array(lambda i, j: E.fold(0, lambda t, acc: acc + a[i, t] * b[t, j])))
P("dot_mixed", "a:i[n];b:f[n]", "n=2", "C03 C11", lambda E, a, b: E.fold_sum(lambda i: a[i].float() * b[i]))

# rows carried by a fold, sizes taken from rows, and sizes related through folds and lets
P("rowfold_last", "a:f[n,m];x:f[m]", "n=2 m=3 | n=3 m=2 | n=3 m=3", "C09 C03", lambda E, a, x: (lambda g: E.array(lambda i: g[i] - x[i]))(E.fold(a[0], lambda k, acc: a[k], count=a.size(0))))
P("rowfold_size0", "a:f[n,m];x:f[n]", "n=2 m=3 | n=2 m=2", "C09 C03", lambda E, a, x: (lambda g: E.array(lambda i: g[i] - x[i], size=a.size(0)))(E.fold(a[0], lambda k, acc: a[k], count=a.size(0))))
P("rowfold_size0_big", "a:f[n,m];x:f[n]", "n=3 m=2 | n=2 m=3", "C09 C03", lambda E, a, x: (lambda g: E.array(lambda i: g[i.min(1)] - x[i], size=a.size(0)))(E.fold(a[0], lambda k, acc: a[k], count=a.size(0))))
P("rowfold_sum", "a:f[n,m]", "n=2 m=3 | n=3 m=2 | n=1 m=1", "C09 C03", lambda E, a: E.fold(a[0], lambda k, acc: E.array(lambda j: acc[j] + a[k, j]), count=a.size(0)))
P("rowfold_sum_size", "a:f[n,m]", "n=2 m=3 | n=3 m=2", "C09 C03", lambda E, a: (lambda g: (g.size(), E.array(lambda i: g[i] * 2.0, size=g.size())))(E.fold(a[0], lambda k, acc: E.array(lambda j: acc[j] + a[k, j]), count=a.size(0))))
P("rowfold_col", "a:f[n,m];x:f[n]", "n=2 m=3 | n=3 m=2", "C09 C03", lambda E, a, x: (lambda g: E.array(lambda i: g[i] - x[i]))(E.fold(E.array(lambda i: a[i, 0]), lambda k, acc: E.array(lambda i: acc[i] * a[i, k]), count=a.size(1))))
P("rowfold_r3", "a:f[n,m,k];x:f[k]", "n=2 m=3 k=2 | n=1 m=2 k=3", "C09 C03", lambda E, a, x: (lambda g: E.array(lambda i: g[0, i] - x[i]))(E.fold(a[0], lambda t, acc: a[t], count=a.size(0))))
P("rowfold_r3_size", "a:f[n,m,k]", "n=2 m=3 k=2 | n=1 m=2 k=3", "C09 C03", lambda E, a: (lambda g: (g.size(0), g.size(1), E.array(lambda i: g[i, 0], size=a.size(1))))(E.fold(a[0], lambda t, acc: a[t], count=a.size(0))))
P("rowfold_r3_mis", "a:f[n,m,k]", "n=2 m=3 k=2 | n=1 m=1 k=3", "C09 C03", lambda E, a: (lambda g: E.array(lambda i: g[i.min(g.size(0) - 1), 0], size=a.size(2)))(E.fold(a[0], lambda t, acc: a[t], count=a.size(0))))
P("row_size", "a:f[n,m];x:f[m]", "n=2 m=3 | n=3 m=2", "C09", lambda E, a, x: (lambda r: E.array(lambda i: r[i] * x[i], size=r.size()))(a[1]))
P("row_size_let", "a:f[n,m];x:f[m]", "n=2 m=3 | n=3 m=2", "C09 C14", lambda E, a, x: E.let(a[1], lambda r: E.array(lambda i: r[i] * x[i] - r[0], size=r.size())))
P("row_size_two", "a:f[n,m];b:f[k,m]", "n=2 m=3 k=1 | n=3 m=2 k=2", "C09", lambda E, a, b: (lambda r, s: E.array(lambda i: r[i] * s[i]))(a[0], b[0]))
P("row_size_cross", "a:f[n,m];b:f[m,n]", "n=2 m=3 | n=3 m=2", "C09", lambda E, a, b: E.array(lambda i, j: a[i, j] - b[j, i], size=(b.size(1), a.size(1))))
P("row_size_slice", "a:f[n,m]", "n=2 m=3 | n=3 m=2", "C09", lambda E, a: (lambda c: E.array(lambda i: c[i] * 2.0, size=c.size()))(E.array(lambda i: a[i, 1])))
P("rowfold_twice", "a:f[n,m];b:f[m,n]", "n=2 m=3", "C09 C03", lambda E, a, b: (lambda g, h: E.array(lambda i, j: g[i] - h[j]))(E.fold(a[0], lambda k, acc: a[k], count=2), E.fold(b[0], lambda k, acc: b[k], count=2)))
P("rowfold_init_other", "a:f[n,m];x:f[m]", "n=2 m=3 | n=0 m=2", "C09 C03", lambda E, a, x: E.fold(x, lambda k, acc: a[k], count=a.size(0)))
P("rowfold_pair", "a:f[n,m];x:f[m]", "n=2 m=3", "C09 C05 C03", lambda E, a, x: (lambda s: (E.array(lambda i: s[0][i] - x[i]), s[1]))(E.fold((a[0], 0.0), lambda k, s: (a[k], s[1] + s[0][0]), count=a.size(0))))

# stated size relations do not change values
P("asm_vec", "a:f[n];b:f[n]", "n=2 | n=0", "C09 C14", lambda E, a, b: a.assume(b))
P("asm_add", "a:f[n];b:f[n]", "n=3", "C09 C14", lambda E, a, b: E.array(lambda i: a.assume(b)[i] + b[i]))
P("asm_both", "a:f[n];b:f[n]", "n=2", "C09", lambda E, a, b: (lambda p, q: E.array(lambda i: p[i] * q[i]))(a.assume(b), b.assume(a)))
P("asm_chain", "a:f[n];b:f[n];c:f[n]", "n=2 | n=0", "C09", lambda E, a, b, c: E.array(lambda i: a.assume(b).assume(c)[i] - c[i]))
P("asm_comp", "a:f[n];b:f[n]", "n=2", "C09", lambda E, a, b: (lambda g: E.array(lambda i: g[i] - b[i]))(E.array(lambda i: a[i] * 2.0).assume(b)))
P("asm_mat", "a:f[n,m];b:f[n,m]", "n=2 m=3", "C09", lambda E, a, b: E.array(lambda i, j: a.assume(b)[i, j] - b[i, j]))
P("asm_mat_t", "a:f[n,m];b:f[m,n]", "n=2 m=3", "C09", lambda E, a, b: (lambda t: E.array(lambda i, j: t[i, j] * a[i, j]))(E.array(lambda i, j: b[j, i]).assume(a)))
P("asm_fold", "a:f[n];x:f", "n=3 | n=0", "C09 C03", lambda E, a, x: E.fold(a, lambda k, acc: E.array(lambda i: acc[i] * x + a[i]).assume(a), count=2))
P("asm_fold_acc", "a:f[n]", "n=3", "C09 C03", lambda E, a: E.fold(a, lambda k, acc: E.array(lambda i: acc[i] + a[k] * a[i]).assume(acc), count=2))
P("asm_scalar", "x:f;y:f", "", "C14", lambda E, x, y: x.assume(y) * y)
P("asm_int", "p:i[n];q:i[n]", "n=2", "C09 C11", lambda E, p, q: E.array(lambda i: p.assume(q)[i] - q[i]))
P("asm_size", "a:f[n];b:f[n]", "n=2 | n=0", "C09", lambda E, a, b: a.assume(b).size())
P("asm_row", "a:f[n,m];x:f[m]", "n=2 m=3", "C09", lambda E, a, x: E.array(lambda i, j: a[i].assume(x)[j] * x[j]))
P("asm_concat", "a:f[n];b:f[n]", "n=2", "C09 C16", lambda E, a, b: a.assume(b).concat(b.assume(a)))
P("asm_reduce", "a:f[n];b:f[n]", "n=3 | n=0", "C09 C04", lambda E, a, b: a.assume(b).reduce(0.0, lambda p, q: p + q))
P("asm_let", "a:f[n];b:f[n]", "n=2", "C09 C14", lambda E, a, b: E.let(a.assume(b), lambda c: E.array(lambda i: c[i] * c[0] - b[i])))
P("rowfold_r3_slice", "a:f[n,m,k]", "n=2 m=3 k=2 | n=2 m=2 k=1", "C09 C03", lambda E, a: (lambda g: E.array(lambda i: g[i, 0] * 2.0, size=a.size(2)))(E.fold(a[0], lambda t, acc: a[t], count=a.size(0))))
P("rowfold_r3_slice2", "a:f[n,m,k]", "n=2 m=2 k=3 | n=1 m=2 k=3", "C09 C03", lambda E, a: (lambda g: E.array(lambda i: g[0, i] * 2.0, size=a.size(1)))(E.fold(a[0], lambda t, acc: a[t], count=a.size(0))))
P("rowfold_r3_slice3", "a:f[n,m,k]", "n=2 m=3 k=3 | n=1 m=2 k=3", "C09 C03", lambda E, a: (lambda g: E.array(lambda i, j: g[i, j] * 2.0, size=(a.size(0), a.size(0))))(E.fold(a[0], lambda t, acc: a[t], count=a.size(0))))
P("rowsel_r3_slice", "a:f[n,m,k]", "n=2 m=3 k=2", "C09", lambda E, a: (lambda g: E.array(lambda i: g[i, 0] * 2.0, size=a.size(2)))(a[1]))
P("rowsel_r3_slice2", "a:f[n,m,k]", "n=2 m=2 k=3", "C09", lambda E, a: (lambda g: E.array(lambda i, j: g[i, j] * 2.0, size=(a.size(1), a.size(1))))(a[1]))
P("rowsel_col_slice", "a:f[n,m,k]", "n=3 m=2 k=4", "C09", lambda E, a: (lambda g: E.array(lambda i, j: g[i, j] * 2.0, size=(a.size(1), a.size(0))))(E.array(lambda i, j: a[i, 0, j])))

# whole-axis slices, index-free and variadic comprehensions
P("sl_all", "a:f[n]", "n=3 | n=0", "C01", lambda E, a: a[:])
P("sl_all2", "a:f[n,m]", "n=2 m=3 | n=0 m=2", "C01", lambda E, a: a[:, :])
P("sl_col_dyn", "a:f[n,m];j:i", "n=2 m=3", "C01", lambda E, a, j: a[:, j])
P("sl_row_then", "a:f[n,m]", "n=2 m=3", "C01", lambda E, a: a[1, :])
P("sl_first_third", "a:f[n,m,k];j:i", "n=2 m=2 k=2", "C01", lambda E, a, j: a[j, :, 1])
P("sl_two_cols", "a:f[n,m]", "n=3 m=2", "C01 C09", lambda E, a: (lambda p, q: E.array(lambda i: p[i] - q[i]))(a[:, 0], a[:, 1]))
P("sl_size", "a:f[n,m]", "n=2 m=3", "C09", lambda E, a: (a[:, 0].size(), a[0, :].size()))
P("sl_idx_in_array", "a:f[n,m]", "n=2 m=3", "C01", lambda E, a: E.array(lambda j: a[:, j], size=a.size(1)))
P("sl_fold", "a:f[n,m]", "n=2 m=3 | n=0 m=2", "C03", lambda E, a: E.array(lambda j: E.fold(0.0, lambda i, acc: acc * 2.0 + a[:, j][i], count=a.size(0)), size=a.size(1)))
P("sl_rec", "a:f[n];b:f[n]", "n=2", "C05", lambda E, a, b: (lambda r: (E.array(lambda i: r[i][0]), E.array(lambda i: r[i][1])))(E.array(lambda i: (a[i], b[i]))[:]))
P("idx_none", "x:f;y:f", "", "C01", lambda E, x, y: E.array(lambda: x * y))
P("idx_none_vec", "a:f[n]", "n=2 | n=0", "C01", lambda E, a: E.array(lambda: a))
P("idx_varargs", "a:f[n];b:f[m]", "n=2 m=3", "C01", lambda E, a, b: E.array(lambda *ix: a[ix[0]] - b[ix[1]], size=(2, 3)))
P("idx_varargs3", "a:f[n,m]", "n=2 m=2", "C01", lambda E, a: E.array(lambda *ix: a[ix[2], ix[0]] * ix[1].float(), size=(2, 2, 2)))
P("idx_read_empty_tuple", "a:f[n]", "n=2", "C01", lambda E, a: a[()])

# constants too long to be compared element by element
P("big_sub", "a:f[n];b:f[n]", "n=1100", "C14", lambda E, a, b: E.array(lambda i: a[i] - b[i]), modes=("const",))
P("big_pair", "a:i[n];b:i[n]", "n=1030", "C14", lambda E, a, b: (a, b), modes=("const",))
P("big_concat", "a:f[n];b:f[n]", "n=1030", "C14 C16", lambda E, a, b: a.concat(b), modes=("const",))
P("big_mat", "a:f[n,1];b:f[n,1]", "n=1030", "C14", lambda E, a, b: E.array(lambda i, j: a[i, j] * 2.0 - b[i, j]), modes=("const",))
P("big_row", "a:f[1,n];b:f[1,n]", "n=1030", "C14", lambda E, a, b: E.array(lambda i, j: a[i, j] - b[i, j]), modes=("const",))
P("big_read", "a:f[n];b:f[n]", "n=1030", "C14", lambda E, a, b: (a[0] - b[0], a[1029] - b[1029]), modes=("const",))
P("big_small", "a:f[n];b:f[2]", "n=1024 | n=1023", "C14", lambda E, a, b: (a[0] * b[0] - a[1], b[1] - b[0]), modes=("const",))
P("big_kinds", "a:i[n];b:b[n]", "n=1030", "C14 C11", lambda E, a, b: (a[5], E.array(lambda i: ~b[i])), modes=("const",))
P("big_var", "a:f[n]", "n=1100", "C14", lambda E, a: E.array(lambda i: a[i] * 2.0 - a[i - 1]), modes=("var",))

# every way of making an integer, converted to a float, at ranks 0 to 3, on its own and under further operations
_INTS = {
    "var": lambda E, p, q: p, "add": lambda E, p, q: p + q, "mul": lambda E, p, q: p * q, "sub": lambda E, p, q: p - q, "neg": lambda E, p, q: -p,
    "min": lambda E, p, q: p.min(q), "max": lambda E, p, q: q.max(p), "mod": lambda E, p, q: p % 3, "where": lambda E, p, q: E.where(p > q, p, q),
    "abs": lambda E, p, q: abs(p - q), "pow": lambda E, p, q: p ** 2, "lit": lambda E, p, q: p * 2 + 1, "nest": lambda E, p, q: (p + q) * (p - q),
}
_USES = {"": lambda x: x, "_half": lambda x: x * 0.5, "_twice": lambda x: x + x, "_neg": lambda x: -x, "_cmp": lambda x: x > 1.5}
for _i, _f in _INTS.items():
    for _u, _g in _USES.items():
        if _u and _i not in ("var", "add", "min", "where"):
            continue
        P(f"cast0_{_i}{_u}", "p:i;q:i", "", "C11", lambda E, p, q, f=_f, g=_g: g(f(E, p, q).float()))
        P(f"cast1_{_i}{_u}", "p:i[n];q:i[n]", "n=2", "C11", lambda E, p, q, f=_f, g=_g: E.array(lambda i: g(f(E, p[i], q[i]).float())))
        P(f"cast2_{_i}{_u}", "p:i[n,m];q:i[m]", "n=2 m=3", "C11", lambda E, p, q, f=_f, g=_g: E.array(lambda i, j: g(f(E, p[i, j], q[j]).float())))
    P(f"cast2o_{_i}", "p:i[n];q:i[m]", "n=2 m=2", "C11", lambda E, p, q, f=_f: E.array(lambda i, j: f(E, p[i], q[j]).float(), size=(p.size(), q.size())))
    P(f"cast3_{_i}", "p:i[n,m];q:i[k]", "n=1 m=2 k=2", "C11", lambda E, p, q, f=_f: E.array(lambda i, j, k: f(E, p[i, j], q[k]).float(), size=(p.size(0), p.size(1), q.size())))
    P(f"castk_{_i}", "p:i[n,m];q:i[m]", "n=2 m=2", "C11", lambda E, p, q, f=_f: E.array(lambda i, j: f(E, p[i, j], q[j])))
    P(f"castt_{_i}", "p:i[n,m];q:i[m]", "n=2 m=2", "C11 C05", lambda E, p, q, f=_f: (lambda r: (E.array(lambda i, j: r[i, j][0]), E.array(lambda i, j: r[i, j][1])))(
        E.array(lambda i, j: (f(E, p[i, j], q[j]).float(), f(E, p[i, j], q[j])))))
P("cast_idx2", "a:f[n,m]", "n=2 m=3", "C11", lambda E, a: E.array(lambda i, j: (i + j).float(), size=(a.size(0), a.size(1))))
P("cast_idx2_mul", "a:f[n,m]", "n=2 m=3", "C11", lambda E, a: E.array(lambda i, j: (i * j - 1).float() * a[i, j]))
P("cast_size", "a:f[n,m]", "n=2 m=3", "C11", lambda E, a: (a.size(0).float(), (a.size(1) * 2).float(), E.array(lambda i: (a.size(0) + i).float(), size=2)))
P("cast_fold", "p:i[n,m]", "n=2 m=3 | n=2 m=0", "C11 C03", lambda E, p: E.array(lambda i: E.fold(0, lambda j, acc: acc + p[i, j]).float()))
P("cast_fold2", "p:i[n,m,k]", "n=2 m=2 k=2", "C11 C03", lambda E, p: E.array(lambda i, j: E.fold(0, lambda t, acc: acc + p[i, j, t]).float()))
P("cast_in_fold", "p:i[n,m]", "n=2 m=3", "C11 C03", lambda E, p: E.array(lambda i: E.fold(0.0, lambda j, acc: acc + (p[i, j] + 1).float())))
P("cast_in_loop", "p:i[n,m]", "n=2 m=2", "C11 C03", lambda E, p: E.array(lambda i: E.fold(1.0, lambda j, acc: acc * 2.0 + (p[i, j] * p[i, 0]).float())))
P("cast_loop", "p:i[n,m]", "n=2 m=2", "C11 C03", lambda E, p: E.array(lambda i: E.fold(1, lambda j, acc: acc * 2 + p[i, j]).float()))
P("cast_gather", "p:i[n];q:i[m]", "n=3 m=2", "C11", lambda E, p, q: E.array(lambda i, j: p[q[i] + q[j]].float()))
P("cast_reduce", "p:i[n]", "n=3 | n=0", "C11 C04", lambda E, p: p.reduce(0, lambda x, y: x + y).float())
P("cast_concat", "p:i[n];q:i[m]", "n=2 m=1", "C11 C16", lambda E, p, q: (lambda c: E.array(lambda i: (c[i] + c[0]).float()))(p.concat(q)))
P("cast_let", "p:i[n,m];q:i[m]", "n=2 m=2", "C11 C14", lambda E, p, q: E.let(E.array(lambda i, j: p[i, j] + q[j]), lambda c: E.array(lambda i, j: c[i, j].float() * 0.5 + (c[i, j] - 1).float())))
P("cast_share", "p:i[n,m];q:i[m]", "n=2 m=2", "C11 C14", lambda E, p, q: E.array(lambda i, j: (lambda s: (s * s).float() - s.float())(p[i, j] + q[j])))
P("cast_shift", "p:i[n]", "n=3", "C11 C02", lambda E, p: E.array(lambda i: (p[i + 1] - p[i - 1]).float(), size=3))
