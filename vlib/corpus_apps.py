"""Application programs: the numerical kernels the library is meant for, at small extents.

Attention, graph attention, stencils, shortest paths over a semiring, k-means, dynamic programming, recurrent
cells, automatic differentiation with records, power iteration, scans, histograms, string distances.
"""
from __future__ import annotations

import dataclasses

from .corpus_base import prog as P


def fields(E, r, rank, *names):
    """The arrays of the fields of an array of records."""
    if rank == 1:
        return tuple(E.array(lambda i: getattr(r[i], n)) for n in names)
    return tuple(E.array(lambda i, j: getattr(r[i, j], n)) for n in names)


def isum(E, f, count=None):
    return E.fold(0, lambda i, acc: acc + f(i), count=count)


def softmax(E, x, stable=True):
    if stable:
        m = E.fold_max(lambda i: x[i])
        x1 = E.array(lambda i: (x[i] - m).exp())
        s = E.fold_sum(lambda i: x1[i])
        return E.array(lambda i: x1[i] / s)
    return E.array(lambda i: x[i].exp() / E.fold_sum(lambda j: x[j].exp()))


P("app_softmax_rows", "a:f[n,m]", "n=2 m=2 | n=1 m=3", "C01 C03", lambda E, a: E.array(lambda i: softmax(E, a[i])))
P("app_softmax_cols", "a:f[n,m]", "n=2 m=2", "C01 C03",
  lambda E, a: E.array(lambda j: softmax(E, E.array(lambda i: a[i, j]))))
P("app_softmax_naive", "a:f[n,m]", "n=2 m=3", "C03", lambda E, a: E.array(lambda i: softmax(E, a[i], False)))


def _gat(E, adj, vals, s, t, e, g):
    bias = E.array(lambda b, u, v: (adj[b, u, v] - 1.0) * 1e9)
    logits = E.array(lambda b, h, u, v: s[b, u, h] + t[b, v, h] + e[b, u, v, h] + g[b, h])
    coefs = E.array(lambda b, h, u: softmax(E, E.array(
        lambda v: E.where(logits[b, h, u, v] < 0.0, 0.01 * logits[b, h, u, v], logits[b, h, u, v]) + bias[b, u, v])))
    return E.array(lambda b, u, h, f: E.fold_sum(lambda v: coefs[b, h, u, v] * vals[b, v, h, f]))


P("app_gat", "adj:f[b,n,n];vals:f[b,n,h,f];s:f[b,n,h];t:f[b,n,h];e:f[b,n,n,h];g:f[b,h]", "b=1 n=2 h=1 f=2", "C01 C03", _gat, thorough=True)


def _attention(E, Wh, WY, bM, w, Y, ht):
    def one(Y, ht):
        M = E.array(lambda s, l: (E.fold_sum(lambda k: Y[s, k] * WY[k, l]) + E.fold_sum(lambda k: ht[k] * Wh[k, l]) + bM[l]).tanh())
        at = softmax(E, E.array(lambda s: E.fold_sum(lambda l: M[s, l] * w[l])), False)
        return E.array(lambda l: E.fold_sum(lambda s: Y[s, l] * at[s]) + (E.fold_sum(lambda k: ht[k] * Wh[k, l]) - bM[l]).tanh())
    return E.array(lambda i: one(Y[i], ht[i]))


P("app_attention", "Wh:f[h,h];WY:f[h,h];bM:f[h];w:f[h];Y:f[b,t,h];ht:f[b,h]", "h=2 b=1 t=2 | h=2 b=2 t=1", "C01 C03 C14", _attention)


def _qkv(E, q, k, v, mask):
    sc = E.array(lambda i, j: E.where(mask[i, j], E.fold_sum(lambda d: q[i, d] * k[j, d]), -100.0))
    ex = E.array(lambda i, j: sc[i, j].exp())
    return E.array(lambda i, d: E.fold_sum(lambda j: ex[i, j] * v[j, d]) / E.fold_sum(lambda j: ex[i, j]))


P("app_qkv_masked", "q:f[n,d];k:f[m,d];v:f[m,e];mask:b[n,m]", "n=2 m=2 d=2 e=1", "C01 C03 C14", _qkv)
P("app_causal", "a:f[n,n];v:f[n]", "n=3", "C01 C03",
  lambda E, a, v: E.array(lambda i: E.fold_sum(lambda j: E.where(j <= i, a[i, j] * v[j], 0.0))))


@dataclasses.dataclass
class Cx:
    x: object
    y: object

    def __add__(self, o):
        return Cx(self.x + o.x, self.y + o.y)

    def __mul__(self, o):
        return Cx(self.x * o.x - self.y * o.y, self.x * o.y + self.y * o.x)

    def mag(self):
        return self.x ** 2 + self.y ** 2


def _mandel(E, xs, ys, t):
    def count(c):
        def step(i, acc):
            out, z = acc
            return E.where((out > -1) & (z.mag() <= 4.0), (i + 1, z * z + c), (out, z))
        return E.fold((E.wrap(0), Cx(E.wrap(0.0), E.wrap(0.0))), step, count=t)[0]
    return E.array(lambda i, j: count(Cx(xs[i], ys[j])))


P("app_mandel", "xs:f[n];ys:f[m];t:i{0..2}", "n=1 m=2", "C03 C05", _mandel, dyn="t")
P("app_cdft", "re:f[n];im:f[n]", "n=2 | n=1", "C05 C03",
  lambda E, re, im: (lambda z: fields(E, E.array(lambda k: E.fold(Cx(E.wrap(0.0), E.wrap(0.0)), lambda j, acc: acc + z[j] * Cx((k * j).float().cos(), -(k * j).float().sin()), count=re.size()), size=re.size()), 1, 'x', 'y'))(
      E.array(lambda i: Cx(re[i], im[i]))))
P("app_cmatmul", "ar:f[n,k];ai:f[n,k];br:f[k,m];bi:f[k,m]", "n=2 k=2 m=1", "C05 C03",
  lambda E, ar, ai, br, bi: (lambda a, b: fields(E, E.array(lambda i, j: E.fold(Cx(E.wrap(0.0), E.wrap(0.0)), lambda k, acc: acc + a[i, k] * b[k, j])), 2, "x", "y"))(
      E.array(lambda i, k: Cx(ar[i, k], ai[i, k])), E.array(lambda k, j: Cx(br[k, j], bi[k, j]))))


def _floyd(E, d0):
    n = d0.size(0)
    d = E.fold(d0, lambda k, d: E.array(lambda i, j: E.min(d[i, j], d[i, k] + d[k, j])), count=n)
    return E.array(lambda i, j: E.where(i == j, E.min(0.0, d[i, j]), d[i, j]))


P("app_floyd", "d:f[n,n]", "n=2 | n=1 | n=0", "C03", _floyd)


@dataclasses.dataclass
class Trop:
    x: object

    def __add__(self, o):
        return Trop(self.x.min(o.x))

    def __mul__(self, o):
        return Trop(self.x + o.x)


def _trop(E, a, b):
    u = E.array(lambda i, j: Trop(a[i, j]))
    v = E.array(lambda i, j: Trop(b[i, j]))
    return fields(E, E.array(lambda i, j: E.fold(Trop(E.wrap(1000.0)), lambda k, acc: acc + u[i, k] * v[k, j])), 2, "x")


P("app_trop_matmul", "a:f[n,k];b:f[k,m]", "n=2 k=2 m=2 | n=1 k=0 m=2", "C05 C03", _trop)


def _closure(E, d0):
    d = E.array(lambda i, j: Trop(d0[i, j]))
    r = E.fold(d, lambda k, acc: E.array(lambda i, j: acc[i, j] + acc[i, k] * acc[k, k] * acc[k, j]).assume(d), count=d0.size(0))
    return fields(E, r, 2, "x")


P("app_trop_closure", "d:f[n,n]", "n=2", "C05 C03", _closure)


def _pathfinder(E, c):
    n = c.size(1)
    return E.fold(E.array(lambda i: E.wrap(0.0), size=n), lambda t, dist: E.array(
        lambda i: c[t, i] + E.min(dist[i], dist[E.max(i - 1, 0)], dist[E.min(i + 1, n - 1)])))


P("app_pathfinder", "c:f[t,n]", "t=2 n=3 | t=3 n=2 | t=0 n=2 | t=2 n=1", "C02 C03", _pathfinder)


def _hotspot(E, it, ts0, p):
    r, c = ts0.size(0), ts0.size(1)
    rx, ry = r.float() / 16.0, c.float() * 0.5

    def step(ts, y, x):
        dx = (ts[y, E.min(x + 1, c - 1)] + ts[y, E.max(x - 1, 0)] - 2.0 * ts[y, x]) / rx
        dy = (ts[E.min(y + 1, r - 1), x] + ts[E.max(y - 1, 0), x] - 2.0 * ts[y, x]) / ry
        return ts[y, x] + 0.25 * (p[y, x] + dx + dy + (80.0 - ts[y, x]) / 4.0)

    return E.fold(ts0, lambda _, ts: E.array(lambda y, x: step(ts, y, x)), count=it)


P("app_hotspot", "it:i{0..2};ts:f[r,c];p:f[r,c]", "r=2 c=3 | r=1 c=2", "C02 C03", _hotspot, dyn="it")


def _stencil3(E, it, a0):
    nx, ny, nz = a0.size(0), a0.size(1), a0.size(2)
    return E.fold(a0, lambda _, a: E.array(lambda x, y, z: E.where(
        (x == 0) | (x == nx - 1) | (y == 0) | (y == ny - 1) | (z == 0) | (z == nz - 1), a[x, y, z],
        (a[x - 1, y, z] + a[x + 1, y, z] + a[x, y - 1, z] + a[x, y + 1, z] + a[x, y, z - 1] + a[x, y, z + 1]) * 0.25 + a[x, y, z] * 0.5)), count=it)


P("app_stencil3", "it:i{0..2};a:f[x,y,z]", "x=3 y=3 z=3 | x=2 y=1 z=3", "C02 C03", _stencil3, dyn="it")


def _kmeans(E, points, c0, it):
    def dist(p, q):
        return E.fold_sum(lambda d: (p[d] - q[d]) ** 2)

    def go(_, cs):
        members = E.array(lambda i: E.fold_argmin(lambda j: dist(points[i], cs[j])))
        tot = E.array(lambda c, d: E.fold_sum(lambda i: E.where(members[i] == c, points[i, d], 0.0)), size=(cs.size(0), cs.size(1)))
        cnt = E.array(lambda c: E.fold_sum(lambda i: E.where(members[i] == c, 1.0, 0.0)), size=cs.size(0))
        return E.array(lambda c, d: tot[c, d] / cnt[c].max(1.0))

    return E.fold(c0, go, count=it)


P("app_kmeans", "p:f[n,d];c:f[k,d]", "n=2 d=1 k=2", "C03 C19", lambda E, p, c: _kmeans(E, p, c, 1))
P("app_kmeans_it", "p:f[n,d];c:f[k,d];it:i{0..1}", "n=2 d=1 k=1", "C03 C19", _kmeans, dyn="it")


def _mriq(E, kx, ky, x, y, pr, pi):
    mag = E.array(lambda i: pr[i] * pr[i] + pi[i] * pi[i])
    ang = E.array(lambda i: 6.25 * E.fold_sum(lambda j: kx[i] * x[j] + ky[i] * y[j]))
    return E.array(lambda i: (mag[i] * ang[i]).sin())


P("app_mriq", "kx:f[k];ky:f[k];x:f[n];y:f[n];pr:f[k];pi:f[k]", "k=2 n=3 | k=2 n=2 | k=1 n=0", "C03", _mriq)


@dataclasses.dataclass
class Dual:
    re: object
    du: object

    def __add__(self, o):
        return Dual(self.re + o.re, self.du + o.du)

    def __mul__(self, o):
        return Dual(self.re * o.re, self.re * o.du + self.du * o.re)


P("app_dual_horner", "c:f[n];x:f[m]", "n=3 m=2 | n=0 m=2", "C05 C03",
  lambda E, c, x: fields(E, E.array(lambda j: E.fold(Dual(E.wrap(0.0), E.wrap(0.0)), lambda i, acc: acc * Dual(x[j], E.wrap(1.0)) + Dual(c[i], E.wrap(0.0)))), 1, "re", "du"))
P("app_dual_prod", "x:f[n]", "n=3 | n=0", "C04 C05",
  lambda E, x: E.array(lambda i: Dual(x[i], E.wrap(1.0))).reduce(Dual(E.wrap(1.0), E.wrap(0.0)), lambda a, b: a * b))
P("app_matpow", "a:f[n,n];t:i{0..2}", "n=2", "C03",
  lambda E, a, t: E.fold(E.array(lambda i, j: E.where(i == j, 1.0, 0.0), size=(a.size(0), a.size(1))),
                         lambda _, m: E.array(lambda i, j: E.fold_sum(lambda k: m[i, k] * a[k, j])), count=t), dyn="t")
P("app_rnn", "w:f[h,h];u:f[h,x];xs:f[t,x]", "h=2 x=1 t=2 | h=1 x=2 t=0", "C03",
  lambda E, w, u, xs: E.fold(E.array(lambda i: E.wrap(0.0), size=w.size(0)), lambda t, h: E.array(
      lambda i: (E.fold_sum(lambda j: w[i, j] * h[j]) + E.fold_sum(lambda k: u[i, k] * xs[t, k])).tanh()), count=xs.size(0)))
P("app_rnn_batch", "w:f[h,h];xs:f[b,t,h]", "h=1 b=2 t=2", "C03",
  lambda E, w, xs: E.array(lambda b: E.fold(E.array(lambda i: E.wrap(0.0), size=w.size(0)), lambda t, h: E.array(
      lambda i: (E.fold_sum(lambda j: w[i, j] * h[j]) + xs[b, t, i]).tanh()), count=xs.size(1))))
P("app_prefix_sum", "a:f[n]", "n=3 | n=1 | n=0", "C03 C16",
  lambda E, a: E.fold((E.array(lambda i: E.wrap(0.0), size=a.size()), E.wrap(0.0)),
                      lambda k, acc: (E.array(lambda i: E.where(i == k, acc[1] + a[k], acc[0][i])), acc[1] + a[k]), count=a.size())[0])
P("app_scan_grow", "a:f[n]", "n=3 | n=0", "C16 C09",
  lambda E, a: E.fold(E.array(lambda i: a[i], size=0), lambda k, acc: acc.concat(E.array(
      lambda _: a[k] + E.where(k > 0, acc.or_empty(k - 1, E.wrap(0.0)), 0.0), size=1)), count=a.size()), skip="jax")
P("app_hist", "x:i[n]{0..2};w:f[n]", "n=3", "C03",
  lambda E, x, w: E.array(lambda b: E.fold_sum(lambda i: E.where(x[i] == b, w[i], 0.0)), size=3))
P("app_hist_ind", "x:i[n]{-1..3}", "n=2", "C02 C03",
  lambda E, x: E.fold(E.array(lambda b: E.wrap(0), size=3), lambda k, h: E.array(lambda b: h[b] + E.where(x[k] == b, 1, 0)), count=x.size()))
P("app_edit", "x:i[n];y:i[m]", "n=2 m=2", "C03 C02",
  lambda E, x, y: E.fold(E.array(lambda j: j, size=y.size() + 1), lambda i, prev: E.fold(
      E.array(lambda j: E.where(j == 0, i + 1, 0), size=y.size() + 1),
      lambda k, cur: E.array(lambda j: E.where(j == k + 1, E.min(prev[j] + 1, cur[j - 1] + 1, prev[j - 1] + E.where(x[i] == y[j - 1], 0, 1)), cur[j])),
      count=y.size()), count=x.size()))
P("app_lcs_table", "x:i[n];y:i[m]", "n=2 m=2", "C03 C02",
  lambda E, x, y: E.fold(E.array(lambda i, j: E.wrap(0), size=(x.size() + 1, y.size() + 1)), lambda t, d: E.array(
      lambda i, j: E.where((i > 0) & (j > 0), E.where(x[i - 1] == y[j - 1], d[i - 1, j - 1] + 1, E.max(d[i - 1, j], d[i, j - 1])), 0)), count=2))
P("app_conv1d", "x:f[n];w:f[k]", "n=4 k=3 | n=3 k=1 | n=2 k=3", "C02 C03",
  lambda E, x, w: E.array(lambda i: E.fold_sum(lambda j: x[i + j - 1] * w[j]), size=x.size()), skip="jax")
P("app_conv1d_valid", "x:f[n];w:f[k]", "n=4 k=2 | n=3 k=3", "C02 C03 C09",
  lambda E, x, w: E.array(lambda i: E.fold_sum(lambda j: x[i + j] * w[j], count=w.size()), size=x.size() - w.size() + 1), skip="jax")
P("app_conv2d", "x:f[n,m];w:f[k,l]", "n=2 m=3 k=2 l=2", "C02 C03",
  lambda E, x, w: E.array(lambda i, j: E.fold_sum(lambda p: E.fold_sum(lambda q: x[i + p, j + q] * w[p, q])), size=(2, 3)), skip="jax")
P("app_conv_ch", "x:f[c,n];w:f[o,c,k]", "c=2 n=2 o=2 k=2", "C02 C03",
  lambda E, x, w: E.array(lambda o, i: E.fold_sum(lambda c: E.fold_sum(lambda k: x[c, i + k] * w[o, c, k])), size=(2, 2)), skip="jax")
P("app_pool_max", "x:f[n,m]", "n=2 m=4", "C02 C03",
  lambda E, x: E.array(lambda i, j: E.max(x[i, j * 2], x[i, j * 2 + 1]), size=(2, 2)))
P("app_pool_avg", "x:f[n]", "n=5 | n=4", "C02 C03",
  lambda E, x: E.array(lambda i: E.fold_sum(lambda k: x[i * 2 + k], count=2) / 2.0, size=3))
P("app_layernorm", "a:f[n,m]", "n=2 m=2", "C03 C14",
  lambda E, a: E.array(lambda i: (lambda mu: (lambda var: E.array(lambda j: (a[i, j] - mu) / (var + 1.0)))(
      E.fold_sum(lambda j: (a[i, j] - mu) ** 2) / a.size(1).float()))(E.fold_sum(lambda j: a[i, j]) / a.size(1).float())))
P("app_cov", "a:f[n,m]", "n=2 m=2", "C03 C14",
  lambda E, a: (lambda mu: E.array(lambda j, k: E.fold_sum(lambda i: (a[i, j] - mu[j]) * (a[i, k] - mu[k]))))(
      E.array(lambda j: E.fold_sum(lambda i: a[i, j]) / a.size(0).float())))
P("app_pairdist", "a:f[n,d];b:f[m,d]", "n=2 m=2 d=2 | n=2 m=3 d=1", "C01 C03",
  lambda E, a, b: E.array(lambda i, j: E.fold_sum(lambda d: (a[i, d] - b[j, d]) ** 2)))
P("app_nn_argmin", "a:f[n,d];b:f[m,d]", "n=2 m=2 d=1", "C19",
  lambda E, a, b: E.array(lambda i: E.fold_argmin(lambda j: E.fold_sum(lambda d: (a[i, d] - b[j, d]) ** 2))))
P("app_bilinear", "a:f[n,k];w:f[k,l];b:f[m,l]", "n=2 k=2 l=2 m=1 | n=1 k=2 l=1 m=2", "C03",
  lambda E, a, w, b: E.array(lambda i, j: E.fold_sum(lambda k: E.fold_sum(lambda l: a[i, k] * w[k, l] * b[j, l]))))
P("app_batched_mm", "a:f[b,n,k];c:f[b,k,m]", "b=2 n=2 k=2 m=1 | b=2 n=2 k=2 m=2", "C03",
  lambda E, a, c: E.array(lambda b, i, j: E.fold_sum(lambda k: a[b, i, k] * c[b, k, j])))
P("app_chain_mm", "a:f[n,k];b:f[k,l];c:f[l,m]", "n=2 k=2 l=2 m=1", "C03 C14",
  lambda E, a, b, c: (lambda ab: E.array(lambda i, j: E.fold_sum(lambda l: ab[i, l] * c[l, j])))(
      E.array(lambda i, l: E.fold_sum(lambda k: a[i, k] * b[k, l]))))
P("app_trace_prod", "a:f[n,m];b:f[m,n]", "n=2 m=3 | n=2 m=2", "C03",
  lambda E, a, b: E.fold_sum(lambda i: E.fold_sum(lambda j: a[i, j] * b[j, i])))
P("app_tri_solve", "l:f[n,n];b:f[n]", "n=2", "C03",
  lambda E, l, b: E.fold(E.array(lambda i: E.wrap(0.0), size=b.size()), lambda k, x: E.array(
      lambda i: E.where(i == k, b[k] - E.fold_sum(lambda j: E.where(j < k, l[k, j] * x[j], 0.0)), x[i])), count=b.size()))
P("app_horner_batch", "c:f[b,n];x:f[b]", "b=2 n=3", "C03",
  lambda E, c, x: E.array(lambda b: E.fold(0.0, lambda i, acc: acc * x[b] + c[b, i])))
P("app_life", "g:i[n,m]{0..1}", "n=2 m=3", "C02 C03",
  lambda E, g: (lambda nb: E.array(lambda i, j: E.where((nb[i, j] == 3) | ((nb[i, j] == 2) & (g[i, j] == 1)), 1, 0)))(
      E.array(lambda i, j: isum(E, lambda p: isum(E, lambda q: E.where(
          (i + p - 1 >= 0) & (i + p - 1 < g.size(0)) & (j + q - 1 >= 0) & (j + q - 1 < g.size(1)) & ((p != 1) | (q != 1)),
          g[i + p - 1, j + q - 1], 0), count=3), count=3), size=(2, 3))), skip="jax")
P("app_sort_rank", "a:f[n]", "n=3", "C03 C02",
  lambda E, a: (lambda rank: E.array(lambda k: E.fold_sum(lambda i: E.where(rank[i] == k, a[i], 0.0)), size=a.size()))(
      E.array(lambda i: isum(E, lambda j: E.where((a[j] < a[i]) | ((a[j] == a[i]) & (j < i)), 1, 0)))))
P("app_compact", "a:f[n];m:b[n]", "n=2 | n=0", "C16 C09",
  lambda E, a, m: E.fold(E.array(lambda i: a[i], size=0), lambda k, acc: acc.concat(E.array(lambda _: a[k], size=E.where(m[k], 1, 0))), count=a.size()), skip="jax")
P("app_segmented", "v:f[n];s:i[n]{0..1}", "n=3", "C04 C05",
  lambda E, v, s: E.array(lambda i: (s[i] == 1, v[i])).reduce(
      (E.wrap(False), E.wrap(0.0)), lambda a, b: (a[0] | b[0], E.where(b[0], b[1], a[1] + b[1]))))
P("app_affine_scan", "a:f[n];b:f[n];x:f", "n=3 | n=0", "C04 C05",
  lambda E, a, b, x: (lambda m: m[0] * x + m[1])(E.array(lambda i: (a[i], b[i])).reduce(
      (E.wrap(1.0), E.wrap(0.0)), lambda p, q: (p[0] * q[0], p[1] * q[0] + q[1]))))
P("app_mat_monoid", "a:f[n,2,2]", "n=3 | n=2 | n=0", "C04",
  lambda E, a: E.array(lambda k: a[k]).reduce(
      E.array(lambda i, j: E.where(i == j, 1.0, 0.0), size=(2, 2)),
      lambda p, q: E.array(lambda i, j: E.fold_sum(lambda l: p[i, l] * q[l, j]))))
P("app_maxplus_path", "u:f[t,n,n];s:f[n]", "t=2 n=2", "C03",
  lambda E, u, s: E.fold(s, lambda t, d: E.array(lambda j: E.fold_max(lambda i: d[i] + u[t, i, j]))))
P("app_viterbi_bp", "u:f[n,n];s:f[n]", "n=2", "C03 C19",
  lambda E, u, s: E.array(lambda j: E.fold_argmin(lambda i: s[i] + u[i, j])))
P("app_gather_rows", "a:f[n,m];ix:i[k]", "n=3 m=2 k=2", "C02", lambda E, a, ix: E.array(lambda i: a[ix[i]]))
P("app_embed_bag", "a:f[v,d];ix:i[b,k]{-1..3}", "v=3 d=1 b=1 k=2", "C02 C03",
  lambda E, a, ix: E.array(lambda b, d: E.fold_sum(lambda k: a[ix[b, k], d])))
P("app_permute_twice", "a:f[n];p:i[n]", "n=3", "C02", lambda E, a, p: (lambda b: E.array(lambda i: b[p[i]]))(E.array(lambda i: a[p[i]])))
P("app_im2col", "x:f[n,m]", "n=2 m=3", "C02 C09",
  lambda E, x: E.array(lambda i, j, p, q: x[i + p, j + q], size=(1, 2, 2, 2)))
P("app_upwind", "u:f[n];c:f", "n=4 | n=1", "C02 C03",
  lambda E, u, c: E.fold(u, lambda _, v: E.array(lambda i: v[i] - c * (v[i] - v[i - 1])), count=2))
P("app_redblack", "u:f[n]", "n=4", "C02 C03",
  lambda E, u: E.fold(u, lambda t, v: E.array(lambda i: E.where((i + t) % 2 == 0, (v[i - 1] + v[i + 1]) * 0.5, v[i])), count=2))
P("app_newton", "a:f[n]", "n=2", "C03", lambda E, a: E.array(lambda i: E.fold(a[i], lambda _, x: (x + a[i] / (x * x + 1.0)) * 0.5, count=2)))
P("app_game_payoff", "p:f[n,m];x:f[n];y:f[m]", "n=2 m=2", "C03",
  lambda E, p, x, y: (E.fold_max(lambda i: E.fold_sum(lambda j: p[i, j] * y[j])), E.fold_min(lambda j: E.fold_sum(lambda i: p[i, j] * x[i]))))
