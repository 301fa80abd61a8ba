"""Symbolic execution of the JAX backend: the real code is traced by jax.make_jaxpr, the jaxpr (JAX's own
intermediate representation) is then executed on terms."""
from __future__ import annotations

import numpy as np

import jax
import jax.numpy as jnp

from . import dag, einapi, engine, symnp
from .dag import Unsupported
from .symnp import SymNd, elementwise, lift_array, make, objarr, plain

jcore = jax.core

# ------------------------------------------------------------------ uninterpreted external functions
uf_p = jcore.Primitive("verif_uf")


def _uf_impl(*xs, name):
    return jnp.asarray(dag.UFEVAL[name](*xs))


uf_p.def_impl(_uf_impl)
uf_p.def_abstract_eval(lambda *xs, name: jcore.ShapedArray(xs[0].shape, np.dtype(np.float64)))


def jax_uf(name, *xs):
    xs = jnp.broadcast_arrays(*(jnp.asarray(x, dtype=float) for x in xs))
    return uf_p.bind(*xs, name=name)


# ------------------------------------------------------------------ interpreter
def kind(aval):
    return symnp.kind_of_dtype(aval.dtype)


def ew(name):
    return lambda eqn, *xs: make(*elementwise(name, xs))


def lit(v):
    return lift_array(np.asarray(v))


def run_jaxpr(jaxpr, consts, args, depth=0):
    env = {}

    def read(v):
        if isinstance(v, jcore.Literal):
            return lit(v.val)
        return env[v]

    def write(v, x):
        x = lift_array(x)
        if tuple(x.shape) != tuple(v.aval.shape):
            raise Unsupported(f"model gives shape {x.shape}, jax says {v.aval.shape}")
        k = kind(v.aval)
        env[v] = x if x._k == k else symnp.cast(x, k)

    for v, c in zip(jaxpr.constvars, consts):
        write(v, c if isinstance(c, SymNd) else lit(c))
    for v, a in zip(jaxpr.invars, args):
        write(v, a)
    for eqn in jaxpr.eqns:
        f = PRIMS.get(eqn.primitive.name)
        if f is None:
            raise Unsupported(f"jax primitive {eqn.primitive.name}")
        r = f(eqn, *(read(v) for v in eqn.invars))
        if not eqn.primitive.multiple_results:
            r = [r]
        for v, x in zip(eqn.outvars, r):
            if not isinstance(v, jcore.DropVar):
                write(v, x)
    return [read(v) for v in jaxpr.outvars]


def closed(cj, args):
    return run_jaxpr(cj.jaxpr, cj.consts, args)


def _inner(eqn, *xs):
    for key in ("jaxpr", "call_jaxpr", "fun_jaxpr"):
        if key in eqn.params:
            j = eqn.params[key]
            return closed(j, xs) if isinstance(j, jcore.ClosedJaxpr) else run_jaxpr(j, (), xs)
    raise Unsupported(eqn.primitive.name)


def _while(eqn, *xs):
    p = eqn.params
    nc, nb = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, st = list(xs[:nc]), list(xs[nc:nc + nb]), list(xs[nc + nb:])
    for _ in range(64):
        (c,) = closed(p["cond_jaxpr"], cc + st)
        if not engine.decide_bool(dag.tob(c._one())):
            return st
        st = closed(p["body_jaxpr"], bc + st)
    raise Unsupported("loop bound of 64 iterations exceeded")


def _scan(eqn, *xs):
    p = eqn.params
    nc, nk, n = p["num_consts"], p["num_carry"], p["length"]
    consts, carry, seqs = list(xs[:nc]), list(xs[nc:nc + nk]), list(xs[nc + nk:])
    ys = [[] for _ in eqn.outvars[nk:]]
    order = range(n)
    if p["reverse"]:
        order = reversed(order)
    for i in order:
        out = closed(p["jaxpr"], consts + carry + [make(np.asarray(plain(s)[i], dtype=object).reshape(s.shape[1:]), s._k) for s in seqs])
        carry = out[:nk]
        for y, o in zip(ys, out[nk:]):
            y.append(o)
    if p["reverse"]:
        ys = [y[::-1] for y in ys]
    outs = []
    for y, v in zip(ys, eqn.outvars[nk:]):
        o = objarr(v.aval.shape)
        for i, e in enumerate(y):
            o[i, ...] = plain(e)
        outs.append(make(o, kind(v.aval)))
    return list(carry) + outs


def _cond(eqn, ix, *xs):
    br = eqn.params["branches"]
    i = engine.decide_int(dag.toi(ix._one()))
    return closed(br[min(max(i, 0), len(br) - 1)], xs)


def _broadcast_in_dim(eqn, x, *dyn):
    if dyn:
        raise Unsupported("dynamic broadcast")
    shape, bd = eqn.params["shape"], eqn.params["broadcast_dimensions"]
    sh = [1] * len(shape)
    for d, s in zip(bd, x.shape):
        sh[d] = s
    return make(np.broadcast_to(plain(x).reshape(sh), shape), x._k)


def _reduce(uf):
    def f(eqn, x):
        return symnp.reduce_ufunc(uf, x, axis=tuple(eqn.params["axes"]), initial=_init(uf, x._k))

    return f


def _init(uf, k):
    return {np.add: 0, np.multiply: 1, np.minimum: dag.INF, np.maximum: -dag.INF, np.logical_and: True,
            np.logical_or: False}[uf] if not (uf in (np.minimum, np.maximum) and k != "f") else symnp.UINT_NONE


def _pad(eqn, x, v):
    cfg = eqn.params["padding_config"]
    t = v._one()
    idx = np.arange(1, x.size + 1).reshape(x.shape)
    for ax, (lo, hi, inner) in enumerate(cfg):
        if inner:
            n = idx.shape[ax]
            sh = list(idx.shape)
            sh[ax] = n + max(n - 1, 0) * inner
            new = np.zeros(sh, dtype=int)
            new[(slice(None),) * ax + (slice(None, None, inner + 1),)] = idx
            idx = new
        w = [(0, 0)] * idx.ndim
        w[ax] = (max(lo, 0), max(hi, 0))
        idx = np.pad(idx, w)
        n = idx.shape[ax]
        idx = idx[(slice(None),) * ax + (slice(max(-lo, 0), n - max(-hi, 0)),)]
    flat = plain(x).ravel()
    return make(objarr(idx.shape, [flat[i - 1] if i else t for i in idx.ravel()]), x._k)


def _slice(eqn, x):
    p = eqn.params
    st = p["strides"] or (1,) * x.ndim
    return make(plain(x)[tuple(slice(a, b, s) for a, b, s in zip(p["start_indices"], p["limit_indices"], st))], x._k)


def _dynamic_slice(eqn, x, *starts):
    sizes = eqn.params["slice_sizes"]
    starts = [s._one() for s in starts]
    p = plain(x)
    offs = []
    for s, n, w in zip(starts, x.shape, sizes):
        offs.append(dag.min_(dag.max_(dag.toi(s), dag.const(0, "i")), dag.const(n - w, "i")))
    out = objarr(sizes)
    for pos in np.ndindex(*sizes):
        out[pos] = symnp._select(p, [dag.add(o, dag.const(i, "i")) for o, i in zip(offs, pos)]) if sizes else p[()]
    return make(out, x._k)


def _dynamic_update_slice(eqn, x, u, *starts):
    offs = []
    for s, n, w in zip(starts, x.shape, u.shape):
        o = dag.min_(dag.max_(dag.toi(s._one()), dag.const(0, "i")), dag.const(n - w, "i"))
        offs.append(o)
    out = plain(x).copy()
    pu = plain(u)
    for pos in np.ndindex(*x.shape):
        t = out[pos]
        for upos in np.ndindex(*u.shape):
            c = dag.TRUE
            for o, a, b in zip(offs, pos, upos):
                c = dag.and_(c, dag.eq(dag.add(o, dag.const(b, "i")), dag.const(a, "i")))
            t = dag.ite(c, pu[upos], t)
        out[pos] = t
    return make(out, x._k)


def _gather(eqn, x, ix):
    p = eqn.params
    dn, sizes, mode = p["dimension_numbers"], p["slice_sizes"], str(p["mode"])
    out_shape = eqn.outvars[0].aval.shape
    offset, collapsed, smap = dn.offset_dims, dn.collapsed_slice_dims, dn.start_index_map
    batch_out = [d for d in range(len(out_shape)) if d not in offset]
    px, pi = plain(x), plain(ix)
    window_dims = [d for d in range(x.ndim) if d not in collapsed]
    out = objarr(out_shape)
    for pos in np.ndindex(*out_shape):
        b = tuple(pos[d] for d in batch_out)
        start = [dag.toi(t) for t in (pi[b].ravel() if isinstance(pi[b], np.ndarray) else [pi[b]])]
        off = [0] * x.ndim
        for o, d in zip(offset, window_dims):
            off[d] = pos[o]
        idx = [dag.const(off[d], "i") for d in range(x.ndim)]
        ok = dag.TRUE
        for s, d in zip(start, smap):
            top = x.shape[d] - sizes[d]
            if "FILL" in mode:
                ok = dag.and_(ok, dag.and_(dag.cmp("le", dag.const(0, "i"), s), dag.cmp("le", s, dag.const(top, "i"))))
            s = dag.min_(dag.max_(s, dag.const(0, "i")), dag.const(top, "i"))
            idx[d] = dag.add(s, idx[d])
        if any(not n for n in x.shape):
            val = dag.uninit(x._k)
        else:
            val = symnp._select(px, idx) if x.ndim else px[()]
        if isinstance(val, np.ndarray):
            val = val[()]
        if not (dag.isc(ok) and dag.cv(ok)):
            val = dag.ite(ok, val, dag.uninit(x._k))
        out[pos] = val
    return make(out, x._k)


def _dot_general(eqn, a, b):
    (ca, cb), (ba, bb) = eqn.params["dimension_numbers"]
    la = [chr(97 + i) for i in range(a.ndim)]
    lb = [chr(65 + i) for i in range(b.ndim)]
    for p, q in list(zip(ca, cb)) + list(zip(ba, bb)):
        lb[q] = la[p]
    out = [la[i] for i in ba] + [la[i] for i in range(a.ndim) if i not in ca and i not in ba] + [
        lb[i] for i in range(b.ndim) if i not in cb and i not in bb]
    return symnp.np_einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), a, b)


def _iota(eqn, *xs):
    shape, d = eqn.params["shape"], eqn.params["dimension"]
    sh = [1] * len(shape)
    sh[d] = shape[d]
    return symnp.cast(lift_array(np.broadcast_to(np.arange(shape[d]).reshape(sh), shape).copy()), symnp.kind_of_dtype(eqn.params["dtype"]))


def _select_n(eqn, c, *cases):
    if len(cases) == 2 and c._k == "b":
        x, y = cases
        cc = make(np.broadcast_to(plain(c), x.shape), "b")
        return symnp.np_where(cc, y, x)
    r = cases[-1]
    for i in reversed(range(len(cases) - 1)):
        r = symnp.np_where(make(*elementwise("less_equal", [c, i])), cases[i], r)
    return r


def _integer_pow(eqn, x):
    y = eqn.params["y"]
    out = []
    for t in plain(x).ravel():
        r = dag.const(1, t.k)
        for _ in range(abs(y)):
            r = dag.mul(r, t)
        out.append(dag.recip(r) if y < 0 else r)
    return make(objarr(x.shape, out), x._k)


def _div(eqn, x, y):
    if x._k != "f":
        raise Unsupported("integer division")
    return make(*elementwise("divide", [x, y]))


def _rem(eqn, x, y):
    if x._k != "i":
        raise Unsupported("float remainder")
    return make(*elementwise("fmod", [x, y]))


def _pow(eqn, x, y):
    return make(*elementwise("float_power" if x._k == "f" else "power", [x, y]))


def _uf(eqn, *xs):
    name = eqn.params["name"]
    return make(objarr(xs[0].shape, [dag.uf_g(name, *ts) for ts in zip(*(plain(x).ravel() for x in xs))]), "f")


def _clamp(eqn, lo, x, hi):
    return make(*elementwise("minimum", [make(*elementwise("maximum", [x, lo])), hi]))


def _convert(eqn, x):
    return symnp.cast(x, symnp.kind_of_dtype(eqn.params["new_dtype"]))


def _concat(eqn, *xs):
    k = kind(eqn.outvars[0].aval)
    return make(np.concatenate([plain(symnp.cast(x, k)) for x in xs], axis=eqn.params["dimension"]), k)


def _split(eqn, x):
    cuts = np.cumsum(eqn.params["sizes"])[:-1]
    return [make(o, x._k) for o in np.split(plain(x), cuts, axis=eqn.params["axis"])]


def _argreduce(which):
    def f(eqn, x):
        (ax,) = eqn.params["axes"]
        p = np.moveaxis(plain(x), ax, 0)
        out = objarr(p.shape[1:])
        for pos in np.ndindex(*p.shape[1:]):
            best, bi = p[(0,) + pos], dag.const(0, "i")
            for i in range(1, p.shape[0]):
                c = dag.cmp("lt", p[(i,) + pos], best) if which == "min" else dag.cmp("lt", best, p[(i,) + pos])
                best, bi = dag.ite(c, p[(i,) + pos], best), dag.ite(c, dag.const(i, "i"), bi)
            out[pos] = bi
        return make(out, "i")

    return f


def _cum(name):
    def f(eqn, x):
        ax, rev = eqn.params["axis"], eqn.params["reverse"]
        p = np.moveaxis(plain(x), ax, 0)
        p = p[::-1] if rev else p
        out = objarr(p.shape)
        for i in range(p.shape[0]):
            row = make(np.asarray(p[i], dtype=object).reshape(p.shape[1:]), x._k)
            out[i, ...] = plain(row) if not i else elementwise(name, [make(np.asarray(out[i - 1], dtype=object).reshape(p.shape[1:]), x._k), row])[0]
        out = out[::-1] if rev else out
        return make(np.moveaxis(out, 0, ax), x._k)

    return f


def _logic(name, bit):
    def f(eqn, *xs):
        if any(x._k != "b" for x in xs):
            raise Unsupported(bit)
        return make(*elementwise(name, xs))

    return f


def _same(eqn, x, *rest):
    return x


def _sign(eqn, x):
    return make(*elementwise("sign", [x]))


PRIMS = {
    "add": ew("add"), "add_any": ew("add"), "sub": ew("subtract"), "mul": ew("multiply"), "neg": ew("negative"), "max": ew("maximum"),
    "min": ew("minimum"), "exp": ew("exp"), "sin": ew("sin"), "cos": ew("cos"), "tanh": ew("tanh"), "log": ew("log"),
    "sqrt": ew("sqrt"), "abs": ew("absolute"), "sign": _sign, "square": ew("square"),
    "lt": ew("less"), "le": ew("less_equal"), "gt": ew("greater"), "ge": ew("greater_equal"), "eq": ew("equal"),
    "ne": ew("not_equal"), "and": _logic("logical_and", "and"), "or": _logic("logical_or", "or"),
    "not": _logic("logical_not", "not"), "xor": _logic("logical_xor", "xor"), "div": _div, "rem": _rem, "pow": _pow,
    "integer_pow": _integer_pow, "select_n": _select_n, "clamp": _clamp, "convert_element_type": _convert,
    "broadcast_in_dim": _broadcast_in_dim,
    "reshape": lambda e, x, *d: make(plain(x).reshape(e.outvars[0].aval.shape), x._k),
    "squeeze": lambda e, x: make(plain(x).reshape(e.outvars[0].aval.shape), x._k),
    "expand_dims": lambda e, x: make(plain(x).reshape(e.outvars[0].aval.shape), x._k),
    "transpose": lambda e, x: make(plain(x).transpose(e.params["permutation"]), x._k),
    "rev": lambda e, x: make(np.flip(plain(x), e.params["dimensions"]), x._k),
    "reduce_sum": _reduce(np.add), "reduce_min": _reduce(np.minimum), "reduce_max": _reduce(np.maximum),
    "reduce_prod": _reduce(np.multiply), "reduce_and": _reduce(np.logical_and), "reduce_or": _reduce(np.logical_or),
    "argmin": _argreduce("min"), "argmax": _argreduce("max"), "cumsum": _cum("add"), "cumprod": _cum("multiply"),
    "cummax": _cum("maximum"), "cummin": _cum("minimum"),
    "pad": _pad, "slice": _slice, "dynamic_slice": _dynamic_slice, "dynamic_update_slice": _dynamic_update_slice,
    "gather": _gather, "dot_general": _dot_general, "iota": _iota, "concatenate": _concat, "split": _split,
    "pjit": _inner, "closed_call": _inner, "core_call": _inner, "custom_jvp_call": _inner, "custom_vjp_call_jaxpr": _inner,
    "remat": _inner, "checkpoint": _inner, "while": _while, "scan": _scan, "cond": _cond, "verif_uf": _uf,
    "copy": _same, "copy_p": _same, "stop_gradient": _same, "device_put": _same, "reduce_precision": _same,
    "is_finite": lambda e, x: symnp.p_full(x.shape, True, bool),
}


def run_sym_jax(case, arrs):
    # inputs that determine shapes are static for JAX: the engine forks over their values
    static = {}
    for n, (inp, a) in enumerate(zip(case.prog.inputs, arrs)):
        if inp.name in case.prog.dyn:
            static[n] = np.array([engine.decide_int(t) for t in plain(a).ravel()], dtype=a.dtype).reshape(a.shape)
    traced = [n for n in range(len(arrs)) if n not in static]
    specs = [jax.ShapeDtypeStruct(arrs[n].shape, arrs[n].dtype) for n in traced]

    def f(*args):
        full = [None] * len(arrs)
        for n, a in zip(traced, args):
            full[n] = a
        for n, a in static.items():
            full[n] = a
        einapi.SYMBOLIC[0] = "jax"
        try:
            outs = []
            for leaf, env in einapi.build(case.prog, case.mode, full):
                r = einapi.evaluate("jax", leaf.expr, dict(env))
                if isinstance(r, tuple):
                    raise TypeError("tuple result")
                outs.append(r)
            return outs
        finally:
            einapi.SYMBOLIC[0] = None

    cj = jax.make_jaxpr(f)(*specs)
    return closed(cj, [arrs[n].copy() for n in traced])
