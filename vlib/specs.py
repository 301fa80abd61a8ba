"""Cases that compare runs of the real code with each other: purity (C10), compiler flags (C13), call histories (C15)."""
from __future__ import annotations

import inspect
import json
import os
import subprocess
import sys

import numpy as np

from . import dag, decide, einapi, engine, refein, symnp
from .dag import Unsupported
from .decide import SPECS, Spec, Structural
from .symnp import SymNd, plain


class Pairs:
    """Results to be compared: (label, expected, got[, mask]); problem: a difference that is already certain."""

    def __init__(self):
        self.problem = None
        self.pairs = []
        self.skip = False

    def add(self, label, expected, got, undef=None):
        self.pairs.append((label, expected, got, undef))

    def __bool__(self):
        return False  # nothing to show as a sample term


class PairSpec(Spec):
    raising_counts = False

    def goals(self, case, ref, outs):
        if outs.problem:
            raise Structural(outs.problem)
        goals = []
        for label, e, g, undef in outs.pairs:
            if tuple(e.shape) != tuple(g.shape):
                raise Structural(f"{label}: shape {tuple(g.shape)}, expected {tuple(e.shape)}")
            for n, (x, y) in enumerate(zip(plain(e).ravel(), plain(g).ravel())):
                if (undef is not None and n < len(undef) and undef[n]) or x is y:
                    goals.append(dag.FALSE)
                    continue
                if (x.fl | y.fl) & dag.F_UNDEF:
                    continue
                goals.append(dag.not_(dag.eq(x, y)))
        return goals

    def difference(self, case, ref, outs):
        if outs.problem:
            return outs.problem
        for label, e, g, undef in outs.pairs:
            if tuple(e.shape) != tuple(g.shape):
                return f"{label}: shape {tuple(g.shape)}, expected {tuple(e.shape)}"
            for n, (ix, x, y) in enumerate(zip(np.ndindex(*e.shape), e.ravel(), g.ravel())):
                if undef is not None and n < len(undef) and undef[n]:
                    continue
                x, y = x.item(), y.item()
                if isinstance(x, float) and np.isnan(x):
                    continue
                if not decide.close(y, x):
                    return f"{label} at {ix}: got {y}, expected {x}"
        return None


def undef_masks(ref):
    return [[bool(t.fl & dag.F_UNDEF) for t in ts] for _, _, ts in ref]


class Ctx:
    """Symbolic or concrete execution on a backend: conversion of inputs and results."""

    def __init__(self, backend, symbolic):
        self.backend, self.symbolic = backend, symbolic

    def __enter__(self):
        if self.symbolic:
            self.np = symnp.symbolic_numpy() if self.backend in ("numpy", "naive") else None
            if self.np:
                self.np.__enter__()
            einapi.SYMBOLIC[0] = self.backend if self.backend in ("torch", "jax") else "numpy"
        return self

    def __exit__(self, *exc):
        if self.symbolic:
            einapi.SYMBOLIC[0] = None
            if self.np:
                self.np.__exit__(*exc)

    def inputs(self, arrs):
        if not self.symbolic:
            return decide.conv_in(self.backend, arrs)
        if self.backend == "torch":
            from .symtorch import SymTensor

            return [SymTensor(a.copy()) for a in arrs]
        return [a.copy() for a in arrs]

    def result(self, r):
        if not self.symbolic:
            return decide.to_numpy(r)
        if self.backend == "torch":
            from .symtorch import from_torch

            return from_torch(r)
        return decide.as_sym(r)


def stager(backend):
    from ein.backend import BACKENDS

    try:
        from ein.backend import STAGE_BACKENDS

        if backend in STAGE_BACKENDS:
            return STAGE_BACKENDS[backend]
    except ImportError:
        pass
    return lambda expr: lambda env: BACKENDS[backend](expr, env)


# ------------------------------------------------------------------ C10
class PureSpec(PairSpec):
    """Run a staged program twice on the same environment: inputs, environment and results stay what they were."""

    def sym(self, case, arrs):
        return self._twice(case, arrs, True)

    def real(self, case, arrs, env):
        return self._twice(case, arrs, False)

    def _twice(self, case, arrs, symbolic):
        out = Pairs()
        masks = undef_masks(decide.run_ref(case, arrs))
        with Ctx(case.backend, symbolic) as cx:
            args = cx.inputs(arrs)
            stage = stager(case.backend)
            for n, (leaf, env) in enumerate(einapi.build(case.prog, case.mode, args)):
                mask = masks[n] if n < len(masks) else None
                call = stage(leaf.expr)
                before = dict(env)
                r1 = call(env)
                first = cx.result(r1).copy()
                for again in ("second", "third"):
                    if set(env) != set(before) or any(env[k] is not before[k] for k in before):
                        out.problem = f"result {n}: the environment was changed by the evaluation before the {again} one"
                        return out
                    try:
                        r2 = cx.result(call(env))
                    except (Unsupported, engine.TooManyPaths):
                        raise
                    except Exception as e:  # noqa: BLE001
                        out.problem = f"result {n}: the {again} evaluation raised {type(e).__name__}: {str(e)[:200]}"
                        return out
                    out.add(f"result {n} of the {again} evaluation", first, r2.copy(), mask)
                    out.add(f"result {n} of the first evaluation, after the {again}", first, cx.result(r1).copy(), mask)
                r3 = cx.result(einapi.evaluate(case.backend, leaf.expr, env))
                out.add(f"result {n} of a fresh evaluation", first, r3, mask)
            for i, a, b in zip(case.prog.inputs, arrs, args):
                out.add(f"input {i.name} after evaluation", symnp.lift_array(a) if symbolic else a, cx.result(b))
        return out


# ------------------------------------------------------------------ C13
class SymBool:
    """A compiler flag whose value is a symbolic boolean."""

    def __init__(self, name):
        self.name = name

    def __bool__(self):
        return engine.decide_bool(dag.var("flag_" + self.name, "b"))


def flag_names():
    try:
        from ein.codegen import phi_to_yarr

        return [n for n, p in inspect.signature(phi_to_yarr.transform).parameters.items()
                if p.kind == p.KEYWORD_ONLY and isinstance(p.default, bool)]
    except (ImportError, AttributeError):
        return []


class FlagsSpec(PairSpec):
    """The array program under any setting of the flags against the one under the default setting."""

    def sym(self, case, arrs):
        return self._both(case, arrs, True, {n: SymBool(n) for n in flag_names()})

    def real(self, case, arrs, env):
        return self._both(case, arrs, False, {n: bool(env.get("flag_" + n, True)) for n in flag_names()})

    def note(self, case, env):
        return {k: v for k, v in (env or {}).items() if k.startswith("flag_")}

    def random_env(self, case, rng):
        return {"flag_" + n: rng.random() < 0.5 for n in flag_names()}

    def _both(self, case, arrs, symbolic, flags):
        from ein.backend import numpy_backend
        from ein.codegen import phi_to_yarr

        out = Pairs()
        masks = undef_masks(decide.run_ref(case, arrs))
        with Ctx("numpy", symbolic) as cx:
            args = cx.inputs(arrs)
            for n, (leaf, env) in enumerate(einapi.build(case.prog, case.mode, args)):
                r1 = cx.result(einapi.evaluate("numpy", leaf.expr, dict(env)))
                try:
                    r2 = cx.result(numpy_backend.stage_in_array(phi_to_yarr.transform(leaf.expr, **flags))(dict(env)))
                except (Unsupported, engine.TooManyPaths):
                    raise
                except Exception as e:  # noqa: BLE001
                    out.problem = f"result {n}: raised {type(e).__name__}: {str(e)[:200]}"
                    return out
                out.add(f"result {n}", r1, r2, masks[n] if n < len(masks) else None)
                if r1._k != r2._k if symbolic else r1.dtype.kind != r2.dtype.kind:
                    out.problem = f"result {n}: the scalar kind differs"
        return out


# ------------------------------------------------------------------ C15
class History:
    """Calls of one function object. A step variant: (extents or None for a rejected call, kinds, ranks, backend)."""

    def __init__(self, name, fn, variants, length, types=None, reuse=False):
        self.name, self.fn, self.variants, self.length, self.types = name, fn, variants, length, types
        self.reuse = reuse  # the caller overwrites the same argument arrays between calls


HISTORIES: dict = {}
KT = {"f": float, "i": int, "b": bool}


def variant(spec, backend="numpy", ok=True, which=0):
    """'f:3 f:2x3 i:' -> kinds and shapes of the arguments; which: of several function objects."""
    args = []
    for part in spec.split():
        k, s = part.split(":")
        args.append((k, tuple(int(x) for x in s.split("x")) if s else ()))
    return {"args": args, "backend": backend, "ok": ok, "which": which}


def history(name, fn, variants, length=3, types=None, reuse=False):
    HISTORIES[name] = History(name, fn, variants, length, types, reuse)


def _over_ein(fn):
    return lambda *a: fn(einapi.E, *a)


def _call_jax(fun, args, symbolic):
    if not symbolic:
        return decide.to_numpy(fun.jax(*args))
    import jax

    from .symjax import closed

    cj = jax.make_jaxpr(lambda *a: [fun.jax(*a)])(*(jax.ShapeDtypeStruct(a.shape, a.dtype) for a in args))
    return closed(cj, [a.copy() for a in args])[0]


class HistorySpec(PairSpec):
    """Every history of calls (which variant is called at each step is symbolic) returns what the reference does."""

    def sym(self, case, arrs):
        h = HISTORIES[case.prog.name]
        ch = [engine.decide_int(dag.var(f"call{s}", "i")) for s in range(h.length)]
        return self._run(h, ch, None)

    def real(self, case, arrs, env):
        h = HISTORIES[case.prog.name]
        ch = [int(env.get(f"call{s}", 0)) for s in range(h.length)]
        env = dict(env)
        for s, c in enumerate(ch):
            for n, (k, sh) in enumerate(h.variants[c]["args"]):
                self._arg(s, n, k, sh, env)
        out = self._run(h, ch, env)
        bad = self.difference(case, None, out)
        if bad and not self._fresh_agrees(h, ch, env, out, bad):
            return Pairs()
        return out

    def note(self, case, env):
        return env

    def reference(self, case, arrs):
        return None

    def assumptions(self, case):
        h = HISTORIES[case.prog.name]
        cs = []
        for s in range(h.length):
            v = dag.var(f"call{s}", "i")
            cs += [dag.cmp("le", dag.const(0, "i"), v), dag.cmp("lt", v, dag.const(len(h.variants), "i"))]
        return cs

    def random_env(self, case, rng):
        h = HISTORIES[case.prog.name]
        return {f"call{s}": rng.randrange(len(h.variants)) for s in range(h.length)}

    def _arg(self, s, n, k, shape, env):
        names = [f"s{s}.{n}" + ("[" + ",".join(map(str, ix)) + "]" if ix else "") for ix in np.ndindex(*shape)]
        if env is None:
            return symnp.from_terms([dag.var(x, k) for x in names], shape, k)
        rng = np.random.default_rng(7 * s + n)
        a = np.zeros(shape, dtype=symnp.DT[k])
        for ix, x in zip(np.ndindex(*shape), names):
            if x not in env:
                env[x] = {"f": int(rng.integers(-20, 20)) / 4, "i": int(rng.integers(-3, 6)), "b": bool(rng.random() < 0.5)}[k]
            a[ix] = env[x]
        return a

    def _run(self, h, ch, env):
        import ein

        out = Pairs()
        symbolic = env is None
        types = None
        if h.types is not None:
            types = [ein.ndarray_type(r, KT[k]) for k, r in h.types]
        fns = h.fn if isinstance(h.fn, list) else [h.fn]
        funs = [(typed_function(*types) if types is not None else ein.function)(_over_ein(fn)) for fn in fns]
        objs, kept = {}, []
        for s, c in enumerate(ch):
            v = h.variants[c]
            fun, fn = funs[v["which"]], fns[v["which"]]
            arrs = [self._arg(s, n, k, sh, env) for n, (k, sh) in enumerate(v["args"])]
            what = f"call {s} ({c})"
            exp = None
            if v["ok"]:
                exp = refein.normal(fn(refein.E, *(refein.from_array(a) for a in arrs)))
            with Ctx(v["backend"], symbolic) as cx:
                args = cx.inputs(arrs)
                if h.reuse and v["backend"] == "numpy":
                    for n, a in enumerate(arrs):
                        if (o := objs.setdefault((n, *v["args"][n]), args[n])) is not args[n]:
                            o[...] = a
                            args[n] = o
                try:
                    got = _call_jax(fun, args, symbolic) if v["backend"] == "jax" else cx.result(fun(*args))
                except (Unsupported, engine.TooManyPaths):
                    raise
                except TypeError as e:
                    if not v["ok"]:
                        continue
                    out.problem = f"{what} raised TypeError: {str(e)[:200]}"
                    return out
                except Exception as e:  # noqa: BLE001
                    out.problem = f"{what} raised {type(e).__name__}: {str(e)[:200]}"
                    return out
            if not v["ok"]:
                out.problem = f"{what} with arguments of other types than declared was accepted"
                return out
            shape, kind, terms = refein.shape_of(exp), refein.kind_of(exp), refein.flat_terms(exp)
            want = symnp.from_terms(terms, shape, kind)
            if not symbolic:
                want = np.array([dag.evaluate(t, {}) if not t.fl & dag.F_UNDEF else 0 for t in terms], dtype=symnp.DT[kind]).reshape(shape)
            gk = got._k if isinstance(got, SymNd) else symnp.kind_of_dtype(got.dtype)
            if gk != kind:
                out.problem = f"{what}: a result of kind {gk} instead of {kind}"
                return out
            undef = [bool(t.fl & dag.F_UNDEF) for t in terms]
            out.add(what, want, got.copy(), undef)
            if not h.reuse:
                kept.append((f"the result of {what}, looked at again after the later calls", want, got, undef))
            for n, (a, b) in enumerate(zip(arrs, args)):
                out.add(f"argument {n} after {what}", a, cx.result(b).copy() if h.reuse else cx.result(b))
        for k in kept:
            out.add(*k)
        return out

    def _fresh_agrees(self, h, ch, env, out, bad):
        """Would each call alone, in a new process, have been right? Otherwise the history is not to blame."""
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        code = "import sys, json; from vlib import plan, specs; sys.exit(specs.single_calls(json.loads(sys.stdin.read())))"
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], input=json.dumps({"name": h.name, "ch": ch, "env": env}),
                           text=True, cwd=here, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
        return r.returncode == 0


def typed_function(*types):
    """The decorator for declared signatures (not exported at the top level)."""
    import ein

    f = getattr(ein, "typed_function", None)
    if f is None:
        try:
            from ein.frontend.functions import typed_function as f
        except ImportError as e:
            raise Unsupported("typed_function not found") from e
    return f(*types)


def single_calls(d):
    """Exit status 0 when every call of the history is right on its own (a process per call)."""
    h = HISTORIES[d["name"]]
    spec = SPECS["history"]
    for s, c in enumerate(d["ch"]):
        pid = os.fork()
        if pid == 0:
            try:
                h1 = History(h.name, h.fn, h.variants, 1, h.types)
                env = {k.replace(f"s{s}.", "s0.", 1): v for k, v in d["env"].items() if k.startswith(f"s{s}.")}
                os._exit(1 if spec.difference(None, None, spec._run(h1, [c], env)) else 0)
            except BaseException:  # noqa: BLE001
                os._exit(1)
        _, st = os.waitpid(pid, 0)
        if st:
            return 1
    return 0


SPECS.update({"pure": PureSpec(), "flags": FlagsSpec(), "history": HistorySpec()})
