"""Deciding one case: (program, extents, backend, mode) for all element values, with z3."""
from __future__ import annotations

import random
import time
import traceback

import numpy as np

import ein  # noqa: F401  (the code under check)
import ein.frontend.std  # noqa: F401

from . import dag, einapi, engine, refein, symnp
from .corpus_base import Prog
from .dag import T, Unsupported
from .symnp import SymNd, plain


class Case:
    def __init__(self, prog: Prog, dims: dict, backend: str, mode: str, what: str = "value", opts=None):
        self.prog, self.dims, self.backend, self.mode, self.what, self.opts = prog, dims, backend, mode, what, opts

    @property
    def id(self):
        d = ",".join(f"{k}={v}" for k, v in self.dims.items())
        o = f"/{self.opts}" if self.opts is not None else ""
        return f"{self.prog.name}[{d}]/{self.backend}/{self.mode}/{self.what}{o}"


# ------------------------------------------------------------------ inputs
def bounds(case, inp):
    """Range of an integer input; JAX needs what determines shapes to be static, so those are enumerated (by the
    engine, from a finite range) there."""
    lo, hi = inp.lo, inp.hi
    if case.backend == "jax" and inp.name in case.prog.dyn:
        m = max([0, *case.dims.values()]) + 1
        lo = -m if lo is None else lo
        hi = m if hi is None else hi
    return lo, hi


def sym_inputs(case):
    """Symbolic input arrays and the assumptions on them."""
    ext = case.prog.extents(case.dims)
    arrs, assume = [], []
    for inp in case.prog.inputs:
        shape = ext[inp.name]
        lo, hi = bounds(case, inp)
        terms = []
        for ix in np.ndindex(*shape):
            t = dag.var(inp.name + ("[" + ",".join(map(str, ix)) + "]" if ix else ""), inp.kind)
            terms.append(t)
            if lo is not None:
                assume.append(dag.cmp("le", dag.const(lo, "i"), t))
            if hi is not None:
                assume.append(dag.cmp("le", t, dag.const(hi, "i")))
        arrs.append(symnp.from_terms(terms, shape, inp.kind))
    return arrs, assume


def concrete_inputs(case, env, rng=None):
    """Concrete arrays from an assignment (missing entries: from rng or zero)."""
    ext = case.prog.extents(case.dims)
    out = []
    for inp in case.prog.inputs:
        shape = ext[inp.name]
        a = np.zeros(shape, dtype=symnp.DT[inp.kind])
        for ix in np.ndindex(*shape):
            n = inp.name + ("[" + ",".join(map(str, ix)) + "]" if ix else "")
            if n in env:
                v = env[n]
            elif rng is not None:
                v = random_value(inp, rng, *bounds(case, inp))
            else:
                v = 0
                lo, hi = bounds(case, inp)
                if lo is not None:
                    v = max(v, lo)
                if hi is not None:
                    v = min(v, hi)
            a[ix] = v
        out.append(a)
    return out


def random_value(inp, rng, lo=None, hi=None):
    if inp.kind == "b":
        return rng.random() < 0.5
    if inp.kind == "i":
        lo = -6 if lo is None else lo
        hi = 6 if hi is None else hi
        return rng.randint(lo, hi)
    return rng.choice([-1, 1]) * rng.randint(3, 40) / 8


# ------------------------------------------------------------------ reference
def run_ref(case, arrs):
    refein.STATIC[0] = case.backend == "jax"
    try:
        res = case.prog.fn(refein.E, *(refein.from_array(a) for a in arrs))
    finally:
        refein.STATIC[0] = False
    return [(refein.shape_of(l), refein.kind_of(l), refein.flat_terms(l)) for l in map(refein.wrap, refein.leaves(refein.normal(res)))]


# ------------------------------------------------------------------ real code, concretely
def run_real(case, arrs, backend=None):
    """Evaluate on the real (unpatched) code; returns a list of numpy arrays."""
    backend = backend or case.backend
    outs = []
    for leaf, env in einapi.build(case.prog, case.mode, conv_in(backend, arrs)):
        outs.append(to_numpy(einapi.evaluate(backend, leaf.expr, env)))
    return outs


def conv_in(backend, arrs):
    if backend == "torch":
        import torch

        return [torch.from_numpy(np.array(a)) for a in arrs]
    if backend == "jax":
        import jax.numpy as jnp

        return [jnp.asarray(a, dtype=a.dtype) for a in arrs]
    return [np.array(a) for a in arrs]


def to_numpy(x):
    if isinstance(x, tuple):
        raise TypeError("tuple result")
    if hasattr(x, "detach"):
        return x.detach().numpy()
    return np.asarray(x)


class Spec:
    """What a case compares: by default the values of the program's results with the reference."""

    def reference(self, case, arrs):
        return run_ref(case, arrs)

    def sym(self, case, arrs):
        """Results of the real code on symbolic inputs: list of SymNd."""
        return sym_backend(case.backend)(case, arrs)

    def real(self, case, arrs, env):
        """Results of the real code on concrete inputs (env: the solver's model)."""
        return run_real(case, arrs)

    # does an exception of the code under check count?
    raising_counts = True

    def goals(self, case, ref, outs):
        return mismatch_goals(ref, outs)

    def difference(self, case, ref, outs):
        return concrete_difference(ref, outs)

    def assumptions(self, case):
        """Constraints on further symbolic choices."""
        return []

    def random_env(self, case, rng):
        """Further choices for a concrete run."""
        return {}

    def note(self, case, env):
        """Further choices of the model, for the replay file."""
        return None


class KindSpec(Spec):
    """Rank and scalar kind of the results."""

    raising_counts = False

    def goals(self, case, ref, outs):
        d = self._diff(ref, [(o.ndim, o._k) for o in outs])
        if d:
            raise Structural(d)
        return [dag.FALSE] * len(outs)

    def difference(self, case, ref, outs):
        return self._diff(ref, [(o.ndim, symnp.kind_of_dtype(o.dtype)) for o in outs])

    @staticmethod
    def _diff(ref, got):
        names = {"f": "float", "i": "integer", "b": "boolean"}
        for n, ((shape, kind, _), (nd, k)) in enumerate(zip(ref, got)):
            if (len(shape), kind) != (nd, k):
                return f"result {n}: rank {nd} of kind {names[k]}, the static type has rank {len(shape)} and kind {names[kind]}"
        return None


class ShapeSpec(Spec):
    """Extents of the results."""

    raising_counts = False

    def goals(self, case, ref, outs):
        d = self._diff(ref, outs)
        if d:
            raise Structural(d)
        return [dag.FALSE] * len(outs)

    def difference(self, case, ref, outs):
        return self._diff(ref, outs)

    @staticmethod
    def _diff(ref, outs):
        for n, (o, (shape, _, _)) in enumerate(zip(outs, ref)):
            if tuple(o.shape) != tuple(shape):
                return f"result {n}: shape {tuple(o.shape)}, expected {tuple(shape)}"
        return None


SPECS: dict = {"value": Spec(), "kind": KindSpec(), "shape": ShapeSpec()}


def close(a, b):
    if isinstance(b, float) or isinstance(a, float):
        a, b = float(a), float(b)
        if np.isinf(b) or np.isinf(a):
            return a == b
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    return a == b


def concrete_mismatch(case, arrs, env=None):
    """Compare the real code with the reference on concrete inputs. None, or a description."""
    spec = SPECS[case.what]
    try:
        ref = spec.reference(case, arrs)
    except (refein.OutOfContract, engine.Undefined):
        return None
    try:
        outs = spec.real(case, arrs, env or {})
    except Exception as e:  # noqa: BLE001
        if ref is None or has_undef(ref) or not spec.raising_counts:
            return None
        return f"raised {type(e).__name__}: {str(e)[:300]}"
    return spec.difference(case, ref, outs)


def concrete_difference(ref, outs):
    if len(outs) != len(ref):
        return f"{len(outs)} results instead of {len(ref)}"
    for n, (o, (shape, kind, terms)) in enumerate(zip(outs, ref)):
        if tuple(o.shape) != tuple(shape):
            return f"result {n}: shape {tuple(o.shape)}, expected {tuple(shape)}"
        for ix, t in zip(np.ndindex(*shape), terms):
            if t.fl & dag.F_UNDEF:
                continue
            exp = dag.evaluate(t, {})
            got = o[ix].item()
            if isinstance(exp, float) and np.isnan(exp):
                continue
            if not close(got, exp):
                return f"result {n} at {ix}: got {got}, expected {exp}"
    return None


def has_undef(ref):
    return any(t.fl & dag.F_UNDEF for _, _, ts in ref for t in ts)


# ------------------------------------------------------------------ symbolic run of the real code
def run_sym(case, arrs):
    """Evaluate the real code on symbolic inputs; list of SymNd."""
    return SPECS[case.what].sym(case, arrs)


def sym_backend(name):
    if name in ("numpy", "naive"):
        return run_sym_numpy
    if name == "torch":
        from .symtorch import run_sym_torch

        return run_sym_torch
    from .symjax import run_sym_jax

    return run_sym_jax


def run_sym_numpy(case, arrs):
    outs = []
    with symnp.symbolic_numpy():
        einapi.SYMBOLIC[0] = "numpy"
        try:
            args = [a.copy() for a in arrs]
            for leaf, env in einapi.build(case.prog, case.mode, args):
                r = einapi.evaluate(case.backend, leaf.expr, dict(env))
                outs.append(as_sym(r))
        finally:
            einapi.SYMBOLIC[0] = None
    return outs


def as_sym(r):
    if isinstance(r, tuple):
        raise TypeError("tuple result")
    return symnp.lift_array(r)


class Result:
    """Outcome of a case."""

    def __init__(self, case_id):
        self.case_id = case_id
        self.status = "held"  # held | violation | undecided | vacuous
        self.detail = ""
        self.replay = None
        self.paths = 0
        self.elements = 0
        self.trivial = 0
        self.sample = None
        self.wall = 0.0
        self.validated = 0
        self.unexplained = ""


def mismatch_goals(ref, outs):
    """Goals: terms stating that some element differs. Raises Structural on shape mismatch."""
    if len(outs) != len(ref):
        raise Structural(f"{len(outs)} results instead of {len(ref)}")
    goals = []
    for n, (o, (shape, kind, terms)) in enumerate(zip(outs, ref)):
        if tuple(o.shape) != tuple(shape):
            raise Structural(f"result {n}: shape {tuple(o.shape)}, expected {tuple(shape)}")
        for x, t in zip(plain(o).ravel(), terms):
            if t.fl & dag.F_UNDEF:
                continue
            goals.append(dag.not_(dag.eq(x, t)))
    return goals


class Structural(Exception):
    pass


def decide(case: Case, max_paths=120, budget=60.0, validate=True) -> Result:
    res = Result(case.id)
    t0 = time.time()
    try:
        _decide(case, res, max_paths, t0 + budget, validate)
    except (Unsupported, engine.TooManyPaths) as e:
        if res.status == "held":
            res.status, res.detail = "undecided", f"{type(e).__name__}: {e}"
    if res.status == "undecided" and validate:
        _fallback(case, res)
    res.wall = time.time() - t0
    return res


def _fallback(case, res):
    """An undecided case is still run on concrete inputs; a real mismatch there is a real violation."""
    rng = random.Random(case.id)
    for _ in range(4):
        arrs = concrete_inputs(case, {}, rng)
        env = SPECS[case.what].random_env(case, rng)
        bad = concrete_mismatch(case, arrs, env)
        if bad is not None:
            violation(res, case, arrs, bad, "concrete run of an undecided case", env)
            return
        res.validated += 1


def violation(res, case, arrs, detail, how, env):
    res.status = "violation"
    res.detail = detail
    res.replay = {
        "program": case.prog.name, "dims": case.dims, "backend": case.backend, "mode": case.mode,
        "what": case.what, "opts": case.opts, "choices": SPECS[case.what].note(case, env), "inputs": [a.tolist() for a in arrs],
        "shapes": [list(a.shape) for a in arrs],
        "kinds": [i.kind for i in case.prog.inputs], "detail": detail, "found_by": how,
    }


def _decide(case, res, max_paths, deadline, validate):
    arrs, assume = sym_inputs(case)
    spec = SPECS[case.what]
    assume = assume + spec.assumptions(case)

    def run():
        try:
            ref = spec.reference(case, arrs)
        except (refein.OutOfContract, engine.Undefined) as e:
            return "skip", str(e)
        try:
            return "ok", (ref, run_sym(case, arrs))
        except (Unsupported, engine.TooManyPaths) as e:
            return "unsupported", e
        except Exception as e:  # noqa: BLE001
            return "raised", (ref, e, traceback.format_exc())

    undecided = []
    decided = 0
    for st, (tag, payload) in engine.explore(run, assume, max_paths=max_paths, deadline=deadline):
        res.paths += 1
        if tag == "skip":
            continue
        if tag == "unsupported":
            undecided.append(str(payload))
            continue
        if tag == "raised":
            ref, e, tb = payload
            if case.what in ("history", "choice"):
                undecided.append(f"raised {type(e).__name__}: {str(e)[:200]} :: " + tb[-600:])
                continue
            if ref is None or has_undef(ref) or not spec.raising_counts:
                res.trivial += 1
                continue
            _, env = engine.find_model(st.cons, [dag.TRUE])
            msg = f"raises {type(e).__name__}: {str(e)[:200]}"
            if confirm(case, res, st.cons, env, msg):
                return
            undecided.append("not reproduced: " + msg + " :: " + tb[-600:])
            continue
        ref, outs = payload
        try:
            goals = spec.goals(case, ref, outs)
        except Structural as e:
            _, env = engine.find_model(st.cons, [dag.TRUE])
            if confirm(case, res, st.cons, env, str(e)):
                return
            undecided.append("not reproduced: " + str(e))
            continue
        res.elements += len(goals)
        r, env = engine.find_model(st.cons, goals)
        if r == "unsat":
            decided += 1
            if res.sample is None:
                res.sample = {"case": case.id, "path": [dag.show(c) for c in st.cons[:6]],
                              "elements": len(goals), "first_result_term": dag.show(plain(outs[0]).ravel()[0])[:400] if outs and isinstance(outs[0], SymNd) and outs[0].size else ""}
            if validate and decided == 1:
                _, env = engine.find_model(st.cons, [dag.TRUE])
                _validate(case, res, st.cons, env)
                if res.status == "violation":
                    return
        elif r == "sat":
            if confirm(case, res, st.cons, env, "solver counterexample"):
                return
            undecided.append("counterexample not reproduced: " + _describe(goals, env))
        else:
            undecided.append("solver unknown")
    if undecided:
        res.status, res.detail = "undecided", "; ".join(sorted(set(undecided)))[:1200]
    elif not decided:
        res.status = "vacuous"


def _describe(goals, env):
    for g in goals:
        try:
            if dag.evaluate(g, env):
                return dag.show(g, 6)[:300]
        except Exception:  # noqa: BLE001
            pass
    return "?"


def _consistent(case, cons, env):
    try:
        return all(dag.evaluate(c, env) for c in cons)
    except Exception:  # noqa: BLE001
        return True


def candidates(case, cons, env, n=12):
    """The model itself, then random completions of the path's integer/boolean skeleton."""
    yield env, None
    rng = random.Random(case.id + "r")
    cvars = dag.variables(cons) if cons else {}
    for _ in range(n):
        # keep the variables that the path condition talks about, randomise the rest
        yield {k: v for k, v in env.items() if k in cvars}, rng
    for _ in range(n):
        e = {k: v for k, v in env.items() if not isinstance(v, float)}
        yield e, rng


def confirm(case, res, cons, env, how) -> bool:
    """Replay a symbolic counterexample on the real code."""
    env = {k: v for k, v in (env or {}).items() if "!" not in k}
    seen = set()
    for e, rng in candidates(case, cons, env):
        arrs = concrete_inputs(case, e, rng)
        key = repr([a.tolist() for a in arrs])
        if key in seen:
            continue
        seen.add(key)
        bad = concrete_mismatch(case, arrs, env)
        if bad is not None:
            violation(res, case, arrs, bad, how, env)
            return True
    return False


def _validate(case, res, cons, env):
    """Fidelity: one concrete run per decided case; real code and reference must agree."""
    env = {k: v for k, v in (env or {}).items() if "!" not in k}
    rng = random.Random(case.id + "v")
    cvars = dag.variables(cons) if cons else {}
    arrs = concrete_inputs(case, {k: v for k, v in env.items() if k in cvars}, rng)
    bad = concrete_mismatch(case, arrs, env)
    res.validated += 1
    if bad is not None:
        violation(res, case, arrs, bad, "concrete validation run", env)
