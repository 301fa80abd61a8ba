"""Path exploration by re-execution.

A branch on symbolic data asks `decide_bool` / `decide_int`. The current path holds a set of
constraints; a decision already implied by them is forced, otherwise one feasible value is taken, its
constraint is added, and the set with the negated constraint is queued. Exploration is complete when the
queue is empty: the explored constraint sets then partition the whole (assumed) input space, whatever
order the code under check makes its decisions in.
"""
from __future__ import annotations

import time

from . import dag
from .dag import T

STATS = {"queries": 0, "solver_s": 0.0, "paths": 0, "forks": 0, "unsat": 0, "sat": 0, "unknown": 0}


class TooManyPaths(Exception):
    pass


class Undefined(dag.Unsupported):
    """A decision that depends on a don't-care value."""


class _State:
    def __init__(self):
        self.cons: list[T] = []
        self.solver = None
        self.queue: list | None = None
        self.cache: dict = {}
        self.deadline = None


_S: _State | None = None


def active():
    return _S is not None


def _check(solver, *assumptions):
    z3 = dag.z3mod()
    t0 = time.time()
    r = solver.check(*assumptions)
    STATS["solver_s"] += time.time() - t0
    STATS["queries"] += 1
    STATS["sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"] += 1
    return r


def new_solver(timeout_ms=20000):
    z3 = dag.z3mod()
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    return s


def assume(t: T):
    _S.cons.append(t)
    _S.solver.add(dag.to_z3(t))


def decide_bool(t: T) -> bool:
    if dag.isc(t):
        return dag.cv(t)
    if t.fl & dag.F_UNDEF:
        raise Undefined("branch on an undefined value")
    if _S is None:
        raise dag.Unsupported("branch on symbolic data outside exploration")
    if t.id in _S.cache:
        return _S.cache[t.id]
    z3 = dag.z3mod()
    zt = dag.to_z3(t)
    can_t = _check(_S.solver, zt)
    if can_t == z3.unknown:
        raise dag.Unsupported("solver gave up on a branch condition")
    if can_t == z3.unsat:
        v = False
    else:
        can_f = _check(_S.solver, z3.Not(zt))
        if can_f == z3.unknown:
            raise dag.Unsupported("solver gave up on a branch condition")
        v = True
        if can_f == z3.sat:
            _S.queue.append(_S.cons + [dag.not_(t)])
            STATS["forks"] += 1
            assume(t)
    _S.cache[t.id] = v
    return v


def decide_int(t: T) -> int:
    if dag.isc(t):
        return dag.cv(t)
    if t.fl & dag.F_UNDEF:
        raise Undefined("concretisation of an undefined value")
    if _S is None:
        raise dag.Unsupported("concretisation of symbolic data outside exploration")
    if t.id in _S.cache:
        return _S.cache[t.id]
    z3 = dag.z3mod()
    zt = dag.to_z3(t)
    if _check(_S.solver) != z3.sat:
        raise dag.Unsupported("solver gave up on a size")
    v = _S.solver.model().eval(zt, model_completion=True).as_long()
    other = _check(_S.solver, zt != v)
    if other == z3.unknown:
        raise dag.Unsupported("solver gave up on a size")
    if other == z3.sat:
        c = dag.eq(t, dag.const(v, "i"))
        _S.queue.append(_S.cons + [dag.not_(c)])
        STATS["forks"] += 1
        assume(c)
    _S.cache[t.id] = v
    return v


def explore(run, assumptions=(), max_paths=200, deadline=None):
    """Yields (constraints, result of run()) for every feasible path. run() may raise nothing."""
    global _S
    z3 = dag.z3mod()
    queue = [list(assumptions)]
    n = 0
    while queue:
        cons = queue.pop()
        if deadline is not None and time.time() > deadline:
            raise TooManyPaths(f"time budget exhausted with {len(queue) + 1} paths left")
        st = _State()
        st.solver = new_solver()
        st.queue = queue
        saved, _S = _S, st
        try:
            for c in cons:
                assume(c)
            r = _check(st.solver)
            if r == z3.unsat:
                continue
            if r != z3.sat:
                raise dag.Unsupported("solver gave up on a path condition")
            n += 1
            STATS["paths"] += 1
            if n > max_paths:
                raise TooManyPaths(f"more than {max_paths} paths")
            yield st, run()
        finally:
            _S = saved


def find_model(cons: list[T], goals: list[T], timeout_ms=20000):
    """Is there an assignment satisfying cons and at least one goal?

    Returns ('unsat', None), ('sat', {name: value}) or ('unknown', None).
    """
    z3 = dag.z3mod()
    goals = [g for g in goals if not (dag.isc(g) and not dag.cv(g))]
    s = new_solver(timeout_ms)
    for c in cons:
        s.add(dag.to_z3(c))
    zg = []
    for g in goals:
        z = _prep(z3, g)
        if z3.is_false(z):
            continue
        zg.append(z)
    if any(g.fl & dag.F_INF for g in goals):
        inf = z3.Real(dag.INFNAME)
        vs = [v for v in dag.variables(goals).values() if v.k != "b"]
        bound = z3.RealVal(10**6)
        for v in vs:
            z = dag.to_z3(v)
            z = z3.ToReal(z) if v.k == "i" else z
            bound = bound + 1000 * z3.If(z >= 0, z, -z)
        s.add(inf > bound)
    if not zg:
        s.add(z3.BoolVal(False))
    else:
        s.add(z3.Or(*zg))
    r = _check(s)
    if r == z3.unknown and len(zg) > 1:
        # one goal at a time
        res = "unsat"
        for z in zg:
            s1 = new_solver(timeout_ms)
            for c in cons:
                s1.add(dag.to_z3(c))
            s1.add(z)
            r1 = _check(s1)
            if r1 == z3.sat:
                return "sat", _model(z3, s1.model())
            if r1 == z3.unknown:
                res = "unknown"
        return res, None
    if r == z3.unsat:
        return "unsat", None
    if r == z3.unknown:
        return "unknown", None
    return "sat", _model(z3, s.model())


def _prep(z3, g: T):
    """Translate a goal; normalise real differences as polynomials so that reassociation is immediate."""
    if g.op == "not" and g.args[0].op == "eq" and g.args[0].args[0].k == "f":
        a, b = g.args[0].args
        d = z3.simplify(dag.to_z3(a) - dag.to_z3(b), som=True, blast_distinct=True)
        if z3.is_rational_value(d):
            return z3.BoolVal(d.as_fraction() != 0)
        return d != 0
    return z3.simplify(dag.to_z3(g))


def _model(z3, m):
    out = {}
    for d in m.decls():
        if d.arity():
            continue
        name = d.name()
        if name == dag.INFNAME or ":" not in name:
            continue
        n, k = name.rsplit(":", 1)
        v = m[d]
        if k == "b":
            out[n] = z3.is_true(v)
        elif k == "i":
            out[n] = v.as_long()
        else:
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            out[n] = float(v.as_fraction())
    return out
