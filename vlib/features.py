"""Which constructs a corpus program uses, found by running it on the reference (so independent of /repo)."""
from __future__ import annotations

from . import decide, engine, refein
from .corpus_base import Prog

_CACHE: dict = {}


def of(p: Prog) -> frozenset:
    if p.name not in _CACHE:
        _CACHE[p.name] = frozenset(_find(p))
    return _CACHE[p.name]


class _Rec(refein.E):
    @staticmethod
    def ext(name, out_kind="f", sig=None):
        refein._use("ext")
        return refein.E.ext(name, out_kind, sig)

    @staticmethod
    def extv(name):
        refein._use("ext")
        return refein.E.extv(name)

    @staticmethod
    def let(x, f):
        refein._use("let")
        return refein.E.let(x, f)


def _wrap(name, *feats):
    orig = getattr(refein.E, name)

    def f(*a, **k):
        refein._use(*feats)
        return orig(*a, **k)

    setattr(_Rec, name, staticmethod(f))


for _n in ("sum", "min", "max", "argmin"):
    _wrap("fold_" + _n, "std", "fold")
    _wrap("reduce_" + _n, "std", "reduce")


def _find(p):
    case = decide.Case(p, p.dims[0], "numpy", "var")
    arrs = decide.concrete_inputs(case, {})
    refein.USED[0] = found = set()

    def run():
        try:
            p.fn(_Rec, *(refein.from_array(a) for a in arrs))
        except (refein.OutOfContract, engine.Undefined):
            pass

    try:
        for _ in engine.explore(run):
            pass
    finally:
        refein.USED[0] = None
    return found
