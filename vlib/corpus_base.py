"""Corpus programs: functions of (E, *inputs), where E is the ein API or the reference API."""
from __future__ import annotations

import dataclasses
import re


@dataclasses.dataclass(frozen=True)
class Input:
    name: str
    kind: str  # b i f
    dims: tuple  # names of extents (or integers)
    lo: int | None = None
    hi: int | None = None


def parse_inputs(spec: str):
    out = []
    for part in filter(None, (p.strip() for p in spec.split(";"))):
        m = re.fullmatch(r"(\w+):([bif])(?:\[([^\]]*)\])?(?:\{(-?\d+)\.\.(-?\d+)\})?", part)
        assert m, part
        name, kind, dims, lo, hi = m.groups()
        dims = tuple(d.strip() for d in dims.split(",")) if dims else ()
        out.append(Input(name, kind, dims, None if lo is None else int(lo), None if hi is None else int(hi)))
    return tuple(out)


def parse_dims(spec: str):
    """'n=3 m=2 | n=0 m=1' -> [{n:3,m:2},{n:0,m:1}]"""
    res = []
    for alt in spec.split("|"):
        res.append({k: int(v) for k, v in (kv.split("=") for kv in alt.split())})
    return res


@dataclasses.dataclass
class Prog:
    name: str
    inputs: tuple
    dims: list
    fn: object
    tags: frozenset
    modes: tuple = ("var", "const")
    # backends on which the program is inside the property (None: all)
    skip: frozenset = frozenset()
    thorough: bool = False
    note: str = ""
    deep_dims: list = dataclasses.field(default_factory=list)
    # integer inputs that determine shapes or slices: static (known at compile time) for JAX
    dyn: frozenset = frozenset()

    def modes_for(self, backend):
        if backend == "jax" and self.dyn:
            return tuple(m for m in self.modes if m == "const")
        return self.modes

    def extents(self, dims):
        return {i.name: tuple(dims[d] if d in dims else int(d) for d in i.dims) for i in self.inputs}


PROGS: dict[str, Prog] = {}


def prog(name, inputs, dims, tags, fn=None, *, modes=("var", "const"), skip=(), thorough=False, note="", deep=None, dyn=""):
    def add(f):
        assert name not in PROGS, name
        PROGS[name] = Prog(name, parse_inputs(inputs), parse_dims(dims) if dims else [{}], f,
                           frozenset(tags.split()), modes, frozenset(skip if not isinstance(skip, str) else skip.split()),
                           thorough, note, parse_dims(deep) if deep else [], frozenset(dyn.split()))
        return f

    return add(fn) if fn is not None else add
