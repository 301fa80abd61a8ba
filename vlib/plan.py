"""Which cases decide which property."""
from __future__ import annotations

import functools
import os

import numpy as np

from . import corpus, corpus_apps, corpus_more, corpus_gen, decide, features, histories, runner, specs, typing_specs  # noqa: F401  (corpus fills PROGS)
from .corpus_base import PROGS, Prog
from .decide import Case

BASE_ASSUMPTIONS = [
    "real arithmetic for floats (no rounding, NaN, signed zero), unbounded integers (no overflow)",
    "NumPy/PyTorch/JAX primitives behave as their symbolic counterparts in vlib/sym*.py (each decided case is also replayed on the real libraries)",
    "transcendental functions are uninterpreted; array extents are the listed ones, element values arbitrary",
    "values read from empty arrays, sizes below zero and division by zero are unspecified",
]


def corpus_cases(select, backends, tier, what="value", modes=None, opts=None, extremes=True):
    out = []
    for n, p in PROGS.items():
        if "all" in p.skip or (p.thorough and tier != "thorough") or not select(p):
            continue
        for b in backends:
            if b in p.skip:
                continue
            dims = list(p.dims) + (list(p.deep_dims) if tier == "thorough" else [])
            ms = [m for m in (modes or p.modes_for(b)) if m in p.modes_for(b) or m == "mixed"]
            out += [Case(p, d, b, m, what, opts) for d in dims for m in ms]
            if extremes:
                out += [Case(p, d, b, m, what, opts) for d in extreme_dims(p) for m in ms[:1]]
            if extremes and what == "value":
                out += [Case(p, d, b, m, what, opts) for d in large_dims(p, b) for m in ms[:1]]
    return out


def extreme_dims(p):
    """All extents one; all extents zero (unless listed with the program anyway)."""
    return [d for d in ({k: v for k in p.dims[0]} for v in (1, 0)) if d and d not in p.dims]


# Left out at large extents: the number of paths or the degree of the terms grows too fast with the extents there
NOLARGE = frozenset("""five_idx many_idx gather2_outer gather2_outer_t gather_of_outer2 sum_gather2 rec_fold_vec share_let_fold
    share_int_idx_twice op_mod_vec argmin_outer acc_own_gather app_kmeans app_kmeans_it app_compact app_embed_bag acc_let_shared
    app_permute_twice gather_mat app_attention app_cmatmul""".split())
LARGE = {"numpy": (17, 7, 4), "torch": (9, 5, 4), "jax": (9, 5, 4), "naive": (9, 5, 4)}


def _names(f):
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), f)) as h:
        return frozenset(h.read().split())


# Programs whose terms stay small at extents above 128 (rank 1), 32 (rank 2) and 10 (rank 3)
XL = (130, 33, 11)
XL_PROGS = _names("xl.txt")
XL_JAX = _names("xl_jax.txt")


def large_dims(p, backend):
    """Extents well above the listed ones, pairwise distinct (hand-written programs only)."""
    rank = max([len(i.dims) for i in p.inputs] or [0])
    if "gen" in p.tags or p.name in NOLARGE or p.name.startswith("big_") or not p.dims[0] or not 1 <= rank <= 3 or (backend == "jax" and p.dyn):
        return []
    ext = XL if p.name in (XL_JAX if backend == "jax" else XL_PROGS) else LARGE[backend]
    return [{k: ext[rank - 1] + j for j, k in enumerate(p.dims[0])}]


class Plan:
    assumptions = BASE_ASSUMPTIONS

    def __init__(self, cases, level="translation_validation", **kw):
        self._cases, self.level, self.kw = cases, level, kw

    def cases(self, tier):
        return self._cases(tier)

    def decider(self, tier):
        kw = dict(max_paths=160, budget=40.0) if tier == "quick" else dict(max_paths=600, budget=200.0)
        kw.update(self.kw)
        return functools.partial(decide.decide, **kw)

    def coverage(self, tier, cases):
        if self.level == "other":
            return {"explanation": "symbolic choices (types, constructs, escaping symbols or call variants) partitioned by the engine; the assertion is discharged by z3 on every part",
                    "exhaustive": True, "families": sorted(c.prog.name for c in cases)}
        bs = sorted({c.backend for c in cases})
        return {"backends": bs, "modes": sorted({c.mode for c in cases}), "what": sorted({c.what for c in cases}),
                "distinct_programs": len({c.prog.name for c in cases}),
                "bounds": {"max_extent": max([v for c in cases for v in c.dims.values()] or [0]),
                           "max_rank_of_inputs": max([len(i.dims) for c in cases for i in c.prog.inputs] or [0]),
                           "max_paths_per_case": 160 if tier == "quick" else 600}}

    def replay(self, v):
        prog = PROGS.get(v["program"]) or Prog(v["program"], (), [{}], None, frozenset())
        case = Case(prog, v["dims"], v["backend"], v["mode"], v["what"], v["opts"])
        from .symnp import DT

        arrs = [np.array(x, dtype=DT[k]).reshape(s) for x, k, s in zip(v["inputs"], v["kinds"], v["shapes"])]
        return decide.concrete_mismatch(case, arrs, v.get("choices") or {})


def tagged(tag, *feats, without=()):
    def sel(p):
        f = features.of(p)
        return tag in p.tags or (bool(feats) and bool(set(feats) & f) and not (set(without) & f))

    return sel


NP = ("numpy",)
ALL = ("numpy", "torch", "jax", "naive")


def simple(sel, backends=NP, what="value"):
    return Plan(lambda tier: corpus_cases(sel, backends, tier, what))


def pure_comprehension(p):
    return "C01" in p.tags or not (features.of(p) & {"fold", "reduce", "concat", "ext", "std", "record"})


def lite(tier):
    """The whole corpus, but few of the generated programs in the quick tier."""
    return lambda p: tier == "thorough" or "gen" not in p.tags or "lite" in p.tags


def history_cases(tier):
    return [Case(Prog(n, (), [{}], None, frozenset()), {}, "numpy", "calls", "history") for n in specs.HISTORIES]


# Many paths per flag vector: left to the thorough tier
HEAVY_FLAGS = frozenset("""
    app_attention app_cdft app_cmatmul app_compact app_conv2d app_conv_ch app_dual_horner app_edit app_hotspot app_kmeans
    app_kmeans_it app_lcs_table app_life app_mandel app_matpow app_pathfinder app_qkv_masked app_rnn_batch app_stencil3 clip_nest3
    einsum_nine einsum_nine_b einsum_ten_red fold_count_from_data foldcopy_1 foldcopy_3 foldcopy_4 foldcopy_rec_vec foldcopy_twice
    foldcopy_where gen_11 gen_16 gen_17 gen_19 gen_20 gen_3 gen_8 loop_count_sym pipe_1 pipe_10 pipe_11 pipe_12 pipe_13 pipe_14
    pipe_15 pipe_16 pipe_18 pipe_19 pipe_2 pipe_20 pipe_22 pipe_24 pipe_3 pipe_4 pipe_5 pipe_6 pipe_7 pipe_8 red_dyn_nc
    same_type_fold_state2 shift2d_sym shift_by_fold size_dyn2 size_dyn_t sum_count_sym_dot
""".split())


def flag_cases(tier):
    """Quick: each program at its first extents, constants in place of variables for the programs of C13 only."""
    cs = corpus_cases(lite(tier), NP, tier, "flags", extremes=tier == "thorough")
    if tier == "thorough":
        return cs
    cs = [c for c in cs if c.prog.name not in HEAVY_FLAGS and not c.prog.name.startswith(("recs_", "st_"))]
    return [c for c in cs if c.dims == c.prog.dims[0] and (c.mode == "var" or "var" not in c.prog.modes or "C13" in c.prog.tags)]


PLANS = {
    "C01": simple(pure_comprehension),
    "C02": simple(lambda p: "C02" in p.tags or pure_comprehension(p)),
    "C03": simple(tagged("C03", "fold")),
    "C04": simple(tagged("C04", "reduce")),
    "C05": simple(tagged("C05", "record")),
    "C06": simple(lambda p: True, ("torch",)),
    "C07": simple(lambda p: True, ("jax",)),
    "C08": simple(lambda p: True, ("naive",)),
    "C09": Plan(lambda tier: corpus_cases(tagged("C09"), NP, tier) + corpus_cases(lambda p: True, NP, tier, "shape")),
    "C10": Plan(lambda tier: corpus_cases(lite(tier), ("numpy", "torch", "naive"), tier, "pure")),
    "C13": Plan(flag_cases, max_paths=800, budget=120.0),
    "C12": Plan(lambda tier: typing_specs.cases("C12"), "other", max_paths=5000, budget=300.0),
    "C20": Plan(lambda tier: typing_specs.cases("C20"), "other", max_paths=5000, budget=300.0),
    "C15": Plan(history_cases, "other", max_paths=400),
    "C11": Plan(lambda tier: corpus_cases(lite(tier), ("numpy", "torch", "jax"), tier, "kind")),
    "C14": Plan(lambda tier: corpus_cases(tagged("C14"), ALL, tier) + corpus_cases(lambda p: "pipe" in p.name, NP, tier)),
    "C16": simple(tagged("C16", "concat")),
    "C17": Plan(lambda tier: corpus_cases(tagged("C17", "ext"), NP, tier) + typing_specs.cases("C17"), max_paths=3000, budget=120.0),
    "C18": simple(tagged("C18"), ALL),
    "C19": simple(tagged("C19", "std")),
}
