"""Generated programs (fixed seeds): a spread of the space around the hand-written corpus.

Tags: gen (all of them), lite (a small selection for the expensive checks), pure (comprehensions and reads only).
"""
from __future__ import annotations

from . import features, gen
from .corpus_base import PROGS

SLOW = {"gen": {479, 484, 1571, 3240, 3490}, "pipe": {53, 60, 141, 253, 302, 318}, "recs": {0, 2, 19, 23, 33, 40, 48, 50, 59, 63, 73, 82, 92, 97, 98, 114, 118, 120, 123, 125, 130, 132, 137, 138, 139, 141, 144, 155, 157,
        159, 166, 170, 172, 173, 187, 194, 198, 206, 212, 224, 225, 233, 234, 245, 256, 257, 263, 264, 268, 296, 297, 309, 310, 311, 313, 322, 323, 326, 345, 346}}
IMPURE = {"fold", "reduce", "concat", "ext", "std", "record"}


def _register(cls, seeds, pick):
    pre = gen.PREFIX[cls]
    before = set(PROGS)
    gen.add([s for s in seeds if s not in SLOW[pre]], cls=cls)
    counts: dict = {}
    for n, p in list(PROGS.items()):
        if n in before:
            continue
        cat = pick(p)
        if cat is None:
            del PROGS[n]
            continue
        k = counts[cat] = counts.get(cat, 0) + 1
        quick, lite, total = LIMITS[pre, cat]
        if k > total:
            del PROGS[n]
            continue
        p.thorough = k > quick
        p.tags = p.tags | ({"lite"} if k <= lite else set()) | ({"pure"} if cat == "pure" else set())


# (generator, category): programs in the quick tier, of these also "lite", programs in the thorough tier
LIMITS = {("gen", "pure"): (110, 15, 220), ("gen", "mixed"): (120, 20, 400), ("pipe", "pipe"): (110, 25, 330), ("recs", "recs"): (90, 20, 300)}


def _gen_cat(p):
    if len(p.note) < 110:
        return None
    return "mixed" if features.of(p) & IMPURE else "pure"


_register(gen.Gen, range(1200), _gen_cat)
_register(gen.Pipe, range(360), lambda p: "pipe")
_register(gen.Rec, range(420), lambda p: "recs")
