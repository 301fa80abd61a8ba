"""Generated corpus programs: a deterministic generator of well-typed programs over the public API.

Every program is a Python expression over (E, inputs), built from a numbered random stream; the program is fixed by its
number, so runs are reproducible.  Only the *shape* of the program is drawn: the element values stay symbolic.
"""
from __future__ import annotations

import random

from .corpus_base import prog

INPUTS = [  # name, kind, extents (by name)
    ("a", "f", ("n",)), ("b", "f", ("m",)), ("c", "f", ("n", "m")), ("d", "f", ("m", "n")), ("e", "f", ("n", "n")),
    ("p", "i", ("n",)), ("q", "i", ("m",)), ("u", "b", ("n",)), ("x", "f", ()), ("y", "f", ()), ("s", "i", ()), ("g", "f", ("n", "m", "n")),
]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(f"ein-{seed}")
        self.counter = 0
        self.skip = set()
        self.used = set()
        r = self.r
        self.dims = {"n": r.choice([1, 2, 2, 2, 2, 3, 3, 0]), "m": r.choice([2, 3, 3])}
        pool = INPUTS[:]
        r.shuffle(pool)
        self.inputs = pool[: r.choice([3, 4, 5])]
        if not any(k == "f" and len(d) >= 1 for _, k, d in self.inputs):
            self.inputs.append(INPUTS[0])
        # scope entries: (expression, kind, extents)
        self.arrays = [(n, k, tuple(self.dims[d] for d in dd)) for n, k, dd in self.inputs if dd]
        self.scalars = [(n, k) for n, k, dd in self.inputs if not dd]
        self.indices = []  # (name, extent, is_counter)
        self.records = []  # (expression, kinds): records of scalars
        self.budget = r.choice([10, 14, 18, 24])

    def name(self, p):
        self.counter += 1
        return f"{p}{self.counter}"

    def pick(self, opts):
        """Weighted choice among (weight, thunk)."""
        opts = [(w, f) for w, f in opts if w > 0]
        t = self.r.uniform(0, sum(w for w, _ in opts))
        for w, f in opts:
            t -= w
            if t <= 0:
                return f()
        return opts[-1][1]()

    def recent(self, xs):
        return xs[-1] if self.r.random() < 0.45 else self.r.choice(xs)

    # -------------------------------------------------------------- scope
    def within(self, *, arrays=(), scalars=(), indices=(), records=()):
        return Scope(self, arrays, scalars, indices, records)

    # -------------------------------------------------------------- indices
    def index(self, extent, d):
        r = self.r
        idx = [i for i in self.indices]
        near = [i for i in idx if i[1] == extent] or idx
        def var():
            return r.choice(near if r.random() < 0.8 else idx)[0]
        def shifted():
            n, _, _ = r.choice(idx)
            c = r.choice([1, 1, 2, 3])
            return r.choice([f"{n} + {c}", f"{n} - {c}", f"{n} - 1 + 2", f"{n} + 1 - 3", f"1 + {n}"])
        def clipped():
            n, _, _ = r.choice(idx)
            return r.choice([f"{n}.max({r.randint(-1, 2)})", f"{n}.min({r.randint(-1, 2)})", f"({n} - 1).max(0)", f"({n} + 1).min({extent - 1})",
                             f"({n} - 1).max(0).min({extent - 1})", f"({n} + 1).min({r.randint(0, 2)}).max({r.randint(0, 2)})"])
        def two():
            i, j = r.choice(idx), r.choice(idx)
            if i[2] or j[2]:
                self.skip.add("jax")
            return r.choice([f"{i[0]} + {j[0]}", f"{i[0]} - {j[0]}", f"{i[0]}.max({j[0]})", f"{i[0]}.min({j[0]})"])
        def offset():
            n, _, _ = r.choice(idx)
            self.skip.add("jax")
            return r.choice([f"{n} + {{}}", f"{{}} + {n}", f"{n} - {{}}", f"{n}.max({{}})", f"{n}.min({{}})", f"({n} + {{}}).min(1)"]).format(self.scal("i", min(d, 1)))
        def rev():
            n, _, _ = r.choice(idx)
            return f"{extent - 1} - {n}"
        def mod():
            n, _, _ = r.choice(idx)
            return f"({n} * 2 + 1) % {max(1, extent)}"
        def data():
            return self.scal("i", min(d, 1))
        def sized():
            arrs = [x for x in self.arrays if x[2]]
            a = r.choice(arrs)
            ax = r.randrange(len(a[2]))
            n, _, _ = r.choice(idx)
            return f"{a[0]}.size({ax}) - 1 - {n}"
        lit = lambda: str(r.randint(0, max(0, extent)))
        if not idx:
            return self.pick([(3, lit), (1, data)])
        return self.pick([(12, var), (3, shifted), (2, clipped), (1.2, two), (1, rev), (0.7, mod), (1.2, data), (0.6, sized if self.arrays else lit), (1.5, lit), (0.8, offset)])

    # -------------------------------------------------------------- scalars
    def leaf(self, k):
        r = self.r
        opts = []
        sc = [n for n, kk in self.scalars if kk == k]
        if sc:
            opts.append((3, lambda: self.recent(sc)))
        rec = [(n, j) for n, ks in self.records for j, kk in ks.items() if kk == k]
        if rec:
            opts.append((4, lambda: (lambda t: f"{t[0]}{t[1]}")(self.recent(rec))))
        ar = [a for a in self.arrays if a[1] == k and len(a[2])]
        if ar:
            opts.append((5, lambda: self.read(self.recent(ar), 0)))
        if k == "i" and self.indices:
            opts.append((3, lambda: r.choice(self.indices)[0]))
        if k == "f" and self.indices:
            opts.append((1, lambda: f"{r.choice(self.indices)[0]}.float()"))
        if k == "i" and self.arrays:
            opts.append((0.7, lambda: (lambda a: f"{a[0]}.size({r.randrange(len(a[2]))})")(r.choice([a for a in self.arrays if a[2]]))))
        lits = {"f": ["0.5", "2.0", "-1.5", "1.0", "0.0"], "i": ["0", "1", "2", "-1"], "b": ["True", "False"]}[k]
        opts.append((0.6 if opts else 1, lambda: f"E.wrap({r.choice(lits)})"))
        return self.pick(opts)

    def read(self, a, d):
        n, _, shape = a
        ix = [self.index(s, d) for s in shape]
        if len(ix) > 1 and self.r.random() < 0.15:
            return f"{n}[{ix[0]}][{', '.join(ix[1:])}]"
        if len(ix) == 2 and self.r.random() < 0.1:
            return f"{n}[:, {ix[1]}][{ix[0]}]"
        return f"{n}[{', '.join(ix)}]"

    def scal(self, k, d):
        r = self.r
        self.budget -= 1
        if d <= 0 or self.budget <= 0:
            return self.leaf(k)
        S = lambda kk=k, dd=d - 1: self.scal(kk, dd)
        opts = [(3, lambda: self.leaf(k))]
        if k == "f":
            opts += [
                (5, lambda: f"({S()} {r.choice('+-*-+')} {S()})"),
                (1, lambda: f"(-{S()})"),
                (1, lambda: f"{S()}.{r.choice(['min', 'max'])}({S()})"),
                (0.7, lambda: f"({S()}).{r.choice(['exp', 'sin', 'cos'])}()"),
                (0.5, lambda: f"E.ext('g1')({S()})"),
                (0.7, lambda: f"E.ext('g2')({S()}, {S()})"),
                (0.5, lambda: f"(({S('i')})).float()"),
                (0.4, lambda: f"abs({S()})"),
                (0.3, lambda: f"(({S()}) ** {r.choice([2, 2, 3, 1, 0])})"),
                (3, lambda: self.std(d)),
                (1.5, lambda: self.reduce(d)),
            ]
        elif k == "i":
            opts += [
                (4, lambda: f"({S()} {r.choice('+-*')} {S()})"),
                (1, lambda: f"{S()}.{r.choice(['min', 'max'])}({S()})"),
                (0.5, lambda: f"(({S()}) % {r.choice([2, 3, -2])})"),
                (0.5, lambda: f"E.{r.choice(['fold', 'reduce'])}_argmin({self.item(d)})"),
            ]
        else:
            opts += [
                (4, lambda: (lambda kk: f"({S(kk)} {r.choice(['<', '<=', '>', '>=', '==', '!='])} {S(kk)})")(r.choice("fi"))),
                (1.5, lambda: f"({S()} {r.choice('&|')} {S()})"),
                (1, lambda: f"(~{S()})"),
            ]
        opts += [
            (1.5, lambda: f"E.where({S('b')}, {S()}, {S()})"),
            (2.5, lambda: self.fold_scalar(k, d)),
            (1.5, lambda: self.share(k, d)),
            (1.2, lambda: self.computed_read(k, d)),
            (1, lambda: self.record_use(k, d)),
            (0.8, lambda: self.record_vec(k, d)),
            (0.8, lambda: self.two_records(k, d)),
        ]
        return self.pick(opts)

    def share(self, k, d):
        """A subexpression used several times: shared Python object, explicit let, or a shared vector."""
        r = self.r
        how = r.random()
        if how < 0.35:
            kk = r.choice("ffi" if k != "b" else "fb")
            v = self.scal(kk, d - 1)
            n = self.name("t")
            with self.within(scalars=[(n, kk), (n, kk)]):
                body = self.scal(k, d - 1)
            return f"(lambda {n}: {body})({v})"
        if how < 0.55:
            kk = r.choice("ffi")
            v = self.scal(kk, d - 1)
            n = self.name("l")
            with self.within(scalars=[(n, kk), (n, kk)]):
                body = self.scal(k, d - 1)
            # an explicit let is only made by the compiler itself, where the variable is used
            return f"E.let({v}, lambda {n}: {body})" if n in body else body
        kk = r.choice("ffi")
        shape = self.shape(1 if r.random() < 0.6 else 2)
        v = self.vec(kk, shape, d - 1)
        n = self.name("w")
        with self.within(arrays=[(n, kk, shape), (n, kk, shape)]):
            body = self.scal(k, d - 1)
        return f"(lambda {n}: {body})({v})"

    def computed_read(self, k, d):
        shape = self.shape(1)
        v = self.vec(k, shape, d - 1)
        return f"{v}[{self.index(shape[0], 0)}]"

    def item(self, d):
        """lambda i: expr, whose count can be inferred or is given."""
        r = self.r
        i = self.name("k")
        ar = [a for a in self.arrays if a[1] == "f" and a[2]]
        if ar and r.random() < 0.6:
            a = r.choice(ar)
            ax = r.randrange(len(a[2]))
            ext = a[2][ax]
            ix = [self.index(s, 0) for s in a[2]]
            ix[ax] = i
            read = f"{a[0]}[{', '.join(ix)}]"
            kind = r.random()
            if kind < 0.4:
                body = read
            else:
                with self.within(indices=[(i, ext, True)]):
                    if kind < 0.7:
                        body = f"({read} * {self.scal('f', d - 2)})"
                    elif kind < 0.85:
                        body = f"({self.scal('f', d - 2)} {r.choice('+-*')} {read})"
                    else:
                        body = f"({read} * {self.leaf('f')} * {self.leaf('f')})"
            return f"lambda {i}: {body}, count={ext}" if r.random() < 0.3 or kind >= 0.4 else f"lambda {i}: {body}"
        ext = r.choice([0, 1, 2, 2, 3])
        with self.within(indices=[(i, ext, True)]):
            body = self.scal("f", d - 1)
        return f"lambda {i}: {body}, count={ext}"

    def std(self, d):
        r = self.r
        f = r.choice(["fold_sum", "fold_sum", "fold_sum", "fold_sum", "reduce_sum", "fold_min", "fold_max", "reduce_min", "reduce_max"])
        return f"E.{f}({self.item(d)})"

    def reduce(self, d):
        r = self.r
        ext = r.choice([0, 1, 2, 3, 3, 4])
        i = self.name("i")
        tmpl = r.randrange(7)
        with self.within(indices=[(i, ext, False)]):
            if tmpl < 4:
                body = self.scal("f", d - 2)
            elif tmpl < 6:
                body = f"({self.scal('f', d - 2)}, {self.scal('f', d - 2)})"
            else:
                body = f"({self.scal('f', d - 2)}, True)"
        v = f"E.array(lambda {i}: {body}, size={ext})"
        if tmpl < 3:
            ident, op = r.choice([("0.0", "s + t"), ("1.0", "s * t"), ("0.0", "t + s")])
            return f"{v}.reduce({ident}, lambda s, t: {op})"
        if tmpl == 3:
            z = self.leaf("f")
            n = self.name("z")
            return f"(lambda {n}: {v}.reduce({n}, lambda s, t: s - {n} + t))({z})"
        if tmpl < 6:  # composition of affine maps: not commutative
            return f"{v}.reduce((1.0, 0.0), lambda s, t: (s[0] * t[0], s[0] * t[1] + s[1]))[{r.choice([0, 1])}]"
        side = r.choice(["(E.where(s[1], s[0], t[0]), s[1] | t[1])", "(E.where(t[1], t[0], s[0]), s[1] | t[1])"])
        return f"{v}.reduce((0.0, False), lambda s, t: {side})[0]"

    def fold_scalar(self, k, d):
        r = self.r
        ext = r.choice([0, 1, 2, 2, 3])
        i = self.name("k")
        cnt = str(ext) if r.random() < 0.8 else None
        if cnt is None:
            # sizes of arrays made under an index count as depending on it
            ar = [a for a in self.arrays if a[2] and a[0][0] not in "we"]
            if ar:
                a = r.choice(ar)
                ax = r.randrange(len(a[2]))
                cnt, ext = f"{a[0]}.size({ax})", a[2][ax]
            else:
                cnt = str(ext)
        shape = r.random()
        acc = self.name("acc")
        if shape < 0.55:
            init = self.scal(k, d - 2)
            with self.within(scalars=[(acc, k), (acc, k)], indices=[(i, ext, True)]):
                body = self.scal(k, d - 1)
            return f"E.fold({init}, lambda {i}, {acc}: {body}, count={cnt})"
        if shape < 0.85:
            k2 = r.choice("fif")
            init = f"({self.scal(k, d - 2)}, {self.scal(k2, d - 2)})"
            with self.within(records=[(acc, {"[0]": k, "[1]": k2})], indices=[(i, ext, True)]):
                body = f"({self.scal(k, d - 1)}, {self.scal(k2, d - 2)})"
            return f"E.fold({init}, lambda {i}, {acc}: {body}, count={cnt})[0]"
        sh = self.shape(1)
        init = self.vec(k, sh, d - 2)
        with self.within(arrays=[(acc, k, sh), (acc, k, sh)], indices=[(i, ext, True)]):
            body = self.vec(k, sh, d - 1)
        return f"E.fold({init}, lambda {i}, {acc}: {body}, count={cnt})[{self.index(sh[0], 0)}]"

    # -------------------------------------------------------------- records
    def record_use(self, k, d):
        r = self.r
        ext = self.shape(1)[0]
        i, n, j = self.name("i"), self.name("r"), r.choice(["tuple", "dict", "nested"])
        k2 = r.choice("fi")
        with self.within(indices=[(i, ext, False)]):
            one, two = self.scal(k, d - 2), self.scal(k2, d - 2)
        swap = r.random() < 0.5
        if j == "tuple":
            lit = f"({two}, {one})" if swap else f"({one}, {two})"
            sel, oth = ("[1]", "[0]") if swap else ("[0]", "[1]")
        elif j == "dict":
            lit = f"{{'u': {two}, 'v': {one}}}" if swap else f"{{'v': {one}, 'u': {two}}}"
            sel, oth = "['v']", "['u']"
        else:
            lit = f"({one}, {{'w': ({two}, {one})}})"
            sel, oth = "[1]['w'][1]", "[1]['w'][0]"
        v = f"E.array(lambda {i}: {lit}, size={ext})"
        at = self.name("e")
        with self.within(records=[(at, {sel: k, oth: k2})]):
            body = self.scal(k, d - 2) if r.random() < 0.4 else f"{at}{sel}"
        return f"(lambda {n}: (lambda {at}: {body})({n}[{self.index(ext, 0)}]))({v})"

    def record_vec(self, k, d):
        """Records with array fields: in arrays, or carried by a fold."""
        r = self.r
        sh = self.shape(1)
        k2 = r.choice("ffi")
        if r.random() < 0.5:
            ext = self.shape(1)[0]
            i, n = self.name("i"), self.name("w")
            with self.within(indices=[(i, ext, False)]):
                one, two = self.scal(k, d - 2), self.vec(k2, sh, d - 2)
            lit, sel, oth = r.choice([(f"({one}, {two})", "[0]", "[1]"), (f"{{'v': {one}, 'u': {two}}}", "['v']", "['u']"),
                                      (f"({one}, ({two}, {one}))", "[1][1]", "[1][0]")])
            at = self.name("e")
            with self.within(records=[(at, {sel: k})], arrays=[(f"{at}{oth}", k2, sh)]):
                body = self.scal(k, d - 1)
            return f"(lambda {n}: (lambda {at}: {body})({n}[{self.index(ext, 0)}]))(E.array(lambda {i}: {lit}, size={ext}))"
        i, acc = self.name("k"), self.name("acc")
        ext = r.choice([0, 1, 2, 2])
        init = f"({self.vec(k2, sh, d - 2)}, {self.scal(k, d - 2)})"
        with self.within(records=[(acc, {"[1]": k})], arrays=[(f"{acc}[0]", k2, sh)], indices=[(i, ext, True)]):
            body = f"({self.vec(k2, sh, d - 2)}, {self.scal(k, d - 1)})"
        return f"E.fold({init}, lambda {i}, {acc}: {body}, count={ext})[1]"

    def two_records(self, k, d):
        """Two records of one type, whose components are mixed."""
        r = self.r
        k2 = r.choice([k, "f", "i"])
        recs = []
        for _ in range(2):
            i, acc = self.name("k"), self.name("acc")
            ext = r.choice([0, 1, 2])
            init = f"({self.scal(k, d - 3)}, {self.scal(k2, d - 3)})"
            with self.within(records=[(acc, {"[0]": k, "[1]": k2})], indices=[(i, ext, True)]):
                body = f"({self.scal(k, d - 2)}, {self.scal(k2, d - 3)})"
            recs.append(f"E.fold({init}, lambda {i}, {acc}: {body}, count={ext})")
        u, v = self.name("r"), self.name("r")
        kinds = {"[0]": k, "[1]": k2}
        how = r.random()
        a, b = r.choice([(u, v), (v, u)])
        with self.within(records=[(u, kinds), (v, kinds)]):
            if how < 0.3:
                body = self.scal(k, d - 1)
            elif how < 0.6:
                i = self.name("i")
                body = f"E.array(lambda {i}: ({a}[0], {b}[1]), size=2)[{self.index(2, 0)}][0]"
            elif how < 0.8:
                body = f"E.where({self.scal('b', d - 2)}, {a}, {b})[0]"
            else:
                i, acc = self.name("k"), self.name("acc")
                with self.within(records=[(acc, kinds)], indices=[(i, 2, True)]):
                    step = f"({self.scal(k, d - 2)}, {acc}[1])"
                body = f"E.fold(({a}[0], {b}[1]), lambda {i}, {acc}: {step}, count=2)[0]"
        return f"(lambda {u}, {v}: {body})({recs[0]}, {recs[1]})"

    # -------------------------------------------------------------- vectors
    def shape(self, rank):
        vals = list(self.dims.values())
        return tuple(self.r.choice(vals + [2]) for _ in range(rank))

    def vec(self, k, shape, d):
        r = self.r
        self.budget -= 1
        opts = []
        exact = [a for a in self.arrays if a[1] == k and a[2] == shape]
        if exact:
            opts.append((2 if d > 0 else 6, lambda: self.recent(exact)[0]))
        part = [a for a in self.arrays if a[1] == k and len(a[2]) > len(shape) and a[2][len(a[2]) - len(shape):] == shape]
        if part:
            def partial():
                a = r.choice(part)
                lead = [self.index(s, 0) for s in a[2][: len(a[2]) - len(shape)]]
                return f"{a[0]}[{', '.join(lead)}]"
            opts.append((1.5, partial))
        opts.append((5, lambda: self.comp(k, shape, d)))
        if d > 0 and self.budget > 0:
            if len(shape) >= 1 and shape[0] >= 1:
                def cat():
                    h = r.randint(0, shape[0])
                    return f"{self.vec(k, (h, *shape[1:]), d - 1)}.concat({self.vec(k, (shape[0] - h, *shape[1:]), d - 1)})"
                opts.append((1.2, cat))
            opts.append((0.6, lambda: f"E.where({self.scal('b', d - 1)}, {self.vec(k, shape, d - 1)}, {self.vec(k, shape, d - 1)})"))
            def fold():
                i, acc = self.name("k"), self.name("acc")
                ext = r.choice([0, 1, 2])
                init = self.vec(k, shape, d - 2)
                with self.within(arrays=[(acc, k, shape), (acc, k, shape)], indices=[(i, ext, True)]):
                    body = self.vec(k, shape, d - 1)
                return f"E.fold({init}, lambda {i}, {acc}: {body}, count={ext})"
            opts.append((1, fold))
            def shared():
                kk = r.choice("ffi")
                sh = self.shape(r.choice([1, 1, 2]))
                v = self.vec(kk, sh, d - 1)
                n = self.name("w")
                with self.within(arrays=[(n, kk, sh), (n, kk, sh)]):
                    body = self.vec(k, shape, d - 1)
                return f"(lambda {n}: {body})({v})"
            opts.append((1.5, shared))
        return self.pick(opts)

    def comp(self, k, shape, d):
        r = self.r
        take = len(shape) if r.random() < 0.8 else r.randint(1, len(shape))
        names = [self.name("i") for _ in range(take)]
        idx = [(n, s, False) for n, s in zip(names, shape)]
        infer = r.random() < 0.25 and take == len(shape)
        if infer:
            # a direct read that determines every size
            cand = [a for a in self.arrays if a[1] == k and set(shape) <= set(a[2])]
            r.shuffle(cand)
            if r.random() < 0.6:
                cand.sort(key=lambda a: a[0][0] not in "wea" or a[0] in "ea")
            for a in cand:
                pos, ok = [], True
                left = list(range(len(a[2])))
                for s in shape:
                    c = [x for x in left if a[2][x] == s]
                    if not c:
                        ok = False
                        break
                    x = r.choice(c)
                    left.remove(x)
                    pos.append(x)
                if not ok:
                    continue
                ix = ["?"] * len(a[2])
                for n, x in zip(names, pos):
                    ix[x] = n
                for x in left:
                    ix[x] = "0"
                body = f"{a[0]}[{', '.join(ix)}]"
                if k == "f":
                    # other reads use shifted or literal indices only, or none: sizes stay those of this read
                    saved, self.indices = self.indices, self.indices + []
                    body = f"({body} {r.choice('+-*')} {self.scal('f', d - 1)})"
                    self.indices = saved
                return f"E.array(lambda {', '.join(names)}: {body})"
        with self.within(indices=idx):
            rest = shape[take:]
            body = self.vec(k, rest, d - 1) if rest else self.scal(k, d)
        sizes = ", ".join(map(str, shape[:take])) + ("," if take == 1 else "")
        if r.random() < 0.2:
            ar = [(a[0], ax) for a in self.arrays for ax, s in enumerate(a[2]) if s == shape[0] and a[0][0] not in "we"]
            if ar:
                n, ax = r.choice(ar)
                sizes = ", ".join([f"{n}.size({ax})", *map(str, shape[1:take])]) + ("," if take == 1 else "")
        return f"E.array(lambda {', '.join(names)}: {body}, size=({sizes}))"

    def program(self):
        r = self.r
        rank = r.choice([0, 1, 1, 2, 2, 3])
        k = r.choice("fffffib")
        d = r.choice([2, 3, 3, 4])
        return self.scal(k, d + 1) if rank == 0 else self.vec(k, self.shape(rank), d)


class Scope:
    def __init__(self, g, arrays, scalars, indices, records):
        self.g, self.new = g, (list(arrays), list(scalars), list(indices), list(records))

    def __enter__(self):
        g = self.g
        self.old = (g.arrays, g.scalars, g.indices, g.records)
        g.arrays, g.scalars, g.indices, g.records = (o + n for o, n in zip(self.old, self.new))

    def __exit__(self, *exc):
        self.g.arrays, self.g.scalars, self.g.indices, self.g.records = self.old


class Pipe(Gen):
    """Programs composed of whole-vector functions, lifted over indices, iterated and packed into records.

    Every function maps a vector expression of floats with s elements to one with t elements; sizes are mostly inferred.
    """

    def __init__(self, seed):
        super().__init__(f"pipe-{seed}")
        r = self.r
        self.dims = {"n": r.choice([2, 2, 2, 3, 1]), "m": r.choice([2, 3])}
        self.inputs = [INPUTS[0], r.choice([INPUTS[1], INPUTS[3]]), r.choice([INPUTS[2], INPUTS[4]]), r.choice([INPUTS[5], INPUTS[7], INPUTS[8]])]
        self.arrays = [(n, k, tuple(self.dims[d] for d in dd)) for n, k, dd in self.inputs if dd]
        self.scalars = [(n, k) for n, k, dd in self.inputs if not dd]
        self.indices, self.records = [], []
        self.budget = r.choice([4, 6, 8])

    def num(self, *extra):
        """A float scalar from the context, without new constructs."""
        r = self.r
        opts = [lambda: r.choice(["2.0", "0.5", "-1.0"])]
        opts += [lambda: n for n, k in self.scalars if k == "f"] * 2
        opts += [lambda e=e: e for e in extra] * 3
        if self.indices:
            opts += [lambda: f"{self.recent(self.indices)[0]}.float()"]
            opts += [lambda: self.read(self.recent([a for a in self.arrays if a[1] == "f" and a[2]]), 0)] * 4
        return r.choice(opts)()

    def op(self):
        return self.r.choice("+-*-*")

    def fun(self, s, t, d):
        """Source of a function from a vector of s floats to a vector of t floats."""
        r = self.r
        self.budget -= 1
        v, i, k = self.name("v"), self.name("i"), self.name("k")
        if s != t:
            mats = [a for a in self.arrays if a[1] == "f" and a[2] == (t, s)]
            opts = [f"E.array(lambda {i}: {v}[{i}] {self.op()} {self.num()}, size={t})",
                    f"E.array(lambda {i}: {v}[{i} - 1] {self.op()} {v}[0], size={t})"]
            if mats:
                m = r.choice(mats)[0]
                opts += [f"E.array(lambda {i}: E.fold_sum(lambda {k}: {m}[{i}, {k}] * {v}[{k}]))"] * 4
                opts += [f"E.array(lambda {i}: E.reduce_max(lambda {k}: {m}[{i}, {k}] - {v}[{k}]))",
                         f"E.array(lambda {i}: E.fold({self.num()}, lambda {k}, z: z * {m}[{i}, {k}] + {v}[{k}]))"]
            mats = [a for a in self.arrays if a[1] == "f" and a[2] == (s, t)]
            if mats:
                m = r.choice(mats)[0]
                opts += [f"E.array(lambda {i}: E.fold_sum(lambda {k}: {m}[{k}, {i}] * {v}[{k}]))"] * 3
                opts += [f"E.fold({m}[0], lambda {k}, z: E.array(lambda {i}: z[{i}] {self.op()} {v}[{k}] * {m}[{k}, {i}]), count={s})"] * 2
            return f"(lambda {v}: {r.choice(opts)})"
        if d > 0 and self.budget > 0:
            how = r.randrange(9)
            if how == 0:
                u = r.choice(list(self.dims.values()))
                return f"(lambda {v}: {self.fun(u, t, d - 1)}({self.fun(s, u, d - 1)}({v})))"
            if how == 1:  # a shared intermediate
                w = self.name("w")
                return f"(lambda {v}: (lambda {w}: E.array(lambda {i}: {w}[{i}] {self.op()} {w}[{r.choice(['0', i + ' - 1', i + ' + 1', str(s - 1) + ' - ' + i])}]))({self.fun(s, t, d - 1)}({v})))"
            if how == 2:  # iterated
                z = self.name("z")
                n = r.choice([1, 2, 2])
                with self.within(indices=[(k, n, True)]):
                    f = self.fun(s, t, d - 1)
                    x = self.num()
                return f"(lambda {v}: E.fold({v}, lambda {k}, {z}: (lambda y: E.array(lambda {i}: y[{i}] {self.op()} {x}))({f}({z})), count={n}))"
            if how == 3:  # records of shared values
                w = self.name("w")
                f = self.fun(s, t, d - 1)
                j = self.name("j")
                return (f"(lambda {v}: (lambda {w}: E.array(lambda {i}: {w}[{i}][0] {self.op()} {w}[{r.choice([i, i, '0', i + ' - 1'])}][1]))"
                        f"(E.array(lambda {j}: (lambda y: (y {self.op()} {self.num()}, y * {v}[{j}]))({f}({v})[{j}]))))")
            if how == 4:  # lifted over another index, then summed or read
                j = self.name("j")
                n = r.choice([2, s])
                with self.within(indices=[(j, n, False)]):
                    f = self.fun(s, t, d - 1)
                    x = self.num(f"{v}[{j}]")
                inner = f"{f}(E.array(lambda {i}: {v}[{i}] {self.op()} {x}))"
                w, l = self.name("w"), self.name("i")
                mat = f"E.array(lambda {j}: {inner}, size={n})"
                out = r.choice([f"E.array(lambda {l}: E.fold_sum(lambda {k}: {w}[{k}, {l}]))", f"E.array(lambda {l}: {w}[{n - 1}, {l}] {self.op()} {w}[0, {l}])",
                                f"E.array(lambda {l}: {w}[{l}, {l}], size={t})", f"{w}[1]"])
                return f"(lambda {v}: (lambda {w}: {out})({mat}))"
            if how == 5:  # a fold over a record of a vector and a scalar
                z = self.name("z")
                with self.within(indices=[(k, 2, True)]):
                    f = self.fun(s, t, d - 1)
                return (f"(lambda {v}: E.fold(({v}, {self.num()}), lambda {k}, {z}: ((lambda y: E.array(lambda {i}: y[{i}] {self.op()} {z}[1]))({f}({z}[0])), "
                        f"{z}[1] {self.op()} {r.choice([v, z + '[0]'])}[{k}]), count={r.choice([1, 2])})[0])")
            if how == 6:  # two functions of one value
                f, g = self.fun(s, t, d - 1), self.fun(s, t, d - 1)
                return f"(lambda {v}: (lambda y, z: E.array(lambda {i}: y[{i}] {self.op()} z[{r.choice([i, i, i + ' + 1', '0'])}]))({f}({v}), {g}({v})))"
            if how == 7:  # concatenation
                f = self.fun(s, t, d - 1)
                return f"(lambda {v}: (lambda y: E.array(lambda {i}: y[{i} + {r.choice([1, s])}] {self.op()} {v}[{i}]))({r.choice([f'{v}.concat({f}({v}))', f'{f}({v}).concat({v})'])}))"
            f = self.fun(s, t, d - 1)  # selected
            return f"(lambda {v}: E.where({v}[0] < {self.num()}, {f}({v}), {v}))"
        base = [
            lambda: f"E.array(lambda {i}: {v}[{i}] {self.op()} {self.num()})",
            lambda: f"E.array(lambda {i}: {v}[{i} - 1] {self.op()} {v}[{i}])",
            lambda: f"E.array(lambda {i}: {v}[{i} + 1] * {self.num()} - {v}[{i}])",
            lambda: f"E.array(lambda {i}: {v}[{i}] {self.op()} E.fold_sum(lambda {k}: {v}[{k}] * {v}[{k}]))",
            lambda: f"E.array(lambda {i}: E.fold_sum(lambda {k}: {v}[{i}] * {v}[{k}] {r.choice('+-')} {v}[{i}]))",
            lambda: f"E.array(lambda {i}: E.fold({self.num()}, lambda {k}, z: z * {v}[{i}] {self.op()} {v}[{k}]))",
            lambda: f"E.array(lambda {i}: E.fold(0.0, lambda {k}, z: E.where({k} <= {i}, z + {v}[{k}], z)), size={s})",
            lambda: f"E.fold({v}, lambda {k}, z: E.array(lambda {i}: z[{i}] * {v}[{k}] {self.op()} {v}[{i}]), count={s})",
            lambda: f"E.fold({v}, lambda {k}, z: E.array(lambda {i}: z[{i} - 1] {self.op()} {v}[{k}], size={s}), count=2)",
            lambda: f"E.fold({v}, lambda {k}, z: E.array(lambda {i}: z[{i}] {self.op()} {self.num()}), count=2)",
            lambda: f"E.array(lambda {i}: {v}[{i}].max({self.num()}))",
            lambda: f"E.array(lambda {i}: E.ext('g2')({v}[{i}], {self.num(v + '[0]')}))",
            lambda: f"E.array(lambda {i}: {v}[{i}] {self.op()} E.array(lambda {k}: ({v}[{k}], {v}[{i}])).reduce((1.0, 0.0), lambda x_, y_: (x_[0] * y_[0], x_[0] * y_[1] + x_[1]))[1])",
            lambda: f"E.array(lambda {i}: E.array(lambda {k}: {v}[{k}] * {v}[{i}]).reduce(0.0, lambda x_, y_: x_ + y_))",
            lambda: f"(lambda y: E.array(lambda {i}: y[{i}, {i}] - y[0, {i}]))(E.array(lambda {i}, {k}: {v}[{i}] * {v}[{k}] + {v}[0]))",
        ]
        for n, kk, sh in self.arrays:
            if len(sh) == 1 and kk == "i":
                base += [lambda n=n: f"E.array(lambda {i}: {v}[{n}[{i}]], size={s})"] * 2
            if len(sh) == 1 and kk == "b":
                base += [lambda n=n: f"E.array(lambda {i}: E.where({n}[{i}], {v}[{i}], {self.num()}), size={s})"] * 2
            if len(sh) == 1 and kk == "f" and sh == (s,):
                base += [lambda n=n: f"E.array(lambda {i}: {n}[{i}] {self.op()} {v}[{i}])"]
            if kk == "f" and sh == (s, s):
                base += [lambda n=n: f"E.array(lambda {i}: E.fold_sum(lambda {k}: {n}[{i}, {k}] * {v}[{k}]))"] * 2
                base += [lambda n=n: f"E.array(lambda {i}: E.fold_sum(lambda {k}: {n}[{k}, {i}] * {v}[{k}]))"]
        return f"(lambda {v}: {r.choice(base)()})"

    def program(self):
        r = self.r
        d = r.choice([1, 2, 2, 3])
        mats = [a for a in self.arrays if a[1] == "f" and len(a[2]) == 2]
        vecs = [a for a in self.arrays if a[1] == "f" and len(a[2]) == 1]
        how = r.randrange(8)
        if how <= 3:
            n, _, (rows, cols) = r.choice(mats)
            j = self.name("j")
            flip = r.random() < 0.4
            ext, size = (cols, rows) if flip else (rows, cols)
            t = r.choice([size, size, *self.dims.values()])
            with self.within(indices=[(j, ext, False)]):
                f = self.fun(size, t, d)
            arg = f"{n}[:, {j}]" if flip else f"{n}[{j}]"
            if how == 0:
                return f"E.array(lambda {j}: {f}({arg}), size={ext})"
            if how == 1:
                i = self.name("i")
                return f"E.array(lambda {i}, {j}: {f}({arg})[{i}], size=({t}, {ext}))"
            if how == 2:
                i, k = self.name("i"), self.name("k")
                return f"E.array(lambda {j}: (lambda y: E.array(lambda {i}: y[{i}] * E.fold_sum(lambda {k}: y[{k}] * {self.num()})))({f}({arg})), size={ext})"
            k = self.name("k")
            return f"E.array(lambda {j}: E.fold_sum(lambda {k}: {f}({arg})[{k}]), size={ext})"
        n, _, (s,) = r.choice(vecs)
        if how == 4:
            return f"{self.fun(s, s, d + 1)}({n})"
        if how == 5:
            k = self.name("k")
            return f"E.fold_sum(lambda {k}: {self.fun(s, s, d)}({n})[{k}] * {n}[{k}])"
        if how == 6:
            j = self.name("j")
            with self.within(indices=[(j, s, False)]):
                f = self.fun(s, s, d)
                x = self.num(f"{n}[{j}]")
            i = self.name("i")
            return f"E.array(lambda {j}: {f}(E.array(lambda {i}: {n}[{i}] {self.op()} {x})), size={s})"
        w, i = self.name("w"), self.name("i")
        t = r.choice(list(self.dims.values()))
        return f"(lambda {w}: (E.array(lambda {i}: {w}[{i}][1] - {w}[0][0]), E.array(lambda {i}: {w}[{i}][0])))(E.array(lambda {i}: ({self.fun(s, t, d)}({n})[{i}], {self.fun(s, t, d - 1)}({n})[{i}])))"


class Rec(Gen):
    """Programs over records of any shape (nested tuples and dictionaries of scalars and vectors): built in
    comprehensions, mapped, shifted, concatenated, carried by folds, reduced, and projected leaf by leaf."""

    def __init__(self, seed):
        super().__init__(f"rec-{seed}")
        r = self.r
        self.dims = {"n": r.choice([2, 2, 3, 1]), "m": r.choice([2, 3])}
        self.inputs = [INPUTS[0], INPUTS[2], r.choice([INPUTS[1], INPUTS[3], INPUTS[7]]), r.choice([INPUTS[5], INPUTS[6]]), r.choice([INPUTS[8], INPUTS[10]])]
        self.arrays = [(n, k, tuple(self.dims[d] for d in dd)) for n, k, dd in self.inputs if dd]
        self.scalars = [(n, k) for n, k, dd in self.inputs if not dd]
        self.indices, self.records = [], []
        self.vsize = r.choice(list(self.dims.values()))  # the size of vector leaves

    # ---------------------------------------------------------- types: a leaf kind ("f", "i", "b", "v"), or (keys, types)
    def type(self, d, vectors=True):
        r = self.r
        if d == 0 or (d < 2 and r.random() < 0.45):
            return r.choice("fffib" + "v" * vectors)
        n = r.choice([1, 2, 2, 2, 3, 3])
        keys = r.sample(["x", "a", "k", "zz"], n) if r.random() < 0.3 else None
        return (keys, [self.type(d - 1, vectors) for _ in range(n)])

    def paths(self, t, pre=""):
        if isinstance(t, str):
            return [(pre, t)]
        keys, ts = t
        return [q for j, u in enumerate(ts) for q in self.paths(u, f"{pre}[{j if keys is None else repr(keys[j])}]")]

    def build(self, t, leaf, pre=""):
        if isinstance(t, str):
            return leaf(pre, t)
        keys, ts = t
        parts = [self.build(u, leaf, f"{pre}[{j if keys is None else repr(keys[j])}]") for j, u in enumerate(ts)]
        if keys is not None:
            return "{" + ", ".join(f"{k!r}: {x}" for k, x in zip(keys, parts)) + "}"
        return "(" + ", ".join(parts) + ("," if len(parts) == 1 else "") + ")"

    def holding(self, t, *exprs):
        """The scope of records at the given expressions."""
        recs, arrs = [], []
        for e in exprs:
            ks = {q: k for q, k in self.paths(t) if k != "v"}
            recs += [(e, ks)] * 2 if ks else []
            arrs += [(f"{e}{q}", "f", (self.vsize,)) for q, k in self.paths(t) if k == "v"]
        return self.within(records=recs, arrays=arrs)

    def fill(self, t, d, *exprs):
        """A record of type t from what is in scope; some leaves straight from the records at exprs."""
        r = self.r

        def leaf(q, k):
            if exprs and r.random() < 0.35:
                return r.choice([f"{e}{p}" for e in exprs for p, kk in self.paths(t) if kk == k])
            if k != "v":
                e = self.scal(k, d)
                if k == "f" and exprs and r.random() < 0.5:
                    opts = [f"{x}{p}" for x in exprs for p, kk in self.paths(t) if kk == "f"]
                    e = f"({e} {r.choice('+-*')} {r.choice(opts)})"
                return e
            i = self.name("i")
            with self.within(indices=[(i, self.vsize, False)]):
                x = self.scal("f", d)
            vs = [f"{e}{p}" for e in exprs for p, kk in self.paths(t) if kk == "v"]
            if vs:
                return f"E.array(lambda {i}: {r.choice(vs)}[{i}] {r.choice('+-*')} {x}, size={self.vsize})"
            return f"E.array(lambda {i}: {x}, size={self.vsize})"

        return self.build(t, leaf)

    def rec_seq(self, t, n, d):
        """A vector of n records of type t."""
        r = self.r
        i = self.name("i")
        w = self.name("w")
        if d <= 0:
            with self.within(indices=[(i, n, False)]):
                return f"E.array(lambda {i}: {self.fill(t, 1)}, size={n})"
        how = r.randrange(6)
        if how <= 1:  # mapped
            at = [f"{w}[{i}]", f"{w}[{r.choice(['0', i + ' - 1', i + ' + 1', str(n - 1) + ' - ' + i])}]"]
            src = self.rec_seq(t, n, d - 1)
            with self.within(indices=[(i, n, False)]), self.holding(t, *at):
                body = self.fill(t, 1, *at)
            return f"(lambda {w}: E.array(lambda {i}: {body}, size={r.choice([str(n), w + '.size()']) if not self.indices else n}))({src})"
        if how == 2 and n >= 2:
            k = r.randrange(1, n)
            return f"{self.rec_seq(t, k, d - 1)}.concat({self.rec_seq(t, n - k, d - 1)})"
        if how == 2 or how == 3:  # iterated
            z, k = self.name("z"), self.name("k")
            src = self.rec_seq(t, n, d - 1)
            at = [f"{z}[{i}]", f"{z}[{r.choice(['0', i + ' - 1', k])}]"]
            with self.within(indices=[(k, 2, True), (i, n, False)]), self.holding(t, *at):
                body = self.fill(t, 0, *at)
            return f"E.fold({src}, lambda {k}, {z}: E.array(lambda {i}: {body}, size={n}), count={r.choice([1, 2])})"
        if how == 4:  # each from a record
            with self.within(indices=[(i, n, False)]):
                return f"E.array(lambda {i}: {self.one_rec(t, d - 1)}, size={n})"
        j = self.name("j")  # rows and columns
        with self.within(indices=[(j, 2, False)]):
            row = self.rec_seq(t, n, d - 1)
        ix = r.choice([f"{w}[1][{i}]", f"{w}[{i}][{i}]", f"{w}[0][{i} - 1]"])
        return f"(lambda {w}: E.array(lambda {i}: {ix}, size={n}))(E.array(lambda {j}: {row}, size=2))"

    def one_rec(self, t, d):
        r = self.r
        if d <= 0:
            return self.fill(t, 1)
        how = r.randrange(4)
        if how == 0:
            n = r.choice(list(self.dims.values()))
            return f"{self.rec_seq(t, n, d - 1)}[{r.choice(['0', str(n - 1), self.index(n, 0)])}]"
        if how == 1:
            z, k = self.name("z"), self.name("k")
            init = self.one_rec(t, d - 1)
            n = r.choice([0, 1, 2, 2, 3])
            with self.within(indices=[(k, n, True)]), self.holding(t, z):
                body = self.fill(t, 1, z)
            return f"E.fold({init}, lambda {k}, {z}: {body}, count={n})"
        if how == 2:
            n = r.choice([1, 2, 3, 4])
            x, y = self.name("x"), self.name("y")
            ops = {q: r.choice([("{} + {}", "0.0"), ("{} * {}", "1.0")]) if k == "f" else ("{} + {}", "0") if k == "i" else ("{} | {}", "E.wrap(False)") if k == "b"
                   else (f"E.array(lambda t_: {{}}[t_] + {{}}[t_], size={self.vsize})", f"E.array(lambda t_: E.wrap(0.0), size={self.vsize})") for q, k in self.paths(t)}
            ident = self.build(t, lambda q, k: ops[q][1])
            comb = self.build(t, lambda q, k: ops[q][0].format(x + q, y + q))
            return f"{self.rec_seq(t, n, d - 1)}.reduce({ident}, lambda {x}, {y}: {comb})"
        w = self.name("w")
        src = self.one_rec(t, d - 1)
        with self.holding(t, w):
            body = self.fill(t, 1, w)
        return f"(lambda {w}: {body})({src})"

    def program(self):
        r = self.r
        d = r.choice([1, 2, 2, 3])
        t = self.type(2, r.random() < 0.5)
        if isinstance(t, str):
            t = (None, [t, "f"])
        w, how = self.name("w"), r.randrange(4)
        if how == 0:
            return f"(lambda {w}: ({', '.join(f'{w}{q}' for q, _ in self.paths(t))},))({self.one_rec(t, d)})"
        n = r.choice(list(self.dims.values()))
        if how <= 2:
            src = self.rec_seq(t, n, d)
            out = [f"E.array(lambda i: {w}[i]{q})" if k != "v" else r.choice([
                f"E.array(lambda i, j: {w}[i]{q}[j], size=({n}, {self.vsize}))", f"E.array(lambda j, i: {w}[i]{q}[j], size=({self.vsize}, {n}))"]) for q, k in self.paths(t)]
            return f"(lambda {w}: ({', '.join(out)},))({src})"
        h, m = self.name("h"), r.choice(list(self.dims.values()))
        with self.within(indices=[(h, m, False)]):
            src = self.rec_seq(t, n, d)
        out = [r.choice([f"E.array(lambda h, i: {w}[h][i]{q}, size=({m}, {n}))", f"E.array(lambda i, h: {w}[h][i]{q}, size=({n}, {m}))"]) if k != "v" else
               f"E.array(lambda i, j, h: {w}[h][i]{q}[j], size=({n}, {self.vsize}, {m}))" for q, k in self.paths(t)]
        return f"(lambda {w}: ({', '.join(out)},))(E.array(lambda {h}: {src}, size={m}))"


PREFIX = {Gen: "gen", Pipe: "pipe", Rec: "recs"}


def make(seed, cls=Gen):
    """(inputs, dims, source, backends to skip)."""
    g = cls(seed)
    src = g.program()
    names = [n for n, _, _ in g.inputs]
    inputs = ";".join(f"{n}:{k}" + (f"[{','.join(dd)}]" if dd else "") for n, k, dd in g.inputs)
    return inputs, g.dims, f"lambda E, {', '.join(names)}: {src}", g.skip


def add(seeds, thorough=False, cls=Gen):
    pre = PREFIX[cls]
    for s in seeds:
        inputs, dims, src, skip = make(s, cls)
        prog(f"{pre}_{s}", inputs, " ".join(f"{k}={v}" for k, v in dims.items()), "gen", eval(src), skip=tuple(skip),
             note=src, thorough=thorough)
