"""Hash-consed terms: the symbolic scalars that flow through the code under check.

A term has a kind: 'b' (bool), 'i' (mathematical integer) or 'f' (real number).
Constants are bool / int / Fraction, with float('inf') and float('-inf') as special 'f' constants.
"""
from __future__ import annotations

import itertools
import math
from fractions import Fraction

INF = float("inf")


class Unsupported(Exception):
    """The symbolic model does not cover this operation: the case is undecided."""


class T:
    __slots__ = ("op", "args", "k", "id", "fl", "__weakref__")
    # op: 'c' constant (args=(value,)), 'v' variable (args=(name,)), or an operation over terms

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    # ---- python operators (python code and numpy object loops may use them)
    def __add__(self, o):
        return arith("add", self, o)

    def __radd__(self, o):
        return arith("add", o, self)

    def __sub__(self, o):
        return arith("sub", self, o)

    def __rsub__(self, o):
        return arith("sub", o, self)

    def __mul__(self, o):
        return arith("mul", self, o)

    def __rmul__(self, o):
        return arith("mul", o, self)

    def __neg__(self):
        return neg(self)

    def __mod__(self, o):
        return mod(self, lift(o))

    def __rmod__(self, o):
        return mod(lift(o), self)

    def __truediv__(self, o):
        return mul(tof(self), recip(tof(lift(o))))

    def __rtruediv__(self, o):
        return mul(tof(lift(o)), recip(tof(self)))

    def __lt__(self, o):
        return cmp("lt", self, o)

    def __le__(self, o):
        return cmp("le", self, o)

    def __gt__(self, o):
        return cmp("lt", o, self)

    def __ge__(self, o):
        return cmp("le", o, self)

    def __eq__(self, o):
        if not isinstance(o, (T, int, float, bool, Fraction)):
            return NotImplemented
        return eq(self, lift(o))

    def __ne__(self, o):
        if not isinstance(o, (T, int, float, bool, Fraction)):
            return NotImplemented
        return not_(eq(self, lift(o)))

    def __and__(self, o):
        return and_(tob(self), tob(lift(o)))

    __rand__ = __and__

    def __or__(self, o):
        return or_(tob(self), tob(lift(o)))

    __ror__ = __or__

    def __invert__(self):
        return not_(tob(self))

    def __abs__(self):
        return ite(cmp("lt", self, const(0, self.k)), neg(self), self)

    def __bool__(self):
        from . import engine

        return engine.decide_bool(tob(self))

    def __index__(self):
        from . import engine

        if self.k == "f":
            raise TypeError("float cannot be interpreted as an integer")
        return engine.decide_int(toi(self))

    def __int__(self):
        from . import engine

        if self.k == "f":
            if self.op == "c":
                return int(self.args[0])
            raise Unsupported("int() of a symbolic float")
        return engine.decide_int(toi(self))

    def __float__(self):
        if self.op == "c":
            return float(self.args[0])
        raise Unsupported("float() of a symbolic value")

    def __reduce__(self):
        return (_unpickle, (self.op, self.args, self.k))


_table: dict = {}
_counter = itertools.count(1)
# flags
F_UNDEF = 1  # depends on a don't-care value (read of an empty array)
F_UNINIT = 2  # depends on uninitialised memory
F_INF = 4  # contains an infinite constant


def reset():
    """Forget every term (between independent cases)."""
    _table.clear()
    _eval_cache.clear()
    for f in _reset_hooks:
        f()
    _seed()


_reset_hooks: list = []


def mk(op, args, k) -> T:
    key = (op, k) + tuple(a.id if isinstance(a, T) else (type(a).__name__, a) for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.k, t.id = op, args, k, next(_counter)
        fl = 0
        for a in args:
            if isinstance(a, T):
                fl |= a.fl
        if op == "c" and k == "f" and args[0] in (INF, -INF):
            fl |= F_INF
        if op == "v" and isinstance(args[0], str):
            if args[0].startswith("undef!"):
                fl |= F_UNDEF
            elif args[0].startswith("uninit!"):
                fl |= F_UNINIT
        t.fl = fl
        _table[key] = t
    return t


def _unpickle(op, args, k):
    return mk(op, tuple(args), k)


def _rational(v):
    """The number meant by a float: the simple fraction that rounds to it, if there is one (values are reals here,
    so that 1/3 computed by the code under check is the 1/3 of the reference)."""
    if isinstance(v, float):
        f = Fraction(v).limit_denominator(4096)
        return f if float(f) == v else Fraction(v)
    return Fraction(v)


def const(v, k) -> T:
    if k == "b":
        v = bool(v)
    elif k == "i":
        v = int(v)
    else:
        if isinstance(v, float) and (math.isinf(v) or math.isnan(v)):
            if math.isnan(v):
                return undef("f")
            v = float(v)
        else:
            v = _rational(v)
    return mk("c", (v,), k)


def var(name, k) -> T:
    return mk("v", (name,), k)


_fresh = itertools.count()


def undef(k) -> T:
    return mk("v", ("undef!",), k)


def uninit(k) -> T:
    return mk("v", (f"uninit!{next(_fresh)}",), k)


TRUE = FALSE = None


def _seed():
    global TRUE, FALSE
    TRUE, FALSE = const(True, "b"), const(False, "b")


def isc(t):
    return t.op == "c"


def cv(t):
    return t.args[0]


def lift(x) -> T:
    if isinstance(x, T):
        return x
    import numpy

    if isinstance(x, (bool, numpy.bool_)):
        return const(bool(x), "b")
    if isinstance(x, (int, numpy.integer)):
        return const(int(x), "i")
    if isinstance(x, (float, numpy.floating)):
        return const(float(x), "f")
    if isinstance(x, Fraction):
        return const(x, "f")
    if isinstance(x, numpy.ndarray) and x.ndim == 0:
        return lift(x[()])
    raise TypeError(f"cannot lift {type(x)}")


ORDER = "bif"


def promote(*ks):
    return max(ks, key=ORDER.index)


def tok(t: T, k: str) -> T:
    return tof(t) if k == "f" else toi(t) if k == "i" else tob(t)


def tof(t: T) -> T:
    if t.k == "f":
        return t
    if isc(t):
        return const(int(cv(t)), "f")
    if t.op == "ite":
        return ite(t.args[0], tof(t.args[1]), tof(t.args[2]))
    if t.k == "b":
        return ite(t, const(1, "f"), const(0, "f"))
    return mk("tof", (t,), "f")


def toi(t: T) -> T:
    if t.k == "i":
        return t
    if t.k == "f":
        if isc(t) and cv(t) not in (INF, -INF):
            return const(math.trunc(cv(t)), "i")
        if t.op == "tof":
            return t.args[0]
        raise Unsupported("truncation of a symbolic real")
    if isc(t):
        return const(int(cv(t)), "i")
    return ite(t, const(1, "i"), const(0, "i"))


def tob(t: T) -> T:
    if t.k == "b":
        return t
    return not_(eq(t, const(0, t.k)))


def _num2(a, b):
    a, b = lift(a), lift(b)
    k = promote(a.k, b.k)
    if k == "b":
        k = "i"
    return tok(a, k), tok(b, k), k


def arith(op, a, b):
    a, b, k = _num2(a, b)
    return {"add": add, "sub": sub, "mul": mul}[op](a, b)


def _finite(v):
    return not (isinstance(v, float))


def add(a: T, b: T) -> T:
    if isc(a) and isc(b):
        x, y = cv(a), cv(b)
        if _finite(x) and _finite(y):
            return const(x + y, a.k)
        s = float(x) + float(y)
        return const(s, "f")
    for p, q in ((a, b), (b, a)):
        if isc(p):
            if cv(p) == 0:
                return q
            if not _finite(cv(p)):
                return p if not q.fl & F_INF else mk("add", (a, b), a.k)
    if a.op == "neg" and a.args[0] is b or b.op == "neg" and b.args[0] is a:
        return const(0, a.k)
    return mk("add", (a, b), a.k)


def neg(a: T) -> T:
    if a.k == "b":
        raise TypeError("negative of a boolean")
    if isc(a):
        return const(-cv(a), a.k)
    if a.op == "neg":
        return a.args[0]
    return mk("neg", (a,), a.k)


def sub(a: T, b: T) -> T:
    if isc(a) and isc(b):
        return add(a, const(-cv(b), b.k))
    if isc(b) and cv(b) == 0:
        return a
    if a is b and not a.fl & F_INF:
        return const(0, a.k)
    if isc(b):
        return add(a, const(-cv(b), b.k))
    return mk("sub", (a, b), a.k)


def mul(a: T, b: T) -> T:
    if isc(a) and isc(b):
        x, y = cv(a), cv(b)
        if _finite(x) and _finite(y):
            return const(x * y, a.k)
        return const(float(x) * float(y), "f")
    for p, q in ((a, b), (b, a)):
        if isc(p):
            if cv(p) == 1:
                return q
            if cv(p) == 0 and not q.fl & F_INF:
                return p
    return mk("mul", (a, b), a.k)


def recip(a: T) -> T:
    a = tof(a)
    if isc(a):
        if cv(a) == 0:
            return undef("f")
        if not _finite(cv(a)):
            return const(0, "f")
        return const(1 / cv(a), "f")
    if a.op == "recip":
        return a.args[0]
    if a.op == "neg":
        return neg(recip(a.args[0]))
    if a.op == "mul":
        return mul(recip(a.args[0]), recip(a.args[1]))
    return mk("recip", (a,), "f")


def mod(a: T, b: T) -> T:
    """Floor modulo (sign of the divisor); modulo zero is a don't care."""
    if isc(b) and cv(b) == 0:
        return undef("i")
    if isc(a) and isc(b):
        return const(cv(a) % cv(b), "i")
    if isc(b) and cv(b) == 1:
        return const(0, "i")
    return mk("mod", (a, b), "i")


def rem(a: T, b: T) -> T:
    """Truncated remainder (sign of the dividend)."""
    if isc(b) and cv(b) == 0:
        return undef("i")
    if isc(a) and isc(b):
        r = abs(cv(a)) % abs(cv(b))
        return const(r if cv(a) >= 0 else -r, "i")
    m, zero = mod(a, b), const(0, "i")
    differ = not_(eq(cmp("lt", a, zero), cmp("lt", b, zero)))
    return ite(and_(not_(eq(m, zero)), differ), sub(m, b), m)


def uf(name, *args: T) -> T:
    """exp, sin, cos, pow, log, tanh ... : uninterpreted, folded on constants."""
    if all(isc(a) for a in args):
        try:
            v = UFEVAL[name](*(float(cv(a)) for a in args))
        except (ValueError, ZeroDivisionError, OverflowError, KeyError):
            v = None
        if isinstance(v, complex):
            return undef("f")
        if v is not None:
            return const(v, "f")
    return mk("uf", (name,) + args, "f")


UFEVAL = {
    "exp": math.exp,
    "sin": math.sin,
    "cos": math.cos,
    "tanh": math.tanh,
    "log": math.log,
    "sqrt": math.sqrt,
    "pow": lambda x, y: x**y,
    # stand-ins for "an arbitrary elementwise function" handed to ext()
    "g1": lambda x: 3.0 * x * x - 0.7 * x + 1.25,
    "g2": lambda x, y: x * 2.5 - y * y + 0.5 * x * y,
    "g3": lambda x, y, z: x - 2.0 * y + 3.5 * z * x,
}


def uf_g(name, *args):
    return uf(name, *(tof(lift(a)) for a in args))


def min_(a: T, b: T) -> T:
    return _minmax(a, b, True)


def max_(a: T, b: T) -> T:
    return _minmax(a, b, False)


def _minmax(a, b, is_min):
    if a.k != b.k:
        k = promote(a.k, b.k)
        a, b = tok(a, k), tok(b, k)
    if a.k == "b":
        return and_(a, b) if is_min else or_(a, b)
    if a is b:
        return a
    if isc(a) and isc(b):
        return a if (cv(a) <= cv(b)) == is_min else b
    for p, q in ((a, b), (b, a)):
        if isc(p) and not _finite(cv(p)):
            return q if (cv(p) > 0) == is_min else p
    for p, q in ((a, b), (b, a)):
        if p.op == "ite" and p.fl & F_INF:
            c, x, y = p.args
            return ite(c, _minmax(x, q, is_min), _minmax(y, q, is_min))
    return mk("min" if is_min else "max", (a, b), a.k)


def cmp(op, a, b) -> T:
    a, b, k = _num2(a, b)
    if a is b:
        return FALSE if op == "lt" else TRUE
    if isc(a) and isc(b):
        return const(cv(a) < cv(b) if op == "lt" else cv(a) <= cv(b), "b")
    if isc(a) and not _finite(cv(a)):
        return const(cv(a) < 0, "b") if not b.fl & F_INF else _cmp_ite(op, a, b)
    if isc(b) and not _finite(cv(b)):
        return const(cv(b) > 0, "b") if not a.fl & F_INF else _cmp_ite(op, a, b)
    if (a.fl | b.fl) & F_INF:
        return _cmp_ite(op, a, b)
    return mk(op, (a, b), "b")


def _cmp_ite(op, a, b):
    if a.op == "ite":
        c, x, y = a.args
        return ite(c, cmp(op, x, b), cmp(op, y, b))
    if b.op == "ite":
        c, x, y = b.args
        return ite(c, cmp(op, a, x), cmp(op, a, y))
    return mk(op, (a, b), "b")


def eq(a: T, b: T) -> T:
    if a.k != b.k:
        k = promote(a.k, b.k)
        a, b = tok(a, k), tok(b, k)
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return const(cv(a) == cv(b), "b")
    if a.k == "b":
        if isc(a):
            return b if cv(a) else not_(b)
        if isc(b):
            return a if cv(b) else not_(a)
    for p, q in ((a, b), (b, a)):
        if isc(p) and not _finite(cv(p)) and not q.fl & F_INF:
            return FALSE
        if isc(p) and q.op == "ite" and (isc(q.args[1]) or isc(q.args[2])):
            return ite(q.args[0], eq(p, q.args[1]), eq(p, q.args[2]))
    return mk("eq", (a, b), "b")


def not_(a: T) -> T:
    a = tob(a)
    if isc(a):
        return const(not cv(a), "b")
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "b")


def and_(a: T, b: T) -> T:
    a, b = tob(a), tob(b)
    if isc(a):
        return b if cv(a) else a
    if isc(b):
        return a if cv(b) else b
    if a is b:
        return a
    return mk("and", (a, b), "b")


def or_(a: T, b: T) -> T:
    a, b = tob(a), tob(b)
    if isc(a):
        return a if cv(a) else b
    if isc(b):
        return b if cv(b) else a
    if a is b:
        return a
    return mk("or", (a, b), "b")


def ite(c: T, x: T, y: T) -> T:
    c = tob(c)
    if x.k != y.k:
        k = promote(x.k, y.k)
        x, y = tok(x, k), tok(y, k)
    if isc(c):
        return x if cv(c) else y
    if x is y:
        return x
    if c.op == "not":
        return ite(c.args[0], y, x)
    if x.k == "b" and isc(x) and isc(y):
        return c if cv(x) else not_(c)
    return mk("ite", (c, x, y), x.k)


_seed()


# ------------------------------------------------------------------ display
def show(t: T, depth=4) -> str:
    if t.op == "c":
        v = cv(t)
        return str(v) if t.k != "f" else f"{float(v):g}"
    if t.op == "v":
        return str(t.args[0])
    if depth == 0:
        return "..."
    return f"{t.op}(" + ", ".join(show(a, depth - 1) if isinstance(a, T) else str(a) for a in t.args) + ")"


def variables(ts) -> dict:
    seen, out, stack = set(), {}, list(ts)
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "v":
            out[t.args[0]] = t
        else:
            stack.extend(a for a in t.args if isinstance(a, T))
    return out


def subst_undef_zero(t):
    return t


# ------------------------------------------------------------------ z3 translation
_z3c: dict = {}
_ufs: dict = {}
_reset_hooks.append(_z3c.clear)
_eval_cache: dict = {}
INFNAME = "INF!"
DEPTH = 100000


def z3mod():
    import sys

    p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if p not in sys.path:
        sys.path.append(p)
    import z3

    return z3


def _topo(roots):
    """Terms reachable from roots, children first, not yet translated."""
    out, seen = [], set()
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen or t.id in _z3c:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if isinstance(a, T):
                stack.append((a, False))
    return out


def to_z3(t: T):
    z3 = z3mod()
    if t.id in _z3c:
        return _z3c[t.id]
    for u in _topo([t]):
        _z3c[u.id] = _z3_one(z3, u)
    return _z3c[t.id]


def _z3_one(z3, t: T):
    A = [(_z3c[a.id] if isinstance(a, T) else a) for a in t.args]
    op = t.op
    if op == "c":
        v = cv(t)
        if t.k == "b":
            return z3.BoolVal(v)
        if t.k == "i":
            return z3.IntVal(v)
        if isinstance(v, float):
            i = z3.Real(INFNAME)
            return i if v > 0 else -i
        return z3.RealVal(v)
    if op == "v":
        n = str(t.args[0])
        return {"b": z3.Bool, "i": z3.Int, "f": z3.Real}[t.k](f"{n}:{t.k}")
    if op == "add":
        return A[0] + A[1]
    if op == "sub":
        return A[0] - A[1]
    if op == "mul":
        return A[0] * A[1]
    if op == "neg":
        return -A[0]
    if op == "tof":
        return z3.ToReal(A[0])
    if op == "mod":
        # z3's mod has the sign-free Euclidean convention: adapt for negative divisors
        e = A[0] % A[1]
        if isc(t.args[1]):
            if cv(t.args[1]) > 0:
                return e
            return z3.If(e == 0, e, e + A[1])
        # by a variable: any function with the range of floor modulo (an over-approximation; models are replayed)
        u = z3.Function("floormod", z3.IntSort(), z3.IntSort(), z3.IntSort())(A[0], A[1])
        b = A[1]
        return z3.If(b > 0, z3.If(z3.And(0 <= u, u < b), u, 0), z3.If(z3.And(b < u, u <= 0), u, 0))
    if op == "recip":
        return _uf(z3, "recip", 1)(A[0])
    if op == "uf":
        return _uf(z3, t.args[0], len(A) - 1)(*A[1:])
    if op == "min":
        return z3.If(A[0] <= A[1], A[0], A[1])
    if op == "max":
        return z3.If(A[0] >= A[1], A[0], A[1])
    if op == "lt":
        return A[0] < A[1]
    if op == "le":
        return A[0] <= A[1]
    if op == "eq":
        return A[0] == A[1]
    if op == "not":
        return z3.Not(A[0])
    if op == "and":
        return z3.And(A[0], A[1])
    if op == "or":
        return z3.Or(A[0], A[1])
    if op == "ite":
        return z3.If(A[0], A[1], A[2])
    raise Unsupported(f"z3 {op}")


def _uf(z3, name, n):
    key = (name, n)
    if key not in _ufs:
        _ufs[key] = z3.Function("uf_" + name, *([z3.RealSort()] * (n + 1)))
    return _ufs[key]


# ------------------------------------------------------------------ concrete evaluation
def evaluate(t: T, env: dict):
    """Value of a term under an assignment name -> python value (floats/ints/bools)."""
    memo: dict = {}
    stack = [(t, False)]
    while stack:
        u, done = stack.pop()
        if u.id in memo:
            continue
        if not done:
            stack.append((u, True))
            stack.extend((a, False) for a in u.args if isinstance(a, T))
            continue
        memo[u.id] = _eval_one(u, [memo[a.id] if isinstance(a, T) else a for a in u.args], env)
    return memo[t.id]


def _eval_one(u, A, env):
    op = u.op
    if op == "c":
        return cv(u) if u.k != "f" else float(cv(u))
    if op == "v":
        return env.get(u.args[0], {"b": False, "i": 0, "f": 0.0}[u.k])
    if op == "tof":
        return float(A[0])
    if op == "recip":
        return 1.0 / A[0] if A[0] else math.nan
    if op == "uf":
        try:
            return UFEVAL[A[0]](*A[1:])
        except (ValueError, ZeroDivisionError, OverflowError):
            return math.nan
    if op == "mod":
        return A[0] % A[1] if A[1] else 0
    if op == "rem":
        if not A[1]:
            return 0
        r = abs(A[0]) % abs(A[1])
        return r if A[0] >= 0 else -r
    return {
        "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y,
        "neg": lambda x: -x, "min": lambda x, y: x if x <= y else y, "max": lambda x, y: x if x >= y else y,
        "lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "eq": lambda x, y: x == y,
        "not": lambda x: not x, "and": lambda x, y: x and y, "or": lambda x, y: x or y,
        "ite": lambda c, x, y: x if c else y,
    }[op](*A)
