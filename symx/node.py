"""Hash-consed symbolic terms (reals and booleans) carrying their value at the
current seed point.  Terms are built while the real code runs and are handed to
z3 (symx.solve) when a property is decided."""
from __future__ import annotations

import math
from fractions import Fraction


class EngineError(Exception):
    """The engine cannot encode something: never a verdict about the code."""


class Unsupported(EngineError):
    pass


class Node:
    __slots__ = ("k", "a", "v", "id", "b")

    # k: kind, a: args, v: value at the seed, b: is boolean
    def __init__(self, k, a, v, id_, b=False):
        self.k, self.a, self.v, self.id, self.b = k, a, v, id_, b

    def __repr__(self):
        return f"<{self.k}#{self.id}={self.v}>"

    def __add__(self, o):
        return add(self, tonode(o))

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(tonode(o)))

    def __rsub__(self, o):
        return add(tonode(o), neg(self))

    def __mul__(self, o):
        return mul(self, tonode(o))

    __rmul__ = __mul__

    def __neg__(self):
        return neg(self)

    def __truediv__(self, o):
        return div(self, tonode(o))

    def __rtruediv__(self, o):
        return div(tonode(o), self)


_tab: dict = {}
_next = [0]
VARS: dict = {}  # name -> node
SQRT: dict = {}  # id of a square root -> its (non-negative) argument


def reset():
    _tab.clear()
    VARS.clear()
    SQRT.clear()
    _next[0] = 0
    global ZERO, ONE, TRUE, FALSE, POISON
    ZERO = const(0)
    ONE = const(1)
    TRUE = _mk("true", (), True, b=True)
    FALSE = _mk("false", (), False, b=True)
    POISON = _mk("poison", (), float("nan"))


def _mk(k, a, v, b=False, key=None):
    kk = key if key is not None else (k,) + tuple(x.id if isinstance(x, Node) else x for x in a)
    n = _tab.get(kk)
    if n is None:
        n = Node(k, a, v, _next[0], b)
        _next[0] += 1
        _tab[kk] = n
    return n


def nice(x: float, single=False) -> Fraction:
    """The rational a float constant stands for: the simplest rational that
    rounds to it, when there is a simple one, and its exact value otherwise."""
    f = Fraction(x)
    if f.denominator <= 4096:
        return f
    g = f.limit_denominator(2048)
    if single:
        import numpy as np

        if np.float32(float(g)) == np.float32(x):
            return g
    elif float(g) == x:
        return g
    # decimal literals such as 1e-7
    if abs(x) < 1e-2:
        for e in range(3, 16):
            y = x * 10.0 ** e
            r = round(y)
            if r != 0 and abs(r) < 4096:
                h = Fraction(r, 10 ** e)
                if (not single and float(h) == x):
                    return h
                if single:
                    import numpy as np

                    if np.float32(float(h)) == np.float32(x):
                        return h
    return f


def const(x, single=False):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if math.isnan(x):
            return POISON
        if math.isinf(x):
            return _mk("inf", (1 if x > 0 else -1,), x)
        x = nice(x, single)
    elif not isinstance(x, Fraction):
        x = Fraction(int(x))
    return _mk("c", (x,), float(x), key=("c", x.numerator, x.denominator))


def tonode(x):
    if isinstance(x, Node):
        return x
    return const(x)


def var(name, v):
    n = VARS.get(name)
    if n is None:
        n = _mk("v", (name,), float(v))
        VARS[name] = n
    return n


def isconst(n):
    return n.k == "c"


def _special(*ns):
    for n in ns:
        if n.k in ("poison", "inf"):
            return True
    return False


def add(a, b):
    if a.b:
        a = ite(a, ONE, ZERO)
    if b.b:
        b = ite(b, ONE, ZERO)
    if a.k == "poison" or b.k == "poison":
        return POISON
    if a.k == "inf" or b.k == "inf":
        if a.k == "inf" and b.k == "inf" and a is not b:
            return POISON
        return a if a.k == "inf" else b
    if a.k == "c":
        if b.k == "c":
            return const(a.a[0] + b.a[0])
        if a.a[0] == 0:
            return b
    elif b.k == "c" and b.a[0] == 0:
        return a
    if a.k == "-" and a.a[0] is b or b.k == "-" and b.a[0] is a:
        return ZERO
    if a.id > b.id:
        a, b = b, a
    return _mk("+", (a, b), a.v + b.v)


def neg(a):
    if a.b:
        a = ite(a, ONE, ZERO)
    if a.k == "poison":
        return a
    if a.k == "inf":
        return const(-a.v)
    if a.k == "c":
        return const(-a.a[0])
    if a.k == "-":
        return a.a[0]
    return _mk("-", (a,), -a.v)


def mul(a, b):
    if a.b:
        a = ite(a, ONE, ZERO)
    if b.b:
        b = ite(b, ONE, ZERO)
    if a.k == "poison" or b.k == "poison":
        return POISON
    if a.k == "inf" or b.k == "inf":
        if isconst(a) or isconst(b) or (a.k == "inf" and b.k == "inf"):
            p = a.v * b.v
            return const(float(p))
        raise Unsupported("infinity times a symbolic value")
    if a.k == "c":
        if b.k == "c":
            return const(a.a[0] * b.a[0])
        if a.a[0] == 0:
            return ZERO
        if a.a[0] == 1:
            return b
        if a.a[0] == -1:
            return neg(b)
    elif b.k == "c":
        if b.a[0] == 0:
            return ZERO
        if b.a[0] == 1:
            return a
        if b.a[0] == -1:
            return neg(a)
    if a is b and a.id in SQRT:
        return SQRT[a.id]
    if a.id > b.id:
        a, b = b, a
    return _mk("*", (a, b), a.v * b.v)


def div(a, b):
    if a.b:
        a = ite(a, ONE, ZERO)
    if b.b:
        b = ite(b, ONE, ZERO)
    if a.k == "poison" or b.k == "poison":
        return POISON
    if b.k == "c":
        if b.a[0] == 0:
            if a.k == "c" and a.a[0] == 0:
                return POISON
            if a.k == "c":
                return const(math.copysign(math.inf, a.v))
            return POISON
        if a.k == "c":
            return const(a.a[0] / b.a[0])
        return mul(a, const(1 / b.a[0]))
    if a.k == "inf" or b.k == "inf":
        if b.k == "inf" and a.k != "inf":
            return ZERO
        raise Unsupported("division with infinity")
    if a.k == "c" and a.a[0] == 0:
        return ZERO
    if abs(b.v) < 1e-9 and IDENTICAL is not None and IDENTICAL(b, ZERO):
        return POISON  # the denominator is identically zero
    if a is b:
        return ONE
    try:
        v = a.v / b.v
    except ZeroDivisionError:
        v = float("nan")
    return _mk("/", (a, b), v)


IDENTICAL = None  # set by solve: do two terms have the same normal form?


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.k == "eq" and not a.b and not b.b:
        # guarded division: where(d == 0, a, x / d) is x / d wherever the
        # (assumed non-zero) denominator d is met
        d = c.a[0] if c.a[1] is ZERO else c.a[1] if c.a[0] is ZERO else None
        if d is not None and not c.v and b.k == "/" and b.a[1] is d:
            return b
    if a.b != b.b:
        if a.b:
            a = ite(a, ONE, ZERO)
        else:
            b = ite(b, ONE, ZERO)
    if a.b and a is TRUE and b is FALSE:
        return c
    return _mk("ite", (c, a, b), a.v if c.v else b.v, b=a.b)


def _num(a):
    return ite(a, ONE, ZERO) if a.b else a


def _cmp(k, a, b, f):
    a, b = _num(a), _num(b)
    if a.k == "poison" or b.k == "poison":
        return TRUE if k == "ne" else FALSE
    if (a.k in ("c", "inf")) and (b.k in ("c", "inf")):
        x = a.a[0] if a.k == "c" else a.v
        y = b.a[0] if b.k == "c" else b.v
        return TRUE if f(x, y) else FALSE
    if a.k == "inf" or b.k == "inf":  # symbolic values are finite
        x = a.v if a.k == "inf" else 0.0
        y = b.v if b.k == "inf" else 0.0
        return TRUE if f(x, y) else FALSE
    if a is b:
        return TRUE if f(0, 0) else FALSE
    return _mk(k, (a, b), bool(f(a.v, b.v)), b=True)


def lt(a, b):
    return _cmp("lt", a, b, lambda x, y: x < y)


def le(a, b):
    return _cmp("le", a, b, lambda x, y: x <= y)


def eq(a, b):
    if a.b and b.b:
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if IDENTICAL is not None and not a.b and not b.b and a.k not in ("c", "v", "inf", "poison") and abs(a.v - b.v) < 1e-9 and IDENTICAL(a, b):
        return TRUE
    return _cmp("eq", a, b, lambda x, y: x == y)


def ne(a, b):
    return not_(eq(a, b))


def not_(a):
    a = tobool(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.k == "not":
        return a.a[0]
    return _mk("not", (a,), not a.v, b=True)


def tobool(a):
    if a.b:
        return a
    return ne(a, ZERO)


def and_(a, b):
    a, b = tobool(a), tobool(b)
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    return _mk("and", (a, b), a.v and b.v, b=True)


def or_(a, b):
    a, b = tobool(a), tobool(b)
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return a
    return _mk("or", (a, b), a.v or b.v, b=True)


def power(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return div(ONE, power(a, -n))
    r = None
    p = a
    while n:
        if n & 1:
            r = p if r is None else mul(r, p)
        n >>= 1
        if n:
            p = mul(p, p)
    return r


def nsum(xs):
    """Balanced sum, so that terms stay shallow."""
    xs = [x for x in xs if not (x.k == "c" and x.a[0] == 0)]
    if not xs:
        return ZERO
    while len(xs) > 1:
        xs = [add(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
    return xs[0]


reset()


def sub(a, b):
    return add(a, neg(b))
