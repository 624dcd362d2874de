"""Translation of terms to z3 and discharge of the proof obligations.

A real term becomes num / prod(den_i^e_i) with polynomial z3 terms; an
obligation a == b becomes the query  path /\\ axioms /\\ den_i != 0 /\\
num(a-b) != 0, which z3 answers unsat (proved for all values) or sat (a
counterexample that is replayed on the real code)."""
from __future__ import annotations

import sys
import time
from fractions import Fraction

_p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _p not in sys.path:
    sys.path.append(_p)
import z3  # noqa: E402

from . import node as N  # noqa: E402
from .node import EngineError, Node  # noqa: E402


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.t = 0.0
        self.oblig = 0

    def d(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown,
                    solver_seconds=round(self.t, 3), obligations=self.oblig)


STATS = Stats()


def _rat(f: Fraction):
    return z3.RatVal(f.numerator, f.denominator)


def simp(e):
    # hoist_ite would blow up; som gives a canonical sum of monomials
    return z3.simplify(e, som=True, som_blowup=10000000, hoist_mul=False, flat=True, mul_to_power=True, sort_sums=True)


ONE = z3.RealVal(1)
ZERO = z3.RealVal(0)


class Tr:
    """Translator; level 0 keeps matrix inverses uninterpreted, level 1 expands them."""

    def __init__(self, level=0):
        self.level = level
        self.cache = {}   # node id -> translation
        self.keep = []
        self.den = {}     # ast id -> factor
        self.axioms = []  # z3 constraints about atoms met so far
        self.ax = {}      # atom group -> its constraints
        self.varcache = {}
        self.atoms = {}
        self.canoncache = {}
        self.size = {}    # node id -> bound on the monomials of its numerator
        self.dsize = {}
        self.base = {}    # node id -> size of the last normalised numerator below
        self.cut = {}     # node id -> variable standing for it

    def _simp(self, e, size, limit=60000):
        """Sum-of-monomials normal form, unless it would be too large."""
        return simp(e) if size <= limit else z3.simplify(e)

    # fractions ---------------------------------------------------------
    def _factor(self, e, size=0):
        e = self._simp(e, size)
        i = e.get_id()
        self.dsize[i] = min(size or 1, 1 + e.num_args()) if z3.is_add(e) else 1
        if i not in self.den:
            self.den[i] = e
            self.keep.append(e)
        return i

    def _prod(self, d):
        r = None
        for i, e in d:
            f = self.den[i]
            for _ in range(e):
                r = f if r is None else r * f
        return ONE if r is None else r

    @staticmethod
    def _lcm(d1, d2):
        m = dict(d1)
        for i, e in d2:
            if m.get(i, 0) < e:
                m[i] = e
        return tuple(sorted(m.items()))

    @staticmethod
    def _sub(m, d):
        dd = dict(d)
        return tuple((i, e - dd.get(i, 0)) for i, e in m if e - dd.get(i, 0) > 0)

    def _psize(self, d):
        r = 1
        for i, e in d:
            r *= self.dsize.get(i, 1) ** e
        return r

    def _csize(self, a, b):
        """Size of the sum of two translated nodes."""
        (_, d1), (_, d2) = self.cache[a.id], self.cache[b.id]
        s1, s2 = self.size.get(a.id, 1), self.size.get(b.id, 1)
        if d1 == d2:
            return s1 + s2
        m = self._lcm(d1, d2)
        return s1 * self._psize(self._sub(m, d1)) + s2 * self._psize(self._sub(m, d2))

    def common(self, x, y):
        (n1, d1), (n2, d2) = x, y
        if d1 == d2:
            return n1, n2, d1
        m = self._lcm(d1, d2)
        a, b = self._sub(m, d1), self._sub(m, d2)
        if a:
            n1 = n1 * self._prod(a)
        if b:
            n2 = n2 * self._prod(b)
        return n1, n2, m

    def fdiv(self, x, y, size=0):
        (n1, d1), (n2, d2) = x, y
        # n1/d1 * d2/n2
        s = self._simp(n2, size)
        if z3.is_rational_value(s):
            f = Fraction(s.numerator_as_long(), s.denominator_as_long())
            if f == 0:
                raise EngineError("division by an identically zero term")
            num = n1 * _rat(1 / f)
            dens = dict(d1)
        else:
            i = self._factor(s, size)
            num = n1
            dens = dict(d1)
            dens[i] = dens.get(i, 0) + 1
        for i, e in d2:
            c = min(e, dens.get(i, 0))
            if c:
                dens[i] -= c
                if dens[i] == 0:
                    del dens[i]
            for _ in range(e - c):
                num = num * self.den[i]
        return num, tuple(sorted(dens.items()))

    # --------------------------------------------------------------------
    def tr(self, n: Node):
        c = self.cache
        if n.id in c:
            return c[n.id]
        todo, stack, seen = [], [n], set()
        while stack:
            m = stack.pop()
            if m.id in seen or m.id in c:
                continue
            seen.add(m.id)
            todo.append(m)
            for x in self._deps(m):
                if x.id not in c:
                    stack.append(x)
        todo.sort(key=lambda m: m.id)
        for m in todo:
            if m.id not in c:
                if m.id in self.cut:
                    c[m.id] = self.cut[m.id]
                    continue
                c[m.id] = self._one(m)
                if m.k in "+*/" or m.k == "ite":
                    self._tighten(m)
        return c[n.id]

    def _tighten(self, m):
        """Normalise intermediate numerators whose size bound has become loose."""
        est = self.size.get(m.id, 1)
        base = max([self.base.get(x.id, 1) for x in m.a if isinstance(x, Node)] + [75])
        if 4 * base < est <= 200000:
            n, d = self.cache[m.id]
            s = simp(n)
            k = s.num_args() if z3.is_add(s) else 1
            if m.k != "ite" or not z3.is_app_of(s, z3.Z3_OP_ITE):
                self.size[m.id] = k
            self.cache[m.id] = (s, d)
            base = max(k, est if m.k == "ite" else 0)
        self.base[m.id] = base

    def _deps(self, m):
        if m.id in self.cut:
            return ()
        if m.k == "atom":
            g = N_ATOMS[m.a[0]]
            return g.deps(self.level)
        return [x for x in m.a if isinstance(x, Node)]

    def _one(self, m):
        c = self.cache
        k = m.k
        if k == "c":
            return _rat(m.a[0]), ()
        if k == "v":
            return z3.Real(m.a[0]), ()
        if k == "+":
            n1, n2, d = self.common(c[m.a[0].id], c[m.a[1].id])
            self.size[m.id] = self._csize(m.a[0], m.a[1])
            return n1 + n2, d
        if k == "-":
            n1, d = c[m.a[0].id]
            self.size[m.id] = self.size.get(m.a[0].id, 1)
            return -n1, d
        if k == "*":
            self.size[m.id] = self.size.get(m.a[0].id, 1) * self.size.get(m.a[1].id, 1)
            (n1, d1), (n2, d2) = c[m.a[0].id], c[m.a[1].id]
            if not d1:
                d = d2
            elif not d2:
                d = d1
            else:
                dd = dict(d1)
                for i, e in d2:
                    dd[i] = dd.get(i, 0) + e
                d = tuple(sorted(dd.items()))
            return n1 * n2, d
        if k == "/":
            self.size[m.id] = self.size.get(m.a[0].id, 1) * self._psize(c[m.a[1].id][1])
            return self.fdiv(c[m.a[0].id], c[m.a[1].id], self.size.get(m.a[1].id, 1))
        if k == "atom":
            return N_ATOMS[m.a[0]].tr(self, m.a[1])
        if k == "ite":
            cond = c[m.a[0].id]
            if m.b:
                return z3.If(cond, c[m.a[1].id], c[m.a[2].id])
            n1, n2, d = self.common(c[m.a[1].id], c[m.a[2].id])
            self.size[m.id] = self._csize(m.a[1], m.a[2])
            return z3.If(cond, n1, n2), d
        if k in ("lt", "le", "eq"):
            n1, n2, d = self.common(c[m.a[0].id], c[m.a[1].id])
            diff = n1 - n2
            size = self._csize(m.a[0], m.a[1])
            if k == "eq":
                return self._simp(diff, size) == 0
            odd = [(i, 1) for i, e in d if e % 2]
            if odd:
                diff = diff * self._prod(odd)
                size *= self._psize(odd)
            diff = self._simp(diff, size)
            return diff < 0 if k == "lt" else diff <= 0
        if k == "not":
            return z3.Not(c[m.a[0].id])
        if k == "and":
            return z3.And(c[m.a[0].id], c[m.a[1].id])
        if k == "or":
            return z3.Or(c[m.a[0].id], c[m.a[1].id])
        if k == "true":
            return z3.BoolVal(True)
        if k == "false":
            return z3.BoolVal(False)
        raise EngineError(f"cannot translate {k}")

    def canon(self, n):
        """A key that is equal for terms z3 normalises to the same fraction."""
        r = self.canoncache.get(n.id)
        if r is None:
            num, d = self.tr(n)
            if self.size.get(n.id, 1) > 60000:
                r = self.canoncache[n.id] = ("node", n.id)
                return r
            s = simp(num)
            self.keep.append(s)
            if z3.is_rational_value(s) and s.numerator_as_long() == 0:
                d = ()
            r = (s.get_id(), d)
            self.canoncache[n.id] = r
        return r


# ---------------------------------------------------------------- atoms
N_ATOMS: list = []
_akeys: dict = {}
TR: list = [None, None]


def reset():
    N.reset()
    N_ATOMS.clear()
    _akeys.clear()
    TR[0] = Tr(0)
    TR[1] = Tr(1)


class Atom:
    """A group of values defined by a function symbol applied to terms."""

    def __init__(self, gid, name, args, extra):
        self.gid, self.name, self.args, self.extra = gid, name, args, extra
        self.nodes = {}
        self.axioms_z3 = {}

    def deps(self, level):
        return list(self.args)

    def z(self, idx):
        return z3.Real(f"{self.name}!{self.gid}!{idx}")

    def tr(self, T, idx):
        if self.gid not in T.atoms:
            T.atoms[self.gid] = True
            k = len(T.axioms)
            T.ax[self.gid] = []
            self.add_axioms(T)
            T.ax[self.gid] = T.axioms[k:]
        if self.name == "inv" and T.level >= 1:
            return self._inv_closed(T, idx)
        return self.z(idx), ()

    def _inv_closed(self, T, idx):
        key = ("invc", T.level)
        cf = self.axioms_z3.get(key)
        if cf is None:
            n = self.extra["n"]
            A = [[T.cache[self.args[i * n + j].id] for j in range(n)] for i in range(n)]
            # bring to a common denominator
            m = ()
            for r in A:
                for (_, d) in r:
                    m = T._lcm(m, d)
            P = [[simp(x * T._prod(T._sub(m, d))) for (x, d) in r] for r in A]
            det, adj = _adj(P)
            det = simp(det)
            cf = {}
            for i in range(n):
                for j in range(n):
                    # inv(A) = D * adj(P)/det(P)
                    num = simp(adj[i][j])
                    num = num * T._prod(m)
                    cf[(i, j)] = T.fdiv((num, ()), (det, ()))
            self.axioms_z3[key] = cf
        n = self.extra["n"]
        return cf[(idx // n, idx % n)]

    def add_axioms(self, T):
        if self.name == "sqrt":
            n, d = T.cache[self.args[0].id]
            s = self.z(0)
            # s*s*den == num, s >= 0
            T.axioms.append(s >= 0)
            T.axioms.append(T._simp(s * s * T._prod(d) - n, T.size.get(self.args[0].id, 1)) == 0)
        elif self.name == "exp":
            T.axioms.append(self.z(0) > 0)
        for ax in self.extra.get("axioms", ()):
            T.axioms.append(T.tr(ax))


def _det(P):
    n = len(P)
    if n == 1:
        return P[0][0]
    if n == 2:
        return P[0][0] * P[1][1] - P[0][1] * P[1][0]
    r = None
    for j in range(n):
        sub = [row[:j] + row[j + 1:] for row in P[1:]]
        t = P[0][j] * _det(sub)
        if j % 2:
            t = -t
        r = t if r is None else r + t
    return r


def _adj(P):
    n = len(P)
    det = _det(P)
    if n == 1:
        return det, [[ONE]]
    adj = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            sub = [row[:j] + row[j + 1:] for k, row in enumerate(P) if k != i]
            t = _det(sub)
            if (i + j) % 2:
                t = -t
            adj[j][i] = t
    return det, adj


def atom(name, args, vals, extra=None, key=None):
    """The atom group `name(args)`; args equal up to z3 normalisation give the
    same group.  vals: seed values of its components."""
    T = TR[0]
    if key is None:
        key = (name,) + tuple(T.canon(a) for a in args)
    g = _akeys.get(key)
    if g is None:
        g = Atom(len(N_ATOMS), name, list(args), extra or {})
        N_ATOMS.append(g)
        _akeys[key] = g
    out = []
    for i, v in enumerate(vals):
        n = g.nodes.get(i)
        if n is None:
            n = N._mk("atom", (g.gid, i), float(v))
            g.nodes[i] = n
        out.append(n)
    return out


def uf(name, arg, v):
    return atom(name, [arg], [v])[0]


def sqrt(a):
    a = N._num(a)
    if a.k == "c":
        f = a.a[0]
        if f >= 0:
            import math
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return N.const(Fraction(p, q))
        else:
            return N.POISON
    if a.v < -1e-9 or a.k in ("poison",):
        return N.POISON
    r = uf("sqrt", a, max(a.v, 0.0) ** 0.5)
    N.SQRT.setdefault(r.id, a)
    return r


def inverse(A, vals):
    """A: n x n nodes (list of rows); vals: numeric inverse at the seed."""
    n = len(A)
    T = TR[0]
    flat = [x for r in A for x in r]
    ck = [[T.canon(x) for x in r] for r in A]
    sym = all(ck[i][j] == ck[j][i] for i in range(n) for j in range(i))
    key = ("inv",) + tuple(c for r in ck for c in r)
    tkey = ("inv",) + tuple(ck[j][i] for i in range(n) for j in range(n))
    transposed = False
    if key not in _akeys and tkey in _akeys:
        key, transposed = tkey, True
    if all(ck[i][j] == T.canon(N.ZERO) for i in range(n) for j in range(n) if i != j):
        return [[N.div(N.ONE, A[i][i]) if i == j else N.ZERO for j in range(n)] for i in range(n)]
    v = [vals[i][j] for i in range(n) for j in range(n)]
    if transposed:
        v = [vals[j][i] for i in range(n) for j in range(n)]
    out = atom("inv", flat, v, {"n": n}, key=key)
    M = [out[i * n:(i + 1) * n] for i in range(n)]
    if transposed:
        M = [[M[j][i] for j in range(n)] for i in range(n)]
    if sym:
        M = [[M[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
    return M


# ---------------------------------------------------------------- queries
class Inconclusive(Exception):
    pass


def _check(cons, timeout, tactic=None):
    t0 = time.time()
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set("timeout", int(timeout * 1000))
    for c in cons:
        s.add(c)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.t += time.time() - t0
    STATS.queries += 1
    if r == z3.unsat:
        STATS.unsat += 1
        return "unsat", None
    if r == z3.sat:
        STATS.sat += 1
        return "sat", s.model()
    STATS.unknown += 1
    return "unknown", None


def val(model, name):
    e = model.eval(z3.Real(name), model_completion=True)
    if z3.is_algebraic_value(e):
        e = e.approx(20)
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return Fraction(0)


def model_values(model):
    return {n: float(val(model, n)) for n in N.VARS}


def path_constraints(T, conds):
    out = [T.tr(c) for c in conds]
    if INTS:
        out += [z3.IsInt(z3.Real(n.a[0])) for n in dag(conds).values() if n.k == "v" and n.a[0] in INTS]
    return out


def decide(goal_false, conds, T, timeout=20.0):
    """Is path /\\ goal_false satisfiable?"""
    cons = list(goal_false) + list(T.axioms) + [simp(d) != 0 for d in T.den.values()] + list(conds)
    r, m = _check(cons, timeout)
    if r == "unknown":
        r, m = _check(cons, timeout, "qfnra-nlsat")
    return r, m


def _identical(a, b):
    T = TR[0]
    return T.canon(a) == T.canon(b)


N.IDENTICAL = _identical


def dag(nodes):
    """All nodes below, through atom arguments."""
    seen, st = {}, list(nodes)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen[n.id] = n
        if n.k == "atom":
            st.extend(N_ATOMS[n.a[0]].args)
        else:
            st.extend(x for x in n.a if isinstance(x, Node))
    return seen


def nvars(n, T):
    r = T.varcache.get(n.id)
    if r is None:
        r = T.varcache[n.id] = frozenset(m.a[0] for m in dag([n]).values() if m.k == "v")
    return r


def cone(nodes, T):
    """Constraints that define the atoms and denominators below the nodes."""
    ax, dens = [], set()
    todo, done = list(nodes), set()
    while todo:
        for m in dag(todo).values():
            if not m.b and m.id in T.cache:
                for i, _ in T.cache[m.id][1]:
                    dens.add(i)
            if m.k == "atom" and m.a[0] not in done:
                done.add(m.a[0])
                ax.extend(T.ax.get(m.a[0], ()))
        todo = []
    return ax + [simp(T.den[i]) != 0 for i in dens]


def implied(c, conds, T, timeout=4.0):
    """True / False when the path decides the condition c, else None."""
    vs = nvars(c, T)
    # inside-out: only the path conditions about the same variables
    rel = [d for d in conds if nvars(d, T) <= vs]
    if not rel and not any(m.k == "atom" for m in dag([c]).values()):
        rel = [d for d in conds if nvars(d, T) & vs]
    zc = T.tr(c)
    zr = [T.tr(d) for d in rel]
    base = zr + cone([c] + rel, T)
    guess = bool(c.v)
    r, _ = _check(base + [z3.Not(zc) if guess else zc], timeout)
    if r == "unsat":
        return guess
    return None


def prune(nodes, conds, T):
    """Rewrite if-then-else terms whose condition the path decides."""
    conds = list(conds)
    D = sorted(dag(nodes).values(), key=lambda n: n.id)
    if not any(n.k == "ite" for n in D):
        return list(nodes)
    new, verdict = {}, {}
    for n in D:
        ch = [new.get(x.id, x) if isinstance(x, Node) else x for x in n.a]
        if n.k == "ite":
            c = ch[0]
            if c.id not in verdict:
                verdict[c.id] = True if c is N.TRUE else False if c is N.FALSE else implied(c, conds, T)
            v = verdict[c.id]
            new[n.id] = ch[1] if v is True else ch[2] if v is False else N.ite(c, ch[1], ch[2])
        elif n.k == "atom" or all(x is y for x, y in zip(ch, n.a)):
            if n.k == "atom":
                g = N_ATOMS[n.a[0]]
                args = [new.get(x.id, x) for x in g.args]
                if g.name == "inv" or g.extra.get("axioms") or all(x is y for x, y in zip(args, g.args)):
                    new[n.id] = n
                else:
                    new[n.id] = atom(g.name, args, [n.v])[0] if n.a[1] == 0 and len(g.nodes) == 1 else n
            else:
                new[n.id] = n
        else:
            new[n.id] = REBUILD[n.k](*ch)
    return [new[n.id] for n in nodes]


REBUILD = {"+": N.add, "-": N.neg, "*": N.mul, "/": N.div, "lt": N.lt, "le": N.le, "eq": N.eq, "not": N.not_,
           "and": N.and_, "or": N.or_}


def prove_equal(pairs, conds, timeout=30.0):
    """pairs: [(a, b)] reals or booleans.  Returns ("holds", None, None) or
    ("cex", index, values) or raises Inconclusive."""
    hard = []
    T = TR[0]
    pc = path_constraints(T, conds)
    # one batched query for everything z3 normalises away
    easy = []
    for i, (a, b) in enumerate(pairs):
        STATS.oblig += 1
        if a.k == "poison" or b.k == "poison" or a.k == "inf" or b.k == "inf":
            if a is b and a.k == "inf":
                continue
            return "cex", i, None  # a NaN / inf where a number is expected: replayed
        if a.b or b.b:
            e = T.tr(N.tobool(a)) != T.tr(N.tobool(b))
            es = z3.simplify(e)
            if z3.is_false(es):
                easy.append(e)
            else:
                hard.append((i, a, b))
            continue
        if a is b:
            easy.append(ZERO != 0)
            continue
        e = N.add(a, N.neg(b))
        n, d = T.tr(e)
        s = T._simp(n, T.size.get(e.id, 1), 400000)
        if z3.is_rational_value(s) and s.numerator_as_long() == 0:
            easy.append(s != 0)
        else:
            hard.append((i, a, b))
    if easy:
        r, _ = _check([z3.Or(*easy)] + pc, timeout)
        if r != "unsat":
            raise Inconclusive(f"batched query answered {r}")
    if hard:
        fl = prune([x for h in hard for x in h[1:]], conds, T)
        hard = [(h[0], fl[2 * k], fl[2 * k + 1]) for k, h in enumerate(hard)]
    for i, a, b in hard:
        res = _prove_one(a, b, conds, timeout)
        if res[0] == "holds":
            continue
        return "cex", i, res[1]
    return "holds", None, None


def cut_goal(a, b):
    """a != b with the largest subterms the two sides share replaced by fresh
    variables: unsatisfiable only if a == b for whatever those subterms are."""
    da, db = dag([a]), dag([b])
    shared = {i: n for i, n in da.items() if i in db and not n.b and n.k not in ("c", "v")}
    if not shared or a.id in shared or b.id in shared:
        return None
    T = Tr(0)
    for i, n in shared.items():
        T.cut[i] = (z3.Real(f"cut!{i}"), ())
    e = N.add(a, N.neg(b))
    n, d = T.tr(e)
    s = T._simp(n, T.size.get(e.id, 1), 400000)
    return [s != 0] + list(T.axioms)


def _prove_one(a, b, conds, timeout):
    seed = {n: x.v for n, x in N.VARS.items()}
    isb = a.b or b.b
    levels = [0, 1] if any(g.name == "inv" for g in N_ATOMS) else [0]
    # the seed itself may already be a counterexample: pin it and let z3 confirm
    if isb:
        differs = N.tobool(a).v != N.tobool(b).v
    else:
        sc = 1 + max(abs(a.v), abs(b.v))
        differs = not (abs(a.v - b.v) <= 1e-6 * sc)
    if differs:
        T = TR[0]
        pins = [z3.Real(nm) == _rat(Fraction(v)) for nm, v in seed.items()]
        if isb:
            goal = [T.tr(N.tobool(a)) != T.tr(N.tobool(b))]
        else:
            n, d = T.tr(N.add(a, N.neg(b)))
            goal = [n != 0]
        _check(goal + pins + list(T.axioms), timeout)  # confirms the seed as a model
        return "cex", seed
    if not isb:
        g = cut_goal(a, b)
        if g is not None:
            r, _ = _check(g, timeout / 3)
            if r == "unsat":
                return "holds", None
    last = None
    for lv in levels:
        T = TR[lv]
        pc = path_constraints(T, conds)
        if isb:
            goal = [T.tr(N.tobool(a)) != T.tr(N.tobool(b))]
        else:
            n, d = T.tr(N.add(a, N.neg(b)))
            goal = [simp(n) != 0]
        small = goal + cone([a, b], T)
        r, m = _check(small, timeout / 3)
        if r == "unsat":
            return "holds", None
        r, m = decide(goal, pc, T, timeout)
        if r == "unsat":
            return "holds", None
        last = (r, m, T, pc)
        if r == "sat" and lv == levels[-1]:
            break
    r, m, T, pc = last
    # look for a counterexample with a visible gap inside a small box
    box = []
    for nm in N.VARS:
        x = z3.Real(nm)
        box += [x >= -4, x <= 4]
    if not isb:
        n, d = T.tr(N.add(a, N.neg(b)))
        s = simp(n)
        for gap in (z3.RealVal("1/10"), z3.RealVal("1/10000")):
            r2, m2 = decide([z3.Or(s >= gap, s <= -gap)] + box, pc, T, timeout)
            if r2 == "sat":
                return "cex", model_values(m2)
    if r == "sat":
        return "cex", model_values(m)
    raise Inconclusive("z3 answered unknown")


def witness(conds, timeout=10.0):
    """Reachability: the path condition has a model (the seed point)."""
    T = TR[0]
    pc = path_constraints(T, conds)
    base = pc + list(T.axioms) + [d != 0 for d in T.den.values()]
    pins = [z3.Real(nm) == _rat(Fraction(x.v)) for nm, x in N.VARS.items()]
    r, _ = _check(base + pins, timeout)
    if r != "sat":
        r, _ = _check(base, timeout)
    return r


INTS = set()    # variables that are integers
TAGGED = set()  # variables that are also numbers the program sees


def _unusual(vals, pins, pc, T, timeout):
    """Move numbers recognised by their value away from values constants have."""
    fixed, todo = [], sorted(x for x in TAGGED if x in vals)
    # those with a good value keep it while the others move
    todo.sort(key=lambda nm: vals[nm] * 1024 == int(vals[nm] * 1024))
    for nm in todo:
        v = vals[nm]
        moves = (3541, -3541, 353, -353, 37, -37) if v * 1024 == int(v * 1024) else (0,)
        for eps in moves:
            w = Fraction(v) + Fraction(eps, 1 << 20)
            r, m = decide(pins + fixed + [z3.Real(nm) == _rat(w)], pc, T, timeout)
            if r == "sat":
                fixed.append(z3.Real(nm) == _rat(w))
                vals = model_values(m)
                break
    return vals


def solve_path(conds, timeout=15.0):
    """A model of the conjunction of conds (boolean nodes), or None if unsat."""
    T = TR[0]
    pc = path_constraints(T, conds)
    # Inputs the decisions do not depend on keep their present values: a model
    # that makes them all equal would only be a degenerate place to run at.
    used = {n.a[0] for n in dag(conds).values() if n.k == "v"}
    keep = [nm for nm in N.VARS if nm not in used]
    if keep:
        pins = [z3.Real(nm) == _rat(Fraction(N.VARS[nm].v)) for nm in keep]
        r, m = decide(pins, pc, T, timeout)
        if r == "sat":
            return "sat", _unusual(model_values(m), pins, pc, T, timeout)
    r, m = decide([], pc, T, timeout)
    if r == "unsat":
        return "unsat", None
    if r == "sat":
        return "sat", _unusual(model_values(m), [], pc, T, timeout)
    return "unknown", None



reset()
