"""Harness API and the exploration / proof / replay driver."""
from __future__ import annotations

import copy
import json
import math
import os
import random
import sys
import time
import traceback
import warnings

import numpy as np

os.environ.setdefault("TORCHDYNAMO_DISABLE", "1")
os.environ.setdefault("TQDM_DISABLE", "1")
import torch  # noqa: E402

from . import mem, mode as M, node as N, ops, solve  # noqa: E402
from .node import EngineError, Node, Unsupported  # noqa: E402


class Cut(BaseException):
    """This path violates an assumption: outside the claim.

    node: the assumption that fails at the values the path is run with (others may satisfy it)."""

    def __init__(self, node=None):
        super().__init__()
        self.node = node


class CheckFailed(Exception):
    """Concrete replay: the property is violated."""


class SFloat(float):
    """A symbolic Python number: its exact float value is tagged with its term."""

    node: Node

    def __new__(cls, node):
        o = float.__new__(cls, node.v)
        o.node = node
        v = float(node.v)
        if node.k != "c":
            if node.k == "v" and v * 1024 == int(v * 1024):
                raise EngineError("a symbolic number has a value that constants have too")
            mem.TAGS.setdefault(v, node)
            solve.TAGGED.add(node.a[0] if node.k == "v" else None)
        return o

    def _bin(self, o, f, swap=False):
        if isinstance(o, (torch.Tensor, np.ndarray)):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        return SFloat(f(_sn(a), _sn(b)))

    def __add__(self, o): return self._bin(o, N.add)
    def __radd__(self, o): return self._bin(o, N.add, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: N.add(a, N.neg(b)))
    def __rsub__(self, o): return self._bin(o, lambda a, b: N.add(a, N.neg(b)), True)
    def __mul__(self, o): return self._bin(o, N.mul)
    def __rmul__(self, o): return self._bin(o, N.mul, True)
    def __truediv__(self, o): return self._bin(o, N.div)
    def __rtruediv__(self, o): return self._bin(o, N.div, True)
    def __neg__(self): return SFloat(N.neg(self.node))
    def __pos__(self): return self
    def __abs__(self): return SFloat(ops.n_abs(self.node))

    def __pow__(self, o):
        if isinstance(o, int):
            return SFloat(N.power(self.node, o))
        if o == 0.5:
            return SFloat(solve.sqrt(self.node))
        raise Unsupported("pow of a symbolic number")

    def _cmp(self, o, f):
        if isinstance(o, (torch.Tensor, np.ndarray)):
            return NotImplemented
        return CUR.branch(f(self.node, _sn(o)))

    def __lt__(self, o): return self._cmp(o, N.lt)
    def __le__(self, o): return self._cmp(o, N.le)
    def __gt__(self, o): return self._cmp(o, lambda a, b: N.lt(b, a))
    def __ge__(self, o): return self._cmp(o, lambda a, b: N.le(b, a))
    def __eq__(self, o):
        if o is None or not isinstance(o, (int, float)):
            return False
        return self._cmp(o, N.eq)
    def __ne__(self, o): return not self.__eq__(o)
    def __bool__(self): return CUR.branch(N.ne(self.node, N.ZERO))
    def __hash__(self): return float.__hash__(self)

    def __int__(self):
        raise Unsupported("int() of a symbolic number")

    def __reduce__(self):
        return (float, (float.__add__(self, 0.0),))

    def __deepcopy__(self, m): return self
    def __copy__(self): return self


class SInt:
    """A symbolic Python integer (sizes, limits); comparisons fork."""

    def __init__(self, node):
        self.node = node

    def _bin(self, o, f, swap=False):
        if isinstance(o, (torch.Tensor, np.ndarray)):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        return SInt(f(_sn(a), _sn(b)))

    def __add__(self, o): return self._bin(o, N.add)
    def __radd__(self, o): return self._bin(o, N.add, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: N.add(a, N.neg(b)))
    def __rsub__(self, o): return self._bin(o, lambda a, b: N.add(a, N.neg(b)), True)
    def __mul__(self, o): return self._bin(o, N.mul)
    def __rmul__(self, o): return self._bin(o, N.mul, True)
    def __neg__(self): return SInt(N.neg(self.node))
    def __pos__(self): return self

    def __floordiv__(self, o):
        """Forks on the quotient."""
        if isinstance(o, SInt) and o.node.k != "c" and self.node.k != "c" or not _sn(o).v > 0:
            raise Unsupported("quotient of two symbolic integers")
        q = int(self.node.v // _sn(o).v)
        lo = N.mul(N.const(q), _sn(o))
        CUR.branch(N.le(lo, self.node))
        CUR.branch(N.lt(self.node, N.add(lo, _sn(o))))
        return q

    def __mod__(self, o): return self - (self // o) * o
    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def _cmp(self, o, f): return CUR.branch(f(self.node, _sn(o)))
    def __lt__(self, o): return self._cmp(o, N.lt)
    def __le__(self, o): return self._cmp(o, N.le)
    def __gt__(self, o): return self._cmp(o, lambda a, b: N.lt(b, a))
    def __ge__(self, o): return self._cmp(o, lambda a, b: N.le(b, a))
    def __eq__(self, o): return isinstance(o, (int, SInt)) and self._cmp(o, N.eq)
    def __ne__(self, o): return not self.__eq__(o)
    def __bool__(self): return CUR.branch(N.ne(self.node, N.ZERO))
    def __hash__(self): return hash(self.node.id)
    def __int__(self): raise Unsupported("a concrete integer is needed for a symbolic one")
    __index__ = __float__ = __int__


def _sn(x):
    if isinstance(x, (SFloat, SInt)):
        return x.node
    if isinstance(x, Node):
        return x
    return ops.sc(x if isinstance(x, (int, bool)) else float(x))


CUR = None


class Engine:
    def __init__(self, inputs=None, symbolic_random=True, seed=1):
        self.inputs = dict(inputs or {})
        self.symbolic_random = symbolic_random
        self.seed = seed
        self.conds = []      # (node, negatable, kind)
        self.condset = set()
        self.obligs = []     # (label, pairs)
        self.randkeys = {}
        self.draws = []      # ((distribution, mean, std or p), values) of every draw
        self.nrandom = 0
        self.nops = 0
        self.opcount = {}
        self.decomposed = set()
        self.numpy_policy = "raise"
        self.rng = random.Random(seed * 7919 + 13)
        self.struct_fail = None

    # -- dispatch ------------------------------------------------------
    def dispatch(self, mode, func, args, kwargs):
        return M.dispatch(self, mode, func, args, kwargs)

    # -- forks ---------------------------------------------------------
    def branch(self, cond):
        cond = N.tobool(cond)
        if cond is N.TRUE:
            return True
        if cond is N.FALSE:
            return False
        taken = bool(cond.v)
        c = cond if taken else N.not_(cond)
        if c.id not in self.condset:
            self.condset.add(c.id)
            self.conds.append((c, True))
        return taken

    def branch_order(self, a, b):
        """a is placed before b: a < b, or a = b, on this path."""
        a, b = N._num(a), N._num(b)
        if a is b or (a.k in ("c", "inf") and b.k in ("c", "inf")):
            return
        if a.v == b.v:
            # the order the kernel gave to equal values of this run (a
            # comparison sort's order depends on which values are equal only)
            self.branch(N.eq(a, b))
            return
        if not a.v < b.v:
            raise EngineError("ordering disagrees with the kernel")
        c = N.lt(a, b)
        if c is N.TRUE:
            return
        if c.id not in self.condset:
            self.condset.add(c.id)
            self.conds.append((c, True))
            self.tie_cut = True

    def concretise_bools(self, a):
        for n in a.ravel().tolist():
            self.branch(n)

    def local_scalar(self, t):
        n = mem.read(t)
        n = n.ravel()[0] if n.ndim else n[()]
        if n.b or t.dtype == torch.bool:
            return self.branch(n)
        if n.k == "c":
            v = mem.memvals(t)
            return v.ravel().tolist()[0]
        if not t.dtype.is_floating_point:
            # integer-valued term (a count of booleans): fork on its value
            v = int(mem.memvals(t).ravel()[0])
            self.branch(N.eq(n, N.const(v)))
            return v
        raise Unsupported("item() of a symbolic value outside Tensor.item")

    def eigh(self, A, real):
        n = A.shape[-1]
        if A.ndim != 2:
            raise Unsupported("batched eigh")
        B = [[A[max(i, j), min(i, j)] for j in range(n)] for i in range(n)]
        w, V = real[0], real[1]
        wv, Vv = mem.memvals(w), mem.memvals(V)
        tri = [B[i][j] for i in range(n) for j in range(i + 1)]
        key = ("eigh",) + tuple(solve.TR[0].canon(x) for x in tri)
        out = solve.atom("eigh", tri, list(wv.ravel()) + list(Vv.ravel()), {"n": n}, key=key)
        ws = np.array(out[:n] + [None], dtype=object)[:n]
        Vs = np.array(out[n:] + [None], dtype=object)[:-1].reshape(n, n)
        g = solve.N_ATOMS[out[0].a[0]]
        if "axioms" not in g.extra:
            ax = []
            for i in range(n):
                for j in range(n):
                    # A V = V diag(w)
                    ax.append(N.eq(N.nsum([N.mul(B[i][k], Vs[k, j]) for k in range(n)]), N.mul(Vs[i, j], ws[j])))
                    if i <= j:
                        d = N.ONE if i == j else N.ZERO
                        ax.append(N.eq(N.nsum([N.mul(Vs[k, i], Vs[k, j]) for k in range(n)]), d))
                        ax.append(N.eq(N.nsum([N.mul(Vs[i, k], Vs[j, k]) for k in range(n)]), d))
            for i in range(n - 1):
                ax.append(N.le(ws[i], ws[i + 1]))
            g.extra["axioms"] = ax
        return [ws, Vs]


# -------------------------------------------------------------------- API
class Sym:
    """What a harness sees; `sym` is False while replaying concretely."""

    def __init__(self, eng, sym, inputs, params):
        self.e, self.sym, self.inputs, self.p = eng, sym, inputs, params
        self.rng = random.Random(1234567 + 7919 * (eng.seed if eng else 0))
        self.failures = []
        self.nchecks = 0

    # symbolic inputs
    def _val(self, name, lo, hi):
        if name in self.inputs:
            return float(self.inputs[name])
        r = random.Random(f"{name}/{self.e.seed if self.e else 1}")
        v = (r.randrange(1, 1 << 20) * 2 + 1) / float(1 << 21)
        return round((lo + (hi - lo) * v) * (1 << 24)) / float(1 << 24)

    def tensor(self, name, *shape, lo=-1.5, hi=1.5, dtype=None, tag=False):
        dtype = dtype or torch.get_default_dtype()
        n = 1
        for d in shape:
            n *= d
        vals = [self._val(f"{name}_{i}", lo, hi) for i in range(n)]
        if dtype == torch.float32:
            vals = [float(np.float32(v)) for v in vals]
        t = _untracked(lambda: torch.tensor(vals, dtype=dtype).reshape(shape))
        if self.sym:
            nodes = np.empty(n, dtype=object)
            for i in range(n):
                nodes[i] = N.var(f"{name}_{i}", vals[i])
                if tag:
                    mem.TAGS[vals[i]] = nodes[i]
                    solve.TAGGED.add(f"{name}_{i}")
            mem.write(t, nodes.reshape(shape), what="input " + name)
        return t

    def scalar(self, name, lo=0.2, hi=1.5):
        v = self._val(name, lo, hi)
        if not self.sym:
            return v
        return SFloat(N.var(name, v))

    def integer(self, name, lo, hi):
        """An unknown integer in lo..hi (not a tensor size)."""
        v = int(self._val(name, lo, hi))
        if not self.sym:
            return v
        n = N.var(name, float(v))
        solve.INTS.add(name)
        for c in (N.le(N.const(lo), n), N.le(n, N.const(hi))):
            if c is not N.TRUE and c.id not in self.e.condset:
                self.e.condset.add(c.id)
                self.e.conds.append((c, False))
        return SInt(n)

    def bools(self, name, *shape):
        """A boolean tensor of unknown truth values."""
        t = self.tensor(name, *shape, lo=-1.0, hi=1.0)
        return t > 0

    def assume(self, cond):
        """cond: boolean tensor (all), SFloat comparison result is already a fork."""
        if isinstance(cond, torch.Tensor):
            if not self.sym:
                if not bool(cond.all()):
                    raise Cut()
                return
            for n in mem.read(cond).ravel().tolist():
                n = N.tobool(n)
                if n is N.TRUE:
                    continue
                if not bool(n.v):
                    raise Cut(n)
                if n.id not in self.e.condset:
                    self.e.condset.add(n.id)
                    self.e.conds.append((n, False))
        elif not cond:
            raise Cut()

    def positive(self, x):
        """Assume x > 0 (tensor or symbolic number)."""
        if isinstance(x, SFloat):
            n = N.lt(N.ZERO, x.node)
            if n is not N.TRUE:
                if not n.v:
                    raise Cut(n)
                if n.id not in self.e.condset:
                    self.e.condset.add(n.id)
                    self.e.conds.append((n, False))
            return
        if isinstance(x, (int, float)):
            if not x > 0:
                raise Cut()
            return
        self.assume(x > 0)

    def distinct(self, x):
        f = x.reshape(-1)
        for i in range(f.shape[0]):
            for j in range(i):
                self.assume(f[i] != f[j])

    # obligations
    def check(self, actual, expected, label="", tol=1e-6, slack=None):
        """Equality of two values of the same shape (within slack, where rounded constants such as 1/3 meet)."""
        self.nchecks += 1
        if not self.sym:
            self._concrete(actual, expected, label, tol)
            return
        try:
            a, b = tonodes(actual), tonodes(expected)
        except EngineError:
            raise
        if a.shape != b.shape:
            self.e.obligs.append((label, None, f"shape {a.shape} instead of {b.shape}"))
            return
        pairs = list(zip(a.ravel().tolist(), b.ravel().tolist()))
        if slack is not None:
            t = N.const(slack)
            pairs = [(N.and_(N.le(N.sub(N._num(x), N._num(y)), t), N.le(N.sub(N._num(y), N._num(x)), t)), N.TRUE) for x, y in pairs]
        self.e.obligs.append((label, pairs, None))

    def check_true(self, cond, label=""):
        """cond: python bool or boolean tensor"""
        self.nchecks += 1
        if isinstance(cond, torch.Tensor):
            if not self.sym:
                if not bool(cond.all()):
                    self.failures.append((label, "condition is false"))
                return
            ns = mem.read(cond).ravel().tolist()
            self.e.obligs.append((label, [(N.tobool(n), N.TRUE) for n in ns], None))
            return
        if not self.sym:
            if not cond:
                self.failures.append((label, "condition is false"))
            return
        self.e.obligs.append((label, None, None if cond else "condition is false"))

    def _concrete(self, actual, expected, label, tol):
        a, b = tonum(actual), tonum(expected)
        if a.shape != b.shape:
            self.failures.append((label, f"shape {a.shape} instead of {b.shape}"))
            return
        if a.size == 0:
            return
        if not np.all(np.isfinite(a)) and np.all(np.isfinite(b)):
            self.failures.append((label, f"got {a.tolist()} expected {b.tolist()}"))
            return
        if not np.all(np.isfinite(b)):
            raise Cut()  # the expectation itself is undefined here
        sc = 1.0 + np.maximum(np.abs(a), np.abs(b))
        d = np.abs(a - b)
        bad = ~(d <= tol * sc)
        if np.any(bad):
            i = int(np.argmax(np.where(bad, d, -1)))
            self.failures.append((label, f"entry {i}: got {a.ravel()[i]!r} expected {b.ravel()[i]!r}"))

    def draws(self):
        """Random draws so far: ((distribution, mean, std or p), values in this run)."""
        return list(self.e.draws)

    def raw(self, t):
        """The values a tensor has in this run (nested lists)."""
        if self.sym:
            return mem.memvals(t).tolist()
        return t.detach().double().tolist()

    def choice(self, name, n):
        """A finite unknown in 0..n-1 (a draw, a schedule, a selection): the
        execution forks on it and the solver visits every value."""
        v = self._val("ch_" + name, 0.0, float(n))
        x = N.var("ch_" + name, v) if self.sym else None  # never a number the program sees
        for k in range(n - 1):
            if (self.e.branch(N.lt(x, N.const(k + 1))) if self.sym else v < k + 1):
                return k
        return n - 1

    def permutation(self, name, n):
        """An unknown permutation of 0..n-1 (forked on)."""
        left, out = list(range(n)), []
        for k in range(n - 1):
            out.append(left.pop(self.choice(f"{name}_{k}", n - k)))
        return out + left


def tonodes(x):
    if isinstance(x, torch.Tensor):
        return mem.read(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    if isinstance(x, Node):
        return mem._scalar(x)
    if isinstance(x, (SFloat, SInt)):
        return mem._scalar(x.node)
    if isinstance(x, (list, tuple)):
        l = [tonodes(y) for y in x]
        out = np.empty((len(l),) + (l[0].shape if l else ()), dtype=object)
        for i, y in enumerate(l):
            if y.shape != l[0].shape:
                raise EngineError("ragged comparison")
            out[i] = y[()] if y.ndim == 0 else y
        return out
    if isinstance(x, np.ndarray):
        return tonodes(x.tolist()) if x.ndim else mem._scalar(ops.sc(x.item()))
    if isinstance(x, np.generic):
        x = x.item()
    return mem._scalar(ops.sc(x))


def tonum(x):
    if isinstance(x, torch.Tensor):
        return x.detach().double().numpy()
    if isinstance(x, (list, tuple)):
        return np.array([tonum(y) for y in x], dtype=float)
    return np.asarray(x, dtype=float)


def _untracked(f):
    with torch._C._DisableTorchDispatch():
        return f()


# ------------------------------------------------------------------ patches
def _hasshadow(t):
    return CUR is not None and mem.plain(t) and mem.shadowed(t)


_orig = {}


def install_patches():
    if _orig:
        return
    T = torch.Tensor
    _orig["numpy"], _orig["tolist"], _orig["item"], _orig["deepcopy"] = T.numpy, T.tolist, T.item, T.__deepcopy__
    _orig["save"] = torch.save

    def numpy(self, *a, **k):
        if _hasshadow(self):
            pol = CUR.numpy_policy
            if pol == "raise":
                raise Unsupported("a symbolic tensor leaves torch through numpy()")
            if pol == "tag":
                tag_tensor(self)
            if pol == "object":
                a = mem.read(self)
                out = np.empty(a.shape, dtype=object)
                for i in np.ndindex(*a.shape):
                    out[i] = SFloat(N._num(a[i]))
                return out
        return _orig["numpy"](self, *a, **k)

    def tolist(self):
        if _hasshadow(self):
            a = mem.read(self)

            def lst(x):
                if x.ndim == 0:
                    return _pyval(x[()], self.dtype)
                return [lst(mem._scalar(y) if isinstance(y, Node) else y) for y in x]
            return lst(a)
        return _orig["tolist"](self)

    def item(self):
        if _hasshadow(self) and self.numel() == 1:
            return _pyval(mem.read(self).ravel()[0], self.dtype, self)
        return _orig["item"](self)

    def deepcopy(self, memo):
        r = _orig["deepcopy"](self, memo)
        if _hasshadow(self) and mem._stor(r) != mem._stor(self):
            mem.write(r, mem.read(self), what="deepcopy")
        return r

    def save(obj, *a, **k):
        if CUR is not None:
            tag_tree(obj, set())
        return _orig["save"](obj, *a, **k)

    T.numpy, T.tolist, T.item, T.__deepcopy__ = numpy, tolist, item, deepcopy
    torch.save = save


def _pyval(n, dtype, t=None):
    if n.k == "c":
        return float(n.a[0]) if dtype.is_floating_point else int(n.a[0])
    if n.b or dtype == torch.bool:
        return CUR.branch(n)
    if not dtype.is_floating_point:
        v = int(n.v)
        CUR.branch(N.eq(n, N.const(v)))
        return v
    if n.k in ("inf", "poison"):
        return n.v
    # the float the program sees is the memory value
    s = SFloat(n)
    if t is not None:
        mem.TAGS.setdefault(float(mem.memvals(t).ravel()[0]), n)
    return s


def tag_tensor(t):
    a = mem.read(t).ravel().tolist()
    v = mem.memvals(t).ravel().tolist()
    for n, x in zip(a, v):
        if n.k not in ("c", "true", "false", "inf", "poison"):
            if isinstance(x, (bool, int)):
                raise Unsupported("integer term written to a file")
            o = mem.TAGS.get(x)
            if o is not None and o is not n and solve.TR[0].canon(o) != solve.TR[0].canon(n):
                raise EngineError("two different terms have the same value")
            mem.TAGS[x] = n


def tag_tree(o, seen):
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, torch.Tensor):
        if _hasshadow(o):
            tag_tensor(o)
    elif isinstance(o, dict):
        for v in o.values():
            tag_tree(v, seen)
    elif isinstance(o, (list, tuple)):
        for v in o:
            tag_tree(v, seen)
    elif isinstance(o, torch.nn.Module):
        for v in list(o.parameters()) + list(o.buffers()):
            tag_tree(v, seen)


# ------------------------------------------------------------------- driver
class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.obligs = 0
        self.checks = 0
        self.cuts = 0
        self.ops = 0
        self.opnames = {}
        self.decomposed = set()
        self.functions = set()
        self.violations = []   # (label, detail, values)
        self.errors = []
        self.truncated = False
        self.witness = 0
        self.randoms = 0
        self.vars = 0
        self.wall = 0.0
        self.stats = {}


def profile_functions(res, f):
    """Which functions of the code under test ran symbolically."""
    seen = res.functions

    def prof(frame, event, arg):
        if event == "call":
            fn = frame.f_code.co_filename
            if "/dattri/" in fn:
                i = fn.rindex("/dattri/")
                seen.add(fn[i + 1:] + ":" + frame.f_code.co_qualname)
    sys.setprofile(prof)
    try:
        return f()
    finally:
        sys.setprofile(None)


def fresh_globals(seed):
    torch.manual_seed(seed)
    np.random.seed(seed)
    random.seed(seed)


def run_sym(harness, params, inputs, seed, res, symbolic_random=True):
    global CUR
    mem.reset()
    solve.reset()
    ops.CHOL.clear()
    e = Engine(inputs, symbolic_random, seed)
    fresh_globals(seed)
    s = Sym(e, True, e.inputs, params)
    CUR = e
    exc = None
    try:
        with M.SymMode(e), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            profile_functions(res, lambda: harness(s, **params))
    except Cut as x:
        exc = "cut"
        e.cutnode = x.node
    except EngineError:
        raise
    except Exception as x:  # noqa: BLE001
        if os.environ.get("SYMX_DEBUG"):
            traceback.print_exc()
        exc = x
        exc_tb = traceback.format_exc()
        exc.symx_tb = exc_tb
    finally:
        CUR = None
    return e, s, exc


def run_concrete(harness, params, values, seed, override=False):
    """Replay on the real code.  Returns list of (label, detail)."""
    fresh_globals(seed)
    s = Sym(None, False, values, params)

    class _E:
        pass
    s.e = _E()
    s.e.seed = seed
    s.e.numpy_policy = "raise"
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with M.ReplayMode(values if override else {}) as m:
                s.e.draws = m.draws
                harness(s, **params)
    except Cut:
        return []
    except EngineError:
        raise
    except Exception as x:  # noqa: BLE001
        return [("exception", f"{type(x).__name__}: {x}", traceback.format_exc())]
    return s.failures


def run_case(name, harness, params, seed=1, max_paths=64, timeout=600.0, qtimeout=30.0, symbolic_random=True):
    install_patches()
    torch.set_default_dtype(torch.float64)
    res = Result(name)
    st0 = solve.STATS = solve.Stats()
    t0 = time.time()
    work = [({}, 0, None)]
    seenpaths = set()
    while work:
        if res.paths >= max_paths or time.time() - t0 > timeout:
            res.truncated = True
            res.errors.append(f"exploration stopped after {res.paths} paths: bound exceeded")
            break
        inputs, start, expect = work.pop()
        try:
            e, s, exc = run_sym(harness, params, inputs, seed, res, symbolic_random)
        except EngineError as x:
            res.errors.append(f"{type(x).__name__}: {x} [{_where(x)}]")
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
            # a broken result may still be visible concretely
            _replay_seed(res, harness, params, inputs, seed, "engine stopped")
            break
        res.paths += 1
        res.ops += e.nops
        res.randoms += e.nrandom
        res.vars = max(res.vars, len(N.VARS))
        res.checks += s.nchecks
        for k, v in e.opcount.items():
            res.opnames[k] = res.opnames.get(k, 0) + v
        res.decomposed |= e.decomposed
        conds = [c for c, _ in e.conds]
        if expect is not None:
            # the run must have followed the decisions it was sent for
            pass
        if exc == "cut":
            res.cuts += 1
            if e.cutnode is not None and e.cutnode is not N.FALSE:
                # the same path, at values that satisfy the assumption
                pre = conds + [e.cutnode]
                key = tuple(_skey(x) for x in pre)
                if key not in seenpaths:
                    seenpaths.add(key)
                    try:
                        r, m = solve.solve_path(pre)
                        if r == "sat":
                            work.append((m, len(conds), None))
                        elif r == "unknown":
                            res.errors.append("assumption: z3 answered unknown")
                    except EngineError as x:
                        res.errors.append(str(x))
        else:
            try:
                w = solve.witness(conds)
                if w != "sat":
                    res.errors.append(f"reachability witness: {w}")
                else:
                    res.witness += 1
                _decide(res, e, s, exc, conds, harness, params, seed, qtimeout)
            except EngineError as x:
                res.errors.append(f"{type(x).__name__}: {x}")
            except solve.Inconclusive as x:
                res.errors.append(f"inconclusive: {x}")
        if res.violations:
            break
        # alternatives of the decisions made on this path
        sig = []
        for i, (c, neg) in enumerate(e.conds):
            if i >= start and neg:
                pre = conds[:i] + [N.not_(c)]
                key = tuple(_skey(x) for x in pre)
                if key not in seenpaths:
                    seenpaths.add(key)
                    try:
                        r, m = solve.solve_path(pre + [c2 for c2, n2 in e.conds[i + 1:] if not n2 and _free(c2)])
                    except EngineError as x:
                        res.errors.append(str(x))
                        continue
                    if r == "sat":
                        work.append((m, i + 1, None))
                    elif r == "unknown":
                        res.errors.append("path feasibility: z3 answered unknown")
        del sig
    res.obligs = st0.oblig
    if res.paths and res.paths == res.cuts and not res.errors and not res.violations:
        res.errors.append("no path satisfies the assumptions: nothing was checked")
    res.stats = st0.d()
    res.wall = time.time() - t0
    return res


def _free(n):
    return True


def _skey(n):
    return solve.TR[0].tr(n).sexpr() if True else n.id


def _where(x):
    tb = traceback.extract_tb(x.__traceback__)
    for f in reversed(tb):
        if "/dattri/" in f.filename and "symx" not in f.filename:
            return f"{f.filename.split('/dattri/')[-1]}:{f.lineno}"
    return ""


def _replay(harness, params, values, seed):
    for override in (False, True):
        f = run_concrete(harness, params, values, seed, override)
        if f:
            return f, override
    return [], False


def _replay_seed(res, harness, params, inputs, seed, why):
    try:
        f, ov = _replay(harness, params, inputs, seed)
    except Exception as x:  # noqa: BLE001
        res.errors.append(f"replay: {type(x).__name__}: {x}")
        return
    if f:
        res.violations.append(dict(label=f[0][0], detail=f[0][1], values=dict(inputs), override=ov,
                                   how="encoding stopped early; the seed point was replayed", all=[list(map(str, x[:2])) for x in f]))


def _decide(res, e, s, exc, conds, harness, params, seed, qtimeout):
    cands = []   # (label, values, why)
    seedvals = {n: x.v for n, x in N.VARS.items()}
    if exc is not None:
        cands.append(("exception", seedvals, f"{type(exc).__name__}: {exc}"))
    else:
        if not e.obligs:
            res.errors.append("harness made no check (vacuous)")
        for label, pairs, struct in e.obligs:
            if pairs is None:
                solve.STATS.oblig += 1
                if struct:
                    cands.append((label, seedvals, struct))
                else:
                    solve.STATS.unsat += 0
                continue
            try:
                r, i, vals = solve.prove_equal(pairs, conds, qtimeout)
            except solve.Inconclusive as x:
                res.errors.append(f"inconclusive [{label}]: {x}")
                continue
            if r == "cex":
                cands.append((label, vals or seedvals, f"entry {i}"))
    for label, vals, why in cands:
        try:
            f, ov = _replay(harness, params, vals, seed)
            if not f and vals is not seedvals:
                f, ov = _replay(harness, params, seedvals, seed)
                if f:
                    vals = seedvals
        except EngineError as x:
            res.errors.append(f"replay: {x}")
            continue
        if f:
            res.violations.append(dict(label=f[0][0], detail=f[0][1], values=vals, override=ov, how=why,
                                       all=[list(map(str, x[:2])) for x in f], tb=f[0][2] if len(f[0]) > 2 else ""))
        else:
            tb = getattr(exc, "symx_tb", "") if exc is not None else ""
            res.errors.append(f"counterexample for [{label}] ({why}) did not reproduce on the real code {tb[-600:]}")
