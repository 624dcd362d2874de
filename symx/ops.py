"""Term-level semantics of the ATen kernels the code under test reaches."""
from __future__ import annotations

import itertools
import math
from fractions import Fraction

import numpy as np
import torch

from . import mem
from . import node as N
from . import solve as S
from .node import EngineError, Node, Unsupported

H: dict = {}


def reg(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


def U(f, n=1):
    return np.frompyfunc(f, n, 1)


def arr(x):
    """Argument (tensor / python scalar / array of terms) as an array of terms."""
    if isinstance(x, torch.Tensor):
        return mem.read(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    if isinstance(x, Node):
        return mem._scalar(x)
    return mem._scalar(sc(x))


def sc(x):
    """Python scalar argument as a term."""
    if isinstance(x, Node):
        return x
    if isinstance(x, bool):
        return N.TRUE if x else N.FALSE
    if isinstance(x, float) and x in mem.TAGS:
        return mem.TAGS[x]
    if isinstance(x, float) and -x in mem.TAGS:
        return N.neg(mem.TAGS[-x])
    if isinstance(x, complex):
        raise Unsupported("complex scalar")
    return N.const(x)


def aa(r):
    """Normalise frompyfunc output (0-d gives a bare object)."""
    if isinstance(r, np.ndarray):
        return r
    a = np.empty((), dtype=object)
    a[()] = r
    return a


_add, _mul, _div = U(N.add, 2), U(N.mul, 2), U(N.div, 2)
_neg = U(N.neg)
_lt, _le, _eq = U(N.lt, 2), U(N.le, 2), U(N.eq, 2)
_not = U(N.not_)
_and, _or = U(N.and_, 2), U(N.or_, 2)
_ite = U(N.ite, 3)
_num = U(N._num)
_tob = U(N.tobool)


def add_(a, b):
    return aa(_add(a, b))


def mul_(a, b):
    return aa(_mul(a, b))


def sub_(a, b):
    return aa(_add(a, _neg(b)))


def div_(a, b):
    return aa(_div(a, b))


def is_int(t):
    return isinstance(t, torch.Tensor) and not t.dtype.is_floating_point and t.dtype != torch.bool


# ------------------------------------------------------------ elementwise
@reg("add")
def h_add(c, x, y, alpha=1):
    if isinstance(x, torch.Tensor) and x.dtype == torch.bool and isinstance(y, torch.Tensor) and y.dtype == torch.bool:
        return aa(_or(arr(x), arr(y)))
    return add_(arr(x), mul_(arr(y), sc(alpha)))


@reg("sub")
def h_sub(c, x, y, alpha=1):
    return sub_(arr(x), mul_(arr(y), sc(alpha)))


@reg("rsub")
def h_rsub(c, x, y, alpha=1):
    return sub_(arr(y), mul_(arr(x), sc(alpha)))


@reg("mul")
def h_mul(c, x, y):
    return mul_(arr(x), arr(y))


@reg("div", "true_divide")
def h_div(c, x, y, rounding_mode=None):
    if rounding_mode is not None:
        raise Unsupported("rounding division")
    return div_(arr(x), arr(y))


@reg("reciprocal")
def h_recip(c, x):
    return div_(N.ONE, arr(x))


@reg("neg")
def h_neg(c, x):
    return aa(_neg(arr(x)))


@reg("square")
def h_square(c, x):
    a = arr(x)
    return mul_(a, a)


@reg("pow")
def h_pow(c, x, e):
    if isinstance(x, torch.Tensor) and not isinstance(e, torch.Tensor):
        a = arr(x)
        ef = float(e)
        if ef == 0.5:
            return aa(U(S.sqrt)(a))
        if ef == -0.5:
            return div_(N.ONE, aa(U(S.sqrt)(a)))
        if ef == int(ef) and abs(ef) <= 8:
            return aa(U(lambda n: N.power(n, int(ef)))(a))
        raise Unsupported(f"pow {e}")
    if isinstance(e, torch.Tensor):
        ea = arr(e)
        if mem.issym(ea):
            raise Unsupported("symbolic exponent")
        return aa(U(lambda b, n: N.power(b, int(n.a[0])), 2)(arr(x), ea))
    raise Unsupported("pow")


def uf1(name, f):
    def g(n):
        n = N._num(n)
        if n.k == "c" and name in ("exp", "tanh", "sin", "expm1", "erf") and n.a[0] == 0:
            return N.const(f(0.0))
        if n.k == "c" and name in ("log",) and n.a[0] == 1:
            return N.ZERO
        if n.k in ("inf", "poison"):
            if name == "exp" and n.k == "inf":
                return N.ZERO if n.v < 0 else n
            return N.POISON
        try:
            v = f(n.v)
        except (ValueError, OverflowError):
            v = float("nan")
        return S.uf(name, n, v)
    return g


UF = {
    "exp": math.exp, "log": lambda x: math.log(x), "tanh": math.tanh,
    "sigmoid": lambda x: 1 / (1 + math.exp(-x)), "erf": math.erf, "sin": math.sin, "cos": math.cos,
    "log1p": math.log1p, "expm1": math.expm1, "log2": math.log2, "log10": math.log10,
    "arccos": math.acos, "acos": math.acos,
}
for _n, _f in UF.items():
    H[_n] = (lambda g: lambda c, x: aa(U(g)(arr(x))))(uf1(_n, _f))

H["sqrt"] = lambda c, x: aa(U(S.sqrt)(arr(x)))
H["rsqrt"] = lambda c, x: div_(N.ONE, aa(U(S.sqrt)(arr(x))))

E_exp = uf1("exp", math.exp)
E_log = uf1("log", math.log)


@reg("log_sigmoid_forward")
def h_lsf(c, x):
    a = arr(x)
    g = uf1("logsigmoid", lambda v: -math.log1p(math.exp(-v)))
    return [aa(U(g)(a)), None]


def n_abs(n):
    n = N._num(n)
    return N.ite(N.lt(n, N.ZERO), N.neg(n), n)


def n_relu(n):
    return N.ite(N.lt(N.ZERO, n), n, N.ZERO)


def n_max(a, b):
    return N.ite(N.lt(a, b), b, a)


def n_min(a, b):
    return N.ite(N.lt(b, a), b, a)


H["abs"] = lambda c, x: aa(U(n_abs)(arr(x)))
H["relu"] = lambda c, x: aa(U(n_relu)(arr(x)))
H["sign"] = H["sgn"] = lambda c, x: aa(U(lambda n: N.ite(N.lt(N.ZERO, n), N.ONE, N.ite(N.lt(n, N.ZERO), N.const(-1), N.ZERO)))(arr(x)))


@reg("threshold")
def h_thr(c, x, t, v):
    tt, vv = sc(t), sc(v)
    return aa(U(lambda n: N.ite(N.lt(tt, n), n, vv))(arr(x)))


@reg("threshold_backward")
def h_thrb(c, g, x, t):
    tt = sc(t)
    return aa(U(lambda a, n: N.ite(N.lt(tt, n), a, N.ZERO), 2)(arr(g), arr(x)))


@reg("maximum", "fmax")
def h_maximum(c, x, y):
    return aa(U(n_max, 2)(arr(x), arr(y)))


@reg("minimum", "fmin")
def h_minimum(c, x, y):
    return aa(U(n_min, 2)(arr(x), arr(y)))


@reg("clamp")
def h_clamp(c, x, min=None, max=None):
    a = arr(x)
    if min is not None:
        a = aa(U(n_max, 2)(a, arr(min)))
    if max is not None:
        a = aa(U(n_min, 2)(a, arr(max)))
    return a


@reg("clamp_min")
def h_cmin(c, x, m):
    return aa(U(n_max, 2)(arr(x), arr(m)))


@reg("clamp_max")
def h_cmax(c, x, m):
    return aa(U(n_min, 2)(arr(x), arr(m)))


@reg("where")
def h_where(c, cond, x=None, y=None):
    if x is None:
        raise Unsupported("where(cond)")
    return aa(_ite(_tob(arr(cond)), arr(x), arr(y)))


@reg("masked_fill")
def h_mfill(c, x, mask, v):
    return aa(_ite(_tob(arr(mask)), arr(v), arr(x)))


def _cmp(f):
    return lambda c, x, y: aa(f(arr(x), arr(y)))


H["lt"] = _cmp(lambda a, b: _lt(a, b))
H["le"] = _cmp(lambda a, b: _le(a, b))
H["gt"] = _cmp(lambda a, b: _lt(b, a))
H["ge"] = _cmp(lambda a, b: _le(b, a))
H["eq"] = _cmp(lambda a, b: _eq(a, b))
H["ne"] = _cmp(lambda a, b: _not(_eq(a, b)))
H["logical_not"] = lambda c, x: aa(_not(arr(x)))
H["logical_and"] = _cmp(lambda a, b: _and(a, b))
H["logical_or"] = _cmp(lambda a, b: _or(a, b))
H["logical_xor"] = _cmp(lambda a, b: U(lambda p, q: N.not_(N.eq(N.tobool(p), N.tobool(q))), 2)(a, b))
H["isnan"] = lambda c, x: aa(U(lambda n: N.TRUE if n.k == "poison" else N.FALSE)(arr(x)))
H["isinf"] = lambda c, x: aa(U(lambda n: N.TRUE if n.k == "inf" else N.FALSE)(arr(x)))
H["isfinite"] = lambda c, x: aa(U(lambda n: N.FALSE if n.k in ("inf", "poison") else N.TRUE)(arr(x)))


def _boolonly(f, name):
    def h(c, x, y=None):
        if isinstance(x, torch.Tensor) and x.dtype != torch.bool:
            raise Unsupported(name + " on integers")
        return aa(f(arr(x), arr(y))) if y is not None else aa(f(arr(x)))
    return h


H["bitwise_and"] = H["__and__"] = _boolonly(lambda a, b: _and(a, b), "bitwise_and")
H["bitwise_or"] = H["__or__"] = _boolonly(lambda a, b: _or(a, b), "bitwise_or")
H["bitwise_not"] = _boolonly(lambda a: _not(a), "bitwise_not")


@reg("nan_to_num")
def h_ntn(c, x, nan=None, posinf=None, neginf=None):
    def f(n):
        if n.k == "poison":
            return N.const(0.0 if nan is None else nan)
        if n.k == "inf":
            raise Unsupported("nan_to_num of inf")
        return n
    return aa(U(f)(arr(x)))


@reg("addcmul")
def h_addcmul(c, x, a, b, value=1):
    return add_(arr(x), mul_(mul_(arr(a), arr(b)), sc(value)))


@reg("addcdiv")
def h_addcdiv(c, x, a, b, value=1):
    return add_(arr(x), mul_(div_(arr(a), arr(b)), sc(value)))


@reg("lerp")
def h_lerp(c, x, y, w):
    a, b = arr(x), arr(y)
    return add_(a, mul_(arr(w), sub_(b, a)))


@reg("sigmoid_backward")
def h_sb(c, g, o):
    a, b = arr(g), arr(o)
    return mul_(a, mul_(b, sub_(N.ONE, b)))


@reg("tanh_backward")
def h_tb(c, g, o):
    a, b = arr(g), arr(o)
    return mul_(a, sub_(N.ONE, mul_(b, b)))


# ------------------------------------------------------------- reductions
def _dims(x, dim):
    nd = x.ndim
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(nd))
    if isinstance(dim, int):
        dim = (dim,)
    return tuple(sorted({d % nd if nd else 0 for d in dim})) if nd else ()


def reduce(a, dims, keep, f):
    if a.ndim == 0:
        r = mem._scalar(f([a[()]]))
        return r
    rest = [d for d in range(a.ndim) if d not in dims]
    b = np.transpose(a, rest + list(dims)).reshape([a.shape[d] for d in rest] + [-1])
    out = np.empty(b.shape[:-1], dtype=object)
    if b.ndim == 1:
        out = mem._scalar(f(b.tolist()))
    else:
        for idx in np.ndindex(*b.shape[:-1]):
            out[idx] = f(list(b[idx]))
    if keep:
        out = out.reshape([1 if d in dims else a.shape[d] for d in range(a.ndim)])
    return out


@reg("sum", "nansum")
def h_sum(c, x, dim=None, keepdim=False, dtype=None):
    a = aa(_num(arr(x)))
    return reduce(a, _dims(a, dim), keepdim, N.nsum)


@reg("mean")
def h_mean(c, x, dim=None, keepdim=False, dtype=None):
    a = arr(x)
    return reduce(a, _dims(a, dim), keepdim, lambda l: N.div(N.nsum(l), N.const(len(l))))


def nprod(l):
    r = N.ONE
    for x in l:
        r = N.mul(r, x)
    return r


@reg("prod")
def h_prod(c, x, dim=None, keepdim=False, dtype=None):
    a = arr(x)
    return reduce(a, _dims(a, dim), keepdim, nprod)


def nvar(l, corr):
    m = N.div(N.nsum(l), N.const(len(l)))
    return N.div(N.nsum([N.mul(N.add(x, N.neg(m)), N.add(x, N.neg(m))) for x in l]), N.const(len(l) - corr))


@reg("var")
def h_var(c, x, dim=None, correction=None, keepdim=False, unbiased=None):
    a = arr(x)
    if isinstance(dim, bool):
        dim, unbiased = None, dim
    corr = 1 if correction is None else int(correction)
    if unbiased is not None:
        corr = int(unbiased)
    return reduce(a, _dims(a, dim), keepdim, lambda l: nvar(l, corr))


@reg("std")
def h_std(c, x, dim=None, correction=None, keepdim=False, unbiased=None):
    return aa(U(S.sqrt)(h_var(c, x, dim, correction=correction, keepdim=keepdim, unbiased=unbiased)))


def norm_list(l, p):
    if p == 2:
        return S.sqrt(N.nsum([N.mul(x, x) for x in l]))
    if p == 1:
        return N.nsum([n_abs(x) for x in l])
    if p == float("inf"):
        r = n_abs(l[0])
        for x in l[1:]:
            r = n_max(r, n_abs(x))
        return r
    raise Unsupported(f"norm {p}")


@reg("linalg_vector_norm")
def h_lvn(c, x, ord=2, dim=None, keepdim=False, dtype=None):
    a = arr(x)
    return reduce(a, _dims(a, dim), keepdim, lambda l: norm_list(l, ord))


@reg("_cdist_forward")
def h_cdist(c, x, y, p=2.0, compute_mode=None):
    a, b = aa(arr(x)), aa(arr(y))
    if a.ndim != 2:
        raise Unsupported("cdist of a batch")
    out = np.empty((a.shape[0], b.shape[0]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[0]):
            out[i, j] = norm_list([N.sub(u, v) for u, v in zip(a[i], b[j])], p)
    return out


@reg("norm")
def h_norm(c, x, p=2, dim=None, keepdim=False, dtype=None):
    a = arr(x)
    return reduce(a, _dims(a, dim), keepdim, lambda l: norm_list(l, 2 if p is None else p))


def _nall(l):
    r = N.TRUE
    for x in l:
        r = N.and_(r, x)
    return r


def _nany(l):
    r = N.FALSE
    for x in l:
        r = N.or_(r, x)
    return r


@reg("all")
def h_all(c, x, dim=None, keepdim=False):
    a = aa(_tob(arr(x)))
    return reduce(a, _dims(a, dim), keepdim, _nall)


@reg("any")
def h_any(c, x, dim=None, keepdim=False):
    a = aa(_tob(arr(x)))
    return reduce(a, _dims(a, dim), keepdim, _nany)


def fold(f):
    def g(l):
        r = l[0]
        for x in l[1:]:
            r = f(r, x)
        return r
    return g


@reg("amax")
def h_amax(c, x, dim=None, keepdim=False):
    a = arr(x)
    return reduce(a, _dims(a, dim), keepdim, fold(n_max))


@reg("amin")
def h_amin(c, x, dim=None, keepdim=False):
    a = arr(x)
    return reduce(a, _dims(a, dim), keepdim, fold(n_min))


@reg("cumsum")
def h_cumsum(c, x, dim, dtype=None):
    a = aa(_num(arr(x)))
    if a.ndim == 0:
        return a
    out = a.copy()
    o = np.moveaxis(out, dim, 0)
    for i in range(1, o.shape[0]):
        o[i] = _add(o[i - 1], o[i])
    return out


@reg("count_nonzero")
def h_cnz(c, x, dim=None):
    a = aa(_num(_tob(arr(x))))
    return reduce(a, _dims(a, dim), False, N.nsum)


# ------------------------------------------------------------- matrices
def matmul(a, b):
    """a: (..., n, k), b: (..., k, m)"""
    sh = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    n, k, m = a.shape[-2], a.shape[-1], b.shape[-1]
    a = np.broadcast_to(a, sh + (n, k))
    b = np.broadcast_to(b, sh + (k, m))
    out = np.empty(sh + (n, m), dtype=object)
    for p in np.ndindex(*sh):
        A, B = a[p], b[p]
        for i in range(n):
            for j in range(m):
                out[p + (i, j)] = N.nsum([N.mul(A[i, t], B[t, j]) for t in range(k)])
    return out


@reg("mm", "bmm")
def h_mm(c, x, y):
    return matmul(arr(x), arr(y))


@reg("mv")
def h_mv(c, x, y):
    return matmul(arr(x), arr(y)[:, None])[:, 0]


@reg("dot", "vdot")
def h_dot(c, x, y):
    a, b = arr(x), arr(y)
    return mem._scalar(N.nsum([N.mul(p, q) for p, q in zip(a, b)]))


@reg("addmm", "baddbmm")
def h_addmm(c, i, x, y, beta=1, alpha=1):
    return add_(mul_(arr(i), sc(beta)), mul_(matmul(arr(x), arr(y)), sc(alpha)))


@reg("addmv")
def h_addmv(c, i, x, y, beta=1, alpha=1):
    return add_(mul_(arr(i), sc(beta)), mul_(h_mv(c, x, y), sc(alpha)))


@reg("addr")
def h_addr(c, i, x, y, beta=1, alpha=1):
    return add_(mul_(arr(i), sc(beta)), mul_(mul_(arr(x)[:, None], arr(y)[None, :]), sc(alpha)))


@reg("linear")
def h_linear(c, x, w, b=None):
    a, ww = arr(x), arr(w)
    out = matmul(a.reshape(-1, a.shape[-1]), ww.T).reshape(a.shape[:-1] + (ww.shape[0],))
    return out if b is None else add_(out, arr(b))


def _inv_batch(a, real):
    sh = a.shape[:-2]
    out = np.empty(a.shape, dtype=object)
    for p in np.ndindex(*sh):
        n = a.shape[-1]
        V = np.array([[x.v for x in r] for r in a[p]], dtype=float)
        vi = np.linalg.inv(V)
        M = S.inverse([list(r) for r in a[p]], vi.tolist())
        for i in range(n):
            for j in range(n):
                out[p + (i, j)] = M[i][j]
    return out


@reg("linalg_inv_ex")
def h_inv(c, A, check_errors=False):
    return [_inv_batch(arr(A), c.real[0]), None]


H["linalg_inv"] = lambda c, A: _inv_batch(arr(A), None)
H["inverse"] = H["linalg_inv"]


@reg("_linalg_solve_ex")
def h_solve(c, A, B, left=True, check_errors=False):
    a, b = arr(A), arr(B)
    Mi = _inv_batch(a, None)
    vec = b.ndim == 1 or (a.ndim - 1 == b.ndim and b.shape == a.shape[:-1])
    if vec:
        b = b[..., None]
    r = matmul(Mi, b) if left else matmul(b, Mi)
    if vec:
        r = r[..., 0]
    return [r, None, None, None]


@reg("linalg_cholesky_ex")
def h_chol(c, A, upper=False, check_errors=False):
    """L with L L^T = A: closed form (sqrt atoms), lower triangle of A."""
    a = arr(A)
    n = a.shape[-1]
    out = np.empty(a.shape, dtype=object)
    for p in np.ndindex(*a.shape[:-2]):
        L = [[N.ZERO] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                s = N.nsum([N.mul(L[i][t], L[j][t]) for t in range(j)])
                d = N.add(a[p + (i, j)], N.neg(s))
                L[i][j] = S.sqrt(d) if i == j else N.div(d, L[j][j])
        for i in range(n):
            for j in range(n):
                out[p + (i, j)] = L[j][i] if upper else L[i][j]
                # remember the factored matrix for cholesky_inverse / cholesky_solve
        CHOL[tuple(L[i][j].id for i in range(n) for j in range(n))] = [[a[p + (max(i, j), min(i, j))] for j in range(n)] for i in range(n)]
    return [out, None]


CHOL: dict = {}


def _chol_src(M, upper):
    n = M.shape[-1]
    L = M.T if upper else M
    A = CHOL.get(tuple(x.id for x in L.ravel().tolist()))
    if A is None:
        A = [[N.nsum([N.mul(L[i][t], L[j][t]) for t in range(min(i, j) + 1)]) for j in range(n)] for i in range(n)]
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = A[i][j]
    return out


@reg("cholesky_inverse")
def h_chinv(c, L, upper=False):
    l = arr(L)
    out = np.empty(l.shape, dtype=object)
    for p in np.ndindex(*l.shape[:-2]):
        out[p] = _inv_batch(_chol_src(l[p], upper), None)
    return out


@reg("cholesky_solve")
def h_chsolve(c, B, L, upper=False):
    b, l = arr(B), arr(L)
    if l.ndim != 2:
        raise Unsupported("batched cholesky_solve")
    return matmul(_inv_batch(_chol_src(l, upper), None), b)


@reg("linalg_eigh", "_linalg_eigh")
def h_eigh(c, A, UPLO="L", compute_v=True):
    return c.engine.eigh(arr(A), c.real)


@reg("trace")
def h_trace(c, A):
    a = arr(A)
    return mem._scalar(N.nsum([a[i, i] for i in range(min(a.shape))]))


# ---------------------------------------------------------- softmax & losses
def _lse(l):
    if any(x.k in ("inf", "poison") for x in l):
        l = [x for x in l if not (x.k == "inf" and x.v < 0)]
        if any(x.k in ("inf", "poison") for x in l):
            raise Unsupported("softmax of +inf / nan")
    if len(l) == 1:
        return l[0]
    m = max(x.v for x in l)
    v = m + math.log(sum(math.exp(x.v - m) for x in l))
    l = sorted(l, key=lambda x: S.TR[0].canon(x))
    return S.atom("lse", l, [v])[0]


@reg("_log_softmax", "log_softmax", "_safe_softmax_log")
def h_lsm(c, x, dim, *rest, **kw):
    a = arr(x)
    l = reduce(a, _dims(a, dim), True, _lse)
    return sub_(a, l)


@reg("_softmax", "softmax")
def h_sm(c, x, dim, *rest, **kw):
    return aa(U(E_exp)(h_lsm(c, x, dim)))


@reg("_log_softmax_backward_data")
def h_lsmb(c, g, o, dim, dt=None):
    G, O = arr(g), arr(o)
    s = reduce(G, _dims(G, dim), True, N.nsum)
    return sub_(G, mul_(aa(U(E_exp)(O)), s))


@reg("_softmax_backward_data")
def h_smb(c, g, o, dim, dt=None):
    G, O = arr(g), arr(o)
    s = reduce(mul_(G, O), _dims(G, dim), True, N.nsum)
    return mul_(O, sub_(G, s))


@reg("logsumexp")
def h_lseop(c, x, dim, keepdim=False):
    a = arr(x)
    return reduce(a, _dims(a, dim), keepdim, _lse)


@reg("nll_loss_forward")
def h_nll(c, x, target, weight, reduction, ignore_index):
    a = arr(x)
    t = mem.read(target)
    if mem.issym(t):
        raise Unsupported("symbolic labels")
    t = mem.memvals(target)
    w = None if weight is None else arr(weight)
    one = a.ndim == 1
    if one:
        a, t = a[None], np.array([int(t)])
    ws = [N.ZERO if int(k) == ignore_index else (N.ONE if w is None else w[int(k)]) for k in t.tolist()]
    ls = [N.ZERO if int(k) == ignore_index else N.neg(N.mul(ws[i], a[i, int(k)])) for i, k in enumerate(t.tolist())]
    tot = N.nsum(ws)
    if reduction == 0:
        if one:
            return [mem._scalar(ls[0]), mem._scalar(N.ZERO) if False else None]
        o = np.empty(len(ls), dtype=object)
        o[:] = ls
        return [o, None]
    s = N.nsum(ls)
    if reduction == 1:
        s = N.div(s, tot)
    return [mem._scalar(s), mem._scalar(tot)]


@reg("nll_loss_backward")
def h_nllb(c, g, x, target, weight, reduction, ignore_index, total_weight):
    a = arr(x)
    G = arr(g)
    t = mem.memvals(target)
    w = None if weight is None else arr(weight)
    one = a.ndim == 1
    if one:
        a, t = a[None], np.array([int(t)])
        if reduction == 0:
            G = G.reshape(1)
    out = np.full(a.shape, N.ZERO, dtype=object)
    ws = [N.ZERO if int(k) == ignore_index else (N.ONE if w is None else w[int(k)]) for k in t.tolist()]
    tot = N.nsum(ws)
    for i, k in enumerate(t.tolist()):
        if int(k) == ignore_index:
            continue
        gi = G[i] if reduction == 0 else G[()] if G.ndim == 0 else G.ravel()[0]
        v = N.neg(N.mul(ws[i], gi))
        if reduction == 1:
            v = N.div(v, tot)
        out[i, int(k)] = v
    return out[0] if one else out


@reg("mse_loss")
def h_mse(c, x, y, reduction=1):
    d = sub_(arr(x), arr(y))
    d = mul_(d, d)
    l = d.ravel().tolist()
    if reduction == 0:
        return d
    s = N.nsum(l)
    return mem._scalar(N.div(s, N.const(len(l))) if reduction == 1 else s)


@reg("mse_loss_backward")
def h_mseb(c, g, x, y, reduction):
    d = sub_(arr(x), arr(y))
    f = N.const(2) if reduction != 1 else N.const(Fraction(2, max(1, d.size)))
    return mul_(mul_(d, f), arr(g))


# ---------------------------------------------------------- conversions
@reg("_to_copy", "to", "clone_dtype")
def h_tocopy(c, x, dtype=None, **kw):
    return conv(arr(x), x.dtype, dtype if dtype is not None else x.dtype)


def conv(a, src, dst):
    if dst == torch.bool:
        return aa(_tob(a))
    if dst.is_floating_point:
        return aa(_num(a))
    if src.is_floating_point:
        def f(n):
            if n.k == "c":
                return N.const(int(n.a[0]))
            # a 0/1-valued term stays itself
            if n.k == "ite" and all(y.k == "c" and y.a[0].denominator == 1 for y in n.a[1:]):
                return n
            raise Unsupported("float to integer conversion of a symbolic value")
        return aa(U(f)(a))
    return aa(_num(a))


@reg("copy", "copy_")
def h_copy(c, dst, src, non_blocking=False):
    return conv(np.broadcast_to(arr(src), tuple(dst.shape)), src.dtype, dst.dtype)


@reg("fill", "fill_")
def h_fill(c, x, v):
    return np.broadcast_to(arr(v), tuple(x.shape))


@reg("full", "new_full", "full_like")
def h_full(c, *a, **k):
    # only the fill value can be symbolic
    v = k.get("fill_value", None)
    if v is None:
        v = a[1] if not isinstance(a[0], torch.Tensor) or c.name == "full_like" else a[2]
    return np.broadcast_to(arr(v), tuple(c.real.shape))


@reg("scalar_tensor")
def h_scalar_tensor(c, v, **k):
    return arr(v)


@reg("zeros_like", "new_zeros", "_new_zeros_with_same_feature_meta", "zero_", "zero")
def h_zeros(c, *a, **k):
    return np.broadcast_to(mem._scalar(N.ZERO), tuple(c.real.shape))


@reg("ones_like", "new_ones")
def h_ones(c, *a, **k):
    return np.broadcast_to(mem._scalar(N.ONE), tuple(c.real.shape))


# ---------------------------------------------------------- accumulation by index
@reg("index_add")
def h_index_add(c, x, dim, index, source, alpha=1):
    a, s = arr(x).copy(), arr(source)
    am, sm = np.moveaxis(a, dim, 0), np.moveaxis(s, dim, 0)
    if mem.shadowed(index):
        raise Unsupported("symbolic index")
    for j, i in enumerate(mem.memvals(index).ravel().tolist()):
        am[i] = _add(am[i], _mul(sm[j], sc(alpha)))
    return a


@reg("scatter_add")
def h_scatter_add(c, x, dim, index, src):
    a, s, ix = arr(x).copy(), arr(src), mem.memvals(index)
    for p in np.ndindex(*ix.shape):
        q = list(p)
        q[dim] = int(ix[p])
        a[tuple(q)] = N.add(a[tuple(q)], s[p])
    return a


@reg("index_put", "_index_put_impl", "_unsafe_index_put")
def h_index_put(c, x, indices, values, accumulate=False, unsafe=False):
    a = arr(x).copy()
    ix = []
    for i in indices:
        if i is None:
            ix.append(slice(None))
            continue
        if i.dtype == torch.bool:
            c.engine.concretise_bools(mem.read(i))
        elif mem.shadowed(i):
            raise Unsupported("symbolic index")
        ix.append(mem.memvals(i))
    v = arr(values)
    ids = np.arange(a.size).reshape(a.shape)[tuple(ix)]
    v = np.broadcast_to(v, ids.shape).ravel()
    fl = a.reshape(-1)
    for k, i in enumerate(ids.ravel().tolist()):
        fl[i] = N.add(fl[i], v[k]) if accumulate else v[k]
    return fl.reshape(a.shape)


# ---------------------------------------------------------- ordering (forks)
def _order(c, l, descending=False):
    """Stable concrete order of the list of terms on this path; the comparisons
    between neighbours become path conditions (ties are cut by an assumption)."""
    idx = sorted(range(len(l)), key=lambda i: l[i].v, reverse=descending)
    for p, q in zip(idx, idx[1:]):
        a, b = (l[q], l[p]) if descending else (l[p], l[q])
        c.engine.branch_order(a, b)
    return idx


@reg("sort")
def h_sort(c, x, dim=-1, descending=False, stable=None):
    a = arr(x)
    vals = a.copy()
    real_idx = mem.memvals(c.real[1])
    am, vm, im = np.moveaxis(a, dim, -1), np.moveaxis(vals, dim, -1), np.moveaxis(real_idx, dim, -1)
    for p in np.ndindex(*am.shape[:-1]):
        l = list(am[p])
        idx = im[p].tolist()
        for s, t in zip(idx, idx[1:]):
            u, v = (l[t], l[s]) if descending else (l[s], l[t])
            c.engine.branch_order(u, v)
        for k, i in enumerate(idx):
            vm[p + (k,)] = l[i]
    return [vals, None]


@reg("argsort")
def h_argsort(c, x, dim=-1, descending=False, **k):
    a = arr(x)
    im = np.moveaxis(mem.memvals(c.real), dim, -1)
    am = np.moveaxis(a, dim, -1)
    for p in np.ndindex(*am.shape[:-1]):
        l = list(am[p])
        idx = im[p].tolist()
        for s, t in zip(idx, idx[1:]):
            u, v = (l[t], l[s]) if descending else (l[s], l[t])
            c.engine.branch_order(u, v)
    return None


@reg("topk")
def h_topk(c, x, k, dim=-1, largest=True, sorted=True):
    a = arr(x)
    im = np.moveaxis(mem.memvals(c.real[1]), dim, -1)
    am = np.moveaxis(a, dim, -1)
    vals = np.empty(im.shape, dtype=object)
    for p in np.ndindex(*am.shape[:-1]):
        l = list(am[p])
        idx = im[p].tolist()
        rest = [i for i in range(len(l)) if i not in idx]
        for s, t in zip(idx, idx[1:]):
            u, v = (l[t], l[s]) if largest else (l[s], l[t])
            c.engine.branch_order(u, v)
        if idx:
            for r in rest:
                u, v = (l[r], l[idx[-1]]) if largest else (l[idx[-1]], l[r])
                c.engine.branch_order(u, v)
        for q, i in enumerate(idx):
            vals[p + (q,)] = l[i]
    return [np.moveaxis(vals, -1, dim), None]


def _extreme(largest):
    def h(c, x, dim=None, keepdim=False):
        a = arr(x)
        if dim is None:
            return mem._scalar(fold(n_max if largest else n_min)(a.ravel().tolist()))
        if isinstance(dim, torch.Tensor):
            return aa(U(n_max if largest else n_min, 2)(a, arr(dim)))
        im = mem.memvals(c.real[1])
        if not keepdim:
            im = np.expand_dims(im, dim)
        am, imm = np.moveaxis(a, dim, -1), np.moveaxis(im, dim, -1)
        vals = np.empty(imm.shape, dtype=object)
        for p in np.ndindex(*am.shape[:-1]):
            l = list(am[p])
            i = int(imm[p][0])
            for j in range(len(l)):
                if j != i:
                    u, v = (l[j], l[i]) if largest else (l[i], l[j])
                    c.engine.branch_order(u, v)
            vals[p + (0,)] = l[i]
        vals = np.moveaxis(vals, -1, dim)
        return [vals if keepdim else np.squeeze(vals, dim), None]
    return h


H["max"] = _extreme(True)
H["min"] = _extreme(False)


def _argext(largest):
    def h(c, x, dim=None, keepdim=False):
        a = arr(x)
        if dim is None:
            am, im = a.reshape(-1), np.asarray(mem.memvals(c.real)).reshape(-1)
        else:
            am = np.moveaxis(a, dim, -1)
            im = mem.memvals(c.real)
            if keepdim:
                im = np.squeeze(im, dim)
        for p in np.ndindex(*am.shape[:-1]):
            l = list(am[p])
            i = int(im[p]) if dim is not None else int(im[0])
            for j in range(len(l)):
                if j != i:
                    u, v = (l[j], l[i]) if largest else (l[i], l[j])
                    c.engine.branch_order(u, v)
        return None
    return h


H["argmax"] = _argext(True)
H["argmin"] = _argext(False)


# ---------------------------------------------------------- data movement
MOVE = {
    "index", "_unsafe_index", "index_select", "gather", "cat", "stack", "hstack", "vstack", "flip", "roll", "repeat",
    "constant_pad_nd", "clone", "contiguous", "select_scatter", "slice_scatter", "diagonal_scatter", "as_strided_scatter",
    "select_backward", "slice_backward", "diagonal_backward", "unfold_backward", "tril", "triu", "diag", "diag_embed",
    "unfold", "im2col", "masked_select", "repeat_interleave", "expand_copy", "view_copy", "permute_copy", "squeeze_copy",
    "unsqueeze_copy", "t_copy", "transpose_copy", "detach_copy", "alias_copy", "as_strided_copy", "select_copy",
    "slice_copy", "scatter", "_reshape_copy", "reshape", "flatten", "take", "rot90", "channel_shuffle", "index_copy",
    "block_diag", "lift", "lift_fresh_copy", "split_copy", "unbind_copy", "narrow_copy", "_unsafe_view",
    "take_along_dim", "embedding", "pixel_shuffle", "masked_scatter", "resize_", "set_",
    "split_with_sizes_copy", "_trilinear_never", "concatenate",
}
# arguments (by name) of MOVE operators that are selectors, not data
SELECTORS = {"index", "indices", "mask", "repeats"}


def _batch_norm(c, x, weight, bias, rm, rv, training, eps):
    if training or rm is None or rv is None:
        raise Unsupported("batch normalisation with batch statistics")
    a = arr(x)
    sh = (1, -1) + (1,) * (a.ndim - 2)
    r = div_(sub_(a, arr(rm).reshape(sh)), aa(U(S.sqrt)(add_(arr(rv), N.const(eps)))).reshape(sh))
    if weight is not None:
        r = mul_(r, arr(weight).reshape(sh))
    if bias is not None:
        r = add_(r, arr(bias).reshape(sh))
    return [r, None, None]


@reg("native_batch_norm", "_native_batch_norm_legit")
def h_batch_norm(c, x, weight, bias, running_mean, running_var, training, momentum, eps):
    return _batch_norm(c, x, weight, bias, running_mean, running_var, training, eps)


@reg("_native_batch_norm_legit_no_training")
def h_batch_norm_eval(c, x, weight, bias, running_mean, running_var, momentum, eps):
    return _batch_norm(c, x, weight, bias, running_mean, running_var, False, eps)


@reg("native_batch_norm_backward")
def h_batch_norm_backward(c, g, x, weight, running_mean, running_var, save_mean, save_invstd, train, eps, mask):
    if train:
        raise Unsupported("batch normalisation with batch statistics")
    a = arr(x)
    sh = (1, -1) + (1,) * (a.ndim - 2)
    ax = tuple(i for i in range(a.ndim) if i != 1)
    gg, inv = arr(g), div_(N.ONE, aa(U(S.sqrt)(add_(arr(running_var), N.const(eps)))))
    out = [None, None, None]
    if mask[0]:
        r = mul_(gg, inv.reshape(sh))
        out[0] = r if weight is None else mul_(r, arr(weight).reshape(sh))
    if mask[1]:
        z = mul_(mul_(sub_(a, arr(running_mean).reshape(sh)), inv.reshape(sh)), gg)
        out[1] = _sumover(z, ax)
    if mask[2]:
        out[2] = _sumover(gg, ax)
    return out


def _sumover(z, ax):
    m = np.moveaxis(z, 1, 0).reshape(z.shape[1], -1)
    o = np.empty(m.shape[0], dtype=object)
    for i in range(m.shape[0]):
        o[i] = N.nsum(m[i].tolist())
    return o
