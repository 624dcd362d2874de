"""C06: explicit and conjugate-gradient inverse Hessian-vector products."""
import torch

from dattri.func.hessian import ihvp_at_x_cg, ihvp_at_x_explicit, ihvp_cg, ihvp_explicit

from .c05 import Cubic
from .common import *  # noqa: F403

BOUNDS = ("1-3 parameters, 1-3 vectors, differentiation argument 0..1; every cubic function and point (explicit); CG: every 1x1 Hessian and every symmetric 2x2 Hessian (fixed vectors), "
          "fixed 2x2 Hessians (every vector), a 3x3 Hessian with a repeated eigenvalue (one symbolic entry), multiples of the identity, "
          "iterations = number of parameters and more; all real regularisation values")
ASSUMPTIONS = ["explicit: the damped Hessian is invertible (its determinant is a non-zero denominator)",
               "CG: on symbolic Hessians the residual is not zero before the last iteration (the cases 'cg-converged*' cover residuals that vanish early)"]
CASES = []


class Quadratic:
    """Quadratic with a given symmetric Hessian."""

    def __init__(self, H, b=None):
        self.H, self.b = H, b

    def __call__(self, x, *more):
        r = 0.5 * (x @ (self.H @ x))
        if self.b is not None:
            r = r + self.b @ x
        for m in more:
            r = r + (m * m).sum() * x[0]
        return r


def eq_solution(S, H, out, V, label):
    """H @ out_i == v_i"""
    S.check((H @ out.reshape(V.shape).T).T if V.ndim > 1 else H @ out.reshape(-1), V, label)


def explicit(S, dims=(2,), arg=0, rows_=2, reg="sym", flat=False, expo=False, two=False):
    f = Cubic(S, dims, expo=expo)
    xs = tuple(S.tensor(f"x{i}", d) for i, d in enumerate(dims))
    lam = S.scalar("lam") if reg == "sym" else reg
    H = f.block(arg, *xs) + lam * torch.eye(dims[arg])
    V = S.tensor("V", dims[arg]) if flat else S.tensor("V", rows_, dims[arg])
    kw = {**unless_default(arg, 0, "argnums"), **unless_default(lam, 0.0, "regularization")}
    fn, at = ihvp_explicit(f, **kw), ihvp_at_x_explicit(f, *xs, **kw)
    a, b = fn(xs, V), at(V)
    S.check_true(tuple(a.shape) == tuple(V.shape) and tuple(b.shape) == tuple(V.shape), "shape")
    inv = torch.linalg.inv(H)
    S.check(a, (inv @ V.T).T if not flat else inv @ V, "ihvp_explicit")
    S.check(b, (inv @ V.T).T if not flat else inv @ V, "ihvp_at_x_explicit")
    if dims[arg] < 3 and not expo and len(dims) == 1:
        eq_solution(S, H, a, V, "damped Hessian times result")
    if two:
        U = S.tensor("U", 1, dims[arg])
        S.check(at(U), (inv @ U.T).T, "fixed point, other vectors")
        ys = tuple(S.tensor(f"y{i}", d) for i, d in enumerate(dims))
        Hy = f.block(arg, *ys) + lam * torch.eye(dims[arg])
        S.check(fn(ys, U), (torch.linalg.inv(Hy) @ U.T).T, "other point")
        for x, y in zip(xs, ys):
            y.copy_(x)
        S.check(fn(ys, U), (inv @ U.T).T, "after the point was written to")


def symm(S, p, kind):
    if kind == "sym":
        m = S.tensor("H", p * (p + 1) // 2)
        H, k = [[None] * p for _ in range(p)], 0
        for i in range(p):
            for j in range(i + 1):
                H[i][j] = H[j][i] = m[k]
                k += 1
        return torch.stack([torch.stack(r) for r in H])
    if kind == "diag":
        return torch.diag(S.tensor("h", p, lo=0.5, hi=3.0))
    B = torch.tensor([[2.0, 0.5, 0.0], [0.5, 1.0, -0.25], [0.0, -0.25, 3.0]])[:p, :p]
    if kind == "fixed":
        return B
    if kind == "two":  # two distinct eigenvalues
        return torch.diag(torch.tensor([2.0, 2.0, 1.0]))
    if kind == "eye2":
        return 2.0 * torch.eye(p)
    if kind == "eye3":
        return 3.75 * torch.eye(p)
    raise ValueError(kind)


def cg(S, p=2, kind="sym", rows_=1, extra=0, mode="rev-rev", reg="sym", flat=False, other=False, at=True, whole=True, vec=None, symvec=False):
    A = symm(S, p, kind)
    f = Quadratic(A, S.tensor("b", p))
    x = S.tensor("x", p)
    more = (S.tensor("m", 1),) if other else ()
    if vec is not None:
        V = torch.tensor(vec)
        if symvec:  # one symbolic entry
            V = torch.stack([torch.cat([S.tensor("v", 1), V[0][1:]]), *V[1:]])
    lam = S.scalar("lam", lo=0.25, hi=1.0) if reg == "sym" else reg
    H = A + lam * torch.eye(p)
    if vec is None:
        V = S.tensor("V", p) if flat else S.tensor("V", rows_, p)
    kw = dict(max_iter=p + extra, **unless_default(mode, "rev-rev", "mode"), **unless_default(lam, 0.0, "regularization"))
    outs = []
    if whole:
        outs.append(("ihvp_cg", ihvp_cg(f, **kw)((x, *more), V)))
    if at:
        outs.append(("ihvp_at_x_cg", ihvp_at_x_cg(f, x, *more, **kw)(V)))
    for nm, o in outs:
        eq_solution(S, H, o.reshape(V.shape), V, f"damped Hessian times {nm}")


def independent(S, p=2, n=3, it=1, mode="rev-rev"):
    """Each row is solved as if it were alone."""
    f = Cubic(S, (p,))
    x = S.tensor("x", p)
    V = S.tensor("V", n, p)
    lam = S.scalar("lam")
    g = ihvp_at_x_cg(f, x, max_iter=it, mode=mode, regularization=lam)
    E = torch.cat([g(V[i]) for i in range(n)])
    S.check(g(V), E, "rows alone, fixed point")
    S.check(ihvp_cg(f, max_iter=it, mode=mode, regularization=lam)((x,), V), E, "rows alone")
    other, z = ihvp_cg(f, max_iter=it, mode=mode, regularization=lam), S.tensor("z", p)
    point = (z,)
    other(point, V)
    z.copy_(x)
    S.check(other(point, V), E, "after the point was written to")
    S.check(ihvp_cg(f, max_iter=it, mode="rev-fwd" if mode == "rev-rev" else "rev-rev", regularization=lam)((x,), V), E, "other mode")


def zerovec(S, p=2):
    """A zero vector has the zero solution; the other rows are not affected."""
    A = torch.tensor([[2.0, 0.5], [0.5, 1.0]])
    f = Quadratic(A)
    x = S.tensor("x", p)
    v = S.tensor("v", p)
    V = torch.stack([torch.zeros(p), v])
    o = ihvp_cg(f, max_iter=2)((x,), V)
    S.check(o[0], torch.zeros(p), "zero row")
    eq_solution(S, A, o[1:], V[1:], "other row")


for arg, dims in ((0, (1,)), (0, (2,)), (0, (3,)), (1, (1, 2)), (0, (2, 1)), (1, (2, 1))):
    for r in (1, 2, 3):
        case(CASES, f"explicit-arg{arg}-of-{'x'.join(map(str, dims))}-rows{r}", explicit, dims=dims, arg=arg, rows_=r, two=r == 2)
case(CASES, "explicit-flat-vector", explicit, flat=True)
case(CASES, "explicit-unregularised", explicit, reg=0.0)
case(CASES, "explicit-exponential", explicit, expo=True)
for mode in ("rev-rev", "rev-fwd"):
    case(CASES, f"cg-1-{mode}", cg, p=1, rows_=2, mode=mode)
    case(CASES, f"cg-1-flat-{mode}", cg, p=1, flat=True, mode=mode, other=True)
    one = dict(whole=mode == "rev-rev", at=mode != "rev-rev")
    case(CASES, f"cg-2-{mode}", cg, p=2, mode=mode, reg=0.0, vec=[[1.0, 0.0]], cost=9, **one)
    case(CASES, f"cg-2-diag-{mode}", cg, p=2, kind="diag", mode=mode, reg=0.0, vec=[[1.0, -0.5], [2.0, 0.25]], cost=5)
    case(CASES, f"cg-2-fixed-{mode}", cg, p=2, kind="fixed", mode=mode, rows_=2, reg=0.5, other=True)
    case(CASES, f"cg-2-fixed-flat-{mode}", cg, p=2, kind="fixed", mode=mode, flat=True, reg=0.0)
    case(CASES, f"cg-3-{mode}", cg, p=3, kind="two", mode=mode, reg=0.0, vec=[[1.0, -0.5, 0.25]], rows_=1, cost=9, symvec=True, **one)
    case(CASES, f"cg-2-regularisation-{mode}", cg, p=2, kind="fixed", mode=mode, reg="sym", vec=[[1.0, -0.5], [0.5, 2.0]], cost=5, **one)
    case(CASES, f"cg-converged-{mode}", cg, p=2, kind="eye2", mode=mode, reg=0.0, rows_=2)
    case(CASES, f"cg-converged-more-{mode}", cg, p=2, kind="eye2", mode=mode, reg=0.0, extra=3, rows_=1)
    case(CASES, f"cg-converged-3-{mode}", cg, p=3, kind="eye3", mode=mode, reg=0.25, rows_=2)
    case(CASES, f"cg-rows-{mode}", independent, mode=mode, n=2)
case(CASES, "cg-zero-vector", zerovec)
