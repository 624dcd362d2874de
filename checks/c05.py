"""C05: Hessian-vector products."""
import torch
from torch.func import vmap

from dattri.func.hessian import hvp, hvp_at_x

from .common import *  # noqa: F403

BOUNDS = ("functions of 1-3 tensor arguments, differentiation argument 0..2 with 1-3 elements: every cubic polynomial (all coefficients symbolic), plus "
          "exponential terms; batches of 1-3 vectors; both modes; two call orders; all real points, vectors, coefficients and regularisation values")
ASSUMPTIONS = ["functions outside polynomials of degree 3 and the exponential family are covered only through the trusted differentiation rules"]
CASES = []


class Cubic:
    """f(z) = <T, z z z> + <M, z z> + <b, z> over the concatenation z of all arguments."""

    def __init__(self, S, dims, name="f", expo=False, sizes=None):
        p = sum(dims)
        self.T, self.M, self.b = S.tensor(name + "T", p, p, p), S.tensor(name + "M", p, p), S.tensor(name + "b", p)
        self.w = S.tensor(name + "w", p) if expo else None
        self.dims, self.p = dims, p

    def __call__(self, *xs):
        z = torch.cat([x.reshape(-1) for x in xs])
        r = (self.T * z[:, None, None] * z[None, :, None] * z[None, None, :]).sum() + z @ (self.M @ z) + self.b @ z
        if self.w is not None:
            r = r + torch.exp(self.w @ z)
        return r

    def hess(self, *xs):
        z = torch.cat([x.reshape(-1) for x in xs])
        T = self.T
        H = torch.zeros(self.p, self.p)
        for pm in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)):
            H = H + (T.permute(*pm) * z[None, None, :]).sum(-1)
        H = H + self.M + self.M.T
        if self.w is not None:
            H = H + torch.exp(self.w @ z) * (self.w[:, None] * self.w[None, :])
        return H

    def block(self, arg, *xs):
        a = sum(self.dims[:arg])
        return self.hess(*xs)[a:a + self.dims[arg], a:a + self.dims[arg]]


def reg_of(S, reg):
    return S.scalar("lam") if reg == "sym" else reg


def harness(S, dims=(2,), arg=0, mode="rev-rev", reg="sym", expo=False, rows_=0, shapes=None, twice=False, neg=False):
    f = Cubic(S, dims, expo=expo)
    shapes = shapes or [(d,) for d in dims]
    xs = tuple(S.tensor(f"x{i}", *s) for i, s in enumerate(shapes))
    lam = reg_of(S, reg)
    num = arg - len(dims) if neg else arg
    kw = {**unless_default(num, 0, "argnums"), **unless_default(mode, "rev-rev", "mode"), **unless_default(lam, 0.0, "regularization")}
    g, ga = hvp(f, **kw), hvp_at_x(f, xs, **kw)
    H = f.block(arg, *xs)

    def want(v):
        return (H @ v.reshape(-1) + lam * v.reshape(-1)).reshape(v.shape)
    if rows_:
        V = S.tensor("V", rows_, *shapes[arg])
        E = torch.stack([want(v) for v in V])
        S.check(vmap(ga)(V), E, "hvp_at_x, batch of vectors")
        S.check(vmap(lambda v: g(xs, v))(V), E, "hvp, batch of vectors")
        S.check(torch.stack([ga(v) for v in V]), E, "hvp_at_x, one by one")
        return
    v = S.tensor("v", *shapes[arg])
    S.check(g(xs, v), want(v), "hvp")
    S.check(ga(v), want(v), "hvp_at_x")
    if twice:
        u = S.tensor("u", *shapes[arg])
        S.check(ga(u), want(u), "hvp_at_x, second vector")
        S.check(ga(v), want(v), "hvp_at_x, first vector again")
        ys = tuple(S.tensor(f"y{i}", *s) for i, s in enumerate(shapes))
        H = f.block(arg, *ys)
        S.check(g(ys, v), want(v), "hvp at another point")
        H = f.block(arg, *xs)
        for x, y in zip(xs, ys):
            y.copy_(x)
        S.check(g(ys, v), want(v), "hvp after the point was written to")


def labels(S, mode):
    """A further argument that is not differentiable (integer labels) or a scalar."""
    x, v = S.tensor("x", 2), S.tensor("v", 2)
    c, s = S.tensor("c", 3, 2), S.tensor("s")
    y = torch.tensor([0, 2, 1, 0])

    def f(x, y, s):
        return s * ((c[y] @ x) ** 3).sum()
    lam = S.scalar("lam")
    H = torch.zeros(2, 2)
    for k in y.tolist():
        H = H + 6 * s * (c[k] @ x) * (c[k][:, None] * c[k][None, :])
    S.check(hvp(f, argnums=0, mode=mode, regularization=lam)((x, y, s), v), H @ v + lam * v, "hvp")
    S.check(hvp_at_x(f, (x, y, s), argnums=0, mode=mode, regularization=lam)(v), H @ v + lam * v, "hvp_at_x")


for mode in ("rev-rev", "rev-fwd"):
    for arg, dims in ((0, (1,)), (0, (2,)), (0, (3,)), (0, (2, 1)), (1, (2, 1)), (1, (1, 2)), (0, (1, 1, 2)), (1, (1, 2, 1)), (2, (1, 1, 2))):
        case(CASES, f"{mode}-arg{arg}-of-{'x'.join(map(str, dims))}", harness, dims=dims, arg=arg, mode=mode, twice=len(dims) < 3)
    case(CASES, f"{mode}-unregularised", harness, mode=mode, reg=0.0)
    case(CASES, f"{mode}-exponential", harness, mode=mode, expo=True, dims=(2,))
    case(CASES, f"{mode}-exponential-2", harness, mode=mode, expo=True, dims=(1, 2), arg=1)
    case(CASES, f"{mode}-batch1", harness, mode=mode, rows_=1)
    case(CASES, f"{mode}-batch3", harness, mode=mode, rows_=3, dims=(1, 2), arg=1)
    case(CASES, f"{mode}-scalar-other", harness, mode=mode, dims=(2, 1), shapes=[(2,), ()], arg=0)
    case(CASES, f"{mode}-scalar-first", harness, mode=mode, dims=(1, 2), shapes=[(), (2,)], arg=1)
    case(CASES, f"{mode}-matrix-other", harness, mode=mode, dims=(2, 2), shapes=[(2,), (2, 1)], arg=0)
    case(CASES, f"{mode}-counted-from-the-end", harness, mode=mode, dims=(1, 2), arg=1, neg=True, twice=True)
    case(CASES, f"{mode}-counted-from-the-end-first", harness, mode=mode, dims=(2, 1), arg=0, neg=True)
    case(CASES, f"{mode}-counted-from-the-end-one", harness, mode=mode, dims=(2,), arg=0, neg=True)
    case(CASES, f"{mode}-matrix-argument", harness, mode=mode, dims=(2, 1), shapes=[(2, 1), (1,)], arg=0, twice=True)
    case(CASES, f"{mode}-matrix-argument-second", harness, mode=mode, dims=(1, 2), shapes=[(1, 1), (1, 2)], arg=1)
    case(CASES, f"{mode}-integer-other", labels, mode=mode)
    case(CASES, f"{mode}-dim4", harness, tier="thorough", mode=mode, dims=(4,), twice=True)
    case(CASES, f"{mode}-dims-2x2", harness, tier="thorough", mode=mode, dims=(2, 2), arg=1, rows_=2)
