"""C07: LiSSA."""
import contextlib

import torch

from dattri.func.hessian import ihvp_at_x_lissa, ihvp_lissa
from dattri.algorithm.influence_function import IFAttributorLiSSA

from .common import *  # noqa: F403

BOUNDS = ("1-3 samples, mini-batches of 1..3, 1-2 parameters, 1-2 vectors, 1-2 repetitions, recursion depth 0..3; every permutation the "
          "sampler can return (forked), all real data, points, vectors, dampings and scalings")
ASSUMPTIONS = ["scaling is not zero"]
CASES = []


def plain(t):
    """(tensor, batch dimension of the vector vmap or None) behind functorch wrappers"""
    fc = torch._C._functorch
    bdim = None
    while fc.is_functorch_wrapped_tensor(t):
        b = fc.maybe_get_bdim(t)
        if fc.is_batchedtensor(t):
            bdim = b
        t = fc.get_unwrapped(t)
    return t, bdim


class Loss:
    """sum over the batch of y (a.x)^2 + (a.x)^3, recording what it is evaluated on."""

    def __init__(self, pos=0, dim=0, nest=False):
        self.pos, self.dim, self.nest, self.seen = pos, dim, nest, []

    def __call__(self, *args):
        args = list(args)
        x = args.pop(self.pos)
        if self.nest:
            args = list(args[0])
        a, y = args
        self.seen.append((plain(a), plain(y)))
        if self.dim == 1:
            a = a.transpose(0, 1)
        t = a @ x
        return (y * t * t + t * t * t).sum()

    def hess(self, x, a, y):
        """a: (b,p), y: (b,)"""
        H = 0
        for i in range(a.shape[0]):
            t = (a[i] * x).sum()
            H = H + (2 * y[i] + 6 * t) * torch.outer(a[i], a[i])
        return H

    def batches(self, r):
        """The batches seen by vector r."""
        out = []
        for (a, ab), (y, yb) in self.seen:
            a = a if ab is None else a.select(ab, r)
            y = y if yb is None else y.select(yb, r)
            out.append((a.detach() if self.dim == 0 else a.detach().transpose(0, 1), y.detach()))
        return out


@contextlib.contextmanager
def draws(S, on):
    """torch.randperm returns an unknown permutation."""
    if not on:
        yield
        return
    orig, cnt = torch.randperm, [0]

    def randperm(n, *a, **k):
        cnt[0] += 1
        return torch.tensor(S.permutation(f"perm{cnt[0]}", n))
    torch.randperm = randperm
    try:
        yield
    finally:
        torch.randperm = orig


def expected(S, f, x, V, bs, rep, depth, damp, scal, n, A, Y):
    out = []
    for r in range(V.shape[0]):
        b = f.batches(r)
        S.check_true(len(b) == rep * depth, "number of sampled batches")
        ests, k = [], 0
        for _ in range(rep):
            e = V[r]
            for _ in range(depth):
                a, y = b[k]
                k += 1
                S.check_true(a.shape[0] == min(bs, n) and y.shape[0] == min(bs, n), "size of the sampled batch")
                idx = members(S, a, y, A, Y)
                S.check_true(idx is not None, "batch of distinct samples of the data")
                S.check(a, A[idx], "batch rows")
                S.check(y, Y[idx], "batch labels")
                e = V[r] + (1 - damp) * e - (f.hess(x, a, y) @ e) / scal
            ests.append(e / scal)
        out.append(sum(ests) / rep)
    return torch.stack(out)


def members(S, a, y, A, Y):
    """Which rows of the data the batch holds (by value), without repetition."""
    vals = S.raw
    av, yv, Av, Yv = vals(a), vals(y), vals(A), vals(Y)
    used = []
    for r, s in zip(av, yv):
        k = [i for i in range(len(Av)) if i not in used and Av[i] == r and Yv[i] == s]
        if not k:
            return None
        used.append(k[0])
    return used


def lissa(S, n=2, p=1, bs=1, rep=1, depth=2, rows_=1, pos=0, dim=0, coll=False, mode="rev-rev", at=False, fork=True, flat=False, damp="sym", scal="sym"):
    f = Loss(pos, dim, coll)
    A, Y, x = S.tensor("A", n, p), S.tensor("Y", n), S.tensor("x", p)
    V = S.tensor("V", p) if flat else S.tensor("V", rows_, p)
    damp = S.scalar("damp") if damp == "sym" else damp
    scal = S.scalar("scal", lo=1.0, hi=3.0) if scal == "sym" else scal
    data = [A if dim == 0 else A.transpose(0, 1).contiguous(), Y]
    ind = [dim, 0]
    args, dims = list(data), list(ind)
    args.insert(pos, x)
    dims.insert(pos, None)
    kw = dict(recursion_depth=depth)
    for val, default, name in ((pos, 0, "argnums"), (bs, 1, "batch_size"), (rep, 1, "num_repeat"), (damp, 0.0, "damping"), (scal, 50.0, "scaling"), (mode, "rev-rev", "mode")):
        kw.update(unless_default(val, default, name))
    if coll:
        kw["collate_fn"] = lambda s: (s[0], list(s[1:]))
    with draws(S, fork):
        if at:
            out = ihvp_at_x_lissa(f, *args, in_dims=tuple(dims), **kw)(V)
        else:
            out = ihvp_lissa(f, **kw)(tuple(args), V, in_dims=tuple(dims))
    S.check(out, expected(S, f, x, V.reshape(-1, p), bs, rep, depth, damp, scal, n, A, Y), "estimate")


def alldims(S, n=2, at=False):
    """No in_dims: every input is sampled along its first dimension."""
    seen = []

    def f(x, a):
        seen.append((plain(x), plain(a)))
        return (a * x * x * x).sum()
    x, a, V = S.tensor("x", n), S.tensor("a", n), S.tensor("V", n)
    kw = dict(batch_size=n, num_repeat=1, recursion_depth=2, damping=0.25, scaling=2.0)
    with draws(S, True):
        out = ihvp_at_x_lissa(f, x, a, **kw)(V) if at else ihvp_lissa(f, **kw)((x, a), V)
    e = V
    for (xs, _), (as_, _) in seen:
        e = V + 0.75 * e - 6 * as_.detach() * xs.detach() * e / 2.0
    S.check(out[0], e / 2.0, "estimate")
    S.check_true(len(seen) == 2, "steps")


def attributor(S, n=2, bs=1, rep=1, depth=1, batches=1, ntest=1, lname=None, ckpts=1, damp="sym", scal="sym"):
    """The attributor's transform: sum over the batches of the full loader of the LiSSA estimates on that batch."""
    from dattri.task import AttributionTask
    seen = []

    def loss(params, data):
        x, y = data
        seen.append((plain(x), plain(y)))
        t = (params["l1.weight"] * x).sum(dim=1) + params["l2.bias"]
        r = t + params["l2.weight"].reshape(-1)[0] * x[:, 0] - y
        return (r * r * r).sum()

    cks = [ckpt(S, c) for c in range(ckpts)]
    task = AttributionTask(loss, Toy(), cks, checkpoints_load_func=load_nodisk)
    X, Y, T = S.tensor("X", n, 2), S.tensor("Y", n), S.tensor("T", ntest, 2)
    TY = S.tensor("TY", ntest)
    damp = S.scalar("damp") if damp == "sym" else damp
    scal = S.scalar("scal", lo=1.0, hi=3.0) if scal == "sym" else scal
    per = (n + batches - 1) // batches
    at = IFAttributorLiSSA(task, recursion_depth=depth, **unless_default(lname, None, "layer_name"), **unless_default(bs, 1, "batch_size"), **unless_default(rep, 1, "num_repeat"),
                           **unless_default(damp, 0.0, "damping"), **unless_default(scal, 50.0, "scaling"))
    at.cache(loader(X, Y, per))
    names = NAMES if lname is None else [lname] if isinstance(lname, str) else lname
    tot = sum(SHAPES[k][0] * (SHAPES[k][1] if len(SHAPES[k]) > 1 else 1) for k in names)
    V = S.tensor("V", ntest, tot)
    with draws(S, True):
        out = at.transform_test_rep(ckpts - 1, V)
    ck = cks[ckpts - 1]
    nb = (n + per - 1) // per
    S.check_true(len(seen) == nb * rep * depth, "number of sampled batches")
    exp = torch.zeros_like(V)
    k = 0
    for b in range(nb):
        rng = range(b * per, min(n, (b + 1) * per))
        for r in range(rep):
            es = [V[t] for t in range(ntest)]
            for _ in range(depth):
                (xs, _), (ys, _) = seen[k]
                k += 1
                xs, ys = xs.detach(), ys.detach()
                S.check_true(xs.shape[0] == min(bs, len(rng)), "size of the sampled batch")
                idx = members(S, xs, ys, X[rng.start:rng.stop], Y[rng.start:rng.stop])
                S.check_true(idx is not None, "sampled from the right batch")
                for t in range(ntest):
                    h = 0
                    for i in range(xs.shape[0]):
                        full = {"l1.weight": xs[i], "l2.weight": xs[i, :1], "l2.bias": torch.ones(1)}
                        u = torch.cat([full[q] for q in names])
                        res = (ck["l1.weight"].reshape(-1) * xs[i]).sum() + ck["l2.bias"][0] + ck["l2.weight"].reshape(-1)[0] * xs[i, 0] - ys[i]
                        h = h + 6 * res * (u * es[t]).sum() * u
                    es[t] = V[t] + (1 - damp) * es[t] - h / scal
            for t in range(ntest):
                exp[t] = exp[t] + es[t] / scal / rep
    S.check(out, exp, "transform")


for at in (False, True):
    nm = "at-x-" if at else ""
    for n, bs, rep, depth in ((2, 1, 1, 2), (2, 1, 2, 1), (2, 2, 1, 2), (2, 1, 2, 2), (3, 1, 1, 1), (3, 2, 1, 1), (3, 2, 2, 1), (2, 3, 1, 1), (1, 1, 3, 1), (1, 1, 1, 3), (2, 1, 3, 1)):
        case(CASES, f"{nm}n{n}-batch{bs}-repeat{rep}-depth{depth}", lissa, n=n, bs=bs, rep=rep, depth=depth, at=at, cost=depth)
    case(CASES, f"{nm}2-parameters", lissa, p=2, n=2, bs=1, depth=2, at=at)
    case(CASES, f"{nm}2-parameters-rev-fwd", lissa, p=2, n=2, bs=1, depth=2, at=at, mode="rev-fwd")
    case(CASES, f"{nm}depth-0", lissa, depth=0, rep=2, rows_=2, at=at)
    case(CASES, f"{nm}vectors", lissa, rows_=2, at=at)
    case(CASES, f"{nm}defaults", lissa, damp=0.0, scal=50.0, at=at, cost=3)
    case(CASES, f"{nm}flat-vector", lissa, flat=True, p=2, depth=1, at=at)
    case(CASES, f"{nm}other-argument", lissa, pos=1, at=at)
    case(CASES, f"{nm}sample-dimension-1", lissa, dim=1, p=2, depth=1, at=at)
    case(CASES, f"{nm}collate", lissa, coll=True, at=at, bs=2)
    case(CASES, f"{nm}collate-repeat", lissa, coll=True, at=at, bs=1, rep=2, depth=1)
    case(CASES, f"{nm}no-in_dims", alldims, at=at)
    case(CASES, f"{nm}real-draws", lissa, n=3, bs=2, rows_=2, rep=2, depth=2, fork=False, at=at, cost=3)
    case(CASES, f"{nm}real-draws-2", lissa, n=3, bs=1, rows_=3, p=2, depth=2, fork=False, at=at, cost=3)
for n, bs, rep, depth, batches in ((2, 1, 1, 1, 1), (2, 1, 1, 2, 2), (2, 1, 2, 1, 1), (3, 2, 1, 1, 2), (2, 2, 2, 2, 1)):
    case(CASES, f"attributor-n{n}-batch{bs}-repeat{rep}-depth{depth}-batches{batches}", attributor, n=n, bs=bs, rep=rep, depth=depth, batches=batches, ntest=2)
case(CASES, "attributor-defaults", attributor, ckpts=1, damp=0.0, scal=50.0)
case(CASES, "attributor-layer", attributor, lname=["l2.weight", "l2.bias"])
case(CASES, "attributor-layer-string", attributor, lname="l1.weight", n=2, bs=1)
case(CASES, "attributor-second-checkpoint", attributor, ckpts=2)
