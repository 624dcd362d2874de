"""C11: Arnoldi eigenspaces, inverse products, projector and attributor."""
import contextlib
import math

import torch

from dattri.algorithm.influence_function import IFAttributorArnoldi
from dattri.func.hessian import ihvp_arnoldi, ihvp_at_x_arnoldi
from dattri.func.projection import arnoldi_project
from dattri.task import AttributionTask

from .c02 import loss_batch, loss_batch_p, target_batch
from .c06 import Quadratic, symm
from .c08 import B, L1, L2, L2B, hess as loss_hess, loss_const, numel, rows1
from .common import *  # noqa: F403

BOUNDS = ("1-3 parameters, 1-3 vectors, every Krylov dimension from 1 to the number of parameters and every number of kept pairs; symbolic Hessians with symbolic starting vectors "
          "for one Krylov vector, symbolic 2x2 / diagonal 3x3 Hessians with the fixed starting vectors (3/5,4/5) and (2,3,6)/7 for full Krylov spaces; all real vectors, regularisations and "
          "norm constants; attributor: 1-3 samples, every batch size, 1-2 checkpoints; whole data sets and samplers that pick rows of a larger one")
ASSUMPTIONS = ["the eigendecomposition of the (tridiagonal) restriction is the one torch.linalg.eigh gives",
               "no two eigenvalues of the restriction have the same magnitude and none of the kept ones is zero; the projector keeps the positive ones"]
CASES = []

START = {1: [2.0], 2: [4.0, 0.0], 3: [2.0, 0.0, 0.0], 4: [2.0, 2.0, 2.0, 2.0]}  # the norms are powers of two: no rounding


@contextlib.contextmanager
def recording(start=None):
    """Record the eigendecompositions; optionally fix the starting vector."""
    log = []
    eigh, rand = torch.linalg.eigh, torch.rand

    def rec(A, *a, **k):
        out = eigh(A, *a, **k)
        log.append((A.detach().clone(), out[0].detach().clone(), out[1].detach().clone()))
        return out

    def fixed(*size, **k):
        n = size[0] if isinstance(size[0], int) else size[0][0]
        return torch.tensor(START[n])

    torch.linalg.eigh = rec
    if start == "fixed":
        torch.rand = fixed
    try:
        yield log
    finally:
        torch.linalg.eigh, torch.rand = eigh, rand


def start_vec(p, start, seed):
    if start == "fixed":
        return torch.tensor(START[p])
    torch.manual_seed(seed)
    return torch.rand(p)


def krylov(S, H, v0, k):
    """Orthonormal basis of span(v0, H v0, ..), by Gram-Schmidt; the list ends when the space is exhausted."""
    q = v0 / torch.sqrt((v0 * v0).sum())
    Q = [q]
    while len(Q) < k:
        w = H @ Q[-1]
        for u in Q:
            w = w - (w @ u) * u
        n = torch.sqrt((w * w).sum())
        if n < 1e-12:
            break
        S.assume(n > 0.01)
        Q.append(w / n)
    return torch.stack(Q)


def space(S, H, v0, k):
    """Krylov basis and restricted matrix, with the assumptions under which the low-rank inverse exists."""
    Q = krylov(S, H, v0, k)
    T = Q @ (H @ Q.T)
    w = torch.linalg.eigh(T)[0]
    for i in range(len(w)):
        S.assume(w[i] * w[i] > 0.01)
        for j in range(i):
            d = w[i] * w[i] - w[j] * w[j]
            S.assume(d * d > 1e-4)
    return Q, T


def kept(S, log, sp, top, positive):
    """Eigenpairs (value, vector) the method has to keep; checks the restricted matrix."""
    Q, T = sp
    if not log:
        w, U = torch.linalg.eigh(T)
    else:
        A, w, U = log[-1]
        S.check_true(tuple(A.shape) == tuple(T.shape), f"restriction has {tuple(A.shape)} entries, not {tuple(T.shape)}")
        S.check(A, T, "Hessian restricted to the Krylov space")
    order = torch.argsort(w * w, descending=True).tolist()[:top]
    if positive:
        order = [i for i in order if w[i] > 0]
    return [(w[i], sum(U[j, i] * Q[j] for j in range(len(Q)))) for i in order]


def inverse(pairs, V):
    return sum((V @ e).unsqueeze(1) * e / l for l, e in pairs)


def matrix(S, p, kind):
    if kind == "eye":
        return 4.0 * torch.eye(p)
    if kind == "pairs":
        h = S.tensor("h", 2, lo=0.5, hi=3.0)
        return torch.diag(torch.stack([h[0], h[0], h[1], h[1]]))
    if kind == "pq":
        return torch.diag(torch.tensor([1.0, 2.0]))
    return symm(S, p, kind)


def ihvp(S, p=2, kind="sym", max_iter=None, start="fixed", rows_=2, top=100, norm=1.0, lam=0.0, seed=0, api="at", again=False, flat=False):
    max_iter = max_iter or p + 1
    H = matrix(S, p, kind)
    f = Quadratic(H)
    x = S.tensor("x", p)
    if norm == "sym":
        norm = S.scalar("c", lo=0.5, hi=2.0)
        S.assume(norm > 0.01)
    if lam == "sym":
        lam = S.scalar("lam", lo=0.3, hi=1.1)
    V = S.tensor("V", p) if flat else S.tensor("V", rows_, p)
    Hd = H + lam * torch.eye(p)
    sp = space(S, Hd, start_vec(p, start, seed), min(p, max_iter - 1))
    with recording(start) as log:
        torch.manual_seed(seed)
        if api == "at":
            fn = ihvp_at_x_arnoldi(f, x, max_iter=max_iter, **unless_default(top, 100, "top_k"), **unless_default(norm, 1.0, "norm_constant"), **unless_default(lam, 0.0, "regularization"))
            out = fn(V)
        else:
            out = ihvp_arnoldi(f, max_iter=max_iter, **unless_default(lam, 0.0, "regularization"))((x,), V)
        pairs = kept(S, log, sp, top, False)
        W = V.reshape(1, -1) if flat else V
        S.check(out.reshape(W.shape), inverse(pairs, W), "inverse product")
        if again:
            U = S.tensor("U", 1, p)
            torch.manual_seed(seed)
            S.check(fn(U), inverse(pairs, U), "second call")


def project(S, p=2, kind="sym", max_iter=None, start="fixed", proj=100, norm=1.0, lam=0.0, seed=0, named=False):
    max_iter = max_iter or p + 1
    H = matrix(S, p, kind)
    f = Quadratic(H)
    x = S.tensor("x", p)
    if norm == "sym":
        norm = S.scalar("c", lo=0.5, hi=2.0)
        S.assume(norm > 0.01)
    if lam == "sym":
        lam = S.scalar("lam", lo=2.3, hi=3.1)
    A, B = S.tensor("A", 2, p), S.tensor("B", 1, p)
    Hd = H + lam * torch.eye(p)
    feed = (lambda t: {"a": t[:, :1], "b": t[:, 1:]}) if named else (lambda t: t)
    sp = space(S, Hd, start_vec(p, start, seed), min(p, max_iter - 1))
    with recording(start) as log:
        pr = arnoldi_project(p, f, x, max_iter=max_iter, **unless_default(proj, 100, "proj_dim"), **unless_default(norm, 1.0, "norm_constant"), **unless_default(lam, 0.0, "regularization"), **unless_default(seed, 0, "seed"))
        a, b = pr(feed(A)), pr(feed(B))
        pairs = kept(S, log, sp, proj, True)
        S.check(a @ b.T, inverse(pairs, A) @ B.T if pairs else torch.zeros(2, 1), "bilinear form")
        S.check(pr(feed(A)), a, "the same map again")


def attributor(S, n=2, m=2, nck=1, layer=None, bs=2, tbs=2, fullbs=2, ratio=1.0, proj=100, max_iter=None, start="fixed", kind="tuple", loss="bp", norm=1.0,
               again=False, cached=True, damped=True, edit=False):
    f = {"b": loss_batch, "bp": loss_batch_p, "c": loss_const}[loss]
    tgt = target_batch
    cks = [ckpt(S, c, kind) for c in range(nck)]
    X, Y = S.tensor("X", n, 2), S.tensor("Y", n, 1)
    TX, TY = S.tensor("TX", m, 2), S.tensor("TY", m, 1)
    model, f, tgt = buffered(kind, f, tgt)
    lf, tf = wrap(f, kind), wrap(tgt, kind)
    task = AttributionTask(loss_func=lf, model=model, checkpoints=cks, target_func=tf)
    lam = S.scalar("lam", lo=4.0, hi=6.0) if damped else 0.0
    names = layer or NAMES
    p = sum(numel(k) for k in names)
    max_iter = max_iter or p + 1
    used = min(n, math.ceil(-(-n // fullbs) * ratio) * fullbs)
    sps = [space(S, loss_hess(f, ck, (X[:used], Y[:used]), names) + lam * torch.eye(p), start_vec(p, start, 0), min(p, max_iter - 1)) for ck in cks]
    with recording(start) as log:
        a = IFAttributorArnoldi(task=task, layer_name=layer, max_iter=max_iter, **unless_default(lam, 0.0, "regularization"), **unless_default(proj, 100, "proj_dim"), **unless_default(norm, 1.0, "norm_constant"), **unless_default(ratio, 1.0, "precompute_data_ratio"))
        if cached:
            a.cache(loader(X, Y, fullbs, kind))
        tr, te = loader(X, Y, bs, kind), loader(TX, TY, tbs, kind)
        if edit:  # the same loaders, whose data are written to between the calls
            *old, write = edited(S, X, Y, TX, TY)
            tr, te = loader(*old[:2], bs), loader(*old[2:], tbs)
            a.attribute(tr, te)
            write()
        out = a.attribute(tr, te)
        logs = list(log)
        exp = 0
        S.check_true(not logs or len(logs) == nck, "one eigenspace per checkpoint")
        for c, ck in enumerate(cks):
            pairs = kept(S, logs[c:c + 1], sps[c], proj, True)
            G, T = grads(f, ck, rows1(X, Y), names), grads(tgt, ck, rows1(TX, TY), names)
            if pairs:
                exp = exp + inverse(pairs, G) @ T.T
        if not isinstance(exp, torch.Tensor):
            exp = torch.zeros(n, m)
        exp = exp / nck
        S.check(out, exp, "scores")
        if again:
            S.check(a.attribute(loader(X, Y, 1, kind), loader(TX, TY, m, kind)), exp, "second call, other split")


for api in ("at", "func"):
    case(CASES, f"ihvp-{api}-1", ihvp, p=1, start="sym", lam="sym", api=api, again=api == "at")
    case(CASES, f"ihvp-{api}-2-fixed-start", ihvp, api=api)
    case(CASES, f"ihvp-{api}-2-one-vector", ihvp, api=api, max_iter=2, start="sym", lam="sym", flat=True)
    case(CASES, f"ihvp-{api}-2-damped", ihvp, api=api, lam="sym", rows_=1)
    case(CASES, f"ihvp-{api}-3-diag", ihvp, p=3, kind="diag", api=api, rows_=1, max_iter=3)
case(CASES, "ihvp-2-one-vector-norm", ihvp, max_iter=2, start="sym", norm="sym")
case(CASES, "ihvp-2-full-norm", ihvp, norm="sym", again=True)
case(CASES, "ihvp-2-full-norm-2", ihvp, norm=2.0)
case(CASES, "ihvp-2-top-1", ihvp, top=1, again=True)
case(CASES, "ihvp-2-top-1-damped", ihvp, top=1, lam="sym", rows_=1)
case(CASES, "ihvp-2-full-symbolic-start", ihvp, start="sym", kind="pq", rows_=1)
case(CASES, "ihvp-3-one-vector", ihvp, p=3, max_iter=2, rows_=3)
case(CASES, "ihvp-3-one-vector-symbolic-start", ihvp, p=3, max_iter=2, start="sym")
case(CASES, "ihvp-3-two-vectors", ihvp, p=3, kind="diag", max_iter=3, again=True)
case(CASES, "ihvp-3-two-vectors-full-hessian", ihvp, p=3, kind="sym", max_iter=3, rows_=1)
case(CASES, "ihvp-3-two-vectors-top-1", ihvp, p=3, kind="diag", max_iter=3, top=1)
case(CASES, "ihvp-3-full", ihvp, p=3, kind="diag", rows_=1)
case(CASES, "ihvp-3-invariant-subspace", ihvp, p=3, kind="two", rows_=2)
case(CASES, "ihvp-2-multiple-of-identity", ihvp, p=2, kind="eye", rows_=2)
case(CASES, "ihvp-3-many-iterations", ihvp, p=2, max_iter=100, rows_=2)
for pj in (1, 2, 100):
    case(CASES, f"project-2-dim-{pj}", project, proj=pj)
    case(CASES, f"project-2-dim-{pj}-damped", project, proj=pj, lam="sym", named=True)
    case(CASES, f"project-3-dim-{pj}", project, p=3, kind="diag", max_iter=3, proj=pj)
case(CASES, "project-1", project, p=1, start="sym", lam="sym")
case(CASES, "project-2-one-vector", project, max_iter=2, start="sym", lam="sym")
case(CASES, "project-2-seed", project, max_iter=2, start="sym", seed=5)
case(CASES, "project-2-norm", project, norm="sym")
case(CASES, "project-2-full-symbolic-start", project, start="sym", kind="pq")
case(CASES, "project-2-identity", project, kind="eye")
case(CASES, "ihvp-4-invariant-subspace", ihvp, p=4, kind="pairs", rows_=1)
case(CASES, "project-4-invariant-subspace", project, p=4, kind="pairs")
case(CASES, "project-3-invariant-subspace", project, p=3, kind="two", start="fixed", lam="sym")
for bs in (1, 2, 3):
    for tbs in (1, 2):
        case(CASES, f"attributor-batch{bs}-test{tbs}", attributor, n=3, layer=L2, bs=bs, tbs=tbs, fullbs=3, start="sym", again=bs == 2)
case(CASES, "attributor-2-parameters", attributor, layer=L2B)
case(CASES, "attributor-2-parameters-dim-1", attributor, layer=L2B, proj=1)
case(CASES, "attributor-2-parameters-one-vector", attributor, layer=L2B, max_iter=2, start="sym")
case(CASES, "attributor-2-parameters-quadratic", attributor, layer=L1, loss="b")
case(CASES, "attributor-all-layers-one-vector", attributor, max_iter=2, n=2, m=1, bs=1)
case(CASES, "attributor-subset-sampler", attributor, n=3, fullbs=1, ratio=0.5, layer=L2, kind="subset")
case(CASES, "attributor-three-values-per-sample", attributor, n=3, fullbs=1, ratio=0.5, layer=L2, kind="triple")
case(CASES, "attributor-data-written-to", attributor, layer=L2, start="sym", edit=True)
case(CASES, "attributor-three-checkpoints", attributor, nck=3, m=1, layer=L2, start="sym")
case(CASES, "attributor-buffers-of-each-checkpoint", attributor, kind="buffer", nck=2, m=1, layer=L2, start="sym")
case(CASES, "attributor-checkpoints", attributor, nck=2, layer=L2, start="sym")
case(CASES, "attributor-checkpoints-2", attributor, nck=2, layer=L2B, max_iter=2)
for r in (0.25, 0.5, 0.75, 1.0):
    case(CASES, f"attributor-ratio-{r}", attributor, n=3, fullbs=1, ratio=r, layer=L2, start="sym")
    case(CASES, f"attributor-ratio-{r}-batches", attributor, n=3, fullbs=2, ratio=r, layer=L2B, max_iter=2)
for kind in ("dict", "tuple"):
    case(CASES, f"attributor-{kind}", attributor, kind=kind, layer=L2, fullbs=1)
case(CASES, "attributor-norm", attributor, layer=L2B, norm=3.0)
case(CASES, "attributor-undamped", attributor, layer=L2B, damped=False)
case(CASES, "attributor-undamped-1", attributor, layer=L2, damped=False, nck=2, start="sym")
