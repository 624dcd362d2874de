"""C09: explicit inverse Fisher products and DataInf."""
import torch

from dattri.algorithm.influence_function import IFAttributorDataInf
from dattri.func.fisher import ifvp_at_x_explicit, ifvp_explicit
from dattri.task import AttributionTask

from .c02 import loss_batch, loss_batch_p, target_batch
from .c05 import Cubic
from .c08 import numel, rows1, split
from .common import *  # noqa: F403

BOUNDS = ("Fisher: 1-3 parameters, argument 0..1, 1-3 vectors; DataInf: 1-4 training and 1-3 test samples, every batch size, 1-2 checkpoints, "
          "1-2 layers of 1-3 parameters; all real data, parameters, vectors, regularisations; whole data sets and samplers that pick rows of a larger one")
ASSUMPTIONS = ["the regularised Fisher matrix is invertible; the DataInf regularisation is not zero"]
CASES = []


def fisher(S, dims=(2,), arg=0, rows_=2, flat=False, reg="sym", again=False):
    f = Cubic(S, dims)
    xs = tuple(S.tensor(f"x{i}", d) for i, d in enumerate(dims))
    lam = S.scalar("lam") if reg == "sym" else reg
    leaf = [x.detach().clone().requires_grad_(i == arg) for i, x in enumerate(xs)]
    g = torch.autograd.grad(f(*leaf), leaf[arg])[0].detach()
    p = dims[arg]
    M = torch.stack([torch.stack([g[i] * g[j] + (lam if i == j else 0.0) for j in range(p)]) for i in range(p)])
    V = S.tensor("V", p) if flat else S.tensor("V", rows_, p)
    a = ifvp_explicit(f, argnums=arg, regularization=lam)(xs, V)
    at = ifvp_at_x_explicit(f, *xs, argnums=arg, regularization=lam)
    inv = torch.linalg.inv(M)
    exp = inv @ V if flat else V @ inv.T
    S.check(a, exp, "ifvp_explicit")
    S.check(at(V), exp, "ifvp_at_x_explicit")
    if again:
        U = S.tensor("U", 1, p)
        S.check(at(U), U @ inv.T, "second call")
    if p < 3 and len(dims) == 1:
        S.check((M @ a.reshape(V.shape).T).T if not flat else M @ a, V, "damped Fisher times result")


def layers(names):
    """Groups of consecutive parameters of the same module."""
    out, last = [], None
    for nm in names:
        m = nm.rsplit(".", 1)[0]
        if m != last:
            out.append([])
            last = m
        out[-1].append(nm)
    return out


def datainf_transform(G, V, names, lam):
    """mean_i (g_i g_i^T + lam)^-1 v, layer by layer"""
    out, k = [], 0
    for grp in layers(names):
        d = sum(numel(x) for x in grp)
        g, v = G[:, k:k + d], V[:, k:k + d]
        k += d
        acc = 0
        for i in range(g.shape[0]):
            n2 = (g[i] * g[i]).sum()
            dot = (v * g[i]).sum(dim=1, keepdim=True)
            acc = acc + (v - dot / (lam + n2) * g[i]) / lam
        out.append(acc / g.shape[0])
    return torch.cat(out, dim=1)


def datainf(S, n=3, m=2, edit=False, nck=1, layer=None, bs=2, tbs=2, fullbs=3, loss="bp", kind="tuple", again=False, ratio=1.0, direct=False, fulln=None):
    f = {"b": loss_batch, "bp": loss_batch_p}[loss]
    tgt = target_batch
    cks = [ckpt(S, c, kind) for c in range(nck)]
    X, Y = S.tensor("X", n, 2), S.tensor("Y", n, 1)
    TX, TY = S.tensor("TX", m, 2), S.tensor("TY", m, 1)
    FX, FY = (X, Y) if fulln is None else (S.tensor("FX", fulln, 2), S.tensor("FY", fulln, 1))
    model, f, tgt = buffered(kind, f, tgt)
    lf, tf = wrap(f, kind), wrap(tgt, kind)
    task = AttributionTask(loss_func=lf, model=model, checkpoints=cks, target_func=tf)
    lam = S.scalar("lam", lo=0.5, hi=2.0)
    a = IFAttributorDataInf(task=task, layer_name=layer, regularization=lam, fim_estimate_data_ratio=ratio)
    a.cache(loader(FX, FY, fullbs, kind))
    names = layer or NAMES
    names = [names] if isinstance(names, str) else names
    full = split(FX, FY, fullbs)
    used = full[:-(-int(len(full) * ratio * 1000) // 1000)]  # ceil
    UX, UY = torch.cat([b[0] for b in used]), torch.cat([b[1] for b in used])
    exp = 0
    for c, ck in enumerate(cks):
        U = grads(f, ck, rows1(UX, UY), names)
        if direct:
            V = S.tensor(f"V{c}", m, U.shape[1])
            S.check(a.transform_test_rep(c, V), datainf_transform(U, V, names, lam), "transform")
        G, T = grads(f, ck, rows1(X, Y), names), grads(tgt, ck, rows1(TX, TY), names)
        exp = exp + G @ datainf_transform(U, T, names, lam).T
    exp = exp / len(cks)
    tr, te = loader(X, Y, bs, kind), loader(TX, TY, tbs, kind)
    if edit:  # the same loaders, whose data are written to between the calls
        *old, write = edited(S, X, Y, TX, TY)
        tr, te = loader(*old[:2], bs), loader(*old[2:], tbs)
        a.attribute(tr, te)
        write()
    S.check(a.attribute(tr, te), exp, "scores")
    if again:
        S.check(a.attribute(loader(X, Y, 1, kind), loader(TX, TY, m, kind)), exp, "second call, other split")


L2B = ["l2.weight", "l2.bias"]
for arg, dims in ((0, (1,)), (0, (2,)), (0, (3,)), (1, (1, 2)), (0, (2, 1)), (1, (2, 1))):
    for r in (1, 2, 3):
        case(CASES, f"fisher-arg{arg}-of-{'x'.join(map(str, dims))}-rows{r}", fisher, dims=dims, arg=arg, rows_=r, again=r == 2)
case(CASES, "fisher-flat-vector", fisher, flat=True)
case(CASES, "fisher-unregularised", fisher, dims=(1,), reg=0.0)
for bs in (1, 2, 3):
    for tbs in (1, 2):
        case(CASES, f"datainf-batch{bs}-test{tbs}", datainf, bs=bs, tbs=tbs, layer=L2B if tbs == 1 else None, again=bs == 2, n=3 if tbs == 1 else 2)
case(CASES, "datainf-transform", datainf, direct=True)
case(CASES, "datainf-transform-large-test-batch", datainf, direct=True, m=3, n=2, tbs=3)
case(CASES, "datainf-transform-single-test", datainf, direct=True, m=1, n=4, fullbs=4, tbs=1)
case(CASES, "datainf-full-batches", datainf, fullbs=1, direct=True)
case(CASES, "datainf-full-batches-2", datainf, fullbs=2)
case(CASES, "datainf-other-full-set", datainf, fullbs=3, fulln=4, layer=L2B)
case(CASES, "datainf-half", datainf, fullbs=1, fulln=4, ratio=0.5, n=2)
case(CASES, "datainf-third", datainf, fullbs=1, fulln=3, ratio=0.4, n=2)
case(CASES, "datainf-subset-sampler", datainf, kind="subset")
case(CASES, "datainf-subset-sampler-half", datainf, fullbs=1, fulln=4, ratio=0.5, n=2, kind="subset")
case(CASES, "datainf-three-values-per-sample", datainf, kind="triple")
case(CASES, "datainf-data-written-to", datainf, n=2, edit=True)
case(CASES, "datainf-three-checkpoints", datainf, nck=3, n=2, m=1, bs=1)
case(CASES, "datainf-buffers-of-each-checkpoint", datainf, kind="buffer", nck=2, n=2, m=1, bs=1, again=True)
case(CASES, "datainf-checkpoints", datainf, nck=2, n=2, again=True)
case(CASES, "datainf-layer", datainf, layer=["l1.weight"], direct=True)
case(CASES, "datainf-layer-second", datainf, layer=L2B, direct=True)
case(CASES, "datainf-layer-bias", datainf, layer=["l2.bias"])
case(CASES, "datainf-layer-string", datainf, layer="l1.weight", n=2)
case(CASES, "datainf-layers-listed", datainf, layer=["l2.bias", "l1.weight"], direct=True, n=2)
case(CASES, "datainf-layers-interleaved", datainf, layer=["l2.bias", "l1.weight", "l2.weight"], n=2)
case(CASES, "datainf-dict", datainf, kind="dict", n=2)
case(CASES, "datainf-other-loss", datainf, loss="b", n=2)
case(CASES, "datainf-one-sample", datainf, n=1, m=1, bs=1, tbs=1, fullbs=1)
