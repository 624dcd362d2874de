"""C02: self-attribution equals the diagonal of train-versus-train attribution."""
import torch

from dattri.algorithm.influence_function import (
    IFAttributorArnoldi,
    IFAttributorCG,
    IFAttributorDataInf,
    IFAttributorExplicit,
)
from dattri.algorithm.tracin import TracInAttributor
from dattri.algorithm.trak import TRAKAttributor
from dattri.params.projection import TracInProjectionParams, TRAKProjectionParams
from dattri.task import AttributionTask

from .c03 import prob
from .common import *  # noqa: F403

BOUNDS = ("1-4 training samples with every batch size 1..4, 1-2 checkpoints, layers of 1-2 parameters or all 4, "
          "projection dimension 1..2; all real values of parameters, data, weights, regularisation, projection entries; whole data sets and samplers that pick rows of a larger one")
ASSUMPTIONS = ["TracIn and TRAK self-attribution is compared with the target function equal to the loss (their self-scores use the loss on both sides)",
               "normalised TracIn: gradients are zero or not tiny", "matrices that are inverted are invertible"]
CASES = []


def base(S, n=3, nck=1, target="loss", loss="p", kind="tuple"):
    f = {"q": loss_q, "p": loss_p, "b": loss_batch, "bp": loss_batch_p}[loss]
    tgt = f if target == "loss" else {"tl": target_l, "tb": target_batch}[target]
    cks = [ckpt(S, c, kind) for c in range(nck)]
    X, Y = S.tensor("X", n, 2), S.tensor("Y", n, 1)
    model, f, tgt = buffered(kind, f, tgt)
    lf, tf = wrap(f, kind), wrap(tgt, kind)
    task = AttributionTask(loss_func=lf, model=model, checkpoints=cks, target_func=tf)
    return f, cks, X, Y, task


def loss_batch(params, data):
    """Mean loss over a batch, curved in every parameter."""
    x, y = data
    r = x @ params["l1.weight"].reshape(2) * (1 + params["l2.weight"].reshape(-1)[0]) + params["l2.bias"].reshape(-1)[0] - y.reshape(-1)
    return (r * r).mean()


def loss_batch_p(params, data):
    x, y = data
    a, b = params["l2.weight"].reshape(-1)[0], params["l2.bias"].reshape(-1)[0]
    z, w = x[..., 0].reshape(-1), x[..., 1].reshape(-1)
    y = y.reshape(-1)
    return (a * a * (z + y * w) + a * b * w + b * b * y + a * y + params["l1.weight"].reshape(-1)[0] * a * b).mean()


def target_batch(params, data):
    x, y = data
    a, b = params["l2.weight"].reshape(-1)[0], params["l2.bias"].reshape(-1)[0]
    return (a * b * y.reshape(-1) + a * x.reshape(2, -1)[0].sum() + b * b).mean()


def tracin(S, bs=2, norm=False, proj=None, layer=None, kind="tuple", hist="", zero=None, **kw):
    f, cks, X, Y, task = base(S, kind=kind, **kw)
    if zero is not None:  # a sample whose gradient vanishes
        X, Y = [torch.cat([v[:zero], torch.zeros_like(v[:1]), v[zero + 1:]]) for v in (X, Y)]
    W = S.tensor("wt", len(cks))
    if norm:
        for ck in cks:
            for i, r in enumerate(grads(f, ck, rows(X, Y), layer)):
                S.assume(i == zero or torch.sqrt((r * r).sum()) > 1e-6)
    pp = TracInProjectionParams(proj_type="identity") if proj is None else TracInProjectionParams(proj_type=proj, proj_dim=2, proj_seed=3)
    a = TracInAttributor(task=task, weight_list=W, normalized_grad=norm, proj_params=pp, layer_name=layer)
    tr = loader(X, Y, bs, kind)
    if hist == "self-first":
        s = a.self_attribute(tr)
        m = a.attribute(tr, loader(X, Y, 1, kind))
    else:
        m = a.attribute(tr, tr)
        s = a.self_attribute(tr)
    S.check(s, torch.diagonal(m), "self == diagonal")


def trak(S, bs=2, cached=False, proj="identity", dim=2, layer=None, reg="sym", kind="tuple", pshape=(), **kw):
    f, cks, X, Y, task = base(S, kind=kind, **kw)
    lam = reg
    if reg == "sym":
        lam = S.scalar("lam", lo=0.5, hi=2.0)
        S.assume(lam > 0.01)
    a = TRAKAttributor(task=task, correct_probability_func=prob(pshape), proj_params=TRAKProjectionParams(proj_type=proj, proj_dim=dim, proj_seed=3),
                       layer_name=layer, regularization=lam)
    tr = loader(X, Y, bs, kind)
    if cached:
        a.cache(tr)
        m, s = a.attribute(tr), a.self_attribute()
    else:
        m, s = a.attribute(tr, tr), a.self_attribute(tr)
    S.check(s, torch.diagonal(m), "self == diagonal")


def iff(S, which, bs=2, layer=None, relatif=None, cached=False, kind="tuple", fullbs=None, order="attr", cgit=2, **kw):
    f, cks, X, Y, task = base(S, kind=kind, **kw)
    lam = S.scalar("lam", lo=0.5, hi=2.0)
    S.assume(lam > 0.01)
    if which == "explicit":
        a = IFAttributorExplicit(task=task, layer_name=layer, regularization=lam)
    elif which == "cg":
        a = IFAttributorCG(task=task, layer_name=layer, max_iter=cgit, regularization=lam)
    elif which == "datainf":
        a = IFAttributorDataInf(task=task, layer_name=layer, regularization=lam)
    else:
        a = IFAttributorArnoldi(task=task, layer_name=layer, proj_dim=1, max_iter=1, regularization=lam)
    tr = loader(X, Y, bs, kind)
    if cached or which in ("datainf", "arnoldi"):
        a.cache(loader(X, Y, fullbs or bs, kind))
    kwa = {"relatif_method": relatif} if relatif else {}
    if order == "attr":
        m = a.attribute(tr, tr, **kwa)
        s = a.self_attribute(tr, **kwa)
    else:
        s = a.self_attribute(tr, **kwa)
        m = a.attribute(tr, loader(X, Y, 1, kind), **kwa)
    S.check(s, torch.diagonal(m), "self == diagonal")


L1, L2, B, L2B = ["l1.weight"], ["l2.weight"], ["l2.bias"], ["l2.weight", "l2.bias"]
for bs in (1, 2, 3, 4):
    case(CASES, f"tracin-batch{bs}", tracin, bs=bs, n=4, nck=1 + bs % 2)
    case(CASES, f"trak-batch{bs}", trak, bs=bs, n=4, nck=1 + bs % 2, layer=L1)
    case(CASES, f"trak-cached-batch{bs}", trak, bs=bs, n=4, nck=2 - bs % 2, layer=L1, cached=True)
    case(CASES, f"if-explicit-batch{bs}", iff, which="explicit", bs=bs, n=4, nck=1 + bs % 2, layer=L2B, loss="bp", target="tb")
case(CASES, "tracin-normalised", tracin, norm=True, n=3, bs=2)
for z in (0, 1):
    case(CASES, f"tracin-normalised-zero-{z}", tracin, norm=True, n=2, bs=2 - z, layer=L2B, zero=z, loss="p")
case(CASES, "tracin-normalised-single", tracin, norm=True, n=3, bs=1, layer=L2B, hist="self-first")
case(CASES, "tracin-layer-two-ckpt", tracin, nck=2, layer=L1, n=3, bs=3, loss="p", hist="self-first")
case(CASES, "tracin-dict", tracin, kind="dict", n=3, bs=2)
for pr in ("normal", "rademacher", "random_mask"):
    case(CASES, f"tracin-projected-{pr}", tracin, proj=pr, n=3, bs=2, nck=1, cost=3)
case(CASES, "tracin-projected-normalised", tracin, proj="normal", norm=True, n=2, bs=1, cost=3, opts={"tier": "thorough"})
case(CASES, "trak-projected", trak, proj="normal", dim=1, n=2, bs=1, cost=3)
case(CASES, "trak-projected-cached", trak, proj="rademacher", dim=2, n=3, bs=2, cached=True, cost=3)
case(CASES, "trak-dict", trak, kind="dict", n=3, bs=2, layer=L2B)
case(CASES, "trak-prob-shape1", trak, pshape=(1,), n=3, bs=2, layer=B)
case(CASES, "trak-single-sample", trak, n=1, bs=1, layer=L1)
case(CASES, "trak-reg0", trak, n=3, bs=2, layer=B, reg=0.0)
for w in ("explicit", "cg", "datainf"):
    for r in ((None, "l", "theta") if w != "datainf" else (None,)):
        small = dict(layer=L2, cgit=1) if w == "cg" and r else dict(layer=L2B)
        case(CASES, f"if-{w}-relatif-{r}", iff, which=w, relatif=r, n=3, bs=2, loss="bp", **small)
    case(CASES, f"if-{w}-two-ckpt", iff, which=w, n=3, bs=1, nck=2, layer=None if w == "datainf" else L2, loss="bp", target="tb", order="self")
    case(CASES, f"if-{w}-cached-other-split", iff, which=w, n=3, bs=2, fullbs=3, cached=True, layer=None if w == "datainf" else L2B, loss="bp", target="tb")
    case(CASES, f"if-{w}-dict", iff, which=w, n=2, bs=2, kind="dict", layer=None if w == "datainf" else L2B, loss="b")
case(CASES, "if-explicit-three-ckpt", iff, which="explicit", n=3, bs=2, nck=3, layer=L2, loss="bp", target="tb")
case(CASES, "if-explicit-relatif-three-ckpt", iff, which="explicit", relatif="theta", n=2, bs=1, nck=3, layer=L2, loss="bp")
case(CASES, "if-datainf-three-ckpt", iff, which="datainf", n=2, bs=2, nck=3, loss="bp", target="tb", order="self")
case(CASES, "if-arnoldi-three-ckpt", iff, which="arnoldi", n=2, bs=1, nck=3, layer=L2, loss="bp")
case(CASES, "if-explicit-buffers", iff, which="explicit", n=2, bs=1, nck=2, layer=L2, loss="bp", kind="buffer", target="tb")
case(CASES, "if-datainf-buffers", iff, which="datainf", n=2, bs=2, nck=2, loss="bp", kind="buffer", order="self")
case(CASES, "if-arnoldi-buffers", iff, which="arnoldi", n=2, bs=1, nck=2, layer=L2, loss="bp", kind="buffer")
case(CASES, "tracin-buffers", tracin, n=2, bs=1, nck=2, layer=L1, kind="buffer")
case(CASES, "trak-three-ckpt", trak, n=2, bs=1, nck=3, layer=L1)
case(CASES, "trak-cached-three-ckpt", trak, n=2, bs=2, nck=3, layer=L1, cached=True)
case(CASES, "tracin-subset", tracin, kind="subset", n=3, bs=2)
case(CASES, "trak-subset", trak, n=3, bs=2, kind="subset", layer=L1)
case(CASES, "trak-cached-subset", trak, n=3, bs=2, kind="subset", layer=L1, cached=True)
for w in ("explicit", "datainf"):
    case(CASES, f"if-{w}-subset", iff, which=w, n=3, bs=2, kind="subset", layer=None if w == "datainf" else L2, loss="bp", cached=True)
case(CASES, "tracin-triple", tracin, kind="triple", n=3, bs=2)
for w in ("explicit", "datainf"):
    case(CASES, f"if-{w}-triple", iff, which=w, n=3, bs=2, kind="triple", layer=None if w == "datainf" else L2, loss="bp", cached=True)
case(CASES, "tracin-three-ckpt", tracin, n=2, bs=1, nck=3, layer=L1)
case(CASES, "if-arnoldi", iff, which="arnoldi", n=2, bs=2, layer=L2B, loss="bp")
