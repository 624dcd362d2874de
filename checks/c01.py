"""C01: TracIn family scores."""
import torch

from dattri.algorithm.tracin import TracInAttributor
from dattri.func.projection import random_project
from dattri.params.projection import RandomProjectionParams, TracInProjectionParams
from dattri.task import AttributionTask

from .common import *  # noqa: F403

BOUNDS = ("3 training and 2 test samples (every batch size 1..3 / 1..2), 1-2 checkpoints, 4 parameters in 3 named tensors, "
          "projection dimension 2, call histories of up to 3 calls; all real values of parameters, data, weights, projection entries; whole data sets and samplers that pick rows of a larger one")
ASSUMPTIONS = ["gradients are those of three polynomial loss/target families with arbitrary real coefficients",
               "with normalisation: gradient norms above 1e-6"]
CASES = []


def harness(S, n=3, m=2, bs=2, tbs=2, nck=2, names=None, layer=None, norm=False, proj=None, kind="tuple", hist="", wkind="tensor", single=False, loss="q"):
    f = {"q": loss_q, "p": loss_p}[loss]
    cks = [ckpt(S, c, kind) for c in range(nck)]
    X, Y = S.tensor("X", n, 2), S.tensor("Y", n, 1)
    Xt, Yt = S.tensor("Xt", m, 2), S.tensor("Yt", m, 1)
    W = S.tensor("wt", nck)
    model, f, tgt = buffered(kind, f, target_l)
    lf, tf = wrap(f, kind), wrap(tgt, kind)
    task = AttributionTask(loss_func=lf, model=model, checkpoints=cks[0] if single else cks, target_func=tf)
    pp = TracInProjectionParams(proj_type="identity") if proj is None else TracInProjectionParams(proj_type=proj, proj_dim=2, proj_seed=3)
    wl = W if wkind == "tensor" else [W[i] for i in range(nck)]
    a = TracInAttributor(task=task, weight_list=wl, normalized_grad=norm, proj_params=pp, layer_name=layer)
    tr, te = loader(X, Y, bs, kind), loader(Xt, Yt, tbs, kind)
    if "edit" in hist:  # the same loaders, whose data are written to between the calls
        *old, write = edited(S, X, Y, Xt, Yt)
        tr, te = loader(*old[:2], bs, kind), loader(*old[2:], tbs, kind)
        a.attribute(tr, te)
        a.self_attribute(tr)
        write()
    if "self" in hist:
        a.self_attribute(tr)
    if "other" in hist:
        a.attribute(te, tr)
    if "param" in hist:
        task.get_param(nck - 1)
        task.get_grad_loss_func(in_dims=(None, 0), layer_name=["l2.bias"], ckpt_idx=0)
    if "twice" in hist:
        a.attribute(tr, te)
    if "cache" in hist:
        a.cache()
    out = a.attribute(tr, te)
    names = names or NAMES
    exp = torch.zeros(n, m)
    for c in range(nck):
        g, h = grads(f, cks[c], rows(X, Y), names), grads(tgt, cks[c], rows(Xt, Yt), names)
        if proj is not None:
            p = g.shape[1]
            P = random_project(torch.eye(p), RandomProjectionParams(proj_dim=2, proj_max_batch_size=32, proj_seed=3, proj_type=proj,
                                                                     feature_batch_size=p, device="cpu"))(torch.eye(p), ensemble_id=c)
            g, h = g @ P, h @ P
        if norm:
            for r in list(g) + list(h):
                S.assume(torch.sqrt((r * r).sum()) > 1e-6)
            g, h = unit(g), unit(h)
        exp = exp + W[c] * (g @ h.T)
    S.check(out, exp, "score matrix")


def defaults(S, norm=False):
    """Without projection parameters the documented defaults are used."""
    x, y = S.tensor("x", 1, 2), S.tensor("y", 1, 1)
    tx, ty = S.tensor("tx", 1, 2), S.tensor("ty", 1, 1)
    w = S.tensor("wt", 1)
    task = AttributionTask(loss_func=loss_q, model=Toy(), checkpoints=ckpt(S, 0), target_func=target_l)
    out = []
    for kw in ({}, dict(proj_params=None), dict(proj_params=TracInProjectionParams(proj_dim=512, proj_max_batch_size=32, proj_seed=0, proj_type="normal"))):
        a = TracInAttributor(task=task, weight_list=w, normalized_grad=norm, layer_name=["l2.weight", "l2.bias"], **kw)
        out.append(a.attribute(loader(x, y, 1), loader(tx, ty, 1)))
    S.check(out[0], out[2], "default projection")
    S.check(out[1], out[2], "no projection parameters")


for bs in (1, 2, 3):
    for tbs in (1, 2):
        case(CASES, f"batch{bs}x{tbs}", harness, bs=bs, tbs=tbs)
case(CASES, "subset-sampler", harness, kind="subset", n=3, m=2, nck=1)
case(CASES, "subset-sampler-again", harness, kind="subset", n=2, m=3, bs=1, tbs=2, nck=2, loss="p")
case(CASES, "three-values-per-sample", harness, kind="triple", n=3, m=2, nck=1, loss="p")
case(CASES, "three-checkpoints", harness, nck=3, n=2, m=1, bs=1)
case(CASES, "buffers-of-each-checkpoint", harness, kind="buffer", nck=2, n=2, m=2, loss="p")
case(CASES, "buffers-of-each-checkpoint-layer", harness, kind="buffer", nck=3, n=1, m=2, layer=["l2.weight", "l2.bias"], names=["l2.weight", "l2.bias"], hist="param self")
case(CASES, "one-checkpoint-not-in-list", harness, nck=1, single=True)
case(CASES, "product-loss", harness, loss="p")
case(CASES, "dict-batches", harness, kind="dict", bs=1, tbs=2)
case(CASES, "weights-as-list", harness, wkind="list")
case(CASES, "normalised", harness, norm=True, bs=2, tbs=1)
case(CASES, "normalised-single", harness, norm=True, nck=1, bs=1, tbs=2)
case(CASES, "layer-first", harness, layer=["l1.weight"], names=["l1.weight"], loss="p")
case(CASES, "layer-last", harness, layer=["l2.weight", "l2.bias"], names=["l2.weight", "l2.bias"], loss="p", bs=1)
case(CASES, "layer-bias-two-ckpt-history", harness, layer=["l2.bias"], names=["l2.bias"], loss="p", hist="self twice", bs=3)
case(CASES, "layer-order-swapped", harness, layer=["l2.bias", "l1.weight"], names=["l2.bias", "l1.weight"], loss="p", hist="param")
case(CASES, "layer-string", harness, layer="l2.bias", names=["l2.bias"], loss="p")
case(CASES, "layer-normalised", harness, layer=["l2.weight", "l2.bias"], names=["l2.weight", "l2.bias"], loss="p", norm=True, nck=1)
case(CASES, "history-self-twice", harness, hist="self twice cache")
case(CASES, "history-data-written-to", harness, hist="edit", n=2)
case(CASES, "history-other-param", harness, hist="other param", bs=1, tbs=1)
for pr in ("normal", "rademacher", "random_mask"):
    case(CASES, f"projected-{pr}", harness, proj=pr, bs=2, tbs=1, n=3, m=2, cost=5)
case(CASES, "projected-dict", harness, proj="normal", bs=1, tbs=2, n=3, m=3, kind="dict", cost=5)
case(CASES, "projected-dict-normalised", harness, proj="rademacher", norm=True, bs=2, tbs=1, n=2, m=2, kind="dict", cost=5)
case(CASES, "projected-normal-normalised", harness, proj="normal", norm=True, n=2, m=1, bs=1, tbs=1, cost=5)
case(CASES, "projected-rademacher-layer", harness, proj="rademacher", n=2, m=2, bs=2, tbs=1, cost=5, layer=["l2.weight", "l2.bias"], names=["l2.weight", "l2.bias"], loss="p")
case(CASES, "default-projection", defaults)
case(CASES, "sizes-4x3", harness, tier="thorough", n=4, m=3, bs=3, tbs=2)
case(CASES, "sizes-5x2-three-checkpoints", harness, tier="thorough", n=5, m=2, bs=2, tbs=1, nck=3)
