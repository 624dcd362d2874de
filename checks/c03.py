"""C03: TRAK scores."""
import torch

from dattri.algorithm.trak import TRAKAttributor
from dattri.func.projection import random_project
from dattri.params.projection import RandomProjectionParams, TRAKProjectionParams
from dattri.task import AttributionTask

from .common import *  # noqa: F403

BOUNDS = ("2-3 training and 1-2 test samples (every batch size 1..3), 1-4 checkpoints, 4 parameters in 3 named tensors, feature dimension "
          "1..4, call histories of up to 3 calls; all real values of parameters, data, regularisation > 0 and (projection entries); whole data sets and samplers that pick rows of a larger one")
ASSUMPTIONS = ["the regularised Gram matrix of the training features is invertible",
               "gradients are those of polynomial loss/target families with arbitrary real coefficients",
               "regularisation zero only with at least as many independent samples as feature dimensions"]
CASES = []


def prob(shape):
    """A correctness probability given by an arbitrary polynomial of parameters and sample."""
    def f(params, data):
        x, y = (data["x"], data["y"]) if isinstance(data, dict) else data
        p = (params["l1.weight"].reshape(-1) * x.reshape(-1)).sum() * params["l2.weight"].reshape(-1)[0] + y.sum() + params["l2.bias"].reshape(-1)[0]
        return p.reshape(shape)
    return f


def projm(kind, dim, p, e):
    if kind == "identity":
        return torch.eye(p)
    return random_project(torch.eye(p), RandomProjectionParams(proj_dim=dim, proj_max_batch_size=32, proj_seed=3, proj_type=kind,
                                                               feature_batch_size=p, device="cpu"))(torch.eye(p), ensemble_id=e)


def setup(S, n=3, m=2, bs=2, tbs=2, nck=1, layer=None, proj="identity", dim=2, kind="tuple", pshape=(), reg="sym", loss="p", single=False, target=None):
    f = {"q": loss_q, "p": loss_p}[loss]
    tgt = {None: target_l, "loss": f}[target]
    cks = [ckpt(S, c, kind) for c in range(nck)]
    X, Y = S.tensor("X", n, 2), S.tensor("Y", n, 1)
    Xt, Yt = S.tensor("Xt", m, 2), S.tensor("Yt", m, 1)
    model, f, tgt, pr = buffered(kind, f, tgt, prob(pshape))
    lf, tf = wrap(f, kind), wrap(tgt, kind)
    task = AttributionTask(loss_func=lf, model=model, checkpoints=cks[0] if single else cks, target_func=tf)
    if reg == "sym":
        lam = S.scalar("lam", lo=0.5, hi=2.0)
        S.assume(lam > 0.01)
    else:
        lam = reg
    pp = TRAKProjectionParams(proj_type=proj, proj_dim=dim, proj_seed=3)
    a = TRAKAttributor(task=task, correct_probability_func=wrap(pr, kind) if kind == "triple" else pr, proj_params=pp, layer_name=layer, **unless_default(lam, 0.0, "regularization"))
    return f, tgt, cks, X, Y, Xt, Yt, task, lam, a, loader(X, Y, bs, kind), loader(Xt, Yt, tbs, kind)


def expected(f, tgt, cks, X, Y, Xt, Yt, lam, names, proj, dim):
    T, Q = 0, 0
    for c, ck in enumerate(cks):
        g, h = grads(f, ck, rows(X, Y), names), grads(tgt, ck, rows(Xt, Yt), names)
        p = g.shape[1]
        P = projm(proj, dim, p, c)
        g, h = g @ P / 2.0, h @ P / 2.0
        d = g.shape[1]
        K = g.T @ g + lam * torch.eye(d)
        T = T + h @ torch.linalg.inv(K) @ g.T
        Q = Q + torch.stack([1 - prob(())(ck, (s[0] * ck.get("scale", 1), s[1])) for s in rows(X, Y)])
    return ((T / len(cks)) * (Q / len(cks))[None, :]).T


def harness(S, names=None, cached=False, hist="", **kw):
    f, tgt, cks, X, Y, Xt, Yt, task, lam, a, tr, te = setup(S, **kw)
    if "edit" in hist:  # the same loaders, whose data are written to between the calls
        *old, write = edited(S, X, Y, Xt, Yt)
        tr, te = loader(*old[:2], kw.get("bs", 2)), loader(*old[2:], kw.get("tbs", 2))
        if cached:
            a.cache(tr)
            a.attribute(te)
        else:
            a.attribute(te, tr)
            a.self_attribute(tr)
        write()
    if "self" in hist and not cached:
        a.self_attribute(tr)
    if cached:
        if "foreign" in hist:
            a.cache(loader(S.tensor("X0", *X.shape), S.tensor("Y0", *Y.shape), 2, kw.get("kind", "tuple")))
        a.cache(tr)
        if "recache" in hist:
            a.cache(loader(X, Y, 1, kw.get("kind", "tuple")))
        if "self" in hist:
            a.self_attribute()
        if "twice" in hist:
            a.attribute(te)
        out = a.attribute(te)
    else:
        if "other" in hist:
            a.attribute(tr, te)
        if "twice" in hist:
            a.attribute(te, tr)
        out = a.attribute(te, tr)
    exp = expected(f, tgt, cks, X, Y, Xt, Yt, lam, names or NAMES, kw.get("proj", "identity"), kw.get("dim", 2))
    S.check(out, exp, "TRAK scores")


L1, L2, B = ["l1.weight"], ["l2.weight"], ["l2.bias"]
for c in (False, True):
    t = "cached" if c else "direct"
    for bs in (1, 2, 3):
        case(CASES, f"{t}-layer1-batch{bs}", harness, cached=c, bs=bs, tbs=1 + bs % 2, layer=L1, names=L1)
    case(CASES, f"{t}-two-checkpoints", harness, cached=c, nck=2, layer=L1, names=L1, n=2, bs=1)
    case(CASES, f"{t}-two-checkpoints-bias", harness, cached=c, nck=2, layer=B, names=B, loss="p", bs=2)
    case(CASES, f"{t}-subset-sampler", harness, cached=c, kind="subset", layer=L1, names=L1, n=3, bs=2)
    case(CASES, f"{t}-three-values-per-sample", harness, cached=c, kind="triple", layer=L1, names=L1, n=3, bs=2)
    case(CASES, f"{t}-three-checkpoints", harness, cached=c, nck=3, layer=B, names=B, loss="p", n=2, m=1, bs=1)
    case(CASES, f"{t}-buffers-of-each-checkpoint", harness, cached=c, kind="buffer", nck=2, layer=B if c else L2, names=B if c else L2, n=2, m=1, bs=1)
    case(CASES, f"{t}-four-checkpoints", harness, cached=c, nck=4, layer=B, names=B, loss="q", n=2, m=1, bs=2)
    case(CASES, f"{t}-two-layers-dict", harness, cached=c, layer=["l2.weight", "l2.bias"], names=["l2.weight", "l2.bias"], kind="dict", bs=2)
    case(CASES, f"{t}-prob-shape1", harness, cached=c, layer=B, names=B, pshape=(1,), bs=2)
    case(CASES, f"{t}-layer-string", harness, cached=c, layer="l2.bias", names=["l2.bias"], nck=2, n=2)
    case(CASES, f"{t}-reg0", harness, cached=c, layer=B, names=B, reg=0.0, bs=3, loss="q")
    case(CASES, f"{t}-history", harness, cached=c, layer=L1, names=L1, hist="self twice other recache", n=2, bs=2)
    case(CASES, f"{t}-history-2", harness, cached=c, nck=2, layer=B, names=B, hist="foreign twice", n=2, bs=1)
    case(CASES, f"{t}-data-written-to", harness, cached=c, layer=B, names=B, hist="edit", n=2, bs=1)
    case(CASES, f"{t}-single-ckpt-not-list", harness, cached=c, layer=L2, names=L2, single=True)
    case(CASES, f"{t}-projected-normal", harness, cached=c, proj="normal", dim=1, n=2, m=1, bs=1, loss="p", cost=3)
    case(CASES, f"{t}-projected-rademacher", harness, cached=c, proj="rademacher", dim=2, n=2, m=1, bs=2, nck=1, loss="q", cost=3)
    case(CASES, f"{t}-all-parameters", harness, cached=c, n=2, m=1, bs=1, loss="q", cost=5)
