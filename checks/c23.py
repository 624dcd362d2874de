"""C23: data-value embeddings."""
import math
import warnings

import torch
from torch import nn

from dattri.algorithm.dvemb import DVEmbAttributor
from dattri.params.projection import DVEmbProjectionParams
from dattri.task import AttributionTask

from .c12 import patched
from .common import *  # noqa: F403

BOUNDS = ("1-4 recorded steps over 1-3 epochs (numbered from 0 or not), batches of 1-3 of up to 4 samples in every assignment for some histories, chains of 1-2 linear layers of 1-2 features with and without bias, "
          "sequence lengths 1-2; full, kronecker and elementwise gradients with and without projection, direct and context recording with parameters that change between steps; external gradients and rates, repeated caching; "
          "all real parameters, data, learning rates and projector draws")
ASSUMPTIONS = ["losses are means over the batch of per-sample losses linear in the outputs; exact arithmetic"]
CASES = []


class Net(nn.Module):
    def __init__(self, shapes, bias):
        super().__init__()
        self.n = len(shapes)
        for j, (o, i) in enumerate(shapes):
            self.add_module(f"l{j}", nn.Linear(i, o, bias=bias[j]))

    def forward(self, x):
        for j in range(self.n):
            x = getattr(self, f"l{j}")(x)
        return x


def plain(params, n, x):
    for j in range(n):
        x = x @ params[f"l{j}.weight"].T
        if f"l{j}.bias" in params:
            x = x + params[f"l{j}.bias"]
    return x


def sample_loss(out, y):
    v = (out * y).sum()
    return v + (out[-1] * y[-1]).sum() if out.dim() > 1 else v


def all_grads(params, n, names, X, Y):
    """Per sample: {layer: [dW | db]} of that sample's loss."""
    out = []
    for i in range(X.shape[0]):
        leaf = {k: v.detach().clone().requires_grad_(True) for k, v in params.items()}
        keys = list(leaf)
        g = dict(zip(keys, torch.autograd.grad(sample_loss(plain(leaf, n, X[i].detach()), Y[i].detach()), [leaf[k] for k in keys])))
        out.append({nm: (g[nm + ".weight"], g.get(nm + ".bias")) for nm in names})
    return out


def feature(att, kind, proj, order, G):
    """The row the attributor is to use for one sample's gradient."""
    if proj is None:
        return torch.cat([t.reshape(-1) for nm in order for t in G[nm] if t is not None])
    if kind == "none":
        full = torch.cat([t.reshape(-1) for nm in order for t in G[nm] if t is not None])
        return (full.reshape(1, -1) @ att.projector(torch.eye(full.shape[0])))[0]
    parts = []
    for (pa, pb), nm in zip(att.random_projectors, order):
        W = G[nm][0]
        A, B = pa(torch.eye(W.shape[1])), pb(torch.eye(W.shape[0]))
        if kind == "kronecker":
            parts.append((B.T @ W @ A).reshape(-1))
        else:
            parts.append(torch.stack([(W * torch.outer(B[:, k], A[:, k])).sum() for k in range(A.shape[1])]) * math.sqrt(A.shape[1]))
    return torch.cat(parts)


def dv(S, kind="none", api="direct", proj=None, shapes=((1, 2),), bias=None, seq=0, epochs=((0, ((0, 1),)),), samples=2, m=1, tbs=2, moving=False, layers=None, assign=False,
       lr="any", external=False, memory=True, again=None, pick=None, train=False, ptype=None):
    bias = bias or (False,) * len(shapes)
    L = len(shapes)
    sh = (seq,) if seq else ()
    net = Net(shapes, bias)
    order = [layers] if isinstance(layers, str) else list(layers or [f"l{j}" for j in range(L)])
    if kind == "none":
        order = [f"l{j}" for j in range(L)]
    count = [0]

    def weights():
        count[0] += 1
        new = {k: S.tensor(f"w{count[0]}_{i}", *v.shape) for i, (k, v) in enumerate(net.named_parameters())}
        with torch.no_grad():
            for k, v in net.named_parameters():
                v.copy_(new[k])
        return new

    def eager(model, batch, device):
        x, y = batch
        out = model(x.to(device))
        return sum(sample_loss(out[i], y[i].to(device)) for i in range(x.shape[0])) / x.shape[0]

    def func(params, batch):
        x, y = batch
        out = torch.func.functional_call(net, params, (x,))
        v = (out * y).sum()
        return v + (out[-1] * y[-1]).sum() if seq else v

    P = weights()
    X, Y = S.tensor("X", samples, *sh, shapes[0][1]), S.tensor("Y", samples, *sh, shapes[-1][0])
    with warnings.catch_warnings(), patched(S, perms=True):
        warnings.simplefilter("ignore")
        task = AttributionTask(loss_func=func if kind == "none" else eager, model=net, checkpoints={k: v.clone() for k, v in P.items()})
        with torch.no_grad():
            for k, v in net.named_parameters():
                v.copy_(P[k])
        pp = None if proj is None else DVEmbProjectionParams(proj_dim_per_layer=proj, proj_seed=5, **({"proj_type": ptype} if ptype else {}))
        att = DVEmbAttributor(task, proj_params=pp, factorization_type=kind, layer_names=layers)

        def record(history, tag):
            out = []
            for e, batches in history:
                for t, idx in enumerate(batches):
                    if assign:
                        idx = [S.choice(f"{tag}i{e}_{t}_{k}", samples) for k in range(len(idx))]
                    idx = list(idx)
                    eta = S.scalar(f"{tag}eta{e}_{t}") if lr == "any" else lr
                    xb, yb = X[idx], Y[idx]
                    before = {k: v.detach().clone() for k, v in net.named_parameters()}
                    G = all_grads(before, L, order, xb, yb)
                    if api == "direct":
                        if train:
                            net.zero_grad()
                            eager(net, (xb, yb), "cpu").backward()
                            grads_before = {k: v.grad.detach().clone() for k, v in net.named_parameters()}
                        att.cache_gradients(e, (xb, yb), torch.tensor(idx), eta)
                        for k, v in net.named_parameters():
                            S.check(v.detach(), before[k], "parameters unchanged by recording")
                            if train:
                                S.check_true(v.grad is not None, "gradients kept")
                                S.check(v.grad, grads_before[k], "parameter gradients unchanged by recording")
                    else:
                        with att.cache_gradients_context(e, torch.tensor(idx), eta):
                            net.zero_grad()
                            eager(net, (xb, yb), "cpu").backward()
                            if moving:
                                with torch.no_grad():
                                    for v in net.parameters():
                                        v.sub_(eta * v.grad)
                        for k, v in net.named_parameters():
                            nm, w = k.split(".")
                            if nm in order:
                                g = sum(x[nm][0 if w == "weight" else 1] for x in G) / len(idx)
                                S.check(v.grad, g, "parameter gradients of the recorded step")
                    out.append((e, idx, eta / len(idx), G))
                    if moving:
                        weights()
            return out

        steps = record(epochs, "")
        if again is not None:  # another run recorded by the same attributor
            att.cache(memory_saving=True)
            steps = record(again, "b")
        feats = [[feature(att, kind, proj, order, g) for g in G] for _, _, _, G in steps]
        etas = [eta for _, _, eta, _ in steps]
        kw = {}
        if external:
            D = feats[0][0].shape[0]
            feats = [[S.tensor(f"g{s}_{i}", D) for i in range(len(f))] for s, f in enumerate(feats)]
            etas = [S.scalar(f"xeta{s}") for s in range(len(steps))]
            es = sorted({e for e, *_ in steps})
            kw = dict(gradients={e: [torch.stack(f) for f, s in zip(feats, steps) if s[0] == e] for e in es}, learning_rates={e: [h for h, s in zip(etas, steps) if s[0] == e] for e in es})
        att.cache(memory_saving=memory, **kw)
        if not memory:
            att.cache(memory_saving=True)
        D = feats[0][0].shape[0]
        n = 1 + max(i for _, idx, _, _ in steps for i in idx)
        K = torch.eye(D)
        emb = {}
        for e in sorted({s[0] for s in steps}, reverse=True):
            emb[e] = torch.zeros(n, D)
            for s in reversed([k for k in range(len(steps)) if steps[k][0] == e]):
                for i, g in zip(steps[s][1], feats[s]):
                    emb[e] = emb[e] + torch.outer((torch.arange(n) == i).to(g.dtype), etas[s] * (K @ g))
                K = K @ (torch.eye(D) - etas[s] * sum(torch.outer(g, g) for g in feats[s]))
        S.check_true(sorted(att.embeddings) == sorted(emb), "an embedding for every epoch")
        for e in emb:
            S.check_true(tuple(att.embeddings[e].shape) == (n, D), "a row per training sample")
            S.check(att.embeddings[e], emb[e], f"embeddings of epoch {e}")
        last = {k: v.detach().clone() for k, v in net.named_parameters()}
        Xt, Yt = S.tensor("Xt", m, *sh, shapes[0][1]), S.tensor("Yt", m, *sh, shapes[-1][0])
        T = torch.stack([feature(att, kind, proj, order, g) for g in all_grads(last, L, order, Xt, Yt)])
        te = loader(Xt, Yt, tbs)
        total = sum(emb.values())
        S.check(att.attribute(te), total @ T.T, "scores")
        for e in emb:
            S.check(att.attribute(te, epoch=e), emb[e] @ T.T, "scores of one epoch")
        if pick:
            S.check(att.attribute(te, train_data_indices=list(pick)), total[list(pick)] @ T.T, "scores of selected training samples")
        for k, v in net.named_parameters():
            S.check(v.detach(), last[k], "parameters unchanged by attribution")


def kinds(S, ptype="rademacher"):
    """The kind of projection asked for is the one used."""
    net = Net(((1, 3),), (False,))
    task = AttributionTask(loss_func=lambda p, b: (torch.func.functional_call(net, p, (b[0],)) * b[1]).sum(), model=net, checkpoints={k: v.detach().clone() for k, v in net.named_parameters()})
    att = DVEmbAttributor(task, proj_params=DVEmbProjectionParams(proj_dim_per_layer=1, proj_type=ptype))
    X, Y = S.tensor("X", 2, 3), S.tensor("Y", 2, 1)
    att.cache_gradients(0, (X, Y), torch.arange(2), 0.5)
    M = att.projector(torch.eye(3))
    S.check(M * M, torch.ones_like(M), "signs only")


E2 = ((0, ((0, 1), (2,))), (1, ((2, 0),)))
O = {"max_paths": 300}
for kind, apis in (("none", ("direct",)), ("kronecker", ("direct", "context")), ("elementwise", ("direct", "context"))):
    for api in apis:
        t = f"{kind}-{api}"
        case(CASES, f"{t}-two-epochs", dv, kind=kind, api=api, shapes=((1, 2),), epochs=E2, samples=3, m=2, tbs=1, pick=(2, 0), opts=O)
        case(CASES, f"{t}-bias", dv, kind=kind, api=api, shapes=((1, 1),), bias=(True,), epochs=((0, ((0, 1), (1, 0))),), m=2, opts=O)
        case(CASES, f"{t}-chain", dv, kind=kind, api=api, shapes=((1, 1), (1, 1)), bias=(True, False), epochs=((0, ((0,), (1,))),), moving=True, opts=O)
        case(CASES, f"{t}-out2", dv, kind=kind, api=api, shapes=((2, 1),), bias=(True,), epochs=((0, ((0, 1),)),), moving=True, opts=O)
        case(CASES, f"{t}-seq", dv, kind=kind, api=api, shapes=((1, 2),), bias=(True,) if kind != "none" else (False,), seq=2, epochs=((0, ((0, 1),)), (1, ((1,),))), opts=O)
        case(CASES, f"{t}-assign", dv, kind=kind, api=api, shapes=((1, 1),), epochs=((0, ((0, 0), (0,))), (1, ((0,),))), samples=3, assign=True, lr=0.5, opts=O)
        case(CASES, f"{t}-later-epochs", dv, kind=kind, api=api, shapes=((1, 1),), epochs=((1, ((0, 1),)), (3, ((1,),))), opts=O)
        case(CASES, f"{t}-three-epochs", dv, kind=kind, api=api, shapes=((1, 1),), epochs=((0, ((0,), (1,))), (1, ((1,),)), (2, ((0, 1),))), memory=False, opts=O)
        case(CASES, f"{t}-again", dv, kind=kind, api=api, shapes=((1, 1),), epochs=((0, ((0, 1),)), (1, ((1, 0),))), again=((0, ((1,), (0,))),), opts=O)
        if kind == "none":
            case(CASES, f"{t}-external", dv, external=True, epochs=E2, samples=3, opts=O)
            case(CASES, f"{t}-projected", dv, proj=1, shapes=((1, 3),), epochs=((0, ((0, 1), (1,))),), opts=O)
            case(CASES, f"{t}-projected-two", dv, proj=2, shapes=((2, 1), (1, 2)), epochs=((0, ((0, 1),)),), opts=O)
        else:
            case(CASES, f"{t}-layer", dv, kind=kind, api=api, shapes=((1, 2), (1, 1)), layers="l1", epochs=((0, ((0, 1),)),), m=2, opts=O)
            case(CASES, f"{t}-order", dv, kind=kind, api=api, shapes=((1, 1), (1, 1)), layers=["l1", "l0"], epochs=((0, ((0, 1),)),), opts=O)
            case(CASES, f"{t}-projected", dv, kind=kind, api=api, proj=1, shapes=((2, 2),), epochs=((0, ((0, 1), (1,))),), m=2, tbs=1, opts=O)
            case(CASES, f"{t}-projected-k", dv, kind=kind, api=api, proj=4 if kind == "kronecker" else 2, shapes=((2, 3),), epochs=((0, ((0, 1),)),), opts=O)
            case(CASES, f"{t}-projected-seq", dv, kind=kind, api=api, proj=1, shapes=((1, 2),), seq=2, epochs=((0, ((0, 1),)), (1, ((1,),))), opts=O)
            case(CASES, f"{t}-projected-layers", dv, kind=kind, api=api, proj=1, shapes=((1, 2), (2, 1)), epochs=((0, ((0, 1),)), (1, ((0,),))), moving=True, opts=O)
    case(CASES, f"{kind}-training", dv, kind=kind, shapes=((1, 2),), bias=(True,), epochs=((0, ((0, 1),)),), train=True, opts=O)
case(CASES, "projection-type", kinds)
