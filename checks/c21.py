"""C21: gradient capture during the backward pass."""
import gc

import torch
from torch import nn

from dattri.algorithm.block_projected_if.core import hook as HK
from dattri.algorithm.block_projected_if.core.compressor import setup_model_compressors
from dattri.algorithm.block_projected_if.core.hook import HookManager
from dattri.params.projection import GeneralProjectionParams

from .c12 import patched
from .common import *  # noqa: F403

BOUNDS = ("two-layer networks with 1-3 features per layer (square and none as activation) and a third, uncaptured layer; 1-3 samples, sequence lengths 1-3, with and without bias, "
          "captured layers in any order; identity, normal, rademacher and random-mask compression on both stages (every mask), up to 3 batches in a row; two capture managers at the same time on different layers or models; all real weights, inputs, loss weights and compressor draws")
ASSUMPTIONS = ["each captured layer is used once per forward pass; the loss is a mean over the batch"]
CASES = []


class Net(nn.Module):
    """out = l3(act(l2(act(l1 x))))"""

    def __init__(self, S, dims, bias, act, third=False):
        super().__init__()
        self.act = act
        self.names = ["l1", "block.l2"] + (["l3"] if third else [])
        self.l1 = nn.Linear(dims[0], dims[1], bias=bias[0])
        self.block = nn.Module()
        self.block.l2 = nn.Linear(dims[1], dims[2], bias=bias[1])
        if third:
            self.l3 = nn.Linear(dims[2], 1, bias=False)
        with torch.no_grad():
            for i, (k, q) in enumerate(list(self.named_parameters())):
                q.copy_(S.tensor(f"w{i}", *q.shape))

    def forward(self, x):
        h = self.l1(x)
        h = h * h if self.act == "square" else h
        h = self.block.l2(h)
        return self.l3(h * h) if hasattr(self, "l3") else h


def plain(params, dims, act, third, x):
    """The same network written out, for one sample."""
    def lin(n, v):
        out = v @ params[n + ".weight"].T
        return out + params[n + ".bias"] if n + ".bias" in params else out
    h = lin("l1", x)
    h = h * h if act == "square" else h
    h = lin("block.l2", h)
    return lin("l3", h * h) if third else h


def sample_loss(out, c):
    return (out * c).sum() + (out * out).sum()


def true_rows(params, names, dims, act, third, X, C, acts):
    """Per sample and layer, the matrix [dW | db] of that sample's own loss; and the outputs and input gradients."""
    rows_, outs, gin = [], [], []
    for i in range(X.shape[0]):
        leaf = {k: v.detach().clone().requires_grad_(True) for k, v in params.items()}
        x = X[i].detach().clone().requires_grad_(True)
        out = plain(leaf, dims, act, third, x)
        keys = [k for k in leaf if k.rsplit(".", 1)[0] in names]
        g = dict(zip(keys + ["x"], torch.autograd.grad(sample_loss(out, C[i]), [leaf[k] for k in keys] + [x])))
        rows_.append([torch.cat([g[n + ".weight"]] + ([g[n + ".bias"].reshape(-1, 1)] if n + ".bias" in g else []), dim=1) for n in names])
        outs.append(out.detach())
        gin.append(g["x"])
    return rows_, torch.stack(outs), torch.stack(gin)


def mats(c, o, i):
    """The matrices of a compressor."""
    A = c.sparsifier.sparsifier_comp[0](torch.eye(o), ensemble_id=0)
    B = c.sparsifier.sparsifier_comp[1](torch.eye(i), ensemble_id=0)
    P = c.projector.projector(torch.eye(A.shape[1] * B.shape[1]), ensemble_id=0)
    return A, B, P


def compress(M, G):
    A, B, P = M
    return (A.T @ G @ B).reshape(1, -1) @ P


def gp(kind, dim):
    return GeneralProjectionParams(proj_dim=dim, proj_type=kind, proj_seed=3)


def capture(S, n=2, seq=0, dims=(2, 1, 2), bias=(True, True), act="square", third=False, sp=("identity", -1), pr=("identity", -1), order=None, setup_n=None, batches=1, xgrad=True, after=True, off=False):
    net = Net(S, dims, bias, act, third)
    params = {k: v.detach().clone() for k, v in net.named_parameters()}
    names = order or net.names[:2]
    od = {"l1": (dims[1], dims[0] + bias[0]), "block.l2": (dims[2], dims[1] + bias[1])}
    shape = (seq,) if seq else ()
    with patched(S, perms=True):
        init = S.tensor("Xinit", setup_n or n, *shape, dims[0])
        with torch.no_grad():
            before = net(init)
        comps = setup_model_compressors(net, names, sparsifier_params=gp(*sp), projector_params=gp(*pr), sample_inputs=init, device="cpu")
        S.check_true(len(comps) == len(names) and [c.name for c in comps] == list(names), "a compressor per layer, in the order of the names")
        with torch.no_grad():
            S.check(net(init), before, "set-up leaves the model unchanged")
        M = [mats(c, *od[nm]) for nm, c in zip(names, comps)]
        hm = HookManager(net, names)
        hm.set_compressors(comps)
        for b in range(batches):
            k = n if b == 0 else n - 1 + 2 * (b % 2)
            X, C = S.tensor(f"X{b}", k, *shape, dims[0]), S.tensor(f"C{b}", k, *shape, 1 if third else dims[2])
            exp, outs, gin = true_rows(params, names, dims, act, third, X, C, None)
            net.zero_grad()
            x = X.clone().requires_grad_(xgrad)
            if off:
                hm.disable_hooks()
            out = net(x)
            S.check(out.detach(), outs, "outputs while capturing")
            loss = sum(sample_loss(out[i], C[i]) for i in range(k)) / k
            loss.backward()
            if xgrad:
                S.check(x.grad * k, gin, "input gradients while capturing")
            if off:
                for j, nm in enumerate(names):
                    mod = dict(net.named_modules())[nm]
                    S.check(mod.weight.grad * k, sum(r[j] for r in exp)[:, :mod.weight.shape[1]], "gradients while capturing is off")
                hm.enable_hooks()
                net.zero_grad()
                out = net(X)
                (sum(sample_loss(out[i], C[i]) for i in range(k)) / k).backward()
            got = hm.get_compressed_grads()
            for j in range(len(names)):
                want = torch.cat([compress(M[j], r[j]) for r in exp])
                S.check_true(got[j] is not None and tuple(got[j].shape) == tuple(want.shape), "a row per sample")
                S.check(got[j], want, f"compressed gradients of {names[j]}")
            if third:
                S.check(net.l3.weight.grad * k, sum(l3grad(params, act, X[i], C[i]) for i in range(k)), "gradients of other layers")
        hm.remove_hooks()
        if after:
            X, C = S.tensor("Xa", 1, *shape, dims[0]), S.tensor("Ca", 1, *shape, 1 if third else dims[2])
            exp, outs, gin = true_rows(params, names, dims, act, third, X, C, None)
            net.zero_grad()
            out = net(X)
            S.check(out.detach(), outs, "outputs afterwards")
            sample_loss(out[0], C[0]).backward()
            for j, nm in enumerate(names):
                mod = dict(net.named_modules())[nm]
                g = torch.cat([mod.weight.grad] + ([] if mod.bias is None else [mod.bias.grad.reshape(-1, 1)]), dim=1)
                S.check(g, exp[0][j], "gradients afterwards")
                S.check_true(not hasattr(mod, "_original_forward") and type(mod).forward is nn.Linear.forward, "forward restored")
            for k2, v in net.named_parameters():
                S.check(v.detach(), params[k2], "weights unchanged")
        S.check_true(id(hm) not in getattr(HK, "_HOOK_MANAGER_REGISTRY", {}), "no manager left behind")


def l3grad(params, act, x, c):
    leaf = {k: v.detach().clone().requires_grad_(k == "l3.weight") for k, v in params.items()}
    return torch.autograd.grad(sample_loss(plain(leaf, None, act, True, x), c), leaf["l3.weight"])[0]


def together(S, models=1, first=0, k=2, seq=0):
    """Two capture managers at the same time: on two layers of one model, or on two models."""
    nets = [Net(S, (1, 2, 1), (True, False), "none")]
    if models == 2:
        b = Net(S, (1, 2, 1), (True, False), "none")
        with torch.no_grad():
            for i, q in enumerate(b.parameters()):
                q.copy_(S.tensor(f"u{i}", *q.shape))
        nets.append(b)
    names = ["l1", "block.l2"]
    od = {"l1": (2, 2), "block.l2": (1, 2)}
    sh = (seq,) if seq else ()
    with patched(S, perms=True):
        ms = []
        for j in range(2):
            net = nets[j % models]
            comps = setup_model_compressors(net, [names[j]], sparsifier_params=gp("identity", -1), projector_params=gp("identity", -1), sample_inputs=torch.zeros(k, *sh, 1), device="cpu")
            h = HookManager(net, [names[j]])
            h.set_compressors(comps)
            ms.append((h, net, names[j], mats(comps[0], *od[names[j]])))
        data = [(S.tensor(f"X{j}", k, *sh, 1), S.tensor(f"C{j}", k, *sh, 1)) for j in range(models)]
        outs = [net(X) for net, (X, _) in zip(nets, data)]
        for j in (range(models) if first == 0 else reversed(range(models))):
            (sum(sample_loss(outs[j][i], data[j][1][i]) for i in range(k)) / k).backward()
        for j, (h, net, nm, M) in enumerate(ms):
            params = {q: v.detach().clone() for q, v in net.named_parameters()}
            X, C = data[j % models]
            exp = true_rows(params, [nm], (1, 2, 1), "none", False, X, C, None)[0]
            got = h.get_compressed_grads()
            S.check_true(len(got) == 1 and got[0] is not None, "a capture per layer of the manager")
            S.check(got[0], torch.cat([compress(M, r[0]) for r in exp]), f"compressed gradients of {nm}")
        for h, *_ in (ms if first == 0 else ms[::-1]):
            h.remove_hooks()
        for net in nets:
            S.check_true(not any(hasattr(q, "_original_forward") for q in net.modules()), "nothing of the managers is left")
        with torch.no_grad():
            for net, (X, _), o in zip(nets, data, outs):
                S.check(net(X), o.detach(), "outputs afterwards")


for seq in (0, 1, 2, 3):
    for bias in ((True, True), (True, False), (False, True), (False, False)):
        case(CASES, f"capture-seq{seq}-bias{int(bias[0])}{int(bias[1])}", capture, seq=seq, bias=bias, dims=(2, 1, 2) if seq < 3 else (1, 1, 1))
for n in (1, 2, 3):
    case(CASES, f"batches-{n}", capture, n=n, batches=3 if n > 1 else 2, act="none", dims=(2, 2, 1))
    case(CASES, f"batches-seq-{n}", capture, n=n, seq=2, batches=2, act="none", dims=(1, 2, 1))
for kind in (("normal", 2), ("normal", 1), ("rademacher", 2), ("random_mask", 1), ("identity", -1)):
    for pk in (("normal", 2), ("random_mask", 1), ("identity", -1)):
        for seq in (0, 2):
            case(CASES, f"compress-{kind[0]}{kind[1]}-{pk[0]}-seq{seq}", capture, sp=kind, pr=pk, seq=seq, act="none", dims=(1, 1, 1) if pk[0] == "random_mask" else (2, 1, 2), after=False, xgrad=False, order=["block.l2"] if pk[0] == "random_mask" else None, opts={"max_paths": 150})
case(CASES, "order", capture, order=["block.l2", "l1"], third=True, act="none", dims=(1, 2, 1))
case(CASES, "order-compressed", capture, order=["block.l2", "l1"], sp=("normal", 1), act="none", dims=(1, 2, 2), n=1)
case(CASES, "one-layer", capture, order=["block.l2"], sp=("normal", 1), third=True, act="none", dims=(1, 2, 2), n=2)
case(CASES, "set-up-on-other-batch", capture, setup_n=1, n=3, sp=("normal", 2), act="none", dims=(1, 2, 1))
case(CASES, "switched-off", capture, off=True, act="none", dims=(1, 2, 1))
case(CASES, "switched-off-seq", capture, off=True, act="none", dims=(1, 1, 1), seq=2)
for models in (1, 2):
    for first in (0, 1):
        case(CASES, f"together-{models}-{first}", together, models=models, first=first, seq=2 * first)
