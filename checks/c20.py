"""C20: block-projected influence scores."""
import os
import shutil
import tempfile
import warnings

import torch
from torch import nn
from torch.utils.data import DataLoader, TensorDataset

from dattri.algorithm.block_projected_if.block_projected_if import BlockProjectedIFAttributor
from dattri.algorithm.factgrass import FactGraSSAttributor
from dattri.algorithm.logra import LoGraAttributor
from dattri.benchmark.utils import SubsetSampler
from dattri.params.projection import FactGrassProjectionParams, GeneralProjectionParams, LoGraProjectionParams
from dattri.task import AttributionTask

from .c12 import patched
from .c21 import compress, mats
from .c24 import collect
from .common import *  # noqa: F403
from .threads import world

BOUNDS = ("networks of 1-3 linear layers (side by side or in a chain) with 1-2 features, with and without bias, sequences of length 1-2; 1-4 training samples (up to 6 one-sample batches) and 1-3 test samples (33 once), "
          "every batch split of them, drop_last and subset samplers; Identity and eFIM with default, given and per-call damping on layers of 1-2 dimensions; LoGra, FactGraSS and free identity/normal/random-mask compression; "
          "storage none/cpu/disk with chunk sizes 1-3; layers that take part in some batches only, frozen and unused layers; caching twice, attributing twice, without cache(), and self-attribution from a reopened directory; all real weights, inputs, targets and compressor draws")
ASSUMPTIONS = ["losses are means over the batch of per-sample losses linear in the outputs (gradients of other losses: C21)", "the damped Fisher matrices are not singular (positive trace)", "exact arithmetic; writer threads run at blocking points only (C24)"]
CASES = []


class Net(nn.Module):
    """Linear layers side by side (each reads its own columns) or in a chain."""

    def __init__(self, shapes, bias, chain=False):
        super().__init__()
        self.shapes, self.chain = shapes, chain
        for j, (o, i) in enumerate(shapes):
            self.add_module(f"l{j}", nn.Linear(i, o, bias=bias[j]))
        with torch.no_grad():
            for q in self.parameters():
                q.zero_()

    def forward(self, x):
        return run({k: v for k, v in self.named_modules()}, self.shapes, self.chain, x, lambda m, v: m(v))


def run(layers, shapes, chain, x, call):
    if chain:
        for j in range(len(shapes)):
            x = call(layers[f"l{j}"], x)
        return x
    out, at = [], 0
    for j, (o, i) in enumerate(shapes):
        out.append(call(layers[f"l{j}"], x[..., at:at + i]))
        at += i
    return torch.cat(out, dim=-1)


def plain(params, shapes, chain, x):
    def lin(n, v):
        y = v @ params[n + ".weight"].T
        return y + params[n + ".bias"] if n + ".bias" in params else y
    return run({f"l{j}": f"l{j}" for j in range(len(shapes))}, shapes, chain, x, lin)


def lfun(out, y):
    """Loss of one sample: weights y on the outputs (the last sequence position counts twice)."""
    v = (out * y).sum()
    return v + (out[-1] * y[-1]).sum() if out.dim() > 1 else v


def tfun(out, y):
    """A target different from the loss."""
    return -2.0 * out.sum() + out.reshape(-1)[0] * y.reshape(-1)[-1]


def batch_fn(f, dic=False):
    def g(model, batch, device):
        x, y = (batch["x"], batch["y"]) if dic else batch
        out = model(**{k: v.to(device) for k, v in batch.items()}) if dic else model(x.to(device))
        return sum(f(out[i], y[i].to(device)) for i in range(x.shape[0])) / x.shape[0]
    return g


class DNet(Net):
    def forward(self, x, y):
        return Net.forward(self, x)


def grads_of(params, shapes, chain, names, f, X, Y):
    """Per sample and layer, the matrix [dW | db]."""
    out = []
    for i in range(X.shape[0]):
        leaf = {k: v.detach().clone().requires_grad_(True) for k, v in params.items()}
        keys = [k for k in leaf if k.rsplit(".", 1)[0] in names]
        val = f(plain(leaf, shapes, chain, X[i].detach()), Y[i].detach())
        g = dict(zip(keys, torch.autograd.grad(val, [leaf[k] for k in keys])))
        out.append([torch.cat([g[n + ".weight"]] + ([g[n + ".bias"].reshape(-1, 1)] if n + ".bias" in g else []), dim=1) for n in names])
    return out


def inverse(M):
    k = M.shape[0]
    if k == 1:
        return 1 / M
    if k == 2:
        d = M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
        return torch.stack([torch.stack([M[1, 1], -M[0, 1]]), torch.stack([-M[1, 0], M[0, 0]])]) / d
    c = [[(-1) ** (i + j) * (lambda s: s[0, 0] * s[1, 1] - s[0, 1] * s[1, 0])(M[[r for r in range(3) if r != j]][:, [r for r in range(3) if r != i]]) for j in range(3)] for i in range(3)]
    return torch.stack([torch.stack(r) for r in c]) / sum(M[0, j] * c[j][0] for j in range(3))


def make(kind, task, names, hessian, damping, offload, d, chunk, proj):
    kw = dict(layer_names=names, cache_dir=d if offload == "disk" else None)
    for val, default, name in ((hessian, "eFIM", "hessian"), (damping, None, "damping"), (offload, "cpu", "offload"), (chunk, 16, "chunk_size")):
        kw.update(unless_default(val, default, name))
    if kind == "logra":
        return LoGraAttributor(task, proj_params=LoGraProjectionParams(proj_dim_per_layer=proj, proj_seed=7), **kw)
    if kind == "factgrass":
        return FactGraSSAttributor(task, proj_params=FactGrassProjectionParams(proj_dim_per_layer=proj[0], proj_seed=7), blowup_factor=proj[1], **kw)
    sp, pr = proj or (("identity", -1), ("identity", -1))
    g = lambda t, p: GeneralProjectionParams(proj_type=t, proj_dim=p, proj_seed=5)  # noqa: E731
    return BlockProjectedIFAttributor(task, sparsifier_params=g(*sp), projector_params=g(*pr), **kw)


def scores(S, kind="block", shapes=((1, 2),), bias=None, chain=False, seq=0, n=2, m=1, bs=2, tbs=2, hessian="eFIM", damping=None, offload="none", chunk=2, proj=None,
           names=None, target=False, hist=("cache", "attr"), sampler=None, drop=False, dic=False, ck=1, order=None, say="scores", double=False):
    bias = bias or (False,) * len(shapes)
    torch.set_default_dtype(torch.float64 if double else torch.float32)
    xdim = shapes[0][1] if chain else sum(i for _, i in shapes)
    ydim = shapes[-1][0] if chain else sum(o for o, _ in shapes)
    sh = (seq,) if seq else ()
    net = (DNet if dic else Net)(shapes, bias, chain)
    cks = [{k: S.tensor(f"w{c}_{i}", *v.shape) for i, (k, v) in enumerate(net.named_parameters())} for c in range(ck)]
    P0 = cks[0]
    order = list(order or ([names] if isinstance(names, str) else names or [f"l{j}" for j in range(len(shapes))]))
    if S.sym:
        S.e.numpy_policy = "tag"
    d, old = tempfile.mkdtemp(prefix="c20"), os.getcwd()
    os.makedirs(d + "/cwd")
    os.chdir(d + "/cwd")
    try:
        with warnings.catch_warnings(), patched(S, perms=True), world(S, free=False):
            warnings.simplefilter("ignore")
            lf = batch_fn(lfun, dic)
            task = AttributionTask(loss_func=lf, model=net, checkpoints=cks if ck > 1 else cks[0], target_func=batch_fn(tfun, dic) if target else None)
            f_te = tfun if target else lfun

            def data(tag, k):
                return S.tensor("X" + tag, k, *sh, xdim), S.tensor("Y" + tag, k, *sh, ydim)

            def dl(X, Y, b, **kw):
                return loader(X, Y, b, "dict" if dic else "tuple", **kw)

            att = make(kind, task, names, hessian, damping, offload, d, chunk, proj)
            S.check_true(list(att.layer_names) == order, "layers")
            X, Y = data("a", n)
            M = None
            T = 0
            damp = damping
            cached = None
            for step in hist:
                if step in ("cache", "cache2"):
                    if step == "cache2":  # another data set
                        k = n + 1 if n < 3 else n - 1
                        X, Y = data("b", k)
                    idx = list(sampler) if sampler else list(range(X.shape[0]))
                    if drop:
                        idx = idx[:len(idx) // bs * bs]
                    kw = dict(sampler=SubsetSampler(list(sampler))) if sampler else {}
                    tr = dl(X, Y, bs, drop_last=drop, **kw)
                    Gm = grads_of(P0, shapes, chain, order, lfun, X[idx], Y[idx])
                    if kind == "block" and proj is None and hessian == "eFIM":
                        pos(S, Gm, len(order))
                    att.cache(tr)
                    cached = (idx, Gm)
                    M = M or [mats(c, *shape_of(shapes, bias, nm)) for nm, c in zip(order, att.compressors)]
                elif step in ("attr", "first", "attrsub"):
                    T += 1
                    Xt, Yt = data(f"t{T}", m if T == 1 else 3 - m if m < 3 else 2)
                    te = dl(Xt, Yt, tbs)
                    if step == "first":  # without cache()
                        idx = list(range(n))
                        tr = dl(X, Y, bs)
                        Gm = grads_of(P0, shapes, chain, order, lfun, X, Y)
                        if hessian == "eFIM" and proj is None:
                            pos(S, Gm, len(order))
                        cached = (idx, Gm)
                    use = list(range(len(cached[1])))
                    arg = tr
                    if step == "attrsub":
                        use = use[1:]
                        sub = [cached[0][u] for u in use]
                        arg = dl(X[sub], Y[sub], bs)
                    got = att.attribute(arg, te)
                    M = M or [mats(c, *shape_of(shapes, bias, nm)) for nm, c in zip(order, att.compressors)]
                    Gt = grads_of(P0, shapes, chain, order, f_te, Xt, Yt)
                    want = expect(S, M, cached[1], Gt, hessian, damp)[use]
                    S.check_true(tuple(got.shape) == tuple(want.shape), "a row per training sample, a column per test sample")
                    S.check(got, want, say, tol=1e-3)
                elif step == "self":
                    got = att.compute_self_attribution()
                    want = expect(S, M, cached[1], None, hessian, damp)
                    S.check_true(tuple(got.shape) == tuple(want.shape), "one self-attribution per training sample")
                    S.check(got, want, "self-attributions", tol=1e-3)
                elif step == "damp":
                    damp = 0.5
                    att.compute_preconditioners(damping=0.5)
                    att.compute_ifvp()
                elif step == "reopen":
                    att = make(kind, task, names, hessian, damping, offload, d, chunk, proj)
                elif step == "reopen-other":  # another attributor in the same working directory
                    att = make(kind, task, names, hessian, damping, offload, d + "/other", chunk, proj)
            for k, v in net.named_parameters():
                S.check(v.detach(), P0[k], "parameters unchanged")
    finally:
        torch.set_default_dtype(torch.float64)
        os.chdir(old)
        collect()
        shutil.rmtree(d, ignore_errors=True)


class Sometimes(nn.Module):
    """Layers that take part in some batches only (t says which), one that never does."""

    def __init__(self, freeze=()):
        super().__init__()
        self.l0, self.l1, self.l2, self.l3 = nn.Linear(2, 1, bias=False), nn.Linear(1, 1, bias=False), nn.Linear(1, 1), nn.Linear(1, 1)
        for j in freeze:
            for q in getattr(self, f"l{j}").parameters():
                q.requires_grad_(False)

    def forward(self, x, t=None):
        k = 3 if t is None else int(t[0])
        return torch.cat([self.l0(x) if k & 1 else x[:, :1] * 0, self.l1(x[:, :1]) if k & 2 else x[:, :1] * 0], dim=1) + 0 * self.l3(x[:, :1])


def partial(S, hessian="Identity", offload="none", ts=(3, 3, 1, 1), tt=(3, 1), bs=2, freeze=(), names=("l0", "l1")):
    """A layer that takes no part in a batch (or is frozen, or never used) has a zero gradient there."""
    torch.set_default_dtype(torch.float32)
    net = Sometimes(freeze)
    P0 = {k: S.tensor(f"w{i}", *v.shape) for i, (k, v) in enumerate(net.named_parameters())}
    if S.sym:
        S.e.numpy_policy = "tag"
    d, old = tempfile.mkdtemp(prefix="c20"), os.getcwd()
    os.chdir(d)

    def lf(model, batch, device):
        x, y, t = batch
        out = model(x.to(device), t)
        return sum(lfun(out[i], y[i].to(device)) for i in range(x.shape[0])) / x.shape[0]

    def data(tag, t):
        X, Y = S.tensor("X" + tag, len(t), 2), S.tensor("Y" + tag, len(t), 2)
        G = []
        for i in range(len(t)):
            G.append([Y[i, :1].reshape(1, 1) * X[i].reshape(1, 2) * (t[i] & 1), Y[i, 1].reshape(1, 1) * X[i, :1].reshape(1, 1) * (t[i] >> 1 & 1)])
        return DataLoader(TensorDataset(X, Y, torch.tensor(t)), batch_size=bs if tag == "a" else 1), G

    try:
        with warnings.catch_warnings(), patched(S, perms=True), world(S, free=False):
            warnings.simplefilter("ignore")
            task = AttributionTask(loss_func=lf, model=net, checkpoints=P0)
            att = make("block", task, list(names), hessian, 0.25, offload, d, 2, None)
            tr, G = data("a", ts)
            te, Gt = data("t", tt)
            act = [j for j in (0, 1) if j not in freeze and f"l{j}" in names and any(t >> j & 1 for t in ts)]
            G, Gt = [[g[j] for j in act] for g in G], [[g[j] for j in act] for g in Gt]
            if hessian == "eFIM":
                pos(S, G, len(act))
            att.cache(tr)
            got = att.attribute(tr, te)
            M = [mats(att.compressors[list(names).index(f"l{j}")], 1, 2 - j) for j in act]
            S.check(got, expect(S, M, G, Gt, hessian, 0.25), "scores", tol=1e-3)
            S.check(att.compute_self_attribution(), expect(S, M, G, None, hessian, 0.25), "self-attributions", tol=1e-3)
    finally:
        torch.set_default_dtype(torch.float64)
        os.chdir(old)
        collect()
        shutil.rmtree(d, ignore_errors=True)


def shape_of(shapes, bias, nm):
    j = int(nm[1:])
    return shapes[j][0], shapes[j][1] + int(bias[j])


def pos(S, G, L):
    for j in range(L):
        S.assume((sum((g[j] * g[j]).sum() for g in G) > 0).all() if not S.sym else sum((g[j] * g[j]).sum() for g in G) > 0)


def expect(S, M, Gtr, Gte, hessian, damping):
    total = 0
    for j in range(len(M)):
        a = torch.cat([compress(M[j], g[j]) for g in Gtr])
        b = None if Gte is None else torch.cat([compress(M[j], g[j]) for g in Gte])
        H = None
        if hessian == "eFIM":
            F = sum(torch.outer(r, r) for r in a) / a.shape[0]
            k = F.shape[0]
            tr = sum(F[i, i] for i in range(k))
            H = inverse(F + (1e-5 if damping is None else damping) * tr / k * torch.eye(k))
        pa = a if H is None else a @ H
        total = total + ((pa * a).sum(dim=1) if b is None else pa @ b.T)
    return total


O = {"max_paths": 200}
for off in ("none", "cpu", "disk"):
    for hs, dm in (("Identity", None), ("eFIM", 0.25), ("eFIM", None)):
        t = f"{off}-{hs}-{dm}"
        case(CASES, f"{t}-one", scores, hessian=hs, damping=dm, offload=off, n=3, bs=2, m=2, tbs=1, hist=("cache", "attr", "self"), opts=O)
        case(CASES, f"{t}-two-layers", scores, shapes=((1, 2), (1, 1)), hessian=hs, damping=dm, offload=off, n=2, bs=1, m=1, hist=("cache", "self", "attr"), opts=O)
    for hs, dm in (("Identity", None), ("eFIM", 0.5)):
        t = f"{off}-{hs}"
        case(CASES, f"{t}-no-cache", scores, shapes=((1, 1), (2, 1)), hessian=hs, damping=dm, offload=off, n=2, bs=1, m=1, hist=("first", "self", "attr"), opts=O)
        case(CASES, f"{t}-again", scores, shapes=((1, 1), (1, 1)), hessian=hs, damping=dm, offload=off, n=2, bs=2, m=2, hist=("cache", "attr", "cache2", "self", "attr"), opts=O)
        case(CASES, f"{t}-again-fewer", scores, shapes=((1, 1), (1, 1)), hessian=hs, damping=dm, offload=off, n=3, bs=1, m=1, hist=("cache", "cache2", "attr", "self"), opts=O)
        case(CASES, f"{t}-drop", scores, shapes=((1, 1),), hessian=hs, damping=dm, offload=off, n=3, bs=2, drop=True, hist=("cache", "attr", "self"), opts=O)
        case(CASES, f"{t}-sampler", scores, shapes=((1, 1),), hessian=hs, damping=dm, offload=off, n=4, bs=2, sampler=(0, 3, 1), hist=("cache", "attr", "self"), opts=O)
        case(CASES, f"{t}-target", scores, shapes=((1, 1), (1, 1)), hessian=hs, damping=dm, offload=off, target=True, m=2, tbs=1, hist=("cache", "attr", "self"), opts=O)
        case(CASES, f"{t}-six-batches", scores, shapes=((1, 1),), hessian=hs, damping=dm, offload=off, n=6, bs=1, chunk=1, hist=("cache", "attr", "self"), opts=O)
        case(CASES, f"{t}-cwd", scores, shapes=((1, 1), (1, 1)), hessian=hs, damping=dm, offload=off, n=2, bs=1, hist=("cache", "reopen-other", "cache2", "attr", "self"), opts=O)
    case(CASES, f"{off}-33-tests", scores, shapes=((1, 1),), hessian="Identity", offload=off, n=2, m=33, tbs=11, bs=1, opts=O)

def composition(S, kind, proj):
    """LoGra and FactGraSS are the block-projected attributor with their two documented stages."""
    torch.set_default_dtype(torch.float32)
    shapes = ((2, 3), (1, 2))
    net = Net(shapes, (False, False), False)
    ck = {k: S.tensor(f"w_{i}", *v.shape) for i, (k, v) in enumerate(net.named_parameters())}
    X, Y, Xt, Yt = S.tensor("X", 2, 5), S.tensor("Y", 2, 3), S.tensor("Xt", 1, 5), S.tensor("Yt", 1, 3)

    def lf(model, batch, device):
        x, y = batch
        r = model(x)
        return (r * r * y + r).sum()
    kw = dict(layer_names=["l0", "l1"], hessian="Identity", offload="none")
    with patched(S, perms=True), world(S, free=False):
        out = []
        for own in (False, True):
            net.load_state_dict(ck)
            task = AttributionTask(loss_func=lf, model=net, checkpoints=ck)
            torch.manual_seed(11)
            if own:
                g = lambda t, p: GeneralProjectionParams(proj_type=t, proj_dim=p, proj_seed=7)  # noqa: E731
                sp, pr = (("normal", proj[0]), ("identity", -1)) if kind == "logra" else (("random_mask", proj[0]), ("normal", proj[1]))
                a = BlockProjectedIFAttributor(task, sparsifier_params=g(*sp), projector_params=g(*pr), **kw)
            elif kind == "logra":
                a = LoGraAttributor(task, proj_params=LoGraProjectionParams(proj_dim_per_layer=proj[0] ** 2, proj_seed=7), **kw)
            else:
                a = FactGraSSAttributor(task, proj_params=FactGrassProjectionParams(proj_dim_per_layer=proj[1], proj_seed=7), blowup_factor=proj[0] ** 2 // proj[1], **kw)
            a.cache(loader(X, Y, 2))
            out.append(a.attribute(loader(X, Y, 2), loader(Xt, Yt, 1)))
    S.check(out[0], out[1], "scores", tol=1e-3)


for hs, dm in (("Identity", None), ("eFIM", 0.5)):
    for chunk in (1, 3):
        case(CASES, f"reopened-{hs}-chunk{chunk}", scores, shapes=((1, 1), (1, 1)), hessian=hs, damping=dm, offload="disk", chunk=chunk, n=3, bs=1, hist=("cache", "reopen", "self"), opts=O)
    for b in ((True,), (False,)):
        case(CASES, f"seq-{hs}-bias{int(b[0])}", scores, shapes=((1, 1),), bias=b, seq=2, hessian=hs, damping=dm, n=2, bs=1, opts=O)
    case(CASES, f"bias-{hs}", scores, shapes=((1, 1),), bias=(True,), hessian=hs, damping=dm, n=2, bs=2, m=2, hist=("cache", "self", "attr"), opts=O)
    case(CASES, f"chain-{hs}", scores, shapes=((1, 1), (1, 1)), chain=True, hessian=hs, damping=dm, n=2, bs=1, m=1, opts=O)
    case(CASES, f"chain-order-{hs}", scores, shapes=((1, 2), (1, 1)), names=["l1", "l0"], chain=True, hessian=hs, damping=dm, n=2, bs=2, m=1, opts=O)
    case(CASES, f"one-of-two-{hs}", scores, shapes=((1, 2), (2, 1)), names="l1", chain=True, hessian=hs, damping=dm, n=2, bs=2, m=1, opts=O)
    case(CASES, f"dict-{hs}", scores, shapes=((1, 2),), dic=True, hessian=hs, damping=dm, n=2, bs=1, m=2, target=True, hist=("cache", "attr", "self"), opts=O)
    case(CASES, f"checkpoints-{hs}", scores, shapes=((1, 1), (1, 1)), chain=True, ck=2, hessian=hs, damping=dm, n=2, bs=1, opts=O)
    case(CASES, f"logra1-{hs}", scores, kind="logra", proj=1, shapes=((1, 2), (2, 1)), hessian=hs, damping=dm, n=2, bs=1, m=1, hist=("cache", "attr", "self"), opts=O)
    case(CASES, f"logra4-{hs}", scores, kind="logra", proj=4, shapes=((2, 1),), hessian="Identity", n=2, bs=1, m=1, hist=("cache", "attr", "self"), opts=O)
    case(CASES, f"factgrass-{hs}", scores, kind="factgrass", proj=(1, 4), shapes=((2, 2),), hessian=hs, damping=dm, n=2, bs=1, m=1, hist=("cache", "attr", "self"), opts=O)
    case(CASES, f"normal-{hs}", scores, proj=(("normal", 1), ("normal", 2)), shapes=((1, 2),), hessian=hs, damping=dm, n=2, bs=1, m=1, opts=O)
for off in ("none", "cpu", "disk"):
    case(CASES, f"double-{off}", scores, shapes=((1, 2), (1, 1)), damping=0.25, double=True, n=2, bs=1, offload=off, hist=("cache", "attr", "self"), opts=O)
    for bs in (1, 2, 3, 4):
        case(CASES, f"split-{off}-{bs}", scores, shapes=((1, 1), (1, 2)), damping=0.25, n=4, bs=bs, m=2, tbs=1 + bs % 2, offload=off, hist=("cache", "attr"), opts=O)
        case(CASES, f"split-seq-{off}-{bs}", scores, shapes=((1, 1), (2, 1)), bias=(True, False), seq=2, hessian="Identity", n=5, bs=bs, m=3, tbs=2, offload=off, hist=("cache", "attr", "self"), opts=O)
case(CASES, "three-columns", scores, shapes=((1, 3),), damping=0.5, n=1, m=1, hist=("cache", "attr"), opts=O)
case(CASES, "damping-per-call", scores, shapes=((1, 1), (1, 1)), damping=0.25, n=2, bs=1, hist=("cache", "damp", "attr", "self"), opts=O)
case(CASES, "damping-zero", scores, shapes=((1, 1), (1, 1)), damping=0.0, n=2, bs=1, hist=("cache", "attr", "self"), opts=O)
case(CASES, "subset-after-cache", scores, shapes=((1, 1),), damping=0.25, n=3, bs=2, hist=("cache", "attrsub"), opts=O)
for off in ("none", "cpu", "disk"):
    for hs in ("Identity", "eFIM"):
        case(CASES, f"partial-{off}-{hs}", partial, hessian=hs, offload=off, **(dict(ts=(3, 1), bs=1) if hs == "eFIM" else {}), opts=O)
        case(CASES, f"frozen-{off}-{hs}", partial, hessian=hs, offload=off, ts=(3, 3), tt=(3, 1), freeze=(0,), opts=O)
    case(CASES, f"never-used-{off}", partial, hessian="eFIM", offload=off, ts=(3, 3), tt=(3, 1), names=("l0", "l2", "l1"), opts=O)
    case(CASES, f"partial-alone-{off}", partial, offload=off, ts=(2, 0, 2), tt=(2, 0), bs=1, names=("l1",), opts=O)

for d in (1, 2):
    case(CASES, f"logra-stages-{d}", composition, kind="logra", proj=(d,), opts=O)
case(CASES, "factgrass-stages-2-1", composition, kind="factgrass", proj=(2, 1), opts=O)
case(CASES, "factgrass-stages-1-1", composition, kind="factgrass", proj=(1, 1), opts=O)
case(CASES, "factgrass-stages-2-2", composition, kind="factgrass", proj=(2, 2), opts=O)
