"""Shared harness pieces: small models, losses, loaders and independent oracles."""
from __future__ import annotations

import torch
from torch import nn
from torch.utils.data import DataLoader, Dataset, TensorDataset

from dattri.benchmark.utils import SubsetSampler


class Toy(nn.Module):
    """Two layers; parameters are overwritten by the checkpoints."""

    def __init__(self):
        super().__init__()
        self.l1 = nn.Linear(2, 1, bias=False)
        self.l2 = nn.Linear(1, 1, bias=True)
        with torch.no_grad():
            for p in self.parameters():
                p.zero_()

    def forward(self, x):
        return self.l2(self.l1(x))


NAMES = ["l1.weight", "l2.weight", "l2.bias"]
SHAPES = {"l1.weight": (1, 2), "l2.weight": (1, 1), "l2.bias": (1,)}


def ckpt(S, c, kind="", **kw):
    d = {k: S.tensor(f"th{c}_{i}", *SHAPES[k], **kw) for i, k in enumerate(NAMES)}
    if kind == "buffer":
        d["scale"] = S.tensor(f"sc{c}", 1, lo=0.5, hi=2.0)
    return d


def buffered(kind, *fs):
    """The model and the functions; kind "buffer": they use a value that each checkpoint stores besides the parameters."""
    model = Toy()
    if kind != "buffer":
        return model, *fs
    model.register_buffer("scale", torch.ones(1))

    def use(f):
        def g(params, data):
            return f(params, (data[0] * params.get("scale", model.scale), data[1]))
        return g
    return model, *[use(f) for f in fs]


def loss_q(params, data):
    """Squared error of a two-layer product model."""
    x, y = data
    h = (params["l1.weight"].reshape(-1) * x.reshape(-1)).sum()
    r = h + params["l2.weight"].reshape(-1)[0] * x.reshape(-1)[0] + params["l2.bias"].reshape(-1)[0] - y.sum()
    return r * r


def loss_p(params, data):
    """Product of layers: gradients of one layer depend on the other layers."""
    x, y = data
    h = (params["l1.weight"].reshape(-1) * x.reshape(-1)).sum()
    return h * params["l2.weight"].reshape(-1)[0] + params["l2.bias"].reshape(-1)[0] * (y.sum() + params["l1.weight"].reshape(-1)[1])


def target_l(params, data):
    """A target different from the loss."""
    x, y = data
    h = (params["l1.weight"].reshape(-1) * x.reshape(-1)).sum()
    b = params["l2.bias"].reshape(-1)[0]
    return h * y.sum() + params["l2.weight"].reshape(-1)[0] * b


def wrap(f, kind):
    """The function for the batches of loader(..., kind)."""
    if kind == "dict":
        return lossd(f)
    if kind == "triple":
        return lambda params, data: f(params, (data[0] + data[2], data[1]))
    return f


def lossd(f):
    """dictionary-batch variant"""
    def g(params, data):
        return f(params, (data["x"], data["y"]))
    return g


class DictData(Dataset):
    def __init__(self, **kw):
        self.kw = kw

    def __len__(self):
        return len(next(iter(self.kw.values())))

    def __getitem__(self, i):
        return {k: v[i] for k, v in self.kw.items()}


def loader(X, Y, bs, kind="tuple", **kw):
    ts = [t for t in (X, Y) if t is not None]
    if kind in ("tuple", "buffer"):
        return DataLoader(TensorDataset(*ts), batch_size=bs, **kw)
    if kind == "triple":
        # three values per sample
        Z = torch.arange(1.0, X.shape[0] + 1).reshape(-1, *[1] * (X.dim() - 1)) * torch.ones_like(X.detach())
        return DataLoader(TensorDataset(X - Z, Y, Z), batch_size=bs, **kw)
    if kind == "subset":
        # a sampler that picks these rows, in this order, out of a larger data set
        n = X.shape[0]
        pad = [torch.cat([torch.full_like(t[:1].detach(), 3) if t.is_floating_point() else t[:1], *[t[i:i + 1] for i in reversed(range(n))], t[:1]]) for t in ts]
        return DataLoader(TensorDataset(*pad), batch_size=bs, sampler=SubsetSampler([n - i for i in range(n)]), **kw)
    return DataLoader(DictData(x=X, y=Y), batch_size=bs, **kw)


def edited(S, *ts):
    """Tensors that hold other values, and the function that writes the given values into them."""
    old = [S.tensor(f"before{i}", *t.shape) for i, t in enumerate(ts)]

    def write():
        for o, t in zip(old, ts):
            o.copy_(t)
    return *old, write


def rows(X, Y):
    return [(X[i], Y[i]) for i in range(X.shape[0])]


def grads(f, ck, samples, names=None):
    """Per-sample gradients by plain reverse differentiation, one sample at a time."""
    names = list(names or [k for k in ck if k != "scale"])
    out = []
    for s in samples:
        leaf = {k: v.detach().clone().requires_grad_(k in names) for k, v in ck.items()}
        l = f(leaf, s)
        g = torch.autograd.grad(l, [leaf[k] for k in names], allow_unused=True) if l.requires_grad else [None] * len(names)
        out.append(torch.cat([(torch.zeros_like(leaf[k]) if x is None else x).reshape(-1) for k, x in zip(names, g)]))
    return torch.stack(out).detach()


def unit(g):
    """Rows divided by their Euclidean norm."""
    return torch.stack([r / torch.sqrt((r * r).sum()) for r in g])


def load_nodisk(model, ck):
    model.load_state_dict(ck)
    model.eval()
    return model


def case(cases, name, fn, tier="quick", cost=1, opts=None, **params):
    d = dict(name=name, fn=fn, params=params, tier=tier, cost=cost)
    d.update(opts or {})
    cases.append(d)


def unless_default(value, default, name):
    """Documented defaults are left out, so that the default of the code itself is used."""
    return {} if type(value) is type(default) and value == default else {name: value}
