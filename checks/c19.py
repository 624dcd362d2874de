"""C19: data and model helpers."""
import copy

import numpy as np
import torch
from torch import nn
from torch.nn import functional as F
from torch.utils.data import DataLoader, TensorDataset

from dattri.benchmark.utils import SubsetSampler, flip_label
from dattri.model_util.dropout import activate_dropout
from dattri.model_util.hook import get_final_layer_io

from .common import *  # noqa: F403

BOUNDS = ("flipping: 1-5 labels (every value of 2-4 classes), every draw, fractions 0 to 1, label spaces inferred or given as list, array or tensor (also without some of the labels), "
          "labels as arrays and tensors; sampler: every list of up to 3 indices out of 4, every batch size; dropout: every selection out of 3 dropout layers by name (also those for signals, images and volumes), every draw, probabilities 1/4 and 1/2, "
          "all real inputs and weights; final layer: 1-4 samples, every batch size, all real inputs and weights")
ASSUMPTIONS = ["numpy's choice draws arbitrary elements (distinct ones without replacement)", "torch's dropout multiplies by a 0/1 draw over one minus the probability"]
CASES = []


class Rng:
    S, count = None, 0

    def __init__(self, seed=None):
        pass

    def choice(self, a, size=None, replace=True, **k):
        Rng.count += 1
        if size is None:
            a = list(range(a)) if isinstance(a, int) else list(a)
            if not a:
                raise ValueError("a cannot be empty unless no samples are taken")
            return np.asarray(a)[Rng.S.choice(f"draw{Rng.count}", len(a))]
        assert replace is False, "flipped positions are drawn without replacement"
        return np.array(Rng.S.permutation(f"draw{Rng.count}", a)[:size], dtype=np.int64)

    def permutation(self, a):
        Rng.count += 1
        a = list(range(a)) if isinstance(a, int) else list(a)
        return np.array([a[i] for i in Rng.S.permutation(f"draw{Rng.count}", len(a))])

    def integers(self, low, high=None, **k):
        Rng.count += 1
        lo, hi = (0, low) if high is None else (low, high)
        return lo + Rng.S.choice(f"draw{Rng.count}", hi - lo)


def flips(S, n=3, classes=3, p=0.5, kind="tensor", space="inferred", values=None, skip=()):
    vals = values or list(range(classes))
    lab = [vals[S.choice(f"label{i}", classes)] for i in range(n)]
    given = torch.tensor(lab) if kind == "tensor" else np.array(lab)
    keep = copy.deepcopy(given)
    allowed = sorted(set(lab)) if space == "inferred" else (vals[:-1] if space == "smaller" else vals)
    sp = {"inferred": None, "list": list(allowed), "array": np.array(allowed), "tensor": torch.tensor(allowed), "smaller": list(allowed)}[space]
    if len(allowed) < 2 and int(p * n):
        S.check_true(True, "no other label to flip to")
        return
    old, Rng.S, Rng.count = np.random.default_rng, S, 0
    np.random.default_rng = Rng
    try:
        out, idx = flip_label(given, **({} if sp is None else {"label_space": sp}), p=p)
    finally:
        np.random.default_rng = old
    idx = [int(i) for i in idx]
    S.check_true(type(out) is type(given) and out.dtype == given.dtype and len(out) == n, "same kind of labels")
    S.check_true(len(idx) == int(p * n) == len(set(idx)) and set(idx) <= set(range(n)), "as many different positions as asked for")
    for i in range(n):
        if i in idx:
            # (labels skipped in one case are the subject of another)
            S.check_true("change" in skip or int(out[i]) != lab[i], "reported labels change")
            S.check_true("space" in skip or int(out[i]) in allowed, "to a label of the label space")
        else:
            S.check_true(int(out[i]) == lab[i], "all other labels stay")
    S.check_true(given.tolist() == keep.tolist() == lab, "the caller's labels are unchanged")
    S.check_true(sp is None or np.asarray(sp).tolist() == list(allowed), "the caller's label space is unchanged")


def sampler(S, k=3, bs=2):
    X = S.tensor("X", 4, 1)
    idx = [S.choice(f"i{j}", 4) for j in range(k)]
    smp = SubsetSampler(idx)
    S.check_true(len(smp) == k and list(smp) == idx and list(smp) == idx, "the indices, in order, every time")
    got = list(DataLoader(TensorDataset(X), batch_size=bs, sampler=smp))
    S.check_true(len(got) == -(-k // bs), "number of batches")
    if got:
        S.check(torch.cat([x for (x,) in got]), X[idx], "samples in the order of the indices")


class Inner(nn.Module):
    def __init__(self):
        super().__init__()
        self.drop_a, self.fc, self.drop_ab = nn.Dropout(0.5), nn.Linear(1, 2, bias=False), nn.Dropout(0.0)

    def forward(self, x):
        return self.drop_ab(self.fc(self.drop_a(x)))


class Net(nn.Module):
    def __init__(self):
        super().__init__()
        self.inner, self.norm, self.last = Inner(), nn.BatchNorm1d(2, eps=0.0), nn.Dropout(0.9)

    def forward(self, x):
        return self.last(self.norm(self.inner(x)))


DROPS = ["inner.drop_a", "inner.drop_ab", "last"]


def dropout(S, prob=0.5, how="full", train=True):
    m = Net()
    W, X = S.tensor("W", 2, 1), S.tensor("X", 2, 1)
    m.inner.fc.weight = nn.Parameter(W)
    m.train(train)
    with torch.no_grad():
        if how == "default":
            given, act = None, set(DROPS)
        elif how == "empty":
            given, act = [], set(DROPS)
        else:
            sel = [i for i in range(3) if S.choice(f"use{i}", 2)]
            names = [DROPS[i] if how == "full" else DROPS[i].split(".")[-1] for i in sel]
            given = names[::-1] if S.choice("order", 2) else names
            act = {d for d in DROPS if any(g in d for g in names)} if names else set(DROPS)
        before = {k: m.get_submodule(k).p for k in DROPS}
        out = activate_dropout(m, given, dropout_prob=prob)
        S.check_true(out is m, "the given model")
        for d in DROPS:
            mod = m.get_submodule(d)
            S.check_true(mod.training == (d in act), "exactly the named layers drop")
            S.check_true(mod.p == (prob if d in act else before[d]), "with the given probability")
        S.check_true(not any(k.training for k in m.modules() if not isinstance(k, nn.Dropout)), "everything else is in evaluation mode")
        n0 = len(S.draws())
        y = m(X)
        draws = S.draws()[n0:]
        S.check_true(len(draws) == len(act), "one draw per active layer")
        S.check_true(all(k[0] == "bernoulli" and abs(k[-1] - (1 - prob)) < 1e-9 for k, _ in draws), "kept with one minus the given probability")
        h = (X @ W.T) / (1 - prob) ** len(act)
        S.check(y * (y - h), torch.zeros(2, 2), "every output is kept, scaled by the active layers only, or dropped")


class Conv(nn.Module):
    """The dropout layers for signals, images and volumes."""

    def __init__(self):
        super().__init__()
        self.one, self.two, self.three, self.scale = nn.Dropout1d(0.5), nn.Dropout2d(0.1), nn.Dropout3d(0.9), nn.Identity()

    def forward(self, x):
        return self.scale(self.three(self.two(self.one(x)[..., None])[..., None])[..., 0, 0])


def dropout_channels(S, prob=0.5, train=False):
    m, X = Conv(), S.tensor("X", 1, 2, 2)
    m.train(train)
    names = ["one", "two", "three"]
    with torch.no_grad():
        sel = [k for k in names if S.choice(f"use_{k}", 2)]
        given = [None, []][S.choice("none", 2)] if not sel else sel
        act = sel or names
        before = {k: getattr(m, k).p for k in names}
        activate_dropout(m, given, dropout_prob=prob)
        for k in names:
            S.check_true(getattr(m, k).training == (k in act), "exactly the named layers drop")
            S.check_true(getattr(m, k).p == (prob if k in act else before[k]), "with the given probability")
        S.check_true(not m.scale.training and not m.training, "everything else is in evaluation mode")
        y = m(X)
        h = X / (1 - prob) ** len(act)
        S.check(y * (y - h), torch.zeros(1, 2, 2), "every output is kept, scaled by the active layers only, or dropped")
        S.check(y[..., 0] * h[..., 1], y[..., 1] * h[..., 0], "whole channels are kept or dropped")


def dropout_error(S):
    """Naming a layer that is no dropout layer is refused."""
    names = ["inner.fc", "norm", "inner"]
    k = S.choice("which", 3)
    try:
        activate_dropout(Net(), [names[k]] + (["last"] if S.choice("more", 2) else []))
    except ValueError:
        S.check_true(True, "refused")
        return
    S.check_true(False, "a layer without dropout is refused")


class Two(nn.Module):
    def __init__(self, bias, h):
        super().__init__()
        self.body, self.head, self.drop = nn.Linear(2, h, bias=False), nn.Linear(h, 2, bias=bias), nn.Dropout(0.5)

    def forward(self, x):
        return self.head(torch.relu(self.body(x))) ** 2


def final(S, n=3, bs=2, bias=True, h=1, train=False, twice=False):
    m = Two(bias, h)
    A, B = S.tensor("A", h, 2), S.tensor("B", 2, h)
    b = S.tensor("b", 2) if bias else torch.zeros(2)
    m.body.weight, m.head.weight = nn.Parameter(A), nn.Parameter(B)
    if bias:
        m.head.bias = nn.Parameter(b)
    m.train(train)
    X, Y = S.tensor("X", n, 2), torch.zeros(n)
    calls = []
    h0 = m.head.register_forward_hook(lambda *a: calls.append(1))
    for _ in range(1 + twice):
        x, y = get_final_layer_io(m, "head", DataLoader(TensorDataset(X, Y), batch_size=bs))
        f = torch.relu(X @ A.T)
        S.check(x, f, "input of the final layer")
        S.check(y, f @ B.T + b, "output of the final layer")
        S.check_true(not x.requires_grad and not y.requires_grad, "plain values")
    S.check_true(len(m.head._forward_hooks) == 1 and not m.body._forward_hooks, "only the caller's hooks remain")
    h0.remove()
    S.check_true(m.training == train and all(q.training == train for q in m.modules()), "training mode as before")
    S.check(m.body.weight.detach(), A, "parameters unchanged")
    S.check(m.head.weight.detach(), B, "parameters unchanged")
    S.check_true(all(q.grad is None and q.requires_grad for q in m.parameters()), "no gradients left behind")


BIG = {"max_paths": 6000}
for kind in ("tensor", "array"):
    for sp in ("inferred", "list", "array", "tensor", "smaller"):
        case(CASES, f"flip-{kind}-{sp}", flips, kind=kind, space=sp, n=3, classes=3, p=0.67, opts=BIG)
    case(CASES, f"flip-{kind}-none", flips, kind=kind, p=0.1, space="list", opts=BIG)
    case(CASES, f"flip-{kind}-all", flips, kind=kind, p=1.0, n=2, classes=3, space="list", opts=BIG)
    case(CASES, f"flip-{kind}-other-values", flips, kind=kind, p=1.0, n=2, classes=3, space="list", values=[7, -3, 100], opts=BIG)
    case(CASES, f"flip-{kind}-5", flips, kind=kind, p=0.4, n=5, classes=2, opts=BIG)
case(CASES, "flip-tensor-tensor-other-facts", flips, space="tensor", n=3, classes=3, p=0.67, skip=("change",), opts=BIG)
case(CASES, "flip-tensor-smaller-other-facts", flips, space="smaller", n=3, classes=3, p=0.67, skip=("space",), opts=BIG)
case(CASES, "flip-4-classes", flips, n=2, classes=4, p=1.0, space="list", opts=BIG)
for bs in (1, 2, 3):
    case(CASES, f"sampler-batch{bs}", sampler, bs=bs, opts=BIG)
case(CASES, "sampler-empty", sampler, k=0)
for pr in (0.25, 0.5):
    for how in ("full", "short"):
        case(CASES, f"dropout-{how}-{pr}", dropout, how=how, prob=pr, train=pr == 0.5, opts=BIG)
    case(CASES, f"dropout-channels-{pr}", dropout_channels, prob=pr, train=pr == 0.5, opts=BIG)
case(CASES, "dropout-default", dropout, how="default")
case(CASES, "dropout-empty", dropout, how="empty")
case(CASES, "dropout-refused", dropout_error)
for n in (1, 3, 4):
    for bs in (1, 2, 3):
        case(CASES, f"final-{n}-batch{bs}", final, n=n, bs=bs, bias=n != 3, train=bs == 2, twice=bs == 1, opts=BIG)
case(CASES, "final-2-features", final, n=2, h=2, opts=BIG)
