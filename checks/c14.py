"""C14: representer points."""
import torch
from torch import nn
from torch.nn import functional as F

from dattri.algorithm import rps as R
from dattri.algorithm.rps import RPSAttributor
from dattri.algorithm.utils import rps_finetune_theta
from dattri.task import AttributionTask

from .common import *  # noqa: F403

BOUNDS = ("1-4 training and 1-3 test samples, every batch size, 1-3 classes, 1-2 final-layer inputs, every test label, cross entropy, binary cross entropy and a quadratic loss; "
          "all real data, parameters, fine-tuned final layers and regularisation strengths; fine-tuning: one and two epochs of the quadratic loss, one parameter, one sample with input 0, 0.5, -1 or 2; whole data sets and samplers that pick rows of a larger one")
ASSUMPTIONS = ["the regularisation strength is not zero", "fine-tuning: the initial gradient is not zero", "normalised variant: the final-layer inputs are not zero"]
CASES = []


class Net(nn.Module):
    def __init__(self, h=2, c=2, bias=True, square=True):
        super().__init__()
        self.l1, self.fc, self.square = nn.Linear(2, h, bias=False), nn.Linear(h, c, bias=bias), square

    def forward(self, x):
        z = self.l1(x)
        return self.fc(z * z + x[:, :1] if self.square else z)


def ce(pre, y):
    return F.cross_entropy(pre, y)


def bce(pre, y):
    p = torch.sigmoid(pre)
    return -(y * torch.log(p) + (1 - y) * torch.log(1 - p)).mean()


def quad(pre, y):
    return ((pre - y) ** 2 * (1 + y)).mean()


LOSS = {"ce": ce, "bce": bce, "quad": quad}


def probs(z):
    return torch.sigmoid(z) if z.shape[1] == 1 else torch.softmax(z, dim=1)


def scores(S, n=3, m=2, c=2, h=1, loss="ce", bs=2, tbs=1, norm=False, cached=True, sub=None, again=False, bias=True, decompose=False, epochs=None, kind="tuple"):
    f = LOSS[loss]
    sd = {"l1.weight": S.tensor("w1", h, 2), "fc.weight": S.tensor("w", c, h)}
    if bias:
        sd["fc.bias"] = S.tensor("b", c)
    X, TX = S.tensor("X", n, 2), S.tensor("TX", m, 2)
    Y = torch.zeros(n, dtype=torch.int64)
    TY = torch.tensor([S.choice(f"label{j}", max(c, 2)) for j in range(m)])
    lam = S.scalar("lam", lo=0.1, hi=1.0)
    model = Net(h, c, bias)
    task = AttributionTask(loss_func=f, model=model, checkpoints=sd)
    a = RPSAttributor(task=task, final_linear_layer_name="fc", normalize_preactivate=norm, l2_strength=lam, epoch=epochs or 1)
    theta = S.tensor("theta", c, h) if epochs is None else sd["fc.weight"]
    calls = []

    def stub(x, y, init, **kw):
        calls.append((x, y, init, kw))
        return theta.clone()
    real = R.rps_finetune_theta
    if epochs is None:
        R.rps_finetune_theta = stub
    elif S.sym:
        S.e.numpy_policy = "object"
    try:
        if cached:
            full = loader(X, Y, n, kind)
            a.cache(full)
        U = X if sub is None else X[:sub]
        out = a.attribute(loader(U, Y[:len(U)], bs, kind), loader(TX, TY, tbs, kind))
        feat = lambda x: (x @ sd["l1.weight"].T) ** 2 + x[:, :1]  # noqa: E731
        final = lambda x: feat(x) @ sd["fc.weight"].T + (sd["fc.bias"] if bias else 0.0)  # noqa: E731
        fx, ft = feat(U), feat(TX)

        def expected(ft, TY):
            pre = (fx @ theta.T).detach().requires_grad_(True)
            g = torch.autograd.grad(f(pre, probs(final(U))), pre)[0].detach()
            cols = [g[:, 0 if c == 1 else int(TY[j])] for j in range(ft.shape[0])]
            alpha = torch.stack(cols, dim=1) / (-2.0 * lam * len(U))
            if norm:
                un = lambda t: torch.stack([r / torch.sqrt((r * r).sum()) for r in t])  # noqa: E731
                return alpha * (un(fx) @ un(ft).T)
            return alpha * (fx @ ft.T)
        if norm:
            for r in torch.cat([fx, ft]):
                S.assume(torch.sqrt((r * r).sum()) > 1e-6)
        S.check(out, expected(ft, TY), "scores")
        if again:
            S.check(a.attribute(loader(U, Y[:len(U)], 1), loader(TX, TY, m)), expected(ft, TY), "other split")
        if epochs is None:
            x0, y0, i0, kw = calls[0]
            S.check_true(len(calls) == (1 if cached else 1 + bool(again)), "fine-tuned once on the cached set")
            base = X if cached else U
            S.check(x0, feat(base), "fine-tuned on the final-layer inputs")
            S.check(y0, final(base), "fine-tuned towards the model's outputs")
            S.check(i0, sd["fc.weight"], "starting at the final layer")
        if decompose:
            th = theta.clone().requires_grad_(True)
            J = f(fx @ th.T, probs(final(U))) + lam * (th * th).sum()
            G = torch.autograd.grad(J, th)[0].detach()
            k = [0 if c == 1 else int(TY[j]) for j in range(m)]
            tot = torch.stack([((theta[k[j]] - G[k[j]] / (2 * lam)) * ft[j]).sum() for j in range(m)]) / len(U)
            S.check(out.sum(dim=0), tot, "contributions add up to the final layer's output, up to the gradient of the objective")
    finally:
        R.rps_finetune_theta = real


def finetune(S, epochs=2, n=1, h=1, c=1):
    """Fine-tuning descends on the regularised objective and keeps the layer with the smallest gradient."""
    if S.sym:
        S.e.numpy_policy = "object"
    X, Z = torch.tensor([[(0.0, 0.5, -1.0, 2.0)[S.choice(f"x{i}", 4)] for _ in range(h)] for i in range(n)]), S.tensor("Z", n, c)
    th0 = S.tensor("th", c, h, lo=-4.0, hi=4.0)
    lam = 0.5
    f = lambda pre, y: ((pre - y) ** 2).mean()  # noqa: E731
    keep = th0.clone()
    p = probs(Z)

    def J(th):
        return f(X @ th.T, p) + lam * (th * th).sum()

    def G(th):
        th = th.clone().requires_grad_(True)
        return torch.autograd.grad(J(th), th)[0].detach()
    g0 = G(keep)
    for g in g0.reshape(-1):
        S.assume(g * g > 1e-2)
    real = torch.Tensor.float
    torch.Tensor.float = lambda t: t  # precision is out of scope: the code's casts to single precision are dropped
    try:
        out = rps_finetune_theta(X, Z, th0, loss_func=f, lambda_l2=lam, num_epoch=epochs)
    finally:
        torch.Tensor.float = real
    S.check(th0, keep, "the given layer is unchanged")
    if epochs == 1:
        S.check(out, keep, "a single epoch evaluates the given layer only")
        return
    S.check_true(bool((J(out) < J(keep)) if not S.sym else J(out.detach()) < J(keep)), "the objective goes down")
    S.check_true(bool(G(out).abs().mean() < g0.abs().mean()), "the gradient gets smaller")


for loss, c in (("ce", 2), ("ce", 3), ("bce", 1), ("quad", 2), ("quad", 1)):
    for bs in (1, 2, 3):
        case(CASES, f"{loss}-{c}-batch{bs}", scores, loss=loss, c=c, bs=bs, tbs=1 + bs % 2, m=2 if c < 3 else 1, again=bs == 2)
    case(CASES, f"{loss}-{c}-sum", scores, loss=loss, c=c, decompose=True, m=1)
    case(CASES, f"{loss}-{c}-sum-2-inputs", scores, loss=loss, c=c, decompose=True, m=1, h=2, n=2)
    case(CASES, f"{loss}-{c}-uncached", scores, loss=loss, c=c, cached=False, again=True, m=1)
    case(CASES, f"{loss}-{c}-subset", scores, loss=loss, c=c, sub=2, m=1, bs=1)
    case(CASES, f"{loss}-{c}-normalised", scores, loss=loss, c=c, norm=True, h=2, n=2, m=1)
    case(CASES, f"{loss}-{c}-no-bias", scores, loss=loss, c=c, bias=False, n=2, m=1)
    case(CASES, f"{loss}-{c}-one-sample", scores, loss=loss, c=c, n=1, m=1, bs=1)
for c in (True, False):
    case(CASES, f"quad-2-subset-sampler{'-uncached' * (not c)}", scores, loss="quad", n=3, m=2, bs=2, tbs=1, kind="subset", cached=c)
case(CASES, "quad-2-four-samples", scores, loss="quad", n=4, m=3, bs=3, tbs=2)
case(CASES, "finetune-1-epoch", finetune, epochs=1)
case(CASES, "finetune-2-epochs", finetune, epochs=2)
