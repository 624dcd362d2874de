"""C10: EK-FAC."""
import torch
from torch import nn
from torch.utils.data import DataLoader, TensorDataset

from dattri.algorithm.influence_function import IFAttributorEKFAC
from dattri.func.fisher import estimate_covariance, estimate_eigenvector, estimate_lambda
from dattri.task import AttributionTask

from .common import *  # noqa: F403

BOUNDS = ("1-4 samples, every batch size, 1-3 linear layers of input and output size 1..2 with or without bias, sequences of length 1..3 and 11 "
          "(the two ways the eigenvalues are computed), masks of positions for 2-3 samples; all real parameters, data, damping and vectors")
ASSUMPTIONS = ["the eigenbasis is the one torch.linalg.eigh gives for the covariance (its sign and order conventions are not part of the claim)",
               "corrected eigenvalues plus damping are not zero", "the target function is the loss (EK-FAC takes its statistics from the target function)"]
CASES = []


class Net(nn.Module):
    def __init__(self, dims, bias, act):
        super().__init__()
        self.fcs = nn.ModuleList(nn.Linear(a, b, bias=c) for a, b, c in zip(dims, dims[1:], bias))
        self.act = act

    def forward(self, x):
        for i, f in enumerate(self.fcs):
            x = f(x)
            if self.act and i + 1 < len(self.fcs):
                x = x * x
        return x


def build(S, dims, bias, act, n, T=None):
    net = Net(dims, bias, act)
    ck = {k: S.tensor(k.replace(".", "_"), *p.shape) for k, p in net.named_parameters()}
    sh = (n, dims[0]) if T is None else (n, T, dims[0])
    X, Y = S.tensor("X", *sh), S.tensor("Y", *((n, dims[-1]) if T is None else (n, T, dims[-1])))

    def f(params, data):
        x, y = data
        r = torch.func.functional_call(net, params, (x,)) - y
        return (r * r).reshape(r.shape[0], -1).sum(dim=1).mean()
    return net, ck, X, Y, f


def manual(net_dims, bias, act, ck, X, Y):
    """Per layer: inputs (with a one for the bias) and output gradients of the per-sample losses, every sample and position."""
    L = len(net_dims) - 1
    x3 = X if X.ndim == 3 else X.unsqueeze(1)
    y3 = Y if Y.ndim == 3 else Y.unsqueeze(1)
    n, T = x3.shape[:2]
    A, D = [[[None] * T for _ in range(n)] for _ in range(L)], [[[None] * T for _ in range(n)] for _ in range(L)]
    for i in range(n):
        for t in range(T):
            h, pre = x3[i, t], []
            for l in range(L):
                A[l][i][t] = torch.cat([h, torch.ones(1)]) if bias[l] else h
                z = ck[f"fcs.{l}.weight"] @ h
                if bias[l]:
                    z = z + ck[f"fcs.{l}.bias"]
                pre.append(z)
                h = z * z if act and l + 1 < L else z
            d = 2 * (h - y3[i, t])
            for l in range(L - 1, -1, -1):
                D[l][i][t] = d
                if l:
                    d = ck[f"fcs.{l}.weight"].T @ d
                    if act:
                        d = d * 2 * pre[l - 1]
    return A, D


def oracle(dims, bias, act, ck, X, Y):
    A, D = manual(dims, bias, act, ck, X, Y)
    out = []
    for l in range(len(dims) - 1):
        n = len(A[l])
        ca = sum(torch.outer(a, a) for s in A[l] for a in s) / n
        cs = sum(torch.outer(d, d) for s in D[l] for d in s) / n
        dth = [sum(torch.outer(d, a) for d, a in zip(D[l][i], A[l][i])) for i in range(n)]
        out.append((ca, cs, dth))
    return out


def axes(Q):
    """The eigenspaces: the outer products of the columns (no sign)."""
    return torch.stack([torch.outer(Q[:, j], Q[:, j]) for j in range(Q.shape[1])])


def functions(S, dims=(1, 1), bias=(True,), act=False, n=3, bs=2, T=None, it=None, eig=True):
    """The three estimation functions, with a cache filled by forward hooks."""
    net, ck, X, Y, f = build(S, dims, bias, act, n, T)
    cache = {}

    def hook(i):
        def h(m, inp, out):
            x = inp[0]
            if m.bias is not None:
                x = torch.cat([x, torch.ones(*x.shape[:-1], 1)], dim=-1)
            out.retain_grad()
            cache[f"fcs.{i}"] = (x, out)
        return h
    hs = [m.register_forward_hook(hook(i)) for i, m in enumerate(net.fcs)]
    leaf = {k: v.detach().clone().requires_grad_(True) for k, v in ck.items()}
    func = lambda data: f(leaf, data)  # noqa: E731
    ld = DataLoader(TensorDataset(X, Y), batch_size=bs)
    cov = estimate_covariance(func, ld, cache, it)
    used = n if it is None else min(n, it * bs)
    O = oracle(dims, bias, act, ck, X[:used], Y[:used])
    for l, (ca, cs, _) in enumerate(O):
        S.check(cov[f"fcs.{l}"][0], ca, f"input covariance {l}")
        S.check(cov[f"fcs.{l}"][1], cs, f"output-gradient covariance {l}")
    # any basis: the eigenvalue correction is a property of the basis it is given
    Q = {f"fcs.{l}": (S.tensor(f"qa{l}", *O[l][0].shape), S.tensor(f"qs{l}", *O[l][1].shape)) for l in range(len(O))}
    lam = estimate_lambda(func, ld, Q, cache, it)
    for l, (_, _, dth) in enumerate(O):
        qa, qs = Q[f"fcs.{l}"]
        exp = sum((qs.T @ d @ qa) * (qs.T @ d @ qa) for d in dth) / len(dth)
        S.check(lam[f"fcs.{l}"], exp, f"corrected eigenvalues {l}")
    for h in hs:
        h.remove()
    if eig:
        q = estimate_eigenvector(cov)
        for l in range(len(O)):
            for side, nm in ((0, "A"), (1, "S")):
                S.check(axes(q[f"fcs.{l}"][side]), axes(torch.linalg.eigh(cov[f"fcs.{l}"][side], UPLO="U")[1]), f"eigenvectors {nm}")


def attributor(S, dims=(1, 1), bias=(True,), act=False, n=2, bs=1, m=1, mods=None, scores=False, vec=True, it=None, twice=False, stub=True):
    net, ck, X, Y, f = build(S, dims, bias, act, n)
    net.load_state_dict(ck)
    task = AttributionTask(loss_func=f, model=net, checkpoints=ck)
    damp = S.scalar("damp", lo=0.5, hi=2.0)
    at = IFAttributorEKFAC(task=task, module_name=mods, damping=damp)
    import dattri.func.fisher as F
    orig = F.estimate_eigenvector
    L = len(dims) - 1
    names = mods if mods is not None else [f"fcs.{i}" for i in range(L)]
    names = [names] if isinstance(names, str) else names
    Q, seen = {}, []
    if stub:
        def eig(cov):
            seen.append(cov)
            for k, (a, s) in cov.items():
                Q[k] = (S.tensor(f"qa{k}", *a.shape), S.tensor(f"qs{k}", *s.shape))
            return Q
        F.estimate_eigenvector = eig
    try:
        at.cache(DataLoader(TensorDataset(X, Y), batch_size=bs), **({} if it is None else {"max_iter": it}))
        if twice:
            at.cache(DataLoader(TensorDataset(X, Y), batch_size=n))
    finally:
        F.estimate_eigenvector = orig
    used = n if it is None else min(n, it * bs)
    O = oracle(dims, bias, act, ck, X[:used], Y[:used])
    for c in seen:
        for k in names:
            S.check(c[k][0], O[int(k[-1])][0], "input covariance")
            S.check(c[k][1], O[int(k[-1])][1], "output-gradient covariance")
        S.check_true(set(c) == set(names), "selected modules")
    if not stub:
        for k in names:
            ca, cs, _ = O[int(k[-1])]
            for side, C in ((0, ca), (1, cs)):
                S.check(axes(at.cached_q[k][side]), axes(torch.linalg.eigh(C, UPLO="U")[1]), "basis")
            Q[k] = at.cached_q[k]
    S.check_true(not net.fcs[0]._forward_hooks, "hooks removed")
    parts = []  # (name, part, shape)
    for k in names:
        l = int(k[-1])
        parts.append((k, "weight", (dims[l + 1], dims[l])))
        if bias[l]:
            parts.append((k, "bias", (dims[l + 1],)))
    tot = sum(torch.Size(s).numel() for _, _, s in parts)

    def transform(V):
        pos, blocks = 0, {}
        for k, w, s in parts:
            c = torch.Size(s).numel()
            blocks[k, w] = V[:, pos:pos + c].reshape(-1, *s)
            pos += c
        out = []
        for r in range(V.shape[0]):
            row = []
            for k in names:
                l = int(k[-1])
                G = blocks[k, "weight"][r]
                if bias[l]:
                    G = torch.cat([G, blocks[k, "bias"][r].reshape(-1, 1)], dim=1)
                qa, qs = Q[k]
                lam = sum((qs.T @ d @ qa) * (qs.T @ d @ qa) for d in O[l][2]) / len(O[l][2])
                # sum over eigenpairs: (s_i^T G a_j) / (lam_ij + damping) s_i a_j^T
                R = 0
                for i in range(qs.shape[1]):
                    for j in range(qa.shape[1]):
                        co = (qs[:, i] @ G @ qa[:, j]) / (lam[i, j] + damp)
                        R = R + co * torch.outer(qs[:, i], qa[:, j])
                row.append(R[:, :dims[l]].reshape(-1))
                if bias[l]:
                    row.append(R[:, dims[l]])
            out.append(torch.cat(row))
        return torch.stack(out)

    if vec:
        V = S.tensor("V", m, tot)
        S.check(at.transform_test_rep(0, V), transform(V), "transform")
    if scores:
        names_p = [f"{k}.{w}" for k, w, _ in parts]
        TX, TY = S.tensor("TX", m, dims[0]), S.tensor("TY", m, dims[-1])
        rs = lambda a, b: [(a[i:i + 1], b[i:i + 1]) for i in range(a.shape[0])]  # noqa: E731
        G, T = grads(f, ck, rs(X, Y), names_p), grads(f, ck, rs(TX, TY), names_p)
        out = at.attribute(DataLoader(TensorDataset(X, Y), batch_size=bs), DataLoader(TensorDataset(TX, TY), batch_size=1))
        S.check(out, G @ transform(T).T, "scores")


for bs in (1, 2, 3, 4):
    case(CASES, f"functions-batch{bs}", functions, bs=bs, n=4 if bs in (3, 4) else 3)
    case(CASES, f"functions-2x2-batch{bs}", functions, dims=(2, 2), bs=bs, n=3, bias=(bs % 2 == 0,))
    case(CASES, f"functions-2-layers-batch{bs}", functions, dims=(1, 2, 1), bias=(True, bs % 2 == 0), bs=bs, n=3, act=bs > 2, eig=False)
case(CASES, "functions-max-iter", functions, n=4, bs=2, it=1)
case(CASES, "functions-max-iter-2", functions, n=5, bs=2, it=2)
case(CASES, "functions-max-iter-3", functions, n=3, bs=2, it=2)
for T in (1, 2, 3):
    case(CASES, f"functions-sequence-{T}", functions, T=T, n=2, bs=1)
    case(CASES, f"functions-sequence-{T}-batch2", functions, T=T, n=3, bs=2, dims=(2, 1), eig=False)
case(CASES, "functions-sequence-11", functions, T=11, n=2, bs=1, dims=(1, 1), bias=(False,), eig=False)
case(CASES, "functions-sequence-11-batch2", functions, T=11, n=2, bs=2, dims=(1, 1), bias=(False,), eig=False)
case(CASES, "functions-sequence-10", functions, T=10, n=1, bs=1, dims=(1, 1), bias=(False,), eig=False)
for bs in (1, 2):
    case(CASES, f"attributor-batch{bs}", attributor, bs=bs, m=2)
    case(CASES, f"attributor-nobias-batch{bs}", attributor, bs=bs, bias=(False,), dims=(2, 2))
    case(CASES, f"attributor-bias-1x2-batch{bs}", attributor, bs=bs, dims=(1, 2))
    case(CASES, f"attributor-bias-2x1-batch{bs}", attributor, bs=bs, dims=(2, 1))
    case(CASES, f"attributor-2-layers-batch{bs}", attributor, bs=bs, dims=(1, 2, 1), bias=(True, True), n=2, act=bs == 1)
    case(CASES, f"attributor-2-layers-mixed-batch{bs}", attributor, bs=bs, dims=(1, 1, 2), bias=(False, True), n=2)
case(CASES, "attributor-uneven-batches", attributor, n=3, bs=2)
case(CASES, "attributor-three-batches", attributor, n=3, bs=1, m=1)
case(CASES, "attributor-three-layers", attributor, n=2, bs=1, m=1, dims=(1, 1, 1, 1), bias=(True, False, True))
case(CASES, "attributor-three-layers-listed", attributor, n=2, bs=2, m=1, dims=(1, 1, 1, 1), bias=(True, False, False), mods=["fcs.2", "fcs.0", "fcs.1"])
case(CASES, "functions-three-layers", functions, n=3, bs=1, dims=(1, 1, 1, 1), bias=(True, False, True), eig=False)
case(CASES, "attributor-max-iter", attributor, n=3, bs=1, it=2)
case(CASES, "attributor-again", attributor, n=2, bs=1, twice=True)
case(CASES, "attributor-one-module", attributor, dims=(1, 2, 1), bias=(True, True), mods=["fcs.1"])
case(CASES, "attributor-module-string", attributor, dims=(1, 2, 1), bias=(True, False), mods="fcs.0")
case(CASES, "attributor-modules-reversed", attributor, dims=(1, 1, 2), bias=(True, True), mods=["fcs.1", "fcs.0"])
case(CASES, "attributor-real-basis", attributor, stub=False, dims=(1, 1), n=2)
case(CASES, "attributor-scores", attributor, scores=True, vec=False, m=2, n=2)
case(CASES, "attributor-scores-2-layers", attributor, scores=True, vec=False, m=1, n=2, dims=(1, 1, 1), bias=(True, False))


def masked(S, flags, bs=2):
    """A loss function that also returns its mask of relevant positions (documented)."""
    n, T = len(flags), len(flags[0])
    net, ck, X, Y, _ = build(S, (1, 1), (False,), False, n, T)
    mask = torch.tensor(flags)
    w = {k: v.detach().clone().requires_grad_(True) for k, v in ck.items()}["fcs.0.weight"]
    cache = {}

    def func(data):
        x, y, m = data
        out = x @ w.T
        out.retain_grad()
        cache["fcs.0"] = (x, out)
        r = (out - y) * m.unsqueeze(-1)
        return (r * r).reshape(r.shape[0], -1).sum(dim=1).mean(), m
    cov = estimate_covariance(func, DataLoader(TensorDataset(X, Y, mask), batch_size=bs), cache)
    pos = [(i, t) for i in range(n) for t in range(T) if flags[i][t]]
    S.check(cov["fcs.0"][0], sum(torch.outer(X[i, t], X[i, t]) for i, t in pos) / len(pos), "input covariance over the relevant positions")
    q = (S.tensor("qa", 1, 1), S.tensor("qs", 1, 1))
    lam = estimate_lambda(func, DataLoader(TensorDataset(X, Y, mask), batch_size=bs), {"fcs.0": q}, cache)["fcs.0"]
    g = [sum(2 * (X[i, t] * w.detach().reshape(()) - Y[i, t]) * X[i, t] for t in range(T) if flags[i][t]).reshape(1, 1) for i in range(n)]
    S.check(lam, sum((q[1] * d * q[0]) * (q[1] * d * q[0]) for d in g) / n, "corrected eigenvalues over the relevant positions")


def masked_attributor(S):
    """The attributor's documentation allows such a loss function, too."""
    net, ck, X, Y, _ = build(S, (1, 1), (False,), False, 2, 2)
    net.load_state_dict(ck)
    mask = torch.tensor([[1.0, 1.0], [1.0, 0.0]])

    def f(params, data):
        x, y, m = data
        r = (torch.func.functional_call(net, params, (x,)) - y) * m.unsqueeze(-1)
        return (r * r).reshape(r.shape[0], -1).sum(dim=1).mean(), m
    a = IFAttributorEKFAC(task=AttributionTask(loss_func=f, model=net, checkpoints=ck), damping=1.0)
    ld = DataLoader(TensorDataset(X, Y, mask), batch_size=2)
    a.cache(ld)
    S.check_true(tuple(a.attribute(ld, ld).shape) == (2, 2), "scores")


case(CASES, "masked", masked, flags=((1.0, 1.0), (1.0, 0.0)))
case(CASES, "masked-batch1", masked, flags=((1.0, 1.0), (1.0, 0.0)), bs=1)
case(CASES, "masked-three", masked, flags=((1.0, 1.0), (1.0, 0.0), (0.0, 1.0)), bs=2)
case(CASES, "masked-all", masked, flags=((1.0, 1.0, 1.0), (1.0, 1.0, 1.0)), bs=1)
case(CASES, "masked-attributor", masked_attributor)
