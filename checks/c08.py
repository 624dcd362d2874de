"""C08: influence-function scores."""
import torch

from dattri.algorithm.influence_function import IFAttributorCG, IFAttributorDataInf, IFAttributorExplicit, IFAttributorLiSSA
from dattri.func.hessian import ihvp_cg
from dattri.task import AttributionTask

from .c02 import loss_batch, loss_batch_p, target_batch
from .c07 import draws
from .common import *  # noqa: F403

BOUNDS = ("1-4 training samples, 1-3 test samples, every batch size of the two loaders, 1-2 batches of the full training loader, 1-3 checkpoints, "
          "layers of 1, 2, 3 or all 4 parameters, dictionary and tuple batches; all real data, parameters and regularisations; whole data sets and samplers that pick rows of a larger one")
ASSUMPTIONS = ["the damped Hessians are invertible (their determinants are non-zero denominators)",
               "conjugate gradient and LiSSA: the inverse product of one vector is the one C06/C07 are about, evaluated batch by batch"]
CASES = []
L1, L2, B, L2B = ["l1.weight"], ["l2.weight"], ["l2.bias"], ["l2.weight", "l2.bias"]


def loss_const(params, data):
    """Constant curvature, gradients that depend on the data."""
    x, y = data
    a, b = params["l2.weight"].reshape(-1)[0], params["l2.bias"].reshape(-1)[0]
    return (a * a * 1.5 + a * x.reshape(-1, 2)[:, 0] * y.reshape(-1) + b * y.reshape(-1)).mean()


def numel(k):
    n = 1
    for d in SHAPES[k]:
        n *= d
    return n


def hess(f, ck, batch, names):
    """Hessian of the batch loss by double differentiation, entry by entry."""
    leaf = {k: v.detach().clone().requires_grad_(k in names) for k, v in ck.items()}
    l = f(leaf, batch)
    ps = [leaf[k] for k in names]
    g = torch.autograd.grad(l, ps, create_graph=True, allow_unused=True)
    g = torch.cat([(torch.zeros_like(p) if x is None else x).reshape(-1) for x, p in zip(g, ps)])
    out = []
    for i in range(g.shape[0]):
        if not g[i].requires_grad:
            out.append(torch.zeros_like(g).detach())
            continue
        h = torch.autograd.grad(g[i], ps, retain_graph=True, allow_unused=True)
        out.append(torch.cat([(torch.zeros_like(p) if x is None else x).reshape(-1) for x, p in zip(h, ps)]))
    return torch.stack(out).detach()


def split(X, Y, bs):
    return [(X[i:i + bs], Y[i:i + bs]) for i in range(0, X.shape[0], bs)]


def transform(S, which, f, ck, batches, names, V, lam, kw):
    """Independent inverse-curvature transform of the rows of V."""
    out = 0
    for b in batches:
        if which == "explicit":
            out = out + V @ torch.linalg.inv(hess(f, ck, b, names) + lam * torch.eye(V.shape[1])).T
        elif which == "cg":
            def g(flat, b=b):
                p, k = dict(ck), 0
                for nm in names:
                    p[nm] = flat[k:k + numel(nm)].reshape(SHAPES[nm])
                    k += numel(nm)
                return f(p, b)
            flat = torch.cat([ck[k].reshape(-1) for k in names])
            out = out + ihvp_cg(g, max_iter=kw["max_iter"], regularization=lam)((flat,), V).detach()
        else:
            H = hess(f, ck, b, names)
            es = V
            for _ in range(kw["recursion_depth"]):
                es = V + (1 - kw["damping"]) * es - (es @ H.T) / kw["scaling"]
            out = out + es / kw["scaling"]
    return out


def scores(S, which="explicit", n=3, m=2, nck=1, layer=None, bs=2, tbs=2, fullbs=3, cached=True, relatif=None, loss="bp", kind="tuple", again=False,
           cgit=1, fulln=None, depth=2, damped=True, edit=False):
    f = {"b": loss_batch, "bp": loss_batch_p, "c": loss_const}[loss]
    tgt = target_batch
    # the first values of the run have positive curvature, so that the radicand is positive; the claim is for all values
    lo = dict(lo=0.2) if relatif == "l" else {}
    cks = [ckpt(S, c, kind, **lo) for c in range(nck)]
    X, Y = S.tensor("X", n, 2, **lo), S.tensor("Y", n, 1, **lo)
    TX, TY = S.tensor("TX", m, 2), S.tensor("TY", m, 1)
    model, f, tgt = buffered(kind, f, tgt)
    lf, tf = wrap(f, kind), wrap(tgt, kind)
    task = AttributionTask(loss_func=lf, model=model, checkpoints=cks, target_func=tf)
    lam = S.scalar("lam", lo=0.5, hi=2.0) if damped else 0.0
    dk = unless_default(lam, 0.0, "regularization")
    kw = {}
    if which == "explicit":
        a = IFAttributorExplicit(task=task, layer_name=layer, **dk)
    elif which == "cg":
        kw = dict(max_iter=cgit)
        a = IFAttributorCG(task=task, layer_name=layer, **dk, **kw)
    else:
        kw = dict(recursion_depth=depth, damping=S.scalar("damp"), scaling=S.scalar("scal", lo=1.0, hi=3.0))
        a = IFAttributorLiSSA(task=task, layer_name=layer, batch_size=n, num_repeat=1, **kw)
    FX, FY = (X, Y) if fulln is None else (S.tensor("FX", fulln, 2), S.tensor("FY", fulln, 1))
    if cached:
        a.cache(loader(FX, FY, fullbs, kind))
    else:
        fullbs = bs
    names = layer or NAMES
    kwa = {"relatif_method": relatif} if relatif else {}
    tr, te = loader(X, Y, bs, kind), loader(TX, TY, tbs, kind)
    if edit:  # the same loaders, whose data are written to between the calls
        *old, write = edited(S, X, Y, TX, TY)
        tr, te = loader(*old[:2], bs), loader(*old[2:], tbs)
        a.attribute(tr, te, **kwa)
        write()
    out = a.attribute(tr, te, **kwa)
    exp = 0
    for ck in cks:
        G, T = grads(f, ck, rows1(X, Y), names), grads(tgt, ck, rows1(TX, TY), names)
        full = split(FX, FY, fullbs)
        U = transform(S, which, f, ck, full, names, T, lam, kw)
        s = G @ U.T
        if relatif:
            W = transform(S, which, f, ck, full, names, G, lam, kw)
            if relatif == "theta":
                den = (W * W).sum(dim=1)
            else:
                den = (grads(tgt, ck, rows1(X, Y), names) * W).sum(dim=1)
            if relatif == "l":
                den = torch.sqrt(den.clamp_min(1e-12))
            else:
                den = torch.sqrt(den).clamp_min(1e-12)
            s = s / den.reshape(-1, 1)
        exp = exp + s
    exp = exp / len(cks)
    S.check(out, exp, "scores")
    if again:
        S.check(a.attribute(loader(X, Y, 1, kind), loader(TX, TY, m, kind), **kwa), exp, "second call, other split")
        S.check(a.attribute(loader(TX, TY, 1, kind), loader(X, Y, 1, kind)).T if which == "explicit" and not relatif else exp,
                exp if which != "explicit" or relatif else swapped(S, a, f, tgt, cks, X, Y, TX, TY, FX, FY, fullbs, names, lam), "train and test exchanged")


def labels(S, which="lissa", kind="tuple", n=2, bs=2):
    """Integer labels that select outputs of the model."""
    net = torch.nn.Linear(1, 2, bias=False)
    y, ty = torch.tensor([1, 0, 1])[:n], torch.tensor([0, 1])
    X, TX, W = S.tensor("X", n, 1), S.tensor("TX", 2, 1), S.tensor("W", 2, 1)

    def f(params, data):
        x, lab = data
        out = x @ params["weight"].T
        return (out.gather(1, lab.reshape(-1, 1)).reshape(-1) ** 2 + out[:, 0] * out[:, 1] + out[:, 0]).mean()
    task = AttributionTask(loss_func=f if kind != "dict" else lossd(f), model=net, checkpoints={"weight": W})
    lam, kw = S.scalar("lam", lo=0.5, hi=2.0), dict(recursion_depth=2, damping=S.scalar("damp"), scaling=S.scalar("scal", lo=1.0, hi=3.0))
    a = IFAttributorLiSSA(task=task, batch_size=n, num_repeat=1, **kw) if which == "lissa" else IFAttributorExplicit(task=task, regularization=lam)
    a.cache(loader(X, y, bs, kind))
    out = a.attribute(loader(X, y, bs, kind), loader(TX, ty, 2, kind))
    ck, names = {"weight": W}, ["weight"]
    G, T = grads(f, ck, rows1(X, y), names), grads(f, ck, rows1(TX, ty), names)
    U = 0
    for b in split(X, y, bs):
        H = hess(f, ck, b, names)
        if which == "lissa":
            es = T
            for _ in range(2):
                es = T + (1 - kw["damping"]) * es - (es @ H.T) / kw["scaling"]
            U = U + es / kw["scaling"]
        else:
            U = U + T @ torch.linalg.inv(H + lam * torch.eye(2)).T
    S.check(out, G @ U.T, "scores")


def swapped(S, a, f, tgt, cks, X, Y, TX, TY, FX, FY, fullbs, names, lam):
    e = 0
    for ck in cks:
        G, T = grads(f, ck, rows1(TX, TY), names), grads(tgt, ck, rows1(X, Y), names)
        e = e + G @ transform(S, "explicit", f, ck, split(FX, FY, fullbs), names, T, lam, {}).T
    return (e / len(cks)).T


def rows1(X, Y):
    """Samples as batches of one."""
    return [(X[i:i + 1], Y[i:i + 1]) for i in range(X.shape[0])]


for bs in (1, 2, 3):
    for tbs in (1, 2):
        case(CASES, f"explicit-batch{bs}-test{tbs}", scores, bs=bs, tbs=tbs, layer=L2B, again=bs == 2)
for nck in (2, 3):
    case(CASES, f"explicit-{nck}-checkpoints", scores, nck=nck, layer=L2, again=nck == 2)
    case(CASES, f"explicit-{nck}-checkpoints-2", scores, nck=nck, layer=L2B, bs=3, tbs=1)
case(CASES, "explicit-all-layers", scores, n=2, m=1, bs=1)
case(CASES, "explicit-all-layers-other-loss", scores, n=2, m=1, bs=2, loss="b")
case(CASES, "explicit-3-parameters", scores, n=2, m=2, bs=2, tbs=1, layer=["l1.weight", "l2.bias"], loss="b")
case(CASES, "explicit-reversed-layers", scores, layer=["l2.bias", "l2.weight"], n=2, m=2)
case(CASES, "explicit-dict", scores, layer=L2B, kind="dict", again=True)
case(CASES, "explicit-uncached", scores, layer=L2B, cached=False, bs=3)
case(CASES, "explicit-uncached-batches", scores, layer=L2, cached=False, bs=2)
case(CASES, "explicit-full-batches", scores, layer=L2, fullbs=2, bs=3)
case(CASES, "explicit-full-batches-2", scores, layer=L2B, fullbs=1, n=2, bs=1)
case(CASES, "explicit-other-full-set", scores, layer=L2, fullbs=2, bs=3, fulln=4)
case(CASES, "explicit-four-samples", scores, layer=L2, n=4, m=3, bs=3, tbs=2)
case(CASES, "explicit-one-sample", scores, layer=L2B, n=1, m=1, bs=1, tbs=1)
for r in ("l", "theta"):
    for bs in (1, 2, 3):
        case(CASES, f"explicit-relatif-{r}-batch{bs}", scores, relatif=r, bs=bs, layer=L2, tbs=1 + bs % 2)
    case(CASES, f"explicit-relatif-{r}-2", scores, relatif=r, layer=L2B, n=2, bs=1, m=2)
    case(CASES, f"explicit-relatif-{r}-checkpoints", scores, relatif=r, layer=L2, nck=2, again=True)
    case(CASES, f"explicit-relatif-{r}-full-batches", scores, relatif=r, layer=L2, fullbs=2)
    case(CASES, f"cg-relatif-{r}", scores, which="cg", relatif=r, layer=L2, loss="c", n=2)
    case(CASES, f"lissa-relatif-{r}", scores, which="lissa", relatif=r, layer=L2, n=2, depth=1)
for w in ("cg", "lissa"):
    for bs in (1, 2, 3):
        case(CASES, f"{w}-batch{bs}", scores, which=w, bs=bs, layer=L2, tbs=1 + bs % 2, again=bs == 2)
    case(CASES, f"{w}-2-parameters", scores, which=w, layer=L2B, n=2, m=2)
    case(CASES, f"{w}-data-written-to", scores, which=w, layer=L2, n=2, edit=True)
    case(CASES, f"{w}-data-written-to-uncached", scores, which=w, layer=L2, n=2, edit=True, cached=False)
    case(CASES, f"{w}-three-checkpoints", scores, which=w, layer=L2, nck=3, n=2, m=1)
    case(CASES, f"{w}-buffers-of-each-checkpoint", scores, which=w, kind="buffer", layer=L2, nck=2, n=2, m=1)
    case(CASES, f"{w}-checkpoints", scores, which=w, layer=L2, nck=2)
    case(CASES, f"{w}-full-batches", scores, which=w, layer=L2, fullbs=2)
    case(CASES, f"{w}-uncached", scores, which=w, layer=B, cached=False, bs=2)
case(CASES, "explicit-subset-sampler", scores, kind="subset", layer=L2B)
case(CASES, "explicit-subset-sampler-uncached", scores, kind="subset", layer=L2, cached=False)
case(CASES, "lissa-subset-sampler", scores, which="lissa", layer=L2, kind="subset")
case(CASES, "explicit-three-values-per-sample", scores, kind="triple", layer=L2B)
case(CASES, "cg-three-values-per-sample", scores, which="cg", kind="triple", layer=L2, n=2)
case(CASES, "lissa-three-values-per-sample", scores, which="lissa", layer=L2, kind="triple")
case(CASES, "explicit-undamped", scores, layer=L2, damped=False)
case(CASES, "cg-undamped", scores, which="cg", layer=L2B, n=2, damped=False)
case(CASES, "cg-dict", scores, which="cg", layer=L2, kind="dict")
case(CASES, "lissa-dict", scores, which="lissa", layer=L2, kind="dict", again=True)
for w in ("lissa", "explicit"):
    for kind in ("tuple", "dict"):
        case(CASES, f"{w}-labels-{kind}", labels, which=w, kind=kind)
