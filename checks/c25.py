"""C25: calls that have no meaningful answer are refused or announced, the others are not."""
import math
import os
import shutil
import tempfile
import warnings

import torch
from torch import nn
from torch.utils.data import DataLoader, TensorDataset

from dattri.algorithm.block_projected_if.block_projected_if import BlockProjectedIFAttributor
from dattri.algorithm.data_shapley import KNNShapleyAttributor
from dattri.algorithm.dvemb import DVEmbAttributor
from dattri.algorithm.factgrass import FactGraSSAttributor
from dattri.algorithm.influence_function import (IFAttributorArnoldi, IFAttributorCG, IFAttributorDataInf, IFAttributorEKFAC, IFAttributorExplicit,
                                                 IFAttributorLiSSA)
from dattri.algorithm.logra import LoGraAttributor
from dattri.algorithm.rps import RPSAttributor
from dattri.algorithm.tracin import TracInAttributor
from dattri.algorithm.trak import TRAKAttributor
from dattri.benchmark.utils import SubsetSampler
from dattri.func.hessian import IHVPUsageError, hvp, hvp_at_x, ihvp_lissa
from dattri.func.projection import random_project
from dattri.func.utils import _vectorize as vectorize
from dattri.model_util.dropout import activate_dropout
from dattri.model_util.retrain import retrain_lds
from dattri.params.projection import (FactGrassProjectionParams, LoGraProjectionParams, RandomProjectionParams, TracInProjectionParams,
                                      TRAKProjectionParams)
from dattri.task import AttributionTask

from .c08 import loss_batch_p, target_batch
from .common import *  # noqa: F403

BOUNDS = ("every combination of: 1-3 checkpoints and 1-3 weights (TracIn); cached or not and training loader given or not (TRAK, and the valid call after a refused one); 1-3 checkpoints (EK-FAC); "
          "before and after cache(); known and unknown names of methods, projections, storages and modes; sizes 1-3 per argument and mapped dimensions (LiSSA); 1-40 dimensions per layer and blow-up 1-4 (LoGra, FactGraSS); "
          "total -2..5 and 1-3 subsets; labels of 1-3 entries for 2 samples; training/test loaders in five kinds of orders (two of them shuffled) for ten attributors; batches that are a tuple, list, dictionary or something else; all real values of the data")
ASSUMPTIONS = ["which argument values are meaningful is taken from the documentation (docstrings' Raises sections and error messages)"]
CASES = []
O = dict(max_paths=400)


def refused(S, fn, exc, bad, label):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = fn()
    except exc as e:
        S.check_true(bad and type(e) is exc, f"{label}: a meaningful call is not refused ({e})")
        return None
    S.check_true(not bad, f"{label}: a meaningless call is refused")
    return r


def announced(S, fn, text, bad, label):
    """The result of a call that warns (when it should) is returned."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = fn()
    n = sum(text in str(x.message) for x in w)
    S.check_true((n > 0) == bool(bad), f"{label}: {'a warning is given' if bad else 'no warning is given'}")
    return r


def data(S, tag="", n=2, m=1, bs=2):
    X, Y, Xt, Yt = S.tensor(f"X{tag}", n, 2), S.tensor(f"Y{tag}", n, 1), S.tensor(f"Xt{tag}", m, 2), S.tensor(f"Yt{tag}", m, 1)
    return X, Y, Xt, Yt, loader(X, Y, bs), loader(Xt, Yt, 1)


def toy_task(S, k=1, single=False):
    cks = [ckpt(S, c) for c in range(k)]
    return cks, AttributionTask(loss_func=loss_p, model=Toy(), checkpoints=cks[0] if single else cks, target_func=target_l)


def tracin_weights(S):
    k, w = S.choice("checkpoints", 3) + 1, S.choice("weights", 3) + 1
    cks, task = toy_task(S, k)
    X, Y, Xt, Yt, tr, te = data(S)
    ws = S.tensor("w", w)
    a = TracInAttributor(task=task, weight_list=ws, normalized_grad=False, proj_params=TracInProjectionParams(proj_type="identity", proj_dim=4))
    r = refused(S, lambda: a.attribute(tr, te), ValueError, k != w, "attribute")
    s = refused(S, lambda: a.self_attribute(tr), ValueError, k != w, "self_attribute")
    if k == w:
        S.check(r, sum(wi * grads(loss_p, ck, rows(X, Y)) @ grads(target_l, ck, rows(Xt, Yt)).T for wi, ck in zip(ws, cks)), "scores")
        S.check_true(tuple(s.shape) == (2,), "self-attribution")


def trak_loaders(S, selfattr):
    cached, given = S.choice("cached", 2), S.choice("given", 2)
    cks, task = toy_task(S)
    X, Y, Xt, Yt, tr, te = data(S, n=2)
    lam = S.scalar("lam", lo=0.5, hi=2.0)
    S.assume(lam > 0.01)

    def new():
        return TRAKAttributor(task=task, correct_probability_func=lambda p, d: (p["l1.weight"].reshape(-1) * d[0]).sum() + p["l2.bias"].sum() * d[1].sum(), layer_name=["l2.weight", "l2.bias"],
                              proj_params=TRAKProjectionParams(proj_type="identity", proj_dim=2), regularization=lam)

    def call(a, arg):
        return a.self_attribute(arg) if selfattr else a.attribute(te, arg)
    a = new()
    if cached:
        a.cache(tr)
    bad = bool(cached) == bool(given)
    if selfattr:
        # a cached loader is used when none is given
        got = refused(S, lambda: call(a, tr if given else None), ValueError, bad, "self_attribute")
    else:
        got = refused(S, lambda: call(a, tr if given else None), ValueError, bad, "attribute")
    if got is None:  # a refused call leaves the attributor as it was
        got = call(a, None if cached else tr)
    S.check(got, call(new(), tr), "scores")


def ekfac(S):
    k = S.choice("checkpoints", 3) + 1
    _, task = toy_task(S, k)
    a = refused(S, lambda: IFAttributorEKFAC(task=task), ValueError, k > 1, "EK-FAC with an ensemble")
    if a is not None:
        c = S.choice("index", 2)
        refused(S, lambda: a.transform_test_rep(c, torch.zeros(1, 4)) if c else True, ValueError, c == 1, "another checkpoint")


def before_cache(S):
    cks, task = toy_task(S)
    X, Y, Xt, Yt, tr, te = data(S)
    c = S.choice("cached", 2)
    a = IFAttributorArnoldi(task=task, layer_name=["l2.bias"], proj_dim=1, max_iter=1, precompute_data_ratio=1.0)
    S.assume(Y.sum() > 0.5)
    if c:
        a.cache(tr)
    v = S.tensor("v", 1, 1)
    refused(S, lambda: a.transform_test_rep(0, v), ValueError, not c, "test side before cache()")
    refused(S, lambda: a.transform_train_rep(0, v), ValueError, not c, "training side before cache()")


def batch_task(cks):
    return AttributionTask(loss_func=loss_batch_p, model=Toy(), checkpoints=cks, target_func=target_batch)


def methods(S, cls):
    k = S.choice("method", 5)
    name = ("l", "theta", "L", "", "both")[k]
    task = batch_task(ckpt(S, 0))
    X, Y, Xt, Yt, tr, te = data(S)
    kw = dict(Explicit=dict(regularization=1.0), CG=dict(max_iter=1, regularization=1.0), Arnoldi=dict(proj_dim=1, max_iter=1, precompute_data_ratio=1.0))[cls.__name__[12:]]
    S.assume(X[0, 0] * X[0, 0] > 0.25)
    a = cls(task=task, layer_name="l2.bias", **kw)
    a.cache(tr)
    r = refused(S, lambda: a.attribute(tr, te, relatif_method=name), ValueError, k > 1, "relative influence")
    if r is not None:
        S.check_true(tuple(r.shape) == (X.shape[0], Xt.shape[0]), "scores for the known methods")


def knn_labels(S):
    nt, ne = S.choice("train-labels", 4), S.choice("test-labels", 4)
    f = torch.tensor([[0.0], [1.0]])
    tr, te = DataLoader(TensorDataset(f, torch.tensor([0, 1])), batch_size=2), DataLoader(TensorDataset(f + 0.25, torch.tensor([0, 1])), batch_size=1)
    a = KNNShapleyAttributor(k_neighbors=1)
    x = S.tensor("unused", 1)
    r = refused(S, lambda: a.attribute(tr, te, **(dict(train_labels=[0, 1, 1][:nt]) if nt else {}), **(dict(test_labels=[1, 0, 0][:ne]) if ne else {})), ValueError,
                nt not in (0, 2) or ne not in (0, 2), "labels")
    if r is not None:
        S.check(r * x, x * torch.ones(2, 2) * r, "values")
        S.check_true(tuple(r.shape) == (2, 2), "a value per pair")
    refused(S, lambda: KNNShapleyAttributor(k_neighbors=1, task=object() if nt else None), NotImplementedError, bool(nt), "a task")


def squares(S, kind, lo):
    d = lo + S.choice("dim", 10)
    b = S.choice("blowup", 4) + 1 if kind == "factgrass" else 1
    net = nn.Sequential(nn.Linear(1, 1))
    task = AttributionTask(loss_func=lambda m, b, dev: m(b[0]).sum(), model=net, checkpoints={k: v.detach() for k, v in net.named_parameters()})
    root = math.isqrt(d * b)
    if kind == "logra":
        a = refused(S, lambda: LoGraAttributor(task, layer_names="0", offload="none", proj_params=LoGraProjectionParams(proj_dim_per_layer=d)), ValueError, root * root != d, "dimensions per layer")
    else:
        a = refused(S, lambda: FactGraSSAttributor(task, layer_names="0", offload="none", proj_params=FactGrassProjectionParams(proj_dim_per_layer=d), blowup_factor=b), ValueError, root * root != d * b, "dimensions per layer")
    if a is not None:
        S.check_true(a.sparsifier_params.proj_dim == root, "dimension of a factor")


def block(S):
    st = S.choice("storage", 5)
    given = S.choice("directory", 2)
    off = ("none", "cpu", "disk", "Disk", "ram")[st]
    net = nn.Sequential(nn.Linear(1, 1))
    task = AttributionTask(loss_func=lambda m, b, dev: m(b[0]).sum(), model=net, checkpoints={k: v.detach() for k, v in net.named_parameters()})
    d, old = tempfile.mkdtemp(prefix="c25"), os.getcwd()
    os.chdir(d)
    try:
        a = refused(S, lambda: BlockProjectedIFAttributor(task, layer_names="0", offload=off, cache_dir=d if given else None), ValueError, st > 2 or (st == 2 and not given), "storage")
        if a is not None:
            refused(S, lambda: a.compute_preconditioners(), ValueError, True, "preconditioners before cache()")
            refused(S, lambda: a.compute_ifvp(), ValueError, True, "products before cache()")
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def modes(S):
    k = S.choice("mode", 4)
    mode = ("rev-rev", "rev-fwd", "fwd-rev", "")[k]
    x, v = S.tensor("x", 2), S.tensor("v", 2)
    f = lambda z: z[0] * z[0] * z[1]  # noqa: E731
    want = torch.stack([2 * x[1] * v[0] + 2 * x[0] * v[1], 2 * x[0] * v[0]])
    for nm, fn in (("hvp", lambda: hvp(f, argnums=0, mode=mode)((x,), v)), ("hvp_at_x", lambda: hvp_at_x(f, (x,), argnums=0, mode=mode)(v))):
        r = refused(S, fn, IHVPUsageError, k > 1, nm)
        if r is not None:
            S.check(r, want, nm)


def batch_sizes(S):
    """Mismatching batch sizes of the mapped arguments."""
    na, nb = S.choice("first", 3) + 1, S.choice("second", 3) + 1
    dims = [(0, 0), (0, 1), (1, 0), (0, None), (None, 0), (0,), (0, 0, 0), None][S.choice("dims", 8)]
    th = S.tensor("th", 1)
    A, B = S.tensor("A", na, 2), S.tensor("B", nb, 1)
    if dims is None:
        sz, bad = None, len({1, na, nb}) > 1
    else:
        sz = [t.shape[d] for t, d in zip((A, B), dims) if d is not None]
        bad = len(dims) != 2 or len(set(sz)) > 1

    def f(p, a, b):
        return (p * p).sum() * (1.0 + (a * a).sum()) + p.sum() * b.sum()
    v = S.tensor("v", 1)
    r = refused(S, lambda: ihvp_lissa(f, argnums=0, batch_size=1, recursion_depth=0, num_repeat=1, scaling=2)((th, A, B), v, in_dims=None if dims is None else (None, *dims)), IHVPUsageError, bad, "LiSSA")
    if r is not None:
        S.check(r.reshape(-1), v / 2, "depth zero")


def subsets(S):
    total, num = S.choice("total", 8) - 2, S.choice("subsets", 3) + 1
    X, Y, Xt, Yt, tr, te = data(S)
    d = tempfile.mkdtemp(prefix="c25")
    calls = []

    def train(dl, seed=None, **kw):
        calls.append(len(dl.sampler))
        return nn.Linear(1, 1)
    try:
        refused(S, lambda: retrain_lds(train, tr, d + "/x", num_subsets=num, total_num_subsets=total, seed=1), ValueError, total < 0 or total % num != 0, "numbers of subsets")
        S.check_true(len(calls) == (0 if total < 0 or total % num else num), "nothing is trained by a refused call")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def attributor(S, kind, cks, tr):
    single = AttributionTask(loss_func=loss_p, model=Toy(), checkpoints=cks, target_func=target_l) if kind in ("tracin", "trak") else batch_task(cks)
    nm = "l2.bias"
    if kind == "tracin":
        return TracInAttributor(task=single, weight_list=torch.ones(1), normalized_grad=False, proj_params=TracInProjectionParams(proj_type="identity", proj_dim=4))
    if kind == "trak":
        return TRAKAttributor(task=single, correct_probability_func=lambda p, d: (p["l1.weight"].reshape(-1) * d[0]).sum() + p["l2.bias"].sum() * d[1].sum(), layer_name=[nm],
                              proj_params=TRAKProjectionParams(proj_type="identity", proj_dim=1), regularization=1.0)
    cls = dict(explicit=IFAttributorExplicit, cg=IFAttributorCG, lissa=IFAttributorLiSSA, datainf=IFAttributorDataInf, arnoldi=IFAttributorArnoldi)[kind]
    kw = dict(explicit=dict(regularization=1.0), cg=dict(regularization=1.0, max_iter=1), lissa=dict(batch_size=1, num_repeat=1, recursion_depth=1), datainf=dict(regularization=1.0),
              arnoldi=dict(proj_dim=1, max_iter=1, precompute_data_ratio=1.0))[kind]
    return cls(task=single, layer_name=nm, **kw)


SHUFFLE = "shuffling"


class Fixed(torch.utils.data.Sampler):
    """An order of the user's own."""

    def __init__(self, order):
        self.order = order

    def __iter__(self):
        return iter(self.order)

    def __len__(self):
        return len(self.order)


def ordered(ds, k):
    """Loaders that do not shuffle (0, 2, 3) and that do (1, 4)."""
    kw = ({}, dict(shuffle=True), dict(sampler=SubsetSampler([0])), dict(sampler=Fixed([0])), dict(sampler=torch.utils.data.RandomSampler(ds, replacement=True, num_samples=1)))[k]
    return DataLoader(ds, batch_size=1, **kw), k in (1, 4)


def shuffled(S, kind):
    st, se = S.choice("train-order", 5), S.choice("test-order", 5)
    cks = ckpt(S, 0)
    X, Y, Xt, Yt = S.tensor("X", 1, 2), S.tensor("Y", 1, 1), S.tensor("Xt", 1, 2), S.tensor("Yt", 1, 1)
    # one sample: its order cannot matter
    (tr, st), (te, se) = ordered(TensorDataset(X, Y), st), ordered(TensorDataset(Xt, Yt), se)
    plain = loader(X, Y, 1)
    a = attributor(S, kind, cks, plain)
    if kind == "trak":
        f = lambda: a.attribute(te, tr)  # noqa: E731
    else:
        f = lambda: a.attribute(tr, te)  # noqa: E731
        if kind != "tracin":
            a.cache(plain)
    r = announced(S, f, SHUFFLE, st or se, "attribute")
    S.check_true(tuple(r.shape) == (1, 1), "scores are returned")
    if kind in ("tracin", "trak", "explicit"):
        r = announced(S, lambda: attributor(S, kind, cks, plain).self_attribute(tr), SHUFFLE, st, "self_attribute")
        S.check_true(tuple(r.shape) == (1,), "scores are returned")


def shuffled_other(S, kind):
    st, se = S.choice("train-order", 5), S.choice("test-order", 5)
    if kind == "knn":
        X, Xt = torch.tensor([[0.0]]), torch.tensor([[1.0]])
        Y = Yt = torch.tensor([0])
        a = KNNShapleyAttributor(k_neighbors=1)
    else:
        X, Y, Xt, Yt = (S.tensor(n, 1, 1) for n in ("X", "Y", "Xt", "Yt"))
        net = nn.Sequential(nn.Linear(1, 1))
        task = AttributionTask(loss_func=lambda m, b, dev: (m(b[0]) * b[1]).sum(), model=net, checkpoints={k: v.detach() for k, v in net.named_parameters()})
        a = BlockProjectedIFAttributor(task, layer_names="0", hessian="Identity", offload="none", sparsifier_params=None, **{})
        from dattri.params.projection import GeneralProjectionParams
        g = GeneralProjectionParams(proj_type="identity", proj_dim=-1)
        a = BlockProjectedIFAttributor(task, layer_names="0", hessian="Identity", offload="none", sparsifier_params=g, projector_params=g)
        a.cache(loader(X, Y, 1))
    (tr, st), (te, se) = ordered(TensorDataset(X, Y), st), ordered(TensorDataset(Xt, Yt), se)
    r = announced(S, lambda: a.attribute(tr, te), SHUFFLE, st or se, "attribute")
    S.check_true(tuple(r.shape) == (1, 1), "scores are returned")


def rps(S, kind):
    """RPS: shuffled loaders and missing cached data are announced (the fine-tuned layer is taken as given)."""
    from dattri.algorithm import rps as R
    X, Xt = S.tensor("X", 2, 2), S.tensor("Xt", 1, 2)
    Y, Yt = torch.tensor([0, 1]), torch.tensor([1])
    net = nn.Sequential()
    net.add_module("fc", nn.Linear(2, 2, bias=False))
    W, theta = S.tensor("W", 2, 2), S.tensor("theta", 2, 2)
    task = AttributionTask(loss_func=torch.nn.functional.cross_entropy, model=net, checkpoints={"fc.weight": W})
    a = RPSAttributor(task=task, final_linear_layer_name="fc", normalize_preactivate=False, l2_strength=0.5, epoch=1)
    real, R.rps_finetune_theta = R.rps_finetune_theta, lambda x, y, init, **kw: theta.clone()
    try:
        c = S.choice("cached", 2)
        if c:
            a.cache(loader(X, Y, 2))
        if kind == "order":
            st, se = S.choice("train-order", 5), S.choice("test-order", 5)
            (tr, st), (te, se) = ordered(TensorDataset(X[:1], Y[:1]), st), ordered(TensorDataset(Xt, Yt), se)
            r = announced(S, lambda: a.attribute(tr, te), SHUFFLE, st or se, "attribute")
            S.check_true(tuple(r.shape) == (1, 1), "scores are returned")
        else:
            r = announced(S, lambda: a.attribute(loader(X, Y, 1), loader(Xt, Yt, 1)), "NOT cached", not c, "attribute")
            S.check_true(tuple(r.shape) == (2, 1), "scores are returned")
    finally:
        R.rps_finetune_theta = real


def no_cache(S, kind):
    c = S.choice("cached", 2)
    cks = ckpt(S, 0)
    X, Y, Xt, Yt, tr, te = data(S)
    a = attributor(S, kind, cks, tr)
    if c:
        a.cache(tr)
    r = announced(S, lambda: a.attribute(tr, te), "NOT cached", not c, "attribute")
    S.check_true(tuple(r.shape) == (2, 1), "scores are returned")


def batches(S, kind):
    """Batches other than tuples, lists and dictionaries."""
    t = S.choice("train-batch", 4)
    e = S.choice("test-batch", 4)
    cks = ckpt(S, 0)
    X, Y, Xt, Yt = S.tensor("X", 2, 2), S.tensor("Y", 2, 1), S.tensor("Xt", 1, 2), S.tensor("Yt", 1, 1)

    def coll(k):
        def g(items):
            x, y = torch.stack([i[0] for i in items]), torch.stack([i[1] for i in items])
            return ((x, y), [x, y], {"x": x, "y": y}, torch.cat([x, y], dim=1))[k]
        return g

    def wrap(f):
        return lambda p, d: f(p, (d["x"], d["y"]) if isinstance(d, dict) else d)
    single = kind in ("tracin", "trak")
    task = AttributionTask(loss_func=wrap(loss_p if single else loss_batch_p), model=Toy(), checkpoints=cks, target_func=wrap(target_l if single else target_batch))
    tr, te = DataLoader(TensorDataset(X, Y), batch_size=2, collate_fn=coll(t)), DataLoader(TensorDataset(Xt, Yt), batch_size=1, collate_fn=coll(e))
    g, h = grads(loss_p, cks, rows(X, Y)), grads(target_l, cks, rows(Xt, Yt))
    if kind == "tracin":
        a = TracInAttributor(task=task, weight_list=torch.ones(1), normalized_grad=False, proj_params=TracInProjectionParams(proj_type="identity", proj_dim=4))
        r = refused(S, lambda: a.attribute(tr, te), TypeError, t == 3 or e == 3, "attribute")
        if r is not None:
            S.check(r, g @ h.T, "scores")
        r = refused(S, lambda: a.self_attribute(tr), TypeError, t == 3, "self_attribute")
        if r is not None:
            S.check(r, (g * g).sum(dim=1), "self-attributions")
    elif kind == "trak":
        a = TRAKAttributor(task=task, correct_probability_func=wrap(lambda p, d: (p["l1.weight"].reshape(-1) * d[0]).sum() + p["l2.bias"].sum() * d[1].sum()), layer_name=["l2.bias"],
                           proj_params=TRAKProjectionParams(proj_type="identity", proj_dim=1), regularization=1.0)
        r = refused(S, lambda: a.attribute(te, tr), TypeError, t == 3 or e == 3, "attribute")
        S.check_true((r is None) == (t == 3 or e == 3), "scores")
        refused(S, lambda: a.cache(tr), TypeError, t == 3, "cache")
    else:
        cls, kw = dict(explicit=(IFAttributorExplicit, dict(regularization=1.0)), cg=(IFAttributorCG, dict(regularization=1.0, max_iter=1)), datainf=(IFAttributorDataInf, dict(regularization=1.0)))[kind]
        a = cls(task=task, layer_name="l2.bias", **kw)
        bad = refused(S, lambda: a.cache(tr), TypeError, t == 3, "cache") if kind == "datainf" else a.cache(tr)
        r = refused(S, lambda: a.attribute(tr, te), TypeError, t == 3 or e == 3, "attribute")
        S.check_true((r is None) == (t == 3 or e == 3) and bad is None, "scores")


def projections(S):
    k = S.choice("type", 6)
    ty = ("identity", "normal", "rademacher", "random_mask", "sjlt", "grass")[k]
    F = S.tensor("F", 2, 2)

    def f():
        return random_project(F, RandomProjectionParams(proj_dim=2, proj_max_batch_size=8, proj_seed=1, proj_type=ty, feature_batch_size=2, device="cpu"))(F, ensemble_id=0)
    r = refused(S, f, ValueError, k > 3, "a projection without GPU")
    if r is not None:
        S.check_true(tuple(r.shape) == (2, 2), "projected")


def rows_match(S):
    a, b = S.choice("first", 3) + 1, S.choice("second", 3) + 1
    g = {"p": S.tensor("p", a, 2), "q": S.tensor("q", b, 1)}
    r = refused(S, lambda: vectorize(g, batch_dim=True, device="cpu"), ValueError, a != b, "rows")
    if r is not None:
        S.check(r, torch.cat([g["p"], g["q"]], dim=1), "vectorized")


class DropNet(nn.Module):
    def __init__(self):
        super().__init__()
        self.fc, self.drop = nn.Linear(1, 1), nn.Dropout(0.5)
        self.block = nn.Sequential(nn.Dropout(0.5))


def dropout_names(S):
    k = S.choice("names", 5)
    names = (["drop"], ["fc"], ["drop", "fc"], ["block.0"], ["block"])[k]
    p = S.tensor("unused", 1)
    r = refused(S, lambda: activate_dropout(DropNet().eval(), names, 0.25), ValueError, k in (1, 2, 4), "names of layers")
    if r is not None:
        S.check(p * (r.drop if k == 0 else r.block[0]).p, p * 0.25, "probability")


def layer_task(S):
    n, flat = S.choice("layer", 2), S.choice("flatten", 2)
    cks, task = toy_task(S)
    nm = "l2.bias" if n else None
    for g, f in ((task.get_loss_func, loss_p), (task.get_target_func, target_l)):
        r = refused(S, lambda: g(flatten=bool(flat), layer_name=nm, ckpt_idx=0), NotImplementedError, n and not flat, "a layer of a function of a dictionary")
        if r is not None and not flat:
            x = (S.tensor("x", 2), S.tensor("y", 1))
            S.check(r(cks[0], x), f(cks[0], x), "the function itself")
    m = S.choice("map", 5)
    mp = [0] * m
    r = refused(S, lambda: task.get_param(ckpt_idx=0, layer_split=True, param_layer_map=mp), ValueError, m not in (0, 3), "a layer index per parameter")
    if r is not None and m == 3:
        S.check(r[0][0], cks[0][NAMES[0]].reshape(-1), "the first parameter")


def dvemb(S):
    k, count, kind = S.choice("state", 2), S.choice("arguments", 3), S.choice("kind", 4)
    fact = ("none", "kronecker", "elementwise", "outer")[kind]
    net = nn.Sequential(nn.Linear(1, 1, bias=False))
    fs = (lambda p: 0, lambda p, b: (torch.func.functional_call(net, p, (b[0],)) * b[1]).sum(), lambda m, b, d: (m(b[0]) * b[1]).sum())
    task = AttributionTask(loss_func=fs[count], model=net, checkpoints={a: v.detach().clone() for a, v in net.named_parameters()}) if count else None
    if task is None:
        S.check_true(True, "nothing to do")
        return
    from dattri.params.projection import DVEmbProjectionParams
    bad = (count == 1) != (fact == "none")
    a = refused(S, lambda: DVEmbAttributor(task, factorization_type=fact, proj_params=DVEmbProjectionParams(proj_dim_per_layer=1) if kind == 3 else None), ValueError, bad or kind == 3, "loss function and factorization")
    if a is None:
        return
    te = loader(S.tensor("Xt", 1, 1), S.tensor("Yt", 1, 1), 1)
    refused(S, lambda: a.cache(), ValueError, True, "embeddings without steps")
    refused(S, lambda: a.attribute(te), RuntimeError, True, "attribute before the embeddings")
    if k:
        a.cache_gradients(0, (S.tensor("X", 2, 1), S.tensor("Y", 2, 1)), torch.arange(2), 0.5)
        a.cache()
        refused(S, lambda: a.cache(gradients={0: [torch.zeros(2, 1)]}), ValueError, kind != 0, "gradients from outside") if kind else None
        e = S.choice("epoch", 2)
        r = refused(S, lambda: a.attribute(te, epoch=e), ValueError, e == 1, "an epoch that was not recorded")
        if r is not None:
            S.check_true(tuple(r.shape) == (2, 1), "scores")


case(CASES, "tracin-weights", tracin_weights, opts=O)
for s in (False, True):
    case(CASES, f"trak-loaders{'-self' * s}", trak_loaders, selfattr=s, opts=O)
case(CASES, "ekfac-ensemble", ekfac, opts=O)
case(CASES, "arnoldi-before-cache", before_cache, opts=O)
for c in (IFAttributorExplicit, IFAttributorCG):
    case(CASES, f"methods-{c.__name__[12:]}", methods, cls=c, opts=O)
case(CASES, "knn-labels", knn_labels, opts=O)
for lo in (1, 11, 21, 31):
    case(CASES, f"logra-squares-{lo}", squares, kind="logra", lo=lo, opts=O)
    case(CASES, f"factgrass-squares-{lo}", squares, kind="factgrass", lo=lo, opts=O)
case(CASES, "block-storage", block, opts=O)
case(CASES, "hvp-modes", modes, opts=O)
case(CASES, "batch-sizes", batch_sizes, opts=O)
case(CASES, "subsets", subsets, opts=O)
for k in ("tracin", "trak", "explicit", "cg", "lissa", "datainf"):
    case(CASES, f"shuffled-{k}", shuffled, kind=k, opts=O)
for k in ("knn", "block"):
    case(CASES, f"shuffled-{k}", shuffled_other, kind=k, opts=O)
for k in ("explicit", "cg"):
    case(CASES, f"no-cache-{k}", no_cache, kind=k, opts=O)
for k in ("tracin", "trak", "explicit", "cg", "datainf"):
    case(CASES, f"batches-{k}", batches, kind=k, opts=O)
case(CASES, "projections", projections, opts=O)
case(CASES, "rows-match", rows_match, opts=O)
case(CASES, "dropout-names", dropout_names, opts=O)
case(CASES, "layer-task", layer_task, opts=O)
case(CASES, "dvemb", dvemb, opts=O)
for k in ("order", "cache"):
    case(CASES, f"rps-{k}", rps, kind=k, opts=O)
