"""C15: KNN-Shapley."""
import itertools
from math import factorial

import torch
from torch.utils.data import DataLoader, TensorDataset

from dattri.algorithm.data_shapley import KNNShapleyAttributor, default_dist_func

from .common import *  # noqa: F403

BOUNDS = ("1-4 training and 1-2 test samples, every strict order of the distances, K from 1 to the training size + 2, every batch size, "
          "labels given as lists of arbitrary integers or taken from the batches (3 classes); the default distance on 1-2 coordinates; whole data sets and samplers that pick rows of a larger one")
ASSUMPTIONS = ["the distances of one test sample differ pairwise"]
CASES = []


def worth(coal, order, same, K):
    """Number of the K nearest members with the test label, divided by K."""
    near = [i for i in order if i in coal][:K]
    return sum(1.0 for i in near if same[i]) / K


def shapley(order, same, K):
    n = len(order)
    out = []
    for i in range(n):
        rest, v = [k for k in range(n) if k != i], 0.0
        for r in range(n):
            for s in itertools.combinations(rest, r):
                w = factorial(r) * factorial(n - r - 1) / factorial(n)
                v += w * (worth(set(s) | {i}, order, same, K) - worth(set(s), order, same, K))
        out.append(v)
    return out


def ranked(D):
    """Indices by increasing distance (decided symbolically)."""
    import functools
    return sorted(range(len(D)), key=functools.cmp_to_key(lambda a, b: -1 if bool(D[a] < D[b]) else 1))


def values(S, n=3, m=1, K=2, bs=2, tbs=1, labels="given", classes=2, again=False, kind="tuple"):
    D = S.tensor("D", m, n)
    for j in range(m):
        S.distinct(D[j])
    idx, tidx = torch.arange(n).reshape(n, 1), torch.arange(m).reshape(m, 1)
    if labels == "any":
        Y, TY = [S.integer(f"y{i}", 0, 3) for i in range(n)], [S.integer(f"ty{j}", 0, 3) for j in range(m)]
    else:
        Y, TY = [S.choice(f"y{i}", classes) for i in range(n)], [S.choice(f"ty{j}", classes) for j in range(m)]
    dist = lambda t, x: D[t[0].reshape(-1)][:, x[0].reshape(-1)]  # noqa: E731
    a = KNNShapleyAttributor(k_neighbors=K, distance_func=dist)

    def run(bs, tbs):
        kw = {}
        if labels == "batch":
            tr, te = loader(idx, torch.tensor(Y), bs, kind), loader(tidx, torch.tensor(TY), tbs, kind)
        else:
            tr, te = loader(idx, None, bs, kind), loader(tidx, None, tbs, kind)
            kw = dict(train_labels=list(Y), test_labels=list(TY))
        return a.attribute(tr, te, **kw)
    out = run(bs, tbs)
    S.check_true(tuple(out.shape) == (m, n), "one value per test and training sample")
    rowsv = []
    for j in range(m):
        same = [bool(Y[i] == TY[j]) for i in range(n)]
        rowsv.append(shapley(ranked(D[j]), same, K))
        S.check(out[j].sum(), torch.tensor(worth(set(range(n)), ranked(D[j]), same, K)), "the values add up to the worth of the training set", slack=1e-5)
    S.check(out, torch.tensor(rowsv), "Shapley values", slack=1e-5)
    if again:
        S.check(run(n, m), torch.tensor(rowsv), "other split", slack=1e-5)
        perm = list(S.permutation("order", n))
        tr = DataLoader(TensorDataset(idx[perm]), batch_size=bs)
        te = DataLoader(TensorDataset(tidx), batch_size=tbs)
        p = a.attribute(tr, te, train_labels=[Y[i] for i in perm], test_labels=list(TY))
        S.check(p, torch.tensor(rowsv)[:, perm], "ordering of the training set", slack=1e-5)


def default_distance(S, n=3, m=1, d=1, K=1):
    """The default distance is Euclidean on the first element of each batch."""
    X, T = S.tensor("X", n, d), S.tensor("T", m, d)
    sq = lambda j, i: ((T[j] - X[i]) ** 2).sum()  # noqa: E731
    for j in range(m):
        S.distinct(torch.stack([sq(j, i) for i in range(n)]))
        for i in range(n):
            S.assume(sq(j, i) > 0)
    Y, TY = torch.tensor([S.choice(f"y{i}", 2) for i in range(n)]), torch.zeros(m, dtype=torch.int64)
    out = KNNShapleyAttributor(k_neighbors=K).attribute(loader(X, Y, 2), loader(T, TY, 1))
    S.check(out, torch.tensor([shapley(ranked([sq(j, i) for i in range(n)]), [int(y) == 0 for y in Y], K) for j in range(m)]), "Shapley values under the Euclidean distance", slack=1e-5)


def distance(S, n=2, m=2, d=2):
    X, T = S.tensor("X", n, d), S.tensor("T", m, d)
    out = default_dist_func((T, None), (X, None))
    for j in range(m):
        for i in range(n):
            S.check(out[j, i] ** 2, ((T[j] - X[i]) ** 2).sum(), "Euclidean distance")


for n in (1, 2, 3):
    for K in range(1, n + 3):
        case(CASES, f"{n}-train-K{K}-any-labels", values, n=n, K=K, labels="any", bs=2, opts={"max_paths": 2000})
        case(CASES, f"{n}-train-K{K}-batch-labels", values, n=n, K=K, labels="batch", bs=1 + n // 3, opts={"max_paths": 2000})
for K in range(1, 7):
    case(CASES, f"4-train-K{K}", values, n=4, K=K, bs=3, opts={"max_paths": 5000})
for bs in (1, 2, 3):
    for tbs in (1, 2):
        case(CASES, f"2-test-batch{bs}-{tbs}", values, n=2 if bs < 3 else 3, m=2, K=2, bs=bs, tbs=tbs, labels="batch", opts={"max_paths": 5000})
for lb in ("batch", "given"):
    case(CASES, f"subset-sampler-{lb}-labels", values, n=3, m=2, K=2, bs=2, labels=lb, kind="subset", opts={"max_paths": 5000})
case(CASES, "3-classes", values, n=3, K=2, labels="batch", classes=3, opts={"max_paths": 5000})
case(CASES, "reordered", values, n=3, K=2, again=True, opts={"max_paths": 5000})
case(CASES, "reordered-2", values, n=2, K=3, m=2, tbs=2, again=True, opts={"max_paths": 5000})
case(CASES, "default-distance-1d", default_distance, opts={"max_paths": 5000})
case(CASES, "default-distance-2d", default_distance, d=2, n=2, opts={"max_paths": 5000})
case(CASES, "default-distance-2-test", default_distance, n=2, m=2, K=2, opts={"max_paths": 5000})
case(CASES, "euclidean", distance, opts={"max_paths": 500})
