"""C17: retraining and ground truth."""
import shutil
import tempfile
from pathlib import Path

import numpy as np
import torch
import yaml
from torch import nn
from torch.utils.data import DataLoader, TensorDataset

from dattri.benchmark.utils import SubsetSampler
from dattri.metric.ground_truth import calculate_lds_ground_truth, calculate_loo_ground_truth
from dattri.model_util.retrain import retrain_lds, retrain_loo

from .common import *  # noqa: F403

BOUNDS = ("2-5 training and 1-2 test samples, every training batch size up to 3, samplers over the whole data set or over chosen indices, 1-3 subsets (every draw of the subsets), fractions 0.5, 0.75 and 1, "
          "1-2 runs per subset, one or two retraining runs in either order, every choice and order of up to 3 removed samples; all real data and target values")
ASSUMPTIONS = ["numpy's choice without replacement returns distinct positions, the same for the same generator seed; drawn values are arbitrary",
               "the training function's result is a function of the samples it is given and the seed (here: sums, so that the order does not matter)",
               "file contents are kept exactly by torch.save, torch.load and the file system (the real ones are used, in a scratch directory)"]
CASES = []


class Fitted(nn.Module):
    """What the stand-in training returns: sums over the samples it saw."""

    def __init__(self, w, count, seed):
        super().__init__()
        self.w, self.count = nn.Parameter(w), nn.Parameter(torch.tensor([float(count)]))
        self.seed = nn.Parameter(torch.tensor([float(seed)]))


class Rng:
    """numpy generator whose draws are unknown, equal for equal seeds."""
    S, known = None, None

    def __init__(self, seed=None):
        self.seed, self.calls = seed, 0

    def choice(self, n, size=None, replace=True, **k):
        assert replace is False, "subsets are drawn without replacement"
        n = n if isinstance(n, int) else len(n)
        key = (self.seed, self.calls, n)
        self.calls += 1
        if self.seed is None or key not in Rng.known:
            Rng.known[key] = Rng.S.permutation(f"draw{len(Rng.known)}", n)
        return np.array(Rng.known[key][:size])


class world:
    def __init__(self, S):
        self.S = S

    def __enter__(self):
        self.dir = tempfile.mkdtemp()
        self.old = np.random.default_rng
        Rng.S, Rng.known = self.S, {}
        np.random.default_rng = Rng
        return self

    def __exit__(self, *a):
        np.random.default_rng = self.old
        shutil.rmtree(self.dir)


def setup(S, n, m, bs, sampler):
    ids = list(range(n))
    if sampler == "subset":
        ids = list(S.permutation("sampled", n + 1)[:n]) if n < 3 else [n, 0, 2, 4, 1][:n]
    N = max(ids) + 1
    X, T = S.tensor("X", N, 1), S.tensor("T", m, 1)
    kw = {"sampler": SubsetSampler(ids)} if sampler == "subset" else ({"shuffle": True} if sampler == "shuffle" else {})
    return ids, X, T, DataLoader(TensorDataset(X), batch_size=bs, **kw), loader(T, None, 2 if sampler else 1, "subset" if sampler == "subset" else "tuple")


class Train:
    def __init__(self, scale=1.0):
        self.seeds, self.__name__, self.kw = [], "train", []

    def __call__(self, dl, seed=None, **kw):
        self.seeds.append(seed)
        self.kw.append((kw, dl.batch_size))
        w, c = 0.0, 0
        for (x,) in dl:
            w, c = w + x.sum(dim=0), c + len(x)
        return Fitted(w.detach(), c, 0 if seed is None else seed)


def target(w, count, T):
    """one value per test sample"""
    return (w * T.reshape(-1) + T.reshape(-1) ** 2 * count).reshape(-1)


def lds(S, n=3, m=2, bs=2, subsets=2, ratio=0.5, runs=1, seed=5, sampler=None, split=None, **kw):
    with world(S) as W:
        ids, X, T, tr, te = setup(S, n, m, bs, sampler)
        seen = []

        def tf(path, dl):
            sd = torch.load(path)
            seen.append(float(sd["seed"].detach().numpy()[0]) if not S.sym else float(S.raw(sd["seed"])[0]))
            return target(sd["w"], sd["count"], torch.cat([t for (t,) in dl]))

        def go(path, parts):
            f = Train()
            for start, num in parts:
                retrain_lds(f, tr, path, num_subsets=num, subset_ratio=ratio, num_runs_per_subset=runs, start_id=start,
                            total_num_subsets=subsets if len(parts) > 1 else 0, seed=seed, extra=3)
            gt, idx = calculate_lds_ground_truth(tf, path, te)
            return f, gt, idx
        f, gt, idx = go(W.dir + "/a", [(0, subsets)])
        S.check_true(all(k == {"extra": 3} for k, _ in f.kw), "arguments of the training function are passed on")
        size = int(n * ratio)
        S.check_true(tuple(idx.shape) == (subsets, size), "as many subsets and samples as asked for")
        S.check_true(all(len(set(r)) == size and set(r) <= set(range(n)) for r in idx.tolist()), "distinct samples of the training set")
        S.check_true(len(f.seeds) == subsets * runs, "as many models as asked for")
        if seed is not None:
            S.check_true(len(set(f.seeds)) == subsets * runs, "every run has its own seed")
        exp = torch.stack([-target(sum(X[ids[k]] for k in r), float(size), T) for r in idx.tolist()])
        S.check(gt, exp, "ground truth of the recorded subsets")
        for i in range(subsets):
            rec = [int(x) for x in Path(W.dir, "a", str(i), "indices.txt").read_text().split()]
            S.check_true(rec == idx[i].tolist(), "recorded subset")
            for j in range(runs):
                sd = torch.load(Path(W.dir, "a", str(i), f"model_weights_{j}.pt"))
                S.check(sd["w"], sum(X[ids[k]] for k in rec), "model trained on the recorded subset")
                S.check(sd["count"], torch.tensor([float(size)]), "each sample once")
        meta = yaml.safe_load(Path(W.dir, "a", "metadata.yml").read_text())
        S.check_true((meta["num_subsets"], meta["num_runs_per_subset"], meta["subset_ratio"], meta["data_length"]) == (subsets, runs, ratio, n), "metadata")
        if split:
            g, gt2, idx2 = go(W.dir + "/b", split)
            S.check(gt2, gt, "split into several runs")
            S.check_true(idx2.tolist() == idx.tolist(), "same subsets when split")
            S.check_true(sorted(g.seeds) == sorted(f.seeds), "same seeds when split")


def lds_average(S, m=2, runs=2, subsets=2):
    """Repetitions with different results are averaged, per position."""
    with world(S) as W:
        ids, X, T, tr, te = setup(S, 3, m, 1, None)
        V = S.tensor("V", subsets, runs, m)
        f = Train()
        retrain_lds(f, tr, W.dir, num_subsets=subsets, num_runs_per_subset=runs, seed=0)
        calls = []

        def tf(path, dl):
            p = Path(path)
            i, j = int(p.parent.name), int(p.name[len("model_weights_"):-3])
            calls.append((i, j))
            return V[i, j]
        gt, idx = calculate_lds_ground_truth(tf, W.dir, te)
        S.check(gt, -V.sum(dim=1) / runs, "average over the runs")
        S.check_true(sorted(calls) == [(i, j) for i in range(subsets) for j in range(runs)], "every model once")


def loo(S, n=3, m=2, bs=2, removed=None, sampler=None, seed=5):
    with world(S) as W:
        ids, X, T, tr, te = setup(S, n, m, bs, sampler)
        kw = {}
        if removed is not None:
            kw["indices"] = list(S.permutation("removed", n)[:removed])
        f = Train()
        retrain_loo(f, tr, W.dir, seed=seed, extra=3, **kw)
        S.check_true(all(k == {"extra": 3} for k, _ in f.kw) and set(f.seeds) == {seed}, "arguments of the training function are passed on")

        def tf(model, dl):
            return target(model.w, model.count, torch.cat([t for (t,) in dl]))
        gt, idx = calculate_loo_ground_truth(tf, W.dir, te)
        rem = [int(i) for i in idx.tolist()]
        S.check_true(sorted(rem) == sorted(kw.get("indices", range(n))), "one model per removed sample")
        exp = torch.stack([target(sum(X[ids[k]] for k in range(n) if k != r), float(n - 1), T) for r in rem])
        S.check(gt, exp, "ground truth of the model without the reported sample")
        meta = yaml.safe_load(Path(W.dir, "metadata.yml").read_text())
        S.check_true(sorted(meta["map_index_dir"]) == sorted(rem) and meta["data_length"] == n, "metadata")
        for k, d in meta["map_index_dir"].items():
            w = torch.load(Path(d) / "model_weights.pt", weights_only=False)
            S.check(w.w, sum(X[ids[q]] for q in range(n) if q != k), "recorded model")


def loo_many(S, n=12):
    """More than ten models: positions follow the numeric order of the removed samples."""
    with world(S) as W:
        X, T = S.tensor("X", n, 1), S.tensor("T", 1, 1)
        retrain_loo(Train(), DataLoader(TensorDataset(X), batch_size=5), W.dir, seed=1)
        gt, idx = calculate_loo_ground_truth(lambda mo, dl: target(mo.w, mo.count, T), W.dir, DataLoader(TensorDataset(T)))
        S.check(gt, torch.stack([target(sum(X[k] for k in range(n) if k != int(r)), float(n - 1), T) for r in idx.tolist()]), "ground truth")
        S.check_true(sorted(int(i) for i in idx.tolist()) == list(range(n)), "every sample once")


BIG = {"max_paths": 4000}
for bs in (1, 2, 3):
    case(CASES, f"lds-batch{bs}", lds, bs=bs, opts=BIG)
for sampler in ("subset", "shuffle"):
    case(CASES, f"lds-sampler-{sampler}", lds, n=3, sampler=sampler, opts=BIG)
    case(CASES, f"loo-sampler-{sampler}", loo, n=3, sampler=sampler, opts=BIG)
    case(CASES, f"loo-sampler-{sampler}-some", loo, n=3, sampler=sampler, removed=2, m=1, opts=BIG)
case(CASES, "lds-any-sampled-indices", lds, n=2, m=1, subsets=1, sampler="subset", opts=BIG)
case(CASES, "lds-ratio-0.75", lds, n=4, m=1, subsets=1, ratio=0.75, opts=BIG)
case(CASES, "lds-ratio-1", lds, n=2, m=1, subsets=2, ratio=1.0, opts=BIG)
case(CASES, "lds-2-runs", lds, n=2, m=2, runs=2, subsets=2, opts=BIG)
case(CASES, "lds-3-subsets-2-runs", lds, n=2, m=1, runs=2, subsets=3, opts=BIG)
case(CASES, "lds-no-seed", lds, n=2, m=1, seed=None, opts=BIG)
case(CASES, "lds-split", lds, n=3, m=1, subsets=2, split=[(0, 1), (1, 1)], opts=BIG)
case(CASES, "lds-split-other-order", lds, n=2, m=1, subsets=2, split=[(1, 1), (0, 1)], opts=BIG)
case(CASES, "lds-split-2-runs", lds, n=2, m=1, subsets=4, runs=2, split=[(0, 2), (2, 2)], opts=BIG)
case(CASES, "lds-split-in-3", lds, n=2, m=1, subsets=3, runs=1, split=[(0, 1), (2, 1), (1, 1)], opts=BIG)
case(CASES, "lds-average", lds_average, opts=BIG)
case(CASES, "lds-average-3", lds_average, m=1, runs=3, subsets=1, opts=BIG)
for bs in (1, 2, 3):
    case(CASES, f"loo-batch{bs}", loo, bs=bs)
case(CASES, "loo-some-removed", loo, n=3, removed=2, opts=BIG)
case(CASES, "loo-4-removed-3", loo, n=4, m=1, removed=3, opts=BIG)
case(CASES, "loo-5", loo, n=5, m=1)
case(CASES, "loo-12", loo_many)
