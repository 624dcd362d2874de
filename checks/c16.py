"""C16: evaluation metrics."""
import functools
import itertools

import numpy as np
import scipy.stats
import torch

from dattri.metric import metrics as MM

from .common import *  # noqa: F403

BOUNDS = ("2-5 training and 1-3 test samples, 2-4 subsets of 1-3 samples (every subset choice), every strict order of the scores and ground truths, "
          "every pattern of flagged samples and every non-empty choice and order of removed samples; all real scores and ground truths")
ASSUMPTIONS = ["the compared values of one test sample differ pairwise; at least one flagged and one unflagged sample; removed scores and ground truths are not constant",
               "scipy's spearmanr and pearsonr are correct: in the encoding they are replaced by their definition (ranks and sums of products; the p-value of a rank correlation by scipy itself, that of a linear correlation by a function of correlation and length)"]
CASES = []


class Res:
    def __init__(self, c, p):
        self.correlation = self.statistic = c
        self.pvalue = p

    def __iter__(self):
        return iter((self.correlation, self.pvalue))

    def __getitem__(self, i):
        return (self.correlation, self.pvalue)[i]


def order(x):
    """Positions by increasing value (decided symbolically)."""
    return sorted(range(len(x)), key=functools.cmp_to_key(lambda a, b: -1 if bool(x[a] < x[b]) else 1))


def ranks(x):
    r = [0] * len(x)
    for k, i in enumerate(order(x)):
        r[i] = k
    return r


def pearson(x, y):
    n = len(x)
    dx, dy = x - x.sum() / n, y - y.sum() / n
    return (dx * dy).sum() / torch.sqrt((dx * dx).sum() * (dy * dy).sum())


class stubs:
    """scipy's correlations, as definitions on terms."""

    def __init__(self, S):
        self.S = S

    def __enter__(self):
        self.old = [(m, k, getattr(m, k)) for m in (MM, scipy.stats) for k in ("spearmanr", "pearsonr") if hasattr(m, k)]
        real_s, real_p = scipy.stats.spearmanr, scipy.stats.pearsonr
        self.real_s = real_s
        if not self.S.sym:
            self.p = lambda x, y: torch.tensor(float(real_p(x.numpy(), y.numpy()).pvalue))
            self.close = lambda: None
            return self
        self.p = lambda x, y: pearson(x, y) ** 2 * len(x) + 1.0

        def spear(x, y, *a, **k):
            r = real_s(ranks(x), ranks(y))
            return Res(float(r.correlation), float(r.pvalue))

        def pear(x, y, *a, **k):
            assert len(x) == len(y), "x and y must have the same length"
            return Res(pearson(x, y), self.p(x, y))
        for m, k, _ in self.old:
            setattr(m, k, spear if k == "spearmanr" else pear)
        return self

    def __exit__(self, *a):
        for m, k, v in self.old:
            setattr(m, k, v)


def lds_case(S, n=3, m=1, size=2, subsets=3, relabel=False):
    score, gt = S.tensor("score", n, m), S.tensor("gt", subsets, m)
    all_sub = list(itertools.combinations(range(n), size))
    idx = [all_sub[S.choice(f"subset{i}", len(all_sub))] for i in range(subsets)]
    sums = torch.stack([torch.stack([sum(score[i, j] for i in s) for j in range(m)]) for s in idx])
    for j in range(m):
        S.distinct(gt[:, j])
        S.distinct(sums[:, j])
    with stubs(S) as st:
        c, p = MM.lds(score, (gt, torch.tensor(idx)))
        ref = [st.real_s(ranks(sums[:, j]), ranks(gt[:, j])) for j in range(m)]
        S.check(c, torch.tensor([float(r.correlation) for r in ref]), "rank correlation", slack=1e-5)
        if subsets > 2:  # scipy defines no p-value for two values
            S.check(p, torch.tensor([float(r.pvalue) for r in ref]), "p-value", slack=1e-5)
        S.check_true(tuple(c.shape) == (m,) and tuple(p.shape) == (m,), "one value per test sample")
        if relabel:
            perm = S.permutation("perm", n)
            inv = [perm.index(i) for i in range(n)]
            flip = list(range(subsets))[::-1]
            c2, p2 = MM.lds(score[perm], (gt[flip], torch.tensor([[inv[i] for i in idx[s]][::-1] for s in flip])))
            S.check(c2, c, "relabelled samples and subsets", slack=1e-5)
            if subsets > 2:
                S.check(p2, p, "relabelled samples and subsets, p-value", slack=1e-5)


def loo_case(S, n=3, m=1, k=None, shuffled=False, floats=True):
    k = k or n
    score = S.tensor("score", n, m)
    gt = S.tensor("gt", k, m)
    idx = S.permutation("removed", n)[:k] if shuffled else list(range(k))
    if not shuffled and k < n:
        idx = sorted(list(itertools.combinations(range(n), k))[S.choice("removed", len(list(itertools.combinations(range(n), k))))])
    sel = torch.stack([score[i] for i in idx])
    for j in range(m):
        for t in (sel[:, j], gt[:, j]):
            d = t - t.sum() / k
            S.assume((d * d).sum() > 1e-3)
    with stubs(S) as st:
        c, p = MM.loo_corr(score, (gt, torch.tensor(idx, dtype=torch.get_default_dtype() if floats else torch.int64)))
        for j in range(m):
            S.check(c[j], pearson(sel[:, j], gt[:, j]), "linear correlation of the removed samples' scores with their ground truth")
            S.check(p[j], st.p(sel[:, j], gt[:, j]), "p-value")
        S.check_true(tuple(c.shape) == (m,) and tuple(p.shape) == (m,), "one value per test sample")


def auc_case(S, n=4):
    score = S.tensor("score", n)
    S.distinct(score)
    flags = [S.choice(f"flag{i}", 2) for i in range(n)]
    bad = sum(flags)
    if bad in (0, n):
        S.check_true(True, "no area is defined")
        return
    auc, (fpr, tpr, thr) = MM.mislabel_detection_auc(score, torch.tensor(flags, dtype=torch.bool))
    pairs = [(i, j) for i in range(n) for j in range(n) if flags[i] and not flags[j]]
    S.check(auc, torch.tensor(sum(1.0 for i, j in pairs if bool(score[i] > score[j])) / len(pairs)), "area: share of pairs in the right order", slack=1e-5)
    o = order(score)[::-1]
    t, f = [0.0], [0.0]
    for k in range(1, n + 1):
        hit = sum(flags[i] for i in o[:k])
        t.append(hit / bad)
        f.append((k - hit) / (n - bad))
    S.check(tpr, torch.tensor(t), "true positive rates", slack=1e-5)
    S.check(fpr, torch.tensor(f), "false positive rates", slack=1e-5)
    S.check_true([float(x) for x in thr] == [-float("inf"), *range(1, n + 1)], "numbers of inspected samples")
    perm = S.permutation("perm", n) if n < 4 else list(range(n))[::-1]
    auc2, _ = MM.mislabel_detection_auc(score[perm] ** 3, torch.tensor([flags[i] for i in perm], dtype=torch.bool))
    S.check(auc2, auc, "relabelled, increasing transformation", slack=1e-5)


BIG = {"max_paths": 6000}
case(CASES, "lds-3-subsets-of-2", lds_case, opts=BIG)
case(CASES, "lds-2-subsets-2-test", lds_case, m=2, subsets=2, opts=BIG)
case(CASES, "lds-2-subsets-3-test", lds_case, m=3, subsets=2, n=2, size=1, opts=BIG)
case(CASES, "lds-4-subsets-of-2", lds_case, n=4, subsets=2, opts=BIG)
case(CASES, "lds-subsets-of-1", lds_case, n=3, size=1, subsets=3, opts=BIG)
case(CASES, "lds-subsets-of-3", lds_case, n=4, size=3, subsets=2, m=1, opts=BIG)
case(CASES, "lds-relabelled-3", lds_case, n=3, size=1, subsets=3, relabel=True, opts=BIG)
case(CASES, "lds-3-subsets-2-test", lds_case, n=3, size=1, subsets=3, m=2, opts=BIG, tier="thorough")
case(CASES, "lds-relabelled", lds_case, n=3, size=2, subsets=2, relabel=True, opts=BIG)
for n in (2, 3, 4):
    case(CASES, f"loo-{n}", loo_case, n=n, m=1 + n % 2, floats=n != 3)
case(CASES, "loo-3-test", loo_case, n=3, m=3)
case(CASES, "loo-subset", loo_case, n=4, k=3)
case(CASES, "loo-subset-2", loo_case, n=3, k=2, m=2)
case(CASES, "loo-order", loo_case, n=3, shuffled=True, m=2)
case(CASES, "loo-order-subset", loo_case, n=4, k=2, shuffled=True)
for n in (2, 3, 4):
    case(CASES, f"mislabel-{n}", auc_case, n=n, opts=BIG)
case(CASES, "mislabel-5", auc_case, n=5, opts=BIG, tier="thorough")
