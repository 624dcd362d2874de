"""C18: brittleness."""
import functools

import torch
from torch import nn
from torch.utils.data import DataLoader, TensorDataset

from dattri.benchmark.utils import SubsetSampler
from dattri.metric.britteness import brittleness, check_if_flip

from .common import *  # noqa: F403

BOUNDS = ("1-5 training samples, every strict order of the scores, every outcome (2 or 3 classes) of retraining on every remaining set, every search space given as an ordered list of up to 4 sizes "
          "between 0 and one more than the training size, samplers over the whole data set, over chosen indices, shuffled; default search space; scores as tensor, column or array; all real scores and samples")
ASSUMPTIONS = ["scores differ pairwise", "retraining and evaluation are functions of the remaining set of samples (arbitrary otherwise)", "one test sample"]
CASES = []


class Model(nn.Module):
    def __init__(self, seen):
        super().__init__()
        self.seen, self.drop = seen, nn.Dropout()


def ranked(score):
    """Positions by decreasing score (decided symbolically)."""
    return sorted(range(len(score)), key=functools.cmp_to_key(lambda a, b: -1 if bool(score[a] > score[b]) else 1))


def build(S, n, sampler, bs, classes):
    ids = {None: list(range(n)), "subset": [5, 0, 3, 6, 1][:n], "list": list(range(n)), "shuffle": list(range(n)), "reversed": list(range(n))[::-1]}[sampler]
    N = max(ids) + 1
    tags = torch.arange(N).reshape(N, 1)
    kw = {"shuffle": True} if sampler == "shuffle" else ({"sampler": SubsetSampler(ids)} if sampler else {})
    tr = DataLoader(TensorDataset(tags), batch_size=bs, **kw)
    label = S.choice("label", classes)
    te = DataLoader(TensorDataset(torch.zeros(1, 2), torch.tensor([label])), batch_size=1)
    known, calls = {}, []

    def pred(remaining):
        if remaining not in known:
            known[remaining] = S.choice(f"pred_{'_'.join(map(str, sorted(remaining)))}", classes)
        return known[remaining]

    def train(dl):
        seen = [int(v) for (x,) in dl for v in x.reshape(-1)]
        S.check_true(len(seen) == len(set(seen)), "no training sample twice")
        m = Model(frozenset(seen))
        m.train()
        return m

    def evaluate(m, dl):
        S.check_true(not m.training and dl is te, "evaluated in evaluation mode on the test loader")
        return torch.tensor([pred(m.seen)])
    return ids, tr, te, label, pred, train, evaluate


def search(S, n=3, space=None, sampler=None, bs=2, classes=2, form="tensor"):
    ids, tr, te, label, pred, train, evaluate = build(S, n, sampler, bs, classes)
    score = S.tensor("score", n, tag=True)
    S.distinct(score)
    if S.sym:
        S.e.numpy_policy = "object"
    arg = {"tensor": lambda: score, "column": lambda: score.reshape(n, 1), "array": lambda: score.numpy()}[form]()
    given = None if space is None else list(space)
    out = brittleness(tr, te, arg, train, evaluate, search_space=given)
    S.check_true(given is None or given == list(space), "the given search space is unchanged")
    o = ranked(score)
    want = None
    for k in sorted(space if space is not None else range(0, 200, 20)):
        left = frozenset(ids[p] for p in range(n) if p not in o[:k])
        if pred(left) != label:
            want = k
            break
    S.check_true(out == want and (out is None) == (want is None), "smallest searched removal that changes the prediction")


def flip(S, n=3, sampler=None, classes=2):
    """The single test: given positions are removed, all others kept."""
    ids, tr, te, label, pred, train, evaluate = build(S, n, sampler, 2, classes)
    gone = [p for p in range(n) if S.choice(f"gone{p}", 2)]
    out = check_if_flip(tr, te, gone, train, evaluate)
    left = frozenset(i for p, i in enumerate(ids) if p not in gone)
    S.check_true(bool(out) == (pred(left) != label), "the prediction after removing the given samples")


BIG = {"max_paths": 4000}
for n in (1, 2, 3, 4):
    case(CASES, f"all-sizes-{n}", search, n=n, space=range(n + 1), opts=BIG)
case(CASES, "five-samples", search, n=5, space=[1, 2, 4], opts=BIG)
case(CASES, "beyond-the-size", search, n=2, space=[1, 2, 3], opts=BIG)
case(CASES, "unordered", search, n=3, space=[2, 0, 1], opts=BIG)
case(CASES, "descending", search, n=3, space=[3, 2, 1], opts=BIG)
case(CASES, "repeated", search, n=2, space=[1, 1, 2], opts=BIG)
case(CASES, "empty", search, n=2, space=[], opts=BIG)
case(CASES, "default-space", search, n=3, opts=BIG)
case(CASES, "three-classes", search, n=3, space=[0, 1, 2], classes=3, opts=BIG)
for s in ("subset", "list", "shuffle", "reversed"):
    for bs in (1, 3):
        case(CASES, f"sampler-{s}-batch{bs}", search, n=3, space=[1, 2], sampler=s, bs=bs, opts=BIG)
    case(CASES, f"flip-{s}", flip, sampler=s, opts=BIG)
case(CASES, "flip", flip, n=4, opts=BIG)
case(CASES, "column", search, n=3, space=[0, 1, 2], form="column", opts=BIG)
case(CASES, "array", search, n=3, space=[0, 1, 2], form="array", opts=BIG)
