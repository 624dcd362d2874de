"""C12: random projections are fixed linear maps."""
import contextlib
import sys
import types

import torch

from dattri.func import projection as P
from dattri.params.projection import RandomProjectionParams

from .common import *  # noqa: F403

BOUNDS = ("1-4 features, 1-4 projected dimensions, blocks of 1..4 columns (up to 101 blocks), 1-4 rows, every sequence of 3 calls over 3 ensemble members and free_memory, "
          "tensor and dictionary features; all real feature values and all values of the random generator (every permutation for random masks)")
ASSUMPTIONS = ["the CUDA projector runs on CPU tensors behind a stand-in device; the external SJLT kernel is replaced by the linear map its index and sign tables define",
               "different seeds of one generator type are taken to give unrelated draws; equal generator states give equal draws"]
CASES = []


class Dev:
    """Stand-in for a CUDA device."""
    type = "cuda"

    def __eq__(self, o): return True
    def __ne__(self, o): return False
    def __hash__(self): return 0


class SJLT:
    def __init__(self, d, p, c, device=None):
        self.d, self.p, self.c = d, p, c
        self.rand_indices, self.rand_signs = torch.zeros(d, c, dtype=torch.int64), torch.zeros(d, c, dtype=torch.int8)

    def __call__(self, x):
        cols = []
        for j in range(self.p):
            cols.append(sum(x[:, i] * float(self.rand_signs[i, k]) * float(self.rand_indices[i, k] == j) for i in range(self.d) for k in range(self.c)))
        return torch.stack(cols, dim=1)


class Shim:
    """The torch module with devices replaced by the CPU."""

    def __init__(self, S):
        self.S, self.perms = S, {}

    def __getattr__(self, k):
        v = getattr(torch, k)
        if k in ("empty", "zeros", "randint", "Generator", "ones", "arange", "tensor", "full", "randn", "rand"):
            return lambda *a, **kw: v(*a, **{x: y for x, y in kw.items() if x != "device"})
        return v


@contextlib.contextmanager
def patched(S, cuda=False, perms=False):
    """CPU stand-ins for the GPU; unknown permutations instead of the generator's."""
    known = {}
    rp = torch.randperm
    old = P.torch, P.vectorize, sys.modules.get("sjlt")
    if cuda:
        P.torch = Shim(S)
        vec = P.vectorize
        P.vectorize = lambda g, *a, **k: vec(g, *a, **{**k, "device": "cpu"})
        m = types.ModuleType("sjlt")
        m.SJLTProjection = SJLT
        sys.modules["sjlt"] = m

    def randperm(n, *a, generator=None, device=None, **k):
        if not perms:
            return rp(n, generator=generator)
        g = generator or torch.default_generator
        key = (n, bytes(g.get_state().tolist()))
        rp(n, generator=generator)
        if key not in known:
            known[key] = S.permutation(f"perm{len(known)}", n)
        return torch.tensor(known[key])
    torch.randperm = randperm
    try:
        yield
    finally:
        torch.randperm = rp
        P.torch, P.vectorize = old[0], old[1]
        if cuda:
            sys.modules.pop("sjlt", None)


def make(S, d, p, kind, seed=3, block=None, cuda=False, mult=4):
    if cuda:
        return P.CudaProjector(d, p, seed, P.ProjectionType(kind), Dev(), torch.get_default_dtype(), mult)
    kw = {} if block is None else dict(block_size=block)
    return P.BasicProjector(d, p, seed, P.ProjectionType(kind), torch.device("cpu"), dtype=torch.get_default_dtype(), **kw)


def matrix(S, new, d, e):
    """The matrix a fresh projector multiplies by, for ensemble member e."""
    return new().project(torch.eye(d), e)


def dense(S, kind, mats):
    """The entries of the matrices have the requested distribution and are different draws."""
    p = mats[0].shape[1]
    seen = set()
    for M in mats:
        if kind == "rademacher":
            c = p ** 0.5
            S.check((M * c) * (M * c), torch.ones_like(M), "entries are +-1 / sqrt(dimension)")
            continue
        draws = [v for (k, mean, std), vs in S.draws() if k == "normal" and (mean, std) == (0.0, 1.0) for v in vs]
        for v in [x for r in S.raw(M * p ** 0.5) for x in r]:
            key = min(draws, key=lambda a: abs(abs(a) - abs(v)), default=float("nan"))
            S.check_true(abs(abs(key) - abs(v)) < 1e-9, "entries are standard normal draws / sqrt(dimension)")
            S.check_true(key not in seen, "every entry, block and member uses its own draw")
            seen.add(key)


def mask(S, M, d, p):
    """Selected coordinates: every column is a unit vector, no coordinate twice."""
    S.check_true(tuple(M.shape) == (d, min(d, p)), "number of selected coordinates")
    R = torch.tensor(S.raw(M))
    S.check_true(bool((R.sum(0) == 1).all()) and bool((R * R == R).all()) and bool((R.sum(1) <= 1).all()), "a selection of coordinates")


def histories(S, d=2, p=2, kind="normal", block=None, cuda=False, steps=3, members=3, rows_=2, free=True, perms=False, mult=4):
    """Any sequence of calls gives the matrices a fresh projector gives."""
    with patched(S, cuda, perms):
        new = lambda: make(S, d, p, kind, block=block, cuda=cuda, mult=mult)  # noqa: E731
        mats = [matrix(S, new, d, e) for e in range(members)]
        if kind in ("normal", "rademacher"):
            dense(S, kind, mats)
        elif kind == "random_mask":
            for M in mats:
                mask(S, M, d, p)
        elif kind == "identity":
            for M in mats:
                S.check(M, torch.eye(d), "identity")
        pr = new()
        for k in range(steps):
            if free and k == 1 and S.choice(f"free{k}", 2):
                pr.free_memory()
            e = S.choice(f"member{k}", members)
            X = S.tensor(f"X{k}", rows_ if k % 2 == 0 else 1, d)
            S.check(pr.project(X, e), X @ mats[e], f"call {k}")


def split_dict(X, shapes):
    out, k = {}, 0
    for i, s in enumerate(shapes):
        n = 1
        for v in s:
            n *= v
        t = X[:, k:k + n].reshape(X.shape[0], *s)
        out[f"p{i}"] = t
        k += n
    return out


def factory(S, shapes=((1,), (2,)), p=2, kind="normal", n=2, fbs=None, scalar=False, first="dict", cuda=False):
    """random_project: dictionaries equal their flattening, rows are independent of the batch."""
    d = sum(torch.Size(s).numel() for s in shapes)
    X = S.tensor("X", n, d)
    feat = split_dict(X, shapes)
    if scalar:
        feat = {k: (v.reshape(-1) if v.numel() == n else v) for k, v in feat.items()}
    with patched(S, cuda):
        params = RandomProjectionParams(feature_batch_size=n, proj_dim=p, proj_max_batch_size=8, proj_type=kind, proj_seed=5, device="cpu")
        f = P.random_project(feat if first == "dict" else X, params)
        g = P.random_project(X if first == "dict" else feat, params)
        for e in (0, 2):
            M = g(torch.eye(d), e)
            S.check(f(feat, e), X @ M, "dictionary")
            S.check(f(X, e), X @ M, "flattened")
            for i in range(n):
                S.check(f(X[i:i + 1], e), X[i:i + 1] @ M, "single row")
            S.check(f(torch.cat([X, X]), e), torch.cat([X, X]) @ M, "more rows")
        S.check(f(feat), X @ f(torch.eye(d), 0), "default member")


def many_blocks(S, d=1, blocks=101, kind="normal"):
    """More than a hundred blocks: still different draws for the blocks and members."""
    with patched(S):
        pr = make(S, d, blocks, kind, block=1)
        A, B = pr.project(torch.eye(d), 0), pr.project(torch.eye(d), 1)
        dense(S, kind, [A, B])
        X = S.tensor("X", 1, d)
        S.check(pr.project(X, 0), X @ A, "first member")


for kind in ("normal", "rademacher"):
    for d, p, block in ((1, 1, None), (2, 2, None), (2, 3, 1), (2, 3, 2), (3, 2, 2), (2, 4, 2), (3, 4, 3)):
        case(CASES, f"{kind}-{d}x{p}-block{block}", histories, d=d, p=p, kind=kind, block=block)
    case(CASES, f"{kind}-no-free", histories, kind=kind, free=False, rows_=4, d=4, p=1)
    case(CASES, f"{kind}-cuda", histories, kind=kind, cuda=True)
    case(CASES, f"{kind}-cuda-3x4", histories, kind=kind, cuda=True, d=3, p=4)
for d, p in ((2, 1), (3, 2), (2, 2)):
    case(CASES, f"random_mask-{d}x{p}", histories, d=d, p=p, kind="random_mask", perms=True, members=2, steps=2, opts={"max_paths": 400})
    case(CASES, f"random_mask-cuda-{d}x{p}", histories, d=d, p=p, kind="random_mask", perms=True, members=2, steps=2, cuda=True, opts={"max_paths": 400})
case(CASES, "random_mask-4x2", histories, d=4, p=2, kind="random_mask", perms=True, members=1, steps=1)
case(CASES, "random_mask-histories", histories, d=4, p=2, kind="random_mask")
case(CASES, "random_mask-more-than-features", histories, d=2, p=3, kind="random_mask")
case(CASES, "random_mask-blocks", histories, d=4, p=3, kind="random_mask", block=1)
case(CASES, "identity", histories, d=3, p=3, kind="identity")
case(CASES, "identity-cuda", histories, d=3, p=3, kind="identity", cuda=True)
case(CASES, "identity-other-dim", histories, d=3, p=1, kind="identity")
for d, p, m in ((3, 2, 4), (4, 2, 2), (4, 1, 2), (2, 2, 1)):
    case(CASES, f"sjlt-{d}x{p}", histories, d=d, p=p, kind="sjlt", cuda=True)
    case(CASES, f"grass-{d}x{p}-{m}", histories, d=d, p=p, kind="grass", cuda=True, mult=m)
for kind in ("normal", "rademacher", "random_mask", "identity"):
    for first in ("dict", "tensor"):
        case(CASES, f"factory-{kind}-{first}", factory, kind=kind, first=first)
        case(CASES, f"factory-{kind}-{first}-3", factory, kind=kind, first=first, shapes=((1,), (1, 2), (1, 1)), n=3, scalar=True)
        case(CASES, f"factory-{kind}-{first}-one-row", factory, kind=kind, first=first, shapes=((2, 1), (1,)), n=1, p=3)
case(CASES, "factory-rademacher-one", factory, kind="rademacher", shapes=((3,),), n=1, p=1)
case(CASES, "many-blocks-normal", many_blocks)
case(CASES, "many-blocks-normal-205", many_blocks, blocks=205)
