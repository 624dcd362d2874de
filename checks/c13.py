"""C13: chunks cover every parameter exactly once, in order."""
import numpy as np
import torch

from dattri.func import projection as P
from dattri.func.utils import _vectorize, get_parameter_chunk_sizes
from dattri.params.projection import RandomProjectionParams

from .c12 import Dev, patched, split_dict
from .common import *  # noqa: F403

BOUNDS = ("chunk sizes: 1-4 parameters with symbolic integer sizes up to 3.5 times the limit, batch sizes 1..2^31 from a list of 9; "
          "chunked projection: every size 0..3 of 3 parameters (and 1..5 of 2), limits 1, 2, 3 and 5, 1-3 rows, projected dimension 1-2, 2 ensemble members; all real gradients and projection entries; whole projections drawn for seeds 5, 6 and 5 again, for 3 limits")
ASSUMPTIONS = ["the chunked CUDA projector runs on CPU tensors behind a stand-in device"]
CASES = []
MAX = int(np.iinfo(np.uint32).max)


def sizes(S, n=3, bs=32, factor=3.5, zero=True):
    limit = MAX // (2 * bs)
    ps = [S.integer(f"s{i}", 0 if zero else 1, int(limit * factor)) for i in range(n)]
    lim, chunks = get_parameter_chunk_sizes(ps, bs)
    S.check_true(int(lim) >= 1, "the limit is positive")
    S.check(sum(chunks), sum(ps), "chunk sizes add up to the parameter count")
    big = any(p >= lim for p in ps)
    for c in chunks:
        S.check_true(big or c <= lim, "no chunk exceeds the limit")
        S.check_true(c >= 0, "no negative chunk")


LIMITS = {1: 2 ** 31 - 1, 2: 10 ** 9, 3: 2 ** 29, 5: 420000000, 1000: 2147483}


def chunked(S, shapes=None, limit=2, n=2, p=1, kind="normal", bound=4, nparam=3, first="dict", low=0, again=True, scalar=False):
    """random_project on a chunked projector."""
    assert MAX // (2 * LIMITS[limit]) == limit
    dims = [S.choice(f"n{i}", bound - low) + low for i in range(nparam)] if shapes is None else None
    shp = [(d,) for d in dims] if shapes is None else shapes
    d = sum(torch.Size(s).numel() for s in shp)
    if d == 0:
        S.check_true(True, "no parameter")
        return
    X = S.tensor("X", n, d)
    feat = split_dict(X, shp)
    if scalar:
        feat = {k: (v.reshape(-1) if v.numel() == n else v) for k, v in feat.items()}
    with patched(S, cuda=True):
        params = RandomProjectionParams.model_construct(feature_batch_size=n, proj_dim=p, proj_max_batch_size=LIMITS[limit], proj_seed=5, device=Dev(), proj_type=kind)
        captured = []
        real = P.make_random_projector

        def spy(*a, **k):
            captured.append(real(*a, **k))
            return captured[-1]
        P.make_random_projector = spy
        try:
            f = P.random_project(feat if first == "dict" else X, params)
        finally:
            P.make_random_projector = real
        pr = captured[0]
        for e in (0, 1):
            parts = getattr(pr, "projector_per_chunk", [pr])
            widths = [int(c) for c in getattr(pr, "dim_per_chunk", [d])]
            S.check_true(sum(widths) == d and len(widths) == len(parts), "chunks cover the coordinates")
            exp, k = 0, 0
            for w, q in zip(widths, parts):
                exp = exp + X[:, k:k + w] @ q.project(torch.eye(w), e)
                k += w
            S.check(f(X, e), exp, "flattened")
            S.check(f(feat, e), exp, "dictionary")
            if again:
                Y = S.tensor("Y", n, d)
                fy = split_dict(Y, shp)
                m = max(1, n - 1)
                out = f({a: b[:m] for a, b in fy.items()}, e)
                exp, k = 0, 0
                for w, q in zip(widths, parts):
                    exp = exp + Y[:m, k:k + w] @ q.project(torch.eye(w), e)
                    k += w
                S.check(out, exp, "fewer rows, after another batch")
                if hasattr(pr, "free_memory"):
                    pr.free_memory()
                S.check(f({a: b[:m] for a, b in fy.items()}, e), exp, "after free_memory")


def seeded(S, shapes=((2,), (1, 2), (1,)), limit=2, kind="normal", p=2):
    """The whole projection is a function of the seed: the same again for the same seed, another one for another seed."""
    d = sum(torch.Size(s).numel() for s in shapes)
    X = S.tensor("X", 2, d)
    feat = split_dict(X, shapes)
    with patched(S, cuda=True):
        out = []
        for seed in (5, 6, 5):
            torch.rand(3)  # the global generator moves on
            params = RandomProjectionParams.model_construct(feature_batch_size=2, proj_dim=p, proj_max_batch_size=LIMITS[limit], proj_seed=seed, device=Dev(), proj_type=kind)
            f = P.random_project(feat, params)
            eye = split_dict(torch.eye(d), shapes)
            M = torch.cat([f({k: v[i:i + 2] for k, v in eye.items()}, 0)[:2] for i in range(0, d, 2)]) if d % 2 == 0 else torch.cat([f({k: v[i:i + 1] for k, v in eye.items()}, 0)[:1] for i in range(d)])
            S.check(f(feat, 0), X @ M, "linear")
            out.append(M)
    S.check(out[2], out[0], "same seed, same projection")
    flat = [np.array(S.raw(m), dtype=object).ravel().tolist() for m in (out[0], out[1])]
    S.check_true(flat[0] != flat[1], "another seed, another projection")


def vector(S, shapes=((2,), (1, 2), ()), n=2, prealloc=False, batch=True, order=None):
    if batch:
        g = {f"p{i}": S.tensor(f"g{i}", n, *s) for i, s in enumerate(shapes)}
        exp = torch.cat([v.reshape(n, -1) for v in g.values()], dim=1)
    else:
        g = {f"p{i}": S.tensor(f"g{i}", *s) for i, s in enumerate(shapes)}
        exp = torch.cat([v.reshape(-1) for v in g.values()])
    plain = _vectorize(g, batch, device="cpu")
    S.check(plain, exp, "parameter order")
    arr = S.tensor("arr", *exp.shape).clone()
    out = _vectorize(g, batch, arr=arr, device="cpu")
    S.check(out, exp, "preallocated")
    S.check_true(out is arr, "written into the given array")
    again = _vectorize(g, batch, arr=arr, device="cpu")
    S.check(again, exp, "array used again")
    for k, v in g.items():
        S.check(v, v.clone(), "gradients unchanged")


for bs in (1, 2, 8, 16, 32, 64, 100, 2 ** 20, 10 ** 9):
    for n in (1, 2, 3):
        case(CASES, f"sizes-{n}-batch{bs}", sizes, n=n, bs=bs, opts={"max_paths": 600})
case(CASES, "sizes-4", sizes, n=4, bs=16, factor=1.5, opts={"max_paths": 600})
case(CASES, "sizes-5-below-limit", sizes, n=5, bs=32, factor=0.9, opts={"max_paths": 600})
for limit in (1, 2, 3, 5):
    for first in ("dict", "tensor"):
        case(CASES, f"chunked-limit{limit}-{first}", chunked, limit=limit, first=first, opts={"max_paths": 100})
    case(CASES, f"chunked-limit{limit}-large", chunked, limit=limit, nparam=2, low=1, bound=6, p=2, n=1, opts={"max_paths": 100})
case(CASES, "chunked-rademacher", chunked, kind="rademacher", n=3)
case(CASES, "chunked-scalars", chunked, shapes=((1,), (2, 1), (1,), (1, 1)), scalar=True, n=3, p=2)
case(CASES, "chunked-one-chunk", chunked, limit=1000, n=3)
for b in (True, False):
    for i, shapes in enumerate((((2,), (1, 2), ()), ((1,),), ((2, 2), (1,)), ((), (), (3,)))):
        for n in (1, 3):
            if b or n == 1:
                case(CASES, f"vectorize-{b}-{i}-{n}", vector, shapes=shapes, batch=b, n=n)
for lim in (2, 3, 1000):
    for k in ("normal", "rademacher"):
        case(CASES, f"seeded-{k}-{lim}", seeded, kind=k, limit=lim)
    case(CASES, f"seeded-odd-{lim}", seeded, kind="normal", limit=lim, shapes=((2,), (1,), (2,)))
