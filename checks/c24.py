"""C24: background writers against the storing and waiting caller."""
import gc
import shutil
import tempfile

import torch

from dattri.algorithm.block_projected_if.offload.disk_io.manager import ChunkedDiskIOManager

from .common import *  # noqa: F403
from .threads import world

BOUNDS = ("1-4 batches of 1-2 samples, 2 layers, chunk sizes 1-3, 1-2 writers, queues of 1-2 writes, chunk buffers of 2-8 rows; every schedule with up to 2 interruptions of running threads "
          "(any number of switches at blocking operations) at every lock, queue, sleep and file operation; one failing file operation at any place; all stored values")
ASSUMPTIONS = ["threads are interrupted at locks, queues, sleeps, thread starts and file operations, not between other statements", "single-precision values"]
CASES = []


def vals(S, tag, sizes, dims=(1, 2)):
    return {b: [S.tensor(f"{tag}{b}_{j}", n, d, dtype=torch.float32) for j, d in enumerate(dims)] for b, n in enumerate(sizes)}


def same(S, got, want, label):
    S.check_true(len(got) == len(want) and all(tuple(a.shape) == tuple(b.shape) or (b.shape[1] == 0 and a.numel() == 0) for a, b in zip(got, want)), label + ": shapes")
    S.check(torch.cat([x.reshape(-1) for x in got]), torch.cat([x.reshape(-1) for x in want]), label)


def read_all(S, m, kind, data, label):
    get = m.retrieve_gradients if kind == "gradients" else m.retrieve_ifvp
    for b in sorted(data, reverse=True):
        same(S, get(b), data[b], f"{label}, {kind} of batch {b}")


def load_all(S, m, kind, data, bs, label):
    seen = {}
    for t, mapping in m.create_gradient_dataloader(kind, batch_size=bs, pin_memory=False):
        for b, (i, j) in mapping.items():
            S.check_true(b not in seen, f"{label}: batch {b} is delivered once")
            seen[b] = t[i:j]
    S.check_true(sorted(seen) == sorted(data), f"{label}: every batch is delivered")
    for b in seen:
        S.check(seen[b], torch.cat(data[b], dim=1), f"{label}: rows of batch {b}")


FROZEN = []


def collect():
    """Finalise dropped managers now (not in the middle of a later path)."""
    gc.collect()
    if not FROZEN:
        gc.freeze()
        FROZEN.append(1)


def writes(S, sizes=(1, 2), chunk=1, workers=2, queue=2, rows_=4, switches=1, kinds=("gradients",), end="finalize", fail=False, rewrite=False, load=1, read=True, order=None, pool=2):
    if S.sym:
        S.e.numpy_policy = "tag"
    d = tempfile.mkdtemp(prefix="c24")
    m = r = None
    try:
        with world(S, switches=switches, fail=fail) as w:
            m = ChunkedDiskIOManager(d, "x", num_threads=1, chunk_size=chunk, max_samples_per_chunk=rows_, buffer_pool_size=pool, write_queue_size=queue, num_write_workers=workers)
            last, reported = {}, None
            try:
                for rnd in range(2 if rewrite else 1):
                    for kind in kinds:
                        data = vals(S, f"{kind[0]}{rnd}_", sizes)
                        m.start_batch_range(0, len(sizes))
                        for b in order or range(len(sizes)):
                            (m.store_gradients if kind == "gradients" else m.store_ifvp)(b, data[b])
                        if end == "finalize":
                            m.finalize_batch_range()
                        last[kind] = data
                        if rewrite and rnd == 0 and read:
                            read_all(S, m, kind, data, "before rewriting")
                    if end == "wait":
                        m.wait_for_async_operations()
            except OSError as x:
                reported = x if w.failed else None
                if not w.failed:
                    raise
            except RuntimeError as x:
                reported = x if w.failed else None
                if not w.failed:
                    raise
            w.fail, w.budget = False, min(w.budget, 0 if not read else w.budget)
            if w.failed:
                S.check_true(reported is not None, "a failed write is reported")
            else:
                S.check_true(True, "waiting returned")
                w.budget = 0
                r = ChunkedDiskIOManager(d, "x", num_threads=1, chunk_size=chunk, max_samples_per_chunk=rows_, num_write_workers=1)
                for kind in kinds:
                    if read:
                        read_all(S, m, kind, last[kind], "same manager")
                    read_all(S, r, kind, last[kind], "reopened")
                    if load:
                        load_all(S, r, kind, last[kind], load, "loader")
    finally:
        for x in (m, r):
            if x is not None:
                x._chunk_buffers = {}
        m = r = x = None
        collect()
        shutil.rmtree(d, ignore_errors=True)


O = {"max_paths": 3000}
case(CASES, "two-chunks", writes, opts=O, cost=3)
case(CASES, "two-chunks-one-writer", writes, workers=1, switches=2, opts=O, cost=3)
case(CASES, "two-chunks-wait", writes, end="wait", read=False, load=0, opts=O, cost=2)
case(CASES, "three-chunks", writes, sizes=(1, 2, 1), read=False, load=2, opts=O, cost=3)
case(CASES, "three-chunks-short-queue", writes, sizes=(1, 1, 1), queue=1, read=False, load=0, opts=O, cost=3)
case(CASES, "shared-chunk", writes, sizes=(1, 2, 1), chunk=2, read=False, opts=O, cost=2)
case(CASES, "shared-chunk-2", writes, sizes=(1, 2, 1), chunk=2, switches=2, workers=1, read=False, opts={"max_paths": 20000}, tier="thorough", cost=9)
case(CASES, "two-chunks-2", writes, switches=2, read=False, opts={"max_paths": 20000}, tier="thorough", cost=9)
case(CASES, "shared-chunk-reverse", writes, sizes=(1, 2, 1), chunk=2, order=(2, 1, 0), read=True, opts=O, cost=2)
case(CASES, "overflow", writes, sizes=(2, 2), chunk=2, rows_=2, read=False, opts=O, cost=3)
case(CASES, "overflow-3", writes, sizes=(2, 1, 1), chunk=3, rows_=2, read=False, load=0, opts=O, cost=3)
case(CASES, "two-kinds", writes, sizes=(1, 1), kinds=("gradients", "ifvp"), workers=1, read=False, load=0, opts=O, cost=3)
case(CASES, "rewritten", writes, sizes=(1, 1), rewrite=True, workers=1, opts=O, cost=3)
case(CASES, "many-chunks", writes, sizes=(1,) * 10, read=False, load=4, queue=32, workers=1, switches=0, rows_=2, opts=O)
for wk in (1, 2):
    case(CASES, f"failing-write-{wk}", writes, fail=True, workers=wk, switches=1 if wk == 1 else 0, read=False, load=0, opts=O, cost=3)
case(CASES, "failing-write-wait", writes, fail=True, end="wait", sizes=(1, 1), switches=0, read=False, load=0, opts=O, cost=2)
case(CASES, "failing-write-shared", writes, fail=True, sizes=(1, 1, 1), chunk=2, switches=0, read=False, load=0, opts=O, cost=2)
