"""C22: storage of per-batch data."""
import shutil
import tempfile

import torch
from torch.utils.data import DataLoader, Subset, TensorDataset

from dattri.algorithm.block_projected_if.core.metadata import MetadataManager
from dattri.algorithm.block_projected_if.offload import create_offload_manager
from dattri.algorithm.block_projected_if.offload.disk_io.manager import ChunkedDiskIOManager
from dattri.algorithm.block_projected_if.offload.disk_io.prefetch_dataset import AsyncPrefetchDataset, async_collate_fn
from dattri.benchmark.utils import SubsetSampler

from .c24 import collect, same, vals
from .common import *  # noqa: F403
from .threads import world

BOUNDS = ("1-5 batches of 1-3 samples, 1-3 layers of 0-2 columns, chunk sizes 1-4, every storing order of 3 batches, batches stored again before and after their chunk is written, reads in between, every batch range, loading 1-3 stored pieces at a time, reopened directories, "
          "storage in memory, on the CPU and on disk; prefetching reader: every sequence of 3 accesses to 3 chunks with up to 2 interruptions; row mapping: every data set size up to 6, batch size up to 4; all stored values")
ASSUMPTIONS = ["single-precision values; writer threads run at blocking points only (other schedules: C24)"]
CASES = []


def in_dir(S, fn, **kw):
    if S.sym:
        S.e.numpy_policy = "tag"
    d = tempfile.mkdtemp(prefix="c22")
    try:
        with world(S, **{"free": False, **kw}) as w:
            fn(d, w)
    finally:
        collect()
        shutil.rmtree(d, ignore_errors=True)


def new(kind, d, names, chunk):
    return create_offload_manager(kind, "cpu", names, cache_dir=d, chunk_size=chunk)


def rng(m, n, fn):
    if hasattr(m, "start_batch_range_processing"):
        m.start_batch_range_processing(0, n)
    fn()
    if hasattr(m, "finish_batch_range_processing"):
        m.finish_batch_range_processing()


def empty(ts):
    return all(t.numel() == 0 for t in ts)


def loads(S, m, kind, data, bs, r=None):
    want = [b for b in sorted(data) if r is None or r[0] <= b < r[1]]
    seen = {}
    for t, mapping in m.create_gradient_dataloader(kind, batch_size=bs, pin_memory=False, batch_range=r):
        S.check_true(sum(j - i for i, j in mapping.values()) == t.shape[0], "the mapping covers the delivered rows")
        for b, (i, j) in mapping.items():
            S.check_true(b not in seen, "a batch is delivered once")
            seen[b] = t[i:j]
    S.check_true(sorted(seen) == want, f"all batches of the range {r} are delivered")
    for b in want:
        S.check(seen[b], torch.cat(data[b], dim=1), f"delivered rows of batch {b}")


def backend(S, kind="disk", sizes=(2, 1, 1), dims=(1, 2), chunk=2, order=None, bs=2, ranges=False, tests=False, again=False, pre=True):
    names = [f"layer{j}" for j in range(len(dims))]

    def go(d, w):
        m = new(kind, d, names, chunk)
        S.check_true(not m.has_ifvp() and not m.has_preconditioners(), "nothing stored yet")
        od = S.permutation("order", len(sizes)) if order == "any" else list(order or range(len(sizes)))
        for rnd in range(2 if again else 1):
            n = len(sizes) - rnd  # the second time with fewer batches
            od = [b for b in od if b < n]
            sz = [sizes[b] + rnd for b in range(n)]
            if rnd:
                m.clear_cache()
                S.check_true(not m.has_ifvp() and not m.has_preconditioners(), "nothing left")
            G, V, T = vals(S, f"g{rnd}_", sz, dims), vals(S, f"v{rnd}_", sz, dims), vals(S, f"t{rnd}_", sz[:1], dims)
            rng(m, n, lambda: [m.store_gradients(b, G[b]) for b in od])
            if tests:
                m.store_gradients(0, T[0], is_test=True)
            S.check_true(not m.has_ifvp(), "no inverse products yet")
            rng(m, n, lambda: [m.store_ifvp(b, V[b]) for b in reversed(od)])
            S.check_true(m.has_ifvp(), "inverse products available")
            P = [S.tensor(f"p{rnd}_{j}", k, k) for j, k in enumerate(dims)]
            if pre:
                for j in reversed(range(len(dims))):
                    m.store_preconditioner(j, P[j])
            m.wait_for_async_operations()
            managers = [m] + ([new(kind, d, names, chunk)] if kind == "disk" else [])
            for x in managers:
                for b in reversed(od):
                    same(S, x.retrieve_ifvp(b), V[b], f"inverse products of batch {b}")
                    same(S, x.retrieve_gradients(b), G[b], f"gradients of batch {b}")
                S.check_true(empty(x.retrieve_gradients(n + 5)) and empty(x.retrieve_ifvp(n + 5)), "nothing for a batch that was not stored")
                if tests:
                    got = x.retrieve_gradients(0, is_test=True)
                    if kind != "disk" or not empty(got):  # not kept on disk
                        same(S, got, T[0], "test gradients")
                if pre:
                    S.check_true(x.has_preconditioners(), "preconditioners available")
                    for j in range(len(dims)):
                        S.check(x.retrieve_preconditioner(j), P[j], f"preconditioner {j}")
                else:
                    S.check_true(not x.has_preconditioners() and x.retrieve_preconditioner(0) is None, "no preconditioner")
                loads(S, x, "gradients", G, bs)
                loads(S, x, "ifvp", V, bs)
                if ranges:
                    for lo in range(n):
                        for hi in range(lo + 1, n + 1):
                            loads(S, x, "ifvp", V, bs, (lo, hi))
    in_dir(S, go)


def restored(S, kind="disk", sizes=(1, 2, 1), dims=(1, 2), chunk=3, grow=1, late=False, bs=2):
    """A batch is stored again (with other values and another size) before or after its chunk is complete."""
    def go(d, w):
        m = new(kind, d, [f"layer{j}" for j in range(len(dims))], chunk)
        n = len(sizes)
        A, V = vals(S, "a", sizes, dims), vals(S, "v", sizes, dims)
        k, at = S.choice("which", n if late else n - 1), S.choice("after", n)
        S.assume(late or k <= at < n - 1)
        B, W = vals(S, "b", [x + grow for x in sizes], dims), vals(S, "w", [x + grow for x in sizes], dims)

        def store(put, first, second):
            def run():
                for b in range(n):
                    put(b, first[b])
                    if not late and b == at:
                        put(k, second[k])
            rng(m, n, run)
            if late:
                rng(m, n, lambda: put(k, second[k]))
            return {**first, k: second[k]}
        G = store(m.store_gradients, A, B)
        V = store(m.store_ifvp, V, W)
        m.wait_for_async_operations()
        for x in [m] + ([new(kind, d, m_names(dims), chunk)] if kind == "disk" else []):
            for b in range(n):
                same(S, x.retrieve_gradients(b), G[b], f"gradients last stored for batch {b}")
                same(S, x.retrieve_ifvp(b), V[b], f"inverse products last stored for batch {b}")
            loads(S, x, "gradients", G, bs)
            loads(S, x, "ifvp", V, bs)
    in_dir(S, go)


def m_names(dims):
    return [f"layer{j}" for j in range(len(dims))]


def early(S, kind="disk", n=20, chunk=2, dims=(2,)):
    """Data read while more batches are being stored stay as they were read."""
    def go(d, w):
        m = new(kind, d, m_names(dims), chunk)
        G, got = vals(S, "g", (1,) * n, dims), {}

        def store():
            for b in range(n):
                m.store_gradients(b, G[b])
                if b % chunk != chunk - 1:  # its chunk is not complete
                    got[b] = m.retrieve_gradients(b)
        rng(m, n, store)
        for b in got:
            same(S, got[b], G[b], f"gradients of batch {b} read before")
    in_dir(S, go)


def parts(S, chunk=2, sizes=(1, 2, 1, 1), cut=2, bs=2):
    """A data set stored as two ranges by two managers (as parallel jobs do), read by a third."""
    def go(d, w):
        G = vals(S, "g", sizes)
        for lo, hi in ((0, cut), (cut, len(sizes))):
            m = new("disk", d, ["a", "b"], chunk)
            m.start_batch_range_processing(lo, hi)
            for b in range(lo, hi):
                m.store_gradients(b, G[b])
            m.finish_batch_range_processing()
        r = new("disk", d, ["a", "b"], chunk)
        for b in G:
            same(S, r.retrieve_gradients(b), G[b], f"gradients of batch {b}")
        loads(S, r, "gradients", G, bs)
    in_dir(S, go)


def half(S, n=2, sync="async"):
    """Half-precision chunks and the other write modes."""
    from dattri.algorithm.block_projected_if.offload.disk_io.memory_map import ChunkedMemoryMapHandler as H

    def go(d, w):
        x = S.tensor("x", n + 1, 2, dtype=torch.float32)
        info = [dict(batch_idx=3, start_row=0, end_row=1), dict(batch_idx=5, start_row=1, end_row=n + 1)]
        name = H.write_chunk(d, "gradients", x, info, [1, 1], flush_mode=sync)
        S.check_true(H.find_chunk_files(d, "gradients") == [name] and H.find_chunk_files(d, "ifvp") == [], "the chunk is found by its type")
        S.check_true(H.ensure_chunk_written(d, name, timeout=0.2), "written")
        t, meta = H.load_chunk_tensor(d, name)
        S.check(t, x, "whole chunk")
        S.check_true(meta["layer_dims"] == [1, 1] and meta["batches"] == info, "metadata")
        for b, (i, j) in ((3, (0, 1)), (5, (1, n + 1))):
            S.check(H.load_batch_slice(d, name, b), x[i:j], "one batch")
        S.check_true(H.load_batch_slice(d, name, 4) is None, "no such batch")
        for lo, hi in ((0, 9), (3, 4), (4, 9), (6, 9), (0, 3)):
            t, mp = H.load_chunk_batch_range(d, name, (lo, hi))
            want = [(b, x[i:j]) for b, (i, j) in ((3, (0, 1)), (5, (1, n + 1))) if lo <= b < hi]
            S.check_true(list(mp) == [b for b, _ in want] and t.shape[0] == sum(v.shape[0] for _, v in want), "batches of the range")
            for b, v in want:
                S.check(t[slice(*mp[b])], v, "rows of the range")
        with H.read_chunk(d, name) as (t, _):
            S.check(t.clone(), x, "mapped read")
    in_dir(S, go)


def prefetch(S, sizes=(1, 2, 1), steps=3, factor=2, switches=2, r=None):
    def go(d, w):
        w.budget = 0
        G = vals(S, "g", sizes)
        m = ChunkedDiskIOManager(d, "x", num_threads=1, chunk_size=1, max_samples_per_chunk=4, num_write_workers=1)
        m.start_batch_range(0, len(sizes))
        for b in G:
            m.store_gradients(b, G[b])
        m.finalize_batch_range()
        w.budget = switches
        ds = AsyncPrefetchDataset(m, "gradients", batch_range=r, prefetch_factor=factor)
        have = [b for b in G if r is None or r[0] <= b < r[1]]
        S.check_true(len(ds) == len(have), "number of chunks")
        got = []
        for k in range(steps):
            i = S.choice(f"access{k}", len(have))
            t, mp = ds[i]
            b = have[i]
            S.check_true(list(mp) == [b] and tuple(mp[b]) == (0, sizes[b]), "the chunk asked for")
            S.check(t, torch.cat(G[b], dim=1), "its rows")
            got.append((b, (t, mp)))
        bs = [b for b, _ in got]
        if len(set(bs)) == len(bs):
            t, mp = async_collate_fn([x for _, x in got])
            for b in bs:
                S.check(t[slice(*mp[b])], torch.cat(G[b], dim=1), "rows after collating")
        ds._stop_prefetch.set()
        S.check_true(True, "done")
    in_dir(S, go)


def mapping(S, top=6, drop=False, sub=False):
    """The row mapping against the batches a dataloader really yields."""
    def go(d, w):
        n, bs = S.choice("n", top) + 1, S.choice("bs", 4) + 1
        data = TensorDataset(torch.arange(float(n)))
        kw = dict(sampler=SubsetSampler(list(range(0, n, 2)))) if sub else {}
        dl = DataLoader(data, batch_size=bs, drop_last=drop, **kw)
        real = [x.shape[0] for (x,) in dl]
        m = MetadataManager(d, ["a"])
        if not real:
            S.check_true(True, "no batch")
            return
        for rnd in range(2):
            m.initialize_complete_dataset(dl)
            m.set_layer_dims([2])
            m.save_metadata()
            for x in (m, MetadataManager(d, ["a"])):
                mp = x.get_batch_to_sample_mapping()
                S.check_true(sorted(mp) == list(range(len(real))) and x.get_total_batches() == len(real), "every batch")
                S.check_true(x.get_total_samples() == sum(real), "number of samples")
                at = 0
                for b, k in enumerate(real):
                    S.check_true(tuple(mp[b]) == (at, at + k), "consecutive rows in batch order")
                    at += k
                S.check_true(x.layer_dims == [2] and x.total_proj_dim == 2, "layer dimensions")
            # another data set with as many batches (or fewer) takes over the same directory
            dl = DataLoader(TensorDataset(torch.arange(float(max(1, n - 1)))), batch_size=bs)
            real = [x.shape[0] for (x,) in dl]
            if S.choice("reopen", 2):
                m = MetadataManager(d, ["a"])
    in_dir(S, go)


def added(S, k=3):
    """Batches announced one by one."""
    def go(d, w):
        m = MetadataManager(d, ["a"])
        sizes = [S.choice(f"n{i}", 3) + 1 for i in range(k)]
        for i, x in enumerate(sizes):
            m.add_batch_info(i, x)
        S.check_true(m.get_total_samples() == sum(sizes), "number of samples")
        m.save_metadata()
        for x in (m, MetadataManager(d, ["a"])):
            mp = x.get_batch_to_sample_mapping()
            at = 0
            for b, n in enumerate(sizes):
                S.check_true(tuple(mp[b]) == (at, at + n), "consecutive rows in batch order")
                at += n
    in_dir(S, go)


O = {"max_paths": 3000}
for kind in ("none", "cpu", "disk"):
    for chunk in ((1, 2, 4) if kind == "disk" else (1,)):
        case(CASES, f"{kind}-chunk{chunk}", backend, kind=kind, chunk=chunk, order="any", opts=O)
        case(CASES, f"{kind}-chunk{chunk}-ranges", backend, kind=kind, chunk=chunk, sizes=(1, 2, 1, 1), ranges=True, bs=1 if chunk == 2 else 3, opts=O)
        case(CASES, f"{kind}-chunk{chunk}-again", backend, kind=kind, chunk=chunk, again=True, order=(2, 0, 1), opts=O)
    case(CASES, f"{kind}-one-layer", backend, kind=kind, sizes=(3, 1), dims=(2,), bs=3, opts=O)
    case(CASES, f"{kind}-three-layers", backend, kind=kind, sizes=(1, 2), dims=(2, 1, 1), bs=1, pre=False, opts=O)
    case(CASES, f"{kind}-empty-layer", backend, kind=kind, sizes=(1, 2), dims=(1, 0, 2), bs=1, pre=False, opts=O)
    case(CASES, f"{kind}-tests", backend, kind=kind, sizes=(1, 2), tests=True, opts=O)
    case(CASES, f"{kind}-restored", restored, kind=kind, opts=O, cost=2)
    case(CASES, f"{kind}-restored-same-size", restored, kind=kind, grow=0, bs=1, opts=O, cost=2)
    case(CASES, f"{kind}-restored-late", restored, kind=kind, chunk=1, late=True, opts=O, cost=2)
    case(CASES, f"{kind}-restored-late-part", restored, kind=kind, sizes=(1, 1), chunk=2, late=True, opts=O, cost=2)
    case(CASES, f"{kind}-read-early", early, kind=kind, opts=O)
case(CASES, "disk-many", backend, sizes=(1,) * 12, dims=(1,), chunk=1, bs=2, opts=O)
for chunk, cut in ((1, 1), (1, 3), (2, 2), (3, 3)):
    case(CASES, f"two-jobs-{chunk}-{cut}", parts, chunk=chunk, cut=cut, opts=O)
for sync in ("async", "sync", "none"):
    case(CASES, f"chunk-file-{sync}", half, sync=sync)
for factor in (1, 2):
    case(CASES, f"prefetch-{factor}", prefetch, factor=factor, switches=1, opts=O, cost=4)
case(CASES, "prefetch-range", prefetch, r=(1, 3), switches=2, steps=2, opts=O, cost=3)
case(CASES, "prefetch-5", prefetch, sizes=(1,) * 5, factor=1, steps=3, switches=0, opts=O, cost=3)
for drop in (False, True):
    for sub in (False, True):
        case(CASES, f"rows-{drop}-{sub}", mapping, drop=drop, sub=sub, opts=O)
case(CASES, "rows-added", added, opts=O)
