"""Shadow memory: byte address of a tensor element -> term."""
from __future__ import annotations

import math

import numpy as np
import torch

from . import node as N
from .node import EngineError, Node, Unsupported

SHADOW: dict = {}
KEEP: dict = {}     # storage data_ptr -> storage kept alive (addresses are never reused)
TAGS: dict = {}     # exact float value -> node (symbolic Python scalars, values that crossed a file)
OPAQUE = [0]


def reset():
    SHADOW.clear()
    KEEP.clear()
    TAGS.clear()


def addrs(t: torch.Tensor) -> np.ndarray:
    it = t.element_size()
    a = np.full(tuple(t.shape), t.data_ptr(), dtype=np.int64) if t.dim() else np.array(t.data_ptr(), dtype=np.int64)
    for d, (n, s) in enumerate(zip(t.shape, t.stride())):
        sh = [1] * t.dim()
        sh[d] = n
        a = a + (np.arange(n, dtype=np.int64) * (s * it)).reshape(sh)
    return a


def _stor(t):
    try:
        return t.untyped_storage().data_ptr()
    except (RuntimeError, NotImplementedError):
        return None


def plain(t):
    return isinstance(t, torch.Tensor) and t.layout is torch.strided and t.device.type == "cpu"


def shadowed(t) -> bool:
    if not plain(t) or t.numel() == 0:
        return False
    if TAGS and t.dtype in (torch.float64, torch.float32) and _tagged(t):
        return True
    p = _stor(t)
    if p not in KEEP:
        return False
    for a in addrs(t).ravel().tolist():
        if a in SHADOW:
            return True
    return False


def _tagged(t):
    f = np.asarray(memvals(t), dtype=float).ravel().tolist()
    for x in f:
        if x in TAGS:
            return True
    return False


def memvals(t):
    with torch._C._DisableTorchDispatch(), torch.no_grad():
        d = t.detach()
        if d.is_conj() or d.is_neg():
            d = d.resolve_conj().resolve_neg()
        if d.dtype == torch.bfloat16:
            d = d.float()
        return _RAW_NUMPY(d.cpu()).copy()


_RAW_NUMPY = torch.Tensor.numpy


def close(v, x, single):
    if isinstance(v, bool) or isinstance(x, (bool, np.bool_)):
        return bool(v) == bool(x)
    if v == x:
        return True
    if math.isnan(v) and math.isnan(x):
        return True
    tol = 2e-3 if single else 1e-6
    return abs(v - x) <= tol * (1.0 + max(abs(v), abs(x)))


def read(t) -> np.ndarray:
    """Terms of a tensor (object array of its shape)."""
    vals = memvals(t)
    out = np.empty(vals.shape, dtype=object)
    if vals.size == 0:
        return out
    has = _stor(t) in KEEP
    single = t.dtype == torch.float32
    isf = t.dtype.is_floating_point
    fo = out.reshape(-1) if out.ndim else out.reshape(1)
    vl = vals.ravel().tolist()
    al = addrs(t).ravel().tolist() if has else None
    for i, x in enumerate(vl):
        n = SHADOW.get(al[i]) if has else None
        if n is None:
            if isf and TAGS and x in TAGS:
                n = TAGS[x]
            elif isinstance(x, complex):
                raise Unsupported("complex tensor")
            else:
                n = N.const(x, single)
        elif not close(n.v, x, single) and n.k != "poison":
            raise EngineError(f"stale shadow: term {n.v} memory {x}")
        fo[i] = n
    return fo.reshape(vals.shape) if out.ndim else _scalar(fo[0])


def _scalar(n):
    a = np.empty((), dtype=object)
    a[()] = n
    return a


def clear(t):
    if not plain(t) or t.numel() == 0:
        return
    if _stor(t) in KEEP:
        for a in addrs(t).ravel().tolist():
            SHADOW.pop(a, None)


def write(t, nodes, validate=True, what=""):
    """Attach terms to the elements of t (the real kernel has already run)."""
    if t.numel() == 0:
        return
    nodes = np.asarray(nodes, dtype=object)
    if nodes.shape != tuple(t.shape):
        nodes = np.broadcast_to(nodes, tuple(t.shape))
    vals = memvals(t)
    single = t.dtype in (torch.float32, torch.float16, torch.bfloat16)
    isb = t.dtype == torch.bool
    fl = nodes.reshape(-1) if nodes.ndim else nodes.reshape(1)
    al = addrs(t).ravel().tolist()
    vl = vals.ravel().tolist()
    any_ = False
    for i in range(len(al)):
        n = fl[i]
        if isb:
            n = N.tobool(n)
        elif n.b:
            n = N._num(n)
        x = vl[i]
        if validate and not close(n.v, x, single):
            raise EngineError(f"encoding of {what} disagrees with the kernel: term {n.v} kernel {x}")
        if n.k == "c" or n.k in ("true", "false", "inf", "poison"):
            if n.k == "c" and float(n.a[0]) != x and not isinstance(x, (bool, int)):
                # keep the exact rational where rounding separated them
                SHADOW[al[i]] = n
                any_ = True
            else:
                SHADOW.pop(al[i], None)
        else:
            SHADOW[al[i]] = n
            any_ = True
    if any_:
        s = t.untyped_storage()
        KEEP[s.data_ptr()] = s


def issym(arr) -> bool:
    for n in (arr.ravel().tolist() if isinstance(arr, np.ndarray) else [arr]):
        if n.k not in ("c", "true", "false", "inf", "poison"):
            return True
    return False
