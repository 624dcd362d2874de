"""The dispatch mode: runs every ATen kernel for real and mirrors it on terms."""
from __future__ import annotations

import hashlib

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_map

from . import mem
from . import node as N
from . import ops
from .node import EngineError, Unsupported

RANDOM_FLOAT = {"normal_", "uniform_", "bernoulli_", "randn", "rand", "normal", "bernoulli", "rand_like", "randn_like",
                "exponential_", "normal_functional", "native_dropout", "cauchy_", "log_normal_"}
RANDOM_INT = {"randperm", "randint", "randint_like", "multinomial", "random_", "random"}
NOSHADOW = {"size", "stride", "is_same_size", "sym_size", "sym_stride", "sym_numel", "is_contiguous", "dim", "numel",
            "_has_compatible_shallow_copy_type", "result_type", "is_floating_point", "is_pinned", "record_stream",
            "new_empty", "empty_like", "empty_strided", "new_empty_strided", "empty_permuted", "_assert_async", "_assert_scalar", "sym_storage_offset",
            "_assert_tensor_metadata", "sym_is_contiguous", "storage_offset", "set_", "resize_", "broadcast_tensors_", "_has_same_storage_numel",
            "squeeze_", "unsqueeze_", "transpose_", "t_", "swapaxes_", "swapdims_", "as_strided_"}


class Ctx:
    __slots__ = ("engine", "name", "real", "func")

    def __init__(self, engine, name, func):
        self.engine, self.name, self.func = engine, name, func
        self.real = None


class _Info:
    pass


_INFO: dict = {}


def info(func):
    r = _INFO.get(func)
    if r is not None:
        return r
    r = _Info()
    sch = func._schema
    r.name = sch.name.split("::")[1]
    r.ns = sch.name.split("::")[0]
    b = r.name
    r.mutable = [i for i, a in enumerate(sch.arguments) if a.alias_info is not None and a.alias_info.is_write]
    r.mutnames = [sch.arguments[i].name for i in r.mutable]
    if r.mutable and b.endswith("_") and not b.endswith("__"):
        b = b[:-1]
    r.base = b
    r.argnames = [a.name for a in sch.arguments]
    r.outnames = [sch.arguments[i].name for i in r.mutable if sch.arguments[i].is_out]
    rets = sch.returns
    r.view = bool(rets) and all(x.alias_info is not None and not x.alias_info.is_write for x in rets) and not r.mutable
    _INFO[func] = r
    return r


DECOMP = None


def decomp_table():
    global DECOMP
    if DECOMP is None:
        import torch._decomp as D
        import torch._refs  # noqa: F401
        DECOMP = dict(D.decomposition_table)
    return DECOMP


class SymMode(TorchDispatchMode):
    def __init__(self, engine):
        super().__init__()
        self.engine = engine

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        return self.engine.dispatch(self, func, args, kwargs)


def tensors_in(x):
    return [t for t in tree_flatten(x)[0] if isinstance(t, torch.Tensor)]


def dezero(x):
    """Materialise the storage-less zero tensors of forward-mode differentiation."""
    if isinstance(x, torch.Tensor):
        return torch.zeros(x.shape, dtype=x.dtype, device=x.device) if x._is_zerotensor() else x
    if isinstance(x, (list, tuple)):
        return type(x)(dezero(t) for t in x)
    return x


def has_tag_scalar(x):
    if not mem.TAGS:
        return False
    for t in tree_flatten(x)[0]:
        if isinstance(t, float) and (t in mem.TAGS or -t in mem.TAGS):
            return True
    return False


def dispatch(E, mode, func, args, kwargs):
    inf = info(func)
    name = inf.name
    E.nops += 1
    if any(t._is_zerotensor() for t in tensors_in((args, kwargs))):
        args = tuple(dezero(a) for a in args)
        kwargs = {k: dezero(v) for k, v in kwargs.items()}
    if inf.ns == "prim" or name in NOSHADOW:
        out = func(*args, **kwargs)
        if name in ("new_empty", "empty_like", "empty_strided", "new_empty_strided", "empty_permuted"):
            _poison(out)
        return out
    if name == "empty":
        out = func(*args, **kwargs)
        _poison(out)
        return out
    if name in RANDOM_FLOAT or name in RANDOM_INT:
        return random_op(E, inf, func, args, kwargs)
    ts = tensors_in((args, kwargs))
    for t in ts:
        if not mem.plain(t) and mem.KEEP:
            if t.device.type == "meta":
                return func(*args, **kwargs)
            raise Unsupported(f"non-strided tensor in {name}")
    sym = any(mem.shadowed(t) for t in ts) or has_tag_scalar((args, kwargs))
    if not sym:
        out = func(*args, **kwargs)
        if not inf.view:
            for i in inf.mutable:
                a = args[i] if i < len(args) else kwargs.get(inf.argnames[i])
                for t in tensors_in(a):
                    mem.clear(t)
            # fresh outputs have fresh addresses; nothing to clear
        return out
    if inf.view:
        return func(*args, **kwargs)
    E.opcount[inf.base] = E.opcount.get(inf.base, 0) + 1
    if name == "_local_scalar_dense":
        return E.local_scalar(args[0])
    if name == "is_nonzero":
        return E.branch(N.tobool(mem.read(args[0])[()] if args[0].dim() == 0 else mem.read(args[0]).ravel()[0]))
    if name == "equal":
        if tuple(args[0].shape) != tuple(args[1].shape):
            return False
        r = N.TRUE
        for a, b in zip(mem.read(args[0]).ravel().tolist(), mem.read(args[1]).ravel().tolist()):
            r = N.and_(r, N.eq(a, b))
        return E.branch(r)
    if name in ("nonzero", "nonzero_numpy", "masked_select") or (name == "where" and len(args) == 1):
        m = args[1] if name == "masked_select" else args[0]
        if mem.shadowed(m):
            E.concretise_bools(mem.read(m))
        if name != "masked_select":
            return func(*args, **kwargs)
    if name in ("searchsorted", "unique", "_unique2", "unique_consecutive", "bincount", "histc", "bucketize"):
        raise Unsupported(name)
    ctx = Ctx(E, inf.base, func)
    h = ops.H.get(inf.base)
    if h is not None:
        return run_handler(E, ctx, inf, h, func, args, kwargs)
    if inf.base in ops.MOVE:
        return run_move(E, inf, func, args, kwargs)
    # decompositions
    with mode:
        try:
            r = func.decompose(*args, **kwargs)
        except (RuntimeError, NotImplementedError):
            r = NotImplemented
        if r is not NotImplemented:
            return r
        d = decomp_table().get(func)
        if d is not None:
            E.decomposed.add(inf.name)
            return d(*args, **kwargs)
    raise Unsupported(f"no term semantics for aten::{name}")


def _poison(t):
    if isinstance(t, torch.Tensor) and mem.plain(t) and t.dtype.is_floating_point and t.numel():
        torch.ops.aten.fill_.Scalar(t, float("nan"))


def run_handler(E, ctx, inf, h, func, args, kwargs):
    kw = dict(kwargs)
    outs_named = [kw.pop(n) for n in inf.outnames if n in kw]
    # handlers run on the pre-state: read first, then run the kernel
    # (in-place kernels overwrite their operands)
    needs_real = inf.base in NEEDS_REAL
    if needs_real:
        out = func(*args, **kwargs)
        ctx.real = out
        res = guarded(h, ctx, args, kw, None)
    else:
        res = guarded(h, ctx, args, kw, lambda: func(*args, **kwargs))
        out = func(*args, **kwargs)
        ctx.real = out
    if res is None:
        for t in tensors_in(out):
            if inf.mutable:
                mem.clear(t)
        return out
    if isinstance(res, list):
        fl = list(out)
        for t, r in zip(fl, res):
            if r is None:
                if inf.mutable and isinstance(t, torch.Tensor):
                    mem.clear(t)
                continue
            mem.write(t, r, what=inf.base)
        return out
    t = out if isinstance(out, torch.Tensor) else (out[0] if isinstance(out, (tuple, list)) and len(out) else None)
    if t is None:
        if outs_named:
            t = outs_named[0]
        else:
            t = args[0]
    mem.write(t, res, what=inf.base)
    return out


def guarded(h, ctx, args, kw, real):
    try:
        return h(ctx, *args, **kw)
    except EngineError:
        raise
    except Exception as x:  # noqa: BLE001
        if real is not None:
            real()  # an error of the program itself (wrong shapes) surfaces here
        raise EngineError(f"handler of {ctx.name}: {type(x).__name__}: {x}") from x


NEEDS_REAL = {"zero", "sort", "argsort", "topk", "max", "min", "argmax", "argmin", "linalg_inv_ex", "linalg_eigh", "_linalg_eigh",
              "full", "new_full", "full_like", "zeros_like", "new_zeros", "_new_zeros_with_same_feature_meta", "_efficientzerotensor", "ones_like", "new_ones", "_linalg_svd", "linalg_qr"}


def run_move(E, inf, func, args, kwargs):
    """Pure data movement: run the kernel on element identities."""
    table = [N.ZERO]

    def conv_in(nm, x, mutated):
        if isinstance(x, torch.Tensor):
            if nm in ops.SELECTORS:
                if mem.shadowed(x):
                    if x.dtype == torch.bool:
                        E.concretise_bools(mem.read(x))
                    else:
                        raise Unsupported(f"symbolic selector in {inf.name}")
                return x
            a = mem.read(x)
            ids = torch.zeros(tuple(x.shape), dtype=torch.float64)
            if x.numel():
                base = len(table)
                table.extend(a.ravel().tolist())
                ids = torch.arange(base, base + x.numel(), dtype=torch.float64).reshape(tuple(x.shape))
            return ids
        if isinstance(x, (list, tuple)):
            return type(x)(conv_in(nm, y, mutated) for y in x) if not hasattr(x, "_fields") else x
        return x

    a2 = []
    for i, x in enumerate(args):
        nm = inf.argnames[i]
        if nm == "value" and inf.base in ("constant_pad_nd",):
            x2 = float(len(table))
            table.append(ops.sc(float(x)))
            a2.append(x2)
            continue
        if inf.base == "scatter" and nm == "value":
            x2 = float(len(table))
            table.append(ops.sc(x))
            a2.append(x2)
            continue
        a2.append(conv_in(nm, x, i in inf.mutable))
    if inf.base == "constant_pad_nd" and len(args) < 3 and "value" not in kwargs:
        pass  # pads with 0 -> table[0]
    if inf.base == "scatter" and "reduce" in kwargs:
        raise Unsupported("scatter reduce")
    if inf.base == "embedding":
        # weight is data, indices is the selector; padding does not matter forward
        pass
    k2 = {k: (conv_in(k, v, False) if k not in ("dtype",) else v) for k, v in kwargs.items() if k not in inf.outnames and k not in ("dtype", "memory_format", "layout", "device", "pin_memory")}
    ido = func.__self__(*a2, **k2) if False else func(*a2, **k2) if not inf.outnames or not any(n in kwargs for n in inf.outnames) else getattr(torch.ops.aten, inf.base)(*a2, **k2)
    out = func(*args, **kwargs)
    to, ti = tensors_in(out), tensors_in(ido)
    if inf.mutable and not to:
        to, ti = [args[0]], [a2[0]]
    for t, i in zip(to, ti):
        idx = np.asarray(mem.memvals(i)).astype(np.int64)
        nodes = np.empty(idx.shape, dtype=object)
        fl = nodes.reshape(-1) if nodes.ndim else None
        if fl is None:
            nodes[()] = table[int(idx)]
        else:
            for q, z in enumerate(idx.ravel().tolist()):
                fl[q] = table[z]
            nodes = fl.reshape(idx.shape)
        mem.write(t, nodes, what=inf.base)
    return out


def draw_kind(name, args, kwargs):
    """(distribution, mean, std or p) of a floating-point random operation."""
    num = [a for a in args if isinstance(a, (int, float)) and not isinstance(a, bool)]
    if name in ("normal_", "normal") and not any(isinstance(a, torch.Tensor) for a in args[(name == "normal_"):]):
        mean = kwargs.get("mean", num[0] if num else 0.0)
        std = kwargs.get("std", num[1] if len(num) > 1 else 1.0)
        return "normal", float(mean), float(std)
    if name in ("randn", "randn_like"):
        return "normal", 0.0, 1.0
    if name.startswith("bernoulli"):
        return "bernoulli", 0.0, float(kwargs.get("p", num[0] if num else 0.5))
    return name, 0.0, 1.0


def override_random(t, k, values, kind=("", 0.0, 1.0)):
    if not values or f"rnd{k}_0" not in values:
        return
    new = [values.get(f"rnd{k}_{i}") for i in range(t.numel())]
    mean, std = kind[1:] if kind[0] == "normal" else (0.0, 1.0)
    new = [x if v is None else mean + std * v for v, x in zip(new, mem.memvals(t).ravel().tolist())]
    t.copy_(torch.tensor(new, dtype=t.dtype).reshape(tuple(t.shape)))


class ReplayMode(TorchDispatchMode):
    """Replay only: substitutes the model's values for the random draws."""

    def __init__(self, values):
        super().__init__()
        self.values, self.keys, self.draws = values, {}, []

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        inf = info(func)
        if inf.name not in RANDOM_FLOAT:
            return func(*args, **kwargs)
        st = gen_state(args, kwargs)
        out = func(*args, **kwargs)
        t = out if isinstance(out, torch.Tensor) else (tensors_in(out) or [args[0]])[0]
        key = (st, inf.name, tuple(t.shape), str(t.dtype))
        k = self.keys.setdefault(key, len(self.keys))
        kind = draw_kind(inf.name, args, kwargs)
        override_random(t, k, self.values, kind)
        self.draws.append((kind, t.detach().double().reshape(-1).tolist()))
        return out


def gen_state(args, kwargs):
    gen = kwargs.get("generator")
    if gen is None:
        for a in args:
            if isinstance(a, torch.Generator):
                gen = a
    if gen is None:
        gen = torch.default_generator
    return hashlib.sha1(mem._RAW_NUMPY(gen.get_state()).tobytes()).hexdigest()


def random_op(E, inf, func, args, kwargs):
    name = inf.name
    st = gen_state(args, kwargs)
    if name == "native_dropout" or name == "bernoulli" and tensors_in(args) and mem.shadowed(args[0]):
        raise Unsupported(name)
    out = func(*args, **kwargs)
    E.nrandom += 1
    t = out if isinstance(out, torch.Tensor) else (tensors_in(out) or [args[0]])[0]
    if inf.mutable:
        mem.clear(t)
    if name in RANDOM_INT or not t.dtype.is_floating_point or not E.symbolic_random:
        return out
    key = (st, name, tuple(t.shape), str(t.dtype))
    k = E.randkeys.get(key)
    if k is None:
        k = E.randkeys[key] = len(E.randkeys)
    kind = draw_kind(name, args, kwargs)
    override_random(t, k, E.inputs, kind)
    vals = mem.memvals(t)
    nodes = np.empty(vals.shape, dtype=object)
    fl = nodes.reshape(-1) if nodes.ndim else nodes.reshape(1)
    E.draws.append((kind, vals.ravel().tolist()))
    mean, std = kind[1:] if kind[0] == "normal" else (0.0, 1.0)
    for i, x in enumerate(vals.ravel().tolist()):
        if std == 0:
            fl[i] = N.const(mean)
            continue
        fl[i] = N.var(f"rnd{k}_{i}", (x - mean) / std)
        if (mean, std) != (0.0, 1.0):
            fl[i] = N.add(N.const(mean), N.mul(N.const(std), fl[i]))
        if kind[0] == "bernoulli":  # zero or one
            n = N.eq(N.mul(fl[i], fl[i]), fl[i])
            if n.id not in E.condset:
                E.condset.add(n.id)
                E.conds.append((n, False))
    mem.write(t, fl.reshape(vals.shape) if nodes.ndim else mem._scalar(fl[0]), what="random " + name)
    return out
