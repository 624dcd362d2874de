"""C04: task parameter and gradient views."""
import itertools

import torch

from dattri.func.utils import _unflatten_params, _unflatten_params_layerwise, flatten_func, flatten_params
from dattri.task import AttributionTask

from .common import *  # noqa: F403

BOUNDS = ("two checkpoints (dictionaries, files, with and without buffers) of a 3-tensor (4 parameter) model, one with dropout and running statistics handed over in training mode, and a 5-tensor (nested, frozen tensor) model; every layer subset; every history of up to 3 "
          "operations from an alphabet of 8 (read full/partial parameters of either checkpoint, evaluate loss/target/gradient at other parameters, "
          "evaluate the full-parameter function), followed by every observation; all real parameters, points and loss coefficients")
ASSUMPTIONS = ["loss and target are polynomial functions of parameters and sample with symbolic data"]
CASES = []
SUBSETS = [["l1.weight"], ["l2.weight"], ["l2.bias"], ["l1.weight", "l2.bias"], ["l2.weight", "l2.bias"], ["l2.bias", "l1.weight"], list(NAMES), "l2.bias"]


def target_m(params, data):
    """A target whose gradient with respect to each layer depends on every other layer."""
    x, y = data
    h = (params["l1.weight"].reshape(-1) * x.reshape(-1)).sum()
    w, b = params["l2.weight"].reshape(-1)[0], params["l2.bias"].reshape(-1)[0]
    return h * (y.sum() + b * w) + w * b


def flat(ck, names=NAMES):
    names = [names] if isinstance(names, str) else names
    return torch.cat([ck[k].reshape(-1) for k in names])


def mix(ck, names, theta):
    """The checkpoint with the named tensors replaced by consecutive pieces of theta."""
    names = [names] if isinstance(names, str) else names
    d, i = dict(ck), 0
    for k in names:
        m = ck[k].numel()
        d[k] = theta[i:i + m].reshape(ck[k].shape)
        i += m
    return d


def gradw(f, ck, names, theta, s):
    return grads(f, mix(ck, names, theta), [s], [names] if isinstance(names, str) else names)[0]


def make(S, nck=2):
    cks = [ckpt(S, c) for c in range(nck)]
    x, y = S.tensor("x", 2, 2), S.tensor("y", 2, 1)
    task = AttributionTask(loss_func=loss_p, target_func=target_m, model=Toy(), checkpoints=[dict(c) for c in cks])
    return cks, x, y, task


def observe(S, task, cks, x, y, names, tag, theta):
    """Everything the task offers, compared with the definition."""
    d = (x[0], y[0])
    for c in (1, 0):
        S.check(task.get_param(c)[0], flat(cks[c]), f"{tag}: get_param({c})")
        S.check(task.get_param(c, layer_name=names)[0], flat(cks[c], names), f"{tag}: get_param({c}, layers)")
        S.check(task.get_loss_func(layer_name=names, ckpt_idx=c)(theta, d), loss_p(mix(cks[c], names, theta), d), f"{tag}: loss({c}, layers)")
        S.check(task.get_target_func(layer_name=names, ckpt_idx=c)(theta, d), target_m(mix(cks[c], names, theta), d), f"{tag}: target({c}, layers)")
        for nm, getter, f in (("loss", task.get_grad_loss_func, loss_p), ("target", task.get_grad_target_func, target_m)):
            g = getter(in_dims=(None, 0), layer_name=names, ckpt_idx=c)(theta, (x, y))
            S.check(g, torch.stack([gradw(f, cks[c], names, theta, (x[i], y[i])) for i in range(2)]), f"{tag}: grad {nm}({c}, layers)")
            g = getter(in_dims=(None, 0))(flat(cks[c]), (x, y))
            S.check(g, grads(f, cks[c], rows(x, y)), f"{tag}: grad {nm}({c})")


OPS = {
    "P0": lambda t, th, f, d, n: t.get_param(0),
    "p1": lambda t, th, f, d, n: t.get_param(1, layer_name=n),
    "L0": lambda t, th, f, d, n: t.get_loss_func(layer_name=n, ckpt_idx=0)(th, d[0]),
    "T1": lambda t, th, f, d, n: t.get_target_func(layer_name=n, ckpt_idx=1)(th, d[0]),
    "G0": lambda t, th, f, d, n: t.get_grad_loss_func(in_dims=(None, 0), layer_name=n, ckpt_idx=0)(th, d[1]),
    "H1": lambda t, th, f, d, n: t.get_grad_target_func(in_dims=(None, 0), layer_name=n, ckpt_idx=1)(th, d[1]),
    "F": lambda t, th, f, d, n: (t.get_loss_func()(f, d[0]), t.get_grad_target_func(in_dims=(None, 0))(f, d[1])),
    "S1": lambda t, th, f, d, n: t.get_param(1, layer_split=True),
}


def history(S, first, names, depth=3):
    cks, x, y, _ = make(S)
    k = len(flat(cks[0], names))
    th, ot = S.tensor("theta", k), S.tensor("other", k)
    f = S.tensor("full", 4)
    d = ((x[1], y[1]), (x, y))
    tails = [()] + [t for n in range(1, depth) for t in itertools.product(OPS, repeat=n)]
    for tail in tails:
        task = AttributionTask(loss_func=loss_p, target_func=target_m, model=Toy(), checkpoints=[dict(c) for c in cks])
        for o in (first, *tail):
            OPS[o](task, ot, f, d, names)
        c = len(tail) % 2
        tag = "-".join((first, *tail))
        if len(tail) == depth - 1:
            # the longest histories: only the views the last operations could have disturbed
            for c in (0, 1):
                S.check(task.get_param(c)[0], flat(cks[c]), f"{tag}: get_param({c})")
                S.check(task.get_loss_func(layer_name=names, ckpt_idx=c)(th, d[0]), loss_p(mix(cks[c], names, th), d[0]), f"{tag}: loss({c}, layers)")
        else:
            observe(S, task, cks, x, y, names, tag, th)


def subset(S, names):
    cks, x, y, task = make(S)
    k = len(flat(cks[0], names))
    observe(S, task, cks, x, y, names, "fresh", S.tensor("theta", k))
    observe(S, task, cks, x, y, names, "again", S.tensor("theta2", k))


def held(S, names):
    """Functions obtained for one checkpoint, called after others were loaded and evaluated."""
    cks, x, y, task = make(S)
    th, ot = S.tensor("theta", len(flat(cks[0], names))), S.tensor("other", len(flat(cks[0], names)))
    d = (x[0], y[0])
    fs = [(task.get_loss_func(layer_name=names, ckpt_idx=c), task.get_target_func(layer_name=names, ckpt_idx=c),
           task.get_grad_loss_func(in_dims=(None, 0), layer_name=names, ckpt_idx=c)) for c in (0, 1)]
    fs[0][0](ot, d)
    fs[1][2](ot, (x, y))
    for c in (0, 1, 0):
        S.check(fs[c][0](th, d), loss_p(mix(cks[c], names, th), d), f"held loss({c})")
        S.check(fs[c][1](th, d), target_m(mix(cks[c], names, th), d), f"held target({c})")
        g = torch.stack([gradw(loss_p, cks[c], names, th, (x[i], y[i])) for i in range(2)])
        S.check(fs[c][2](th, (x, y)), g, f"held grad({c})")
    S.check(task.get_param(0)[0], flat(cks[0]), "get_param(0)")


REQ = [(k, n, c, dim) for k in ("loss", "target") for n in (None, ["l2.weight"], ["l1.weight"], ["l2.weight", "l2.bias"]) for c in (0, 1)
       for dim in ((0, 1) if n in (None, ["l2.weight"]) else (0,))]


def requests(S, kind, dim, second):
    """Every gradient function asked for right after every other one (and the first one evaluated again afterwards)."""
    cks, x, y, task = make(S)
    d = {0: (x, y), 1: (x.T.contiguous(), y.T.contiguous())}
    th = S.tensor("theta", 3)
    F = {"loss": loss_p, "target": target_m}

    def ask(task, r):
        k, n, c, dim = r
        return (task.get_grad_loss_func if k == "loss" else task.get_grad_target_func)(in_dims=(None, dim), layer_name=n, ckpt_idx=None if n is None else c)

    def point(r):
        return flat(cks[r[2]]) if r[1] is None else th[:len(flat(cks[0], r[1]))]
    ref = {}
    for r in REQ:
        k, n, c, _ = r
        ref[str(r[:3])] = torch.stack([gradw(F[k], cks[c], n or NAMES, point(r), (x[i], y[i])) for i in range(2)])
    for a in REQ:
        if a[0] != kind or a[3] != dim:
            continue
        for b in REQ:
            if b[3] != second:
                continue
            task = AttributionTask(loss_func=loss_p, target_func=target_m, model=Toy(), checkpoints=[dict(c) for c in cks])
            f = ask(task, a)
            g = ask(task, b)
            S.check(g(point(b), d[b[3]]), ref[str(b[:3])], f"{b} after {a}")
            S.check(f(point(a), d[a[3]]), ref[str(a[:3])], f"{a} held while asking for {b}")


def repeated(S, names):
    """One function evaluated at several points."""
    cks, x, y, task = make(S)
    n = len(flat(cks[0], names))
    f = task.get_loss_func(layer_name=names, ckpt_idx=1)
    g = task.get_grad_target_func(in_dims=(None, 0), layer_name=names, ckpt_idx=1)
    for i in range(3):
        th = S.tensor(f"theta{i}", n)
        S.check(f(th, (x[0], y[0])), loss_p(mix(cks[1], names, th), (x[0], y[0])), f"loss, call {i}")
        S.check(g(th, (x, y)), torch.stack([gradw(target_m, cks[1], names, th, (x[j], y[j])) for j in range(2)]), f"grad, call {i}")
    S.check(task.get_param(1)[0], flat(cks[1]), "parameters afterwards")


class Deep(nn.Module):
    """Nested modules, a parameter of the root, a frozen tensor and a buffer."""

    def __init__(self):
        super().__init__()
        self.scale = nn.Parameter(torch.zeros(2))
        self.block = nn.ModuleDict({"a": nn.Linear(2, 2), "norm": nn.LayerNorm(2)})
        self.head = nn.Linear(2, 1, bias=False)
        self.block["norm"].bias.requires_grad_(False)
        self.register_buffer("buf", torch.zeros(1))


DN = ["scale", "block.a.weight", "block.a.bias", "block.norm.weight", "head.weight"]


def deep_loss(params, data):
    x, = data
    h = params["block.a.weight"] @ (x * params["scale"]) + params["block.a.bias"]
    return (params["head.weight"].reshape(-1) * h * params["block.norm.weight"] * h).sum()


def deep(S, names=None, pmap=None):
    m = Deep()
    sh = {k: tuple(v.shape) for k, v in m.state_dict().items()}
    cks = [{k: S.tensor(f"c{c}_{i}", *sh[k]) for i, k in enumerate(sh)} for c in range(2)]
    task = AttributionTask(loss_func=deep_loss, model=m, checkpoints=[dict(c) for c in cks])
    x = S.tensor("x", 2)
    for c in (0, 1, 0):
        S.check(task.get_param(c)[0], flat(cks[c], DN), f"full parameters of {c}")
        parts, mp = task.get_param(c, layer_split=True)
        S.check(torch.cat(list(parts)), flat(cks[c], DN), f"layer split of {c}")
        S.check_true(len(parts) == len(DN) and list(mp) == [0, 1, 1, 2, 3], "layer map")
        if pmap:
            parts, mp = task.get_param(c, layer_split=True, param_layer_map=pmap)
            S.check_true(list(mp) == pmap, "given layer map returned")
            S.check(torch.cat(list(parts)), flat(cks[c], DN), "layer split with given map")
        ln = ["block.a.bias", "head.weight"]
        parts, mp = task.get_param(c, layer_name=ln, layer_split=True)
        S.check(torch.cat(list(parts)), flat(cks[c], ln), f"layer split of a selection, {c}")
        S.check_true(list(mp) == [0, 1] and len(parts) == 2, "layer map of the selection")
        th = S.tensor(f"th{c}", len(flat(cks[c], DN)))
        S.check(task.get_loss_func()(th, (x,)), deep_loss(mix(cks[c], DN, th), (x,)), "loss at a flat vector")
        tup, i = [], 0
        for k in DN:
            tup.append(th[i:i + cks[c][k].numel()])
            i += cks[c][k].numel()
        S.check(task.get_loss_func()(tuple(tup), (x,)), deep_loss(mix(cks[c], DN, th), (x,)), "loss at a layer-wise tuple")
        S.check(task.get_loss_func(flatten=False)(mix(cks[c], DN, th), (x,)), deep_loss(mix(cks[c], DN, th), (x,)), "unflattened loss")


def roundtrip(S):
    m = Deep()
    P = {k: tuple(p.shape) for k, p in m.named_parameters() if p.requires_grad}
    v = S.tensor("v", sum(torch.Size(s).numel() for s in P.values()))
    d = _unflatten_params(v, m)
    S.check_true(list(d) == DN and all(tuple(d[k].shape) == P[k] for k in P), "names and shapes")
    S.check(flatten_params(d), v, "flatten(unflatten(v))")
    e = _unflatten_params_layerwise(tuple(d[k].reshape(-1) for k in DN), m)
    for k in DN:
        S.check(e[k], d[k], f"layer-wise unflatten {k}")

    @flatten_func(m, param_num=1)
    def f(a, params, b=1.0):
        return a * params["scale"][1] + b * params["head.weight"][0, 1]
    a = S.tensor("a")
    S.check(f(a, v, b=3.0), a * v[1] + 3.0 * v[-1], "flatten_func on another argument")


def buffers(S, names, depth=2):
    """The functions use values that a checkpoint stores besides the parameters: those of the checkpoint asked for last."""
    cks = [ckpt(S, c, "buffer") for c in range(2)]
    x, y = S.tensor("x", 2, 2), S.tensor("y", 2, 1)
    d = ((x[1], y[1]), (x, y))
    k = len(flat(cks[0], names))
    th, ot, f = S.tensor("theta", k), S.tensor("other", k), S.tensor("full", 4)
    for tail in (t for n in range(depth + 1) for t in itertools.product(OPS, repeat=n)):
        model, lf, tf = buffered("buffer", loss_p, target_m)
        task = AttributionTask(loss_func=lf, target_func=tf, model=model, checkpoints=[dict(c) for c in cks])
        tag = "-".join(("fresh", *tail))
        for o in tail:
            OPS[o](task, ot, f, d, names)
        for c in (len(tail) % 2, 1 - len(tail) % 2):
            S.check(task.get_loss_func(layer_name=names, ckpt_idx=c)(th, d[0]), lf(mix(cks[c], names, th), d[0]), f"{tag}: loss({c}, layers)")
            S.check(task.get_param(1 - c)[0], flat({n: cks[1 - c][n] for n in NAMES}), f"{tag}: get_param({1 - c})")
            S.check(task.get_grad_target_func(in_dims=(None, 0), layer_name=names, ckpt_idx=c)(th, (x, y)),
                    torch.stack([gradw(tf, cks[c], names, th, (x[i], y[i])) for i in range(2)]), f"{tag}: grad target({c}, layers)")
            task.get_param(1 - c)
            theta, _ = task.get_param(c)
            S.check(task.get_target_func()(theta, d[0]), tf(cks[c], d[0]), f"{tag}: target({c})")
            S.check(task.get_grad_loss_func(in_dims=(None, 0))(theta, (x, y)), grads(lf, cks[c], rows(x, y)), f"{tag}: grad loss({c})")


def loadfunc(S, names):
    """A user loading function that builds a fresh model for every checkpoint; target defaults to the loss."""
    cks = [ckpt(S, c) for c in range(2)]
    x, y = S.tensor("x", 2, 2), S.tensor("y", 2, 1)
    seen = []

    def load(model, c):
        seen.append(c)
        m = Toy()
        m.load_state_dict(cks[c])
        return m
    task = AttributionTask(loss_func=loss_p, model=Toy(), checkpoints=[0, 1], checkpoints_load_func=load)
    d = (x[0], y[0])
    th = S.tensor("theta", len(flat(cks[0], names)))
    fs = [task.get_grad_loss_func(in_dims=(None, 0), layer_name=names, ckpt_idx=c) for c in (0, 1)]
    for c in (1, 0, 1):
        S.check(task.get_param(c)[0], flat(cks[c]), f"get_param({c})")
        S.check(task.get_target_func(layer_name=names, ckpt_idx=c)(th, d), loss_p(mix(cks[c], names, th), d), f"target({c})")
        S.check(fs[c](th, (x, y)), torch.stack([gradw(loss_p, cks[c], names, th, (x[i], y[i])) for i in range(2)]), f"grad({c})")
        S.check(task.get_grad_target_func(in_dims=(None, 0))(flat(cks[c]), (x, y)), grads(loss_p, cks[c], rows(x, y)), f"target grad({c})")
    S.check_true(len(task.get_checkpoints()) == 2, "checkpoints")


def paths(S, kind):
    """Checkpoints given as files."""
    import pathlib
    cks = [ckpt(S, c) for c in range(2)]
    x, y = S.tensor("x", 2, 2), S.tensor("y", 2, 1)
    name = (lambda c: f"/no/such/dir/{c}.pt") if kind == "str" else (lambda c: pathlib.Path(f"/no/such/dir/{c}.pt"))
    real = torch.load

    def load(f, *a, **k):
        return dict(cks[[str(name(c)) for c in (0, 1)].index(str(f))])
    torch.load = load
    try:
        task = AttributionTask(loss_func=loss_p, target_func=target_m, model=Toy(), checkpoints=[name(0), name(1)])
        for names in (["l2.weight"], ["l1.weight", "l2.bias"]):
            theta = S.tensor(f"theta{len(names)}", len(flat(cks[0], names)))
            observe(S, task, cks, x, y, names, "files", theta)
        one = AttributionTask(loss_func=loss_p, target_func=target_m, model=Toy(), checkpoints=name(1))
        S.check_true(len(one.get_checkpoints()) == 1, "a single file")
        S.check(one.get_param(0)[0], flat(cks[1]), "get_param of the single file")
    finally:
        torch.load = real


class Noisy(nn.Module):
    """In training mode its output is random and depends on the other samples."""

    def __init__(self):
        super().__init__()
        self.l1, self.drop, self.norm, self.l2 = nn.Linear(2, 2, bias=False), nn.Dropout(0.5), nn.BatchNorm1d(2, affine=False, eps=0.0), nn.Linear(2, 1)

    def forward(self, x):
        return self.l2(self.norm(self.drop(self.l1(x))))


def evaluation(S, names=None, order=(0, 1), part=False):
    """A model handed over in training mode is used in evaluation mode."""
    m = Noisy()
    sh = {k: tuple(v.shape) for k, v in m.state_dict().items()}
    cks = []
    for c in range(2):
        d = {k: S.tensor(f"c{c}_{i}", *sh[k]) for i, k in enumerate(sh) if not k.endswith("num_batches_tracked")}
        S.positive(d["norm.running_var"])
        cks.append({**d, "norm.num_batches_tracked": torch.tensor(0)})
    m.train()
    P = ["l1.weight", "l2.weight", "l2.bias"]
    x, y = S.tensor("x", 2, 2), S.tensor("y", 2, 1)
    buf = [k for k in sh if k not in P]

    def loss(params, data):
        a, b = data
        return (torch.func.functional_call(m, params, (a.reshape(1, 2),)) * b).sum()

    def oracle(ck, params, data):
        a, b = data
        z = (a @ params["l1.weight"].T - ck["norm.running_mean"]) / torch.sqrt(ck["norm.running_var"])
        return ((z @ params["l2.weight"].T + params["l2.bias"]) * b).sum()
    task = AttributionTask(loss_func=loss, model=m, checkpoints=[dict(c) for c in cks])
    if part:  # only some layers are in training mode, as after activate_dropout
        m.eval()
        m.drop.train()
    for c in order:
        v, _ = task.get_param(c, layer_name=names)
        kw = {} if names is None else dict(layer_name=names, ckpt_idx=c)
        f, g = task.get_loss_func(**kw), task.get_grad_target_func(in_dims=(None, 0), **kw)
        for i in range(2):
            S.check(f(v, (x[i], y[i])), oracle(cks[c], cks[c], (x[i], y[i])), f"loss of sample {i}, checkpoint {c}")
        S.check(g(v, (x, y)), grads(lambda p, s: oracle(cks[c], p, s), {k: cks[c][k] for k in P}, rows(x, y), names), f"gradients, checkpoint {c}")
    S.check_true(not any(k.training for k in m.modules()), "evaluation mode")
    for k in buf:
        if k != "norm.num_batches_tracked":
            S.check(dict(m.named_buffers())[k], cks[order[-1]][k], "running statistics unchanged")


for f in OPS:
    case(CASES, f"history-{f}", history, first=f, names=["l2.weight", "l2.bias"])
    case(CASES, f"history-short-{f}", history, first=f, names=["l1.weight"], depth=2)
    case(CASES, f"history-long-{f}", history, tier="thorough", first=f, names=["l2.bias", "l1.weight"], depth=4)
for i, s in enumerate(SUBSETS):
    case(CASES, f"subset-{i}", subset, names=s)
    case(CASES, f"held-{i}", held, names=s)
    case(CASES, f"repeated-{i}", repeated, names=s)
for k in ("loss", "target"):
    for d1 in (0, 1):
        for d2 in (0, 1):
            case(CASES, f"requests-{k}-{d1}{d2}", requests, kind=k, dim=d1, second=d2)
case(CASES, "deep-model", deep)
case(CASES, "deep-model-given-map", deep, pmap=[0, 1, 1, 0, 2])
case(CASES, "roundtrip", roundtrip)
case(CASES, "buffers", buffers, names=["l2.weight"])
case(CASES, "buffers-two-layers", buffers, names=["l1.weight", "l2.bias"])
case(CASES, "buffers-string", buffers, names="l2.bias", depth=1)
case(CASES, "load-function", loadfunc, names=["l2.weight"])
case(CASES, "load-function-two", loadfunc, names=["l1.weight", "l2.bias"])
for k in ("str", "path"):
    case(CASES, f"files-{k}", paths, kind=k)
case(CASES, "evaluation-mode", evaluation)
case(CASES, "evaluation-mode-back", evaluation, order=(0, 1, 0))
case(CASES, "evaluation-mode-part", evaluation, part=True)
case(CASES, "evaluation-mode-layer", evaluation, names=["l1.weight"])
