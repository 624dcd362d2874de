"""C26: the retraining commands retrain exactly what is asked for."""
import inspect
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

import torch
from torch.utils.data import TensorDataset

import dattri.script.dattri_retrain as D
import dattri.script.dattri_retrain_nanogpt as G
from dattri.model_util.retrain import retrain_lds, retrain_loo

from .c17 import Train
from .c17 import world as draws
from .common import *  # noqa: F403

BOUNDS = ("dattri_retrain: every data set and model that belong together, 'lds' and 'loo', every partition of up to 4 subsets or samples into consecutive parts, total and end given or left to the default, "
          "training subsets of 0-3 samples or all, with and without extra parameters; run through the real retraining functions with 3 samples of arbitrary real values; "
          "dattri_retrain_nanogpt: every partition of up to 4 models into consecutive parts, ends beyond the total, 7 subset ratios, seeds 0-2, 4 configuration layouts, data present or not")
ASSUMPTIONS = ["data sets and training functions are stand-ins that record what they are given; commands are recorded, not run", "command lines are taken apart by argparse"]
CASES = []
O = dict(max_paths=2000)


class scripted:
    """Stand-ins for the data sets, the training functions and (optionally) the retraining functions."""

    def __init__(self, S, n=4, real=False):
        self.S, self.n, self.real, self.calls, self.data = S, n, real, [], []

    def __enter__(self):
        self.dir = tempfile.mkdtemp()
        self.old = (sys.argv, dict(D.SUPPORTED_SETTINGS), dict(D.SUPPORTED_RETRAINING_MODE), dict(D.SUPPORTED_DATASETS))
        X = self.S.tensor("X", self.n, 2)
        self.train, self.sets = {}, {}
        for k in D.SUPPORTED_SETTINGS:
            D.SUPPORTED_SETTINGS[k] = self.train[k] = Train()
        for k in D.SUPPORTED_DATASETS:
            self.sets[k] = TensorDataset(X + 0.0)

            def create(path, k=k):
                self.data.append((k, str(path), Path(path).is_dir()))
                return self.sets[k], TensorDataset(X[:1])
            D.SUPPORTED_DATASETS[k] = create
        if not self.real:
            for k, f in (("lds", retrain_lds), ("loo", retrain_loo)):
                def record(*a, k=k, f=f, **kw):
                    b = inspect.signature(f).bind(*a, **kw)
                    b.apply_defaults()
                    self.calls.append((k, b.arguments))
                D.SUPPORTED_RETRAINING_MODE[k] = record
        return self

    def run(self, **kw):
        sys.argv = ["dattri_retrain"]
        for k, v in kw.items():
            for x in (v if isinstance(v, list) else [v]):
                sys.argv += [f"--{k}={x}"]
        D.main()

    def __exit__(self, *a):
        sys.argv = self.old[0]
        for d, o in zip((D.SUPPORTED_SETTINGS, D.SUPPORTED_RETRAINING_MODE, D.SUPPORTED_DATASETS), self.old[1:]):
            d.clear()
            d.update(o)
        shutil.rmtree(self.dir)


PAIRS = [("mnist", "lr"), ("imagenet", "resnet18"), ("cifar2", "resnet9"), ("maestro", "musictransformer")]


def split(S, total, name="cut"):
    """[0, total) as consecutive parts, for every choice of at most one inner cut."""
    c = S.choice(name, total)
    return [(0, total)] if c == 0 else [(0, c), (c, total)]


def asked(call):
    """The subsets (samples) a call of a retraining function retrains."""
    k, a = call
    if k == "loo":
        return list(a["indices"])
    return list(range(a["start_id"], a["start_id"] + a["num_subsets"])) if a["total_num_subsets"] else list(range(a["num_subsets"]))


def arguments(S, mode):
    """All that is asked for arrives, at the right place."""
    n = 4
    with scripted(S, n) as W:
        data, model = PAIRS[S.choice("setting", len(PAIRS))]
        sub = (-1, 0, 1, 3)[S.choice("train_subset", 4)]
        extra = S.choice("extra", 3)
        seed = S.choice("seed", 3)
        kw = dict(dataset=data, model=model, mode=mode, train_subset=sub, data_path=W.dir + "/new/data", save_path=W.dir + "/out")
        if seed:
            kw["seed"] = seed
        if extra:
            kw["extra_param"] = ["epoch_num=7", "name=x1"][:extra]
            kw["device"] = "meta"
        W.run(**kw)
        S.check_true(W.data == [(data, W.dir + "/new/data", True)], "the data set asked for, in the (created) directory asked for")
        S.check_true(len(W.calls) == 1 and W.calls[0][0] == mode, "the retraining asked for")
        a = W.calls[0][1]
        dl = a["dataloader"]
        S.check_true(a["train_func"] is W.train[f"{data}_{model}"], "the training function of the setting")
        S.check_true(dl.dataset is W.sets[data], "the training data")
        S.check_true(sorted(i for b in dl.batch_sampler for i in b) == list(range(sub if sub > 0 else n)), "the samples asked for, each once")
        S.check_true(str(a["path"]) == W.dir + "/out" and a["seed"] == seed, "directory and seed")
        want = {"device": "meta" if extra else "cpu", **dict([("epoch_num", 7), ("name", "x1")][:extra])}
        S.check_true(a["kwargs"] == want and all(type(a["kwargs"][k]) is type(v) for k, v in want.items()), "parameters of the training function")
        S.check_true(asked(W.calls[0]) == list(range(n if mode == "loo" else 100)), "everything, when no partition is given")


def parts(S, mode, total=4):
    """The parts of a partition cover everything once."""
    data, model = PAIRS[S.choice("setting", len(PAIRS))]
    ps = split(S, total)
    third = S.choice("third", 2) if mode == "loo" else 0
    last = S.choice("end", 2) if mode == "loo" else 0  # left to the default
    with scripted(S, total) as W:
        for s, e in ps:
            end = "none" if last and e == total else e
            W.run(dataset=data, model=model, mode=mode, train_subset=-1, data_path=W.dir, save_path=W.dir, partition=f"{s},{end},{'None' if third else total}")
        got = [asked(c) for c in W.calls]
        S.check_true(got == [list(range(s, e)) for s, e in ps], "each part as asked")
        if mode == "lds":
            S.check_true(all(c[1]["total_num_subsets"] == total for c in W.calls), "the total number of subsets")
            S.check_true(all(c[1]["subset_ratio"] == 0.5 and c[1]["num_runs_per_subset"] == 1 for c in W.calls), "the documented defaults")


def end_to_end(S, mode, n=3, total=2):
    """Parts that cover everything give the models of one run."""
    ps = split(S, total)
    data, model = PAIRS[0]
    out = []
    with draws(S), scripted(S, n, real=True) as W:
        for j, run in enumerate(([(0, total)], ps)):
            d = f"{W.dir}/out{j}"
            for s, e in run:
                W.run(dataset=data, model=model, mode=mode, train_subset=-1, data_path=W.dir, save_path=d, seed=3, partition=f"{s},{e},{total}")
            fs = sorted(str(p.relative_to(d)) for p in Path(d).rglob("*.pt"))
            S.check_true(len(fs) == total, "a model for each subset (sample)")
            ms = {f: torch.load(f"{d}/{f}", weights_only=False) for f in fs}
            out.append({f: m if isinstance(m, dict) else m.state_dict() for f, m in ms.items()})
        a, b = out
        S.check_true(a.keys() == b.keys(), "the same models")
        for f in a:
            for k in a[f]:
                S.check(b[f][k], a[f][k], f"{k}: the same as in one run")


def models(S):
    """Every setting that has a training function can be asked for."""
    with scripted(S) as W:
        names = sorted(W.train)
        s = names[S.choice("setting", len(names))]
        data, model = s.split("_", 1)
        try:
            W.run(dataset=data, model=model, mode="lds", train_subset=-1, data_path=W.dir, save_path=W.dir)
        except SystemExit:
            pass
        S.check_true(len(W.calls) == 1 and W.calls[0][1]["train_func"] is W.train[s], f"{s} can be retrained")


class shell:
    """Records the configurations nanoGPT is trained with."""

    def __init__(self, S, layout, meta):
        self.S, self.layout, self.meta = S, layout, meta

    def __enter__(self):
        self.dir = tempfile.mkdtemp()
        self.cfg, self.prep, self.left = [], [], []
        self.real, self.chdir, self.cwd = subprocess.run, os.chdir, os.getcwd()
        Path(self.dir, "data").mkdir()
        if self.meta:
            Path(self.dir, "data", "meta.pkl").write_text("")
        lines = ["out_dir = 'out'", "seed = 1", "subset_ratio = 0.1", "batch_size = 64", "# seed = 5", "eval_seed_like = 2"]
        lines = (lines, lines[::-1], lines + ["dataset_path = 'elsewhere'"], [*lines[:3], "", *lines[3:], "dtype = 'x'  # seed"])[self.layout]
        Path(self.dir, "cfg.py").write_text("\n".join(lines))
        self.orig = lines

        def run(cmd, *a, **kw):
            parts = cmd.split() if isinstance(cmd, str) else [str(c) for c in cmd]
            if any(p.endswith("prepare.py") for p in parts):
                self.prep.append(parts)
            elif any(p.endswith("train.py") for p in parts):
                text = Path(parts[-1]).read_text()
                env = {}
                exec(text, env)  # what train.py does with it
                env.pop("__builtins__")
                self.cfg.append(env)
                self.left.append(parts[-1])
            return subprocess.CompletedProcess(cmd, 0)
        G.subprocess.run = run
        os.chdir = lambda p: None
        return self

    def __exit__(self, *a):
        subprocess.run, os.chdir = self.real, self.chdir
        shutil.rmtree(self.dir)


def nanogpt(S, total=3, layout=0):
    seed = S.choice("seed", 3)
    ratio = (0.5, 1.0, 0.25)[S.choice("ratio", 3)]
    over = S.choice("over", 2)
    ps = split(S, total)
    runs = []
    for run in ([(0, total)], ps):
        with shell(S, layout, True) as W:
            for s, e in run:
                G.retrain(seed, ratio, W.dir + "/cfg.py", W.dir + "/data", "raw.txt", W.dir + "/save", [s, e + (over if e == total else 0), total])
            env = {}
            exec("\n".join(W.orig), env)
            S.check_true(not W.prep, "existing data is not prepared again")
            S.check_true([c["out_dir"] for c in W.cfg] == [f"{W.dir}/save/model_{i + 1}" for i in range(total)], "each model once, in a directory of its own")
            S.check_true(all(c["subset_ratio"] == ratio and c["dataset_path"] == W.dir + "/data" for c in W.cfg), "fraction and data")
            S.check_true(all(c[k] == env[k] for c in W.cfg for k in ("batch_size", "eval_seed_like")), "the rest of the configuration is kept")
            S.check_true(not any(os.path.exists(f) for f in W.left), "no files are left")
            runs.append([c["seed"] for c in W.cfg])
    S.check_true(runs[0] == runs[1], "the same seeds in parts as in one run")
    S.check_true(runs[0] == [runs[0][0] + i for i in range(total)], "seeds increment with each model")
    with shell(S, layout, True) as W:
        G.retrain(seed + 1, ratio, W.dir + "/cfg.py", W.dir + "/data", None, W.dir + "/save", [0, 1, 1])
        S.check_true([c["seed"] for c in W.cfg] == [runs[0][0] + 1], "another seed, other models")


def nanogpt_data(S):
    """The data is prepared when it is missing, and nothing else is done when only that is asked for."""
    meta, only, file = S.choice("present", 2), S.choice("only", 2), S.choice("file", 2)
    with shell(S, 0, meta) as W:
        G.retrain(1, 0.5, W.dir + "/cfg.py", W.dir + "/data", "raw.txt" if file else None, W.dir + "/save", [0, 1, 1], only_download=bool(only))
        S.check_true(len(W.prep) == 1 - meta, "the data is prepared when it is missing")
        if W.prep:
            S.check_true(W.dir + "/data/prepare.py" in W.prep[0] and ("raw.txt" in W.prep[0]) == bool(file), "with its own script and file")
        S.check_true(len(W.cfg) == 1 - only, "nothing is trained when only data is asked for")


def nanogpt_ratio(S):
    r = (-0.5, 0.0, 0.01, 0.5, 1.0, 1.01, 2.0)[S.choice("ratio", 7)]
    with shell(S, 0, True) as W:
        try:
            G.retrain(1, r, W.dir + "/cfg.py", W.dir + "/data", None, W.dir + "/save", [0, 2, 2])
            ok = True
        except ValueError:
            ok = False
        S.check_true(ok == (0 < r <= 1), "fractions outside (0, 1] are refused")
        S.check_true(len(W.cfg) == (2 if ok else 0), "nothing is trained after a refusal")


def nanogpt_command(S):
    """The command passes on what it is given."""
    import dattri
    given = S.choice("given", 2)
    seen = []
    old, argv, G.retrain = G.retrain, sys.argv, lambda *a, **k: seen.append(inspect.signature(old).bind(*a, **k))
    try:
        data = ("shakespeare_char", "tinystories")[S.choice("data", 2)]
        only = S.choice("only", 2)
        sys.argv = ["x", "--dataset", data]
        if given:
            sys.argv += ["--save_path", "/s", "--data_file", "f.txt", "--seed", "7", "--partition", "1", "3", "4", "--subset_ratio", "0.25"]
        if only:
            sys.argv.append("--only_download_dataset")
        G.main()
    finally:
        G.retrain, sys.argv = old, argv
    S.check_true(len(seen) == 1, "one run")
    seen[0].apply_defaults()
    a = seen[0].arguments
    root = pathlib.Path(dattri.__file__).parent
    S.check_true(str(a["config_path"]) == str(root / f"benchmark/models/nanoGPT/config/train_{data}.py") and str(a["dataset_path"]) == str(root / "benchmark/datasets" / data), "the data set's own configuration")
    want = ("/s", "f.txt", 7, [1, 3, 4], 0.25) if given else ("output_models", "TinyStoriesV2-GPT4-train.txt", 42, [0, 5, 5], 0.5)
    S.check_true((a["save_path"], a["dataset_file"], a["seed"], list(a["partition"]), a["subset_ratio"]) == want, "arguments")
    S.check_true(bool(a["only_download"]) == bool(only), "only the data")


for md in ("lds", "loo"):
    case(CASES, f"{md}-arguments", arguments, mode=md, opts=O)
    for t in (1, 2, 4):
        case(CASES, f"{md}-parts-{t}", parts, mode=md, total=t, opts=O)
case(CASES, "lds-end-to-end", end_to_end, mode="lds", opts=O)
case(CASES, "loo-end-to-end", end_to_end, mode="loo", total=3, opts=O)
case(CASES, "settings", models, opts=O)
for lay in range(4):
    case(CASES, f"nanogpt-layout{lay}", nanogpt, layout=lay, opts=O)
case(CASES, "nanogpt-1", nanogpt, total=1, opts=O)
case(CASES, "nanogpt-4", nanogpt, total=4, opts=O)
case(CASES, "nanogpt-data", nanogpt_data, opts=O)
case(CASES, "nanogpt-ratio", nanogpt_ratio, opts=O)
case(CASES, "nanogpt-command", nanogpt_command, opts=O)
