#!/opt/venv/bin/python
"""run.py ID [--case SUBSTR] [-v] | run.py --replay FILE

Decides one property: runs its harness cases symbolically (in parallel processes), asks z3, replays counterexamples,
writes /verif/evidence/ID.json.  Exit 0: held on everything explored; 1: VIOLATION; 2: inconclusive / engine error."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DATTRI_REPO", "/repo")
os.environ.setdefault("TQDM_DISABLE", "1")
os.environ.setdefault("TORCHDYNAMO_DISABLE", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)


def load(pid):
    import logging
    from symx import engine
    logging.disable(logging.CRITICAL)
    engine.torch.set_num_threads(1)
    engine.torch.set_default_dtype(engine.torch.float64)
    from torch.func import grad, vmap
    vmap(grad(lambda x: (x * x).sum()))(engine.torch.ones(2, 2))  # imports functorch before forking
    m = importlib.import_module(f"checks.{pid.lower()}")
    return m


def known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line[8:].split("|")[0].split())
                if f.get("property") == pid:
                    f["text"] = line.split("|", 1)[1].strip() if "|" in line else ""
                    out.append(f)
    return out


def one(args):
    pid, idx, tier = args
    from symx import engine, node
    sys.setrecursionlimit(20000)
    m = sys.modules[f"checks.{pid.lower()}"]
    c = m.CASES[idx]
    t0 = time.time()
    devnull = open(os.devnull, "w")
    so = sys.stdout
    if not os.environ.get("SYMX_DEBUG"):
        sys.stdout = devnull
    scratch = os.path.join("/tmp", f"symx_{os.getpid()}_{idx}")
    os.makedirs(scratch, exist_ok=True)
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        r = engine.run_case(c["name"], c["fn"], c["params"], seed=int(os.environ.get("VERIF_SEED", "1") or 1),
                            max_paths=c.get("max_paths", 64), timeout=c.get("timeout", 700),
                            qtimeout=c.get("qtimeout", 40), symbolic_random=c.get("symbolic_random", True))
    except BaseException as x:  # noqa: BLE001
        r = engine.Result(c["name"])
        r.errors.append(f"engine: {type(x).__name__}: {x} {traceback.format_exc()[-1500:]}")
        r.wall = time.time() - t0
    finally:
        sys.stdout = so
        os.chdir(cwd)
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    return idx, r


def _child(t, conn):
    import resource
    lim = int(os.environ.get("SYMX_MEM_GB", "12")) << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    try:
        conn.send(one(t)[1])
    finally:
        conn.close()
        os._exit(0)


def _rss(pid):
    try:
        with open(f"/proc/{pid}/statm") as f:
            return int(f.read().split()[1]) * 4096
    except (OSError, ValueError, IndexError):
        return 0


def schedule(a, m, todo, t0):
    """Every case in its own forked process, with a time limit per case and for the whole check."""
    from multiprocessing.connection import wait

    from symx import engine
    ctx = mp.get_context("fork")
    total = 780 if a.tier == "quick" else 10 ** 9
    todo = list(todo)
    running, results = {}, []

    def finish(idx, r):
        results.append((idx, r))
        if a.v:
            print(f"  {r.name}: {'VIOLATED ' + r.violations[0]['label'] if r.violations else 'error' if r.errors else 'holds'} paths={r.paths} "
                  f"obligations={r.obligs} vars={r.vars} ops={r.ops} solver={r.stats.get('solver_seconds')}s wall={r.wall:.1f}s", flush=True)

    def failed(idx, why, wall):
        r = engine.Result(m.CASES[idx]["name"])
        r.errors.append(why)
        r.wall = wall
        finish(idx, r)

    while todo or running:
        while todo and len(running) < a.jobs:
            t = todo.pop(0)
            c = m.CASES[t[1]]
            rd, wr = ctx.Pipe(False)
            pr = ctx.Process(target=_child, args=(t, wr))
            pr.start()
            wr.close()
            lim = c.get("limit", 240 if a.tier == "quick" else 3000)
            running[rd] = (t, pr, time.time(), lim)
        wait(list(running), timeout=0.5)
        rss = {rd: _rss(v[1].pid) for rd, v in running.items()}
        if sum(rss.values()) > 22e9:
            # memory is the scarcest resource: give up the biggest case
            big = max(rss, key=rss.get)
            t, pr, st, lim = running[big]
            running[big] = (t, pr, st, -1.0)
        for rd in list(running):
            t, pr, st, lim = running[rd]
            now = time.time()
            if rd.poll():
                try:
                    finish(t[1], rd.recv())
                except EOFError:
                    failed(t[1], "the case's process ended without a result (memory?)", now - st)
                pr.join(2)
                if pr.is_alive():
                    pr.kill()
            elif now - st > lim or now - t0 > total:
                pr.kill()
                pr.join()
                import shutil
                shutil.rmtree(os.path.join("/tmp", f"symx_{pr.pid}_{t[1]}"), ignore_errors=True)
                failed(t[1], f"undecided after {now - st:.0f}s" + (" (memory limit)" if lim < 0 else ""), now - st)
            else:
                continue
            rd.close()
            del running[rd]
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--case", default="")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SYMX_JOBS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    m = load(a.id)
    todo = [(a.id, i, a.tier) for i, c in enumerate(m.CASES)
            if a.case in c["name"] and (a.tier == "thorough" or c.get("tier", "quick") == "quick")]
    todo.sort(key=lambda t: -m.CASES[t[1]].get("cost", 1))
    results = schedule(a, m, todo, t0)
    results.sort(key=lambda x: x[0])
    return report(a, m, results, seed, time.time() - t0)


def report(a, m, results, seed, wall):
    from symx import engine
    pid = a.id
    kf = known(pid)
    nviol = nerr = 0
    lines = []
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    tot = dict(queries=0, unsat=0, sat=0, unknown=0, solver_seconds=0.0, obligations=0)
    funcs, opn = set(), {}
    cases = []
    kfseen = []
    for idx, r in results:
        for k in tot:
            tot[k] += r.stats.get(k, 0)
        funcs |= r.functions
        for k, v in r.opnames.items():
            opn[k] = opn.get(k, 0) + v
        status = "holds"
        if r.violations:
            v = r.violations[0]
            hit = None
            for f in kf:
                if f.get("case") == r.name and f.get("label") in (None, v["label"].replace(" ", "_")) and v["detail"].replace(" ", "_").startswith(f.get("detail", "")):
                    hit = f
            if hit:
                kfseen.append(hit)
                status = "known finding"
                lines.append(f"KNOWN-FINDING: property={pid} {hit['text']} [case {r.name}: {v['label']}: {v['detail']}]")
            else:
                status = "violated"
                nviol += 1
                p = os.path.join(HERE, "evidence", "replays", f"{pid}_{r.name}.json".replace("/", "_").replace(" ", "_"))
                with open(p, "w") as f:
                    json.dump(dict(property=pid, case=r.name, seed=seed, **{k: v[k] for k in ("label", "detail", "values", "override", "how", "all")}), f, indent=1)
                lines.append(f"  case {r.name}: [{v['label']}] {v['detail']} ({v['how']})")
                lines.append(f"VIOLATION property={pid} replay={p}")
        elif r.errors:
            status = "undecided"
        if r.errors and not r.violations:
            nerr += 1
            for e in r.errors[:2]:
                e = " ".join(str(e).split())
                lines.append(f"UNDECIDED case {r.name}: {e if len(e) < 500 or a.v else e[:200] + ' ... ' + e[-300:]}")
        cases.append(dict(case=r.name, status=status, paths=r.paths, cut_paths=r.cuts, obligations=r.obligs, symbolic_inputs=r.vars,
                          kernels=r.ops, random_draws=r.randoms, reachability_witnesses=r.witness, wall_s=round(r.wall, 2),
                          solver=r.stats))
    states = sum(c["paths"] for c in cases)
    ev = dict(property=pid, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level="other", coverage=dict(
        explanation="Symbolic execution of the real code per case: every path within the stated sizes is explored, every "
                    "obligation is a z3 query over all real values of the symbolic inputs; counterexamples are replayed on the real code.",
        cases=cases, paths=states, undecided_cases=nerr, obligations=tot["obligations"], solver_queries=tot["queries"],
        queries_unsat=tot["unsat"], queries_sat=tot["sat"], queries_unknown=tot["unknown"],
        solver_seconds=round(tot["solver_seconds"], 3), functions_encoded=sorted(funcs), kernels_interpreted=opn,
        bounds=getattr(m, "BOUNDS", ""), samples=[c["case"] for c in cases][:20]),
        assumptions=list(getattr(m, "ASSUMPTIONS", [])) + GLOBAL_ASSUMPTIONS, wall_s=round(wall, 2), violations=nviol)
    if not a.case:
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print(f"{pid}: {len(cases)} cases, {states} paths, {tot['obligations']} obligations, {tot['queries']} z3 queries "
          f"({tot['unsat']} unsat, {tot['sat']} sat, {tot['unknown']} unknown), solver {tot['solver_seconds']:.1f}s, wall {wall:.1f}s, "
          f"{nviol} violations, {nerr} undecided, {len(kfseen)} known findings")
    if nviol:
        return 1
    # undecided cases are not part of what was explored; a check that decided
    # less than half of its cases gives no answer
    return 2 if 2 * nerr > len(cases) else 0


GLOBAL_ASSUMPTIONS = [
    "arithmetic over the reals (floating-point rounding, overflow and NaN propagation from rounding are outside the claim)",
    "PyTorch kernels, autograd and functorch are trusted; every kernel's term semantics is compared with its float result at each path's seed point",
    "denominators met on a path are non-zero; orderings have no ties unless stated",
    "exp/log/softmax terms are uninterpreted functions, equal for equal arguments",
]


def replay(path):
    from symx import engine
    d = json.load(open(path))
    m = load(d["property"])
    c = [c for c in m.CASES if c["name"] == d["case"]][0]
    f = engine.run_concrete(c["fn"], c["params"], d["values"], d["seed"], d.get("override", False))
    for x in f:
        print("reproduced:", x[0], x[1])
    return 1 if f else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
