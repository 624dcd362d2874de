import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = {}
p = H + "/tools/not_applicable.json"
if os.path.exists(p):
    NA = json.load(open(p))
checks, na = [], []
for q in props:
    i = q["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(f"{H}/checks/{i.lower()}.py"):
        checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python run.py {i}", thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python run.py {i}",
            technique="symbolic execution of the real code (shadow terms under a TorchDispatchMode) + z3; counterexamples replayed",
            level="other",
            level_note="Bounded: holds for all real values of the symbolic inputs at the sizes, configurations and histories listed in the evidence; "
                       "real arithmetic instead of floats; kernels/autograd trusted, kernel encodings validated against the real kernels on every run."))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks, not_applicable=na,
               notes="Engine: symx/ ; harnesses: checks/ ; known findings: known_findings.txt"), open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
