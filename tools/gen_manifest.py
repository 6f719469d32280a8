"""rewrite MANIFEST.json from properties.jsonl and the check modules present"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = {"C02", "C07", "C13", "C17", "C19", "C27"}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "mc", "checks", pid.lower() + ".py")):
        t = ("explicit enumeration of all operation histories of the real objects up to a depth, breadth first with canonical states, each state compared with a fresh-object reference"
             if pid in HIST else
             "exhaustive bounded enumeration of configurations executed on the real code, each result compared with an independent reference model")
        checks.append(dict(property=pid, quick_cmd=f"./check {pid}", thorough_cmd=f"./check {pid} --tier thorough",
                           technique="model checking: " + t, level="model_checking",
                           level_note="Every behaviour of the bounded space stated in evidence coverage.rule is executed on the code in /repo/src and compared with the reference; "
                                      "nothing is claimed outside the alphabet and bound. Trusts numpy/scipy/sklearn/matplotlib and the reference in mc/; numerical equality up to about 1e-7."))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the explorer drives public interfaces and owns the random sources from outside. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
