#!/usr/bin/env python3
"""Assembles /verif/DESIGN.md: the fixed text, one section per property (rule taken from the check), planted bugs, findings."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(os.path.join(V, "tools", "design_head.md")).read()
why = json.load(open(os.path.join(V, "tools", "design_notes.json")))
seeds = {}
res = os.path.join(V, "tools", "seed_results.json")
catch = json.load(open(res)) if os.path.exists(res) else {}
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
out = [head.rstrip(), "", "## Properties and how each is decided", ""]
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line); pid = p["id"]
    out += [f"### {pid} {p['title']}", ""]
    f = os.path.join(V, "mc", "checks", pid.lower() + ".py")
    if os.path.exists(f):
        rule = ass = None
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and n.targets[0].id == "RULE": rule = ast.literal_eval(n.value)
        out += ["*Enumerated and compared:* " + " ".join(rule.split()), ""]
    else:
        out += ["*Not claimed:* no check registered (see MANIFEST.json).", ""]
    if pid in why:
        out += [why[pid], ""]
    out += ["*What the tests leave open:* " + p["why_tests_cant"], ""]
    if pid in seeds:
        out += ["*Planted bugs:* " + "; ".join(f"{i} ({d['what_it_breaks']}; needs {d['needs']}): " + (catch.get(i, "not run")) for i, d in seeds[pid]) + ".", ""]
out += ["## Defects of mathematicalmichael/mud", "", "Repaired in /repo (one `fix:` commit each) or recorded as findings; the list the checks read is known_findings.txt.", ""]
for line in open(os.path.join(V, "known_findings.txt")):
    if not line.startswith("#") and line.strip():
        out.append("- " + line.strip())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
