#!/usr/bin/env python3
"""Regenerates checks/meta.json and MANIFEST.json from the table below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK = "71ad6f7"
MC = "exhaustive bounded exploration of the real code against a reference model (stateless model checking)"
M = {}
def c(id, rule, bounds, note="", builds=None, technique=MC, level="model_checking", assumptions=(), env=None, job_limit=None, fast_fail=None):
    M[id] = dict(rule=rule, bounds=bounds, note=note, technique=technique, level=level, assumptions=list(assumptions))
    if builds: M[id]["builds"] = builds
    if env: M[id]["env"] = env
    if job_limit: M[id]["job_limit"] = job_limit
    if fast_fail: M[id]["fast_fail"] = True
exec(open(os.path.join(ROOT, "tools", "meta_table.py")).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
have = [p["id"] for p in props if os.path.exists(os.path.join(ROOT, "checks", p["id"] + ".R"))]
base = "Every state, operation and argument inside the stated bounds is executed on a fresh build of the working tree and compared bit for bit with an independent R model; beyond the bounds nothing is claimed. Trusted: R itself, base R's operations used by the model, the model (checks/ and lib/)."
checks = []
for id in have:
    m = M.get(id) or dict(rule="", bounds="", note="", technique=MC, level="model_checking")
    checks.append(dict(property=id, quick_cmd="python3 bin/check.py " + id, thorough_cmd="VERIF_TIER=thorough python3 bin/check.py " + id,
        technique=m["technique"], level=m["level"],
        level_note=(base + " Bounds: " + m["bounds"] + (" " + m["note"] if m["note"] else "")).strip()))
na = [dict(property=p["id"], reason=NA.get(p["id"], "No check built yet; model checking applies, the exploration has not been written.")) for p in props if p["id"] not in have]
json.dump({k: v for k, v in M.items()}, open(os.path.join(ROOT, "checks", "meta.json"), "w"), indent=1)
full = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.split("\n")
hooks = [l.split()[0] for l in full if "Verification hook" in l]
json.dump(dict(version=1, setup_cmd="python3 -m py_compile bin/check.py bin/build.py",
    hooks=dict(guard="VCTRS_VERIF", enable="bin/build.py, variants small and asan, compile a private copy of src/ with -DVCTRS_VERIF (smaller algorithm-selection thresholds and initial buffer sizes)", source_commits=hooks),
    checks=checks, not_applicable=na,
    notes="See DESIGN.md. Every check builds a private copy of vctrs from /repo's working tree; /repo is never written."),
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
miss = [i for i in have if i not in M]
print(len(have), "claimed;", "no text for", miss)
