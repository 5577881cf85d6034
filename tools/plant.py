#!/usr/bin/env python3
"""plant.py SPEC: plants bugs in throw-away copies of /repo. SPEC is a Python list of
dict(id, prop, needs, breaks, edits=[(file, old, new[, n])], demo=R code that stops when the bug is there).
Keeps seeded/<id> if the patch builds, passes the stable tests and the demo tells the trees apart; then tries the check."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
J = int(os.environ.get("J", "3")); ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '#!/bin/bash\nexport R_LIBS="$PWD/_build/lib" R_LIBS_USER=/nonexistent LC_ALL=C.UTF-8 TZ=UTC\nexec timeout 250 Rscript --no-init-file "$(cd "$(dirname "$0")" && pwd)/demo.R"\n'
def sh(r, cmd): return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (r, cmd)], capture_output=True, text=True)
def one(m):
    d = tempfile.mkdtemp(prefix="mut_"); r = os.path.join(d, "repo"); msg = m["id"] + " " + m["prop"] + ": "
    try:
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        for e in m["edits"]:
            f, old, new = e[:3]; n = e[3] if len(e) > 3 else 0
            p = os.path.join(r, f); s = open(p).read(); parts = s.split(old)
            if len(parts) <= n + 1: return msg + "TEXT NOT FOUND in " + f
            open(p, "w").write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
        s = os.path.join(d, "seed"); os.mkdir(s)
        open(s + "/demo.R", "w").write(m["demo"]); open(s + "/demo.sh", "w").write(DEMO); os.chmod(s + "/demo.sh", 0o755)
        json.dump(dict(property=m["prop"], needs=m["needs"], what_it_breaks=m["breaks"]), open(s + "/meta.json", "w"), indent=1)
        open(s + "/patch.diff", "w").write(subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout)
        sh(r, "bash /opt/vp/test.sh %s/o.json" % d)
        try: bad = sorted(base - set(json.load(open(d + "/o.json"))["passed"]))
        except Exception: return msg + "DOES NOT BUILD"
        q = sh(r, "bash %s/demo.sh" % s); q2 = subprocess.run(["bash", s + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        ok = not bad and q.returncode != 0 and q2.returncode == 0
        msg += "tests %s, demo %d/%d" % ("PASS" if not bad else "fail %d %s" % (len(bad), bad[:2]), q.returncode, q2.returncode)
        if q2.returncode: msg += " " + q2.stderr[-300:]
        if bad: return msg
        if ok: shutil.rmtree(ROOT + "/seeded/" + m["id"], ignore_errors=True); shutil.copytree(s, ROOT + "/seeded/" + m["id"]); msg += " KEPT"
        for c in m.get("checks", [m["prop"]]):
            w = tempfile.mkdtemp(prefix="mutv_", dir=d)
            for x in ("bin", "lib", "checks", "known_findings.json"):
                t = os.path.join(ROOT, x); (shutil.copytree if os.path.isdir(t) else shutil.copy)(t, os.path.join(w, x))
            q = subprocess.run(["python3", w + "/bin/check.py", c, "--workers", str(max(2, 8 // J))], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
            msg += "; %s rc=%d" % (c, q.returncode)
            if q.returncode == 1 and os.environ.get("V"): msg += "\n" + "\n".join(l[:300] for l in q.stdout.splitlines() if l.startswith(("call:", "got:", "want:")))[:900] + "\n"
            if q.returncode not in (0, 1): msg += " " + q.stdout[-500:]
        return msg
    finally: shutil.rmtree(d, ignore_errors=True)
ms = eval(open(sys.argv[1]).read())
with ThreadPoolExecutor(J) as ex:
    for r in ex.map(one, ms): print(r, flush=True)
