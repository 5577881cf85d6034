#!/usr/bin/env python3
"""mut.py SPEC.json: try edits of /repo in throw-away copies.
SPEC: list of {name, file, old, new, [n], checks: [ids]}. For each edit that compiles: do the stable
tests pass (in a private mount namespace where the copy is /repo), and which of the checks catch it?"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
J = int(os.environ.get("J", "2")); ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def one(m):
    d = tempfile.mkdtemp(prefix="mut_"); r = os.path.join(d, "repo"); msg = m["name"] + ": "
    try:
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        if m.get("patch"):
            if subprocess.run(["git", "-C", r, "apply", m["patch"]]).returncode: return msg + "patch does not apply"
        else:
            p = os.path.join(r, m["file"]); s = open(p).read()
            if s.count(m["old"]) <= m.get("n", 0): return msg + "text not found"
            parts = s.split(m["old"]); k = m.get("n", 0) + 1
            open(p, "w").write(m["old"].join(parts[:k]) + m["new"] + m["old"].join(parts[k:]))
        if not m.get("notests"):
            o = os.path.join(d, "o.json")
            subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && bash /opt/vp/test.sh %s" % (r, o)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            ok = set(json.load(open(o))["passed"]); bad = sorted(base - ok)
            msg += "tests %s" % ("PASS" if not bad else "fail %d %s" % (len(bad), bad[:2]))
            if bad and not m.get("always"): return msg
        for c in m.get("checks", []):
            w = tempfile.mkdtemp(prefix="mutv_", dir=d)
            for x in ("bin", "lib", "checks", "known_findings.json"):
                s = os.path.join(ROOT, x)
                (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(w, x))
            q = subprocess.run(["python3", w + "/bin/check.py", c, "--workers", str(max(2, 8 // J))], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
            msg += "; %s rc=%d" % (c, q.returncode)
            if q.returncode == 1 and os.environ.get("V"): msg += "\n" + "\n".join(l[:400] for l in q.stdout.splitlines() if l.startswith(("call:", "got:", "want:")))[:1500] + "\n"
            if q.returncode not in (0, 1): msg += " " + q.stdout[-500:]
        return msg
    finally:
        shutil.rmtree(d, ignore_errors=True)
ms = json.load(open(sys.argv[1])) if sys.argv[1].endswith("json") else eval(open(sys.argv[1]).read())
with ThreadPoolExecutor(J) as ex:
    for r in ex.map(one, ms): print(r, flush=True)
