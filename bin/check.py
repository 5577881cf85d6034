#!/usr/bin/env python3
"""Run one check: build vctrs from /repo's working tree, explore, report.

usage: check.py ID [--jobs REGEX] [--only JOB] [--keep] [--lib DIR] [--workers N]
exit 0: property held on everything explored; 1: VIOLATION; 2: error of the check
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, glob, resource, atexit

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
T0 = time.time()
sys.path.insert(0, os.path.join(ROOT, "bin"))
import build  # noqa: E402

def opt(name, default=None):
    if name in sys.argv:
        return sys.argv[sys.argv.index(name) + 1]
    return default

ID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
os.environ["VERIF_TIER"] = TIER
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NW = int(opt("--workers", os.environ.get("VERIF_WORKERS", "8")))
META = json.load(open(os.path.join(ROOT, "checks", "meta.json"))).get(ID, {})
JOB_LIMIT = META.get("job_limit", 240) if TIER == "quick" else 3000      # one job, shared machine
ALONE_LIMIT = 300 if TIER == "quick" else 3600    # one job, running alone
TOTAL_LIMIT = 420 if TIER == "quick" else 7200    # first pass of all jobs

work = tempfile.mkdtemp(prefix="verif_%s_" % ID)
if "--keep" not in sys.argv:
    atexit.register(lambda: shutil.rmtree(work, ignore_errors=True))
out = os.path.join(work, "out")
os.makedirs(out)

def die(msg):
    print("ERROR:", msg)
    sys.stdout.flush()
    sys.exit(2)

# one private build of vctrs per variant, all from the same working tree
VARIANTS = META.get("builds", ["plain"])
libs = {}
def _build(v):
    w = os.path.join(work, "b_" + v)
    os.makedirs(w)
    libs[v] = os.path.join(w, "lib")
    return build.build(REPO, w, libs[v], v)
if opt("--lib"):
    libs = {v: opt("--lib") for v in VARIANTS}
else:
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(len(VARIANTS)) as ex:
        for ok, log in ex.map(_build, VARIANTS):
            if not ok:
                print(log[-3000:])
                die("vctrs does not build")
tbuild = time.time() - T0

env = dict(os.environ)
env.update(VERIF_ROOT=ROOT, VERIF_REPO=REPO, LC_ALL="C.UTF-8", LANG="C.UTF-8", TZ="UTC",
           R_LIBS_USER="/nonexistent", R_PROFILE_USER="/nonexistent",
           R_ENVIRON_USER="/nonexistent", VERIF_WORK=work, OMP_NUM_THREADS="1",
           R_CStackLimit="16M")
env.update(META.get("env", {}))

def limits(v):
    os.setsid()
    if not v.endswith("asan"):
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def noaslr():
    # deterministic addresses (string hashes are pointer based) where permitted
    try:
        r = subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return ["setarch", "-R"] if r.returncode == 0 else []
    except Exception:
        return []
PRE = noaslr()

def prefix(v):
    return "" if len(VARIANTS) == 1 else v + ":"

offset = {}
def start(v, outdir, wid, *extra):
    log = open(os.path.join(outdir, "log_%s.txt" % wid), "ab")
    e = dict(env, R_LIBS=libs[v], VERIF_LIB=libs[v], VERIF_VARIANT=v)
    if v.endswith("asan"):
        e.update(build.asan_env())
    p = subprocess.Popen(PRE + ["Rscript", "--no-init-file", "--no-save", os.path.join(ROOT, "lib/worker.R"), ID, libs[v], outdir, str(wid),
                         "variant=" + v, "prefix=" + prefix(v), "offset=%d" % offset.get(v, 0)] + list(extra),
                         env=e, stdout=log, stderr=log, cwd=work, preexec_fn=lambda: limits(v))
    p.variant = v
    return p

def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()

def tail(outdir, wid, n=1500):
    try:
        return open(os.path.join(outdir, "log_%s.txt" % wid), errors="replace").read()[-n:]
    except OSError:
        return ""

# ---- job list
lp = [(v, start(v, out, "list_" + v, "list=1")) for v in VARIANTS]
jobs = []
variant_of = {}
for v, p in lp:
    try:
        p.wait(120)
    except subprocess.TimeoutExpired:
        kill(p)
    f = os.path.join(out, "jobs_%s.txt" % v)
    if not os.path.exists(f):
        print(tail(out, "list_" + v, 3000))
        die("cannot load the check")
    offset[v] = len(jobs)
    for l in open(f).read().splitlines():
        jobs.append(l.split("\t")[0])
        variant_of[jobs[-1]] = v
ids = {j: i + 1 for i, j in enumerate(jobs)}
rx = opt("--jobs")
if rx:
    for j in jobs:
        if not re.search(rx, j):
            os.makedirs(os.path.join(out, "lock%d" % ids[j]))
sel = [j for j in jobs if not rx or re.search(rx, j)]

# ---- first pass: pool of workers
broken = {}   # job -> (kind, detail)
procs = {}
nextid = 0
for v in VARIANTS:
    for _ in range(min(NW, sum(variant_of[j] == v for j in sel))):
        procs[nextid] = start(v, out, nextid); nextid += 1
t_first = time.time()

def inprog(wid):
    for f in glob.glob(os.path.join(out, "start*")):
        try:
            l = open(f).read().splitlines()
        except OSError:
            continue
        if len(l) >= 3 and l[0] == str(wid):
            i = int(os.path.basename(f)[5:])
            if not os.path.exists(os.path.join(out, "done%d.json" % i)) and l[1] not in broken:
                return l[1], float(l[2])
    return None, None

def found():
    """memory errors spread: the first one decides"""
    if broken and any(k == "crash" for k, _ in broken.values()):
        return True
    for f in glob.glob(os.path.join(out, "done*.json")):
        if '"fails":[{' in open(f).read():
            return True
    return False

loops = 0
while procs:
    time.sleep(0.1)
    loops += 1
    if META.get("fast_fail") and loops % 30 == 0 and found():
        for p in procs.values():
            kill(p)
        break
    for wid, p in list(procs.items()):
        rc = p.poll()
        if rc is None:
            j, ts = inprog(wid) if int(time.time() * 10) % 20 == 0 else (None, None)
            if j and (time.time() - ts > JOB_LIMIT or time.time() - t_first > TOTAL_LIMIT):
                kill(p)
                broken[j] = ("hang", "no result after %d s" % (time.time() - ts))
                del procs[wid]
                if time.time() - t_first < TOTAL_LIMIT:
                    procs[nextid] = start(p.variant, out, nextid); nextid += 1
            continue
        del procs[wid]
        if rc != 0:
            j, ts = inprog(wid)
            if j is None:
                print(tail(out, wid, 3000))
                die("worker ended with status %s outside of a job" % rc)
            broken[j] = ("crash", "worker ended with status %s: %s" % (rc, tail(out, wid)))
            if len(broken) < 6:
                procs[nextid] = start(p.variant, out, nextid); nextid += 1

results = {}
for j in sel:
    f = os.path.join(out, "done%d.json" % ids[j])
    if os.path.exists(f):
        results[j] = json.load(open(f))

# ---- confirmation pass
violations = []   # (title, text, files)
rdir = os.path.join(ROOT, "replays", ID)

def alone(j, limit, trace=True):
    d = tempfile.mkdtemp(dir=work)
    tr = os.path.join(d, "trace.txt")
    extra = ["only=" + j] + (["trace=" + tr] if trace else [])
    p = start(variant_of[j], d, "alone", *extra)
    try:
        rc = p.wait(limit)
        kind = "ok" if rc == 0 else "crash"
    except subprocess.TimeoutExpired:
        kill(p); rc = None; kind = "hang"
    f = os.path.join(d, "done%d.json" % ids[j])
    res = json.load(open(f)) if os.path.exists(f) else None
    return kind, rc, res, d, tr

deadline = T0 + (840 if TIER == "quick" else 20000)
nconf = 0
def left():
    return max(20, min(ALONE_LIMIT, deadline - time.time()))

proven = any(r["fails"] for r in results.values())
for j, (kind, detail) in sorted(broken.items(), key=lambda b: b[1][0] == "hang"):
    if (violations or proven) and (kind == "hang" or time.time() - T0 > 300):
        continue      # further consequences of what is reported anyway
    k2, rc, res, d, tr = alone(j, left(), trace=(kind == "crash"))
    if k2 == "ok" and res is not None and kind == "hang":
        results[j] = res        # slow, not stuck
        continue
    if k2 == "ok":
        k2, rc, res, d, tr = alone(j, left(), trace=False)
    t = open(tr, errors="replace").read() if os.path.exists(tr) else "job: %s\n" % j
    if k2 == "ok" and res is not None:
        results[j] = res
        if kind == "crash":
            violations.append((j, "%s\n(not reproduced when the job runs alone)\n%s" % (detail, t), []))
        continue
    why = ("the process died with status %s" % rc) if k2 == "crash" else "no answer within %d s, alone on the machine" % left()
    violations.append((j, t + "result: " + why + "\n" + tail(d, "alone"), [tr + ".rds"]))

for j in sel:
    r = results.get(j)
    if not r:
        continue
    if r["error"]:
        # the harness itself stopped: real code returned something no model state admits
        if nconf >= 3:
            violations.append((j, "job: %s\nunexpected error: %s\n" % (j, r["error"]), []))
            continue
        nconf += 1
        k2, rc, res, d, tr = alone(j, left())
        if k2 == "ok" and res and not res["error"] and not res["fails"]:
            print("note: job %s: error not reproduced: %s" % (j, r["error"]))
        t = open(tr, errors="replace").read() if os.path.exists(tr) else ""
        violations.append((j, "job: %s\nunexpected error: %s\nlast traced call:\n%s" % (j, r["error"], t), []))
    if r["fails"]:
        rep = ""
        if nconf < 2:
            nconf += 1
            k2, rc, res, d, tr = alone(j, left(), trace=False)
            keys = [f["key"] for f in (res or {}).get("fails", [])]
            rep = "replayed in a fresh process: " + ("yes" if any(f["key"] in keys for f in r["fails"]) else "NO (%s)" % k2)
        for k, f in enumerate(r["fails"]):
            violations.append((j, f["text"] + rep + "\n", [os.path.join(out, "fail_%d_%d.rds" % (ids[j], k + 1))]))

missing = [j for j in sel if j not in results and j not in broken]
known = sorted({k for r in results.values() for k in r.get("known", [])})

# ---- known findings: every listed finding is reported
kf = os.path.join(ROOT, "known_findings.json")
listed = [e for e in (json.load(open(kf))["known"] if os.path.exists(kf) else []) if e["property"] == ID]
for e in listed:
    state = "" if e["key"] in known else " (not reached in this run)"
    print("KNOWN-FINDING: property=%s %s%s" % (ID, e["what"], state))

# ---- evidence
tot = lambda k: int(sum(r[k] for r in results.values()))
samples = []
for r in results.values():
    for s in r.get("samples") or []:
        samples.append("%s: %s" % (r["job"], s))
samples = samples[:: max(1, len(samples) // 12)][:12]
if not samples:
    samples = ["job " + j for j in sel[:3]]
ev = {
    "property": ID, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": META.get("level", "model_checking"),
    "coverage": {
        "states": tot("states"), "transitions": tot("trans"),
        "traces_validated_against_impl": tot("impl"),
        "evaluations": tot("impl"), "distinct_nontrivial": tot("states"),
        "rule": META.get("rule", ""), "distinct_outcomes": tot("outcomes"),
        "exhaustive": not missing and not rx and not broken,
        "samples": samples,
        "jobs": {j: {"states": int(r["states"]), "transitions": int(r["trans"]), "impl_calls": int(r["impl"]), "wall_s": round(r["wall"], 2)} for j, r in results.items()},
        "bounds": META.get("bounds", ""),
    },
    "assumptions": META.get("assumptions", []),
    "wall_s": round(time.time() - T0, 2),
    "violations": len(violations),
}
if ev["level"] == "model_checking":
    for k in ("evaluations", "distinct_nontrivial"):
        del ev["coverage"][k]
edir = os.path.join(ROOT, "evidence")
os.makedirs(edir, exist_ok=True)
tmp = os.path.join(edir, ".%s.tmp" % ID)
json.dump(ev, open(tmp, "w"), indent=1)
os.replace(tmp, os.path.join(edir, ID + ".json"))

print("%s: %d jobs, %d states, %d transitions, %d executions of the real code, build %.1f s, total %.1f s" % (
    ID, len(results), tot("states"), tot("trans"), tot("impl"), tbuild, time.time() - T0))
if "--times" in sys.argv:
    for j, r in sorted(results.items(), key=lambda kv: -kv[1]["wall"])[:40]:
        print("  %7.2f s  %9d impl  %9d states  %s" % (r["wall"], r["impl"], r["states"], j))

if violations:
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    for k, (j, text, files) in enumerate(violations[:10]):
        base = os.path.join(rdir, "violation%d" % (k + 1))
        with open(base + ".txt", "w") as w:
            w.write("property: %s\nreplay: python3 bin/check.py %s --jobs '^%s$'\n%s" % (ID, ID, j, text))
        for f in files:
            if os.path.exists(f):
                shutil.copy(f, base + ".rds")
        if k < 4:
            print("---- " + text[:1800])
    print("VIOLATION property=%s replay=%s" % (ID, os.path.join(rdir, "violation1.txt")))
    sys.stdout.flush()
    sys.exit(1)
if missing:
    die("no result for jobs: " + ", ".join(missing))
print("OK")
