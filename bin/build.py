"""Build vctrs from a source tree into a private library (never inside the tree)."""
import os, subprocess, shutil, glob

FLAGS = {
    "plain": dict(CFLAGS="-g0 -O1 -fno-strict-aliasing", LIBS=""),
    # tiny sorting / buffer thresholds (guarded hook in /repo): every algorithm runs on tiny inputs
    "small": dict(CFLAGS="-g0 -O1 -fno-strict-aliasing -DVCTRS_VERIF", LIBS=""),
    # every call into R that can allocate, fail or evaluate goes through lib/hook.c
    "hook": dict(CFLAGS="-g0 -O1 -fno-strict-aliasing", LIBS=""),
    "hookasan": dict(CFLAGS="-g1 -O1 -fno-omit-frame-pointer -fsanitize=address", LIBS="-fsanitize=address"),
    "hooksmallasan": dict(CFLAGS="-g1 -O1 -fno-omit-frame-pointer -fsanitize=address -DVCTRS_VERIF", LIBS="-fsanitize=address"),
    "asan": dict(CFLAGS="-g1 -O1 -fno-omit-frame-pointer -fsanitize=address", LIBS="-fsanitize=address"),
}

def asan_env():
    so = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    return {"LD_PRELOAD": os.path.realpath(so),
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=0:detect_odr_violation=0:detect_stack_use_after_return=0:quarantine_size_mb=48:max_free_fill_size=4096:free_fill_byte=159"}

def build(repo, work, lib, kind="plain", extra_src=None):
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    pkg = os.path.join(work, "pkg")
    os.makedirs(pkg, exist_ok=True); os.makedirs(lib, exist_ok=True)
    for f in ("DESCRIPTION", "NAMESPACE", "LICENSE", "R", "src", "inst"):
        s = os.path.join(repo, f)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(pkg, f), dirs_exist_ok=True,
                            ignore=shutil.ignore_patterns("*.o", "*.so", "*.d"))
        elif os.path.exists(s):
            shutil.copy(s, os.path.join(pkg, f))
    fl = FLAGS.get(kind, FLAGS["plain"])
    mk = os.path.join(work, "makevars.user")
    lines = ["CC = gcc", "CFLAGS = " + fl["CFLAGS"] + " -w"]
    libs = fl["LIBS"]
    if kind.startswith("hook"):
        # interpose R's allocation and evaluation entry points at link time
        obj = os.path.join(work, "hook.o")
        san = ["-DVH_ASAN"] if kind.endswith("asan") else []
        for cmd in (["gcc", "-O1", "-g0", "-w", "-fpic", "-I/usr/share/R/include"] + san + ["-c", os.path.join(root, "lib/hook.c"), "-o", obj],
                    ["gcc", "-O1", "-g0", "-w", "-fpic", "-shared", "-I/usr/share/R/include", os.path.join(root, "lib/hookctl.c"), "-o", os.path.join(lib, "hookctl.so"), "-ldl"]):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                return False, r.stdout + r.stderr
        names = open(os.path.join(root, "lib/hook.syms")).read().split()
        libs = obj + " " + " ".join("-Wl,--wrap=" + n for n in names) + " " + libs
    if libs:
        lines.append("PKG_LIBS = " + libs)
    open(mk, "w").write("\n".join(lines) + "\n")
    env = dict(os.environ)
    env.update(R_MAKEVARS_USER=mk, MAKEFLAGS="-j8", R_LIBS=lib, R_LIBS_USER="/nonexistent", LC_ALL="C.UTF-8", TZ="UTC")
    r = subprocess.run(["R", "CMD", "INSTALL", "--no-docs", "--no-help", "--no-multiarch", "--no-lock",
                        "--no-test-load", "--no-byte-compile", "--library=" + lib, pkg],
                       env=env, capture_output=True, text=True, cwd=work)
    ok = r.returncode == 0 and os.path.exists(os.path.join(lib, "vctrs", "libs", "vctrs.so"))
    shutil.rmtree(pkg, ignore_errors=True)
    return ok, r.stdout + r.stderr
