#!/usr/bin/env python3
"""Runs checks against edited scratch copies of /repo (never /repo itself).

selftest/variants/<file>.py defines GOOD and BAD: lists of (name, [property ids], [(file, old, new), ...]).
GOOD edits keep the behaviour: every listed check (default: all) must stay quiet.  BAD edits break it: at least
one listed check must report.  usage: run.py [-j N] [-k substring] [-c IDs] [file ...]
"""
import importlib.util, os, re, shutil, subprocess, sys, argparse, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=4)
ap.add_argument("-k", default="")
ap.add_argument("-c", default="")
ap.add_argument("-v", action="store_true")
ap.add_argument("files", nargs="*")
o = ap.parse_args()
allids = sorted(f[:-3] for f in os.listdir(os.path.join(V, "rules")) if re.match(r"[A-Z]\d+\.py$", f))
jobs = queue.Queue()
vd = os.path.join(V, "selftest", "variants")
for f in sorted(os.listdir(vd)):
    if not f.endswith(".py") or (o.files and f[:-3] not in o.files):
        continue
    sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(vd, f))
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for kind in ("GOOD", "BAD"):
        for name, ids, edits in getattr(m, kind, []):
            if o.k and o.k not in name:
                continue
            jobs.put((f[:-3], kind, name, ids, edits))
res = []
lock = threading.Lock()
def worker(w):
    root = os.environ.get("SELFTEST_ROOT", "/tmp/selftest") + "/w%d" % w
    repo, build, ver = root + "/repo", root + "/build", root + "/verif"
    os.makedirs(root, exist_ok=True)
    if not os.path.exists(build):
        subprocess.check_call(["cp", "-a", os.path.join(V, "build"), build])
        shutil.rmtree(build + "/facts", ignore_errors=True)
    while True:
        try:
            f, kind, name, ids, edits = jobs.get_nowait()
        except queue.Empty:
            return
        shutil.rmtree(repo, ignore_errors=True)
        subprocess.check_call("mkdir -p %s && cd %s && git ls-files | tar cf - -T - | tar xf - -C %s && cp Cargo.lock %s" % (repo, os.environ.get("SELFTEST_REPO", "/repo"), repo, repo), shell=True)
        shutil.rmtree(ver, ignore_errors=True)
        subprocess.check_call("mkdir -p %s && cp -r %s/an %s/rules %s/check.py %s/driver %s && cp %s/known-findings.txt %s 2>/dev/null || true" % (ver, V, V, V, V, ver, V, ver), shell=True)
        err = None
        for fn, old, new in edits:
            p = os.path.join(repo, fn)
            t = open(p).read()
            if t.count(old) < 1:
                err = "edit does not apply: %s: %r" % (fn, old[:60]); break
            t = t.replace(old, new, 1)
            open(p, "w").write(t)
        line = []
        if not err:
            env = dict(os.environ, CRES_REPO=repo, CRES_BUILD=build)
            todo = o.c.split(",") if o.c else (ids or allids)
            hit = False
            for i in todo:
                try:
                    r = subprocess.run([sys.executable, "check.py", i], cwd=ver, env=env, text=True, capture_output=True, timeout=900)
                except subprocess.TimeoutExpired:
                    line.append(i + ":timeout"); continue
                v = r.returncode != 0
                hit = hit or v
                if "cargo check" in r.stdout and "failed" in r.stdout:
                    err = "does not compile: " + r.stdout[-1500:]; break
                if (v and kind == "GOOD") or (o.v and v):
                    line.append(i + " ALARM\n      " + "\n      ".join(r.stdout.strip().splitlines()[:6])[:1800])
            bad = (kind == "BAD" and not hit) or (kind == "GOOD" and hit)
            if kind == "BAD" and not hit:
                line.append("MISSED by " + ",".join(todo))
        with lock:
            ok = not err and not bad
            res.append((ok, kind, name))
            print(("ok   " if ok else "FAIL ") + "%s %s/%s %s %s" % (kind, f, name, err or "", " ".join(line)), flush=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(o.j)]
[t.start() for t in ts]; [t.join() for t in ts]
print("%d of %d as expected" % (sum(1 for r in res if r[0]), len(res)))
sys.exit(0 if all(r[0] for r in res) else 1)
