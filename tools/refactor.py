#!/usr/bin/env python3
"""Mechanical behaviour-keeping rewrites (tools/refactor) of /repo's sources; every check has to stay quiet on them.
usage: refactor.py [-j N] [-n SITES] [-b BATCH] [-s SEED] [-k KIND,KIND] [-f file,file] OUT"""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=5)
ap.add_argument("-n", type=int, default=400)
ap.add_argument("-b", type=int, default=6)
ap.add_argument("-s", type=int, default=1)
ap.add_argument("-k", default="")
ap.add_argument("-f", default="")
ap.add_argument("out")
o = ap.parse_args()
random.seed(o.s)
REPO, TGT = "/repo", "/tmp/rft"
subprocess.check_call("cargo build -q --offline --release --manifest-path %s/tools/refactor/Cargo.toml" % V, shell=True, env=dict(os.environ, CARGO_TARGET_DIR=TGT))
BIN = TGT + "/release/refactor"
SKIP = {"src/ntuple.rs", "src/lib.rs", "src/prelude.rs", "src/bin/shell_completion.rs", "src/progress_bar.rs"}
files = o.f.split(",") if o.f else sorted(f for f in subprocess.check_output("git ls-files src", shell=True, cwd=REPO, text=True).split() if f.endswith(".rs") and f not in SKIP)
sites = []
for f in files:
    for l in subprocess.check_output([BIN, "list", os.path.join(REPO, f)], text=True).splitlines():
        k, i, ln = l.split()
        if o.k and k not in o.k.split(","):
            continue
        sites.append((f, k, int(i), int(ln)))
random.shuffle(sites)
print(len(sites), "sites")
sites = sites[:o.n]
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
jobs = queue.Queue()
for i in range(0, len(sites), o.b):
    jobs.put(sites[i:i + o.b])
lock = threading.Lock()
cnt = {"quiet": 0, "nocompile": 0, "ALARM": 0}
out = open(o.out, "a")

def worker(w):
    root = "/tmp/rf/w%d" % w
    repo, build, ver = root + "/repo", root + "/build", root + "/verif"
    os.makedirs(root, exist_ok=True)
    if not os.path.exists(build):
        subprocess.check_call(["cp", "-a", os.path.join(V, "build"), build])
    shutil.rmtree(build + "/facts", ignore_errors=True)
    shutil.rmtree(ver, ignore_errors=True)
    subprocess.check_call("mkdir -p %s && cp -r %s/an %s/rules %s/check.py %s/driver %s && cp %s/known-findings.txt %s" % (ver, V, V, V, V, ver, V, ver), shell=True)
    env = dict(os.environ, CRES_REPO=repo, CRES_BUILD=build)

    def setup(batch):
        shutil.rmtree(repo, ignore_errors=True)
        shutil.rmtree(build + "/facts", ignore_errors=True)
        subprocess.check_call("mkdir -p %s && cd %s && git ls-files | tar cf - -T - | tar xf - -C %s && cp Cargo.lock %s" % (repo, REPO, repo, repo), shell=True)
        for f in {x[0] for x in batch}:
            r = subprocess.run([BIN, "apply", os.path.join(REPO, f)] + ["%s:%d" % x[1:3] for x in batch if x[0] == f], text=True, capture_output=True)
            if r.returncode:
                return False
            open(os.path.join(repo, f), "w").write(r.stdout)
        return True

    def run(batch, cs):
        """None: does not compile; list of (check, message)"""
        if not setup(batch):
            return None
        bad = []
        for c in cs:
            try:
                r = subprocess.run([sys.executable, "check.py", c], cwd=ver, env=env, text=True, capture_output=True, timeout=900)
            except subprocess.TimeoutExpired:
                bad.append((c, "timeout"))
                continue
            if r.returncode:
                if "cargo check" in r.stdout and "failed" in r.stdout:
                    return None
                bad.append((c, r.stdout[:300].replace("\n", " | ")))
        return bad

    def go(batch, cs):
        bad = run(batch, cs)
        if bad == []:
            with lock:
                cnt["quiet"] += len(batch)
            return
        if len(batch) == 1:
            with lock:
                st = "nocompile" if bad is None else "ALARM"
                cnt[st] += 1
                f, k, i, ln = batch[0]
                out.write("%s\t%s:%d\t%s:%d\t%s\n" % (st, f, ln, k, i, "; ".join("%s %s" % b for b in bad or [])[:700]))
                out.flush()
            return
        h = len(batch) // 2
        go(batch[:h], cs if bad is None else [b[0] for b in bad])
        go(batch[h:], cs if bad is None else [b[0] for b in bad])

    while True:
        try:
            b = jobs.get_nowait()
        except queue.Empty:
            return
        go(b, ids)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(o.j)]
[t.start() for t in ts]; [t.join() for t in ts]
print(len(sites), cnt)
