#!/usr/bin/env python3
"""plant.py SPEC...: makes and validates /verif/seeded/<id>/ from a spec (id, property, edits, demo source).

A spec is a Python file with ID, PROPERTY, EDITS=[(file, old, new)], DEMO (Rust main), NEEDS, BREAKS and optionally
DEMO_SH.  Everything runs in a scratch copy of /repo under /tmp/plant.
plant.py --recheck [ids]: revalidates what is already in seeded/ against /repo's HEAD and runs the property's check.
"""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/plant"
REPO = ROOT + "/repo"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
def fresh():
    os.makedirs(ROOT, exist_ok=True)
    if not os.path.exists(REPO):
        subprocess.check_call(["cp", "-a", "/repo", REPO])
    subprocess.check_call("cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq" % REPO, shell=True)
def build():
    e = sh("sed 's#/repo#%s#g' /opt/vp/env.sh > %s/env.sh; . %s/env.sh; cd %s && cargo test --workspace --no-run --offline --features $FEATURES 2>&1 && cargo check --workspace --all-targets --offline --no-default-features 2>&1" % (REPO, ROOT, ROOT, REPO), executable="/bin/bash")
    return e.returncode == 0, e.stdout[-2500:]
def tests():
    base = json.load(open("/opt/vp/BASELINE.json"))
    e = sh(". %s/env.sh; cd %s && cargo test --workspace --no-fail-fast --offline --features $FEATURES -- --test-threads 8 2>&1" % (ROOT, REPO), executable="/bin/bash")
    bad = [l for l in e.stdout.splitlines() if l.startswith("test ") and l.endswith("FAILED")]
    return bad
def demo(d):
    t = ROOT + "/demo"
    shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            p = os.path.join(d, f)
            (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, os.path.join(t, f))
    r = sh("bash %s/demo.sh" % t, cwd=REPO)
    return r.returncode, (r.stdout + r.stderr)[-1500:]
def check(pid):
    b = ROOT + "/build"
    if not os.path.exists(b):
        subprocess.check_call(["cp", "-a", V + "/build", b])
    r = sh("%s %s/check.py %s" % (sys.executable, V, pid), env=dict(os.environ, CRES_REPO=REPO, CRES_BUILD=b))
    return r.returncode, r.stdout
def validate(pid_dir, skip_clean=False):
    meta = json.load(open(pid_dir + "/meta.json"))
    fresh()
    ok, log = build()
    assert ok, log
    rc, out = demo(pid_dir)
    if rc != 0:
        return "demo fails on the clean tree (%d): %s" % (rc, out)
    r = sh("git apply %s/patch.diff" % pid_dir, cwd=REPO)
    if r.returncode:
        return "patch does not apply: " + r.stderr
    ok, log = build()
    if not ok:
        return "does not build: " + log
    bad = tests()
    if bad:
        return "tests fail: %s" % bad
    rc, out = demo(pid_dir)
    if rc == 0:
        return "demo passes with the patch: " + out
    if rc == 3:
        return "demo does not build with the patch: " + out
    rc, cout = check(meta["property"])
    return ("CAUGHT" if rc == 1 else "MISSED") + "  demo: " + out.strip()[-160:].replace("\n", " | ") + "\n      " + cout.strip()[:500]
if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--recheck":
        ids = a[1:] or sorted(d for d in os.listdir(V + "/seeded") if os.path.isdir(V + "/seeded/" + d))
        for i in ids:
            print(i, validate(V + "/seeded/" + i), flush=True)
        sys.exit()
    for f in a:
        s = runpy.run_path(f)
        d = V + "/seeded/" + s["ID"]
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        fresh()
        for fn, old, new in s["EDITS"]:
            p = os.path.join(REPO, fn)
            t = open(p).read()
            assert t.count(old) >= 1, (fn, old)
            open(p, "w").write(t.replace(old, new, 1))
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=REPO).stdout)
        if s.get("DEMO_SH"):
            open(d + "/demo.sh", "w").write(s["DEMO_SH"])
        else:
            shutil.copy(V + "/tools/demo_template.sh", d + "/demo.sh")
        for n, c in s.get("FILES", {}).items():
            open(d + "/" + n, "w").write(c)
        if "DEMO" in s:
            open(d + "/demo.rs", "w").write(s["DEMO"])
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        print(s["ID"], validate(d), flush=True)
