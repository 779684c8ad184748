#!/usr/bin/env python3
"""Mechanical mutants of /repo's sources, run against all checks in scratch copies.  usage: mutate.py [-j N] [-n MAX] [-s SEED] [-f file,file] OUT
Prints one line per mutant that no check reports (SURVIVED) or that makes a check give up; the rest is counted."""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=5)
ap.add_argument("-n", type=int, default=400)
ap.add_argument("-s", type=int, default=1)
ap.add_argument("-f", default="")
ap.add_argument("out")
o = ap.parse_args()
random.seed(o.s)
REPO = "/repo"
SKIP = {"src/ntuple.rs", "src/lib.rs", "src/prelude.rs", "src/bin/shell_completion.rs", "src/progress_bar.rs", "src/c_api/mod.rs"}
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.is_some\(", ".is_none("), (r"\.is_none\(", ".is_some("), (r"\.is_empty\(\)", ".len() == 1"),
       (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\.abs\(\)", ""), (r"\.rev\(\)", ""), (r"\.\.=", ".."), (r"\bif !", "if "), (r"\bif (?=[a-z_.]+\()", "if !"),
       (r"\.unwrap_or_default\(\)", ".unwrap()"), (r"\.saturating_sub\(", ".wrapping_add("), (r"\bSome\((\w+)\) =>", r"Some(\1) if false =>"), (r"\.skip\(1\)", ""), (r"\.enumerate\(\)", ".skip(1).enumerate()"),
       (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().rev()"), (r"\.into_iter\(\)", ".into_iter().skip(1)"), (r"\.clear\(\)", ".len()"), (r"\.map_err\(", ".or_else(|_| Ok(Default::default())).map_err("),
       (r"\?;", ";"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.x\b", ".y"), (r"\.y\b", ".z"), (r"\bpt\b", "mass"), (r"\bpx\b", "py"), (r"(?<![\w.])(\d+)(?![\w.])", lambda m: str(int(m.group(1)) + 1)),
       (r"(?<![\w.])([1-9])(?![\w.])", lambda m: str(int(m.group(1)) - 1)), (r"(\d)\.(\d*)(?![\w.])", lambda m: str(int(m.group(1)) + 1) + "." + m.group(2)), (r"-(?=[a-z(])", ""), (r'"([a-zA-Z<][^"{}]*)"', lambda m: '"' + m.group(1)[:-1] + '"'),
       (r"b'(\w)'", lambda m: "b'%s'" % chr(ord(m.group(1)) + 1)), (r"\bSelf::(\w+)\((\w+), (\w+)\)", r"Self::\1(\3, \2)"), (r"\((\w+), (\w+)\)", r"(\2, \1)")]
mut = []
files = o.f.split(",") if o.f else sorted(f for f in subprocess.check_output("git ls-files src", shell=True, cwd=REPO, text=True).split() if f.endswith(".rs") and f not in SKIP)
for f in files:
    ls = open(os.path.join(REPO, f)).read().split("\n")
    for k, l in enumerate(ls):
        if re.match(r"\s*#\[cfg\(test\)\]", l):
            break
        s = l.strip()
        if not s or s.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod", "debug!", "trace!", "info!", "warn!", "#!")):
            continue
        if re.search(r"debug!\(|info!\(|trace!\(|warn!\(|error\(\"", l):
            continue
        if re.match(r"(pub |impl|fn |type |where|struct|enum|trait|const fn|unsafe impl)", s) and "{" in s and "if" not in s:
            continue
        for p, r in OPS:
            for m in re.finditer(p, l):
                n = l[:m.start()] + (r(m) if callable(r) else m.expand(r)) + l[m.end():]
                if n != l:
                    mut.append((f, k, l, n))
        # statement deleted
        if re.match(r"[a-z_][\w.*]*(\(|\.| [-+*/]?= |!\()", s) and s.endswith(";") and not s.startswith(("let ", "return", "use ", "type ")):
            mut.append((f, k, l, ""))
random.shuffle(mut)
mut = list(dict.fromkeys(mut))[:o.n]
anch = {}
ids = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line); ids.append(p["id"])
    for f in re.findall(r"src/[\w/.-]+\.rs", line):
        anch.setdefault(f, []).append(p["id"]) if p["id"] not in anch.get(f, []) else None
jobs = queue.Queue()
[jobs.put((i, m)) for i, m in enumerate(mut)]
lock = threading.Lock()
cnt = {"caught": 0, "nocompile": 0, "SURVIVED": 0, "ERROR": 0}
out = open(o.out, "a")
def worker(w):
    root = "/tmp/mut/w%d" % w
    repo, build, ver = root + "/repo", root + "/build", root + "/verif"
    os.makedirs(root, exist_ok=True)
    if not os.path.exists(build):
        subprocess.check_call(["cp", "-a", os.path.join(V, "build"), build])
        shutil.rmtree(build + "/facts", ignore_errors=True)
    shutil.rmtree(ver, ignore_errors=True)
    subprocess.check_call("mkdir -p %s && cp -r %s/an %s/rules %s/check.py %s/driver %s && cp %s/known-findings.txt %s" % (ver, V, V, V, V, ver, V, ver), shell=True)
    env = dict(os.environ, CRES_REPO=repo, CRES_BUILD=build)
    while True:
        try:
            i, (f, k, l, n) = jobs.get_nowait()
        except queue.Empty:
            return
        shutil.rmtree(repo, ignore_errors=True)
        shutil.rmtree(build + "/facts", ignore_errors=True)
        subprocess.check_call("mkdir -p %s && cd %s && git ls-files | tar cf - -T - | tar xf - -C %s && cp Cargo.lock %s" % (repo, REPO, repo, repo), shell=True)
        p = os.path.join(repo, f)
        ls = open(p).read().split("\n"); ls[k] = n; open(p, "w").write("\n".join(ls))
        order = anch.get(f, []) + [x for x in ids if x not in anch.get(f, [])]
        st, who = "SURVIVED", ""
        for c in order:
            try:
                r = subprocess.run([sys.executable, "check.py", c], cwd=ver, env=env, text=True, capture_output=True, timeout=900)
            except subprocess.TimeoutExpired:
                st, who = "ERROR", c + " timeout"; break
            if r.returncode:
                if "cargo check" in r.stdout and "failed" in r.stdout:
                    st = "nocompile"
                elif "VIOLATION" in r.stdout and r.returncode == 1:
                    st, who = "caught", c
                    if "Traceback" in r.stdout:
                        who += " " + r.stdout.strip().split("\n")[-2][:120]
                else:
                    st, who = "ERROR", c + " " + r.stdout[-200:]
                break
        with lock:
            cnt[st] += 1
            out.write("%s\t%s\t%s:%d\t%s\t%s\n" % (st, who, f, k + 1, l.strip(), n.strip())); out.flush()
ts = [threading.Thread(target=worker, args=(w,)) for w in range(o.j)]
[t.start() for t in ts]; [t.join() for t in ts]
print(len(mut), cnt)
