"""Runs the compiler driver on /repo's current working tree and caches the facts it writes.

The cache key is a hash of everything the compilation reads from the repository (src/, build.rs,
Cargo.toml, Cargo.lock) and of the driver; a changed tree is always re-extracted.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CRES_REPO", "/repo")
BUILD = os.environ.get("CRES_BUILD", os.path.join(VERIF, "build"))
DRIVER = os.path.join(BUILD, "driver")
TOOLCHAIN = "nightly"

FEATSETS = {
    # name: (cargo arguments, facts files that must appear)
    "full": (["--features", "capi,stripper-xml", "--lib", "--bins"],
             ["cres", "bin_cres", "bin_cres_partition", "bin_cres_classify_events"]),
    "single": (["--no-default-features", "--features", "lhef,stripper-xml", "--lib"], ["cres"]),
}


class ExtractError(Exception):
    pass


def tree_hash(repo=REPO):
    h = hashlib.sha256()
    files = []
    for base, dirs, names in os.walk(os.path.join(repo, "src")):
        dirs.sort()
        for n in sorted(names):
            files.append(os.path.join(base, n))
    for n in ("build.rs", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(repo, n)
        if os.path.exists(p):
            files.append(p)
    for p in files:
        h.update(os.path.relpath(p, repo).encode() + b"\0")
        with open(p, "rb") as f:
            d = f.read()
        h.update(str(len(d)).encode() + b"\0" + d)
    with open(os.path.join(VERIF, "driver", "driver.rs"), "rb") as f:
        h.update(f.read())
    return h.hexdigest()[:24]


def clean_env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUST_LOG", "CARGO_BUILD_RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def sysroot():
    return subprocess.check_output(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"],
                                   env=clean_env(), text=True).strip()


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "driver", "driver.rs")
    stamp = DRIVER + ".sha"
    want = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    r = subprocess.run(["rustc", "+" + TOOLCHAIN, "-O", "-C", "prefer-dynamic", src, "-o", DRIVER],
                       env=clean_env(), text=True, capture_output=True)
    if r.returncode:
        raise ExtractError("driver does not build:\n" + r.stderr[-3000:])
    with open(stamp, "w") as f:
        f.write(want)


def facts_dir(featset, repo=REPO):
    """directory with the facts of `featset` for the current tree; extracts them if needed"""
    args, need = FEATSETS[featset]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(repo, "Cargo.lock")):
            shutil.copy("/opt/vp/Cargo.lock", os.path.join(repo, "Cargo.lock"))
        key = tree_hash(repo)
        out = os.path.join(BUILD, "facts", featset + "-" + key)
        if all(os.path.exists(os.path.join(out, n + ".json")) for n in need) and os.path.exists(os.path.join(out, "ok")):
            return out, key, 0.0
        t = time.time()
        build_driver()
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        target = os.path.join(BUILD, "target-" + featset)
        # the crates under analysis are always compiled anew (both layouts of cargo's build directory)
        for p in glob.glob(os.path.join(target, "debug", ".fingerprint", "cres-*")) + glob.glob(os.path.join(target, "debug", "build", "cres")) \
                + glob.glob(os.path.join(target, "debug", "build", "cres-*")):
            shutil.rmtree(p, ignore_errors=True)
        env = clean_env()
        env["CRES_FACTS_DIR"] = out
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        env["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
        env["CARGO_TARGET_DIR"] = target
        r = subprocess.run(["cargo", "+" + TOOLCHAIN, "check", "--offline"] + args, cwd=repo, env=env,
                           text=True, capture_output=True)
        if r.returncode:
            raise ExtractError("cargo check (%s) failed:\n%s" % (featset, r.stderr[-4000:]))
        miss = [n for n in need if not os.path.exists(os.path.join(out, n + ".json"))]
        if miss:
            raise ExtractError("no facts for %s (%s)" % (miss, featset))
        open(os.path.join(out, "ok"), "w").close()
        # keep the cache small: drop facts of other trees except the newest few
        ds = sorted(glob.glob(os.path.join(BUILD, "facts", featset + "-*")), key=os.path.getmtime)
        for d in ds[:-6]:
            shutil.rmtree(d, ignore_errors=True)
        return out, key, time.time() - t


if __name__ == "__main__":
    build_driver()
    for fs in FEATSETS:
        print(fs, *facts_dir(fs))
