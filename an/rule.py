"""Obligations, evidence and verdicts shared by all rules."""
import json, os, sys, time, traceback
from . import extract
from .facts import Facts
from .interp import Interp, norm_path
from .models import M

VERIF = extract.VERIF


class Missing(Exception):
    """an anchor the rule needs is not in the current source"""


class A:
    """analysis context of one check run"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []          # (key, ok, where, detail)
        self._facts = {}
        self.extract_s = 0.0
        self.tree = None
        self.analysed = set()
        self.paths = 0
        self.notes = []

    # ---- facts and interpretation
    def facts(self, fs="full", crates=("cres",)):
        k = (fs, tuple(crates))
        if k not in self._facts:
            d, key, s = extract.facts_dir(fs)
            self.tree, self.extract_s = key, self.extract_s + s
            self._facts[k] = Facts(d, crates)
        return self._facts[k]

    def body(self, name, F=None):
        F = F or self.facts()
        bs = [b for b in F.by_name(name)]
        if not bs:
            bs = [i for n, ids in F.names.items() for i in ids if norm_path(n) == name]
        if not bs:
            raise Missing("no function %s in the compiled program" % name)
        return F.bodies[bs[0]]

    def impl(self, trait_item, self_sub, F=None):
        """the body implementing `trait_item` for the self type whose printed form contains self_sub"""
        F = F or self.facts()
        bs = [b for b in F.impls.get(trait_item, []) if self_sub in str(b.get("impl_self"))]
        if not bs:
            raise Missing("no implementation of %s for %s" % (trait_item, self_sub))
        return bs[0]

    def interp(self, body, F=None, opaque=(), hooks=None, args=None, st=None, logs=False):
        F = F or self.facts()
        if isinstance(body, str):
            body = self.body(body, F)
        I = Interp(F, M, opaque)
        I.logs = logs
        if hooks:
            I.hooks.update(hooks)
        kw = {}
        if args is not None:
            kw["args"] = args
        if st is not None:
            kw["st"] = st
        I.result = I.run(body, **kw)
        I.entry = body
        for f in I.analysed:
            self.analysed.add(f)
        self.analysed.add(body["id"])
        return I

    # ---- obligations
    def ob(self, rule, subject, ok, where="", detail=""):
        self.obs.append(("%s@%s" % (rule, subject), bool(ok), where, detail))
        return bool(ok)

    def fail(self, rule, subject, where="", detail=""):
        return self.ob(rule, subject, False, where, detail)


def where(body_or_ev):
    if isinstance(body_or_ev, dict):
        sp = body_or_ev.get("span")
        return "%s (%s)" % (body_or_ev.get("name", body_or_ev.get("id")), fmt_span(sp))
    e = body_or_ev
    return "%s (%s)" % (e.fn, fmt_span(e.span))


def fmt_span(sp):
    if not sp:
        return "?"
    if isinstance(sp, (list, tuple)):
        return ":".join(str(x) for x in sp[:2])
    return str(sp)


def load_known():
    """known-findings.txt: `finding: property=<id> <key> -- <what fails>` / `fixed: property=<id> <commit> <what failed>`"""
    known = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property="):
                rest = line[len("finding: property="):]
                pid, rest = rest.split(" ", 1)
                key, _, what = rest.partition(" -- ")
                known[(pid, key.strip())] = what.strip()
    return known


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(200000)
    import importlib
    mod = importlib.import_module("rules." + pid)
    a = A(pid, tier)
    try:
        mod.check(a)
    except (Missing, extract.ExtractError) as e:
        a.fail("anchor", type(e).__name__, "", str(e))
    except Exception as e:
        tb = traceback.format_exc()
        a.fail("analysis", type(e).__name__, "", tb[-1500:])
        sys.stderr.write(tb)
    known = load_known()
    bad, kf = [], []
    seen = set()
    for key, ok, wh, det in a.obs:
        if ok:
            continue
        if (pid, key) in known:
            if key not in seen:
                kf.append((key, known[(pid, key)]))
        else:
            bad.append((key, wh, det))
        seen.add(key)
    if not a.obs:
        bad.append(("anchor@none", "", "the rule produced no obligation"))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rep = os.path.join(VERIF, "evidence", pid + ".report.txt")
    with open(rep, "w") as f:
        f.write("property %s, tree %s\n" % (pid, a.tree))
        for key, wh, det in bad:
            f.write("VIOLATED %s\n  at %s\n  %s\n" % (key, wh, det))
        for key, ok, wh, det in a.obs:
            if ok:
                f.write("ok %s  [%s] %s\n" % (key, wh, det[:300]))
    nd = sum(1 for o in a.obs if o[1])
    fns = sorted(a.analysed)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL if hasattr(mod, "LEVEL") else "other",
        "wall_s": round(time.time() - t0, 2),
        "explanation": " ".join(mod.__doc__.split())[:3000],
        "coverage": {
            "tree": a.tree, "obligations": len(a.obs), "discharged": nd,
            "functions_analysed": len(fns), "functions": [f[:160] for f in fns][:150],
            "obligation_keys": [o[0] for o in a.obs][:200],
            "known_findings": [k for k, _ in kf], "violations": [b[0] for b in bad][:50],
        },
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for key, what in kf:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, what, key))
    for key, wh, det in bad[:12]:
        print("  %s at %s: %s" % (key, wh, det.strip()[:600]))
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("ok property=%s obligations=%d functions=%d wall=%.1fs" % (pid, len(a.obs), len(fns), time.time() - t0))
    return 0
