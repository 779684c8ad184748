"""Lock analysis in two parts.  (1) Resampling of a cell, both weight layouts: the only lock operations are one exclusive
lock per member, taken in one loop over the members in ascending event order (the ordering predicate of the sort is
extracted), no lock is taken after any guard has been released and no loop both takes and releases; the weight accesses
go through those guards.  (2) Typestate of lock guards over every function of the library and binaries: at every call
made while a weight or event-list guard may be alive, the callee (with everything it reaches) takes no lock and calls no
foreign code (trait methods of user types, closure parameters); resampling itself is exempt from the no-lock clause
because part (1) decides it."""
from an.terms import *
from an.query import *
from an.rule import where
from an import locks


def cell(a, fs):
    F = a.facts(fs)
    I = a.interp("cres::cell::Cell::resample", F)
    W = where(I.entry)
    s = I.params[0]
    lk = [e for e in I.events if e.kind == "lock"]
    if not a.ob("resample-locks", fs + "-one-site", len(lk) == 1, W, "lock operations: " + "; ".join("%s %s" % (e.name, show(e.args[0])[:80]) for e in lk)):
        return
    e = lk[0]
    a.ob("resample-locks", fs + "-exclusive", e.name == "write", where(e), e.name)
    if not a.ob("resample-locks", fs + "-per-member", len(e.loops) == 1, where(e), "loops around the lock: %s" % (e.loops,)):
        return
    L = I.loops[e.loops[0]]
    i = mk("i", L.id)
    t = e.args[0]
    mem = None
    okp = t.op == "fld" and t.a[0].op == "idx"
    if okp:
        mem = t.a[0].a[1]
        okp = mem.op == "idx" and mem.a[1] is i
    seq = mem.a[0] if okp else None
    a.ob("resample-locks", fs + "-member", okp, where(e), show(t)[:200])
    if not okp:
        return
    base = strip_sorted(seq)
    a.ob("resample-locks", fs + "-all-members", L.trip is length(seq) and base.op == "fld" and base.a[0] is s and simp(e.guard, loop_facts(I, e.loops)) is TRUE,
         where(e), "%s of %s" % (show(L.trip) if L.trip else "?", show(base)[:100]))
    oks = seq.op == "sorted"
    if oks:
        less = seq.a[0]
        X, Y = mk("sym", "x"), mk("sym", "y")
        oks = less == "nat" or isinstance(less, T) and (less.op == "ite" and (
            restrict(less, cmp_lt(X, Y)) is TRUE and restrict(less, cmp_lt(Y, X)) is FALSE or
            restrict(less, cmp_lt(X, Y)) is FALSE and restrict(less, cmp_lt(Y, X)) is TRUE))
    a.ob("resample-locks", fs + "-global-order", oks, where(e), "locked in the order " + show(seq)[:200])
    pos = {id(x): k for k, x in enumerate(I.events)}
    rel = [x for x in I.events if x.kind == "drop" and locks.GUARD.search(x.name)]
    early = [x for x in rel if pos[id(x)] < pos[id(e)] or set(x.loops) & set(e.loops)]
    a.ob("resample-locks", fs + "-two-phase", rel and not early, where(early[0]) if early else W,
         "guards released at %d places, none before or between the acquisitions" % len(rel))


def check(a):
    for fs in ("full", "single"):
        cell(a, fs)
    for fs, crates in (("full", None), ("single", ("cres",))):
        cs = crates or BINS
        F = a.facts(fs, cs)
        eff = locks.Effects(F)
        root = [b["id"] for b in F.bodies.values() if b["name"].endswith("Cell::<'a>::resample") or b["name"].endswith("Cell::resample")]
        exempt = set()
        for r in root:
            exempt |= reachable(F, r)
        nsites = nfun = 0
        for k, b in sorted(F.bodies.items()):
            at = locks.held(b)
            if not at:
                continue
            nfun += 1
            calls = {i: (f, span, tys) for i, f, args, dest, span, tys in locks.calls_of(b)}
            for blk, gs in sorted(at.items()):
                if not gs or blk not in calls:
                    continue
                f, span, tys = calls[blk]
                nsites += 1
                W = "%s:%s (%s)" % (b["file"], span[0] if span else "?", b["name"])
                bad = []
                if f is None:
                    bad.append("calls through a function pointer")
                else:
                    it = locks.item(F, f)
                    if it is None:
                        if locks.is_lock(f["path"]):
                            bad.append("takes another lock (%s)" % f["path"])
                        elif locks.is_callback(f["path"], isinstance(f.get("res"), dict) and f["res"].get("k") == "item"):
                            bad.append("calls foreign code (%s)" % f["path"])
                        m = {"lock": [], "callback": []}
                        for ty in tys:
                            if ty and "{closure" in ty:
                                o = owner(k)
                                for c, d in eff.direct.items():
                                    if c == o:
                                        for kind in m:
                                            m[kind] += [x for x in d[kind] if x[0].startswith(k + "::{closure")]
                    else:
                        m = eff.may(it)
                    for kind, txt in (("lock", "takes a lock in"), ("callback", "calls foreign code in")):
                        if m[kind]:
                            if kind == "lock" and owner(k) in exempt:
                                continue
                            bad.append("%s %s (line %s)" % (txt, m[kind][0][0], m[kind][0][1][0] if m[kind][0][1] else "?"))
                if owner(k) in exempt:
                    bad = [x for x in bad if not x.startswith("takes another lock")]
                a.ob("guard-alive", "%s-%s-%s" % (fs, b["name"], f["path"] if f else "?"), not bad, W,
                     "while a guard is alive: " + ("; ".join(bad) or "no lock, no foreign code"))
        a.ob("guards-seen", fs, nfun >= 3, "", "%d functions hold guards, %d calls checked" % (nfun, nsites))
    a.notes.append("functions holding guards and the calls they make while holding them are listed as guard-alive obligations")


BINS = ("cres", "bin_cres", "bin_cres_partition", "bin_cres_classify_events")
