"""Value and outcome analysis of Cres::read_events (reached from Cres::run), with the spawned conversion tasks inlined.
For record k of the event source: the event list holds exactly one entry per record, entry = result of converting record k
with the converter, then clustering it, with the id replaced by k; every feasible path to an Ok result leaves every loop
normally, and the guards of the abnormal exits cover each of: read error, conversion error, clustering error, event that
already has an id.  Each Err path carries the error of a call that failed on that path."""
from an.terms import *
from an.query import *
from an.rule import where


def parts(a, F):
    """names of the private fields of Cres, from the builder"""
    I = a.interp("cres::cres::CresBuilder::build", F)
    b, r = I.params[0], I.result
    m = {}
    for k in ("event_io", "converter", "clustering", "resampler", "unweighter"):
        n = [f[0] for f in F.adts["cres::cres::Cres"]["variants"][0]["fields"] if field(r, f[0]) is field(b, k)]
        a.ob("builder", k, len(n) == 1, where(I.entry), "Cres built from the builder: " + show(r)[:300])
        m[k] = n[0] if n else k
    return m


def reader(F):
    """the function of Cres that produces the event list"""
    out = [b["name"] for b in F.bodies.values() if "cres::cres" in b["name"] and "{closure" not in b["name"]
           and re.search(r"Result<alloc::vec::Vec<cres::event::Event>", b["locals"][0]) and b["name"].split("::")[-1] not in ("run",)]
    return sorted(out)


def reasoned(p, lits):
    """the error of a path mentions the error of a call that may have failed on it, or an event id"""
    known = dict(lits)
    errs = [x.a[0] for x in subterms(p) if x.op == "as" and x.a[1] == "Err"]
    if any(known.get(mk("is", x, "Ok")) is True for x in errs):
        return False
    return bool(errs) or any(x.op == "fld" and x.a[1] == "id" for x in subterms(p))


def check(a):
    for fs in ("full", "single"):
        F = a.facts(fs)
        fm = parts(a, F)
        rd = reader(F)
        if not a.ob("reader", fs, len(rd) == 1, "", "functions of cres::cres that return a list of events: %s" % rd):
            continue
        I = a.interp(rd[0], F)
        W = where(I.entry)
        s = I.params[0]
        src = field(s, fm["event_io"])
        j = mk("sym", "j")
        rec = index(src, j)
        good = [(l, x) for l, x in outcomes(I, I.result) if is_variant_leaf(x, "Ok")]
        bad = [(l, x) for l, x in outcomes(I, I.result) if not is_variant_leaf(x, "Ok")]
        if not a.ob("result", fs, len(good) == 1, W, "ways to succeed: " + "; ".join(show(x)[:200] for l, x in good)):
            continue
        lits, x = good[0]
        x = payload(x, "Ok")
        conv = [e for e in I.events if e.kind == "call" and matches(e.name, "TryConvert::try_convert")]
        clus = [e for e in I.events if e.kind == "call" and matches(e.name, "Clustering::cluster")]
        if not a.ob("one-conversion", fs, len(conv) == 1 and len(clus) == 1, W, "conversions %d, clusterings %d" % (len(conv), len(clus))):
            continue
        e, c = conv[0], clus[0]
        iL = mk("i", e.loops[0]) if len(e.loops) == 1 else None
        if not a.ob("per-record", fs, iL is not None and e.loops == c.loops, where(e), "loops around the conversion: %s" % (e.loops,)):
            continue
        a.ob("per-record", fs + "-all", I.loops[e.loops[0]].trip is length(src), where(e), "iterations: " + show(I.loops[e.loops[0]].trip))
        at = lambda t: subst(t, {iL: j})
        recv = payload(rec, "Ok")
        cv, cl = at(e.res), at(c.res)
        a.ob("convert", fs, at(e.args[0]) is field(s, fm["converter"]) and at(e.args[1]) is recv, where(e), show(cv)[:300])
        a.ob("cluster", fs, at(c.args[0]) is field(s, fm["clustering"]) and at(c.args[1]) is payload(cv, "Ok"), where(c), show(cl)[:300])
        ev = payload(cl, "Ok")
        want = with_field(ev, "id", j)
        okc = x.op == "comp" and x.a[0] is length(src) and x.a[2] is TRUE
        got = index(x, j) if okc else x
        a.ob("one-event-per-record", fs, okc, W, show(x)[:300])
        a.ob("event-of-record", fs, got is want, W, "event %s, expected %s" % (show(got)[:300], show(want)[:300]))
        # failures
        R, C, K = is_variant(rec, None, "Ok"), is_variant(cv, None, "Ok"), is_variant(cl, None, "Ok")
        zero = cmp_eq(field(ev, "id"), ZERO)
        inr = cmp_lt(j, length(src))
        allok = b_and(R, b_and(C, b_and(K, zero)))
        early = FALSE
        done = {at.a[0]: at.a[1] for at in taken(I, lits)}
        for L in I.loops.values():
            if L.trip is not length(src):
                continue
            for k, g, _ in exits(I, L.id):
                g = subst(g, {mk("i", L.id): j})
                for b, v in lits:
                    if b.op == "exit":
                        g = restrict(g, b_atom(b) if v else b_not(b_atom(b)))
                if done.get(L.id, k) == k:
                    a.ob("success-is-complete", "%s-L%s" % (fs, L.id), restrict(g, inr) is FALSE, W, "success leaves the loop over the records when " + show(g)[:200])
                else:
                    early = b_or(early, restrict(g, inr))
        for name, cond in (("read-error", b_not(R)), ("conversion-error", b_and(R, b_not(C))),
                           ("clustering-error", b_and(R, b_and(C, b_not(K)))), ("invalid-id", b_and(R, b_and(C, b_and(K, b_not(zero)))))):
            a.ob("failure-detected", fs + "-" + name, restrict(early, cond) is TRUE, W, "leaves early when " + show(early)[:300])
        a.ob("failure-only", fs, restrict(early, allok) is FALSE, W, "leaves early when " + show(early)[:300])
        for l, y in bad:
            okerr = is_variant_leaf(y, "Err")
            a.ob("failure-reported", fs, okerr, W, show(y)[:200])
            if okerr:
                p = payload(y, "Err")
                a.ob("failure-reason", fs, reasoned(p, l), W, "path fails with " + show(p)[:200])
    a.notes.append("the order in which concurrently converted events are stored is immaterial: every event carries the number of its record")


def is_variant_leaf(x, v):
    return x.op == "agg" and x.a[1] == v
