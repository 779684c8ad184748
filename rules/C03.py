"""Value analysis of seed selection and of the resampling loop.  For each strategy the sequence handed out is
derived as a comprehension over all event indices with an extracted filter condition and an extracted ordering
predicate; the filter must be exactly 'central weight < 0' and the ordering must put the smaller weight first
(most negative), last (least negative) or leave event order.  In the resampling loop the analysis derives, for
iteration i, the condition under which a cell is built: exactly 'the current weight of seed i is negative', the
weight being read in that iteration; the cell is built around that seed with the one search structure, resampled
once, and reported once to the observer, and the observer is told about the end exactly once, after the loop."""
from an.terms import *
from an.query import *
from an.rule import where
from an.streams import describe
from rules.C02 import central


def less_is(less, lt, gt):
    """the ordering predicate agrees with lt wherever lt or gt holds"""
    return restrict(less, lt) is TRUE and restrict(less, gt) is FALSE


def seeds(a, fs, multi, F):
    b = a.impl("cres::seeds::SelectSeeds::select_seeds", "StrategicSelector", F)
    I = a.interp(b, F)
    s, events = I.params[:2]
    W = where(b)
    X, Y = mk("sym", "x"), mk("sym", "y")
    wx, wy = central(events, X, multi), central(events, Y, multi)
    k = mk("sym", "k")
    # the enum value the selection depends on
    sel = {x.a[0] for x in atoms_deep(I.result) if x.op == "is" and x.a[1] in ("MostNegative", "LeastNegative", "Next")}
    if not a.ob("strategy", fs, len(sel) == 1, W, "strategy scrutinised: " + ", ".join(map(show, sel))):
        return
    sc = sel.pop()
    for v in ("MostNegative", "LeastNegative", "Next"):
        r = rewrite(I.result, lambda t: pick_variant(t, sc, v))
        q = describe(I, r)
        if q is None:
            a.fail("sequence", fs + "-" + v, W, show(r)[:300])
            continue
        q, rev = unrev(q)
        order = None
        if q.op == "sorted":
            order, q = q.a[0], q.a[-1]
        okc = q.op == "comp" and q.a[3] == "seq" and q.a[0] is length(events) and subst(q.a[1], {q.a[4]: k}) is k
        a.ob("all-events-considered", fs + "-" + v, okc, W, show(q)[:400])
        if okc:
            c = subst(q.a[2], {q.a[4]: k})
            a.ob("negative-only", fs + "-" + v, c is cmp_lt(central(events, k, multi), ZERO), W, "selected when " + show(c)[:300])
        lt, gt = cmp_lt(wx, wy), cmp_lt(wy, wx)
        if rev:
            lt, gt = gt, lt
        if v == "Next":
            a.ob("order", fs + "-" + v, order is None and not rev, W, "ordering " + (show(order)[:200] if order else "none"))
        else:
            if v == "LeastNegative":
                lt, gt = gt, lt
            a.ob("order", fs + "-" + v, order is not None and isinstance(order, T) and less_is(order, lt, gt), W,
                 "ordering predicate less(x,y): " + (show(order)[:300] if isinstance(order, T) else str(order)))
    # the constructor stores the strategy it is given
    J = a.interp("cres::seeds::StrategicSelector::new", F)
    a.ob("strategy", fs + "-new", J.result.op == "agg" and J.params[0] in J.result.a[3], where(J.entry), show(J.result))


def atoms_deep(t):
    out = set()
    for x in subterms(t):
        if x.op == "ite":
            out.add(x.a[0])
    return out


def pick_variant(t, sc, v):
    if t.op == "ite" and t.a[0].op == "is" and t.a[0].a[0] is sc:
        return t.a[1] if t.a[0].a[1] == v else t.a[2]
    return None


def unrev(q):
    if q.op == "comp" and q.a[2] is TRUE and q.a[3] == "seq":
        # index-reversed copy of a sequence
        n, b, c, kind, bv = q.a
        if b.op == "idx" and b.a[1] is sub(sub(n, ONE), bv) and length(b.a[0]) is n:
            return b.a[0], True
        if b.op == "idx" and b.a[1] is bv and length(b.a[0]) is n:
            return unrev(b.a[0])
    return q, False


def loop(a, fs, multi, F):
    b = a.impl("cres::traits::Resample::resample", "cres::resampler::Resampler<", F)
    I = a.interp(b, F, opaque={"cres::cell::Cell::<'a>::new", "cres::cell::Cell::<'a>::resample", "cres::resampler::Resampler::<D, N, O, S>::print_wt_sum"})
    W = where(b)
    s, events = I.params[:2]
    sel = [e for e in calls(I, "SelectSeeds::select_seeds") if e.kind == "call"]
    if not a.ob("one-selection", fs, len(sel) == 1 and sel[0].args[1] is events and not sel[0].loops, W, "select_seeds calls: %d" % len(sel)):
        return
    seq = sel[0].res
    a.ob("result", fs, I.result is ok(events), W, show(I.result)[:200])
    new = [e for e in I.events if e.kind == "call" and e.name.endswith("::new") and "cell::Cell" in e.name]
    res = [e for e in I.events if e.kind == "call" and e.name.endswith("::resample") and "cell::Cell" in e.name]
    obs = [e for e in calls(I, "ObserveCell::observe_cell") if e.kind == "call"]
    fin = [e for e in calls(I, "ObserveCell::finish") if e.kind == "call"]
    if not a.ob("one-cell", fs, len(new) == 1 and len(res) == 1 and len(obs) == 1, W, "cells built at %d, resampled at %d, observed at %d places" % (len(new), len(res), len(obs))):
        return
    new, res, obs = new[0], res[0], obs[0]
    if not a.ob("per-seed", fs, len(new.loops) == 1, where(new), "loops around: %s" % (new.loops,)):
        return
    L = I.loops[new.loops[0]]
    iL = mk("i", L.id)
    a.ob("all-seeds", fs, L.trip is length(seq), where(new), "iterations: %s" % (show(L.trip) if L.trip else None))
    seed = index(seq, iL)
    a.ob("cell-args", fs, new.args[0] is events and new.args[1] is seed and not loopsyms(new.args[2]), where(new), "; ".join(show(x)[:120] for x in new.args))
    w = central(events, seed, multi)
    facts = loop_facts(I, new.loops)
    ins = [(i, T) for i, T in facts]
    g = simp(new.guard, ins)
    a.ob("skips-nonnegative", fs, g is cmp_lt(w, ZERO), where(new), "a cell is built under " + show(g)[:300])
    reads = [e for e in I.events if e.kind == "lock" and e.args[0] is field(index(events, seed), "weights") and L.id in e.loops]
    pos = {id(e): k for k, e in enumerate(I.events)}
    a.ob("reads-current-weight", fs, any(pos[id(e)] < pos[id(new)] and simp(e.guard, ins) is TRUE for e in reads), where(new),
         "reads of the seed's weight in the same iteration: %d" % len(reads))
    cell = new.res
    a.ob("resampled", fs, strip_refs(res.args[0]) is cell or contains(res.args[0], lambda x: x is cell), where(res), show(res.args[0])[:200])
    a.ob("resampled", fs + "-guard", simp(res.guard, ins) is g and res.loops == new.loops, where(res), show(res.guard)[:200])
    a.ob("observed", fs, simp(obs.guard, ins) is g and obs.loops == new.loops and pos[id(obs)] > pos[id(res)] and contains(obs.args[1], lambda x: x is cell),
         where(obs), show(obs.args[1])[:200])
    a.ob("observer-finished", fs, len(fin) == 1 and not fin[0].loops and fin[0].guard is TRUE and pos[id(fin[0])] > pos[id(obs)], W,
         "finish calls: %d" % len(fin))


def strip_refs(t):
    return t


def check(a):
    for fs, multi in (("full", True), ("single", False)):
        F = a.facts(fs)
        seeds(a, fs, multi, F)
        loop(a, fs, multi, F)
