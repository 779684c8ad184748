"""Value analysis of the unweighter, both weight layouts.  With m the unweighting threshold: nothing happens for m = 0 or
an empty sample.  Otherwise the events returned are the given ones filtered, in order, by one decision per event: kept if
|w| > m, else kept iff a fresh uniform sample from [0, m) is below |w|.  Two passes over the kept events follow, each
multiplying every weight of an event by one factor: first m/|w| if |w| < m and 1 otherwise, then the ratio of the sum of
central weights before unweighting to the sum over the kept events between the two passes (the order of the reads and
stores is checked on the event trace).  NO_UNWEIGHTING returns the events as they are."""
from an.terms import *
from an.query import *
from an.interp import t_sum
from an.rule import where
from rules.C02 import central


def uniform_below(I, lit_atom, m, aw):
    """the atom says: a fresh uniform number from [0, m) is below aw; returns the sampling call"""
    want = None
    for e in I.events:
        if e.kind == "call" and matches(e.name, "Distribution::sample") or matches(e.name or "", "Rng::sample"):
            d = [x for x in e.args if contains(x, lambda t: t.op == "agg" and "Range" in str(t.a[0]) and "Inclusive" not in str(t.a[0]))]
            d = [y for x in d for y in subterms(x) if y.op == "agg" and "Range" in str(y.a[0])]
            if d and field(d[0], "start") is ZERO and field(d[0], "end") is m:
                if cmp_lt(e.res, aw) is lit_atom:
                    return e
        if e.kind == "call" and (matches(e.name, "Rng::random_range") or matches(e.name, "Rng::gen_range")):
            d = [y for x in e.args for y in subterms(x) if y.op == "agg" and "Range" in str(y.a[0])]
            if d and field(d[0], "start") is ZERO and field(d[0], "end") is m and cmp_lt(e.res, aw) is lit_atom:
                return e
        if e.kind == "call" and (matches(e.name, "Rng::random") or matches(e.name, "Rng::gen")):
            if cmp_lt(mul(e.res, m), aw) is lit_atom or cmp_lt(e.res, div(aw, m)) is lit_atom:
                return e
        if e.kind == "call" and (matches(e.name, "Rng::random_bool") or matches(e.name, "Rng::gen_bool")):
            if len(e.args) > 1 and e.args[1] is div(aw, m) and as_bool(e.res) is lit_atom:
                return e
    return want


def check(a):
    for fs, multi in (("full", True), ("single", False)):
        F = a.facts(fs)
        In = a.interp(a.impl("cres::traits::Unweight::unweight", "NoUnweighter", F), F)
        a.ob("disabled", fs, In.result is ok(In.params[1]) and not [e for e in In.events if e.kind == "store"], where(In.entry), show(In.result)[:200])
        Ic = a.interp("cres::unweight::Unweighter::new", F)
        nm = {f[0]: field(Ic.result, f[0]) for f in F.adts["cres::unweight::Unweighter"]["variants"][0]["fields"]}
        fm = [k for k, v in nm.items() if v is Ic.params[0]]
        fr = [k for k, v in nm.items() if v is Ic.params[1]]
        if not a.ob("constructor", fs, len(fm) == 1 and len(fr) == 1, where(Ic.entry), show(Ic.result)[:200]):
            continue
        I = a.interp(a.impl("cres::traits::Unweight::unweight", "Unweighter<", F), F)
        W = where(I.entry)
        s, events = I.params[:2]
        m = field(s, fm[0])
        off = b_or(cmp_eq(m, ZERO), cmp_eq(length(events), ZERO))
        r0, r1 = restrict(I.result, off), restrict(I.result, b_not(off))
        off_ok = all(restrict(I.result, g) is ok(events) for g in (cmp_eq(m, ZERO),)) and r0.op != "x"
        a.ob("threshold-zero", fs, off_ok, W, show(restrict(I.result, cmp_eq(m, ZERO)))[:200])
        on = b_and(b_not(cmp_eq(m, ZERO)), b_not(cmp_eq(length(events), ZERO)))
        r = restrict(I.result, on)
        if not a.ob("result", fs, r.op == "agg" and r.a[1] == "Ok", W, show(r)[:200]):
            continue
        kept = payload(r, "Ok")
        # selection
        if kept.op == "fin":
            L, sl = find_slot(I, kept)
            nx = L.nexts.get(sl)
            i = mk("i", L.id)
            okl = L.inits[sl].op == "agg" and not L.inits[sl].a[3] or show(L.inits[sl]) == "[]"
            a.ob("from-all-events", fs, okl and L.trip is length(events), W, "kept events start as %s, %s events examined" % (show(L.inits[sl])[:60], show(L.trip) if L.trip else "?"))
        else:
            a.fail("selection", fs, W, "kept events are " + show(kept)[:200])
            continue
        e = index(events, i)
        w = central(events, i, multi)
        aw = absv(w)
        keep = FALSE
        okv = True
        for c, x in cases(nx):
            if x is sl:
                continue
            okv = okv and x.op == "push" and x.a[0] is sl and x.a[1] is e
            keep = b_or(keep, c)
        a.ob("kept-unchanged", fs, okv, W, "appends " + show(nx)[:200])
        big = cmp_lt(m, aw)
        a.ob("large-kept", fs, restrict(keep, big) is TRUE, W, "kept when " + show(keep)[:300])
        rest = restrict(restrict(keep, b_not(big)), cmp_lt(aw, m))
        smp = uniform_below(I, rest, m, aw)
        if a.ob("small-kept-with-probability", fs, smp is not None, W, "below the threshold kept when " + show(rest)[:300]):
            a.ob("fresh-sample", fs, L.id in smp.loops and any(contains(x, lambda t: t.op == "car" or t.op == "fld") for x in smp.args), where(smp), "sampled inside the loop over the events: " + show(smp.res)[:200])
            rng = [x for x in L.nexts if x is not sl and contains(L.nexts[x], lambda t: t.op == "post")]
            a.ob("fresh-sample", fs + "-state", rng, where(smp), "the generator is advanced by every sample")
        # the two rescaling passes
        pos = {id(x): k for k, x in enumerate(I.events)}
        st = [x for x in I.events if x.kind == "store" and x.args[0].op == "cont"]
        def elem(c):
            x = c.a[0]
            return x.a[0].a[1] if x.op == "fld" and x.a[1] == "weights" and x.a[0].op == "idx" and x.a[0].a[0] is kept else None
        groups = [x for x in st if elem(x.args[0]) is not None]
        a.ob("only-kept-touched", fs, len(groups) == len(st), where(st[0]) if st else W, "%d of %d stores to event weights go to kept events" % (len(groups), len(st)))
        if not a.ob("two-passes", fs, len(groups) == 2, W, "%d stores to event weights" % len(groups)):
            continue
        fac = []
        for g in groups:
            ix = elem(g.args[0])
            LL = I.loops[g.loops[0]] if g.loops else None
            full = LL is not None and ix is mk("i", LL.id) and LL.trip is length(kept)
            a.ob("every-kept-event", fs, full, where(g), "element " + show(ix))
            # the weight component that is written
            inner = g.loops[1:]
            v = g.args[1]
            IL = I.loops[inner[0]] if len(inner) == 1 else None
            wsq = field(g.args[0], "0")
            if multi:
                okc = IL is not None and IL.trip is length(wsq)
                head = next((h for h in (IL.inits if IL else ()) if IL.inits[h] is wsq), None)
                old = index(head, mk("i", IL.id)) if head is not None else None
            else:
                okc = IL is None or IL.trip is ONE
                head = next((h for h in (IL.inits if IL else ()) if IL.inits[h] is wsq), None)
                old = head if IL is not None else wsq
            a.ob("every-weight", fs, okc and old is not None, where(g), "weights visited: " + (show(IL.trip) if IL and IL.trip else "?"))
            if old is None or not full:
                continue
            facts = loop_facts(I, g.loops)
            gg = simp(restrict(g.guard, on), facts)
            fac.append((g, ite(gg, div(v, old), ONE), ix))
        if len(fac) != 2:
            continue
        (g1, f1, i1), (g2, f2, i2) = fac
        ak = absv(central(kept, i1, multi))
        for name, c, want in (("below", cmp_lt(ak, m), (div(m, ak),)), ("at", cmp_eq(ak, m), (div(m, ak), ONE)), ("above", cmp_lt(m, ak), (ONE,))):
            got = restrict(f1, c)
            if name == "at":
                got = restrict(got, cmp_eq(sub(m, ak), ZERO))
            a.ob("reweighted-to-threshold", fs + "-" + name, got in want, where(g1), "factor %s" % show(got)[:200])
        j = mk("i", -1)
        S0 = t_sum(length(events), central(events, j, multi), j)
        S1 = t_sum(length(kept), central(kept, j, multi), j)
        a.ob("sum-restored", fs, norm_sums(f2) is norm_sums(div(S0, S1)), where(g2), "factor " + show(f2)[:300])
        reads = [x for x in I.events if x.kind == "lock" and x.args[0].op == "fld" and x.args[0].a[0].op == "idx" and x.args[0].a[0].a[0] is kept
                 and x.name == "read" and not set(x.loops) & (set(g1.loops) | set(g2.loops))]
        a.ob("sum-after-reweighting", fs, reads and all(pos[id(g1)] < pos[id(x)] < pos[id(g2)] for x in reads), where(g2),
             "kept weights are summed at %s, between the stores at %s and %s" % ([x.span[0] for x in reads if x.span], where(g1), where(g2)))
        r0s = [x for x in I.events if x.kind == "lock" and x.args[0].op == "fld" and x.args[0].a[0].op == "idx" and x.args[0].a[0].a[0] is events]
        a.ob("sum-before", fs, r0s and all(pos[id(x)] < pos[id(g1)] for x in r0s), W, "original weights are read before any is changed")
