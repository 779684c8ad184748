"""Value analysis of Cres::run.  The stages are called once each, in the order read, resample (all events with outgoing
particles, unchanged and in order), unweight (what resampling returned), update; each only if the previous succeeded,
each on the component the builder was given.  The weight list handed to the event output is analysed as a sequence of
scatter loops (base, then stores by event id): its length is the number of events read; the last loop stores, for every
surviving event and at the event's id, that event's weights; before it every resampled event's slot is set to zeros of
the same number of weights, and the slot of every ignored event holds that event's own weights.  Errors of any stage are
returned, success only after the update succeeded."""
from an.terms import *
from an.query import *
from an.rule import where
from rules.C07 import parts, reader, reasoned, is_variant_leaf


def zeroed(I, v, w, multi):
    """v is w with every weight replaced by zero"""
    f0 = lambda t: field(t, "0")
    if not multi:
        return f0(v) is ZERO
    x = f0(v)
    if x.op == "fin":
        base, ls = scatter(I, x)
        return base is f0(w) and len(ls) == 1 and ls[0][0].trip is length(f0(w)) and \
            [(s[1], s[2]) for s in ls[0][1]] == [(mk("i", ls[0][0].id), ZERO)] and not ls[0][1][0][0]
    if x.op == "comp":
        return x.a[0] is length(f0(w)) and x.a[1] is ZERO and x.a[2] is TRUE
    return False


def check(a):
    for fs, multi in (("full", True), ("single", False)):
        F = a.facts(fs)
        fm = parts(a, F)
        rd = reader(F)
        if len(rd) != 1:
            a.fail("reader", fs, "", "functions that read the events: %s" % rd)
            continue
        opq = {rd[0], "cres::cres::log_multiplicities"}
        I = a.interp("cres::cres::Cres::run", F, opaque=opq)
        W = where(I.entry)
        s = I.params[0]
        one = {}
        for n, p in (("read", rd[0]), ("resample", "Resample::resample"), ("unweight", "Unweight::unweight"), ("update", "UpdateWeights::update_all_weights")):
            es = [e for e in I.events if e.kind == "call" and (matches(e.name, p) or (n == "read" and is_read(e, p)))]
            a.ob("stage-once", fs + "-" + n, len(es) == 1 and not es[0].loops, W, "%d calls of %s" % (len(es), p))
            one[n] = es[0] if es else None
        if None in one.values():
            continue
        R, S, U, P = (one[k] for k in ("read", "resample", "unweight", "update"))
        for n, e, f in (("resample", S, "resampler"), ("unweight", U, "unweighter"), ("update", P, "event_io")):
            x = e.args[0]
            a.ob("component", fs + "-" + n, x.op == "fld" and x.a[1] == fm[f], where(e), show(x)[:200])
        ok = lambda e: is_variant(e.res, None, "Ok")
        for n, e, g in (("resample", S, ok(R)), ("unweight", U, b_and(ok(R), ok(S))), ("update", P, b_and(ok(R), b_and(ok(S), ok(U))))):
            a.ob("stage-guard", fs + "-" + n, e.guard is g, where(e), "runs when " + show(e.guard)[:300])
        read, res, surv = payload(R.res, "Ok"), payload(S.res, "Ok"), payload(U.res, "Ok")
        j = mk("sym", "j")
        # what is resampled
        x = S.args[1]
        okc = x.op == "comp" and x.a[0] is length(read) and x.a[3] == "seq"
        def nonempty(ev):
            Iq = a.interp("cres::event::Event::outgoing", F)
            return b_not(cmp_eq(length(subst(Iq.result, {Iq.params[0]: ev})), ZERO))
        if okc:
            bv = mk("bv", x.a[4].a[0]) if isinstance(x.a[4], T) and x.a[4].op == "bv" else x.a[4]
            val, cond = x.a[1], x.a[2]
            okc = val is index(read, bv) and cond is nonempty(index(read, bv))
        a.ob("resampled-events", fs, okc, where(S), "resamples " + show(x)[:300])
        a.ob("unweighted-events", fs, strip_sorted(U.args[1]) is res, where(U), "unweights " + show(U.args[1])[:200])
        # the weights that are written
        base, layers = scatter(I, P.args[1])
        a.ob("one-slot-per-event", fs, base.op == "comp" and base.a[0] is length(read) and base.a[2] is TRUE, where(P), show(base)[:200])
        seen = {"ignored": False, "zero": False, "own": False}
        kinds = []
        for L, stores in layers:
            i = mk("i", L.id)
            inr = cmp_lt(i, L.trip) if L.trip is not None else None
            for lits, ix, v in stores:
                g = TRUE
                for at, w in lits:
                    g = b_and(g, b_atom(at) if w else b_not(b_atom(at)))
                ev = ix.a[0] if ix is not None and ix.op == "fld" and ix.a[1] == "id" else None
                if ev is None or ev.op != "idx" or ev.a[1] is not i:
                    a.fail("slot", fs, W, "stores at %s the value %s" % (show(ix)[:200] if ix is not None else "?", show(v)[:200]))
                    kinds.append(("?", L))
                    continue
                seq = strip_sorted(ev.a[0])
                full = L.trip is length(seq) or L.trip is length(ev.a[0])
                own = mk("cont", field(ev, "weights"))
                if seq is surv and v is own and g is TRUE and full:
                    kinds.append(("own", L))
                elif seq in (res, x) and g is TRUE and full and zeroed(I, v, own, multi):
                    kinds.append(("zero", L))
                elif seq is x and v is own and full and g is TRUE:
                    kinds.append(("prelim", L))
                elif seq is read and full and v is own and restrict(g, b_not(nonempty(ev))) is TRUE:
                    kinds.append(("ignored", L))
                elif seq is read and full and zeroed(I, v, own, multi) and restrict(g, nonempty(ev)) is TRUE and restrict(g, b_not(nonempty(ev))) is FALSE:
                    kinds.append(("zero", L))
                else:
                    a.fail("slot", fs, W, "stores at %s the value %s when %s, over %s" % (show(ix)[:200], show(v)[:300], show(g)[:200], show(ev.a[0])[:200]))
                    kinds.append(("?", L))
        ks = [k for k, _ in kinds]
        a.ob("survivors-last", fs, ks and ks[-1] == "own" and ks.count("own") == 1, where(P), "stores into the weight list, in order: %s" % ks)
        a.ob("ignored-keep-weights", fs, "ignored" in ks, where(P), "stores into the weight list, in order: %s" % ks)
        # zeros after anything that may write the slot of a discarded event
        zi = max([n for n, k in enumerate(ks) if k == "zero"], default=-1)
        ii = max([n for n, k in enumerate(ks) if k == "prelim" or k == "ignored" and overlap(kinds[n][1], layers, nonempty)], default=-1)
        zbase = not multi and base.op == "comp" and field(base.a[1], "0") is ZERO
        a.ob("discarded-get-zero", fs, zi > ii or zi < 0 and zbase and ii < 0, where(P), "stores into the weight list, in order: %s" % ks)
        # outcome
        for l, y in outcomes(I, I.result):
            if is_variant_leaf(y, "Ok"):
                g = TRUE
                for at, w in l:
                    g = b_and(g, b_atom(at) if w else b_not(b_atom(at)))
                a.ob("success", fs, implies(g, b_and(ok(P), b_and(ok(U), b_and(ok(S), ok(R))))), W, "succeeds when " + show(g)[:300])
            else:
                p = payload(y, "Err") if is_variant_leaf(y, "Err") else y
                okf = is_variant_leaf(y, "Err") or y.op in ("call",)
                a.ob("failure", fs, is_variant_leaf(y, "Err") and reasoned(p, l), W, show(y)[:200])


def overlap(L, layers, nonempty):
    """may the stores of this layer reach the slot of an event that was resampled?"""
    for M, stores in layers:
        if M is L:
            for lits, ix, v in stores:
                g = TRUE
                for at, w in lits:
                    g = b_and(g, b_atom(at) if w else b_not(b_atom(at)))
                if restrict(g, nonempty(ix.a[0])) is not FALSE:
                    return True
    return False


def is_read(e, name):
    return e.name == name or e.name.rsplit("::", 1)[-1] == name.rsplit("::", 1)[-1]
