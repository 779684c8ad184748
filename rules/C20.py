"""Transition-system analysis of the combined reader/writer (`CombinedFileIO`).  The state is (files, open file, its position);
a spec machine written down from the property (open the first file if none is open; hand out what the open file gives; at its end
open the next one; ...) is run in lock step with the code: recursion and loops of the code are cut at their heads, and in every
feasible case both have to return the same value in the same state or to arrive at the head again in the same state.  The update of
all weights is decided the same way on its two nested loops.  The dispatch to the formats is decided by case analysis over the
detected format and over the start of the (decompressed) file, delegation by comparing each method with the call it has to be."""
from an.terms import *
from an.query import *
from an.rule import where
from rules import C26
from rules.records import *
from rules.records import given as given0
from rules.C19 import is_, NEXT, REWIND

UPD = "cres::traits::UpdateWeights::"
COMB = "cres::io::CombinedFileIO"
FIO = "cres::io::FileIO"
BUILD = "cres::io::IOBuilder::build_from_files"
DETECT = "cres::io::detect_event_file_format"
FORMATS = (("HepMC2", "hepmc2", "HepMC", False), ("Lhef", "lhef", "LHEF", False), ("StripperXml", "stripper_xml", "StripperXml", True))
ALL = UPD + "update_all_weights"
ONE = UPD + "update_next_weights"
FIN = UPD + "finish_weight_update"


def check(a):
    for fs in ("full", "single"):
        F = a.facts(fs, ("cres",))
        tag = "" if fs == "full" else "no-multiweight "
        Sim(a, F, tag).run()
        fresh(a, F, tag)
        formats(a, F, tag)
        detect(a, F, tag)
        delegates(a, F, tag)
        convert(a, F, tag)


def body_of(F, method, self_):
    bs = [b for b in F.impls.get(method, []) if (b.get("impl_self") or "") == self_]
    return bs[0] if len(bs) == 1 else None


def has(t, x):
    return contains(t, lambda y: y is x)


def fails_with(v, lits, E):
    """v is an error (or the item Some(Err(_))) that tells about E"""
    v, E = given(v, *lits), subst(E, _M)
    if v.op == "agg" and v.a[1] == "Some":
        v = payload(v, "Some")
    return v.op == "agg" and v.a[1] == "Err" and has(v, payload(E, "Err"))


class Sim:
    def __init__(s, a, F, tag):
        s.a, s.F, s.tag = a, F, tag
        s.names = {m: body_of(F, m, FIO) for m in (NEXT, ALL, ONE, FIN)}
        s.opaque = {b["name"] for b in s.names.values() if b} | {BUILD}
        s.fields = [f[0] for f in F.adts[COMB]["variants"][0]["fields"]]

    def run(s):
        a = s.a
        if not a.ob("present", s.tag + "methods-of-a-single-file", all(s.names.values()), "", "missing"):
            return
        for nm, m, spec in (("read", NEXT, s.spec_next), ("update-one", ONE, s.spec_one)):
            b = body_of(s.F, m, COMB)
            if a.ob("present", s.tag + nm, b is not None, "", "no such method"):
                s.lockstep(nm, b, spec)
        for nm, m, f in (("update-all", ALL, s.update_all), ("rewind", REWIND, s.rewind), ("end-of-update", FIN, s.finish)):
            b = body_of(s.F, m, COMB)
            if a.ob("present", s.tag + nm, b is not None, "", "no such method (the default does nothing)"):
                f(b)

    # ---- parts of the state
    def cur(s, S):
        return payload(field(S, "current"), "Some")

    def none(s, S):
        return as_bool(is_variant(field(S, "current"), None, "None"))

    def n(s, S):
        return length(field(S, "files"))

    def opening(s, S, idx):
        f = index(field(S, "files"), idx)
        return mk("call", BUILD, field(S, "builder"), field(f, "infile"), field(f, "outfile"))

    def opened(s, S, B, idx):
        return with_field(with_field(S, "current", some(payload(B, "Ok"))), "current_file_idx", idx)

    def used(s, S, call):
        return with_field(S, "current", some(mk("post", call, 0)))

    # ---- what has to happen: [(case, name, condition literals, 'return' | 'again', value or error or None, state)]
    def cases(s, S, call, more, again):
        out = []
        n, i = s.n(S), field(S, "current_file_idx")
        no = s.none(S)
        B = s.opening(S, ZERO)
        nz = [b_not(cmp_eq(n, ZERO)), cmp_lt(ZERO, n)]
        out += [("no-files", [no, cmp_eq(n, ZERO)], "return", again, S),
                ("first-file-fails", [no] + nz + [b_not(is_(B, "Ok"))], "error", B, S),
                ("opens-the-first-file", [no] + nz + [is_(B, "Ok")], "again", None, s.opened(S, B, ZERO))]
        some_ = [b_not(no)] + nz + [cmp_lt(i, n)]
        S2 = s.used(S, call)
        j = add(i, ONE_)
        N = s.opening(S2, j)
        last, mid = [cmp_eq(j, n), b_not(cmp_lt(j, n))], [b_not(cmp_eq(j, n)), cmp_lt(j, n)]
        out += more(S, S2, some_)
        end = some_ + s.at_end(call)
        out.append(("end-of-the-last-file", end + last, "return", again, S2))
        if again is NONE:
            S3, fin_ok = S2, []
        else:
            fin = mk("call", s.names[FIN]["name"], s.cur(S2))
            S3, fin_ok = s.used(S2, fin), [is_(fin, "Ok")]
            out.append(("closing-fails", end + mid + [b_not(is_(fin, "Ok"))], "error", fin, S3))
        out += [("next-file-fails", end + mid + fin_ok + [b_not(is_(N, "Ok"))], "error", N, S3),
                ("opens-the-next-file", end + mid + fin_ok + [is_(N, "Ok")], "again", None, s.opened(S3, N, j))]
        return out

    def at_end(s, call):
        if call.a[0] == s.names[NEXT]["name"]:
            return [as_bool(is_variant(call, None, "None"))]
        return [is_(call, "Ok"), b_not(as_bool(payload(call, "Ok")))]

    def spec_next(s, S):
        r = mk("call", s.names[NEXT]["name"], s.cur(S))
        def more(S, S2, some_):
            S2 = with_field(S2, "nevents_read", add(field(S, "nevents_read"), ONE_))
            return [("hands-out-what-the-file-gives", some_ + [b_not(as_bool(is_variant(r, None, "None")))], "return", r, S2)]
        return s.cases(S, r, more, NONE)

    def spec_one(s, S):
        r = mk("call", s.names[ONE]["name"], s.cur(S), s.weights)
        def more(S, S2, some_):
            return [("writing-fails", some_ + [b_not(is_(r, "Ok"))], "error", r, S2),
                    ("written", some_ + [is_(r, "Ok"), as_bool(payload(r, "Ok"))], "return", ok(TRUE), S2)]
        return s.cases(S, r, more, ok(FALSE))

    # ---- what the code does
    def lockstep(s, nm, b, spec):
        a = s.a
        I = a.interp(b, s.F, opaque=s.opaque)
        W = where(b)
        key = ("obj", I.params[0])
        s.weights = I.params[1] if len(I.params) > 1 else None
        Ls = [L for L in I.loops.values() if any(is_state(x, key) for x in L.nexts)]
        others = [L for L in I.loops.values() if L not in Ls]
        if not a.ob(nm, s.tag + "one-loop-over-the-files", len(Ls) <= 1 and not others, W, "%d loops" % len(I.loops)):
            return
        heads = [("", I.params[0], None)]
        if Ls:
            sym = [x for x in Ls[0].nexts if is_state(x, key)][0]
            heads.append(("next-round ", sym, Ls[0]))
            constant_parts((sym, I.params[0]))
        s.untouched = s.without = False
        for pre, S, L in heads:
            s.walk(nm, pre, I, b, key, L, Ls, S, S, [], spec, W, 0)
        _M.clear()

    def does(s, I, b, key, L, Ls, lits):
        res, st = I.result, I.state.get(key, key[1])
        sym = [x for x in Ls[0].nexts if is_state(x, key)][0] if Ls else None
        if L is None:
            if Ls:
                g = given(Ls[0].guard, *lits)
                if g is TRUE:
                    return ("again", None, given(Ls[0].inits[sym], *lits))
                if g is not FALSE:
                    return None
            res, st = given(res, *lits), given(st, *lits)
        else:
            on = True
            for k, (t, x) in enumerate(L.exits.items()):
                g = given(x[0], L.guard, *lits)
                if g is TRUE:
                    res = given(at_exit(I, L.id, res, k), L.guard, *lits)
                    st = given(at_exit(I, L.id, st, k), L.guard, *lits)
                    break
                if g is not FALSE:
                    on = None
            else:
                return ("again", None, given(L.nexts[sym], L.guard, *lits)) if on else None
        if res.op == "call" and res.a[0] == b["name"]:
            return ("again", None, res.a[1])
        return ("return", res, st) if len(leaves(res)) == 1 else None

    def walk(s, nm, pre, I, b, key, L, Ls, H, S, lits, spec, W, depth):
        a = s.a
        for case, cs, kind, val, S2 in spec(S):
            ls = lits + [c for c in cs if c is not TRUE]
            if L is not None and depth == 0 and given(s.none(S), *cs) is TRUE and not (s.without if case == "no-files" else s.untouched):
                continue    # the loop is only entered with an open file, or if there are none
            if any(given(c, *lits) is FALSE for c in cs if c is not TRUE) or any(c is FALSE for c in cs):
                continue
            what = s.tag + pre + case
            got = s.does(I, b, key, L, Ls, ls)
            if got is None and kind == "again" and depth < 3:
                s.walk(nm, pre + case + " ", I, b, key, L, Ls, H, S2, ls, spec, W, depth + 1)
                continue
            if not a.ob(nm, what, got is not None, W, "it is not decided what happens in this case"):
                continue
            if got[0] == "again" and L is None and Ls and s.differ(got[2], S, ls) is None:
                # the head of the loop is reached without any change
                a.ob(nm, what + "/reaches-the-loop", True, W, "")
                s.without |= case == "no-files"
                s.untouched |= given(s.none(S), *ls) is TRUE and case != "no-files"
                continue
            if got[0] == "again":
                d = s.differ(got[2], S2, ls) if kind == "again" else "does not return, and the state"
                a.ob(nm, what + "/state", d is None, W, "%s differs when going on" % (d,))
                continue
            if kind == "again":
                if depth < 3:
                    s.walk(nm, pre + case + " ", I, b, key, L, Ls, H, S2, ls, spec, W, depth + 1)
                else:
                    a.ob(nm, what + "/goes-on", False, W, "returns %s" % show(got[1])[:200])
                continue
            if kind == "error":
                a.ob(nm, what + "/error-returned", fails_with(got[1], ls, val), W, "returns %s" % show(got[1])[:300])
                a.ob(nm, what + "/error-state", all(same(field(got[2], f), field(H, f), ls) for f in ("files", "builder")), W, show(got[2])[:300])
                continue
            a.ob(nm, what + "/value", same_value(got[1], val, ls), W, "returns %s instead of %s" % (show(got[1])[:300], show(val)[:200]))
            d = s.differ(got[2], S2, ls)
            a.ob(nm, what + "/state", d is None, W, "%s differs" % (d,))

    def differ(s, A, B, lits):
        """name of a field in which two states differ"""
        for f in s.fields:
            x, y = field(A, f), field(B, f)
            if f != "current":
                if not same(x, y, lits):
                    return "%s (%s, %s)" % (f, show(given(x, *lits))[:150], show(given(y, *lits))[:150])
                continue
            nx, ny = [given(as_bool(is_variant(z, None, "None")), *lits) for z in (x, y)]
            if nx is not ny or nx is not TRUE and not same(payload(x, "Some"), payload(y, "Some"), lits):
                return "the open file (%s, %s)" % (show(given(x, *lits))[:150], show(given(y, *lits))[:150])
        return None

    # ---- all weights
    def update_all(s, b):
        a, nm, tag = s.a, "update-all", s.tag
        I = a.interp(b, s.F, opaque=s.opaque)
        W = where(b)
        obj, ws = I.params
        key = ("obj", obj)
        us = [e for e in I.events if e.kind == "call" and e.name == s.names[ONE]["name"]]
        if not a.ob(nm, tag + "one-place-that-writes", len(us) == 1 and len(us[0].loops) == 2 and len(I.loops) == 2, W, "%d calls, %d loops" % (len(us), len(I.loops))):
            return
        O, N = I.loops[us[0].loops[0]], I.loops[us[0].loops[1]]
        OS, NS = [[x for x in L.nexts if is_state(x, key)] for L in (O, N)]
        if not a.ob(nm, tag + "files-kept-open", len(OS) == 1 and len(NS) == 1, W, "the open file is not carried from one round to the next"):
            return
        OS, NS = OS[0], NS[0]
        bs = [e for e in I.events if e.kind == "call" and e.name == BUILD]
        if not a.ob(nm, tag + "opened-once-per-file", len(bs) == 1 and bs[0].loops == (O.id,), bs[0] and where(bs[0]) if bs else W, "%d places" % len(bs)):
            return
        B = subst(bs[0].res, {field(OS, f): field(obj, f) for f in ("files", "builder")})
        X = [x.a[1] for x in subterms(bs[0].args[1]) if x.op == "idx"]
        X = X[0] if len(X) == 1 else None
        n = length(field(obj, "files"))
        # the list of files is never changed
        behind = lambda t: rewrite(t, lambda x: NS if x.op == "fin" and x.a[0] == N.id and x.a[2] == repr(NS.a[1]) else None)
        vals = [given(N.inits[NS], N.guard), O.inits[OS], N.nexts[NS]] + [behind(at_exit(I, N.id, O.nexts[OS], k)) for k in range(len(N.exits))]
        kept = all(x is field(z, f) for t in vals for f in ("files", "builder") for x in [field(t, f)] for z in [next((y for y in (obj, OS, NS) if x is field(y, f)), obj)])
        a.ob(nm, tag + "same-files", kept, W, "; ".join(show(field(t, f))[:100] for t in vals for f in ("files", "builder")))
        constant_parts((OS, obj), (NS, obj))
        if not a.ob(nm, tag + "of-the-list", X is not None, W, show(bs[0].args[1])[:200]):
            return
        a.ob(nm, tag + "opens-that-file", B is s.opening(obj, X), where(bs[0]), show(B)[:300])
        first, step = counter(O, X)
        a.ob(nm, tag + "files-in-order", first is ZERO and step is not None, where(bs[0]), "file %s" % show(X)[:100])
        inl = [cmp_lt(X, n), b_not(cmp_eq(X, n))]
        # the counter of events
        wt = us[0].args[1]
        K = wt.a[1] if wt.op == "idx" and wt.a[0] is ws else None
        if not a.ob(nm, tag + "weights-from-the-list", K is not None, where(us[0]), show(wt)[:200]):
            return
        cs = [x for x in O.nexts if x is not OS and is_num(O.inits[x])]
        C = [x for x in cs if has(K, x) or same(at_start(N, K), x, [])]
        if not a.ob(nm, tag + "events-counted", len(C) == 1, W, "%d counters" % len(C)):
            return
        C = C[0]
        kfirst, kstep = counter(N, K)
        a.ob(nm, tag + "goes-on-counting", O.inits[C] is ZERO and kfirst is C and kstep is not None, where(us[0]), "weight number %s" % show(K)[:100])
        c = s.cur(NS)
        a.ob(nm, tag + "written-to-the-open-file", us[0].args[0] is c, where(us[0]), show(us[0].args[0])[:200])
        i0 = given(s.cur(N.inits[NS]), N.guard)
        a.ob(nm, tag + "the-one-just-opened", i0 is payload(B, "Ok"), where(us[0]), show(i0)[:200])
        U = us[0].res
        open_ = b_not(s.none(NS))
        a.ob(nm, tag + "stays-open", given(s.none(N.inits[NS]), N.guard) is FALSE and given(s.none(N.nexts[NS]), open_) is FALSE, W, show(field(N.nexts[NS], "current"))[:200])
        U = subst(U, _M)
        # outer head
        def leaves_o(lits):
            on = True
            for k, (t, x) in enumerate(O.exits.items()):
                g = given(x[0], O.guard, *lits)
                if g is TRUE:
                    return k
                on = on if g is FALSE else None
            return "on" if on else None
        res = lambda k, lits: given(at_exit(I, O.id, I.result, k), O.guard, *lits)
        end = [b_not(cmp_lt(X, n))]
        if X.op == "i":
            end += [cmp_eq(X, n)]
        k = leaves_o(end)
        a.ob(nm, tag + "ends-behind-the-last-file", isinstance(k, int) and same_value(res(k, end), ok(C), end), W, "exit %s: %s" % (k, show(res(k, end))[:200] if isinstance(k, int) else ""))
        bad = inl + [b_not(is_(B, "Ok"))]
        k = leaves_o(bad)
        a.ob(nm, tag + "opening-fails", isinstance(k, int) and fails_with(res(k, bad), bad, B), W, "exit %s: %s" % (k, show(res(k, bad))[:300] if isinstance(k, int) else ""))
        good = inl + [is_(B, "Ok")]
        a.ob(nm, tag + "every-file-is-written", given(N.guard, O.guard, *good) is TRUE, W, show(given(N.guard, O.guard, *good))[:200])
        # inner head
        m = length(ws)
        have, gone = [open_, cmp_lt(K, m), b_not(cmp_eq(K, m))], [open_, b_not(cmp_lt(K, m)), cmp_eq(K, m)]
        def leaves_n(lits):
            on = True
            for k, (t, x) in enumerate(N.exits.items()):
                g = given(x[0], N.guard, O.guard, *lits)
                if g is TRUE:
                    return k
                on = on if g is FALSE else None
            return "on" if on else None
        go = good + have + [is_(U, "Ok"), as_bool(payload(U, "Ok"))]
        k = leaves_n(go)
        a.ob(nm, tag + "goes-on-with-the-next-event", k == "on", W, "leaves through %s" % k)
        nx = given(N.nexts[NS], N.guard, O.guard, *go)
        d = s.differ(nx, s.used(NS, U), go)
        a.ob(nm, tag + "state-of-the-open-file", d is None, W, "%s differs" % (d,))
        for case, lits, how in (("no-more-weights", good + gone, "stop"), ("end-of-the-file", good + have + [is_(U, "Ok"), b_not(as_bool(payload(U, "Ok")))], "stop"),
                                ("writing-fails", good + have + [b_not(is_(U, "Ok"))], "error")):
            k = leaves_n(lits)
            if not a.ob(nm, tag + case, isinstance(k, int), W, "leaves through %s" % k):
                continue
            S2 = NS if case == "no-more-weights" else s.used(NS, U)
            at = lambda t: given(at_exit(I, N.id, t, k), N.guard, O.guard, *lits)
            def after(lits2):
                """what happens behind the inner loop, seen from its head"""
                on = True
                for q, (t, x) in enumerate(O.exits.items()):
                    g = given(at(x[0]), O.guard, *lits, *lits2)
                    if g is TRUE:
                        return q
                    on = on if g is FALSE else None
                return "on" if on else None
            if how == "error":
                q = after([])
                r = given(at_exit(I, N.id, at_exit(I, O.id, I.result, q), k), O.guard, N.guard, *lits) if isinstance(q, int) else None
                a.ob(nm, tag + case + "/error-returned", r is not None and fails_with(r, lits, U), W, "exit %s: %s" % (q, show(r)[:300] if r is not None else ""))
                continue
            fin = mk("call", s.names[FIN]["name"], given(s.cur(S2), *lits))
            fs = [e for e in I.events if e.kind == "call" and e.name == s.names[FIN]["name"]]
            ex = [e for e in fs if e.loops == (O.id,) and given(at(e.guard), O.guard, *lits) is TRUE]
            a.ob(nm, tag + case + "/closed-once", len(ex) == 1 and same(at(ex[0].args[0]), s.cur(S2), lits) and all(given(at(e.guard), O.guard, *lits) is FALSE for e in fs if e not in ex), W, "%d calls: %s" % (len(ex), "; ".join(show(at(e.args[0]))[:200] for e in ex)))
            q = after([b_not(is_(fin, "Ok"))])
            r = given(at_exit(I, N.id, at_exit(I, O.id, I.result, q), k), O.guard, N.guard, *lits, b_not(is_(fin, "Ok"))) if isinstance(q, int) else None
            a.ob(nm, tag + case + "/closing-fails", r is not None and fails_with(r, lits + [b_not(is_(fin, "Ok"))], fin), W, "exit %s: %s" % (q, show(r)[:300] if r is not None else ""))
            q = after([is_(fin, "Ok")])
            a.ob(nm, tag + case + "/next-file", q == "on", W, "leaves through %s" % q)
            cn = given(at(O.nexts[C]), O.guard, *lits, is_(fin, "Ok"))
            # without further weights the counter equals their number
            okc = same(cn, K, lits) or case == "no-more-weights" and cn in (K, m)
            a.ob(nm, tag + case + "/count", okc, W, "goes on with %s" % show(cn)[:200])
        _M.clear()

    def rewind(s, b):
        a = s.a
        I = a.interp(b, s.F, opaque=s.opaque)
        W = where(b)
        st = I.state.get(("obj", I.params[0]), I.params[0])
        r = I.result
        a.ob("rewind", s.tag + "succeeds", r.op == "agg" and r.a[1] == "Ok", W, show(r)[:200])
        a.ob("rewind", s.tag + "no-file-open", s.none(st) is TRUE, W, show(field(st, "current"))[:200])
        a.ob("rewind", s.tag + "nothing-read", field(st, "nevents_read") is ZERO, W, show(field(st, "nevents_read"))[:200])
        a.ob("rewind", s.tag + "same-files", all(field(st, f) is field(I.params[0], f) for f in ("files", "builder")), W, show(st)[:200])

    def finish(s, b):
        a = s.a
        I = a.interp(b, s.F, opaque=s.opaque)
        W = where(b)
        obj = I.params[0]
        no = s.none(obj)
        fin = mk("call", s.names[FIN]["name"], s.cur(obj))
        r = given(I.result, no)
        a.ob("end-of-update", s.tag + "no-file-open", r.op == "agg" and r.a[1] == "Ok", W, show(r)[:200])
        for nm, lits in (("closed", [is_(fin, "Ok")]), ("closing-fails", [b_not(is_(fin, "Ok"))])):
            r = given(I.result, b_not(no), *lits)
            good = r is fin or (fails_with(r, lits, fin) if nm == "closing-fails" else r.op == "agg" and r.a[1] == "Ok")
            es = [e for e in I.events if e.kind == "call" and e.name == fin.a[0] and given(e.guard, b_not(no), *lits) is TRUE]
            a.ob("end-of-update", s.tag + nm, good and len(es) == 1 and es[0].args[0] is s.cur(obj), W, show(r)[:200])


ONE_ = cint(1)
_M = {}     # parts of the state that stay the same in a loop


def given(t, *ls):
    return given0(subst(t, _M), *[subst(l, _M) for l in ls]) if _M else given0(t, *ls)


def is_state(x, key):
    """head symbol of the object self points to"""
    return x.op == "car" and x.a[1] == (key,)


def constant_parts(*heads):
    """head symbols of the state -> the state at the beginning, for the parts that never change"""
    _M.clear()
    for h, obj in heads:
        for f in ("files", "builder"):
            _M[field(h, f)] = field(obj, f)


def at_start(L, x):
    return given(subst(x, {**L.inits, mk("i", L.id): ZERO}), L.guard)


def counter(L, x):
    """(first value, True if it grows by one in each round)"""
    nx = subst(x, {**L.nexts, mk("i", L.id): add(mk("i", L.id), ONE_)})
    return at_start(L, x), True if nx is add(x, ONE_) else None


def same(x, y, lits):
    return x is y or given(x, *lits) is given(y, *lits)


def same_value(x, y, lits):
    x = given(x, *lits)
    if y is NONE:
        return given(as_bool(is_variant(x, None, "None")), *lits) is TRUE
    y = given(y, *lits)
    if x is y:
        return True
    for v in ("Some", "Ok"):
        if x.op == "agg" and x.a[1] == v:
            p, q = payload(x, v), payload(y, v)
            return (same(p, q, lits) or is_bool_const(q) and given(as_bool(p), *lits) is q) and (y.op != "agg" or y.a[1] == v)
    return False


def fresh(a, F, tag):
    """construction: the files in the given order, reading starts with the first"""
    new = [b for b in F.bodies.values() if b["name"] == COMB + "::new"]
    EX = "cres::stripper_xml::extract_scaling"
    s = Sim(a, F, tag)
    for b in [x for x in F.bodies.values() if x["name"] == "cres::io::IOBuilder::build_from_files_iter"]:
        I = a.interp(b, F, opaque={BUILD, EX} | {x["name"] for x in F.bodies.values() if (x.get("impl_self") or "") == FIO})
        W = where(b)
        me, files = I.params
        E = mk("call", EX, files)
        sc = is_(E, "Ok")
        r = given(I.result, b_not(sc))
        a.ob("construction", tag + "scaling-fails", fails_with(r, [b_not(sc)], E), W, show(r)[:200])
        oks = [x for x in leaves(given(I.result, sc)) if x.op == "agg" and x.a[1] == "Ok"]
        if not a.ob("construction", tag + "can-succeed", len(oks) >= 1, W, show(I.result)[:200]):
            continue
        T = payload(E, "Ok")
        lst, scl = field(T, "0"), field(T, "1")
        want = with_field(me, "scaling", scl)
        obj = payload(given(I.result, sc), "Ok") if len(oks) == 1 else None
        n = length(lst)
        for case, base in (("no-files", [cmp_eq(n, ZERO), b_not(cmp_lt(ZERO, n))]), ("files", [b_not(cmp_eq(n, ZERO)), cmp_lt(ZERO, n)])):
            lits = [sc] + base
            whole = rewrite(I.result, lambda t: unloop(I, t) if t.op in ("fld", "field") and t.a[0].op == "fin" else None)
            whole = rewrite(given(whole, *lits), lambda t: not_entered(I, t, lits))
            for x in leaves(given(whole, *lits)):
                if x.op != "agg" or x.a[1] != "Ok":
                    continue
                for o in leaves(given(payload(x, "Ok"), *lits)):
                    made(a, I, s, o, lst, want, case, lits, tag, W)


def not_entered(I, t, lits):
    """the state behind a loop over an empty list"""
    if t.op != "fin":
        return None
    L = I.loops[t.a[0]]
    sym = [q for q in L.nexts if repr(q.a[1]) == t.a[2]]
    trip = L.trip and given(rewrite(L.trip, lambda x: unloop(I, x) if x.op in ("fld", "field") and x.a[0].op == "fin" else None), *lits)
    if sym and trip is not None and given(cmp_lt(ZERO, trip), *lits) is FALSE:
        return L.inits[sym[0]]
    return None


def unloop(I, t):
    """a part of the state behind a loop that does not change it"""
    seen = 0
    while t.op in ("fld", "field") and seen < 4:
        seen += 1
        x, f = t.a[0], t.a[1]
        if x.op != "fin":
            break
        L = I.loops[x.a[0]]
        sym = [q for q in L.nexts if repr(q.a[1]) == x.a[2]]
        if not sym or given(field(L.nexts[sym[0]], f), L.guard) is not field(sym[0], f):
            break
        t = given(field(L.inits[sym[0]], f), L.guard)
    return t


def made(a, I, s, o, lst, want, case, lits, tag, W):
    bv = mk("sym", "k")
    fs = unloop(I, field(o, "files"))
    e = index(fs, bv)
    okf = length(fs) is length(lst) and field(e, "infile") is field(index(lst, bv), "0") and field(e, "outfile") is field(index(lst, bv), "1")
    a.ob("construction", tag + case + "/in-the-given-order", okf, W, show(fs)[:300])
    bd = unloop(I, field(o, "builder"))
    a.ob("construction", tag + case + "/with-the-given-settings", all(field(bd, f) is field(want, f) for f in ("scaling", "compression", "weight_names")), W, show(bd)[:300])
    a.ob("construction", tag + case + "/nothing-read", unloop(I, field(o, "nevents_read")) is ZERO, W, show(field(o, "nevents_read"))[:100])
    c = field(o, "current")
    if given(as_bool(is_variant(c, None, "None")), *lits) is TRUE:
        a.ob("construction", tag + case + "/nothing-open", True, W, "")
        return
    p = payload(c, "Some")
    B = [x for x in subterms(c) if x.op == "call" and x.a[0] == BUILD]
    good = len(B) == 1 and payload(B[0], "Ok") is p
    if good:
        x = B[0]
        g = lambda t: unloop(I, t)
        good = x.a[2].op in ("fld", "field") and is_first(I, x.a[2], "infile", lst, "0") and is_first(I, x.a[3], "outfile", lst, "1")
        bb = unloop(I, x.a[1])
        good = good and all(field(bb, f) is field(want, f) for f in ("scaling", "compression", "weight_names"))
    a.ob("construction", tag + case + "/first-file-open", good and field(o, "current_file_idx") is ZERO, W, "%s, position %s" % (show(c)[:300], show(field(o, "current_file_idx"))[:100]))


def is_first(I, t, f, lst, k):
    """t is the file name f of the first file"""
    if t.op not in ("fld", "field") or t.a[0].op != "idx":
        return t is field(index(lst, ZERO), k)
    if t.a[1] == f and t.a[0].a[1] is ZERO:
        fs = unloop(I, t.a[0].a[0])
        return field(index(fs, ZERO), f) is field(index(lst, ZERO), k)
    return t is field(index(lst, ZERO), k)


def formats(a, F, tag):
    """the file is handled by the module of the detected format"""
    for nm, fn, ty, extra in (("read-and-write", BUILD, "FileIO", True), ("read", "cres::io::FileReader::try_new", "FileReader", False)):
        bs = [b for b in F.bodies.values() if b["name"] == fn and b.get("argc")]
        if not a.ob("format", tag + nm, bool(bs), "", "no %s" % fn):
            continue
        opaque = {DETECT} | {"cres::%s::%s::try_new" % (m, ty) for _, m, _, _ in FORMATS}
        for b in bs:
            I = a.interp(b, F, opaque=opaque)
            W = where(b)
            ps = I.params
            me, infile = (ps[0], ps[1]) if extra else (None, ps[0])
            D = mk("call", DETECT, infile)
            # that an output would overwrite another file is up to C26
            res = given(I.result, *[b_not(p) for _, _, p in C26.lookups(I.result)]) if extra else I.result
            r = given(res, b_not(is_(D, "Ok")))
            a.ob("format", tag + nm + "-unknown", fails_with(r, [b_not(is_(D, "Ok"))], D), W, show(r)[:200])
            fmt = payload(D, "Ok")
            all_ = [as_bool(is_variant(fmt, None, v)) for v, m, _, _ in FORMATS]
            for k, (v, m, _, sc) in enumerate(FORMATS):
                args = [infile] + ([ps[2], field(me, "compression"), field(me, "weight_names")] + ([field(me, "scaling")] if sc else []) if extra else [])
                T = mk("call", "cres::%s::%s::try_new" % (m, ty), *args)
                lits = [is_(D, "Ok")] + [x if i == k else b_not(x) for i, x in enumerate(all_)]
                g = lits + [is_(T, "Ok")]
                r = given(res, *g)
                good = r.op == "agg" and r.a[1] == "Ok" and payload(r, "Ok").op == "agg" and field(payload(r, "Ok"), "0") is payload(T, "Ok")
                a.ob("format", tag + nm + "-" + v, good, W, "result %s, expected to come from %s" % (show(r)[:300], show(T)[:200]))
                g = lits + [b_not(is_(T, "Ok"))]
                r = given(res, *g)
                a.ob("format", tag + nm + "-" + v + "/error-returned", fails_with(r, g, T), W, show(r)[:300])


def detect(a, F, tag):
    """format from the start of the content"""
    I = a.interp(DETECT, F)
    W = where(I.entry)
    opens = [e for e in I.events if e.kind == "call" and e.name.endswith("fs::File::open")]
    fills = [e for e in I.events if e.kind == "call" and e.name.endswith("BufRead::fill_buf")]
    if not a.ob("detect", tag + "looks-at-the-file", len(opens) == 1 and len(fills) == 1 and opens[0].args[0] is I.params[0], W, "%d, %d" % (len(opens), len(fills))):
        return
    op, fb = opens[0].res, fills[0].res
    r = given(I.result, b_not(is_(op, "Ok")))
    a.ob("detect", tag + "cannot-be-opened", fails_with(r, [b_not(is_(op, "Ok"))], op), W, show(r)[:200])
    dec = [x for x in subterms(fb) if x.op == "call" and str(x.a[0]).endswith("auto_decompress")]
    a.ob("detect", tag + "decompressed", len(dec) == 1 and has(dec[0], payload(op, "Ok")), where(fills[0]), show(fb)[:200])
    data = payload(fb, "Ok")
    base = [is_(op, "Ok"), is_(fb, "Ok")]
    tests = {}
    for x in atoms_deep(given(I.result, *base)):
        y = x.a[0] if x.op == "b" else x
        if y.op == "begins":
            tests.setdefault((y.a[0] if isinstance(y.a[0], str) else show(y.a[0]), kind_of(y.a[1], data)), []).append(x)
        elif y.op == "call" and str(y.a[0]).endswith("starts_with"):
            from rules.C19 import lit
            l = lit(y.a[2])
            tests.setdefault((l.decode("latin1") if l is not None else show(y.a[2]), kind_of(y.a[1], data)), []).append(x)
    root, xml, lhe = tests.get(("root", "start")), tests.get(("<?xml", "trimmed")), tests.get(("<LesHouchesEvents", "start"))
    a.ob("detect", tag + "ROOT-files-recognised", bool(root), W, "tests: %s" % list(tests))
    a.ob("detect", tag + "XML-files-recognised", bool(xml), W, "tests: %s" % list(tests))
    a.ob("detect", tag + "Les-Houches-files-recognised", bool(lhe), W, "tests: %s" % list(tests))
    if not (root and xml and lhe):
        return
    for nm, yes, want in (("ROOT", root, "Err"), ("XML", xml, "StripperXml"), ("Les-Houches", lhe, "Lhef"), ("other", [], "HepMC2")):
        lits = base + [b_atom(x) if x in yes else b_not(b_atom(x)) for xs in tests.values() for x in xs]
        r = given(I.result, *lits)
        for x in leaves(r):
            if want == "Err":
                good = x.op == "agg" and x.a[1] == "Err"
            else:
                good = x.op == "agg" and x.a[1] == "Ok" and payload(x, "Ok").op == "agg" and payload(x, "Ok").a[1] == want
            a.ob("detect", tag + nm + "-files", good, W, "taken for %s" % show(x)[:200])


def kind_of(x, data):
    """'start' for the data, 'trimmed' for the data without leading white space"""
    if x is data:
        return "start"
    if x.op == "call" and str(x.a[0]).endswith("trim_ascii_start") and x.a[1] is data:
        return "trimmed"
    ls = leaves(x)
    n = length(data)
    for l in ls:
        if length(l) is ZERO or l.op == "c" and l.a[1] in ("", b""):
            continue
        if l.op == "sub" and l.a[0] is data and l.a[2] is n and l.a[1].op == "first":
            f = l.a[1]
            p, bv = f.a[1], f.a[2]
            if f.a[3] is not bv or f.a[0] is not n:
                return show(x)
            ws = [y.a[0] for y in atoms(p) if y.op == "b" and y.a[0].op == "call"]
            if len(ws) == 1 and str(ws[0].a[0]).endswith("{u8}::is_ascii_whitespace") and ws[0].a[1] is index(data, bv) and given(p, as_bool(ws[0])) is FALSE and given(p, b_not(as_bool(ws[0]))) is TRUE:
                continue
        return show(x)
    return "trimmed" if ls else show(x)


def delegates(a, F, tag):
    """FileIO and FileReader hand every call on to the reader of the format"""
    for ty in ("cres::io::FileIO", "cres::io::FileReader"):
        done = set()
        for m, bs in F.impls.items():
            for b in bs:
                if (b.get("impl_self") or "") != ty or not m.startswith(("cres::", "core::iter")):
                    continue
                I = a.interp(b, F, hooks={m: lambda c, vals, m=m: c.I.opaque_call(c, m, vals)})
                W = where(b)
                es = [e for e in I.events if e.kind == "call"]
                me = field(I.params[0], "0")
                want = [me] + list(I.params[1:])
                good = len(es) == 1 and es[0].name == m and es[0].guard is TRUE and list(es[0].args) == want and not es[0].loops
                r = I.result
                good = good and (r is es[0].res or r in (ite(is_(es[0].res, "Ok"), ok(payload(es[0].res, "Ok")), err(payload(es[0].res, "Err"))), ite(as_bool(is_variant(es[0].res, None, "None")), NONE, some(payload(es[0].res, "Some")))))
                done.add(m)
                a.ob("delegation", tag + ty.split("::")[-1] + "::" + m.split("::")[-1], good, W, "; ".join("%s(%s)" % (e.name, ", ".join(show(x)[:60] for x in e.args)) for e in es) + " -> " + show(r)[:200])
        need = [NEXT, REWIND] + ([ALL, ONE, FIN] if ty.endswith("FileIO") else ["cres::io::EventFileReader::path", "cres::io::EventFileReader::header"])
        for m in need:
            a.ob("delegation", tag + ty.split("::")[-1] + "::" + m.split("::")[-1] + "-present", m in done, "", "missing: the default would be used")


def convert(a, F, tag):
    """a record is parsed as what it is"""
    b = body_of(F, "cres::traits::TryConvert::try_convert", "cres::io::Converter")
    if not a.ob("convert", tag + "present", b is not None, "", "no conversion"):
        return
    fns = {"HepMC": "parse_hepmc", "LHEF": "parse_lhef", "StripperXml": "parse_stripper_xml"}
    full = {v: [x["name"] for m in F.bodies.values() for x in [m] if x["name"].split("::")[-1] == f and len(x["locals"]) and x.get("argc") == 2] for v, f in fns.items()}
    I = a.interp(b, F, opaque={n for ns in full.values() for n in ns})
    W = where(b)
    rec = I.params[1]
    for v, f in fns.items():
        es = [e for e in I.events if e.kind == "call" and e.name.split("::")[-1] == f]
        lits = [as_bool(is_variant(rec, None, w)) if w == v else b_not(as_bool(is_variant(rec, None, w))) for w in fns]
        es = [e for e in es if given(e.guard, *lits) is TRUE]
        if not a.ob("convert", tag + v, len(es) == 1 and has(es[0].args[1], payload(rec, v)), W, "%d calls of %s" % (len(es), f)):
            continue
        for c, good in ((is_(es[0].res, "Ok"), "Ok"), (b_not(is_(es[0].res, "Ok")), "Err")):
            r = given(I.result, *(lits + [c]))
            a.ob("convert", tag + v + "/" + good, (r is es[0].res) or (good == "Ok" and r.op == "agg" and r.a[1] == "Ok" and payload(r, "Ok") is payload(es[0].res, "Ok")) or (good == "Err" and fails_with(r, [c], es[0].res)), W, show(r)[:200])
