"""Value analysis of the weight update of HepMC and Les Houches event files.  Everything handed to the output is collected in
order and taken apart into pieces of the record that was read and texts of weights; the pieces have to put the record together
again with nothing but the weight entries replaced.  The rule asks for the same positions that the record parsers read the
weights from.  What makes the update fail, and what is reported then, follows from the conditions of the output."""
from an.terms import *
from an.query import *
from an.rule import where
from an.text import templated, tail_of
from rules.records import *
from an.interp import splice
from rules.C15 import member

NEXT = "cres::traits::UpdateWeights::update_next_weights"
ALL = "cres::traits::UpdateWeights::update_all_weights"
FINISH = "cres::traits::UpdateWeights::finish_weight_update"
REWIND = "cres::traits::Rewind::rewind"
RAW = "Option<core::result::Result<alloc::string::String"


def check(a):
    for fs in ("full", "single"):
        F = a.facts(fs, ("cres",))
        for kind in ("hepmc2", "lhef"):
            if not any(kind in (b["impl_self"] or "") for b in F.impls.get(NEXT, [])):
                a.ob("present", "%s %s" % (fs, kind), not (kind == "hepmc2" or fs == "single"), "", "no weight update for %s files" % kind)
                continue
            tag = "%s %s " % (kind, "multi" if fs == "full" else "single")
            update(a, F, kind, tag, fs == "full")
            update_all(a, F, kind, tag)
            header(a, F, kind, tag)


def readers(F, kind):
    """functions that read one record"""
    return {b["name"] for b in F.bodies.values() if b["name"].startswith("cres::%s::" % kind) and b["kind"] in ("AssocFn", "Fn") and RAW in (b["locals"][0] if b["locals"] else "")}


# ---------------------------------------------------------------- pieces of a text
def pieces(t):
    """list of parts that make up the text t: slices of other texts, constants, texts of values"""
    if t.op in ("scat", "cat"):
        return join([p for x in t.a for p in pieces(x)])
    if t.op == "call" and t.a[0] == "fmt":
        return [t]
    if t.op == "splice":
        v, lo, hi, new = t.a
        return join(cut(v, ZERO, lo) + pieces(new) + cut(v, hi, length(v)))
    if t.op == "sub":
        return cut(t.a[0], t.a[1], t.a[2])
    if t.op == "cur" or t.op == "sp":
        b = tail_of(t)
        return cut(b, sub(length(b), length(t)), length(b))
    if t.op == "c":
        return [t] if t.a[1] not in ("", b"") else []
    if t.op == "call" and str(t.a[0]).endswith(("{str}::as_bytes", "String::as_bytes", "String::into_bytes", "{str}::as_str", "String::as_str")):
        return pieces(t.a[1])
    if t.op == "call" and str(t.a[0]).endswith("String::new"):
        return []
    if t.op == "agg" and t.a[0] in ("vec", "array"):
        return [] if not t.a[3] else [t]
    if t.op in ("call", "join") :
        return [t]
    return [mk("sub", t, ZERO, length(t))]


def join(ps):
    out = []
    for p in ps:
        if p.op == "sub" and p.a[1] is p.a[2]:
            continue
        if out and p.op == "sub" and out[-1].op == "sub" and out[-1].a[0] is p.a[0] and out[-1].a[2] is p.a[1]:
            out[-1] = mk("sub", p.a[0], out[-1].a[1], p.a[2])
        elif out and p.op == "c" and out[-1].op == "c":
            out[-1] = const("str", str(out[-1].a[1]) + str(p.a[1]))
        else:
            out.append(p)
    return out


def plen(p):
    return sub(p.a[2], p.a[1]) if p.op == "sub" else length(p)


def cut(v, lo, hi):
    """pieces of v[lo..hi]"""
    if lo is hi:
        return []
    whole = pieces(v) if v.op in ("scat", "cat", "splice", "sub", "cur", "sp") else [mk("sub", v, ZERO, length(v))]
    if lo is ZERO and hi is length(v):
        return whole
    out, at, inside = [], ZERO, False
    for p in whole:
        end = add(at, plen(p))
        a = b = None
        if not inside and (lo is at or p.op == "sub" and p.a[0] is v or p.op == "sub" and within(lo, at, end)):
            inside, a = True, sub(lo, at)
        elif inside:
            a = ZERO
        if inside and (hi is end or hi is length(v) and p is whole[-1] or p.op == "sub" and p.a[0] is v or p.op == "sub" and within(hi, at, end)):
            b = sub(hi, at)
        if inside:
            if b is not None:
                if p.op == "sub":
                    out.append(mk("sub", p.a[0], add(p.a[1], a), add(p.a[1], b)))
                elif a is ZERO and b is plen(p):
                    out.append(p)
                else:
                    break
                return join(out)
            if a is ZERO:
                out.append(p)
            elif p.op == "sub":
                out.append(mk("sub", p.a[0], add(p.a[1], a), p.a[2]))
            else:
                break
        at = end
    return [mk("sub", v, lo, hi)]


def within(x, lo, hi):
    """lo <= x < hi, for positions of one text (differences that are lengths, or constants)"""
    return pos(sub(x, lo)) and pos(sub(hi, x)) and x is not hi


def pos(d):
    if d.op == "len" or is_num(d):
        return not is_num(d) or d.a[1] >= 0
    return d.op == "poly" and all(k > 0 for m, k in d.a[0])


# ---------------------------------------------------------------- one record
def sink_writes(I):
    """[(event, text or None)]: what goes to the output, in order"""
    out = []
    for e in I.events:
        if e.kind == "call" and e.name.startswith("core::io::write::Write::") or e.kind == "call" and e.name.startswith("std::io::Write::"):
            n = e.name.rsplit("::", 1)[-1]
            if n == "write_all":
                out.append((e, e.args[1]))
            elif n == "write_fmt":
                out.append((e, templated(e.args[1])))
            elif n in ("flush", "by_ref"):
                pass
            else:
                out.append((e, None))
    return out


def before(s):
    """the object s was before calls that changed it"""
    while s.op == "post" and s.a[0].op == "call" and len(s.a[0].a) > 1 + s.a[1]:
        s = s.a[0].a[1 + s.a[1]]
    return s


def merged(ts):
    out = []
    for t in ts:
        t = strip_bytes(t)
        if out and t.op == "sub" and out[-1].op == "sub" and out[-1].a[0] is t.a[0] and out[-1].a[2] is t.a[1]:
            t = subslice(t.a[0], out.pop().a[1], t.a[2])
        out.append(t)
    return out


def strip_bytes(t):
    while t.op == "call" and str(t.a[0]).endswith(("{str}::as_bytes", "String::as_bytes", "String::into_bytes", "{str}::as_str", "String::as_str")):
        t = t.a[1]
    return t


def update(a, F, kind, tag, multi, scale=None):
    body = a.impl(NEXT, kind, F)
    rd = readers(F, kind)
    I = a.interp(body, F, opaque=rd)
    W = where(I.entry)
    raws = [e for e in I.events if e.kind == "call" and e.name in rd]
    if not a.ob("record", tag + "one-record-is-read", len(raws) == 1 and raws[0].guard is TRUE and not raws[0].loops, W, "%d reads" % len(raws)):
        return
    raw = calls_of(I, raws[0])
    writes = sink_writes(I)
    bad = [e.name for e, t in writes if t is None]
    a.ob("output", tag + "everything-is-written-completely", not bad and writes, where(writes[0][0]) if writes else W, ", ".join(bad) or "%d writes" % len(writes))
    sinks = {before(e.args[0]) for e, _ in writes}
    a.ob("output", tag + "one-sink", len(sinks) == 1 and all(contains(s, lambda t: t is I.params[0] or t.op in ("param", "obj", "arg") or t.op == "fld") for s in sinks), W, ", ".join(show(s)[:80] for s in sinks))
    if bad or not writes:
        return
    R = payload(payload(raw, "Some"), "Ok")
    none = as_bool(is_variant(raw, None, "None"))
    okr = as_bool(is_variant(payload(raw, "Some"), None, "Ok"))
    weights = I.params[1]
    some_ok = b_and(b_not(none), okr)
    E = columns(R) if kind == "hepmc2" else {}
    wts = weight_terms(I, F, weights)
    nw, central, nth = wts
    if scale:
        central = div(central, scale(I))
    thr = lambda t: through(t, kind, R, to_text(central))
    conv = lambda t: thr(subst(exits_as_any(I, t, True), E))
    res = conv(I.result)
    ws = [(e, conv(e.guard), conv(t), conv(outcome_term(I, e))) for e, t in writes]
    # nothing left, read error
    r0 = given(res, none)
    a.ob("record", tag + "no-record-left", r0.op == "agg" and r0.a[1] == "Ok" and payload(r0, "Ok") is FALSE and all(given(g, none) is FALSE for _, g, _, _ in ws), W, show(r0)[:200])
    bad_read = b_and(b_not(none), b_not(okr))
    r1 = given(res, bad_read)
    a.ob("record", tag + "read-error-is-reported", always_err(r1) and all(given(g, bad_read) is FALSE for _, g, _, _ in ws), W, show(r1)[:200])
    # ---- what is asked for: no weights, one weight, named weights
    names = names_of(I, F)
    ctx = []
    if nw is None:
        ctx.append(("one-weight", [], False))
    else:
        ctx.append(("no-weights", [cmp_eq(nw, ZERO)], None))
        if names is not None and multi and kind == "hepmc2":
            nn = length(names)
            ctx.append(("one-weight", [b_not(cmp_eq(nw, ZERO)), cmp_eq(nw, ONE), cmp_eq(nn, ZERO)], False))
            ctx.append(("named-weights", [b_not(cmp_eq(nw, ZERO)), b_not(cmp_eq(nn, ZERO)), cmp_eq(nw, add(nn, ONE))], True))
        else:
            ctx.append(("one-weight", [b_not(cmp_eq(nw, ZERO)), cmp_eq(nw, ONE)], False))
    for nm, conds, named in ctx:
        t0 = tag + nm + " "
        got = []
        for e, g, t, oc in ws:
            G, T, oc = [thr(x) for x in under([g, t, oc], [some_ok] + conds)]
            if G is not FALSE:
                got.append((e, G, T, oc))
        r = thr(under([res], [some_ok] + conds)[0])
        # everything well-formed
        atoms = list(dict.fromkeys(y for x in [r] + [g for _, g, _, _ in got] + [t for _, _, t, _ in got] for y in wellformed(x)))
        atoms.sort(key=lambda q: 0 if q[0].op == "any" else 1)
        def good(x):
            for y, v in atoms:
                x = given(x, b_atom(y) if v else b_not(b_atom(y)))
            return x
        okw = [as_bool(is_variant(good(oc), None, "Ok")) for _, _, _, oc in got]
        seen = []
        for k, (e, G, T, oc) in enumerate(got):
            g = good(G)
            for o in okw[:k]:
                g = given(g, o)
            seen.append(g)
        a.ob("output", t0 + "well-formed-is-written", got and all(g is TRUE for g in seen), W, "; ".join(show(g)[:300] for g in seen) or "nothing is written")
        dead = []
        for ev in I.events:
            if ev.kind == "panic":
                g = good(thr(under([conv(ev.guard)], [some_ok] + conds)[0]))
                for o in okw:
                    g = given(g, o)
                if g is TRUE:
                    dead.append("%s in %s" % (ev.name, where(ev)))
        a.ob("record", t0 + "well-formed-does-not-panic", not dead, W, "; ".join(dead)[:300])
        rr = good(r)
        for o in okw:
            rr = given(rr, o)
        a.ob("record", t0 + "reports-one-more-record", rr.op == "agg" and rr.a[1] == "Ok" and payload(rr, "Ok") is TRUE, W, show(rr)[:300])
        for k, o in enumerate(okw):
            x = good(r)
            for p in okw[:k]:
                x = given(x, p)
            x = given(x, b_not(o))
            a.ob("errors", t0 + "write-error-is-reported" + (" %d" % k if k else ""), always_err(x), where(got[k][0]), show(x)[:200])
        ps = join([p for t in merged([good(T) for _, _, T, _ in got]) for p in pieces(t)])
        if named is None:
            a.ob("text", t0 + "unchanged", len(ps) == 1 and ps[0] is mk("sub", R, ZERO, length(R)), W, "; ".join(show(p)[:200] for p in ps))
            continue
        s, e = weight_place(kind, R)
        W0 = mk("call", "to_string", central)
        head, tail = mk("sub", R, ZERO, add(s, ONE)), mk("sub", R, e, length(R))
        if not named:
            sep = len(ps) > 1 and ps[0].op == "sub" and ps[0].a[2] is s
            if sep and kind != "stripper_xml" and ps[1].op == "c" and ps[1].a[1] == " ":
                ps = [head] + ps[2:]
            a.ob("text", t0 + "before-the-weight-unchanged", len(ps) > 0 and ps[0] is head, W, show(ps[0])[:300] if ps else "")
            a.ob("text", t0 + "weight-in-full-precision", len(ps) > 1 and ps[1] is W0, W, show(ps[1])[:300] if len(ps) > 1 else "")
            a.ob("text", t0 + "behind-the-weight-unchanged", len(ps) == 3 and ps[2] is tail, W, "; ".join(show(p)[:300] for p in ps[2:]))
        else:
            named_text(a, I, F, t0, W, ps, R, s, e, head, W0, nth, nw, names, conv)
        # malformed: the entries up to the weight
        must = needed(kind, R)
        if named:
            fN = mk("call", "core::str::{str}::find", R, const("str", "\nN"))
            N = mk("sub", R, add(payload(fN, "Some"), cint(2)), length(R))
            must = must + [("N line", b_not(as_bool(is_variant(fN, None, "None")))), ("number of names", parses("u32", N, ZERO))]
            nm_ = [x for x, v in atoms if x.op == "any" and not v]
            a.ob("errors", t0 + "every-name-is-an-entry", len(nm_) == 1 and names_parse(nm_[0], N), W, "; ".join(show(x)[:300] for x in nm_))
            must = must + [("name", b_not(b_atom(x))) for x in nm_]
        for what, at in must:
            bad = b_not(at)
            fl = lambda x: given(x, bad)
            others = [(y, v) for y, v in atoms if b_atom(y) is not at and b_not(b_atom(y)) is not at]
            def but(x):
                for y, v in others:
                    if given(at, b_atom(y) if v else b_not(b_atom(y))) is at:
                        x = given(x, b_atom(y) if v else b_not(b_atom(y)))
                return given(x, bad)
            gs = [but(G) for _, G, _, _ in got]
            a.ob("errors", t0 + "malformed %s is reported" % what, all(g is FALSE for g in gs) and always_err(but(r)), W, "written if %s; result %s" % ("; ".join(show(g)[:100] for g in gs), show(but(r))[:200]))


def under(ts, conds):
    out = []
    for t in ts:
        for c in conds:
            for d in (c.a if c.op == "and" else (c,)):
                t = given(t, d)
        out.append(t)
    return out


def always_err(t):
    return all(x.op == "agg" and x.a[1] == "Err" for x in leaves(t)) or t.op == "agg" and t.a[1] == "Err"


def calls_of(I, e):
    return outcome_term(I, e)


def outcome_term(I, e):
    """the value returned by the call of event e"""
    return e.res


def weight_terms(I, F, w):
    """(number of weights or None, central weight, k -> weight) of the weights given"""
    f = F.adts["cres::event::Weights"]["variants"][0]["fields"]
    v = field(w, f[0][0])
    if "f64" in f[0][1] and "Vec" not in f[0][1] and "[" not in f[0][1]:
        return None, v, None
    return length(v), index(v, ZERO), lambda k: index(v, k)


def names_of(I, F):
    fs = [f for b in F.adts for f in ()]
    st = I.params[0]
    for x in F.adts.get(adt_of(I), {}).get("variants", [{"fields": []}])[0]["fields"]:
        if "Vec<alloc::string::String" in x[1]:
            return field(st, x[0])
    return None


def adt_of(I):
    return I.entry["impl_self"].split("<")[0]


def weight_place(kind, R):
    """start (the blank before) and end of the weight entry"""
    if kind == "hepmc2":
        nr = number("u32", R, 11)
        return sub(length(R), length(mk("cur", R, add(cint(13), nr)))), sub(length(R), length(mk("cur", R, add(cint(14), nr))))
    if kind == "stripper_xml":
        from rules.C18 import weight_at
        w = weight_at(R)
        return sub(sub(length(R), length(w)), ONE), sub(length(R), length(mk("cur", w, ONE)))
    L = lhef_line(R)
    return sub(length(R), length(mk("cur", L, cint(2)))), sub(length(R), length(mk("cur", L, cint(3))))


def lhef_line(R):
    t = mk("call", "core::str::{str}::trim_start", R)
    f = mk("call", "core::str::{str}::find", t, const("char", "\n"))
    return mk("sub", t, add(payload(f, "Some"), ONE), length(t))


def needed(kind, R):
    if kind == "hepmc2":
        nr = number("u32", R, 11)
        return [("number of random states", parses("u32", R, cint(11))), ("number of weights", parses("u32", R, add(cint(12), nr))),
                ("weight", parses("any", R, add(cint(13), nr)))]
    if kind == "stripper_xml":
        from rules.C18 import weight_conditions
        return weight_conditions(R)
    L = lhef_line(R)
    return [("entry %d" % k, parses("any" if k else "any", L, cint(k))) for k in range(3)]


def names_parse(x, N):
    """some name on the line is no entry (quoted text)"""
    n, c, bv = x.a
    ks = parse_atoms(c)
    return n is mk("num", "u32", tok(N, ZERO)) and bool(ks) and all(k.op == "parses" and k.a[1] is N and k.a[2] is add(ONE, bv) for k in ks) and c is b_not(all_of(ks))


def all_of(ks):
    r = TRUE
    for k in ks:
        r = b_and(r, b_atom(k))
    return r


def wellformed(t):
    """conditions (atom, value) that hold for a record without errors"""
    out = [(x, True) for x in parse_atoms(t)]
    for x in atoms_deep(t):
        if x.op == "is" and x.a[0].op == "call" and str(x.a[0].a[0]).endswith("{str}::find"):
            out.append((x, x.a[-1] == "Some"))
        if x.op == "any" and all_parse(x.a[1]) is FALSE:
            out.append((x, False))
        if x.op == "begins":
            out.append((x, True))
    return out






def through(t, kind, R, W0):
    """t where reading the record with the central weight replaced is reading the record itself, except for that entry"""
    s, e = weight_place(kind, R)
    X = splice(R, add(s, ONE), e, W0)
    lX = length(X)
    first = add(cint(13), number("u32", R, 11)) if kind == "hepmc2" else None
    def f(x):
        if x.op == "sub" and x.a[0] is X and x.a[2] is lX:
            fs = [y for y in subterms(x.a[1]) if y.op == "call" and str(y.a[0]).endswith("{str}::find") and y.a[1] is X and behind(y.a[2])]
            if len(fs) == 1:
                k = sub(x.a[1], payload(fs[0], "Some"))
                if is_num(k) and k.a[1] >= 0:
                    return mk("sub", R, add(payload(mk("call", fs[0].a[0], R, fs[0].a[2]), "Some"), k), length(R))
        if x.op == "ite" and x.a[0].op == "is" and x.a[0].a[0].op == "call":
            y = x.a[0].a[0]
            if str(y.a[0]).endswith("{str}::find") and y.a[1] is X and behind(y.a[2]):
                return ite(b_atom(mk("is", mk("call", y.a[0], R, y.a[2]), x.a[0].a[1])), x.a[1], x.a[2])
        if first is not None and x.op in ("tok", "ntok") and x.a[0].op == "sub" and x.a[0].a[0] is X and x.a[0].a[2] is lX and x.a[0].a[1] in (s, add(s, ONE)):
            if x.op == "ntok":
                return mk("ntok", mk("cur", R, first))
            return ite(cmp_eq(x.a[1], ZERO), W0, tok(R, add(first, x.a[1])))
        return None
    return rewrite(t, f)


def behind(p):
    """a text that is found behind the first line only"""
    return p.op == "c" and p.a[0] == "str" and p.a[1].startswith("\n") and len(p.a[1]) > 1


def named_text(a, I, F, t0, W, ps, R, s, e, head, W0, nth, nw, names, conv):
    X = splice(R, add(s, ONE), e, W0)
    nr = number("u32", R, 11)
    if len(ps) > 1 and ps[0].op == "sub" and ps[0].a[2] is s and ps[1].op == "c" and ps[1].a[1] == " ":
        ps = [head] + ps[2:]
    a.ob("text", t0 + "before-the-weights-unchanged", len(ps) > 0 and ps[0] is head, W, show(ps[0])[:300] if ps else "")
    ok = len(ps) > 1 and is_join(ps[1]) and ps[1].a[2].op == "c" and ps[1].a[2].a[1] == " "
    a.ob("text", t0 + "weights-separated-by-blanks", ok, W, show(ps[1])[:200] if len(ps) > 1 else "")
    rest = ps[2:]
    skip = ZERO
    if len(rest) == 2 and rest[0].op == "c" and rest[0].a[1] == "\n":
        rest, skip = rest[1:], ONE
    good = False
    if len(rest) == 1 and rest[0].op == "sub" and rest[0].a[0] in (X, R) and rest[0].a[2] is length(rest[0].a[0]):
        B = rest[0].a[0]
        for p in (s, add(s, ONE)) + ((e,) if B is R else ()):
            f = mk("call", "core::str::{str}::find", mk("sub", B, p, length(B)), const("char", "\n"))
            good = good or sub(rest[0].a[1], skip) is add(p, payload(f, "Some"))
    a.ob("text", t0 + "behind-the-event-line-unchanged", good, W, "; ".join(show(p)[:300] for p in rest) or "nothing is written")
    if not ok:
        return
    lst = ps[1].a[1]
    if lst.op != "fin":
        a.ob("text", t0 + "weights-replaced-one-by-one", False, W, show(lst)[:300])
        return
    L = I.loops[lst.a[0]]
    slot = next((q for k, cl in L.closes.items() for q, v in cl.items() if v is lst), None)
    if slot is None:
        a.ob("text", t0 + "weights-replaced-one-by-one", False, W, show(lst)[:300])
        return
    base = conv(L.inits[slot])
    k = mk("sym", "k")
    el = conv(index(base, k))
    at0, atk = given(el, cmp_eq(k, ZERO)), given(el, b_not(cmp_eq(k, ZERO)))
    a.ob("text", t0 + "first-weight-is-the-central-one", at0 is W0, W, show(at0)[:300])
    a.ob("text", t0 + "other-weights-as-read", atk is tok(R, add(add(cint(13), nr), k)), W, show(atk)[:300])
    n, nt = number("u32", R, add(cint(12), nr)), mk("ntok", mk("cur", R, add(cint(13), nr)))
    ln = conv(length(base))
    a.ob("text", t0 + "as-many-weights-as-announced", ln is n or ln.op == "min" and set(ln.a) == {n, nt}, W, show(ln)[:300])
    # what is replaced
    fN = mk("call", "core::str::{str}::find", R, const("str", "\nN"))
    N = mk("sub", R, add(payload(fN, "Some"), cint(2)), length(R))
    nn = mk("num", "u32", tok(N, ZERO))
    iL = mk("i", L.id)
    nx = all_parse(conv(restrict_deep1(L.nexts[slot], L.guard)))
    sts = [(c, x) for c, x in cases(nx) if x is not slot]
    if not a.ob("text", t0 + "weights-replaced-one-by-one", len(sts) == 1 and sts[0][1].op == "store" and sts[0][1].a[0] is slot, W, show(nx)[:300]):
        return
    c, st = sts[0]
    p, v = st.a[1], st.a[2]
    trip = conv(L.trip) if L.trip is not None else UNDEF
    inner = lambda i: mk("inner", tok(N, add(ONE, i)))
    if p is iL:
        # one pass over the names
        m = member(c, inner(iL), names, L, conv)
        a.ob("names", t0 + "exactly-the-requested-names", m is None, W, m or "")
        cnt = [q for q, x in L.nexts.items() if q is not slot and L.inits[q] is ZERO and restrict_deep1(all_parse(conv(x)), c) is add(q, ONE) and restrict_deep1(all_parse(conv(x)), b_not(c)) is q]
        a.ob("names", t0 + "weights-in-the-order-of-the-names", any(v is to_text(nth(add(q, ONE))) for q in cnt), W, show(v)[:300])
        a.ob("names", t0 + "every-name-on-the-line", trip is nn or trip.op == "min" and nn in trip.a and set(trip.a) <= {nn, n, nt, ln}, W, show(trip)[:200])
        return
    P = p.a[0] if p.op == "idx" and p.a[1] is iL else UNDEF
    ok = c is TRUE and P.op == "comp"
    if a.ob("names", t0 + "position-of-a-requested-name", ok, W, show(p)[:300]):
        bv = P.a[4]
        a.ob("names", t0 + "position-is-counted-on-the-line", P.a[1] is bv, W, show(P.a[1])[:200])
        m = member(all_parse(conv(P.a[2])), inner(bv), names, L, conv)
        a.ob("names", t0 + "exactly-the-requested-names", m is None, W, m or "")
        a.ob("names", t0 + "every-name-on-the-line", P.a[0] is nn or P.a[0].op == "min" and nn in P.a[0].a and set(P.a[0].a) <= {nn, n, nt, ln}, W, show(P.a[0])[:200])
    a.ob("names", t0 + "weights-in-the-order-of-the-names", v is to_text(nth(add(iL, ONE))), W, show(v)[:300])
    lim = set(trip.a) if trip.op == "min" else {trip}
    a.ob("names", t0 + "every-requested-weight", lim <= {conv(length(P)), sub(nw, ONE)}, W, show(trip)[:300])


def is_join(t):
    return t.op == "call" and str(t.a[0]).endswith("{[T]}::join") and len(t.a) == 3


def to_text(t):
    return mk("call", "to_string", t)


# ---------------------------------------------------------------- a whole file
def impl_name(F, trait_item, kind):
    return [b["name"] for b in F.impls.get(trait_item, []) if "%s::FileIO" % kind in (b["impl_self"] or "")]


def update_all(a, F, kind, tag):
    body = a.impl(ALL, kind, F)
    nxt, fin_, rew = impl_name(F, NEXT, kind), impl_name(F, FINISH, kind), impl_name(F, REWIND, kind)
    I = a.interp(body, F, opaque=set(nxt + fin_ + rew))
    W = where(I.entry)
    self_, weights = I.params[0], I.params[1]
    calls_ = [e for e in I.events if e.kind == "call"]
    rs = [e for e in calls_ if e.name in rew]
    ns = [e for e in calls_ if e.name in nxt]
    fs = [e for e in calls_ if e.name in fin_]
    t0 = tag + "all "
    if not a.ob("all", t0 + "starts-at-the-first-record", len(rs) == 1 and rs[0].guard is TRUE and not rs[0].loops and I.events.index(rs[0]) < min([I.events.index(e) for e in ns] or [0]), W, "%d rewinds" % len(rs)):
        return
    rok = as_bool(is_variant(rs[0].res, None, "Ok"))
    a.ob("all", t0 + "rewind-error-is-reported", always_err(given(I.result, b_not(rok))), W, show(given(I.result, b_not(rok)))[:200])
    Ls = {e.loops for e in ns}
    if not a.ob("all", t0 + "one-record-per-weight", len(ns) == 1 and len(ns[0].loops) == 1, W, "%d update calls" % len(ns)):
        return
    L = I.loops[ns[0].loops[0]]
    iL = mk("i", L.id)
    n = length(weights)
    slots = [s for s in L.nexts if L.inits[s] is mk("post", rs[0].res, 0)]
    ok = len(slots) == 1 and contains(ns[0].args[0], lambda t: t is slots[0]) and L.nexts[slots[0]] is mk("post", ns[0].res, 0)
    a.ob("all", t0 + "every-record-in-order", ok, where(ns[0]), "; ".join(show(x)[:200] for x in L.nexts.values()))
    a.ob("all", t0 + "weights-in-order", ns[0].args[1] is index(weights, iL), where(ns[0]), show(ns[0].args[1])[:200])
    a.ob("all", t0 + "every-weight", L.trip is n, W, show(L.trip)[:200] if L.trip is not None else "no count")
    r = ns[0].res
    okr, val = as_bool(is_variant(r, None, "Ok")), as_bool(payload(r, "Ok"))
    inside = cmp_lt(iL, n)
    keys = list(L.exits)
    def leave(conds):
        """(exit condition, result) under the conditions"""
        G, ok_, res = FALSE, [], []
        for k, t in enumerate(keys):
            g = L.exits[t][0]
            for c in [rok, L.guard] + conds:
                g = given(g, c)
            if g is FALSE:
                continue
            G = b_or(G, g)
            x = at_exit(I, L.id, given(I.result, rok), k)
            for c in conds:
                x = given(x, c)
            res.append(x)
        return G, res
    def count_is(res, want):
        out = []
        for x in res:
            for l, y in paths(spread(x)):
                if y.op == "agg" and y.a[1] == "Err":
                    out.append(all(contains(at, lambda t: t.op == "call" and t.a[0] in fin_ or t.op == "post") for at, v in l) and bool(l))
                else:
                    out.append(y.op == "agg" and y.a[1] == "Ok" and payload(y, "Ok") is want)
        return bool(out) and all(out) and any(True for x in res)
    G, res = leave([inside, b_not(okr)])
    a.ob("all", t0 + "error-is-reported", G is TRUE and res and all(always_err(x) for x in res), W, "; ".join(show(x)[:200] for x in res) or show(G)[:200])
    G, res = leave([inside, okr, b_not(val)])
    a.ob("all", t0 + "stops-at-the-end-of-the-file", G is TRUE and count_is(res, iL), W, "; ".join(show(x)[:200] for x in res) or show(G)[:200])
    early = res
    G, res = leave([inside, okr, val])
    a.ob("all", t0 + "goes-on-otherwise", G is FALSE, W, show(G)[:200])
    G, res = leave([b_not(inside)])
    a.ob("all", t0 + "number-of-records", G is TRUE and count_is(res, n), W, "; ".join(show(x)[:200] for x in res) or show(G)[:200])
    if fin_:
        for nm, rr in (("at-the-end", res), ("if-there-are-fewer-records", early)):
            done = lambda l: any(contains(at, lambda t: t.op == "call" and t.a[0] in fin_) for at, v in l)
            ok = all(done(l) for x in rr for l, y in paths(spread(x)) if y.op == "agg" and y.a[1] == "Ok")
            a.ob("all", t0 + "file-is-completed-" + nm, ok, W, "; ".join(show(x)[:200] for x in rr))


def header(a, F, kind, tag):
    """the file starts with what is in front of the first record"""
    name = "cres::%s::FileIO::try_new" % kind
    init = {b["name"] for b in F.bodies.values() if b["name"].startswith("cres::%s::" % kind) and b["kind"] == "Fn" and b["locals"] and b["locals"][0].startswith("core::result::Result<(alloc::vec::Vec<u8>")}
    if not a.ob("header", tag + "one-source", len(init) == 1, "", ", ".join(sorted(init))):
        return
    I = a.interp(name, F, opaque=init)
    W = where(I.entry)
    es = [e for e in I.events if e.kind == "call" and e.name in init]
    ws = sink_writes(I)
    if not a.ob("header", tag + "source-is-read-once", len(es) == 1, W, "%d" % len(es)):
        return
    hd = field(payload(es[0].res, "Ok"), "0")
    a.ob("header", tag + "header-is-written-first", len(ws) == 1 and ws[0][1] is hd and not ws[0][0].loops, W, "; ".join(show(t)[:200] for _, t in ws if t is not None) or "nothing is written")
    if len(ws) != 1:
        return
    okw = as_bool(is_variant(ws[0][0].res, None, "Ok"))
    oks = [(l, x) for l, x in paths(spread(I.result)) if x.op == "agg" and x.a[1] == "Ok"]
    a.ob("header", tag + "success-only-if-written", oks and all(given(b_atom_of(l), b_not(okw)) is FALSE for l, x in oks), W, "%d successful paths" % len(oks))
    fs = [f for f in F.adts["cres::%s::FileIO" % kind]["variants"][0]["fields"] if "Write" in f[1]]
    sk = ws[0][0].args[0]
    src = [f for f in F.adts["cres::%s::FileReader" % kind]["variants"][0]["fields"] if "BufRead" in f[1]]
    good = len(fs) == 1 and len(src) == 1
    for l, x in oks:
        io = payload(x, "Ok")
        if not good:
            break
        v = field(io, fs[0][0])
        good = contains(v, lambda t: t is sk) or contains(v, lambda t: t.op == "post" and t.a[0] is ws[0][0].res)
        rd = [field(io, f[0]) for f in F.adts["cres::%s::FileIO" % kind]["variants"][0]["fields"] if "FileReader" in f[1]]
        good = good and len(rd) == 1 and field(rd[0], src[0][0]) is field(payload(es[0].res, "Ok"), "1")
    a.ob("header", tag + "records-follow-in-the-same-file", good, W, "")
    names = [f for f in F.adts["cres::%s::FileIO" % kind]["variants"][0]["fields"] if "Vec<alloc::string::String" in f[1]]
    for f in names:
        a.ob("header", tag + "requested-names-kept", all(field(payload(x, "Ok"), f[0]) in I.params for l, x in oks), W, "")


def b_atom_of(l):
    r = TRUE
    for at, v in l:
        r = b_and(r, b_atom(at) if v else b_not(b_atom(at)))
    return r
