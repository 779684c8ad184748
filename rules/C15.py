"""Value analysis of the HepMC2 record parser over symbolic text: an entry is identified by the line it is on and its number
on that line, however the parser got there, and a number by the entry it was read from.  The loop over the lines of a record
is taken apart by the first letter of the line (a substitution of the byte in the state transformer of the loop)."""
from an.terms import *
from an.query import *
from an.rule import where
from rules.records import *
from rules.C11 import vec_fields, builder_fields

PARSE = "cres::hepmc2::HepMCParser::parse_hepmc"
BUILD = "cres::event::EventBuilder::build"
RESCALE = "cres::event::EventBuilder::rescale_energies"
# HepMC2 IO_GenEvent, columns after the letter (column 0)
ID, PX, PY, PZ, EN, STATUS = 2, 3, 4, 5, 6, 8


def check(a):
    for fs in ("full", "single"):
        F = a.facts(fs, ("cres",))
        one(a, F, "" if fs == "full" else "no-multiweight ", fs == "full")


def one(a, F, tag, multi):
    body = a.impl(PARSE, "Converter", F)
    I = a.interp(body, F, opaque={BUILD, RESCALE})
    W = where(I.entry)
    record = I.params[1]
    conv = I.params[0]
    ll = [x for x in line_loops(I, record)]
    if not a.ob("lines", tag + "one-loop-over-lines", len(ll) == 1, W, "%d loops" % len(ll)):
        return
    L, T_, ln, find = ll[0]
    of, wf = builder_fields(F)
    # the builder that is carried
    bs = [s for s, n in L.nexts.items() if contains(n, lambda t: t.op == "push") and s is not T_ and L.inits[s].op in ("agg", "with")]
    if not a.ob("lines", tag + "one-event-builder", len(bs) == 1, W, "%d" % len(bs)):
        return
    B = bs[0]
    E = columns(record)
    b0 = subst(L.inits[B], E)
    # ------------------------------------------------ event line
    nr = number("u32", record, 11)
    w = field(b0, wf)
    first = mk("num", "f64", tok(record, add(cint(13), nr)))
    ok_w = w is first or w.op == "push" and length(w) is ONE and w.a[1] is first or length(w) is ONE and index(w, ZERO) is first
    a.ob("event line", tag + "central-weight-is-the-first", ok_w, W, show(w)[:300])
    a.ob("event line", tag + "no-particles-before", length(field(b0, of)) is ZERO, W, show(field(b0, of))[:200])
    # position behind the event line: on the event line, so that no line is skipped
    init_t = subst(L.inits[T_] if T_ is not None else ln.a[0].a[1], E)
    a.ob("lines", tag + "starts-on-event-line", all(on_line(l, record) for _, l in cases(init_t)), W, show(init_t)[:200])
    if T_ is None:
        off = sub(ln.a[1], mk("i", L.id))
        a.ob("lines", tag + "every-line-visited", off is ONE, W, "first line visited: %s" % show(off))
    # ------------------------------------------------ loop exits
    raw, ln = ln, subst(ln, E)
    a.raw = raw
    g = L.guard
    exits_ = [(k, canon(exits_as_any(I, restrict(x[0], g)), raw, E), t) for k, (t, x) in enumerate(L.exits.items())]
    end = as_bool(is_variant(find, None, "None")) if find is not None else None
    if end is not None:
        normal = [k for k, G, t in exits_ if restrict(G, end) is not FALSE]
        a.ob("lines", tag + "ends-with-the-text", all(restrict(G, b_not(end)) is FALSE for k, G, t in exits_ if k in normal) and len(normal) == 1
             and implies(b_and(g, end), list(L.exits.values())[normal[0]][0]), W, "exits at the end of the text: %d" % len(normal))
    else:
        normal = [k for k, G, t in exits_ if t == getattr(L, "trip_exit", None)]
        a.ob("lines", tag + "ends-with-the-text", len(normal) == 1 and canon(L.trip, raw, E) is sub(length(ln.a[0]), ONE), W, show(L.trip)[:200] if L.trip else "no trip count")
    ERR = FALSE
    for k, G, t in exits_:
        if k not in normal:
            ERR = b_or(ERR, G)
    go = b_not(end) if end is not None else cmp_lt(mk("i", L.id), canon(L.trip, raw, E))
    ERR = given(ERR, go)
    nx = {s: given(canon(exits_as_any(I, n), raw, E), go) for s, n in L.nexts.items()}
    text = nx.get(T_)
    others = [s for s in nx if s not in (T_, B)]
    names = [x for x in fields_of(conv, F) if "String" in x[1]]
    named = multi and len(names) == 1
    tested = sorted({int(-const_part(at.a[0])) for t in list(nx.values()) + [ERR] for at in atoms_deep(t)
                     if at.op == "sgn" and contains(at.a[0], lambda y: y is index(ln, ZERO)) and const_part(at.a[0]) is not None})
    known = {ord(c): c for c in "VFHCNPU"}
    nonames = as_bool(cmp_eq(length(field(conv, names[0][0])), ZERO)) if named else TRUE
    for b, c in sorted(known.items()):
        e = at_byte(ERR, ln, b)
        if c == "N" and named:
            e, byname = given(e, nonames), e
        st = {s: at_byte(n, ln, b) for s, n in nx.items()}
        if T_ is not None:
            t = all_parse(st[T_]) if c != "N" else given(all_parse(st[T_]), nonames)
            a.ob("line " + c, tag + "next-line-follows", all(on_line(l, ln) for l in leaves(t)), W, show(t)[:300])
            if c == "N" and named:
                t = given(all_parse(st[T_]), b_not(nonames))
                a.ob("line " + c, tag + "next-line-follows-names", all(on_line(l, ln) for l in leaves(t)), W, show(t)[:300])
        if c in "VFHC" or c == "N":
            ev = given(st[B], nonames) if c == "N" else st[B]
            a.ob("line " + c, tag + "no-error", e is FALSE, W, show(e)[:300])
            a.ob("line " + c, tag + "no-change", ev is B and all((given(st[s], nonames) if c == "N" else st[s]) is s for s in others), W, show(ev)[:300])
        if c == "N" and named:
            weight_names(a, I, F, tag, L, ln, B, given(st[B], b_not(nonames)), given(byname, b_not(nonames)), field(conv, names[0][0]), wf, of, record, E, nr, go)
        if c == "P":
            particle(a, F, tag, W, ln, B, st[B], e, of, wf)
            a.ob("line P", tag + "no-other-change", all(st[s] is s for s in others), W, "")
        if c == "U":
            a.ob("line U", tag + "no-particle-change", st[B] is B, W, show(st[B])[:200])
            unit(a, I, tag, W, ln, others, st, e, L, B)
    # any other line
    e = at_byte(ERR, ln, None)
    blank = [at for at in atoms_deep(e) if contains(at, lambda y: is_call(y, "trim") or is_call(y, "trim_start") or is_call(y, "trim_end"))]
    e1 = e
    for at in blank:
        e1 = restrict(e1, b_not(b_atom(at)))
    a.ob("other lines", tag + "reported-as-error", e1 is TRUE, W, show(e1)[:300])
    for b in tested:
        if b not in known:
            e2 = at_byte(ERR, ln, b)
            for at in blank:
                e2 = restrict(e2, b_not(b_atom(at)))
            a.ob("other lines", tag + "starting with '%s'" % chr(b), e2 is TRUE, W, show(e2)[:200])
    for s, n in nx.items():
        if s is not T_:
            a.ob("other lines", tag + "blank-lines-change-nothing " + str(s.a[1]), at_byte(n, ln, None) is s, W, show(at_byte(n, ln, None))[:200])
        else:
            a.ob("other lines", tag + "next-line-follows", all(on_line(l, ln) for l in leaves(at_byte(n, ln, None))), W, "")
    # ------------------------------------------------ result
    result(a, I, F, tag, W, L, B, others, exits_, normal, record, E)


def canon(t, raw, E):
    """every entry in terms of the line it is on"""
    return subst(subst(t, columns(raw)), E)


def const_part(p):
    """c of a polynomial c + x"""
    if p.op == "poly":
        d = dict(p.a[0])
        if set(len(m) for m in d) <= {0, 1} and len(d) == 2 and () in d:
            k = [v for m, v in d.items() if m][0]
            return d[()] / k
    return ZERO.a[1] if p.op != "poly" else None


def fields_of(v, F):
    return F.adts["cres::io::Converter"]["variants"][0]["fields"] if "cres::io::Converter" in F.adts else []


def norm(t):
    return norm_sums(t)


def on_line(t, ln):
    """a position on the line `ln` (behind some of its entries) or its start"""
    while t is not ln:
        if t.op in ("cur", "sp"):
            t = t.a[0]
        elif t.op == "sub" and ln.op == "sub" and t.a[0] is ln.a[0] and t.a[2] is ln.a[2] and sub(t.a[1], ln.a[1]) is ONE:
            return True
        elif t.op == "sub" and t.a[0] is ln and t.a[1] is ONE and t.a[2] is length(ln):
            return True
        else:
            return False
    return True


def needs(a, rule, tag, W, e, wanted, kinds, ln, cond):
    """a line with a wanted column that is missing or no number is an error; one where every column is fine is none"""
    ats = parse_atoms(e)
    a.ob(rule, tag + "well-formed-is-accepted", all_parse(e) is FALSE, W, show(all_parse(e))[:300])
    for k in wanted:
        mine = [at for at in ats if at.op == "parses" and at.a[1] is ln and at.a[2] is cint(k) and at.a[0] in kinds]
        bad = None
        if not mine:
            bad = "column %d is not read" % k
        for at in mine:
            r = given(e, b_not(b_atom(at)))
            for x in parse_atoms(r):
                r = given(r, b_atom(x))
            r = given(r, cond)
            if r is not TRUE:
                bad = "column %d: error only if %s" % (k, show(r)[:200])
        a.ob(rule, tag + "column %d" % k, bad is None, W, bad or "")


def particle(a, F, tag, W, ln, B, nxt, e, of, wf, cols=(ID, PX, PY, PZ, EN, STATUS), rule="line P"):
    ID, PX, PY, PZ, EN, STATUS = cols
    comp_f, pt_f = vec_fields(F)
    good = all_parse(nxt)
    stat = number("i32", ln, STATUS)
    final = cmp_eq(stat, ONE)
    out = restrict_deep1(good, final)
    rest = restrict_deep1(good, b_not(final))
    a.ob(rule, tag + "only-final-state-is-added", rest is B, W, show(rest)[:300])
    l0, l1 = field(B, of), field(out, of)
    grew = length(l1) is add(length(l0), ONE) and l1.op == "push" and l1.a[0] is l0
    if a.ob(rule, tag + "final-state-is-added", grew, W, show(out)[:300]):
        p = l1.a[1]
        pid = field(p, "0")
        pid = field(pid, "0") if pid.op == "agg" else pid
        while pid.op == "agg" and len(pid.a[3]) == 1 or is_call(pid, "ParticleID::new"):
            pid = pid.a[3][0] if pid.op == "agg" else pid.a[1]
        a.ob(rule, tag + "particle-id", pid is number("i32", ln, ID), W, show(field(p, "0"))[:200])
        v = field(field(p, "1"), comp_f)
        for i, (nm, k) in enumerate((("energy", EN), ("px", PX), ("py", PY), ("pz", PZ))):
            a.ob(rule, tag + nm, index(v, cint(i)) is number("f64", ln, k), W, "%s is %s" % (nm, show(index(v, cint(i)))[:200]))
    a.ob(rule, tag + "weights-kept", field(out, wf) is field(B, wf), W, "")
    # the status decides nothing about errors except through its own entry
    needs(a, rule, tag, W, e, (ID, PX, PY, PZ, EN), ("i32", "f64", "any"), ln, final)
    needs(a, rule, tag, W, e, (STATUS,), ("i32", "f64", "any"), ln, TRUE)


def unit(a, I, tag, W, ln, others, st, e, L, B):
    ch = [s for s in others if st[s] is not s]
    if not a.ob("line U", tag + "one-unit", len(ch) == 1, W, "%d values" % len(ch)):
        return
    u = ch[0]
    n = all_parse(st[u])
    e = given(e, *[b_atom(at) for at in parse_atoms(e)])
    texts = {at.a[1].a[1]: at for at in atoms_deep(tup(n, e)) if at.op == "isval" and at.a[0] is col(ln, 1) and at.a[1].op == "c"}
    a.ob("line U", tag + "unit-is-the-first-entry", {"GEV", "MEV"} <= set(texts), W, ", ".join(sorted(texts)) or "the unit is not read")
    def at_text(t, x):
        for y, at in texts.items():
            t = given(t, b_atom(at) if y == x else b_not(b_atom(at)))
        return t
    for x in ("GEV", "MEV"):
        a.ob("line U", tag + x + "-accepted", at_text(e, x) is FALSE, W, show(at_text(e, x))[:200])
    for x in sorted(set(texts) - {"GEV", "MEV"}) + [None]:
        a.ob("line U", tag + "%s-reported" % (x or "any-other"), at_text(e, x) is TRUE, W, show(at_text(e, x))[:200])
    a.units = (u, at_text(n, "GEV"), at_text(n, "MEV"))


def result(a, I, F, tag, W, L, B, others, exits_, normal, record, E):
    k = normal[0] if normal else 0
    t = list(L.exits.values())[k]
    close = L.closes[list(L.exits)[k]]
    fin = lambda s: close[s]
    u = getattr(a, "units", None)
    if u is None:
        return
    slot, gev, mev = u
    init = L.inits[slot]
    a.ob("units", tag + "default-is-GeV", init is gev, W, show(init)[:100])
    fu, fb = fin(slot), fin(B)
    leaf = [(l, x) for l, x in paths(spread(I.result), 200000) if not (x.op == "agg" and x.a[1] == "Err")]
    seen = {}
    for want, nm in ((gev, "GEV"), (mev, "MEV")):
        ok = False
        for l, x in leaf:
            y = x
            y = subst(y, {fu: want})
            sel = all(decide(at, v, fu, want) is not False for at, v in l)
            if not sel:
                continue
            seen.setdefault(nm, []).append(payload(y, "Ok") if y.op == "agg" and y.a[1] == "Ok" else y)
    plain = lambda t: is_call(t, BUILD) and t.a[1] is fb
    for nm, factor in (("GEV", None), ("MEV", 1000)):
        vs = list(dict.fromkeys(seen.get(nm, [])))
        def right(v):
            if not is_call(v, BUILD):
                return False
            if factor is None:
                return v.a[1] is fb
            q = v.a[1]
            if q.op == "post" and is_call(q.a[0], RESCALE):
                c = q.a[0]
                return c.a[1] is fb and mul(c.a[2], cint(factor)) is ONE
            return False
        a.ob("units", tag + nm + " event", len(vs) >= 1 and all(right(v) for v in vs), W, "; ".join(show(v)[:300] for v in vs) or "no result")


def decide(at, v, x, want):
    """truth of the literal (at, v) where x is `want`; None if it does not tell"""
    if not contains(at, lambda t: t is x):
        return None
    r = subst(b_atom(at), {x: want})
    return (r is TRUE) == v if r in (TRUE, FALSE) else None


def weight_names(a, I, F, tag, L, ln, B, ev, err_, names, wf, of, record, E, nr, go):
    W = where(I.entry)
    inner = [l for l in I.loops.values() if L.id in l.parents and any(contains(n, lambda t: t.op == "push" and t.a[0].op == "fld" and t.a[0].a[1] == wf) for n in l.nexts.values())]
    inner = [l for l in inner if any(contains(n, lambda t: t.op == "inner") for n in l.nexts.values())]
    if not a.ob("line N", tag + "one-loop-over-names", len(inner) == 1, W, "%d" % len(inner)):
        return
    M = inner[0]
    iM = mk("i", M.id)
    name = mk("inner", tok(ln, add(cint(2), iM)))
    wt = mk("num", "f64", tok(record, add(add(cint(13), nr), iM)))
    sub_ = lambda t: canon(t, a.raw, E)
    slots = [s for s, n in M.nexts.items() if contains(n, lambda t: t.op == "push")]
    if not a.ob("line N", tag + "one-list", len(slots) == 1, W, ""):
        return
    s = slots[0]
    n = sub_(M.nexts[s])
    pushed = [(c, x) for c, x in cases(all_parse(n)) if x is not s]
    ok = len(pushed) == 1
    if ok:
        c, x = pushed[0]
        l = field(x, wf) if s.op != "fld" else x
        l0 = field(s, wf) if s.op != "fld" else s
        val = l.a[1] if l.op == "push" and l.a[0] is l0 else UNDEF
        a.ob("line N", tag + "weight-in-the-position-of-its-name", val is wt, W, show(val)[:300])
        m = member(c, name, names, M, sub_)
        a.ob("line N", tag + "exactly-the-requested-names", m is None, W, m or "")
        if s.op != "fld":
            a.ob("line N", tag + "nothing-else-changed", with_field(x, wf, l0) is s, W, "")
        # what is missing is found out from the names seen
        book = [q for q in M.nexts if q is not s and all_parse(sub_(M.nexts[q])) is not q]
        a.ob("line N", tag + "names-seen-are-recorded", any(implies_change(sub_(M.nexts[q]), q, c) for q in book), W, "%d values" % len(book))
        fins = {}
        for t, cl in M.closes.items():
            for q in book:
                fins.setdefault(cl[q], q)
        e = exits_as_any(I, all_parse(err_))
        for at in atoms_deep(e):
            if at.op == "exit" and at.a[0] == M.id:
                e = given(e, b_atom(at))
        e0 = subst(e, {f: sub_(M.inits[q]) for f, q in fins.items()})
        e0 = given(anyfold(e0), b_not(cmp_eq(length(names), ZERO)))
        a.ob("line N", tag + "missing-name-is-an-error", e0 is TRUE and e is not TRUE, W, "without any name on the line: " + show(e0)[:300])
        full = {}
        for f, q in fins.items():
            i0 = M.inits[q]
            if i0.op == "mapof":
                full[f] = rewrite(i0, lambda t: TRUE if t is FALSE else None)
        if full:
            e1 = given(anyfold(subst(e, full)), b_not(cmp_eq(length(names), ZERO)))
            a.ob("line N", tag + "all-names-seen-is-no-error", e1 is FALSE, W, show(e1)[:300])
    else:
        a.ob("line N", tag + "requested-weights-are-added", False, W, show(n)[:300])
    # range: one name per announced name, no more than there are weights
    want = [number("u32", ln, 1), mk("num", "u32", tok(record, add(cint(12), nr)))]
    got = sub_(M.trip) if M.trip is not None else None
    rng = got is not None and (got is want[0] or got.op == "ite" and set(leaves(got)) <= set(want) and want[0] in set(leaves(got)) or got.op == "min" and set(got.a) == set(want))
    a.ob("line N", tag + "every-name-on-the-line", rng, W, "names looked at: %s" % (show(got)[:300] if got is not None else "unknown"))
    after = [l for _, l in cases(all_parse(ev))]
    a.ob("line N", tag + "weights-go-to-the-event", all(x.op == "fin" or x is B or any(x is cl[s] for cl in M.closes.values()) for x in after) and any(x is not B for x in after), W, "; ".join(show(x)[:200] for x in after))


def implies_change(n, q, c):
    """the value q changes whenever the name is one of the wanted ones"""
    r = restrict_deep1(all_parse(n), c)
    return all(l is not q for l in leaves(r))


def anyfold(t):
    t = rewrite(t, lambda x: x.a[1] if x.op == "mapof" else None)
    def f(x):
        if x.op == "ite" and x.a[0].op == "b" and x.a[0].a[0].op == "any" or x.op == "ite" and x.a[0].op == "any":
            y = x.a[0] if x.a[0].op == "any" else x.a[0].a[0]
            if y.a[1] in (TRUE, FALSE):
                c = b_not(cmp_eq(y.a[0], ZERO)) if y.a[1] is TRUE else FALSE
                return ite(c, anyfold(x.a[1]), anyfold(x.a[2]))
        return None
    return rewrite(t, f)


def member(c, name, names, M, sub_):
    """None if the condition c says that `name` is one of the requested names, else what is wrong"""
    lits = paths(c)
    pos = [l for l, x in lits if x is TRUE]
    ats = list(dict.fromkeys(at for l in lits for at, _ in l[0]))
    if len(ats) != 1:
        return "depends on " + "; ".join(show(at)[:120] for at in ats)
    at = ats[0]
    v = restrict(c, b_atom(at)) is TRUE
    x = at.a[0] if isinstance(at.a[0], T) else None
    if at.op == "is" and x.op in ("map_get", "mget") or at.op == "is" and x.op == "call" and str(x.a[0]).startswith("map_get"):
        present = (at.a[1] == "None") != v
        mp, key = (x.a[-2], x.a[-1])
    elif at.op == "is" and len(x.a) == 2:
        present = (at.a[1] == "None") != v
        mp, key = x.a
    else:
        y = at if at.op in ("any",) else x
        if y is not None and y.op == "any":
            src, cond = y.a[0], y.a[1]
            bv = y.a[2]
            good = src is length(names) and cond is as_bool(gen_eq(index(names, bv), name)) and v
            return None if good else show(y)[:200]
        if y is not None and y.op == "call" and str(y.a[0]).endswith("contains"):
            return None if v and y.a[1] is names and y.a[2] is name else show(y)[:200]
        return show(at)[:200]
    if not present:
        return "added if the name is not requested"
    if key is not name:
        return "name looked up: " + show(key)[:150]
    init = sub_(M.inits.get(mp, mp))
    if not contains(init, lambda t: t is names):
        return "names looked up in " + show(init)[:150]
    return None
