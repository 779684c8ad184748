"""Value analysis of reading and updating STRIPPER XML files: positions in a record are what is left behind literals, blanks and
numbers; the record parser, the scaling on reading, the weight update and the normalization are compared with the format (one
arbitrary particle, one arbitrary input file, all short sequences of normalization and event files)."""
from itertools import product
from an.terms import *
from an.query import *
from an.rule import where
from an.interp import map_get
from rules.records import *
from rules.C11 import builder_fields, vec_fields
from rules.C16 import (update, update_all, header, sink_writes, pieces, join, always_err, readers, NEXT, before)
from rules.C17 import lits

PARSE = "cres::stripper_xml::StripperXmlParser::parse_stripper_xml"
BUILD = "cres::event::EventBuilder::build"
KIND = "stripper_xml"
INFO = "cres::stripper_xml::extract_xml_info"


def check(a):
    for fs in ("full", "single"):
        F = a.facts(fs, ("cres",))
        tag = "" if fs == "full" else "no-multiweight "
        if not any("Converter" in (b["impl_self"] or "") for b in F.impls.get(PARSE, [])):
            a.ob("present", tag + "parser", False, "", "no parser for STRIPPER XML records")
            continue
        reading(a, F, tag)
        rescaling(a, F, tag)
        update(a, F, KIND, tag + "xml ", fs == "full", scale=lambda I: scale_of(I, F))
        update_all(a, F, KIND, tag + "xml ")
        target(a, F, tag)
        scaling(a, F, tag)
        info(a, F, tag)


# ---------------------------------------------------------------- positions
def after(x, s):
    return subslice(x, cint(len(s)), length(x))


def sp(x):
    return mk("sp", x)


def ws(x):
    return mk("sp", x, "white")


def weight_at(R):
    return after(sp(after(R, "<se")), 'w="')


def starts(x, s):
    if len(s) == 1:
        return b_and(cmp_lt(ZERO, length(x)), cmp_eq(index(x, ZERO), cint(ord(s))))
    return b_atom(mk("begins", s, x))


def found(x, s):
    f = mk("call", "core::str::{str}::find", x, const("char" if len(s) == 1 else "str", s))
    return b_not(as_bool(is_variant(f, None, "None"))), payload(f, "Some")


def weight_conditions(R):
    """what a record has to be for the weight to be read"""
    return [('"<se"', starts(R, "<se")), ("blank", b_atom(mk("parses", "blank", after(R, "<se"), ZERO))),
            ('w="', starts(sp(after(R, "<se")), 'w="')), ("number", parses("f64", weight_at(R), ZERO))]


def scale_field(F):
    return [f[0] for f in F.adts["cres::stripper_xml::FileIO"]["variants"][0]["fields"] if f[1] == "f64"]


def scale_of(I, F):
    return field(I.params[0], scale_field(F)[0])


# ---------------------------------------------------------------- reading
def reading(a, F, tag):
    body = a.impl(PARSE, "Converter", F)
    I = a.interp(body, F, opaque={BUILD})
    W = where(I.entry)
    R = I.params[1]
    of, wf = builder_fields(F)
    comp_f, _ = vec_fields(F)
    Ls = [L for L in I.loops.values() if any(contains(n, lambda t: t.op == "push" and contains(t.a[0], lambda x: x.op == "fld" and x.a[1] == of)) for n in L.nexts.values())]
    if not a.ob("record", tag + "one-loop-over-particles", len(Ls) == 1 and not Ls[0].parents, W, "%d loops" % len(Ls)):
        return
    L = Ls[0]
    bs = [s for s, n in L.nexts.items() if contains(n, lambda t: t.op == "push")]
    w = weight_at(R)
    behind = mk("cur", w, ONE)
    isend, end = found(behind, ">")
    first = subslice(behind, add(end, ONE), length(behind))
    ps = [s for s in L.nexts if L.inits[s] is first]
    if not a.ob("record", tag + "particles-start-behind-the-tag", len(bs) == 1 and len(ps) == 1, W, "; ".join(show(x)[:200] for x in L.inits.values())):
        return
    B, P = bs[0], ps[0]
    v = field(L.inits[B], wf)
    num = mk("num", "f64", tok(w, ZERO))
    a.ob("record", tag + "weight-is-the-attribute-w", length(v) is ONE and index(v, ZERO) is num or v is num, W, show(v)[:300])
    a.ob("record", tag + "no-particles-before", length(field(L.inits[B], of)) is ZERO, W, show(field(L.inits[B], of))[:200])
    # one particle
    g = lits(L.guard)
    keys = list(L.exits)
    STOP = ERR = FALSE
    ends = []
    for k, t in enumerate(keys):
        G = given(exits_as_any(I, L.exits[t][0]), *g)
        x = at_exit(I, L.id, given(I.result, *g), k)
        if always_err(x):
            ERR = b_or(ERR, G)
        else:
            ends.append(x)
            STOP = b_or(STOP, G)
    p = after(ws(P), "<p")
    here = starts(ws(P), "<p")
    a.ob("particles", tag + "all-of-them", given(STOP, here) is FALSE and given(STOP, b_not(here)) is TRUE and given(ERR, b_not(here)) is FALSE, W, "stops if %s" % show(STOP)[:300])
    st = after(sp(p), 'id="')
    status, r = mk("num", "i32", tok(st, ZERO)), mk("cur", st, ONE)
    final = cmp_eq(status, ZERO)
    pre = [here, starts(sp(p), 'id="'), parses("i32", st, ZERO)]
    # any other particle
    isend, at = found(r, "</p>")
    nb, np = [given(exits_as_any(I, L.nexts[s]), *(g + pre + [b_not(final), isend])) for s in (B, P)]
    a.ob("particles", tag + "only-outgoing-ones", nb is B, W, show(nb)[:200])
    a.ob("particles", tag + "goes-on-behind-any-other-one", np is subslice(r, add(at, cint(4)), length(r)), W, show(np)[:300])
    # an outgoing particle
    c = after(r, ",")
    q = after(mk("cur", c, ONE), '">')
    conds = pre + [final, starts(r, ","), parses("i32", c, ZERO), starts(mk("cur", c, ONE), '">')]
    names = ['"<p"', 'id="', "status", "", '","', "particle id", '">']
    ms = [m for m in (subslice(q, ONE, length(q)), q) if contains(ERR, lambda t: t.op == "parses" and t.a[1] is m)]
    if not a.ob("particles", tag + "momentum-behind-the-tag", len(ms) == 1, W, "%d" % len(ms)):
        return
    m = ms[0]
    mom = []
    for k in range(4):
        if k:
            conds.append(starts(m, ","))
            names.append("comma")
            m = after(m, ",")
        conds.append(parses("f64", m, ZERO))
        names.append("momentum entry %d" % k)
        mom.append(mk("num", "f64", tok(m, ZERO)))
        m = mk("cur", m, ONE)
    conds.append(starts(sp(m), "</p>"))
    names.append("</p>")
    flat = [y for x in conds for y in (x.a if x.op == "and" else (x,))]
    nb, np, e = [given(exits_as_any(I, x), *(g + flat)) for x in (L.nexts[B], L.nexts[P], ERR)]
    l0, l1 = field(B, of), field(nb, of)
    if a.ob("particles", tag + "outgoing-one-is-added", l1.op == "push" and l1.a[0] is l0, W, show(nb)[:300]):
        pid = field(l1.a[1], "0")
        while pid.op == "agg" and len(pid.a[3]) == 1 or is_call(pid, "ParticleID::new"):
            pid = pid.a[3][0] if pid.op == "agg" else pid.a[1]
        a.ob("particles", tag + "particle-id", pid is mk("num", "i32", tok(c, ZERO)), W, show(pid)[:200])
        vec = field(field(l1.a[1], "1"), comp_f)
        for k, nm in enumerate(("energy", "px", "py", "pz")):
            a.ob("particles", tag + nm, index(vec, cint(k)) is mom[k], W, show(index(vec, cint(k)))[:300])
    a.ob("particles", tag + "weights-kept", field(nb, wf) is field(B, wf), W, "")
    a.ob("particles", tag + "goes-on-behind-the-particle", np is after(sp(m), "</p>"), W, show(np)[:300])
    a.ob("particles", tag + "well-formed-is-accepted", e is FALSE, W, show(e)[:300])
    # malformed particles
    for k, (nm, cd) in enumerate(zip(names, conds)):
        if k == 0 or not nm:
            continue
        x = given(exits_as_any(I, ERR), *(g + [y for z in conds[:k] for y in (z.a if z.op == "and" else (z,))] + [b_not(cd)]))
        a.ob("particles", tag + "missing %s is reported%s" % (nm, "" if names.count(nm) == 1 else " %d" % k), x is TRUE, W, "error if %s" % show(x)[:200])
    x = given(exits_as_any(I, ERR), *(g + pre + [b_not(final), b_not(isend)]))
    a.ob("particles", tag + "missing end of any other particle is reported", x is TRUE, W, "error if %s" % show(x)[:200])
    # result
    ok = bool(ends) and all(y.op == "agg" and y.a[1] == "Ok" and is_call(payload(y, "Ok"), BUILD) and payload(y, "Ok").a[1] is B for x in ends for y in leaves(x))
    a.ob("record", tag + "event-of-all-particles", ok, W, "; ".join(show(x)[:200] for x in ends))
    wc = weight_conditions(R) + [(">", found(behind, ">")[0])]
    for k, (nm, cd) in enumerate(wc):
        x = given(I.result, *([z for _, z in wc[:k]] + [b_not(cd)]))
        a.ob("record", tag + "missing %s is reported" % nm, always_err(x), W, show(x)[:200])


def rescaling(a, F, tag):
    """what the event source hands out is the record with the scaled weight"""
    body = a.impl("core::iter::traits::iterator::Iterator::next", "stripper_xml::FileIO", F)
    rd = readers(F, KIND)
    I = a.interp(body, F, opaque=rd)
    W = where(I.entry)
    raws = [e for e in I.events if e.kind == "call" and e.name in rd]
    if not a.ob("scaling on reading", tag + "one-record-is-read", len(raws) == 1 and raws[0].guard is TRUE and not raws[0].loops, W, "%d reads" % len(raws)):
        return
    raw = raws[0].res
    none = as_bool(is_variant(raw, None, "None"))
    okr = as_bool(is_variant(payload(raw, "Some"), None, "Ok"))
    R = payload(payload(raw, "Some"), "Ok")
    x = given(I.result, none)
    a.ob("scaling on reading", tag + "end", x.op == "agg" and x.a[1] == "None", W, show(x)[:200])
    some = given(I.result, b_not(none))
    x = given(payload(some, "Some"), b_not(none), b_not(okr))
    a.ob("scaling on reading", tag + "read-error-is-reported", always_err(x), W, show(x)[:200])
    wc = [c for _, c in weight_conditions(R)]
    x = given(payload(some, "Some"), b_not(none), okr, *wc)
    y = payload(x, "Ok") if x.op == "agg" and x.a[1] == "Ok" else UNDEF
    txt = y.a[3][0] if y.op == "agg" and y.a[1] == "StripperXml" else UNDEF
    s = sub(length(R), length(weight_at(R)))
    e = sub(length(R), length(mk("cur", weight_at(R), ONE)))
    want = [mk("sub", R, ZERO, s), mk("call", "to_string", mul(scale_of(I, F), mk("num", "f64", tok(weight_at(R), ZERO)))), mk("sub", R, e, length(R))]
    ps = pieces(txt) if txt is not UNDEF else []
    a.ob("scaling on reading", tag + "weight-times-scale", ps == want, W, "; ".join(show(p)[:200] for p in ps) or show(x)[:300])
    for k, (nm, cd) in enumerate(weight_conditions(R)):
        z = given(payload(some, "Some"), b_not(none), okr, *(wc[:k] + [b_not(cd)]))
        a.ob("scaling on reading", tag + "missing %s is reported" % nm, always_err(z), W, show(z)[:200])


# ---------------------------------------------------------------- opening a file for reading and writing
def target(a, F, tag):
    name, rd = "cres::stripper_xml::FileIO::try_new", "cres::stripper_xml::FileReader::try_new"
    I = a.interp(name, F, opaque={rd, INFO, "cres::compression::compress_writer"})
    W = where(I.entry)
    es = [e for e in I.events if e.kind == "call" and e.name == rd]
    ins = [e for e in I.events if e.kind == "call" and e.name == INFO]
    ws = sink_writes(I)
    if not a.ob("header", tag + "one-source", len(es) == 1 and len(ins) == 1, W, "%d readers, %d headers" % (len(es), len(ins))):
        return
    r = payload(es[0].res, "Ok")
    adt = F.adts["cres::stripper_xml::FileReader"]["variants"][0]["fields"]
    hf = [f[0] for f in adt if "Vec<u8" in f[1]][0]
    hd = field(r, hf)
    a.ob("header", tag + "header-is-written-first", len(ws) == 1 and ws[0][1] is hd and not ws[0][0].loops, W, "; ".join(show(t)[:200] for _, t in ws if t is not None) or "nothing is written")
    a.ob("header", tag + "channel-of-this-file", ins[0].args[0] is hd, W, show(ins[0].args[0])[:200])
    if len(ws) != 1:
        return
    tagv = payload(ins[0].res, "Ok")
    scaling_ = [x for x in I.params if "scaling" in show(x)] or [I.params[-1]]
    got = map_get(scaling_[0], field(downcast(tagv, "Eventrecord"), "name"))
    oks = [(l, x) for l, x in paths(spread(I.result)) if x.op == "agg" and x.a[1] == "Ok"]
    fs = F.adts["cres::stripper_xml::FileIO"]["variants"][0]["fields"]
    sinkf = [f[0] for f in fs if "Write" in f[1]]
    rdf = [f[0] for f in fs if "FileReader" in f[1]]
    if a.ob("header", tag + "can-succeed", bool(oks) and len(sinkf) == len(rdf) == 1 and len(scale_field(F)) == 1, W, "%d paths" % len(oks)):
        for l, x in oks:
            io = payload(x, "Ok")
            a.ob("scale", tag + "scale-of-the-channel", field(io, scale_field(F)[0]) is payload(got, "Some"), W, show(field(io, scale_field(F)[0]))[:200])
            a.ob("header", tag + "records-follow-in-the-same-file", contains(field(io, sinkf[0]), lambda t: t is ws[0][0].args[0] or t.op == "post" and t.a[0] is ws[0][0].res) and field(io, rdf[0]) is r, W, "")
            holds = conj(l)
            for nm, cd in (("header-written", as_bool(is_variant(ws[0][0].res, None, "Ok"))), ("scale-known", b_not(as_bool(is_variant(got, None, "None")))), ("event-file", is_event(tagv))):
                a.ob("scale" if nm != "header-written" else "header", tag + "success-only-if-" + nm, given(holds, b_not(cd)) is FALSE, W, "")


def conj(l):
    r = TRUE
    for at, v in l:
        r = b_and(r, b_atom(at) if v else b_not(b_atom(at)))
    return r


def is_event(t):
    return b_not(as_bool(is_variant(t, None, "Normalization")))


# ---------------------------------------------------------------- normalization of the channels
def scaling(a, F, tag):
    name = "cres::stripper_xml::extract_scaling"
    I = a.interp(name, F, opaque={INFO})
    W = where(I.entry)
    es = [e for e in I.events if e.kind == "call" and e.name == INFO]
    Ls = {e.loops for e in es}
    if not a.ob("normalization", tag + "one-look-at-every-file", len(es) == 1 and len(es[0].loops) == 1, W, "%d calls" % len(es)):
        return
    L = I.loops[es[0].loops[0]]
    iL = mk("i", L.id)
    files = I.params[0]
    a.ob("normalization", tag + "all-files", L.trip is length(files), W, show(L.trip)[:200] if L.trip is not None else "no count")
    opens = [e for e in I.events if e.kind == "call" and e.name.endswith("fs::File::open")]
    a.ob("normalization", tag + "of-that-file", len(opens) == 1 and opens[0].args[0] is field(index(files, iL), "0") and contains(es[0].args[0], lambda t: t is payload(opens[0].res, "Ok")), W, show(es[0].args[0])[:300])
    okx, T = as_bool(is_variant(es[0].res, None, "Ok")), payload(es[0].res, "Ok")
    norm = as_bool(is_variant(T, None, "Normalization"))
    N, E = downcast(T, "Normalization"), downcast(T, "Eventrecord")
    g = lits(es[0].guard) + [okx]
    xmls = [x for x in atoms_deep(es[0].guard) if x.op == "begins" and x.a[0] == "<?xml"]
    a.ob("normalization", tag + "recognised-by-<?xml", len(xmls) == 1 and contains(xmls[0].a[1], lambda t: t.op == "call" and str(t.a[0]).endswith("BufRead::fill_buf")), W, "; ".join(show(x)[:200] for x in xmls))
    ms = [s for s in L.nexts if L.inits[s].op == "emptymap"]
    vs = [s for s, n in L.nexts.items() if contains(n, lambda t: t.op == "push")]
    if not a.ob("normalization", tag + "one-table-and-one-list", len(ms) == 1 and len(vs) == 1 and length(L.inits[vs[0]]) is ZERO, W, "%d tables, %d lists" % (len(ms), len(vs))):
        return
    S, V = ms[0], vs[0]
    nS, nV = [exits_as_any(I, x) for x in (L.nexts[S], L.nexts[V])]
    item = index(files, iL)
    added = lambda x: x.op == "push" and x.a[0] is V and field(x.a[1], "0") is field(item, "0") and field(x.a[1], "1") is field(item, "1")
    x = given(nV, *(g + [norm]))
    a.ob("normalization", tag + "normalization-is-no-event-file", x is V, W, show(x)[:200])
    x = given(nV, *(g + [b_not(norm)]))
    a.ob("normalization", tag + "event-files-are-kept", added(x), W, show(x)[:200])
    xml = b_atom(xmls[0]) if len(xmls) == 1 else TRUE
    filled = [y for y in atoms_deep(es[0].guard) if y.op == "is" and y.a[0].op == "call" and str(y.a[0].a[0]).endswith("BufRead::fill_buf")]
    for nm, cs in (("other-files-are-kept", [b_atom(y) for y in filled] + [b_not(xml)]), ("unreadable-files-are-kept", [b_not(b_atom(y)) for y in filled])):
        base = [z for z in lits(es[0].guard) if z is not xml and z not in [b_atom(y) for y in filled]]
        x, y = given(nV, *(base + cs)), given(nS, *(base + cs))
        a.ob("normalization", tag + nm, added(x) and y is S, W, "%s; %s" % (show(x)[:200], show(y)[:200]))
    # the table
    sets = []
    for nm, cs, key in (("normalization", [norm], field(N, "name")), ("events", [b_not(norm)], field(E, "name"))):
        x = given(nS, *(g + cs))
        if not a.ob("normalization", tag + nm + "-of-the-named-channel", x.op == "minsert" and x.a[0] is S and x.a[1] is key, W, show(x)[:300]):
            return
        sets.append((x.a[2], map_get(S, key)))
    # value of the table that is handed out, for all short sequences of files
    oks = [x for x in leaves(I.result) if x.op == "agg" and x.a[1] == "Ok"]
    if not a.ob("normalization", tag + "result", len(oks) == 1, W, "%d" % len(oks)):
        return
    out = payload(oks[0], "Ok")
    fin_ = [t for t in subterms(field(out, "1")) if t.op == "fin" and t.a[0] == L.id]
    mp = field(out, "1")
    comp = mp.a[1] if mp.op == "mapof" else mp
    okc = comp.op == "comp" and comp.a[0].op == "len" and comp.a[0].a[0] in fin_
    if not a.ob("normalization", tag + "every-channel", okc, W, show(comp)[:300]):
        return
    ent = index(comp.a[0].a[0], comp.a[4])
    a.ob("normalization", tag + "by-name", field(comp.a[1], "0") is field(ent, "0"), W, show(field(comp.a[1], "0"))[:200])
    val, cond = field(comp.a[1], "1"), comp.a[2]
    for n in (1, 2, 3):
        for seq in product("NE", repeat=n):
            if seq.count("N") > 1 or "E" not in seq:
                continue
            e, tot, sc = None, ZERO, None
            for i, c in enumerate(seq):
                new, old = sets[0 if c == "N" else 1]
                sy = mk("sym", "%s%d" % (c, i))
                if c == "N":
                    sc = sy
                else:
                    tot = add(tot, sy)
                isnone = as_bool(is_variant(old, None, "None"))
                if e is None:
                    e = subst(given(new, isnone), {field(N, "scale"): sy, field(E, "nevents"): sy})
                else:
                    e = subst(given(new, b_not(isnone)), {field(N, "scale"): sy, field(E, "nevents"): sy, payload(old, "Some"): e})
                e = simp_fields(e)
            v = simp_fields(subst(val, {field(ent, "1"): e}))
            c = simp_fields(subst(cond, {field(ent, "1"): e}))
            nm = "+".join({"N": "normalization", "E": "events"}[c] for c in seq)
            if sc is None:
                a.ob("normalization", tag + "no scale without normalization: " + nm, c is FALSE, W, "%s if %s" % (show(v)[:200], show(c)[:100]))
            else:
                a.ob("normalization", tag + "cross section over number of events: " + nm, c is TRUE and v is div(sc, tot), W, "%s if %s" % (show(v)[:200], show(c)[:100]))
    # errors
    for nm, cs in (("file that cannot be opened", [b_not(as_bool(is_variant(opens[0].res, None, "Ok")))]), ("malformed header", lits(es[0].guard) + [b_not(okx)])):
        G = FALSE
        good = True
        for k, t in enumerate(L.exits):
            gg = given(exits_as_any(I, L.exits[t][0]), cmp_lt(iL, length(files)), *cs)
            if gg is FALSE:
                continue
            G = b_or(G, gg)
            good = good and always_err(given(at_exit(I, L.id, I.result, k), *cs))
        a.ob("normalization", tag + nm + " is reported", G is TRUE and good, W, "leaves if %s" % show(G)[:200])


def simp_fields(t):
    """t with selections from known values carried out"""
    def f(x):
        if x.op == "fld":
            y = field(x.a[0], x.a[1])
            return y if y is not x else None
        if x.op == "as":
            y = downcast(x.a[0], x.a[1])
            return y if y is not x else None
        return None
    return rewrite(t, f)


def spelled(t, x, s):
    """t for the byte string x being s"""
    d = {length(x): cint(len(s))}
    d.update({index(x, cint(k)): cint(ord(c)) for k, c in enumerate(s)})
    return subst(t, d)


def info(a, F, tag):
    """name, normalization and numbers of events that a header announces"""
    I = a.interp(INFO, F)
    W = where(I.entry)
    oks = [x for l, x in paths(spread(I.result), 200000) if x.op == "agg" and x.a[1] == "Ok"]
    nm = list(dict.fromkeys(x for l, x in paths(spread(I.result), 200000) for at, v in l for x in subterms(at) if x.op == "call" and str(x.a[0]).endswith("BytesStart::name")))
    if not a.ob("channel", tag + "one-tag-is-looked-at", len(nm) == 1, W, "%d" % len(nm)):
        return
    name = nm[0]
    start = name.a[1]
    def under_name(s):
        x = spelled(I.result, name, s)
        return [y for l, y in paths(spread(x), 200000) if y.op == "agg" and y.a[1] == "Ok"]
    # normalization
    ns = list(dict.fromkeys(payload(x, "Ok") for x in under_name("Normalization")))
    ok = bool(ns) and all(n.op == "agg" and n.a[1] == "Normalization" for n in ns)
    if a.ob("channel", tag + "normalization-file", ok, W, "; ".join(show(n)[:200] for n in ns)):
        for n in ns:
            v, sc = field(n, "name"), field(n, "scale")
            base = v.a[0].a[0] if v.op == "fld" and v.a[1] == "name" and v.a[0].op == "fld" and v.a[0].a[1] == "contribution" else None
            a.ob("channel", tag + "name-of-the-contribution", base is not None, W, show(v)[:200])
            a.ob("channel", tag + "first-cross-section", base is not None and sc is index(field(field(v.a[0], "xsection"), "0"), ZERO), W, show(sc)[:200])
    # events
    es = list(dict.fromkeys(payload(x, "Ok") for x in under_name("Eventrecord")))
    ok = bool(es) and all(n.op == "agg" and n.a[1] == "Eventrecord" for n in es)
    if not a.ob("channel", tag + "event-file", ok, W, "; ".join(show(n)[:200] for n in es)):
        return
    Ls = [L for L in I.loops.values() if L.trip is not None and contains(L.trip, lambda t: t.op == "call" and str(t.a[0]).endswith("BytesStart::attributes"))]
    if not a.ob("channel", tag + "one-pass-over-the-attributes", len(Ls) == 1, W, "%d" % len(Ls)):
        return
    L = Ls[0]
    at = index(L.trip.a[0], mk("i", L.id)) if L.trip.op == "len" else UNDEF
    A = payload(at, "Ok")
    key, value = field(field(A, "key"), "0"), field(A, "value")
    okat = as_bool(is_variant(at, None, "Ok"))
    slot_of = {}
    for nm_ in ("name", "nevents", "nsubevents", "as"):
        ch = []
        for s, n in L.nexts.items():
            x = exits_as_any(I, n)
            x = given(spelled(x, key, nm_), okat)
            parsed = [y for y in atoms_deep(x) if y.op == "is" and y.a[0].op == "call" and y.a[-1] == "Ok"]
            x = given(x, *[b_atom(y) for y in parsed])      # any failure is an error
            if any(y is not s and y is not UNDEF for y in leaves(x)):
                ch.append((s, x))
        ok = len(ch) == 1 and all(y.op == "agg" and y.a[1] == "Some" for y in leaves(ch[0][1]) if y is not UNDEF)
        if a.ob("channel", tag + "attribute " + nm_, ok, W, "; ".join(show(x)[:200] for s, x in ch)):
            slot_of[nm_] = ch[0][0]
            vals = [payload(y, "Some") for y in leaves(ch[0][1]) if y is not UNDEF]
            a.ob("channel", tag + "attribute %s has its value" % nm_, vals and all(contains(v, lambda t: t is value) for v in vals), W, "; ".join(show(v)[:200] for v in vals))
            init = L.inits[ch[0][0]]
            a.ob("channel", tag + "attribute %s is required" % nm_, init.op == "agg" and init.a[1] == "None", W, show(init)[:100])
        if nm_ != "as":
            bad = [b_not(b_atom(y)) for s, n in L.nexts.items() for y in atoms_deep(given(spelled(exits_as_any(I, n), key, nm_), okat)) if y.op == "is" and y.a[0].op == "call" and y.a[-1] == "Ok" and contains(y.a[0], lambda t: t is value)]
            for c in list(dict.fromkeys(bad)):
                G, good = FALSE, True
                for k, t in enumerate(L.exits):
                    gg = given(spelled(given(exits_as_any(I, L.exits[t][0]), *lits(spelled(L.guard, name, "Eventrecord"))), key, nm_), cmp_lt(mk("i", L.id), L.trip), okat, c)
                    if gg is not FALSE:
                        G = b_or(G, gg)
                        good = good and always_err(given(spelled(at_exit(I, L.id, spelled(I.result, name, "Eventrecord"), k), key, nm_), okat, c))
                a.ob("channel", tag + "malformed attribute %s is reported" % nm_, spelled(G, name, "Eventrecord") is TRUE and good, W, "leaves if %s" % show(G)[:300])
    full = spelled(I.result, name, "Eventrecord")
    for nm_, s in slot_of.items():
        if nm_ == "as":
            continue
        for f in {L.closes[t][s] for t in L.closes if s in (L.closes[t] or {})}:
            x = given(full, as_bool(is_variant(f, None, "None")))
            okx = [y for l, y in paths(spread(x), 200000) if y.op == "agg" and y.a[1] == "Ok" and contains(y, lambda t: t is f)]
            a.ob("channel", tag + "missing attribute %s is reported" % nm_, not okx, W, "; ".join(show(y)[:200] for y in okx))
    for f, nm_ in (("name", "name"), ("nevents", "nevents"), ("nsubevents", "nsubevents")):
        s = slot_of.get(nm_)
        if s is None:
            continue
        ends = [t for t in L.closes if s in (L.closes[t] or {})]
        want = {payload(L.closes[t][s], "Some") for t in ends}
        a.ob("channel", tag + f + " of the event file", all(field(n, f) in want for n in es), W, "; ".join(show(field(n, f))[:200] for n in es))
