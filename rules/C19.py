"""Value and loop analysis of the readers of event files.  The loop that collects a record (or the header) is taken as a
transition system over the collected bytes and the rest of the stream; each of its cases (read error, end of file, terminator
reached, terminator not yet reached) is decided separately.  The delimiter has to be the last byte of the terminator, so that no
terminator is passed over, and the bytes that are taken off the end have to be those the next record starts from.  Rewinding is
compared field by field with constructing the reader anew."""
from an.terms import *
from an.query import *
from an.rule import where
from rules.records import *
from rules.C16 import readers

REWIND = "cres::traits::Rewind::rewind"
NEXT = "core::iter::traits::iterator::Iterator::next"
# format: (terminator of a record, bytes that belong to the next one, terminator of the header, bytes behind the header, end of file is a record)
FORMATS = {
    "hepmc2": (b"\nE", 1, b"\nE", 1, True, "HepMC"),
    "lhef": (b"</event>", 0, b"\n</init>", 0, False, "LHEF"),
    "stripper_xml": (b"<se", 3, b"<se", 3, True, "StripperXml"),
}


def check(a):
    for fs in ("full", "single"):
        F = a.facts(fs, ("cres",))
        for kind, spec in FORMATS.items():
            tag = "" if fs == "full" else "no-multiweight "
            bs = [b for b in F.impls.get(NEXT, []) if (b["impl_self"] or "") == "cres::%s::FileReader" % kind]
            if not bs:
                a.ob("present", tag + kind, fs == "single" and kind == "hepmc2", "", "no reader for %s files" % kind)
                continue
            record(a, F, kind, tag + kind + " ", bs[0], spec)
            header(a, F, kind, tag + kind + " ", spec)
            rewind(a, F, kind, tag + kind + " ")
            through(a, F, kind, tag + kind + " ", spec)


def is_(x, v):
    return as_bool({"Ok": lambda: is_variant(x, None, "Ok"), "Err": lambda: b_not(is_variant(x, None, "Ok")),
                    "Some": lambda: b_not(is_variant(x, None, "None"))}[v]())


# ---------------------------------------------------------------- loops that collect bytes
def lit(t):
    """bytes of a literal, or None"""
    if t.op == "c" and t.a[0] in ("str", "bytes"):
        v = t.a[1]
        return v if isinstance(v, bytes) else str(v).encode()
    if t.op == "agg" and t.a[0] in ("vec", "array") and all(is_num(x) for x in t.a[3]):
        return bytes(int(x.a[1]) for x in t.a[3])
    if t.op == "call" and str(t.a[0]).endswith(("String::new", "Vec::new")):
        return b""
    if t.op == "call" and str(t.a[0]).endswith(("to_vec", "to_owned", "into_vec", "as_bytes")):
        return lit(t.a[1])
    return None


class Cut:
    """the loop L that appends what is read up to a delimiter to the bytes r, from the stream s"""
    def __init__(c, a, I, rule, tag, where_, start, T, strip):
        c.ok = False
        c.I, c.T, c.strip, c.start, c.first = I, T, strip, len(start), start
        ls = []
        for L in I.loops.values():
            for s, n in L.nexts.items():
                R = n.a[0] if n.op == "post" else None
                if R is not None and R.op == "call" and str(R.a[0]).endswith("BufRead::read_until"):
                    if R.a[3] is s:
                        ls.append((L, R, s))
        if not a.ob(rule, tag + "collects-bytes-to-a-delimiter", len(ls) == 1, where_, "%d loops that append what is read up to a delimiter" % len(ls)):
            return
        c.L, c.R, c.r = ls[0]
        L, R = c.L, c.R
        c.s = R.a[1]
        c.s2, c.r2 = mk("post", R, 0), mk("post", R, 2)
        reads = set(x for t in [*L.nexts.values(), *[x[0] for x in L.exits.values()]] for x in subterms(t) if x.op == "call" and str(x.a[0]).split("::")[-1] in ("read_until", "read_line", "read", "skip_until", "consume", "fill_buf", "read_exact", "read_to_end"))
        a.ob(rule, tag + "one-read-at-a-time", reads == {R} and L.nexts.get(c.s) is c.s2, where_, "; ".join(show(x)[:120] for x in reads))
        d = R.a[2]
        a.ob(rule, tag + "no-terminator-is-passed-over", is_num(d) and int(d.a[1]) == T[-1], where_, "delimiter %s, terminator %r" % (show(d), T))
        i0 = lit(L.inits[c.r])
        a.ob(rule, tag + "starts-with-what-was-taken-off-before", i0 == start, where_, "%s" % show(L.inits[c.r])[:100])
        n = payload(R, "Ok")
        c.isok = is_(R, "Ok")
        c.none = cmp_eq(n, ZERO)
        c.some = cmp_lt(ZERO, n)
        ends = set(x for t in [*L.nexts.values(), *[x[0] for x in L.exits.values()]] for y in atoms_deep(t) for x in [y.a[0] if y.op == "b" else y] if x.op == "call" and str(x.a[0]).endswith("ends_with"))
        good = [x for x in ends if x.a[1] in (c.r, c.r2) and lit(x.a[2]) == T]
        if not a.ob(rule, tag + "terminator", len(good) == len(ends) >= 1, where_, "; ".join(show(x)[:150] for x in ends)):
            return
        c.before = [x for x in good if x.a[1] is c.r]
        c.behind = [x for x in good if x.a[1] is c.r2]
        for x in good:
            c.pat = x
        mkE = lambda x: as_bool(mk("call", c.pat.a[0], x, c.pat.a[2]))
        c.E, c.E2 = mkE(c.r), mkE(c.r2)
        c.ok = True

    def at(c, t, lits, eof=False):
        t = subst(t, {c.r2: c.r}) if eof else t
        whole = cmp_eq(length(c.r), cint(c.start))
        # what was read is only ever appended to the first bytes: it equals them if it is as long
        same = [b_atom(x) for x in subterms(t) if x.op == "isval" and x.a[0] is c.r and lit(x.a[1]) == c.first] if c.first is not None else []
        if whole in lits:
            t = subst(t, {length(c.r): cint(c.start)})
            lits = [*lits, *same]
        elif b_not(whole) in lits:
            lits = [*lits, *[b_not(x) for x in same]]
        return given(t, c.L.guard, *lits)

    def leaves_by(c, lits, eof=False):
        """number of the exit taken in this case, 'on' for none, None if it is not decided"""
        on = True
        for k, (t, x) in enumerate(c.L.exits.items()):
            g = c.at(x[0], lits, eof)
            if g is TRUE:
                return k
            if g is not FALSE:
                on = False
        return "on" if on else None


def cases_of(a, c, rule, tag, W):
    """the cases of an iteration: {name: (exit, literals, end of file)}"""
    out = {}
    isok, none, some, E, E2 = c.isok, c.none, c.some, c.E, c.E2
    nE, nE2 = b_not(E), b_not(E2)
    notnone = b_not(none)
    out["error"] = (c.leaves_by([nE, b_not(isok)]), [nE, b_not(isok)], False)
    # nothing was left, or something
    n, n0 = length(c.r), cint(c.start)
    for nm, ls in (("end", [cmp_lt(n0, n), b_not(cmp_lt(n, n0)), b_not(cmp_eq(n, n0))]), ("end-at-once", [b_not(cmp_lt(n0, n)), b_not(cmp_lt(n, n0)), cmp_eq(n, n0)])):
        e = [nE, isok, none] + ls
        out[nm] = (c.leaves_by(e, True), e, True)
    m = [nE, isok, notnone, some, nE2]
    out["more"] = (c.leaves_by(m), m, False)
    f = [nE, isok, notnone, some, E2]
    out["found"] = (c.leaves_by(f), f, False)
    if out["found"][0] == "on":
        # seen at the beginning of the next iteration, before anything else is read
        out["found"] = (c.leaves_by([E]), [E], False)
    for nm, want in (("error", True), ("end", True), ("end-at-once", True), ("more", False), ("found", True)):
        k = out[nm][0]
        a.ob(rule, tag + {"error": "read-error-ends-it", "end": "end-of-file-ends-it", "end-at-once": "end-of-file-ends-it-at-once", "more": "goes-on-without-terminator", "found": "terminator-ends-it"}[nm],
             isinstance(k, int) if want else k == "on", W, "leaves through %s" % (k,))
    return out if all(isinstance(out[k][0], int) for k in ("error", "end", "end-at-once", "found")) else None


def value(c, t, case, n0):
    """t when the loop is left in this case"""
    k, lits, eof = case
    v = at_exit(c.I, c.L.id, t, k)
    v = c.at(v, lits, eof)
    x = c.r if c.E in lits or eof else c.r2
    if c.E in lits or c.E2 in lits:
        for m in range(len(c.T) + 1):
            v = given(v, b_not(cmp_lt(length(x), cint(m))), b_not(cmp_eq(length(x), cint(m - 1))))
    return v, x


def cut_end(x, n):
    return subslice(x, ZERO, sub(length(x), cint(n))) if n else x


def utf8(v):
    return list(dict.fromkeys(t for t in subterms(v) if t.op == "call" and str(t.a[0]).endswith("from_utf8")))


def record(a, F, kind, tag, b, spec):
    T, strip, _, _, tail, variant = spec
    I = a.interp(b, F)
    W, s = where(b), I.params[0]
    post = I.state.get(("obj", s), s)
    c = Cut(a, I, "record", tag, W, T[len(T) - strip:] if strip else b"", T, strip)
    if not c.ok:
        return
    cs = cases_of(a, c, "record", tag, W)
    if not cs:
        return
    src0 = c.L.inits.get(c.s)
    a.ob("record", tag + "from-the-file", src0 is field(s, "source"), W, show(src0)[:200])
    # what is returned
    v, x = value(c, I.result, cs["error"], strip)
    a.ob("record", tag + "read-error-is-reported", given((is_(v, "Some")), TRUE) is TRUE and (is_(payload(v, "Some"), "Err")) is TRUE and contains(v, lambda t: t is payload(c.R, "Err")), W, show(v)[:300])
    def emitted(nm, v, want):
        us = utf8(v)
        good = len(us) == 1 and us[0].a[1] is want
        v1 = given(v, is_(us[0], "Ok")) if good else v
        text = payload(us[0], "Ok") if good else None
        isrec = good and (is_(v1, "Some")) is TRUE and (is_(payload(v1, "Some"), "Ok")) is TRUE
        rec = payload(payload(v1, "Some"), "Ok") if isrec else None
        a.ob("record", tag + nm, isrec and rec.op == "agg" and rec.a[1] == variant and rec.a[3][0] is text, W, show(v)[:400])
    v, x = value(c, I.result, cs["found"], strip)
    emitted("everything-up-to-the-terminator", v, cut_end(x, strip))
    v, x = value(c, field(post, "source"), cs["found"], strip)
    a.ob("record", tag + "next-record-follows", v is (c.s if c.E in cs["found"][1] else c.s2), W, show(v)[:200])
    # end of the file
    v, x = value(c, I.result, cs["end"], strip)
    if tail:
        emitted("rest-of-the-file-is-the-last-one", v, x)
    else:
        # an incomplete last record may be reported as an error
        a.ob("record", tag + "what-is-left-is-no-record", not utf8(v) and all(is_(payload(l, "Some"), "Err") is TRUE for l in leaves(v) if as_bool(is_variant(l, None, "None")) is not TRUE), W, show(v)[:300])
    v, x = value(c, I.result, cs["end-at-once"], strip)
    a.ob("record", tag + "nothing-left-is-no-record", as_bool(is_variant(v, None, "None")) is TRUE, W, show(v)[:300])
    # counters
    for e in I.events:
        if e.kind != "unsub":
            continue
        g = e.guard
        worst = []
        for nm, cse in cs.items():
            if isinstance(cse[0], int):
                gg, _ = value(c, g, cse, strip)
                if gg is not FALSE:
                    worst.append(nm)
        a.ob("record", tag + "no-counter-runs-below-zero", not worst, where(e), "%s - %s (%s)" % (show(e.args[0])[:150], show(e.args[1])[:80], ", ".join(worst)))


def header(a, F, kind, tag, spec):
    _, _, T, strip, _, _ = spec
    b = a.body("cres::%s::FileReader::try_new" % kind, F)
    info = {x["name"] for x in F.bodies.values() if "XMLTag" in x["locals"][0] and x["kind"] in ("Fn", "AssocFn")}
    I = a.interp(b, F, opaque=info)
    W, path = where(b), I.params[0]
    c = Cut(a, I, "header", tag, W, b"", T, strip)
    if not c.ok:
        return
    cs = cases_of(a, c, "header", tag, W)
    if not cs:
        return
    src = c.L.inits.get(c.s)
    opened = [x for x in subterms(src) if x.op == "call" and str(x.a[0]).endswith("File::open")]
    plain = src
    while plain.op == "call" and str(plain.a[0]).endswith(("auto_decompress", "BufReader::new", "BufReader::with_capacity", "Box::new", "into_inner", "File::open")) or plain.op == "as":
        plain = plain.a[-1] if plain.op == "call" else plain.a[0]
    fromfile = len(opened) == 1 and opened[0].a[1] is path and "auto_decompress" in show(src)
    a.ob("header", tag + "of-the-given-file", fromfile, W, show(src)[:300])
    # a file that cannot be opened
    if opened:
        v = given(I.result, b_not(is_(opened[0], "Ok")))
        a.ob("header", tag + "unreadable-file-is-an-error", (is_(v, "Err")) is TRUE, W, show(v)[:200])
    v, x = value(c, I.result, cs["error"], strip)
    a.ob("header", tag + "read-error-is-reported", (is_(v, "Err")) is TRUE, W, show(v)[:200])
    for nm, want in (("found", lambda x: cut_end(x, strip)), ("end", lambda x: x), ("end-at-once", lambda x: x)):
        v, x = value(c, I.result, cs[nm], strip)
        hdr = want(x)
        # conditions on what the header says (STRIPPER XML)
        oks = [l for l in leaves(v) if (is_(l, "Ok")) is TRUE]
        errs = [l for l in leaves(v) if (is_(l, "Err")) is TRUE]
        if not a.ob("header", tag + ("ends-at-the-first-record" if nm == "found" else "file-without-records " + nm), len(oks) == 1 and len(oks) + len(errs) == len(list(leaves(v))) and (not errs or info), W, show(v)[:300]):
            continue
        o = payload(oks[0], "Ok")
        a.ob("header", tag + ("is-everything-before-the-first-record" if nm == "found" else "is-all-of-a-file-without-records " + nm), field(o, "header") is hdr, W, show(field(o, "header"))[:300])
        k = c.s if c.E in cs[nm][1] else c.s2
        a.ob("header", tag + ("first-record-follows" if nm == "found" else "no-record-follows " + nm), field(o, "source") is k or nm != "found" and field(o, "source") in (c.s, c.s2), W, show(field(o, "source"))[:300])
        a.ob("header", tag + nm + "-path-is-kept", field(o, "source_path") is path, W, show(field(o, "source_path"))[:200])
    for e in I.events:
        if e.kind == "unsub":
            worst = [nm for nm, cse in cs.items() if isinstance(cse[0], int) and value(c, e.guard, cse, strip)[0] is not FALSE]
            a.ob("header", tag + "no-length-below-zero", not worst, where(e), "%s - %s (%s)" % (show(e.args[0])[:150], show(e.args[1])[:80], ", ".join(worst)))


def rewind(a, F, kind, tag):
    opq = {b["name"] for b in F.bodies.values() if b["name"].startswith("cres::%s::" % kind) and b["kind"] in ("Fn", "AssocFn") and ("XMLTag" in b["locals"][0] or "Vec<u8>" in b["locals"][0] and "BufRead" in b["locals"][0])}
    new = a.interp("cres::%s::FileReader::try_new" % kind, F, opaque=opq)
    adt = F.adts.get("cres::%s::FileReader" % kind)
    fields = [f[0] if isinstance(f, list) else f["name"] for f in adt["variants"][0]["fields"]]
    for typ in ("FileReader", "FileIO"):
        b = a.impl(REWIND, "cres::%s::%s" % (kind, typ), F)
        I = a.interp(b, F, opaque=opq)
        W, s = where(b), I.params[0]
        post = I.state.get(("obj", s), s)
        old = s
        if typ == "FileIO":
            rd = [f[0] if isinstance(f, list) else f["name"] for f in F.adts["cres::%s::FileIO" % kind]["variants"][0]["fields"]]
            # everything else of the output object stays
            for f in rd:
                if f != "reader":
                    a.ob("rewind", "%s%s-leaves-%s" % (tag, typ, f), field(post, f) is field(s, f), W, show(field(post, f))[:200])
            old, post = field(s, "reader"), field(post, "reader")
        ref = subst(new.result, {new.params[0]: field(old, "source_path")})
        isok = (is_(I.result, "Ok"))
        good = [l for l in leaves(given(I.result, TRUE)) if (is_(l, "Ok")) is TRUE]
        a.ob("rewind", "%s%s-can-succeed" % (tag, typ), bool(good), W, show(I.result)[:200])
        # failure to read the file again is reported
        okn = (is_(ref, "Ok"))
        v = given(isok, *[b_not(is_(x, "Ok")) for x in subterms(ref) if x.op == "call" and x.a[0] in opq and contains(x, lambda y: y is field(old, "source_path")) and not any(y is not x and y.op == "call" and y.a[0] in opq for y in subterms(x))])
        a.ob("rewind", "%s%s-failure-is-reported" % (tag, typ), v is FALSE, W, show(isok)[:300])
        for f in fields:
            p = subst_ok(field(post, f), isok)
            want = subst_ok(field(payload(ref, "Ok"), f), isok)
            want = given(want, *lits_true(isok))
            p = given(p, *lits_true(isok))
            w2 = field(old, f) if f in ("header", "source_path") else None
            a.ob("rewind", "%s%s-restores-%s" % (tag, typ, f), p is want or p is w2, W, "%s; as constructed: %s" % (show(p)[:200], show(want)[:200]))


def subst_ok(t, c):
    return restrict(t, c) if c not in (TRUE, FALSE) else t


def lits_true(c):
    """literals that hold on the only way for c to be true, if there is only one"""
    out = []
    while c.op == "ite":
        if c.a[2] is FALSE:
            out.append(b_atom(c.a[0]))
            c = c.a[1]
        elif c.a[1] is FALSE:
            out.append(b_not(b_atom(c.a[0])))
            c = c.a[2]
        else:
            break
    return out


def through(a, F, kind, tag, spec):
    """the output object hands out the records of its reader"""
    if kind == "stripper_xml":
        return      # rescaled on the way: C18
    b = a.impl(NEXT, "cres::%s::FileIO" % kind, F)
    raw = readers(F, kind)
    I = a.interp(b, F, opaque=raw)
    W, s = where(b), I.params[0]
    rs = [x for x in dict.fromkeys(subterms(I.result)) if x.op == "call" and x.a[0] in raw]
    if not a.ob("records of the output object", tag + "one-record-at-a-time", len(rs) == 1 and rs[0].a[1] is field(s, "reader"), W, "; ".join(show(x)[:150] for x in rs)):
        return
    R = rs[0]
    v = given(I.result, is_variant(R, None, "None"))
    a.ob("records of the output object", tag + "end", as_bool(is_variant(v, None, "None")) is TRUE, W, show(v)[:200])
    p = payload(R, "Some")
    v = given(I.result, b_not(is_variant(R, None, "None")), is_(p, "Ok"))
    good = (is_(v, "Some")) is TRUE and (is_(payload(v, "Some"), "Ok")) is TRUE
    rec = payload(payload(v, "Some"), "Ok") if good else None
    a.ob("records of the output object", tag + "unchanged", good and rec.op == "agg" and rec.a[1] == spec[5] and rec.a[3][0] is payload(p, "Ok"), W, show(v)[:300])
    v = given(I.result, b_not(is_variant(R, None, "None")), b_not(is_(p, "Ok")))
    a.ob("records of the output object", tag + "error", (is_(payload(v, "Some"), "Err")) is TRUE and contains(v, lambda t: t is payload(p, "Err")), W, show(v)[:300])
