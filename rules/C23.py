"""Value analysis of `cres-classify-events`, from the options to the bytes written.  Each writer is identified by the file it
was created for, whatever list it is kept in; every write is attributed to a writer, and the texts are compared: the header of
the input, the text of each event of the region, the footer of the format."""
from an.terms import *
from an.query import *
from an.rule import where
from rules.records import atoms_deep
from rules.records import given as given0
from rules.C22 import NEXT, REGION_CALL, given, opaque, hooks, layout, region, parsed, o, one, strip, textof

CLASSIFY = "bin::Classifier::classify_byte_records"
FOOTER = {"HepMC2": "HepMC::IO_GenEvent-END_EVENT_LISTING", "Lhef": "</LesHouchesEvents>", "StripperXml": "</Eventrecord>"}


def check(a):
    F = a.facts("full", ("cres",))
    m = layout(a, F)
    if m is None:
        return
    region(a, F, m)
    C = a.facts("full", ("cres", "bin_cres_classify_events"))
    classify(a, C, m)
    classify_main(a, C, m)


# ------------------------------------------------------------------ cres-classify-events
VARIANT = {"HepMC2": "HepMC", "Lhef": "LHEF", "StripperXml": "StripperXml"}


def writer(t):
    """(writer before anything was written in this step, texts written to it since)"""
    out = []
    while True:
        if is_write(t):
            out.insert(0, t.a[0].a[2])
            t = t.a[0].a[1]
        elif t.op == "cont":
            t = t.a[0]
        else:
            return t, out


def is_write(t):
    return t.op == "post" and t.a[0].op == "call" and is_call(t.a[0], "Write::write_all") and t.a[1] == 0


def classify(a, F, m):
    b = a.body(CLASSIFY, F)
    I = a.interp(b, F, opaque=opaque(F), hooks=hooks())
    W = where(b)
    tys = [str(t) for t in I.entry["locals"][1:1 + len(I.params)]]
    pick = lambda *w: [p for p, t in zip(I.params, tys) if any(x in t for x in w)]
    me, file, fmt = pick("Classifier"), pick("PathBuf", "path::Path"), pick("FileFormat")
    if not a.ob("classify", "arguments", len(me) == len(file) == len(fmt) == 1, where(I.entry), ", ".join(tys)):
        return
    (me,), (file,), (fmt,) = me, file, fmt
    names = {t: [f[0] for f in F.adts["bin::Classifier"]["variants"][0]["fields"] if t in f[1]] for t in ("VPTreePartition", "PathBuf", "Compression", "Converter", "DefaultClustering")}
    if not a.ob("classify", "layout", all(len(x) == 1 for x in names.values()), W, str(names)):
        return
    part, outdir, compr, conv, clus = (field(me, names[t][0]) for t in ("VPTreePartition", "PathBuf", "Compression", "Converter", "DefaultClustering"))
    n = add(length(field(part, m["vp"])), ONE)
    nxs = [e for e in I.events if e.kind == "call" and e.name.endswith(NEXT) and "Reader" in e.name]
    rgs = calls(I, REGION_CALL)
    if not a.ob("classify", "one-loop-over-the-events", len(nxs) == 1 and len(rgs) == 1 and len(nxs[0].loops) == 1 and rgs[0].loops == nxs[0].loops, W, "%d reads, %d lookups" % (len(nxs), len(rgs))):
        return
    nx, rg = nxs[0], rgs[0]
    L = I.loops[nx.loops[0]]
    # ---- where the events come from
    rd = nx.args[0]
    init = L.inits.get(rd)
    op = [t for t in subterms(init) if is_call(t, "FileReader::try_new")] if init is not None else []
    okr = len(set(op)) == 1 and op[0].a[1] is file and L.nexts[rd] is mk("post", nx.res, 0)
    if not a.ob("classify", "reads-the-file", okr, where(nx), show(init)[:200] if init is not None else show(rd)[:200]):
        return
    reader = payload(op[0], "Ok")
    rec = payload(payload(nx.res, "Some"), "Ok")
    tc, cl = one(rg.args[1], "TryConvert::try_convert"), one(rg.args[1], "Clustering::cluster")
    okc = tc is not None and cl is not None and rg.args[1] is payload(cl, "Ok") and cl.a[2] is payload(tc, "Ok") and cl.a[1] is clus and tc.a[1] is conv and tc.a[2] is rec
    if not a.ob("classify", "region-of-the-clustered-event", okc and rg.args[0] is part, where(rg), "; ".join(show(x)[:300] for x in rg.args)):
        return
    good = [as_bool(is_variant(nx.res, None, "Some")), b_not(as_bool(is_variant(nx.res, None, "None"))), as_bool(is_variant(payload(nx.res, "Some"), None, "Ok")),
            as_bool(is_variant(tc, None, "Ok")), as_bool(is_variant(cl, None, "Ok"))]
    end = as_bool(is_variant(nx.res, None, "None"))
    # ---- the writers and what each gets for an event
    all_w = [e for e in I.events if e.kind == "call" and "io::Write" in e.name.replace("core::io::write::", "io::") and "::write" in e.name and "flush" not in e.name]
    ew = [e for e in all_w if e.loops == (L.id,)]
    if not a.ob("classify", "one-write-per-event", len(ew) == 1 and all(is_call(e.res, "Write::write_all") for e in ew), W, "%d writes for an event" % len(ew)):
        return
    e = ew[0]
    h = e.args[0].a[0] if e.args[0].op == "idx" else None
    if not a.ob("classify", "to-the-writer-of-its-region", h in L.inits and e.args[0].a[1] is rg.res, where(e), show(e.args[0])[:300]):
        return
    off = given(b_and(L.guard, b_not(e.guard)), *good)
    a.ob("classify", "every-event-is-written", off is FALSE, where(e), show(off)[:300])
    good.append(as_bool(is_variant(e.res, None, "Ok")))
    x = given(L.nexts[h], *good)
    want = mk("store", h, rg.res, mk("post", e.res, 0))
    a.ob("classify", "no-other-writer-touched", x is want, where(e), show(x)[:300])
    stop = [given(x[0], L.guard, *good) for x in L.exits.values()]
    a.ob("classify", "read-to-the-end", all(g is FALSE for g in stop), W, "; ".join(show(g)[:200] for g in stop))
    for f in FOOTER:
        event_text(a, I, F, f, fmt, rec, e)
    # ---- the files
    init = L.inits[h]
    a.ob("classify", "one-file-per-region", same_number(I, length(init), n), W, show(length(init))[:300])
    k = mk("sym", "k")
    w0, texts = writer(index(init, k))
    cw = one(w0, "compress_writer")
    if a.ob("classify", "file-of-the-region", cw is not None and w0 is payload(cw, "Ok"), W, show(w0)[:400]):
        a.ob("classify", "compression", cw.a[2] is compr, W, show(cw.a[2])[:100])
        fl = cw.a[1]
        if is_call(fl, "BufWriter::new") or is_call(fl, "BufWriter::with_capacity"):
            fl = fl.a[-1]
        c = one(fl, "File::create")
        if a.ob("classify", "created-file", c is not None and fl is payload(c, "Ok"), W, show(fl)[:300]):
            filename(a, c.a[1], k, outdir, file, W)
    hd = calls(I, "EventFileReader::header")
    okh = len(texts) == 1 and is_call(strip(texts[0]), "EventFileReader::header") and strip(texts[0]).a[1] is reader
    a.ob("classify", "header-first", okh, where(hd[0]) if hd else W, "; ".join(show(t)[:200] for t in texts) or "nothing is written before the events")
    # ---- the end of the files
    last = [e for e in all_w if e not in ew and after(I, e, L, h)]
    lps = set(e.loops for e in last)
    if a.ob("classify", "one-loop-over-the-writers-at-the-end", len(lps) == 1 and len(list(lps)[0]) == 1, W, "%d writes after the events" % len(last)):
        L4 = I.loops[list(lps)[0][0]]
        i = mk("i", L4.id)
        a.ob("classify", "footer-to-every-file", L4.trip is not None and (ends_of(I, L4.trip, L, h) or same_number(I, L4.trip, n)), W, show(L4.trip)[:200] if L4.trip is not None else "")
        for f in FOOTER:
            got, okb = [], True
            for e in last:
                base, before = writer(e.args[0])
                okb = okb and base.op == "idx" and base.a[1] is i
                got.append((len(before), textof(given0(e.args[1], as_bool(is_variant(fmt, None, f))))))
            got = [t for _, t in sorted(got, key=lambda y: y[0])]
            txt = "".join(t or "?" for t in got)
            a.ob("classify", "footer of " + f, okb and txt == FOOTER[f] + "\n", where(last[0]), repr(txt)[:200])
        oks = [as_bool(is_variant(e.res, None, "Ok")) for e in last]
        g = TRUE
        for e in sorted(last, key=lambda e: len(writer(e.args[0])[1])):
            off = given(b_and(b_and(L4.guard, g), b_not(e.guard)), *[c for c in oks])
            off = b_and(off, cmp_lt(i, L4.trip)) if L4.trip is not None else off
            a.ob("classify", "footer-not-skipped", off is FALSE, where(e), show(off)[:300])
    rest = [e for e in all_w if e not in ew and e not in last and not any(contains(init, lambda t: t is mk("post", e.res, 0)) or header_write(I, e, texts) for _ in (0,))]
    a.ob("classify", "nothing-else-is-written", not rest, W, "; ".join(show(e.args[0])[:200] for e in rest))
    # ---- failures
    a.ob("classify", "success-means-end-of-the-file", success_needs_end(I, L, end), W, "")


def success_needs_end(I, L, end):
    ks = [k for k, (t, x) in enumerate(L.exits.items()) if given(x[0], b_not(end)) is FALSE]
    for lits, x in outcomes(I, I.result):
        if x.op == "agg" and x.a[1] == "Ok":
            ex = [at.a[1] for at in taken(I, lits) if at.a[0] == L.id]
            if not ex or any(k not in ks for k in ex):
                return False
    return True


def same_number(I, x, n):
    if x is n:
        return True
    while x.op == "len":
        y = x.a[0]
        if y.op == "fin":
            L, h = find_slot(I, y)
            if h is None:
                return False
            nx = L.nexts[h]
            if nx.op == "push" and length(L.inits[h]) is ZERO:
                return L.trip is n
            if nx.op == "store":
                x = length(L.inits[h])
                continue
        return False
    return x is n


def ends_of(I, x, L, h):
    return x.op == "len" and x.a[0].op == "fin" and x.a[0].a[0] == L.id and x.a[0].a[2] == repr(h.a[1])


def after(I, e, L, h):
    """the writer of e has seen the events"""
    base, _ = writer(e.args[0])
    for _ in range(6):
        if base.op == "idx":
            base = base.a[0]
        if base.op == "fin":
            L2, s = find_slot(I, base)
            return L2 is L or any(contains(x, lambda t: t.op == "fin" and t.a[0] == L.id) for x in L2.inits.values())
        if base.op == "car":
            o_ = [l for l in I.loops.values() if base in l.inits]
            if len(o_) != 1 or o_[0] is L:
                return False
            base = o_[0].inits[base]
        else:
            break
    return contains(base, lambda t: t.op == "fin" and t.a[0] == L.id)


def header_write(I, e, texts):
    return len(texts) == 1 and is_call(strip(e.args[1]), "EventFileReader::header")


def event_text(a, I, F, f, fmt, rec, e):
    """the text written is the record without the footer of the file"""
    v = VARIANT[f]
    lits = [as_bool(is_variant(fmt, None, f)), as_bool(is_variant(rec, None, v))]
    t = given0(e.args[1], *lits)
    own = payload(rec, v)
    full = cases_of(t)
    ok_ = True
    said = []
    for ls, x in paths(t):
        ft = [(at, w) for at, w in ls if at.op == "ends" and textof(at.a[0]) == FOOTER[f] and trimmed(at.a[1]) is own]
        if len(ls) == 1 and len(ft) == 1 and ft[0][1]:
            base = ft[0][0].a[1]
            good = x is subslice(base, ZERO, sub(length(base), cint(len(FOOTER[f]))))
        else:
            good = len(ls) == len(ft) and x is own and not any(w for _, w in ft)
        if not good:
            said.append(show(x)[:200] + " if " + "; ".join(show(at)[:80] + " = " + str(w) for at, w in ls))
        ok_ = ok_ and good
    cut = any(at.op == "ends" for ls, x in paths(t) for at, w in ls)
    a.ob("classify", "text of a %s event" % f, ok_ and cut, where(e), "; ".join(said) or ("as it was read, without the footer of the file" if cut else "the footer of the file is kept"))


def cases_of(t):
    return paths(t)


def trimmed(t):
    while t.op == "call" and any(is_call(t, x) for x in ("trim_end", "trim")):
        t = t.a[1]
    return t


def filename(a, path, k, outdir, file, W):
    okp = path.op == "agg" and path.a[0] == "array" and len(path.a[3]) == 2 and path.a[3][0] is outdir
    if not a.ob("classify", "in-the-output-directory", okp, W, show(path)[:300]):
        return
    nm = path.a[3][1]
    fn = one(nm, "Path::file_name")
    st = one(nm, "OsStr::to_str")
    base = payload(st, "Some") if st is not None else None
    dot = mk("call", "core::str::{str}::find", base, const("char", ".")) if base is not None else None
    okn = fn is not None and fn.a[1] is file and st.a[1] is payload(fn, "Some") and nm.op == "scat"
    if not a.ob("classify", "named-after-the-input", okn, W, show(nm)[:300]):
        return
    none = as_bool(is_variant(dot, None, "None"))
    for c, sfx in ((none, "without extension"), (b_not(none), "with extension")):
        ps = [given(x, c) for x in nm.a]
        i = [j for j, x in enumerate(ps) if is_call(x, "to_string") and x.a[1] is k]
        ks = [j for j, x in enumerate(ps) if contains(x, lambda t: t is k)]
        okk = len(i) == 1 and ks == i
        a.ob("classify", "numbered-by-region " + sfx, okk, W, show(nm)[:300])
        if not okk:
            continue
        at = payload(dot, "Some")
        pre, post = ps[:i[0]], ps[i[0] + 1:]
        plain = lambda xs: [x for x in xs if textof(x) is None or textof(x)]
        pre, post = plain(pre), plain(post)
        if c is none:
            okf = pre and pre[0] is base and "".join(textof(x) or "?" for x in pre[1:]) == "." and "".join(textof(x) or "?" for x in post) in (".", "")
        else:
            okf = len(pre) > 1 and pre[0] is subslice(base, ZERO, at) and "".join(textof(x) or "?" for x in pre[1:]) == "." and \
                post and post[-1] is subslice(base, add(at, ONE), length(base)) and "".join(textof(x) or "?" for x in post[:-1]) == "."
        a.ob("classify", "name " + sfx, bool(okf), W, "; ".join(show(x)[:100] for x in ps))


def classify_main(a, F, m):
    b = a.body("bin::main", F)
    I = a.interp(b, F, opaque=opaque(F) | {CLASSIFY}, hooks=hooks())
    W = where(b)
    op = parsed(I)
    if not a.ob("main", "options-read-once", op is not None, W, ""):
        return
    S = lambda t: subst(t, {op: mk("sym", "opt")})
    rd = calls(I, "serde_yaml::de::from_reader")
    cl = [e for e in I.events if e.kind == "call" and e.name == CLASSIFY]
    if not a.ob("main", "one-partition-file", len(rd) == 1 and not rd[0].loops and len(cl) >= 1, W, "%d files read" % len(rd)):
        return
    rd = rd[0]
    src = rd.args[0]
    fo = one(src, "File::open")
    a.ob("main", "partition-file", fo is not None and S(fo.a[1]) is o("partition") and contains(src, lambda t: t is payload(fo, "Ok")), where(rd), show(S(src))[:200])
    a.ob("main", "compressed-partition-files", is_call(src, "auto_decompress"), where(rd), "cres-partition can compress its output; it is read with " + show(S(src))[:200])
    got = payload(rd.res, "Ok")
    typ = {t: [f[0] for f in F.adts["bin::Classifier"]["variants"][0]["fields"] if t in f[1]] for t in ("VPTreePartition", "PathBuf", "Compression", "Converter", "DefaultClustering")}
    lps = set(e.loops for e in cl)
    if not a.ob("main", "one-loop-over-the-files", len(lps) == 1 and len(list(lps)[0]) == 1 and all(len(x) == 1 for x in typ.values()), W, "%d places" % len(cl)):
        return
    L = I.loops[list(lps)[0][0]]
    file = index(o("infiles"), mk("i", L.id))
    a.ob("main", "all-input-files", L.trip is not None and S(L.trip) is length(o("infiles")), W, show(S(L.trip)) if L.trip is not None else "")
    any_ = FALSE
    for e in cl:
        c = e.args[0]
        f = lambda t: S(field(c, typ[t][0]))
        a.ob("main", "partition-read", field(c, typ["VPTreePartition"][0]) is field(got, "1"), where(e), show(f("VPTreePartition"))[:200])
        a.ob("main", "clustering-read", field(c, typ["DefaultClustering"][0]) is field(got, "0"), where(e), show(f("DefaultClustering"))[:200])
        a.ob("main", "output-directory", f("PathBuf") is o("outdir"), where(e), show(f("PathBuf"))[:200])
        a.ob("main", "output-compression", f("Compression") is o("compression"), where(e), show(f("Compression"))[:200])
        a.ob("main", "file", S(e.args[1]) is file, where(e), show(S(e.args[1]))[:200])
        d = one(e.args[2], "detect_event_file_format")
        a.ob("main", "its-format", d is not None and e.args[2] is payload(d, "Ok") and S(d.a[1]) is file, where(e), show(S(e.args[2]))[:200])
        any_ = b_or(any_, e.guard)
    det = calls(I, "detect_event_file_format")
    oks = [as_bool(is_variant(e.res, None, "Ok")) for e in det + cl]
    off = given(b_and(L.guard, b_not(any_)), *oks)
    off = b_and(off, cmp_lt(mk("i", L.id), L.trip)) if L.trip is not None else off
    a.ob("main", "no-file-skipped", off is FALSE, W, show(S(off))[:300])
    go = [given(x[0], L.guard, *oks, cmp_lt(mk("i", L.id), L.trip)) for x in L.exits.values()] if L.trip is not None else [TRUE]
    a.ob("main", "goes-on-to-the-next-file", all(g is FALSE for g in go), W, "; ".join(show(S(g))[:200] for g in go))
