"""Value analysis of everything that creates, finishes or closes an output file.  A flush that a success depends on is looked for on
every successful path, with the state of the writer it is applied to: it must come after the last write.  The encoder chosen
for each compression, its level and what it writes to are read off the value that is returned; encoders that do not write
their end mark when they are dropped (lz4) have to be wrapped in a type whose destructor does, and which passes everything on."""
from an.terms import *
from an.query import *
from an.rule import where
from rules.records import given
from rules.C16 import NEXT, ALL, FINISH, REWIND, impl_name
from rules import C22, C23

KINDS = ("hepmc2", "lhef", "stripper_xml")
COMPRESS = "cres::compression::compress_writer"
CREATE = "File::create"


def check(a):
    seen = set()
    for fs in ("full", "single"):
        F = a.facts(fs, ("cres",))
        compression(a, F, fs)
        for kind in KINDS:
            if not impl_name(F, NEXT, kind):
                a.ob("present", "%s %s" % (fs, kind), fs == "single" and kind == "stripper_xml", "", "no output for %s files" % kind)
                continue
            sink = [f[0] for f in F.adts["cres::%s::FileIO" % kind]["variants"][0]["fields"] if "Write" in f[1]]
            if a.ob("files", "%s %s: one output" % (fs, kind), len(sink) == 1, "", str(sink)):
                created(a, F, fs, kind, sink[0], seen)
                finished(a, F, fs, kind, sink[0])
    P = a.facts("full", ("cres", "bin_cres_partition"))
    partition(a, P, seen)
    C = a.facts("full", ("cres", "bin_cres_classify_events"))
    classify(a, C, seen)
    for fs, X in (("full", a.facts("full", ("cres",))), ("full", P), ("full", C), ("single", a.facts("single", ("cres",)))):
        every_file(a, X, fs, seen)


# ------------------------------------------------------------------ compression
FORMATS = {
    "Bzip2": ("bzip2::write::BzEncoder", "new"),
    "Gzip": ("GzEncoder", "new"),
    "Lz4": ("EncoderBuilder", "build"),
    "Zstd": ("zstd::stream::write::Encoder", "new"),
}


def compression(a, F, fs):
    b = a.body(COMPRESS, F)
    I = a.interp(b, F)
    W = where(b)
    w, c = I.params
    none = as_bool(is_variant(c, None, "None"))
    x = given(I.result, none)
    a.ob("compression", fs + ": none", x.op == "agg" and x.a[1] == "Ok" and unbuffered(payload(x, "Ok")) is w, W, show(x)[:200])
    adt = [p for p in F.adts if p.endswith("compression::Compression")]
    vs = [v["name"] for v in F.adts[adt[0]]["variants"]] if len(adt) == 1 else []
    if not a.ob("compression", fs + ": formats", set(vs) == set(FORMATS), W, str(vs)):
        return
    k = payload(c, "Some")
    for v in vs:
        t = given(I.result, b_not(none), as_bool(is_variant(k, None, v)))
        ps = outcomes(I, t)
        oks = [(l, x) for l, x in ps if not (x.op == "agg" and x.a[1] == "Err")]
        name = "%s: %s" % (fs, v)
        if not a.ob("compression", name, bool(oks) and all(x.op == "agg" and x.a[1] == "Ok" for _, x in oks), W, "; ".join(show(x)[:200] for _, x in oks)):
            continue
        for x in {x for _, x in oks}:
            encoder(a, F, name, v, payload(x, "Ok"), ps, w, k, W)


def encoder(a, F, name, v, x, ps, w, k, W):
    """x: the writer that is returned"""
    wrapper = None
    enc = x
    while enc.op == "agg" and len(enc.a[3]) == 1:
        if enc.a[0].startswith("cres::"):
            wrapper = enc
        enc = enc.a[3][0]
    auto = False
    if is_call(enc, "auto_finish"):
        auto, enc = True, enc.a[1]
    if is_call(enc, "on_finish"):
        a.ob("compression", name + " finished", False, W, show(enc)[:200])
        return
    made = [t for t in subterms(enc) if t.op == "call" and not buffer(t) and any(unbuffered(y) is w for y in t.a[1:] if not isinstance(y, (str, int)))]
    if not a.ob("compression", name + " encoder", len(made) == 1 and FORMATS[v][0].split("::")[-1] + "::" in made[0].a[0] and FORMATS[v][0].split("::")[0] in made[0].a[0] or
                len(made) == 1 and is_call(made[0], FORMATS[v][0].split("::")[-1] + "::" + FORMATS[v][1]), W, show(enc)[:200]):
        return
    m = made[0]
    a.ob("compression", name + " of-the-writer", enc is m or enc is payload(m, "Ok"), W, show(enc)[:200])
    lvl = payload(k, v)
    cs = [t for t in subterms(m) if t.op == "call" and t is not m and not buffer(t)]
    if v == "Bzip2":
        a.ob("compression", name + " level", len(cs) == 1 and is_call(cs[0], "Compression::best"), W, show(m)[:200])
    elif v == "Gzip":
        a.ob("compression", name + " level", len(cs) == 1 and is_call(cs[0], "Compression::new") and cs[0].a[1] is lvl, W, show(m)[:200])
    elif v == "Lz4":
        ls = [t for t in cs if is_call(t, "EncoderBuilder::level")]
        a.ob("compression", name + " level", len(ls) == 1 and ls[0].a[2] is lvl, W, show(m)[:200])
    else:
        a.ob("compression", name + " level", m.a[2] is lvl and not cs, W, show(m)[:200])
    # failures
    if enc is not m:
        bad = [(l, y) for l, y in ps if y.op == "agg" and y.a[1] == "Err"]
        a.ob("compression", name + " failure-is-reported", any(contains(at, lambda t: t is m) for l, _ in bad for at, _ in l), W, "%d" % len(bad))
    # end mark
    if v in ("Bzip2", "Gzip"):
        a.ob("compression", name + " end-mark", wrapper is None or passes_on(a, F, name, wrapper, enc), W, "the encoder finishes when it is dropped")
    elif v == "Zstd" and auto:
        a.ob("compression", name + " end-mark", wrapper is None or passes_on(a, F, name, wrapper, enc), W, "auto_finish")
    else:
        a.ob("compression", name + " end-mark", wrapper is not None and finishes(a, F, name, wrapper) and passes_on(a, F, name, wrapper, enc), W,
             "the encoder does not finish when it is dropped" + ("" if wrapper is None else "; wrapped in " + wrapper.a[0]))


def buffer(x):
    return is_call(x, "BufWriter::new") or is_call(x, "BufWriter::with_capacity")


def unbuffered(x):
    while buffer(x):
        x = x.a[-1]
    return x


def methods(F, adt, item):
    return [b for b in F.impls.get(item, []) if adt in (b["impl_self"] or "")]


def finishes(a, F, name, wrapper):
    """dropping the wrapper finishes the encoder"""
    bs = methods(F, wrapper.a[0], "core::ops::drop::Drop::drop")
    if len(bs) != 1:
        return False
    I = a.interp(bs[0], F)
    me = I.params[0]
    fins = [e for e in I.events if e.kind == "call" and e.name.split("::")[-1] in ("finish", "try_finish", "do_finish")]
    if len(fins) != 1 or fins[0].loops:
        return False
    e = fins[0]
    full = [as_bool(is_variant(t, None, "Some")) for t in wrapped_options(me, wrapper)]
    off = given(b_not(e.guard), *full)
    return contains(e.args[0], lambda t: t is me) and off is FALSE


def wrapped_options(me, x):
    """Option-valued parts of the wrapper that hold the encoder"""
    out = []
    while x.op == "agg" and len(x.a[3]) == 1:
        nm = x.a[2][0] if x.a[2] else "0"
        if x.a[1] == "Some":
            out.append(me)
            me = payload(me, "Some")
        else:
            me = field(me, str(nm))
        x = x.a[3][0]
    return out


def passes_on(a, F, name, wrapper, enc):
    """write and flush do what the encoder does"""
    ok_ = True
    for m in ("write", "flush"):
        bs = [b for item in ("core::io::write::Write::", "std::io::Write::") for b in methods(F, wrapper.a[0], item + m)]
        if len(bs) != 1:
            ok_ = a.ob("compression", name + " passes on " + m, False, "", "%d implementations" % len(bs)) and ok_
            continue
        I = a.interp(bs[0], F)
        r = I.result
        me = I.params[0]
        fl = [as_bool(is_variant(t, None, "Some")) for t in wrapped_options(me, wrapper)]
        r = given(r, *fl)
        good = r.op == "call" and r.a[0].endswith("::" + m) and contains(r.a[1], lambda t: t is me) and list(r.a[2:]) == I.params[1:]
        es = [e for e in I.events if e.kind == "call"]
        ok_ = a.ob("compression", name + " passes on " + m, good and len(es) == 1, where(bs[0]), show(r)[:200]) and ok_
    return ok_


# ------------------------------------------------------------------ event files
def site(e):
    return str(e.fn), str(e.span)


def file_of(a, I, rule, name, x, W, seen):
    """x = a (buffered) file that was created: the path"""
    x = unbuffered(x)
    cs = [t for t in subterms(x) if is_call(t, CREATE)]
    if not a.ob(rule, name, len(cs) == 1 and x is payload(cs[0], "Ok"), W, show(x)[:200]):
        return None
    for e in I.events:
        if e.kind == "call" and is_call(e.res, CREATE) and (e.res is cs[0] or e.res.a[0] == cs[0].a[0] and alike(e.res, cs[0])):
            seen.add(site(e))
    return cs[0].a[1]


def alike(x, y):
    """the same up to the loop variable"""
    if x is y or x.op in ("i", "bv", "sym") and y.op in ("i", "bv", "sym"):
        return True
    return x.op == y.op and len(x.a) == len(y.a) and all(alike(p, q) if hasattr(p, "op") and hasattr(q, "op") else p == q or isinstance(p, tuple) for p, q in zip(x.a, y.a))


def created(a, F, fs, kind, sink, seen):
    name = "cres::%s::FileIO::try_new" % kind
    I = a.interp(name, F, opaque={COMPRESS, "cres::%s::FileReader::try_new" % kind})
    W = where(I.entry)
    t0 = "%s %s: " % (fs, kind)
    paths_ = [p for p, ty in zip(I.params, I.entry["locals"][1:]) if "PathBuf" in ty]
    comp = [p for p, ty in zip(I.params, I.entry["locals"][1:]) if "Compression" in ty]
    rd = [e for e in I.events if e.kind == "call" and e.name.endswith("FileReader::try_new")]
    if not a.ob("files", t0 + "two-paths", len(paths_) == 2 and len(comp) == 1 and len(rd) == 1 and rd[0].args[0] is paths_[0], W, ""):
        return
    oks = [x for l, x in outcomes(I, I.result) if x.op == "agg" and x.a[1] == "Ok"]
    a.ob("files", t0 + "can-be-created", bool(oks), W, "")
    for x in oks:
        s = field(payload(x, "Ok"), sink)
        s = base_of(s)
        cw = [t for t in subterms(s) if is_call(t, "compress_writer")]
        if not a.ob("files", t0 + "compressed-as-requested", len(cw) == 1 and s is payload(cw[0], "Ok") and cw[0].a[2] is comp[0], W, show(s)[:300]):
            continue
        p = file_of(a, I, "files", t0 + "written-to-a-new-file", cw[0].a[1], W, seen)
        if p is not None:
            a.ob("files", t0 + "output-path", p is paths_[1], W, show(p)[:100])


def is_flush(e):
    return e.kind == "call" and "Write" in e.name and e.name.endswith("::flush")


def is_output(e):
    return e.kind == "call" and "io::" in e.name and "Write" in e.name and e.name.split("::")[-1].startswith("write")


def base_of(t):
    """the writer before the calls that changed it"""
    while True:
        if t.op == "post" and t.a[0].op == "call" and isinstance(t.a[1], int):
            t = t.a[0].a[1 + t.a[1]]
        elif t.op == "cont":
            t = t.a[0]
        else:
            return t


def finished(a, F, fs, kind, sink):
    nxt, rew = set(impl_name(F, NEXT, kind)), set(impl_name(F, REWIND, kind))
    t0 = "%s %s: " % (fs, kind)
    for item, opq, what in ((ALL, nxt | rew, "all"), (FINISH, set(), "finish")):
        bs = [b for b in F.impls.get(item, []) if "%s::FileIO" % kind in (b["impl_self"] or "")]
        if not a.ob("flush", t0 + what + " defined", len(bs) == 1, "", "nothing is flushed at the end" if what == "finish" else ""):
            continue
        I = a.interp(bs[0], F, opaque=opq)
        W = where(bs[0])
        fl = [e for e in I.events if is_flush(e)]
        later = lambda e: [x for x in I.events if x is not e and x.kind == "call" and (is_output(x) or x.name in nxt) and any(contains(y, lambda t: t.op == "post" and t.a[0] is e.res) for y in x.args)]
        good = [e for e in fl if all(x.op == "fld" and x.a[1] == sink for x in map(base_of, leaves(e.args[0]))) and not later(e)]
        good = [e for e in good if settled(I, e, nxt)]
        can, bad = needs(I, good)
        a.ob("flush", t0 + what, can and not bad, where(good[0]) if good else W, ("success without flushing the output: " + bad)[:400] if bad else "%d places" % len(good))


def needs(I, es):
    """(success is possible, how it is possible if all of these calls fail)"""
    ok_ = lambda r: [l for l, x in outcomes(I, r) if not (x.op == "agg" and x.a[1] == "Err")]
    can = bool(ok_(I.result))
    fail = [b_not(as_bool(is_variant(e.res, None, "Ok"))) for e in es]
    return can, " | ".join("; ".join(("" if v else "not ") + show(at)[:80] for at, v in l) or "always" for l in ok_(given(I.result, *fail) if fail else I.result))


def settled(I, e, nxt):
    """what is flushed contains all writes made before"""
    for w in I.events:
        if w.kind != "call" or not (is_output(w) or w.name in nxt):
            continue
        if w.loops:
            inside = w.loops[:len(e.loops)] == e.loops and contains(e.args[0], lambda t: t.op == "post" and t.a[0] is w.res)
            ok_ = inside or any(contains(e.args[0], lambda t: t.op == "fin" and t.a[0] == l) for l in w.loops)
        else:
            ok_ = contains(e.args[0], lambda t: t.op == "post" and t.a[0] is w.res)
        if not ok_ and given(b_and(e.guard, w.guard)) is not FALSE:
            return False
    return True


# ------------------------------------------------------------------ cres-partition
def partition(a, F, seen):
    b = a.body("bin::main", F)
    I = a.interp(b, F, opaque=C22.opaque(F), hooks=C22.hooks())
    W = where(b)
    ws = [e for e in I.events if e.kind == "call" and (is_call(e.res, "serde_yaml::ser::to_writer") or is_output(e))]
    fl = [e for e in I.events if is_flush(e)]
    bases = {base_of(e.args[0]) for e in ws}
    if not a.ob("partition", "one-output", len(bases) == 1 and not any(e.loops for e in ws), W, "%d writes to %d outputs" % (len(ws), len(bases))):
        return
    w = ws[-1]
    op = C22.parsed(I)
    S = lambda t: subst(t, {op: mk("sym", "opt")})
    base = base_of(w.args[0])
    cw = [t for t in subterms(base) if is_call(t, "compress_writer")]
    if a.ob("partition", "compressed-as-requested", op is not None and len(cw) == 1 and base is payload(cw[0], "Ok") and S(cw[0].a[2]) is C22.o("compression"), where(w), show(S(base))[:200]):
        p = file_of(a, I, "partition", "written-to-a-new-file", cw[0].a[1], W, seen)
        if p is not None:
            a.ob("partition", "output-path", S(p) is C22.o("outfile"), W, show(S(p))[:100])
    good = [e for e in fl if base_of(e.args[0]) is base and all(contains(e.args[0], lambda t: t.op == "post" and t.a[0] is x.res) or given(b_and(e.guard, x.guard)) is FALSE for x in ws)]
    can, bad = needs(I, good)
    a.ob("partition", "flushed", can and not bad, where(good[0]) if good else where(w), ("success without flushing the output: " + bad)[:300] if bad else "%d places" % len(good))


# ------------------------------------------------------------------ cres-classify-events
def classify(a, F, seen):
    b = a.body(C23.CLASSIFY, F)
    I = a.interp(b, F, opaque=C22.opaque(F), hooks=C22.hooks())
    W = where(b)
    outs = [e for e in I.events if is_output(e)]
    fl = [e for e in I.events if is_flush(e)]
    a.ob("classify", "writes", bool(outs), W, "%d places" % len(outs))
    def last(e):
        """nothing is written to that writer afterwards"""
        return not any(contains(x.args[0], lambda t: t.op == "post" and t.a[0] is e.res) for x in outs)
    good = []
    for e in fl:
        base = base_of(written(e.args[0]))
        if len(e.loops) == 1 and base.op == "idx" and base.a[1] is mk("i", e.loops[0]) and last(e):
            good.append((e, base))
    if not a.ob("classify", "flushed", len(good) == 1, where(fl[0]) if fl else W, "%d places where every output file is flushed" % len(good)):
        return
    e, base = good[0]
    L = I.loops[e.loops[0]]
    ws = [x for x in outs if x.loops == e.loops]
    before = [x for x in ws if contains(written(e.args[0]), lambda t: t.op == "post" and t.a[0] is x.res)]
    a.ob("classify", "after-the-last-write", len(before) == len(ws), where(e), "%d of %d writes of that loop" % (len(before), len(ws)))
    oks = [as_bool(is_variant(x.res, None, "Ok")) for x in ws]
    off = given(b_and(L.guard, b_not(e.guard)), *oks)
    off = b_and(off, cmp_lt(mk("i", L.id), L.trip)) if L.trip is not None else off
    a.ob("classify", "not-skipped", off is FALSE, where(e), show(off)[:300])
    other = [x for x in outs if x not in ws]
    lists = [base.a[0]]
    while lists[-1].op in ("fin", "car"):
        t = lists[-1]
        if t.op == "car":
            ls = [l for l in I.loops.values() if t in l.inits]
            nx = ls[0].inits[t] if len(ls) == 1 else None
        else:
            L2, h = find_slot(I, t)
            nx = L2.inits[h] if h is not None else None
        if nx is None or nx in lists:
            break
        lists.append(nx)
    hs = {l for t in lists if t.op == "fin" for l in (t.a[0],)}
    made = lists[-1]
    w0 = base_of(index(made, mk("sym", "k")))
    cw = [t for t in subterms(w0) if is_call(t, "compress_writer")]
    if a.ob("classify", "compressed", len(cw) == 1 and w0 is payload(cw[0], "Ok"), W, show(w0)[:200]):
        file_of(a, I, "classify", "written-to-a-new-file", cw[0].a[1], W, seen)
    for x in other:
        okx = any(l in hs for l in x.loops) or contains(made, lambda t: t.op == "post" and t.a[0] is x.res) or header_in(made, x) or \
            contains(written(e.args[0]), lambda t: t.op == "post" and t.a[0].op == "call" and t.a[0].a[0] == x.res.a[0] and alike(t.a[0].a[2], x.res.a[2]))
        a.ob("classify", "flushed-after " + x.name.split("::")[-1], okx, where(x), show(x.args[0])[:200])
    n = length(made)
    a.ob("classify", "every-file", L.trip is not None and (L.trip is n or C23.same_number(I, L.trip, n) or whole(L.trip, base.a[0]) or whole(L.trip, lists[0])), where(e), show(L.trip)[:200] if L.trip is not None else "")
    bad, k = [], 0
    for lits, x in outcomes(I, I.result):
        if x.op == "agg" and x.a[1] == "Err":
            continue
        k += 1
        ex = [at.a[1] for at in taken(I, lits) if at.a[0] == L.id]
        cond = [x_[0] for j, x_ in enumerate(L.exits.values()) if j in ex]
        fail = b_not(as_bool(is_variant(e.res, None, "Ok")))
        if not ex or any(given(c, fail, L.guard, *oks, cmp_lt(mk("i", L.id), L.trip)) is not FALSE for c in cond):
            bad.append(show(x)[:100])
    a.ob("classify", "success-only-if-flushed", k > 0 and not bad, where(e), "; ".join(bad))


def written(t):
    """t if nothing has failed before"""
    ok_ = [b_atom(x) for x in atoms_of(t) if x.op == "is" and x.a[1] == "Ok" and x.a[0].op == "call" and "Write::" in x.a[0].a[0]]
    return given(t, *ok_) if ok_ else t


def atoms_of(t):
    return {x for x in subterms(t) if x.op == "is"}


def whole(trip, t):
    return trip.op == "len" and (trip.a[0] is t or trip.a[0].op == "fin" and t.op in ("fin", "car"))


def header_in(made, x):
    return contains(made, lambda t: t.op == "post" and t.a[0].op == "call" and t.a[0].a[0] == x.res.a[0] and t.a[0].a[2] is x.res.a[2])


MAKES = ("std::fs::File::create", "std::fs::File::create_new", "std::fs::OpenOptions::open", "std::fs::write", "std::fs::copy")
OTHER = ("shell_completion",)


def every_file(a, F, fs, seen):
    """all places that create files belong to one of the outputs above"""
    n = 0
    for b in F.bodies.values():
        if any(x in b["name"] for x in OTHER):
            continue
        for stmts, t in [x[:2] for x in b["blocks"] if x]:
            if not t or t[0] != "call" or "fn" not in t[1].get("k", {}) or t[1]["k"]["fn"]["path"] not in MAKES:
                continue
            n += 1
            w = "%s (%s)" % (b["name"], t[5][0])
            a.ob("all outputs", "%s: %s" % (fs, b["name"]), (b["id"], str(t[5])) in seen, w, "a file is created in another place than the known outputs")
    a.ob("all outputs", fs + ": " + " ".join(sorted({b["name"].split("::")[0] for b in F.bodies.values()})), n > 0, "", "%d places that create files" % n)
