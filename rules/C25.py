"""Value analysis of every function exported to C.  The exported functions are found by their symbol, `cres_run` is followed
from the options a C program passes to the call of the main algorithm, and the numbers returned, the error kept for later and
the bytes written to the caller's buffer are compared under every combination of outcomes, including a panic caught on the
way.  For distances defined in C the structures handed over are compared field by field with the events, pointers with the
sequence they have to point to, and no sequence may be freed before the call."""
import re

from an.terms import *
from an.query import *
from an.rule import where
from rules.C13 import RUN, BUILD, SEARCHES, flds, component, conj, disj, field_path, out_path, bare
from an.streams import pure_seq
from an.cfg import succs

EXPORTED = ("cres_run", "cres_get_last_err", "cres_print_last_err", "cres_logger_from_env")
HARMLESS = ("core::", "alloc::", "anyhow::")


def check(a):
    F = a.facts("full", ("cres",))
    ex = {b["name"].rsplit("::", 1)[-1]: b for b in F.bodies.values() if b.get("no_mangle")}
    for n in EXPORTED:
        if not a.ob("exported", n, n in ex and ex[n].get("abi", "").startswith("C"), where(ex[n]) if n in ex else "", "no such symbol with the C calling convention"):
            return
    layouts(a, F, ex)
    runs = {n: interp(a, F, b) for n, b in ex.items()}
    for n, (I, _) in runs.items():
        contained(a, n, I)
    run(a, F, *runs["cres_run"])
    last_error(a, runs["cres_get_last_err"][0])
    print_error(a, runs["cres_print_last_err"][0])
    logger(a, runs["cres_logger_from_env"][0])
    distance(a, F)
    from_view(a, F)


def interp(a, F, b):
    files = []

    def hook(c, v):
        files.append((pure_seq(c, v[1]), v[0]))
        return NotImplemented
    return a.interp(b, F, opaque={RUN, BUILD}, hooks={BUILD: hook}), files


# ------------------------------------------------------------------ types that cross the boundary
def layouts(a, F, ex):
    """everything reachable from the arguments of exported functions is laid out and called as in C"""
    todo = [t for b in ex.values() for t in b["locals"][:b["argc"] + 1]]
    todo = [t if isinstance(t, str) else t.get("ty", "") for t in todo]
    seen, bad = set(), []
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if "fn(" in t:
            if 'extern "C"' not in t:
                bad.append("function pointer with the Rust calling convention: " + t[:120])
            t = t.split("fn(", 1)[1]
        for p, d in F.adts.items():
            if d.get("local") and re.search(re.escape(p) + r"\b(?!::)", t):
                if p in seen:
                    continue
                seen.add(p)
                if not d.get("repr_c"):
                    bad.append("%s has no defined layout" % p)
                todo += [f[1] for v in d["variants"] for f in v["fields"]]
    a.ob("types", "defined-in-C", not bad, "", "; ".join(bad)[:400])


# ------------------------------------------------------------------ panics stay inside
def contained(a, n, I):
    depth, bad, caught = 0, [], 0
    for e in I.events:
        if e.kind == "catch_unwind":
            depth, caught = depth + 1, caught + 1
        elif e.kind == "catch_end":
            depth -= 1
        elif depth == 0 and e.guard is not FALSE:
            if e.kind in ("panic", "assert", "unsub", "slice") and b_and(e.guard, getattr(e, "cond", None) or TRUE) is not FALSE:
                bad.append("%s outside catch_unwind" % where(e))
            elif e.kind == "call" and not e.name.startswith(HARMLESS):
                bad.append("%s calls %s outside catch_unwind" % (where(e), e.name[-60:]))
    a.ob(n, "panics-contained", caught >= 1 and not bad, where(I.entry), "; ".join(bad)[:400] or "nothing is caught")


def is_last(t):
    return t.op == "cont" and any(x.op == "call" and x.a[0] is not None and "LocalKey" in str(x.a[0]) for x in subterms(t.a[0]))


def kept(I):
    """(condition, error) for every error kept for the caller"""
    return [(e.guard, e.args[1], e) for e in I.events if e.kind == "store" and is_last(e.args[0])]


def caught(I):
    r = FALSE
    for x in set(atoms(I.result)) | set(y for e in I.events for y in atoms(e.guard)):
        if x.op == "is" and is_call(x.a[0], "catch_unwind"):
            r = b_or(r, b_atom(x) if x.a[1] == "Err" else b_not(b_atom(x)))
    return r


def status(a, n, I, success):
    """0 exactly on success; otherwise the error is kept"""
    W = where(I.entry)
    zero = cmp_eq(I.result, ZERO)
    x = b_and(zero, b_not(success))
    a.ob(n, "zero-means-success", x is FALSE, W, "0 is returned if %s" % show(x)[:300])
    x = b_and(success, b_not(zero))
    a.ob(n, "success-gives-zero", x is FALSE, W, "%s is returned although %s" % (show(I.result)[:100], show(x)[:300]))
    st = kept(I)
    got = FALSE
    for g, v, _ in st:
        got = b_or(got, b_and(g, as_bool(is_variant(v, None, "Some"))))
    x = b_and(b_not(zero), b_not(got))
    a.ob(n, "error-kept", x is FALSE, W, "nothing to report if %s" % show(x)[:300])
    x = b_and(zero, got)
    a.ob(n, "no-error-on-success", x is FALSE, W, "an error is kept if %s" % show(x)[:300])
    return st


# ------------------------------------------------------------------ cres_run
def cstr(t):
    """the C string whose bytes t consists of"""
    while True:
        t = bare(t)
        if t.op == "call" and any(is_call(t, p) for p in ("OsStrExt::from_bytes", "CStr::to_bytes", "CStr::from_ptr", "OsStringExt::from_vec", "PathBuf::from", "Path::new", "OsString::from")):
            t = t.a[-1]
        else:
            return t


def run(a, F, I, files):
    W = where(I.entry)
    rs = [e for e in I.events if e.kind == "call" and (e.name == RUN or matches(e.name, "Cres::run") or e.name.startswith("cres::cres::Cres::<") and e.name.endswith("::run"))]
    if not a.ob("cres_run", "runs", len(rs) >= 1, W, "the main algorithm is not called"):
        return
    opt = I.params[0]
    o = lambda *p: field_path(opt, p)
    done = FALSE
    for e in rs:
        done = b_or(done, b_and(e.guard, as_bool(is_variant(e.res, None, "Ok"))))
    success = b_and(done, b_not(caught(I)))
    st = status(a, "cres_run", I, success)
    # the error kept is the one that happened
    for n, e in enumerate(rs):
        c = conj(e.guard, b_not(as_bool(is_variant(e.res, None, "Ok"))), b_not(caught(I)))
        good = False
        for g, v, _ in st:
            if b_and(g, c) is not FALSE:
                good = payload(e.res, "Err") in set(subterms(restrict(v, c)))
        a.ob("cres_run", "the error of the run%s" % (n or ""), good, where(e), "another error is kept")
    w = where(rs[0])
    null = b_atom(mk("call", "core::ptr::is_null", o("distance")))
    algs = [v["name"] for v in F.adts["cres::c_api::cres::JetAlgorithm"]["variants"]]
    for n, e in enumerate(rs):
        tag = "cres_run%d" % n if len(rs) > 1 else "cres_run"
        w, g = where(e), e.guard
        cf = lambda sub: restrict(component(F, e.args[0], sub), g)
        cl = cf("DefaultClustering")
        jets = [k for k, ty in flds(F, "cres::cluster::DefaultClustering").items() if ty == "cres::cluster::JetDefinition"]
        rest = {k: field(cl, k) for k in flds(F, "cres::cluster::DefaultClustering") if k not in jets}
        if a.ob(tag, "clustering-layout", len(jets) == 1, w, "jet definitions in DefaultClustering"):
            j = field(cl, jets[0])
            a.ob(tag, "jet radius", field(j, "radius") is o("jet_def", "radius"), w, show(field(j, "radius"))[:200])
            a.ob(tag, "jet pt", field(j, "min_pt") is o("jet_def", "min_pt"), w, show(field(j, "min_pt"))[:200])
            al = field(j, "algorithm")
            bad = [v for v in algs if restrict(as_bool(is_variant(al, "cres::cluster::JetAlgorithm", v)),
                                               as_bool(is_variant(o("jet_def", "algorithm"), "cres::c_api::cres::JetAlgorithm", v))) is not TRUE]
            a.ob(tag, "jet algorithm", not bad, w, "%s gives %s" % (bad, show(al)[:300]))
            off = all(as_bool(v) is FALSE if flds(F, "cres::cluster::DefaultClustering")[k] == "bool" else as_bool(is_variant(v, None, "None")) is TRUE for k, v in rest.items())
            a.ob(tag, "only jets", off, w, str({k: show(v)[:80] for k, v in rest.items()}))
        r = component(F, e.args[0], "Resampler")
        r = restrict(r, g)
        f = {k: field(r, k) for k in flds(F, "cres::resampler::Resampler")}
        mx = [v for k, v in f.items() if flds(F, "cres::resampler::Resampler")[k].startswith("core::option::Option<")]
        a.ob(tag, "maximum cell size", len(mx) == 1 and payload(mx[0], "Some") is o("max_cell_size") and as_bool(is_variant(mx[0], None, "Some")) is TRUE, w, show(r)[:300])
        d = [v for k, v in f.items() if flds(F, "cres::resampler::Resampler")[k] == "D"]
        if a.ob(tag, "distance-layout", len(d) == 1, w, "distances in the resampler"):
            own = restrict(d[0], null)
            if b_and(g, null) is not FALSE:
                good = own.op == "agg" and own.a[0].split("<")[0] == "cres::distance::EuclWithScaledPt" and list(own.a[3]) == [o("ptweight")]
                a.ob(tag, "default distance", good, w, show(own)[:300])
            usr = restrict(d[0], b_not(null))
            if b_and(g, b_not(null)) is not FALSE:
                good = usr is o("distance") or usr.op == "agg" and usr.a[0].split("<")[0] == "cres::c_api::distance::DistanceFn" and all(
                    x is o("distance", k) for k, x in zip(usr.a[2], usr.a[3]))
                a.ob(tag, "user-defined distance", good, w, show(usr)[:300])
        conv = cf("Converter")
        a.ob(tag, "weights read", all(length(field(conv, k)) is ZERO for k in flds(F, "cres::io::Converter")), w, show(conv)[:300])
        u = [v for v in e.args[0].a[3] if "NoUnweight" in show(v) or "NO_UNWEIGHT" in show(v)] if e.args[0].op == "agg" else []
        a.ob(tag, "no unweighting", len(u) == 1, w, show(e.args[0])[-300:])
        b = [t for t in subterms(e.args[0]) if is_call(t, "build_from_files_iter")]
        io = component(F, e.args[0], "CombinedFileIO")
        a.ob(tag, "event files", len(set(b)) >= 1 and all(restrict(io, g) is payload(x, "Ok") for x in set(b)), w, show(io)[:300])
    # both kinds of distance reach the algorithm
    for nm, c in (("no distance", null), ("own distance", b_not(null))):
        for v in SEARCHES:
            x = FALSE
            for e in rs:
                x = b_or(x, conj(e.guard, c, as_bool(is_variant(o("neighbour_search"), "cres::c_api::cres::Search", v))))
            a.ob("cres_run", "%s, %s search" % (nm, v), x is not FALSE, W, "never runs")
    search(a, rs, o)
    bad = []
    for s, bd in files:
        n = length(s)
        i = mk("sym", "i")
        p = index(s, i)
        src, dst = field(p, "0"), field(p, "1")
        names = mk("idx", mk("call", "core::slice::raw::from_raw_parts", o("infiles"), o("n_infiles")), i)
        parts = [x for x in subterms(src) if x.op == "idx"]
        good = n is o("n_infiles") and cstr(src) is names or n is o("n_infiles") and cstr(src) is mk("call", "core::ptr::add", o("infiles"), i)
        d = out_parts(dst)
        good = good and d is not None and cstr(d[0]) is o("outdir") and d[1] is src or good and d is not None and cstr(d[0]) is o("outdir") and cstr(d[1]) is cstr(src)
        if not good:
            bad.append("pair %s of %s" % (show(p)[:300], show(n)[:60]))
    a.ob("cres_run", "files", len(files) >= 1 and not bad, W, "; ".join(bad) or "no event files")
    # the output directory exists before it is used
    mkd = [e for e in I.events if e.kind == "call" and matches(e.name, "fs::create_dir_all")]
    x = FALSE
    for e in mkd:
        if cstr(e.args[0]) is o("outdir"):
            x = b_or(x, b_and(e.guard, as_bool(is_variant(e.res, None, "Ok"))))
    a.ob("cres_run", "output directory created", all(b_and(e.guard, b_not(x)) is FALSE for e in rs), W, "not created before the run")


def out_parts(t):
    from rules.C13 import path_parts
    p = [bare(x) for x in path_parts(t)]
    if len(p) != 2:
        return None
    fs = set(x for x in subterms(p[1]) if is_call(x, "file_name"))
    if len(fs) != 1:
        return None
    f = fs.pop()
    return (p[0], bare(f.a[-1])) if p[1] is payload(f, "Some") else None


def search(a, rs, o):
    prob = []
    for v, path in SEARCHES.items():
        other = [p for k, p in SEARCHES.items() if k != v]
        for e in rs:
            ty = " ".join(e.targs) + " ".join(x for t in e.ttypes for x in t)
            want = as_bool(is_variant(o("neighbour_search"), "cres::c_api::cres::Search", v))
            if path in ty and any(p in ty for p in other):
                prob.append("search at %s unknown" % where(e))
            elif path in ty and b_and(e.guard, b_not(want)) is not FALSE:
                prob.append("%s search if %s" % (v, show(e.guard)[:200]))
            elif path not in ty and b_and(e.guard, want) is not FALSE:
                prob.append("another search than %s if %s" % (v, show(e.guard)[:200]))
    a.ob("cres_run", "search", not prob, where(rs[0]), "; ".join(prob)[:500])


# ------------------------------------------------------------------ cres_get_last_err
def last_error(a, I):
    W = where(I.entry)
    buf, n = I.params
    xs = set(x for e in I.events for t in list(e.args) + [e.guard] if isinstance(t, T) for x in subterms(t) if is_last(x)) | set(x for x in subterms(I.result) if is_last(x))
    if not a.ob("cres_get_last_err", "error-read", len(xs) == 1, W, "%d errors read" % len(xs)):
        return
    E = xs.pop()
    have = b_not(as_bool(is_variant(E, OPT, "None")))
    bad = caught(I)
    msgs = set(x for e in I.events for t in e.args if isinstance(t, T) for x in subterms(t) if is_call(x, "to_string") and x.a[-1] is payload(E, "Some"))
    if not a.ob("cres_get_last_err", "message", len(msgs) == 1, W, "%d messages" % len(msgs)):
        return
    msg = msgs.pop()
    L = length(msg)
    inside = []
    d = 0
    for e in I.events:
        d += (e.kind == "catch_unwind") - (e.kind == "catch_end")
        if d:
            inside.append(e)
    copies = [e for e in inside if e.kind == "call" and e.name.startswith("core::ptr::copy")]
    others = [e for e in I.events if e.kind == "call" and e not in copies and not e.name.startswith("anyhow::") and any(isinstance(t, T) and contains(t, lambda x: x is buf) for t in e.args)]
    nul = [e for e in inside if e.kind == "store" and contains(e.args[0], lambda x: x is buf)]
    if not a.ob("cres_get_last_err", "writes", len(copies) == 1 and len(nul) == 1 and not others, W, "%d copies, %d terminators, %d other uses of the buffer" % (len(copies), len(nul), len(others))):
        return
    c, z = copies[0], nul[0]
    src, dst, cnt = c.args[:3]
    a.ob("cres_get_last_err", "copied-from-the-message", src is msg and dst is buf, where(c), "%s to %s" % (show(src)[:100], show(dst)[:100]))
    p, r = z.args[0], restrict(I.result, b_not(bad))
    end = ZERO if p is buf else p.a[2] if is_call(p, "ptr::add") and p.a[1] is buf else None
    a.ob("cres_get_last_err", "terminator", end is not None and z.args[1] is ZERO, where(z), "%s at %s" % (show(z.args[1])[:50], show(p)[:200]))
    k, m = mk("rem", "k"), mk("rem", "m")
    good = b_not(bad)
    for case, sub_, wr, num, ret in (("enough room", {n: add(add(L, ONE), k)}, True, L, ZERO),
                                     ("too little room", {n: add(ONE, k), L: add(add(ONE, k), m)}, True, k, add(add(ONE, k), add(m, ONE))),
                                     ("no room", {n: ZERO}, False, None, add(L, ONE))):
        S = lambda t: simp(subst(t, sub_), ())
        for nm, e in (("message", c), ("terminator", z)):
            g = S(restrict(e.guard, good))
            a.ob("cres_get_last_err", "%s: %s %s" % (case, nm, "written" if wr else "not written"), g is (have if wr else FALSE), where(e), "written if %s" % show(g)[:200])
        if wr:
            v = S(cnt)
            a.ob("cres_get_last_err", "%s: length" % case, same(restrict(v, have), num, have), where(c), show(v)[:200])
            if end is not None:
                v = S(end)
                a.ob("cres_get_last_err", "%s: position of the terminator" % case, same(restrict(v, have), num, have), where(z), show(v)[:200])
        v = S(r)
        a.ob("cres_get_last_err", "%s: returned" % case, same(v, ret, have), W, show(restrict(v, have))[:200])
        a.ob("cres_get_last_err", "%s: no error" % case, same(v, ZERO, b_not(have)), W, show(restrict(v, b_not(have)))[:200])
    a.ob("cres_get_last_err", "panic-gives-minus-one", same(I.result, cint(-1), bad), W, show(restrict(I.result, bad))[:200])


def uncast(t):
    return lift(t, lambda x: x.a[-1] if x.op == "call" and str(x.a[0]).startswith(("to_i", "to_u")) else x)


def same(x, y, c):
    """x = y wherever c holds"""
    x = uncast(x)
    d = b_and(c, b_not(cmp_eq(x, y)))
    return d is FALSE or simp(d, ()) is FALSE


# ------------------------------------------------------------------ cres_print_last_err
def print_error(a, I):
    W = where(I.entry)
    pr = [e for e in I.events if e.kind == "call" and (matches(e.name, "stdio::_eprint") or is_stderr(e))]
    xs = set(x for e in I.events for t in list(e.args) + [e.guard] if isinstance(t, T) for x in subterms(t) if is_last(x))
    if not a.ob("cres_print_last_err", "prints", len(xs) == 1 and len(pr) >= 1, W, "%d errors read, %d messages printed" % (len(xs), len(pr))):
        return
    E = xs.pop()
    have = b_not(as_bool(is_variant(E, OPT, "None")))
    g = disj(*[e.guard for e in pr])
    a.ob("cres_print_last_err", "if-there-is-an-error", b_and(g, b_not(have)) is FALSE and b_and(have, b_not(g)) is FALSE, W, "printed if %s" % show(g)[:200])
    m = [e for e in pr if any(contains(t, lambda x: x is payload(E, "Some")) for t in e.args)]
    a.ob("cres_print_last_err", "the-error", len(m) == 1, W, "; ".join(show(e.args[0])[:200] for e in pr))


def is_stderr(e):
    return matches(e.name, "Write::write_fmt") and any(is_call(x, "stdio::stderr") for t in e.args[:1] for x in subterms(t))


# ------------------------------------------------------------------ cres_logger_from_env
def logger(a, I):
    W = where(I.entry)
    status(a, "cres_logger_from_env", I, b_not(caught(I)))
    a.ob("cres_logger_from_env", "panic-gives-minus-one", same(I.result, cint(-1), caught(I)), W, show(I.result)[:200])
    ini = [e for e in I.events if e.kind == "call" and (matches(e.name, "logger::init_from_env") or matches(e.name, "Builder::init") or matches(e.name, "logger::init"))]
    if a.ob("cres_logger_from_env", "logger-started", len(ini) == 1, W, "%d loggers started" % len(ini)):
        v = I.params[0]
        src = [x for t in ini[0].args for x in subterms(t) if is_call(x, "CStr::from_ptr")]
        var = [x.a[2] for t in ini[0].args for x in subterms(t) if x.op == "call" and len(x.a) > 2 and (is_call(x, "Env::filter_or") or is_call(x, "Env::filter"))]
        good = len(set(src)) == 1 and src[0].a[-1] is v and all(src[0] in set(subterms(x)) for x in var)
        a.ob("cres_logger_from_env", "variable", good, where(ini[0]), show(ini[0].args[0])[:200])


# ------------------------------------------------------------------ distances defined in C
def distance(a, F):
    b = a.impl("cres::distance::Distance::distance", "DistanceFn", F)
    I = a.interp(b, F)
    W = where(b)
    me, e1, e2 = I.params
    ap = [x for x in subterms(I.result) if x.op == "apply" or is_call(x, "apply")]
    ap = [x for x in ap if any(y is field(me, "fun") for y in x.a)]
    if not a.ob("distance", "value-of-the-function", len(ap) == 1 and I.result is ap[0], W, show(I.result)[:200]):
        return
    args = list(ap[0].a)
    args = args[[i for i, y in enumerate(args) if y is field(me, "fun")][0] + 1:]
    if len(args) == 1 and args[0].op == "agg":
        args = list(args[0].a[3])
    a.ob("distance", "data-passed-on", len(args) == 3 and args[0] is field(me, "data"), W, show(args[0])[:100])
    if len(args) != 3:
        return
    for n, v, ev in (("first", args[1], e1), ("second", args[2], e2)):
        view(a, F, n, v, ev, W)
    dangling(a, F)


def contents(F, ev):
    """weights and particles of an event"""
    ws = [k for k, t in flds(F, "cres::event::Event").items() if "RwLock<" in t and "Weights" in t]
    ps = [k for k, t in flds(F, "cres::event::Event").items() if "ParticleID" in t]
    w = mk("cont", field(ev, ws[0]))
    wk = list(flds(F, "cres::event::Weights"))
    return field(w, wk[0]), field(ev, ps[0])


def view(a, F, n, v, ev, W):
    w, ps = contents(F, ev)
    f = lambda k: field(v, k)
    a.ob("distance", "%s event: id" % n, f("id") is field(ev, "id"), W, show(f("id"))[:200])
    i = mk("sym", "i")
    a.ob("distance", "%s event: weights" % n, f("weights").op != "agg" and index(f("weights"), i) is index(w, i) and is_seq(f("weights")), W, show(f("weights"))[:200])
    a.ob("distance", "%s event: number of weights" % n, f("n_weights") is length(w) and length(f("weights")) is length(w), W, show(f("n_weights"))[:200])
    a.ob("distance", "%s event: number of types" % n, f("n_type_sets") is length(ps) and length(f("type_sets")) is length(ps), W, show(f("n_type_sets"))[:200])
    s, t = index(f("type_sets"), i), index(ps, i)
    a.ob("distance", "%s event: type" % n, field(s, "pid") is field(t, "0") or field(s, "pid") is field(field(t, "0"), "0"), W, show(field(s, "pid"))[:200])
    m = field(t, "1")
    a.ob("distance", "%s event: number of particles" % n, field(s, "n_momenta") is length(m) and length(field(s, "momenta")) is length(m), W, show(field(s, "n_momenta"))[:200])
    j = mk("sym", "j")
    q, p = index(field(s, "momenta"), j), index(m, j)
    pk = [k for k, ty in flds(F, "cres::four_vector::FourVector").items() if ty.startswith("[")]
    good = len(pk) == 1 and all(index(q, cint(k)) is index(field(p, pk[0]), cint(k)) for k in range(4))
    a.ob("distance", "%s event: momenta" % n, good, W, show(q)[:200])


def is_seq(t):
    """a sequence of elements, not the structure that owns one"""
    return t.op in ("comp", "sub", "sorted", "cat", "push") or t.op == "fld" or t.op == "call"


def dangling(a, F):
    """no sequence is freed while a raw pointer to its elements is still needed"""
    n, bad = 0, []
    for b in F.bodies.values():
        if not b["id"].startswith("cres::c_api::") or not b["blocks"]:
            continue
        ret = b["locals"][0]
        ret = ret if isinstance(ret, str) else ret.get("ty", "")
        escapes = any(x in ret for x in ("EventView", "TypeSetView", "*const", "*mut"))
        ext = [k for k, bl in enumerate(b["blocks"]) if bl and bl[1] and bl[1][0] == "call" and "fn" not in (bl[1][1].get("k") or {})]
        for k, loc in raw_pointers(b):
            n += 1
            for j in reach(b, k):
                t = b["blocks"][j][1]
                if t and t[0] == "drop" and t[1] == [loc, []] and (escapes or any(x in ext for x in reach(b, j))):
                    bad.append("%s (line %s): a sequence is freed while a pointer to its elements is in use" % (b["name"], t[4][0]))
    a.ob("distance", "memory-valid", n > 0 and not bad, "", "; ".join(bad)[:300] or "no pointers found")


def raw_pointers(b):
    """(block, local) for each raw pointer taken to the elements of a sequence owned by a local"""
    src = {}
    for bl in b["blocks"]:
        if not bl:
            continue
        for s in bl[0]:
            if s[0] == "=" and not s[1][1]:
                if s[2][0] == "ref":
                    src.setdefault(s[1][0], []).append(s[2][2][0])
                elif s[2][0] == "use":
                    src.setdefault(s[1][0], []).extend(op_local(s[2][1]))
        t = bl[1]
        if t and t[0] == "call" and not t[3][1] and callee(t).rsplit("::", 1)[-1] in ("deref", "as_slice", "as_ref", "index", "deref_mut", "borrow", "as_mut_slice"):
            src.setdefault(t[3][0], []).extend(op_local(t[2][0]) if t[2] else [])
    for k, bl in enumerate(b["blocks"]):
        if bl and bl[1] and bl[1][0] == "call" and callee(bl[1]).rsplit("::", 1)[-1] in ("as_ptr", "as_mut_ptr", "as_ptr_range", "data_ptr"):
            todo, seen = op_local(bl[1][2][0]), set()
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += src.get(x, [])
                    if x not in src:
                        yield k, x


def op_local(o):
    p = o.get("m") or o.get("c")
    return [p[0]] if p else []


def callee(t):
    return ((t[1].get("k") or {}).get("fn") or {}).get("path", "")


def reach(b, k):
    seen, todo = set(), [k]
    while todo:
        bl = b["blocks"][todo.pop()]
        for y in succs(bl[1]) if bl and bl[1] else []:
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


# ------------------------------------------------------------------ events given by C programs
ADD, WEIGHT, EBUILD = "cres::event::EventBuilder::add_outgoing", "cres::event::EventBuilder::add_weight", "cres::event::EventBuilder::build"


def from_view(a, F):
    bs = [b for b in F.bodies.values() if b["id"].startswith("cres::c_api::event::") and "Into<" not in b["name"] and "EventView" in b["name"] and b["name"].endswith("::from")]
    if not a.ob("from-view", "exists", len(bs) == 1, "", "%d conversions of event views" % len(bs)):
        return
    b = bs[0]
    I = a.interp(b, F, opaque={ADD, WEIGHT, EBUILD})
    W = where(b)
    v, = I.params
    at = lambda p, i: mk("call", "core::ptr::add", p, i)
    adds, ws = calls(I, "EventBuilder::add_outgoing"), calls(I, "EventBuilder::add_weight")
    a.ob("from-view", "id", field(I.result, "id") is field(v, "id"), W, show(field(I.result, "id"))[:200])
    if a.ob("from-view", "weights-added", len(ws) == 1 and len(ws[0].loops) == 1, W, "%d places" % len(ws)):
        e = ws[0]
        L = I.loops[e.loops[0]]
        i = loop_index(e.args[1])
        good = L.trip is field(v, "n_weights") and len(i) == 1 and e.args[1] is at(field(v, "weights"), i[0]) and always(I, e)
        a.ob("from-view", "weights", good, where(e), "%s of %s" % (show(e.args[1])[:200], show(L.trip)[:80]))
    if a.ob("from-view", "particles-added", len(adds) == 1 and len(adds[0].loops) == 2, W, "%d places" % len(adds)):
        e = adds[0]
        L1, L2 = (I.loops[k] for k in e.loops)
        i = loop_index(e.args[1])
        s = at(field(v, "type_sets"), i[0]) if i else UNDEF
        a.ob("from-view", "every-type", L1.trip is field(v, "n_type_sets") and always(I, e), where(e), show(L1.trip)[:100])
        a.ob("from-view", "every-particle", L2.trip is field(s, "n_momenta"), where(e), show(L2.trip)[:200])
        a.ob("from-view", "type", field(s, "pid") is e.args[1] or field(e.args[1], "0") is field(s, "pid"), where(e), show(e.args[1])[:200])
        p = e.args[2]
        pk = [k for k, ty in flds(F, "cres::four_vector::FourVector").items() if ty.startswith("[")]
        js = [x for x in loop_index(p) if x not in i]
        m = at(field(s, "momenta"), js[0]) if len(js) >= 1 else UNDEF
        good = len(pk) == 1 and all(index(field(p, pk[0]), cint(k)) is index(m, cint(k)) for k in range(4))
        a.ob("from-view", "momentum", good, where(e), show(p)[:300])


def loop_index(t):
    return sorted(set(x for x in subterms(t) if x.op == "i"), key=show)

