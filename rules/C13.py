"""Value analysis of the whole program from `main` down to the call of the main algorithm, with the parsed command line
symbolic: the components of the run are compared with the settings they have to come from, under every combination of
optional settings; which neighbour search is used is read off the type arguments of that call and of the generic calls on the
way.  The pass-through is followed further down: the builders, the default resampler to the resampler it runs, and the
resampler to the neighbour search and distance it creates."""
from an.terms import *
from an.query import *
from an.streams import pure_seq
from an.rule import where

RUN = "cres::cres::Cres::run"
BUILD = "cres::io::IOBuilder::build_from_files_iter"
SEARCHES = {"Naive": "cres::neighbour_search::NaiveNeighbourSearch", "Tree": "cres::neighbour_search::TreeSearch"}


def clustering_settings(a, F, tag, w, t, c, s, lv, pv, lep, pho, o):
    """the clustering t uses the jet, lepton, photon and neutrino settings"""
    jets = [k for k, ty in flds(F, "cres::cluster::DefaultClustering").items() if ty == "cres::cluster::JetDefinition"]
    leps = [k for k, ty in flds(F, "cres::cluster::DefaultClustering").items() if ty.startswith("core::option::Option<cres::cluster::JetDefinition")]
    phs = [k for k, ty in flds(F, "cres::cluster::DefaultClustering").items() if ty.startswith("core::option::Option<cres::cluster::PhotonDefinition")]
    nus = [k for k, ty in flds(F, "cres::cluster::DefaultClustering").items() if ty == "bool"]
    if not all(len(x) == 1 for x in (jets, leps, phs, nus)):
        a.fail(tag, "clustering-layout", w, "fields of DefaultClustering")
        return False
    jd = lambda t, xs: all(field(t, k) is x for k, x in zip(("algorithm", "radius", "min_pt"), xs))
    okj = jd(field(t, jets[0]), [o("jet_def", k) for k in ("jetalgorithm", "jetradius", "jetpt")])
    a.ob(tag, "jets (%s)" % s, okj, w, show(field(t, jets[0]))[:300])
    L = restrict(field(t, leps[0]), c)
    okl = jd(payload(L, "Some"), [payload(x, "Some") for x in lep]) and is_variant(L, None, "Some") is TRUE if lv else is_variant(L, None, "None") is TRUE
    a.ob(tag, "leptons (%s)" % s, okl, w, show(L)[:300])
    P = restrict(field(t, phs[0]), c)
    okp = is_variant(P, None, "None") is TRUE if not pv else is_variant(P, None, "Some") is TRUE and all(
        field(payload(P, "Some"), k) is payload(x, "Some") for k, x in zip(("min_e_fraction", "radius", "min_pt"), pho))
    a.ob(tag, "photons (%s)" % s, okp, w, show(P)[:300])
    a.ob(tag, "neutrinos (%s)" % s, as_bool(field(t, nus[0])) is as_bool(o("include_neutrinos")), w, show(field(t, nus[0]))[:200])
    return True


def flds(F, path):
    return {f[0]: f[1] for f in F.adts[path]["variants"][0]["fields"]}


def main_run(a, F):
    files = []

    def hook(c, v):
        files.append((pure_seq(c, v[1]), v[0]))
        return NotImplemented
    I = a.interp("bin::main", F, opaque={RUN, BUILD}, hooks={BUILD: hook})
    return I, files


def check(a):
    F = a.facts("full", ("cres", "bin_cres"))
    I, files = main_run(a, F)
    W = where(I.entry)
    runs = [e for e in I.events if e.kind == "call" and (e.name == RUN or matches(e.name, "Cres::run") or e.name.startswith("cres::cres::Cres::<") and e.name.endswith("::run"))]
    if not a.ob("main", "runs", len(runs) >= 1, W, "%d calls of the main algorithm" % len(runs)):
        return
    parses = list(dict.fromkeys(t for e in runs for t in subterms(e.args[0]) if is_call(t, "parse_from") or is_call(t, "Parser::parse")))
    if not a.ob("main", "one-command-line", len(parses) == 1, W, "%d parsed command lines" % len(parses)):
        return
    opt = parses[0]
    o = lambda *p: field_path(opt, p)
    # the result
    bad = [e for e in runs if not is_variant_never_ok(I.result, e)]
    a.ob("main", "failure-reported", not bad, W, "a failing run gives success" if bad else "")
    okc = as_bool(is_variant(I.result, None, "Ok"))
    ran = FALSE
    for e in runs:
        ran = b_or(ran, b_and(e.guard, is_variant(e.res, None, "Ok")))
    a.ob("main", "success-means-run", b_and(okc, b_not(ran)) is FALSE, W, show(b_and(okc, b_not(ran)))[:300])
    # settings
    lep = [o("lepton_def", n) for n in ("leptonalgorithm", "leptonradius", "leptonpt")]
    pho = [o("photon_def", n) for n in ("photonefrac", "photonradius", "photonpt")]
    none = lambda xs: conj(*[is_variant(x, None, "None") for x in xs])
    some = lambda xs: conj(*[b_not(is_variant(x, None, "None")) for x in xs])
    for n, e in enumerate(runs):
        tag = "run%d" % n if len(runs) > 1 else "run"
        w = where(e)
        g = e.guard
        mixed = b_and(b_and(b_not(none(lep)), b_not(some(lep))), g)
        a.ob(tag, "no-partial-lepton-settings", mixed is FALSE, w, show(mixed)[:300])
        mixed = b_and(b_and(b_not(none(pho)), b_not(some(pho))), g)
        a.ob(tag, "no-partial-photon-settings", mixed is FALSE, w, show(mixed)[:300])
        cres = e.args[0]
        cf = lambda sub: component(F, cres, sub)
        cl = cf("DefaultClustering")
        for lv in (True, False):
            for pv in (True, False):
                c = conj(some(lep) if lv else none(lep), some(pho) if pv else none(pho))
                if b_and(c, g) is FALSE:
                    a.fail(tag, "settings-accepted", w, "lepton %s, photon %s: never runs" % (lv, pv))
                    continue
                t = restrict(cl, c)
                s = "%s lepton, %s photon" % ("with" if lv else "no", "with" if pv else "no")
                if not clustering_settings(a, F, tag, w, t, c, s, lv, pv, lep, pho, o):
                    return
        r = cf("DefaultResampler")
        check_resampler(a, F, tag, w, r, o)
        u = cf("Unweighter")
        uf = flds(F, "cres::unweight::Unweighter")
        num = [k for k, ty in uf.items() if ty in ("f64", "noisy_float::NoisyFloat<f64, noisy_float::checkers::NumChecker>") or "NoisyFloat" in ty]
        rng = [k for k in uf if k not in num]
        a.ob(tag, "minimum weight", len(num) == 1 and field(u, num[0]) is o("unweight", "minweight"), w, show(u)[:300])
        rv = field(u, rng[0]) if len(rng) == 1 else u
        a.ob(tag, "unweighting seed", is_call(rv, "seed_from_u64") and rv.a[-1] is o("unweight", "seed"), w, show(rv)[:300])
        conv = cf("Converter")
        cv = [field(conv, k) for k in flds(F, "cres::io::Converter")]
        a.ob(tag, "weights read", cv == [o("weights")], w, show(conv)[:300])
        # files
        io = cf("CombinedFileIO")
        b = [t for t in subterms(io) if is_call(t, "build_from_files_iter")]
        okf = len(set(b)) == 1 and io is payload(b[0], "Ok")
        if a.ob(tag, "event files", okf and len(files) >= 1, w, show(io)[:300]):
            bd = b[0].a[1]
            vals = {k: field(bd, k) for k in flds(F, "cres::io::IOBuilder")}
            a.ob(tag, "output compression", any(v is o("compression") for v in vals.values()), w, show(bd)[:300])
            a.ob(tag, "weights updated", any(v is o("weights") for v in vals.values()), w, show(bd)[:300])
            check_files(a, tag, w, files, o)
    # threads
    pools = [e for e in I.events if e.kind == "call" and matches(e.name, "ThreadPoolBuilder::build_global")]
    okt = bool(pools)
    for p in pools:
        nt = [t for t in subterms(p.args[0]) if is_call(t, "ThreadPoolBuilder::num_threads")]
        okt = okt and len(nt) == 1 and nt[0].a[-1] is o("threads")
    if pools:
        up = disj(*[b_and(p.guard, is_variant(p.res, None, "Ok")) for p in pools])
        okt = okt and all(b_and(e.guard, b_not(up)) is FALSE for e in runs)
    a.ob("main", "threads", okt, W, "; ".join(show(p.args[0])[:200] for p in pools) or "no thread pool set up")
    check_search(a, F, I, runs, o)
    check_builders(a, F)


def conj(*gs):
    r = TRUE
    for g in gs:
        r = b_and(r, g)
    return r


def disj(*gs):
    r = FALSE
    for g in gs:
        r = b_or(r, g)
    return r


def field_path(t, p):
    for k in p:
        t = field(t, k)
    return t


def is_variant_never_ok(res, e):
    """if this run is reached and fails, the result is an error"""
    c = b_and(e.guard, b_not(is_variant(e.res, None, "Ok")))
    return b_and(as_bool(is_variant(res, None, "Ok")), c) is FALSE


def component(F, cres, sub):
    """the component of the run that is a `sub`"""
    if cres.op == "agg":
        for v in cres.a[3]:
            w = v
            while w.op == "ite":
                w = w.a[1] if w.a[1].op != "undef" else w.a[2]
            if w.op == "agg" and w.a[0].split("<")[0].rsplit("::", 1)[-1] == sub:
                return v
        if sub == "CombinedFileIO":
            for v in cres.a[3]:
                if any(is_call(t, "build_from_files_iter") for t in subterms(v)):
                    return v
    return mk("sym", "no component " + sub)


def check_files(a, tag, w, files, o):
    infiles, outdir = o("infiles"), o("outdir")
    good = True
    for s, _ in files:
        n = length(s)
        i = mk("sym", "i")
        e = index(s, i)
        src, dst = field(e, "0"), field(e, "1")
        f = index(infiles, i)
        good = good and n is length(infiles) and src is f
        good = good and out_path(dst, outdir, f)
        det = "pair %s of %s" % (show(e)[:300], show(n)[:100])
    a.ob(tag, "one output per input", good, w, det)


def out_path(t, outdir, f):
    """t is outdir joined with the file name of f"""
    parts = [bare(x) for x in path_parts(t)]
    return len(parts) == 2 and parts[0] is outdir and is_file_name(parts[1], f)


def is_file_name(t, f):
    xs = [x for x in subterms(t) if is_call(x, "file_name")]
    return len(set(xs)) == 1 and xs[0].a[-1] is f and t is payload(xs[0], "Some")


def bare(t):
    while t.op == "call" and any(is_call(t, p) for p in ("as_os_str", "as_path", "as_ref", "to_path_buf", "to_owned", "borrow", "into_os_string")):
        t = t.a[-1]
    return t


def path_parts(t):
    if t.op == "agg" and t.a[0] in ("vec", "array"):
        return list(t.a[3])
    if t.op == "call" and any(is_call(t, p) for p in ("Path::join", "PathBuf::join")):
        return path_parts(bare(t.a[1])) + [t.a[2]]
    if t.op == "call" and (is_call(t, "from_iter") or is_call(t, "collect")):
        v = t.a[-1]
        if v.op == "agg" and v.a[0] in ("vec", "array"):
            return list(v.a[3])
        n = length(v)
        if is_num(n) and n.a[1] <= 8:
            return [index(v, cint(k)) for k in range(int(n.a[1]))]
    if t.op == "post" and is_call(t.a[0], "push"):
        return path_parts(t.a[0].a[1]) + [t.a[0].a[2]]
    return [t]


def check_resampler(a, F, tag, w, r, o):
    """the settings of the default resampler, down to the resampler it runs"""
    body = a.impl("cres::traits::Resample::resample", "DefaultResampler", F)
    inner = a.impl("cres::traits::Resample::resample", "resampler::Resampler<", F)["name"]
    I = a.interp(body, F, opaque={inner})
    s, evp = I.params
    calls_ = [e for e in I.events if e.kind == "call" and (matches(e.name, "Resample::resample") or e.name == inner)]
    if not a.ob(tag, "resampler-run", len(calls_) == 1 and calls_[0].guard is TRUE and calls_[0].args[-1] is evp, where(body), "%d resampling calls" % len(calls_)):
        return
    c = calls_[0]
    t = subst(c.args[0], {s: r})
    f = {k: field(t, k) for k in flds(F, "cres::resampler::Resampler")}
    want = {}
    for k, v in f.items():
        if v.op == "agg" and v.a[0].split("<")[0] == "cres::seeds::StrategicSelector":
            want["strategy"] = v.a[3] == (o("strategy"),) or list(v.a[3]) == [o("strategy")]
        elif v.op == "agg" and v.a[0].split("<")[0] == "cres::distance::EuclWithScaledPt":
            want["pt weight"] = list(v.a[3]) == [o("ptweight")]
        elif v is o("max_cell_size"):
            want["maximum cell size"] = True
    for k in ("strategy", "pt weight", "maximum cell size"):
        a.ob(tag, k, want.get(k), w, show(t)[:500])
    # success is passed on with the resampled events
    res = c.res
    bad = b_not(is_variant(res, None, "Ok"))
    good = b_and(as_bool(is_variant(I.result, None, "Ok")), bad) is FALSE or any(e.kind == "panic" and e.guard is bad for e in I.events)
    good = good and restrict(I.result, is_variant(res, None, "Ok")) is ok(payload(res, "Ok"))
    a.ob(tag, "resampled events returned", good, where(body), show(I.result)[:200])


def check_search(a, F, I, runs, o):
    search = o("search")
    prob = []
    for v, path in SEARCHES.items():
        other = [p for k, p in SEARCHES.items() if k != v]
        g = FALSE
        for e in runs:
            ty = " ".join(e.targs)
            if path in ty:
                g = b_or(g, e.guard)
            elif not any(p in ty for p in other):
                # a type parameter of an enclosing generic function
                fr = [t for t in e.ttypes if any(p in x for x in t for p in SEARCHES.values())]
                if not fr:
                    prob.append("search of the run at %s unknown: %s" % (where(e), ty[:100]))
                elif any(path in x for x in fr[-1]):
                    g = b_or(g, e.guard)
        wrong = b_and(b_and(g, b_not(is_variant(search, None, v))), disj(*[is_variant(search, None, k) for k in SEARCHES if k != v]))
        if g is FALSE or wrong is not FALSE:
            prob.append("%s search runs if %s" % (v, show(g)[:200]))
    a.ob("main", "search", not prob, where(runs[0]), "; ".join(prob)[:600])


def check_builders(a, F):
    # defaults and setters of the builder
    I = a.interp(a.impl("core::default::Default::default", "resampler::DefaultResamplerBuilder", F), F)
    d = I.result
    S = "cres::resampler::DefaultResamplerBuilder"
    f = flds(F, S)
    pt = [k for k, ty in f.items() if ty == "f64" or "NoisyFloat" in ty]
    mx = [k for k, ty in f.items() if ty.startswith("core::option::Option<") and ("f64" in ty)]
    stg = [k for k, ty in f.items() if ty == "cres::seeds::Strategy"]
    okd = len(pt) == len(mx) == len(stg) == 1 and field(d, pt[0]) is ZERO and is_variant(field(d, mx[0]), None, "None") is TRUE and is_variant(field(d, stg[0]), None, "MostNegative") is TRUE
    a.ob("builder", "defaults", okd, where(I.entry), show(d)[:300])
    for m, k in (("ptweight", pt), ("max_cell_size", mx), ("strategy", stg)):
        J = a.interp(S + "::" + m, F)
        s, v = J.params
        ch = [n for n in f if field(J.result, n) is not field(s, n)]
        a.ob("builder", m, ch == k and field(J.result, k[0]) is v, where(J.entry), show(J.result)[:300])
    J = a.interp(S + "::neighbour_search", F)
    s, = J.params
    okn = all(field(J.result, n) is field(s, n) for n in f if "PhantomData" not in f[n])
    a.ob("builder", "neighbour_search", okn, where(J.entry), show(J.result)[:300])
    # resampler: neighbour search over all events with the distance and the maximum size
    I = a.interp(a.impl("cres::traits::Resample::resample", "resampler::Resampler<", F), F, opaque={"cres::cell::Cell::new"})
    s, ev = I.params
    W = where(I.entry)
    new = [e for e in I.events if e.kind == "call" and (matches(e.name, "NeighbourSearchAlgo::new_with_dist"))]
    if a.ob("resampler", "search-created", len(new) == 1, W, "%d neighbour searches created" % len(new)):
        n, dist, mx = new[0].args
        rf = flds(F, "cres::resampler::Resampler")
        mk_ = [k for k, ty in rf.items() if ty.startswith("core::option::Option<") and "f64" in ty]
        dk = [k for k, ty in rf.items() if ty == "D"]
        m = field(s, mk_[0]) if len(mk_) == 1 else mk("sym", "?")
        no = is_variant(m, None, "None")
        lim = restrict(mx, no)
        okm = restrict(mx, b_not(no)) is payload(m, "Some") and is_num(lim) and lim.a[1] > 1e300 or restrict(mx, b_not(no)) is payload(m, "Some") and "inf" in show(lim).lower()
        a.ob("resampler", "maximum-size", okm, where(new[0]), show(mx)[:200])
        a.ob("resampler", "all-events", n is length(ev), where(new[0]), show(n)[:200])
        okd = dist.op == "agg" and len(dk) == 1 and set(dist.a[3]) == {field(s, dk[0]), ev}
        a.ob("resampler", "distance", okd, where(new[0]), show(dist)[:200])
        a.ob("resampler", "search-for-cells", all(e.args[2] is new[0].res or new[0].res in set(subterms(e.args[2])) for e in I.events if e.kind == "call" and matches(e.name, "Cell::new")), W,
             "cells built from another search")
