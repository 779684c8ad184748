"""Value analysis of the command line layer of the three programs.  The code generated for the option structures is evaluated
symbolically: every setting is read from one argument, and the definition of this argument (flag, default, whether it is
required, how its text is parsed) is compared with the documented one.  The parsers for seed strategies, jet algorithms,
compression settings and numbers of regions are reduced to decision tables over the text they are given; tables are complete
(all texts that are compared with, plus any other text), levels are symbolic numbers."""
import re
from an.terms import *
from an.query import *
from an.rule import where

REQ = object()
COMMON = {
    "jet_def.jetalgorithm": ("jetalgorithm", "a", REQ), "jet_def.jetradius": ("jetradius", "R", REQ), "jet_def.jetpt": ("jetpt", "p", REQ),
    "lepton_def.leptonalgorithm": ("leptonalgorithm", None, None), "lepton_def.leptonradius": ("leptonradius", None, None), "lepton_def.leptonpt": ("leptonpt", None, None),
    "photon_def.photonefrac": ("photonefrac", None, None), "photon_def.photonradius": ("photonradius", None, None), "photon_def.photonpt": ("photonpt", None, None),
    "include_neutrinos": ("include-neutrinos", None, False), "ptweight": ("ptweight", None, 0.0),
    "compression": ("compression", None, None), "loglevel": ("loglevel", "l", "info"), "threads": ("threads", "t", 0), "infiles": (None, None, None),
}
TABLES = {
    "bin_cres": dict(COMMON, **{
        "outdir": ("outdir", "o", REQ), "unweight.minweight": ("minweight", "w", 0.0), "unweight.seed": ("seed", None, 0), "search": ("search", "s", "tree"),
        "strategy": ("strategy", None, "most_negative"), "max_cell_size": ("max-cell-size", None, None), "weights": ("weights", None, None)}),
    "bin_cres_partition": dict(COMMON, **{"outfile": ("outfile", "o", REQ), "regions": ("regions", None, REQ)}),
    "bin_cres_classify_events": {"partition": ("partition", "p", REQ), "outdir": ("outdir", "o", REQ), "compression": ("compression", "c", None),
                                 "loglevel": ("loglevel", "l", "info"), "infiles": (None, None, None)},
}
PARSERS = {"compression": "parse_compr", "strategy": "parse_strategy", "regions": "parse_nregions"}
STRATEGY = {"Next": ("Any", "any"), "MostNegative": ("MostNegative", "most_negative"), "LeastNegative": ("LeastNegative", "least_negative")}
ALGS = {"AntiKt": ("anti_kt", "antikt", "anti-kt"), "Kt": ("kt",),
        "CambridgeAachen": ("Cambridge/Aachen", "Cambridge-Aachen", "Cambridge_Aachen", "cambridge/aachen", "cambridge-aachen", "cambridge_aachen")}
COMPR = {"bzip2": ("Bzip2", None, None), "bz2": ("Bzip2", None, None), "gzip": ("Gzip", 6, 9), "gz": ("Gzip", 6, 9), "lz4": ("Lz4", 0, 16),
         "zstd": ("Zstd", 0, 19), "zstandard": ("Zstd", 0, 19)}


def check(a):
    for crate, table in TABLES.items():
        F = a.facts("full", (crate, "cres"))
        flags(a, F, crate, table)
        compression(a, F, crate)
    F = a.facts("full", ("bin_cres", "cres"))
    names(a, F, "strategy", [n for n in F.names if n.startswith("bin::") and n.endswith("::parse_strategy")], STRATEGY)
    names(a, F, "jet algorithm", [a.impl("core::str::traits::FromStr::from_str", "JetAlgorithm", F)["name"]], ALGS)
    b = a.impl("clap_builder::derive::ValueEnum::to_possible_value", "Search", F)
    I = a.interp(b, F)
    s, = I.params
    got = {}
    for v, o in (("Tree", "Naive"), ("Naive", "Tree")):
        t = restrict(restrict(I.result, is_variant(s, None, v)), b_not(is_variant(s, None, o)))
        ps = [x for x in subterms(t) if is_call(x, "PossibleValue::new")]
        got[v] = {x.a[-1].a[1] if x.a[-1].op == "c" else show(x.a[-1]) for x in ps}
    a.ob("names", "search", got == {"Tree": {"tree"}, "Naive": {"naive"}}, where(b), str(got))
    F = a.facts("full", ("bin_cres_partition", "cres"))
    regions(a, F)


# ---------------------------------------------------------------- flags
def chain(t):
    """settings made on an argument"""
    out = {}
    while t.op == "call":
        n = t.a[0].split("<")[0].rsplit("::", 1)[-1]
        args = [x for x in t.a[1:] if isinstance(x, T)]
        if n == "new":
            out["id"] = args[0]
            return out
        out.setdefault(n, args[1] if len(args) > 1 else None)
        t = args[0]
    return out


def lit(t):
    return t.a[1] if t is not None and t.op == "c" else None


def flags(a, F, crate, table):
    b = [b for b in F.impls.get("clap_builder::derive::FromArgMatches::from_arg_matches_mut", []) if b["crate"] == crate and str(b.get("impl_self")).endswith("::Opt")]
    c = [b for b in F.impls.get("clap_builder::derive::Args::augment_args", []) if b["crate"] == crate and str(b.get("impl_self")).endswith("::Opt")]
    if not a.ob("options", crate, len(b) == 1 and len(c) == 1, "", "option structure"):
        return
    I = a.interp(b[0], F)
    r = payload(I.result, "Ok")
    ids = {}

    def walk(t, path):
        if t.op == "agg" and t.a[0].startswith("bin") and t.a[2] and t.a[1] is None:
            for n in t.a[2]:
                walk(field(t, n), path + (n,))
            return
        rem = [x for x in subterms(t) if x.op == "call" and "ArgMatches::remove" in x.a[0]]
        rem = [x for x in rem if not any(y is not x and contains(y, lambda z: z is x) for y in rem)]
        ids[".".join(path)] = (lit(rem[0].a[-1]) if len(set(rem)) == 1 else None, t)
    okc = as_bool(is_variant(I.result, None, "Ok"))
    walk(restrict(r, okc), ())
    J = a.interp(c[0], F)
    args = {}
    for t in subterms(J.result):
        if t.op == "call" and t.a[0].endswith("Command::arg"):
            ch = chain(t.a[-1])
            args.setdefault(lit(ch.get("id")), []).append(ch)
    w = where(c[0])
    for f, (long, short, default) in table.items():
        aid, t = ids.get(f, (None, None))
        defs = args.get(aid, [])
        if not a.ob("flag", "%s.%s" % (crate, f), aid is not None and len(defs) == 1, w, "setting %s read from argument %s: %s" % (f, aid, show(t)[:200] if t is not None else "")):
            continue
        ch = defs[0]
        a.ob("flag", "%s.%s.own" % (crate, f), sum(1 for g, (i, _) in ids.items() if i == aid) == 1, w, "argument %s used twice" % aid)
        if long is None:
            a.ob("flag", "%s.%s.name" % (crate, f), "long" not in ch and "short" not in ch, w, str({k: show(v) if v is not None else None for k, v in ch.items()})[:300])
            continue
        a.ob("flag", "%s.%s.name" % (crate, f), lit(ch.get("long")) == long and (short is None or lit(ch.get("short")) == short), w,
             "--%s -%s" % (lit(ch.get("long")), lit(ch.get("short"))))
        d = ch.get("default_value")
        if default is REQ or default is None:
            rq = ch.get("required")
            good = d is None and (rq is not None and (rq is TRUE or "takes_values" in show(rq)) if default is REQ else rq is None or rq is FALSE)
        elif default is False:
            good = ch.get("action") is not None and "SetTrue" in show(ch["action"])
        else:
            good = d is not None and default_is(a, F, d, default)
        a.ob("flag", "%s.%s.default" % (crate, f), good, w, "default %s, required %s" % (show(d) if d is not None else None, show(ch["required"]) if ch.get("required") is not None else None))
        if f in PARSERS:
            p = ch.get("value_parser")
            a.ob("flag", "%s.%s.parser" % (crate, f), p is not None and p.op == "fn" and PARSERS[f] in show(p), w, show(p)[:200] if p is not None else "default parser")
        if f == "weights":
            a.ob("flag", "%s.%s.separator" % (crate, f), lit(ch.get("value_delimiter")) == ",", w, str(lit(ch.get("value_delimiter"))))


def default_is(a, F, d, want):
    if d.op == "c":
        try:
            return float(d.a[1]) == want if isinstance(want, (int, float)) else str(d.a[1]).lower() == want
        except ValueError:
            return False
    # computed once: a closure giving the text of a constant
    cl = [x for x in subterms(d) if x.op == "agg" and str(x.a[0]).startswith("closure:")]
    if len(cl) != 1:
        return False
    b = F.bodies.get(cl[0].a[0][8:])
    if not b:
        return False
    I = a.interp(b, F)
    nums = [x for x in subterms(I.result) if is_num(x)] + [x for e in I.events for x in e.args if isinstance(x, T) and is_num(x)]
    return bool(nums) and all(x.a[1] == want for x in nums)


# ---------------------------------------------------------------- names
def text_atoms(t):
    return list(dict.fromkeys(x.a[0] for x in subterms(t) if x.op == "ite" and x.a[0].op == "isval" and x.a[0].a[1].op == "c"))


def table(t, atoms, text):
    """t if the compared text is `text` (None: none of the constants)"""
    for at in atoms:
        c = b_atom(at)
        t = restrict(t, c if at.a[1].a[1] == text else b_not(c))
    return t


def names(a, F, what, fns, want):
    if not a.ob("names", what, len(fns) == 1, "", str(fns)):
        return
    I = a.interp(fns[0], F)
    s = I.params[0]
    atoms = text_atoms(I.result)
    bad = []
    if any(at.a[0] is not s for at in atoms):
        bad.append("compares " + ", ".join(show(at.a[0])[:80] for at in atoms if at.a[0] is not s))
    texts = {at.a[1].a[1] for at in atoms} | {x for v in want.values() for x in v}
    for x in list(texts) + [None]:
        t = table(I.result, atoms, x)
        exp = [v for v, xs in want.items() if x in xs]
        if exp:
            if not (t.op == "agg" and t.a[1] == "Ok" and is_variant(payload(t, "Ok"), None, exp[0]) is TRUE):
                bad.append("'%s': %s" % (x, show(t)[:100]))
        elif not (t.op == "agg" and t.a[1] == "Err"):
            bad.append("%s: %s" % ("any other text" if x is None else "'%s'" % x, show(t)[:100]))
    a.ob("names", what + " table", not bad, where(I.entry), "; ".join(bad)[:500])


# ---------------------------------------------------------------- compression
def deep(t, c):
    """t where c is known, inside of values as well"""
    return rewrite(t, lambda x: restrict(x, c) if x.op == "ite" and restrict(x, c) is not x else None)


def compression(a, F, crate):
    fns = [n for n in F.names if n.endswith("::parse_compr") and n.startswith("bin::") or n.endswith("::parse_compr") and "opt_common" in n]
    if not a.ob("compression", crate, len(fns) == 1, "", str(fns)):
        return
    I = a.interp(fns[0], F)
    s = I.params[0]
    W = where(I.entry)
    bad = []
    caps = list(dict.fromkeys(x for x in subterms(I.result) if is_call(x, "Regex::captures")))
    if len(caps) != 1:
        a.fail("compression", crate + " pattern", W, "%d pattern matches" % len(caps))
        return
    cap = caps[0]
    low = cap.a[-1]
    a.ob("compression", crate + " letter case", (is_call(low, "to_ascii_lowercase") or is_call(low, "to_lowercase")) and low.a[-1] is s, W, show(low)[:200])
    pattern(a, F, crate, W)
    none = is_variant(cap, None, "None")
    a.ob("compression", crate + " malformed", is_variant(deep(I.result, none), None, "Err") is TRUE, W, show(deep(I.result, none))[:200])
    t0 = deep(I.result, b_not(none))
    c = payload(cap, "Some")
    algo = [x for x in dict.fromkeys(at.a[0] for at in text_atoms(t0))]
    if not a.ob("compression", crate + " algorithm text", len(algo) == 1 and group(algo[0], c, "algo"), W, "; ".join(show(x)[-200:] for x in algo)):
        return
    atoms = text_atoms(t0)
    lv = list(dict.fromkeys(x for x in subterms(t0) if is_call(x, "Captures::name") and x.a[1] is c and lit(x.a[-1]) == "lvl"))
    ps = list(dict.fromkeys(x for x in subterms(t0) if x.op == "call" and (is_call(x, "parse") or is_call(x, "from_str"))))
    if not a.ob("compression", crate + " level text", len(lv) == 1 and len(ps) == 1 and level_text(ps[0], payload(lv[0], "Some")), W, "; ".join(show(x)[-300:] for x in ps)):
        return
    nolv, p = is_variant(lv[0], None, "None"), ps[0]
    bad_p = b_not(is_variant(p, None, "Ok"))
    n = payload(p, "Ok")
    for x in sorted({at.a[1].a[1] for at in atoms} | set(COMPR)) + [None]:
        t = table(t0, atoms, x)
        if x not in COMPR:
            if is_variant(t, None, "Err") is not TRUE:
                bad.append("%s: %s" % (x, show(t)[-150:]))
            continue
        v, d, mx = COMPR[x]
        t1 = deep(t, nolv)
        good = t1.op == "agg" and t1.a[1] == "Ok" and is_variant(payload(t1, "Ok"), None, v) is TRUE and (d is None or payload(payload(t1, "Ok"), v) is cint(d))
        if not good:
            bad.append("%s without level: %s" % (x, show(t1)[-150:]))
        t2 = deep(t, b_not(nolv))
        if mx is None:
            if is_variant(t2, None, "Err") is not TRUE:
                bad.append("%s with level: %s" % (x, show(t2)[-150:]))
            continue
        if is_variant(deep(t2, bad_p), None, "Err") is not TRUE:
            bad.append("%s with a level that is no number: %s" % (x, show(deep(t2, bad_p))[-150:]))
        t3 = deep(t2, b_not(bad_p))
        lim = cmp_lt(n, cint(mx + 1))
        okt = as_bool(is_variant(t3, None, "Ok"))
        same = whole(okt, n, mx)
        val = deep(t3, okt)
        good = same and is_variant(payload(val, "Ok"), None, v) is TRUE and payload(payload(val, "Ok"), v) is n
        if not good:
            bad.append("%s with level n: accepted if %s, giving %s" % (x, show(okt)[-150:], show(val)[-150:]))
    a.ob("compression", crate + " table", not bad, W, "; ".join(bad)[:800])


def whole(c, n, mx):
    """c holds exactly for the integers n with 0 <= n <= mx"""
    for k in list(range(0, 40)) + [255]:
        v = subst(c, {n: cint(k)})
        if v is not (TRUE if k <= mx else FALSE):
            return False
    return True


def group(t, c, name):
    if t.op == "call" and (is_call(t, "as_str")):
        m = t.a[-1]
        return group_match(m, c, name)
    return t.op == "idx" and t.a[0] is c and lit(t.a[1]) == name or t.op == "call" and is_call(t, "index") and t.a[1] is c and lit(t.a[2]) == name


def group_match(m, c, name):
    xs = [x for x in subterms(m) if is_call(x, "Captures::name") and x.a[1] is c]
    return len(xs) == 1 and lit(xs[0].a[-1]) == name and m is payload(xs[0], "Some")


def level_text(p, m):
    t = p.a[-1]
    st = [x for x in subterms(t) if is_call(x, "as_str") and x.a[-1] is m]
    if len(st) != 1:
        return False
    t2 = subst(t, {st[0]: mk("sym", "level")})
    s = show(t2)
    return s.replace(" ", "") == "subslice(sym(level),1,len(sym(level)))".replace(" ", "") or "sym(level)" in s and (("strip_prefix" in s or "trim_start_matches" in s) and "_" in s or ", 1, len(" in s)


def pattern(a, F, crate, W):
    re_ = [n for n in F.names if "opt_common" in n and n.endswith("COMPRESSION_RE::{closure#0}")] or [n for n in F.names if n.startswith("bin::opt_common::") and "{closure#0}" in n and "_RE" in n]
    pats = []
    for n in re_:
        I = a.interp(n, F)
        pats += [lit(x.a[-1]) for x in subterms(I.result) if is_call(x, "Regex::new")]
    good = len(set(pats)) == 1 and pats[0]
    det = str(pats)
    if good:
        try:
            r = re.compile(pats[0].replace("[:alnum:]", "A-Za-z0-9").replace("[:alpha:]", "A-Za-z").replace("[:digit:]", "0-9"))
            for s, g in (("zstd_5", ("zstd", "_5")), ("gzip", ("gzip", None)), ("lz4_16", ("lz4", "_16")), ("bz2", ("bz2", None)), ("gzip_", None), ("_9", None),
                         ("gzip_9x", None), (" gzip", None), ("gzip_-1", None), ("zstd_1_2", None), ("", None), ("gz_010", ("gz", "_010"))):
                m = r.search(s)
                got = (m.group("algo"), m.group("lvl")) if m else None
                if got != g:
                    good, det = False, "%s: '%s' gives %s" % (pats[0], s, got)
        except Exception as e:
            good, det = False, "%s: %s" % (pats[0], e)
    a.ob("compression", crate + " pattern", good, W, det)


def regions(a, F):
    fns = [n for n in F.names if n.endswith("::parse_nregions")]
    if not a.ob("names", "regions", len(fns) == 1, "", str(fns)):
        return
    I = a.interp(fns[0], F)
    s = I.params[0]
    okc = as_bool(is_variant(I.result, None, "Ok"))
    ps = list(dict.fromkeys(x for x in subterms(I.result) if x.op == "call" and (is_call(x, "parse") or is_call(x, "from_str"))))
    good = len(ps) == 1 and ps[0].a[-1] is s
    if good:
        n = payload(ps[0], "Ok")
        pw = [x for x in subterms(I.result) if is_call(x, "is_power_of_two") and x.a[-1] is n]
        want = b_and(is_variant(ps[0], None, "Ok"), as_bool(pw[0])) if pw else None
        good = want is not None and okc is want and restrict(I.result, okc) is ok(n)
    a.ob("names", "number of regions", good, where(I.entry), show(I.result)[:300])
