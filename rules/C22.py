"""Value analysis of `cres-partition`, from the options to the file, and of the lookup of a region.  The lookup and the
conversion of the tree are loops whose state transformers are compared with the written-down ones (heap numbering of a perfect
tree: children 2i+1 and 2i+2; breadth first over a queue of node numbers, the inner child at n+1, the outer one behind it).
The number of events needed is decided by evaluating the condition under which the tree is built, and the split the tree
builders make, for all numbers of events up to 4R+8 and R = 1, 2, ..., 256 regions.  What is stored is compared with what is
read back, field by field, in the derived serialisers and deserialisers of every type in the file."""
from an.terms import *
from an.query import *
from an.rule import where
from rules.records import *
from rules.records import given as given0
from rules.C13 import clustering_settings

REGION = "cres::partition::VPTreePartition::<P, DF>::region"
REGION_CALL = "cres::partition::VPTreePartition::region"
FROM = "cres::vptree::<impl core::convert::From<cres::vptree::VPTree<P, DF>> for cres::partition::VPTreePartition<P, DF>>::from"
TREE = "cres::vptree::VPTree::<P, DF>::from_par_iter_with_dist_and_depth"
NEXT = "core::iter::traits::iterator::Iterator>::next"
HOOKS = ["cres::traits::TryConvert::try_convert", "cres::traits::Clustering::cluster", "cres::io::EventFileReader::header", REGION_CALL]
OPQ = {"cres::io::FileReader::try_new", "cres::compression::compress_writer", "cres::io::detect_event_file_format"}


def check(a):
    F = a.facts("full", ("cres",))
    m = layout(a, F)
    if m is None:
        return
    region(a, F, m)
    convert(a, F, m)
    wrapped(a, F, m)
    P = a.facts("full", ("cres", "bin_cres_partition"))
    make(a, P, m)
    serde(a, a.facts("full", ("cres",)))


def given(t, *lits):
    for c in lits:
        t = restrict(t, c)
    return t


def opaque(F):
    out = set(OPQ)
    for k in F.impls:
        for b in F.impls[k]:
            s = str(b.get("impl_self"))
            if "FileReader" in s or "Converter" in s and "Zero" not in s or "DefaultClustering" in s:
                out.add(b["name"])
    return out


def hooks():
    return {p: (lambda c, vals, p=p: c.I.opaque_call(c, p, vals)) for p in HOOKS}


def layout(a, F):
    """field names by type"""
    m = {}
    for f in F.adts["cres::partition::VPTreePartition"]["variants"][0]["fields"]:
        m["vp" if "Vec<" in f[1] else "dist"] = f[0]
    for f in F.adts["cres::partition::VPBisection"]["variants"][0]["fields"]:
        m["r" if "NoisyFloat" in f[1] else "pt"] = f[0]
    for f in F.adts["cres::vptree::VPTree"]["variants"][0]["fields"]:
        m["nodes" if "Vec<" in f[1] else "tmax" if "NoisyFloat" in f[1] else "tdist"] = f[0]
    for f in F.adts["cres::vptree::Node"]["variants"][0]["fields"]:
        m["children" if "Option" in f[1] else "centre"] = f[0]
    for f in F.adts["cres::vptree::Children"]["variants"][0]["fields"]:
        m["radius" if "NoisyFloat" in f[1] else "offset"] = f[0]
    for f in F.adts["cres::distance::DistWrapper"]["variants"][0]["fields"]:
        m["events" if "event::Event" in f[1] else "evdist"] = f[0]
    for f in F.adts["cres::event::Event"]["variants"][0]["fields"]:
        if "RwLock" in f[1] or "eights" in f[1]:
            m["weights"] = f[0]
    ok_ = a.ob("layout", "types", {"events", "evdist", "weights", "vp", "dist", "r", "pt", "nodes", "tdist", "children", "centre", "radius", "offset"} <= set(m), "", str(m))
    return m if ok_ else None


def is_dist(t, x, y):
    return is_call(t, "Distance::distance") and {t.a[-1], t.a[-2]} == {x, y}


# ------------------------------------------------------------------ region of a point
def region(a, F, m):
    b = a.body(REGION, F)
    I = a.interp(b, F)
    W = where(b)
    me, pt = I.params
    vp = field(me, m["vp"])
    Ls = [L for L in I.loops.values() if L.nexts]
    if not a.ob("region", "one-descent", len(Ls) == 1 and len(Ls[0].nexts) == 1, W, "%d loops" % len(Ls)):
        return
    L = Ls[0]
    h = list(L.nexts)[0]
    a.ob("region", "starts-at-the-root", L.inits[h] is ZERO, W, show(L.inits[h]))
    node_ = index(vp, h)
    ds = [t for t in subterms(L.nexts[h]) if is_call(t, "Distance::distance")]
    if a.ob("region", "distance-to-the-vantage-point", len(ds) == 1 and is_dist(ds[0], field(node_, m["pt"]), pt) and ds[0].a[1] is field(me, m["dist"]), W,
            "; ".join(show(d)[:200] for d in ds)):
        r = field(node_, m["r"])
        two = mul(cint(2), h)
        for nm, c, to in (("nearer-goes-inside", cmp_lt(ds[0], r), 1), ("farther-goes-outside", cmp_lt(r, ds[0]), 2)):
            x = given(L.nexts[h], c)
            a.ob("region", nm, x is add(two, cint(to)), W, show(x)[:200])
        x = given(L.nexts[h], cmp_eq(r, ds[0]))
        a.ob("region", "same-distance-goes-one-way", x in (add(two, cint(1)), add(two, cint(2))), W, show(x)[:200])
    exs = list(L.exits.values())
    on = cmp_lt(h, length(vp))
    ok_ = len(exs) == 1 and given(exs[0][0], on) is FALSE and given(exs[0][0], b_not(on)) is TRUE
    a.ob("region", "descends-to-a-leaf", ok_, W, "; ".join(show(x[0])[:200] for x in exs))
    res = at_exit(I, L.id, I.result, 0)
    a.ob("region", "numbered-from-the-first-leaf", res is sub(h, length(vp)), W, show(res)[:200])


# ------------------------------------------------------------------ tree -> partition
def convert(a, F, m):
    b = a.body(FROM, F)
    I = a.interp(b, F)
    W = where(b)
    src = I.params[0]
    nodes = field(src, m["nodes"])
    empty = cmp_eq(length(nodes), ZERO)
    e = given(I.result, empty)
    a.ob("convert", "no-points-no-bisections", length(field(e, m["vp"])) is ZERO, W, show(e)[:200])
    a.ob("convert", "keeps-the-distance", field(I.result, m["dist"]) is field(src, m["tdist"]), W, show(field(I.result, m["dist"]))[:200])
    # a complete tree of bisections (one less than a power of two) is accepted
    refused = []
    for f in F.bodies.values():
        if f["crate"] != "cres" or f.get("vis") != "Public" or "{closure" in f["name"] or not f["name"].startswith("cres::partition::VPTreePartition"):
            continue
        J = a.interp(f, F)
        for x in J.params:
            up = add(length(x), ONE)
            for ev in J.events:
                if ev.kind == "panic":
                    for t in subterms(ev.guard):
                        if is_call(t, "is_power_of_two"):
                            arg = [y for y in t.a if isinstance(y, T)][-1]
                            if arg is not up and is_num(sub(arg, up)) or arg is up and restrict(ev.guard, as_bool(t)) is not FALSE:
                                refused.append("%s panics if %s" % (f["name"], show(ev.guard)[:160]))
    a.ob("convert", "complete-trees-accepted", not refused, W, "; ".join(refused)[:500])
    Ls = [L for L in I.loops.values() if len(L.nexts) > 1]
    if not a.ob("convert", "one-walk-over-the-tree", len(Ls) == 1 and len(I.loops) == 1, W, "%d loops" % len(I.loops)):
        return
    L = Ls[0]
    some_ = given(I.result, b_not(empty))
    out = field(some_, m["vp"])
    N = [s for s in L.nexts if L.inits[s] is nodes]
    V = [s for s in L.nexts if repr(s.a[1]) == (out.a[2] if out.op == "fin" else None)]
    Q = [s for s in L.nexts if s not in N + V]
    if not a.ob("convert", "state-of-the-walk", len(V) == 1 and len(Q) == 1 and len(N) <= 1 and len(L.nexts) == 2 + len(N), W,
                "; ".join(show(L.inits[s])[:60] for s in L.nexts)):
        return
    V, Q = V[0], Q[0]
    nds = N[0] if N else nodes
    a.ob("convert", "starts-empty", length(L.inits[V]) is ZERO, W, show(L.inits[V])[:100])
    q0 = L.inits[Q]
    while q0.op in ("call", "st") and len(q0.a) >= 2:
        q0 = [x for x in q0.a if isinstance(x, T)][-1]
    a.ob("convert", "starts-at-the-root", length(q0) is ONE and index(q0, ZERO) is ZERO, W, show(L.inits[Q])[:200])
    busy = b_not(cmp_eq(length(Q), ZERO))
    busy2 = cmp_lt(ZERO, length(Q))
    exs = list(L.exits.values())
    done = cmp_eq(length(Q), ZERO)
    a.ob("convert", "until-the-queue-is-empty", len(exs) == 1 and given(exs[0][0], b_not(empty), done) is TRUE and given(exs[0][0], busy, busy2) is FALSE, W,
         "; ".join(show(x[0])[:200] for x in exs))
    n = index(Q, ZERO)
    nd = index(nds, n)
    ch = field(nd, m["children"])
    has = is_variant(ch, None, "Some")
    no = is_variant(ch, None, "None")
    rest = subslice(Q, ONE, length(Q))
    g = lambda t, c: given(t, busy, busy2, as_bool(c))
    a.ob("convert", "leaf-adds-nothing", g(L.nexts[V], no) is V, W, show(g(L.nexts[V], no))[:200])
    a.ob("convert", "leaf-has-no-children", g(L.nexts[Q], no) is rest, W, show(g(L.nexts[Q], no))[:200])
    x = g(L.nexts[V], has)
    okv = x.op == "push" and x.a[0] is V and field(x.a[1], m["pt"]) is field(nd, m["centre"]) and field(x.a[1], m["r"]) is field(payload(ch, "Some"), m["radius"])
    a.ob("convert", "bisection-of-each-inner-node", okv, W, show(x)[:300])
    x = g(L.nexts[Q], has)
    inner = add(n, ONE)
    outer = add(inner, field(payload(ch, "Some"), m["offset"]))
    want = mk("push", mk("push", rest, inner), outer)
    a.ob("convert", "inside-first-then-outside", x is want, W, show(x)[:300])
    if N:
        x = g(L.nexts[nds], TRUE)
        y = x
        okn = True
        while y.op == "store":
            okn = okn and y.a[1] is n
            y = y.a[0]
        a.ob("convert", "only-visited-nodes-are-taken", okn and y is nds, W, show(x)[:200])


# ------------------------------------------------------------------ distance between events by number
def wrapped(a, F, m):
    bs = [b for b in F.impls.get("cres::distance::Distance::distance", []) if "DistWrapper" in str(b.get("impl_self"))]
    if not a.ob("wrapper", "present", len(bs) >= 1, "", ""):
        return
    for b in bs:
        I = a.interp(b, F)
        me, x, y = I.params
        ev = field(me, m["events"])
        ds = [t for t in subterms(I.result) if is_call(t, "Distance::distance")]
        ok_ = len(ds) == 1 and I.result is ds[0] and ds[0].a[1] is field(me, m["evdist"]) and {ds[0].a[2], ds[0].a[3]} == {index(ev, x), index(ev, y)}
        a.ob("wrapper", "distance-of-the-numbered-events", ok_, where(b), show(I.result)[:300])


# ------------------------------------------------------------------ cres-partition
def parsed(I):
    ps = [e for e in I.events if e.kind == "call" and e.name.endswith("Parser::parse_from")]
    return ps[0].res if len(ps) == 1 else None


def opts(xs, op):
    """everything in terms of the options"""
    m = {op: mk("sym", "opt")}
    return [subst(x, m) for x in xs]


def o(*path):
    t = mk("sym", "opt")
    for p in path:
        t = field(t, p)
    return t


def opaque_tree(F):
    return opaque(F) | {TREE, FROM}


def make(a, F, m):
    b = a.body("bin::main", F)
    I = a.interp(b, F, opaque=opaque_tree(F), hooks=hooks())
    W = where(b)
    op = parsed(I)
    if not a.ob("partition", "options-read-once", op is not None, W, ""):
        return
    S = lambda t: subst(t, {op: mk("sym", "opt")})
    tree = [e for e in I.events if e.kind == "call" and e.name == TREE]
    conv = [e for e in I.events if e.kind == "call" and e.name == FROM]
    wr = calls(I, "serde_yaml::ser::to_writer")
    if not a.ob("partition", "one-tree-one-output", len(tree) == 1 and len(conv) == 1 and len(wr) == 1, W, "%d trees, %d conversions, %d outputs" % (len(tree), len(conv), len(wr))):
        return
    tree, conv, wr = tree[0], conv[0], wr[0]
    dw = tree.args[1]
    evs, dist = field(dw, m["events"]), field(dw, m["evdist"])
    # ---- which events
    clustering = events(a, F, I, S, evs, W, m)
    if clustering is None:
        return
    settings(a, F, S(clustering), W, S(tree.guard))
    # ---- the tree
    n = length(evs)
    it = tree.args[0]
    okr = it.op == "it" and it.a[0].op == "st" and it.a[0].a[0] == "range" and it.a[0].a[1] is ZERO and it.a[0].a[2] is n and it.a[1] is ZERO
    a.ob("partition", "tree-of-all-events", okr, where(tree), show(it)[:200])
    okd = dist.op == "agg" and dist.a[0] == "cres::distance::EuclWithScaledPt" and len(dist.a[3]) == 1 and S(dist.a[3][0]) is o("ptweight")
    a.ob("partition", "distance-with-pt-weight", okd, where(tree), show(S(dist))[:200])
    a.ob("partition", "tree-converted", conv.args[0] is tree.res, where(conv), show(conv.args[0])[:200])
    depth(a, F, I, S, tree, n, m)
    # ---- the output
    part = [t for t in subterms(wr.args[1]) if t.op == "agg" and t.a[0] == "cres::partition::VPTreePartition"]
    if not a.ob("partition", "partition-written", len(set(part)) == 1, where(wr), "%d partitions in %s" % (len(set(part)), show(wr.args[1])[:200])):
        return
    part = part[0]
    a.ob("partition", "same-distance-written", field(part, m["dist"]) is dist, where(wr), show(field(part, m["dist"]))[:200])
    vp = field(part, m["vp"])
    src = field(conv.res, m["vp"])
    mapped(a, I, vp, src, evs, m, where(wr))
    pair = wr.args[1]
    a.ob("partition", "clustering-and-partition", pair.op == "agg" and len(pair.a[3]) == 2 and pair.a[3][0] is clustering and pair.a[3][1] is part, where(wr), show(S(pair))[:200])
    w = wr.args[0]
    cw = [t for t in subterms(w) if is_call(t, "compress_writer")]
    cw = list(set(cw))
    okw = len(cw) == 1 and w is payload(cw[0], "Ok")
    if a.ob("partition", "written-to-the-output-file", okw, where(wr), show(S(w))[:200]):
        fl = cw[0].a[1]
        if is_call(fl, "BufWriter::new"):
            fl = fl.a[1]
        c = [t for t in subterms(fl) if is_call(t, "File::create")]
        a.ob("partition", "output-file", len(c) == 1 and fl is payload(c[0], "Ok") and S(c[0].a[1]) is o("outfile"), where(wr), show(S(fl))[:200])
        a.ob("partition", "output-compression", S(cw[0].a[2]) is o("compression"), where(wr), show(S(cw[0].a[2]))[:100])
    okc = as_bool(is_variant(I.result, None, "Ok"))
    done = b_and(wr.guard, as_bool(is_variant(wr.res, None, "Ok")))
    a.ob("partition", "success-means-written", b_and(okc, b_not(done)) is FALSE, W, show(b_and(okc, b_not(done)))[:300])


def events(a, F, I, S, evs, W, m):
    """the list of events is made of the clustered negative-weight events of all input files; returns the clustering"""
    cl = calls(I, "cres::traits::Clustering::cluster")
    if not a.ob("events", "list", evs.op == "fin" and len(cl) == 1, W, show(evs)[:200]):
        return None
    cl = cl[0]
    L1, h1 = find_slot(I, evs)
    files = o("infiles")
    a.ob("events", "all-input-files", L1.trip is not None and S(L1.trip) is length(files), W, show(S(L1.trip)) if L1.trip is not None else "no trip count")
    a.ob("events", "starts-empty", length(L1.inits[h1]) is ZERO, W, show(L1.inits[h1])[:100])
    # what is handed to the next file, if there is one
    rest = set()
    for lits, y in paths(L1.nexts[h1]):
        c = L1.guard
        for at, v in lits:
            c = b_and(c, b_atom(at) if v else b_not(b_atom(at)))
        for e in L1.exits.values():
            c = b_and(c, b_not(e[0]))
        if c is not FALSE:
            rest.add(y)
    x = rest.pop() if len(rest) == 1 else L1.nexts[h1]
    if not a.ob("events", "one-loop-over-the-events", x.op == "fin", W, show(S(x))[:200]):
        return None
    L2, h2 = find_slot(I, x)
    a.ob("events", "events-of-earlier-files-kept", L2.inits[h2] is h1, W, show(L2.inits[h2])[:100])
    nx = [e for e in I.events if e.kind == "call" and e.name.endswith(NEXT) and e.loops == (L1.id, L2.id)]
    if not a.ob("events", "reads", len(nx) == 1, W, "%d reads in the loop" % len(nx)):
        return None
    nx = nx[0]
    rd = nx.args[0]
    init = L2.inits.get(rd)
    opened = [t for t in subterms(init) if is_call(t, "FileReader::try_new")] if init is not None else []
    oko = len(set(opened)) == 1 and S(opened[0].a[1]) is index(files, mk("i", L1.id)) and contains(init, lambda t: t is payload(opened[0], "Ok"))
    a.ob("events", "reads-the-file", oko and L2.nexts[rd] is mk("post", nx.res, 0), where(nx), show(S(init))[:200] if init is not None else show(S(rd))[:200])
    ev = cl.args[1]
    tc = [t for t in subterms(ev) if is_call(t, "TryConvert::try_convert")]
    rec = payload(payload(nx.res, "Some"), "Ok")
    okv = len(set(tc)) == 1 and ev is payload(tc[0], "Ok") and tc[0].a[2] is rec
    a.ob("events", "clusters-the-event-read", okv, where(cl), show(S(ev))[:200])
    # what happens to one event, everything having worked
    good = [as_bool(is_variant(nx.res, None, "Some")), b_not(as_bool(is_variant(nx.res, None, "None"))), as_bool(is_variant(payload(nx.res, "Some"), None, "Ok"))]
    if okv:
        good.append(as_bool(is_variant(tc[0], None, "Ok")))
    good.append(as_bool(is_variant(cl.res, None, "Ok")))
    y = given(L2.nexts[h2], *good)
    new = mk("push", h2, payload(cl.res, "Ok"))
    ws = field(ev, m["weights"])
    neg = None
    for at in atoms(y):
        if at.op == "sgn" and contains(at.a[0], lambda t: t is ws):
            neg = at.a[0]
    okn = neg is not None and central(neg, ws)
    if a.ob("events", "by-the-central-weight", okn, W, show(S(y))[:300]):
        a.ob("events", "negative-weight-events", given(y, cmp_lt(neg, ZERO)) is new, W, show(S(given(y, cmp_lt(neg, ZERO))))[:300])
        a.ob("events", "no-other-events", given(y, b_not(cmp_lt(neg, ZERO))) is h2, W, show(S(given(y, b_not(cmp_lt(neg, ZERO)))))[:300])
    ends = [given(x[0], L2.guard, *good) for x in L2.exits.values()]
    a.ob("events", "read-to-the-end", all(g is FALSE for g in ends), W, "; ".join(show(S(g))[:200] for g in ends))
    return cl.args[0]


def settings(a, F, cl, W, g):
    lep = [o("lepton_def", k) for k in ("leptonalgorithm", "leptonradius", "leptonpt")]
    pho = [o("photon_def", k) for k in ("photonefrac", "photonradius", "photonpt")]
    for xs, nm in ((lep, "lepton"), (pho, "photon")):
        none, all_ = TRUE, TRUE
        for x in xs:
            n = as_bool(is_variant(x, None, "None"))
            none, all_ = b_and(none, n), b_and(all_, b_not(n))
        mixed = b_and(g, b_and(b_not(none), b_not(all_)))
        a.ob("settings", "no-partial-%s-settings" % nm, mixed is FALSE, W, show(mixed)[:300])
    for lv in (True, False):
        for pv in (True, False):
            c = TRUE
            for xs, v in ((lep, lv), (pho, pv)):
                for x in xs:
                    none = as_bool(is_variant(x, None, "None"))
                    c = b_and(c, b_not(none) if v else none)
            s = "%s lepton, %s photon" % ("with" if lv else "no", "with" if pv else "no")
            if not clustering_settings(a, F, "settings", W, restrict(cl, c), c, s, lv, pv, lep, pho, o):
                return


def central(w, ws):
    """w is the first of the weights in ws"""
    if w.op == "idx":
        if w.a[1] is not ZERO:
            return False
        w = w.a[0]
    n = 0
    while w.op in ("fld", "cont", "pay", "call") and n < 6:
        if w is ws:
            return True
        w = [x for x in w.a if isinstance(x, T)][0]
        n += 1
    return w is ws


def mapped(a, I, vp, src, evs, m, W):
    """vp[i] = (event number src[i].pt, radius of src[i]), for every i"""
    if vp.op == "fin":
        L, h = find_slot(I, vp)
        x = L.nexts[h]
        i = mk("i", L.id)
        okl = length(L.inits[h]) is ZERO and L.trip is length(src) and x.op == "push" and x.a[0] is h
        el = x.a[1] if x.op == "push" else x
        others = {s: L.inits[s] for s in L.nexts if s is not h}
        el_ = subst(el, others)
        taken_ = [s for s in others if others[s] is evs]
        tk = all(y.op == "store" and y.a[0] is s and y.a[1] is field(index(src, i), m["pt"]) for s in taken_ for y in [L.nexts[s]])
        okl = okl and len(taken_) == len(others) and tk
    elif vp.op == "comp":
        i, el_, okl = mk("sym", "i"), index(vp, mk("sym", "i")), length(vp) is length(src)
    else:
        okl, el_, i = False, vp, ZERO
    if a.ob("partition", "one-bisection-for-each", okl, W, show(vp)[:300]):
        s = index(src, i)
        ok_ = field(el_, m["pt"]) is index(evs, field(s, m["pt"])) and field(el_, m["r"]) is field(s, m["r"])
        a.ob("partition", "vantage-point-is-the-event", ok_, W, show(el_)[:300])


KMAX = 8


def depth(a, F, I, S, tree, n, m):
    """as many levels as regions ask for, and enough events for them"""
    builders = [b for b in reachable_builders(F)]
    W = where(tree)
    R_ = o("regions")
    lz = [t for x in (tree.args[2], tree.guard) for t in subterms(S(x)) if is_call(t, "leading_zeros") or is_call(t, "ilog2") or is_call(t, "trailing_zeros")]
    lz += [t for x in I.events for g in [S(x.guard)] for t in subterms(g) if is_call(t, "leading_zeros") or is_call(t, "ilog2") or is_call(t, "trailing_zeros")]
    lz = list(set(lz))
    if not a.ob("depth", "function-of-the-regions", all(x.a[-1] is R_ for x in lz), W, "; ".join(show(x) for x in lz)):
        return
    N = S(n)
    splits = [split_of(a, F, b, m) for b in builders]
    if not a.ob("depth", "tree-builders", len(splits) >= 1 and all(s is not None for s in splits), W, ", ".join(b["name"] for b in builders)):
        return
    dep, grd = S(tree.args[2]), S(tree.guard)
    few, refuse, wrong, bad = [], [], [], 0
    memo = {}

    def perfect(nn, k):
        if k == 0:
            return True
        if nn < 2:
            return False
        if (nn, k) not in memo:
            memo[nn, k] = all(perfect(x, k - 1) for sp in splits for x in sp(nn))
        return memo[nn, k]
    cnt = 0
    for k in range(KMAX + 1):
        R = 1 << k
        mm = {R_: cint(R)}
        for x in lz:
            mm[x] = cint(31 - k if is_call(x, "leading_zeros") else k)
        if subst(dep, mm) is not cint(k):
            wrong.append("%d regions: %s levels" % (R, show(subst(dep, mm))))
        gk = subst(grd, mm)
        step = 1 if R <= 64 else 3
        for nn in list(range(0, 4 * R + 9, step)) + [3 * R // 2 - 2, 3 * R // 2 - 1, R, R - 1, 2 * R]:
            if nn < 0:
                continue
            cnt += 1
            g = subst(gk, {N: cint(nn)})
            if any(at.op == "sgn" and is_num(at.a[0]) for at in atoms(g)):
                bad += 1
            goes = g is not FALSE
            if goes and not perfect(nn, k) and nn > 0:
                few.append((R, nn))
            if nn >= 2 * R and not goes:
                refuse.append((R, nn))
            if nn == 0 and goes and k:
                few.append((R, 0))
    a.ob("depth", "levels", not wrong, W, "; ".join(wrong[:3]) or "log2 of the number of regions, for 1 to %d regions" % (1 << KMAX))
    a.ob("depth", "enough-events", not few and not bad, W, "a tree is built that cannot have all regions: " + "; ".join("%d regions from %d events" % x for x in few[:4]) if few else
         "every tree that is built has all its regions (%d combinations of numbers of regions and events)" % cnt)
    a.ob("depth", "accepts-plenty-of-events", not refuse, W, "refused: " + "; ".join("%d regions from %d events" % x for x in refuse[:4]) if refuse else "2 per region always suffice")


def reachable_builders(F):
    return recursive(F, [b for b in F.bodies.values() if b["name"] == TREE][0]["id"])


def split_of(a, F, b, m):
    """number of points -> numbers of points in the parts, as the builder makes them"""
    I = a.interp(b, F, opaque={x["name"] for x in reachable_builders(F) if x is not b})
    pts = I.params[0]
    fin = I.state.get(("obj", pts), pts)
    ch = {t for t in subterms(fin) if t.op == "agg" and t.a[0] == "cres::vptree::Children"}
    for ev in I.events:
        if ev.kind == "store":
            ch |= {t for t in subterms(ev.args[1]) if t.op == "agg" and t.a[0] == "cres::vptree::Children"}
    if len(ch) != 1:
        return None
    off = field(list(ch)[0], m["offset"])
    n = length(pts)

    def f(nn):
        h = subst(off, {n: cint(nn)})
        if not is_num(h):
            h = subst(off, {pts: mk("resized", mk("list"), cint(nn), ZERO)})
        if not is_num(h):
            raise Exception("split into parts not a function of the number of points: " + show(off))
        h = int(h.a[1])
        return (h, nn - 1 - h)
    return f


def one(t, name):
    xs = list({y for y in subterms(t) if is_call(y, name)})
    top = [x for x in xs if not any(y is not x and contains(y, lambda z: z is x) for y in xs)]
    return top[0] if len(top) == 1 else None


def strip(t):
    while t.op in ("cont", "ref"):
        t = t.a[0]
    return t


def textof(t):
    """constant text"""
    if t.op == "c" and isinstance(t.a[1], str):
        return t.a[1]
    if t.op == "agg" and t.a[0] == "array" and all(is_num(x) for x in t.a[3]):
        return "".join(chr(int(x.a[1])) for x in t.a[3])
    if t.op == "scat":
        ts = [textof(x) for x in t.a]
        return "".join(ts) if all(x is not None for x in ts) else None
    return None


# ------------------------------------------------------------------ what is stored comes back
SER = "serde_core::ser::Serialize::serialize"
DE = "serde_core::de::Deserialize::deserialize"
MAP = "serde_core::de::Visitor::visit_map"


def serde(a, F):
    """every stored field is stored under a name and read back from that name; nothing is left out or defaulted"""
    tys = {}
    for b in F.impls.get(SER, []):
        ty = (b.get("impl_self") or "").split("<")[0]
        if ty in ("cres::cluster::DefaultClustering", "cres::cluster::JetDefinition", "cres::cluster::PhotonDefinition", "cres::cluster::JetAlgorithm", "cres::distance::EuclWithScaledPt",
                  "cres::event::Event", "cres::event::Weights", "cres::four_vector::FourVector", "cres::partition::VPTreePartition", "cres::partition::VPBisection"):
            tys[ty] = b
    a.ob("stored", "types", len(tys) == 10, "", ", ".join(sorted(tys)))
    for ty, b in sorted(tys.items()):
        nm = ty.rsplit("::", 1)[1]
        I = a.interp(b, F)
        W = where(b)
        me = I.params[0]
        vs = F.adts[ty]["variants"]
        if F.adts[ty]["kind"] == "enum":
            out = {}
            for v in vs:
                t = restrict(I.result, as_bool(is_variant(me, None, v["name"])))
                if is_call(t, "serialize_unit_variant"):
                    out[v["name"]] = textof(t.a[-1])
            a.ob("stored", nm, len(set(out.values())) == len(vs), W, str(out))
            back = field_names(a, F, ty)
            ve = visitor(F, ty, "visit_enum")
            ok_ = back is not None and ve is not None
            if ok_:
                J = a.interp(ve, F)
                for v in vs:
                    k = back.get(out.get(v["name"]))
                    got = [x for x in leaves(given0(J.result, *[as_bool(is_variant(field(payload(c.res, "Ok"), "0"), None, str(k))) for c in calls(J, "EnumAccess::variant")]))
                           if x.op == "agg" and x.a[1] == "Ok"]
                    a.ob("read back", "%s::%s" % (nm, v["name"]), len(got) >= 1 and all(payload(x, "Ok").op == "agg" and payload(x, "Ok").a[1] == v["name"] for x in got), where(ve),
                         "stored as %s, read as %s" % (out.get(v["name"]), "; ".join(show(x)[:80] for x in got)))
            a.ob("read back", nm, ok_, W, "")
            continue
        fs = [f[0] for f in vs[0]["fields"]]
        if fs == ["0"]:
            x = I.result
            a.ob("stored", nm, is_call(x, "serialize_newtype_struct") and x.a[-1] is field(me, "0"), W, show(x)[:200])
            v = visitor(F, ty, "visit_newtype_struct")
            if a.ob("read back", nm, v is not None, W, ""):
                J = a.interp(v, F)
                oks = [x for _, x in paths(J.result) if x.op == "agg" and x.a[1] == "Ok"]
                ok_ = len(oks) == 1 and is_call(strip_pay(field(payload(oks[0], "Ok"), "0")), DE)
                a.ob("read back", nm + "-contents", ok_, where(v), show(J.result)[:300])
            continue
        sf = [e for e in I.events if e.kind == "call" and e.name.endswith("::serialize_field")]
        oks = [as_bool(is_variant(e.res, None, "Ok")) for e in sf] + [as_bool(is_variant(e.res, None, "Ok")) for e in calls(I, "Serializer::serialize_struct")]
        name = {}
        for f in fs:
            es = [e for e in sf if strip(e.args[2]) is field(me, f)]
            g = given(es[0].guard, *oks) if len(es) == 1 else FALSE
            if a.ob("stored", "%s.%s" % (nm, f), len(es) == 1 and g is TRUE, W, show(g)[:200] if es else "not stored"):
                name[f] = textof(es[0].args[1])
        read_back(a, F, ty, nm, fs, name, W)


def strip_pay(t):
    while t.op in ("fld", "as", "cont"):
        t = t.a[0]
    return t


def visitor(F, ty, method):
    bs = [b for b in F.bodies.values() if b["name"].endswith("Visitor<'de>>::" + method) and " for %s" % ty in b["name"] and ("__Visitor<" in b["name"])
          and b["name"].split(" for " + ty, 1)[1][:1] in (">", "<")]
    return bs[0] if len(bs) == 1 else None


def field_names(a, F, ty):
    """stored name -> constructor of the field key"""
    bs = [b for b in F.bodies.values() if b["name"].endswith("__FieldVisitor as serde_core::de::Visitor<'de>>::visit_str") and " for %s" % ty in b["name"]
          and b["name"].split(" for " + ty, 1)[1][:1] in (">", "<")]
    if len(bs) != 1:
        return None
    I = a.interp(bs[0], F)
    out = {}
    for lits, x in paths(I.result):
        if x.op == "agg" and x.a[1] == "Ok" and payload(x, "Ok").op == "agg":
            for at, v in lits:
                if v:
                    for y in subterms(at):
                        if textof(y):
                            out[textof(y)] = payload(x, "Ok").a[1]
    return out


def read_back(a, F, ty, nm, fs, name, W):
    back = field_names(a, F, ty)
    v = visitor(F, ty, "visit_map")
    if not a.ob("read back", nm, back is not None and v is not None, W, ""):
        return
    J = a.interp(v, F)
    Ls = [L for L in J.loops.values() if L.nexts]
    if not a.ob("read back", nm + "-one-loop", len(Ls) == 1, where(v), ""):
        return
    L = Ls[0]
    keys = calls(J, "MapAccess::next_key")
    vals = calls(J, "MapAccess::next_value")
    miss = [e for e in J.events if e.kind == "call" and e.name.endswith("missing_field")]
    key = payload(payload(keys[0].res, "Ok"), "Some") if len(keys) == 1 else None
    for f in fs:
        k = back.get(name.get(f))
        ok_ = key is not None and k is not None
        slot = None
        if ok_:
            lits = [as_bool(is_variant(key, None, k))] + [as_bool(is_variant(e.res, None, "Ok")) for e in vals + keys] + [b_not(as_bool(is_variant(payload(keys[0].res, "Ok"), None, "None")))]
            for h in L.nexts:
                x = given(L.nexts[h], *lits, as_bool(is_variant(h, None, "None")))
                if x is not h and x.op == "agg" and x.a[1] == "Some" and any(payload(x, "Some") is payload(e.res, "Ok") for e in vals):
                    slot = h if slot is None else False
        if not a.ob("read back", "%s.%s" % (nm, f), bool(slot), where(v), "name %s" % name.get(f)):
            continue
        others = [c for c in set(back.values()) | {"__ignore"} if c != k]
        keep = all(given(L.nexts[slot], as_bool(is_variant(key, None, c))) is slot for c in others)
        res = [x for _, x in paths(J.result) if x.op == "agg" and x.a[1] == "Ok"]
        okf = len(res) >= 1
        for x in res:
            y = field(payload(x, "Ok"), f)
            for w in leaves(y):
                w0 = strip_pay(w)
                w1 = w0
                if w0.op == "call":
                    okf = okf and w0.a[0].endswith("missing_field") and textof(w0.a[1]) == name[f]
                else:
                    okf = okf and w0.op == "fin" and w0.a[2] == repr(slot.a[1])
        a.ob("read back", "%s.%s-kept" % (nm, f), keep and okf, where(v), "; ".join(show(field(payload(x, "Ok"), f))[:120] for x in res[:2]))
