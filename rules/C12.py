"""Value analysis of the default clustering.  The particles added to the result and the two lists handed to the jet algorithm
are traced back through all loops to the particle they come from; each loop must run over a whole list of the event's
particles (all types, or the photons found by a binary search consistent with the order of types and the list without
them).  For every particle number (a table of all numbers up to +-40, a hadron and an unknown particle, both signs) the
resulting condition for each destination is compared with the expected one, with isolation, lepton clustering and neutrino
options symbolic: each particle goes to exactly one place.  Jets and dressed leptons are all outputs of the algorithm for
exactly these lists with the configured definitions; id and weights are kept.  The isolation criterion (which types enter
the cone, radius, removal of the photon, energy fraction) and the mapping of algorithms, radius and cut are analysed too."""
from an.terms import *
from an.query import *
from an.models import sqrt, probe
from an.rule import where
from rules.C11 import builder_fields, vec_fields, order_of_types, sgn

PHOTON = 22
IDS = [c for c in range(-40, 41) if c] + [2212, -2212, 1000022, -1000022, 9900041, 80]
HADRON = {2212, -2212}


def conj(*gs):
    r = TRUE
    for g in gs:
        r = b_and(r, g)
    return r


class Unknown(Exception):
    pass


def restrict_all(t, lits):
    """decides conditions everywhere inside t"""
    def r(x):
        for at, v in lits:
            x = restrict(x, b_atom(at) if v else b_not(b_atom(at)))
        return x
    def f(x):
        if x.op == "ite":
            y = r(x)
            return y if y is not x else None
        return None
    return rewrite(t, f)


def covers_all(I, L, S, lits):
    """the loop runs over all of S"""
    n = length(S)
    if L.trip is n and len(L.exits) == 1:
        return True
    if len(L.exits) != 1:
        return False
    i = mk("i", L.id)
    g = restrict_all(list(L.exits.values())[0][0], lits)
    return b_and(g, cmp_lt(i, n)) is FALSE and restrict(g, b_not(cmp_lt(i, n))) is not FALSE and paths_true_outside(g, i, n)


def paths_true_outside(g, i, n):
    # on the way here the only other conditions are those under which the loop runs at all
    g = restrict(g, b_not(cmp_lt(i, n)))
    return g is TRUE or any(x is TRUE for _, x in paths(g))


class Trace:
    """contributions of pushes to a list: (chain of (index symbol, list), guard, value)"""

    def __init__(self, I, lits):
        self.I, self.lits = I, lits

    def of(self, t, base=None):
        t = restrict_all(t, self.lits)
        if t is base:
            return []
        if t.op == "agg" and t.a[0] == "vec":
            if base is not None:
                raise Unknown("list replaced: " + show(t)[:100])
            return [((), TRUE, v) for v in t.a[3]]
        if t.op == "push":
            return self.of(t.a[0], base) + [((), TRUE, t.a[1])]
        if t.op == "cat":
            return self.of(t.a[0], base) + self.of(t.a[1])
        if t.op == "ite":
            c = b_atom(t.a[0])
            hi, lo = self.of(t.a[1], base), self.of(t.a[2], base)
            common = [x for x in hi if x in lo]
            return common + [(ch, b_and(c, g), v) for ch, g, v in hi if (ch, g, v) not in common] + [(ch, b_and(b_not(c), g), v) for ch, g, v in lo if (ch, g, v) not in common]
        if t.op == "comp" and t.a[3] == "seq":
            n, e, c, _, bv = t.a
            k = mk("sym", "k%d" % (t.id % 100000))
            S = [x.a[0] for y in (e, c) for x in subterms(y) if x.op == "idx" and x.a[1] is bv and length(x.a[0]) is n]
            if not S:
                raise Unknown("list without source: " + show(t)[:120])
            return [(((k, S[0]),), subst(c, {bv: k}), subst(e, {bv: k}))]
        f = t
        sel = []
        while f.op == "fld":
            sel.append(f.a[1])
            f = f.a[0]
        if f.op == "fin":
            L, h = find_slot(self.I, f)
            if h is None:
                raise Unknown("slot of " + show(t)[:100])
            def s(x):
                for nm in reversed(sel):
                    x = field(x, nm)
                return x
            first = self.of(s(L.inits[h]), base)
            nx = s(restrict_all(L.nexts[h], self.lits)) if h in L.nexts else s(h)
            i = mk("i", L.id)
            per = self.of(nx, s(h))
            out = []
            for ch, g, v in per:
                Ss = {x.a[0] for y in (g, v) for x in subterms(y) if x.op == "idx" and x.a[1] is i}
                Ss |= {x.a[0] for _, S in ch for x in subterms(S) if x.op == "idx" and x.a[1] is i}
                Ss = {restrict_all(S, self.lits) for S in Ss}
                Ss = [S for S in Ss if covers_all(self.I, L, S, self.lits)]
                if len(Ss) != 1:
                    raise Unknown("loop at %s does not run over a whole list" % (L.fn,))
                out.append((((i, Ss[0]),) + ch, g, v))
            return first + out
        raise Unknown("list " + show(t)[:160])


def neutrino(c):
    return c in (12, 14, 16, 18)


def decide_predicates(t):
    """decides predicates on particle numbers that are constants here"""
    def f(x):
        if x.op != "ite":
            return None
        at = x.a[0]
        for y in subterms(at):
            if y.op == "call" and any(is_call(y, p) for p in ("ParticleID::is_neutrino",)):
                arg = [z for z in y.a if isinstance(z, T)][-1]
                if is_num(arg):
                    return x.a[1] if neutrino(int(arg.a[1])) else x.a[2]
            if is_call(y, "contains") and "HADRONS" in str(y.a[1]):
                arg = y.a[-1]
                if is_num(arg):
                    return x.a[1] if int(arg.a[1]) in HADRON and arg.a[1] > 0 else x.a[2]
        return None
    return rewrite(t, f)


def parts(a, F):
    I = a.interp("cres::cluster::DefaultClustering::new", F)
    r = I.result
    jet = [n for n, v in zip(r.a[2], r.a[3]) if v is I.params[0]]
    out = {"jet": jet[0] if len(jet) == 1 else None}
    opts = {}
    for key, fn in (("lepton", "with_lepton_def"), ("photon", "with_photon_def"), ("nu", "include_neutrinos")):
        J = a.interp("cres::cluster::DefaultClustering::" + fn, F)
        s, v = J.params
        ch = [n for n in r.a[2] if field(J.result, n) is not field(s, n)]
        okc = len(ch) == 1 and (field(J.result, ch[0]) is v if key == "nu" else payload(field(J.result, ch[0]), "Some") is v)
        a.ob("option", fn, okc, where(J.entry), show(J.result)[:200])
        out[key] = ch[0] if len(ch) == 1 else None
    ok_def = r.op == "agg" and all(out.values()) and restrict(is_variant(field(r, out["lepton"]), None, "None"), TRUE) is TRUE \
        and is_variant(field(r, out["photon"]), None, "None") is TRUE and as_bool(field(r, out["nu"])) is FALSE
    a.ob("option", "defaults", ok_def, where(I.entry), show(r)[:300])
    return out


def check(a):
    F = a.facts("full")
    P = parts(a, F)
    if not all(P.values()):
        return
    I = a.interp(a.impl("cres::traits::Clustering::cluster", "NoClustering", F), F)
    a.ob("none", "unchanged", I.result is ok(I.params[1]), where(I.entry), show(I.result)[:200])
    iso = [b["name"] for b in F.bodies.values() if b["crate"] == "cres" and "{closure" not in b["name"] and b["locals"][0] == "bool"
           and b.get("impl_self") == "cres::cluster::DefaultClustering" and sum("FourVector" in t for t in b["locals"][1:1 + b["argc"]]) == 2]
    if a.ob("isolation", "criterion", len(iso) == 1, "", "predicates on a photon and the event: %s" % iso):
        check_isolation(a, F, P, iso[0])
        check_cluster(a, F, P, iso[0])
    check_algorithms(a, F)


def jet_maps(a, F):
    nm = lambda s: next(n for n in F.names if s in n)
    I = a.interp(nm("From<&cres::four_vector::FourVector> for jetty"), F)
    J = a.interp(nm("cres::four_vector::FourVector as core::convert::From<jetty"), F)
    return (lambda p: subst(I.result, {I.params[0]: p})), (lambda j: subst(J.result, {J.params[0]: j}))


def check_cluster(a, F, P, iso):
    I = a.interp(a.impl("cres::traits::Clustering::cluster", "DefaultClustering", F), F, opaque={"cres::cluster::cluster", iso, "cres::event::EventBuilder::build"})
    W = where(I.entry)
    s, ev = I.params
    o = a.interp("cres::event::Event::outgoing", F)
    out = subst(o.result, {o.params[0]: ev})
    of, wf = builder_fields(F)
    to_jet, from_jet = jet_maps(a, F)
    if not a.ob("cluster", "succeeds", I.result.op == "agg" and I.result.a[1] == "Ok", W, show(I.result)[:200]):
        return
    r = payload(I.result, "Ok")
    bc = [t for t in subterms(r) if is_call(t, "EventBuilder::build")]
    bc = [t for t in bc if not any(t is not u and contains(u, lambda x: x is t) for u in bc)]
    if not a.ob("cluster", "built-event", len(set(bc)) == 1, W, show(r)[:200]):
        return
    b = bc[0]
    a.ob("cluster", "id-kept", field(r, "id") is field(ev, "id"), W, show(field(r, "id"))[:200])
    wt = field(r, "weights")
    a.ob("cluster", "weights-kept", wt is field(ev, "weights"), W, show(wt)[:200])
    B = b.a[-1]
    bss = list(dict.fromkeys(t for t in subterms(B) if t.op == "call" and "binary_search" in str(t.a[0]) or str(t.op).startswith("binary_search")))
    bss += [t for t in dict.fromkeys(x for L in I.loops.values() for n in list(L.nexts.values()) + list(L.inits.values()) for x in subterms(n)) if (t.op == "call" and "binary_search" in str(t.a[0]) or str(t.op).startswith("binary_search")) and t not in bss]
    desc = order_of_types(a, F)
    X = mk("sym", "x")
    for t in bss:
        args = [x for x in t.a if isinstance(x, T)]
        good = args[0] is out and desc is not None
        for lits, leaf in paths(args[1]) if len(args) > 1 else ():
            want = {"Less": {1} if desc else {-1}, "Equal": {0}, "Greater": {-1} if desc else {1}}.get(leaf.a[1] if leaf.op == "agg" else None)
            good = good and want is not None and sgn(lits, sub(field(X, "0"), cint(PHOTON))) <= want
        a.ob("cluster", "photon-search", good, W, show(t)[:300])
    if len(bss) > 1:
        a.fail("cluster", "photon-search-unique", W, "%d searches" % len(bss))
        return
    found = is_variant(bss[0], None, "Ok") if bss else None
    pos = payload(bss[0], "Ok") if bss else None
    if not bss:
        # a linear search for the photons
        scope = [B] + [n for L in I.loops.values() for n in list(L.nexts.values()) + list(L.inits.values())]
        firsts = list(dict.fromkeys(x for t in scope for x in subterms(t) if x.op == "first" and any(y.op == "idx" and y.a[0] is out for y in subterms(x.a[1]))))
        if len(firsts) > 1:
            a.fail("cluster", "photon-search-unique", W, "%d searches" % len(firsts))
            return
        if firsts:
            n, c, e, bv = firsts[0].a
            good = n is length(out) and e is bv and c in (cmp_eq(field(index(out, bv), "0"), cint(PHOTON)), gen_eq(field(index(out, bv), "0"), cint(PHOTON)))
            a.ob("cluster", "photon-search", good, W, show(firsts[0])[:300])
            found, pos = b_atom(mk("any", n, c, bv)), firsts[0]
            bss = firsts
    lep, nu = field(s, P["lepton"]), field(s, P["nu"])
    nolep = is_variant(lep, None, "None")
    lep_at = nolep.a[0] if nolep.op == "ite" else None
    ID, MOM = mk("sym", "ID"), mk("sym", "MOM")
    nprob = []
    rows = 0
    for ph in ((True, False) if bss else (None,)):
        for nl in (True, False):
            lits = ()
            for c, v in ((found, ph), (nolep, nl)):
                if c is not None and c.op == "ite":
                    lits += ((c.a[0], (c.a[1] is TRUE) == v),)
            T_ = Trace(I, lits)
            try:
                contr = T_.of(field(B, of))
            except Unknown as e:
                nprob.append(str(e))
                continue
            lists = {}
            direct, jets, leps = [], [], []
            for ch, g, v in contr:
                if len(ch) == 1 and is_call(ch[0][1], "cluster::cluster"):
                    k, S = ch[0]
                    lst, jd = [x for x in S.a if isinstance(x, T)]
                    tgt = (jets, 81) if jd is field(s, P["jet"]) else (leps, 82) if jd is payload(lep, "Some") and not nl else None
                    okj = tgt is not None and v is tup(cint(tgt[1]), from_jet(index(S, k))) and restrict_all(g, lits) is TRUE
                    if not okj:
                        nprob.append("clustered objects added as %s under %s" % (show(v)[:100], show(g)[:60]))
                    else:
                        tgt[0].append(lst)
                else:
                    direct.append((ch, g, v))
            if len(jets) != 1 or len(leps) != (0 if nl else 1):
                nprob.append("jets added %d times, dressed leptons %d times" % (len(jets), len(leps)))
                continue
            try:
                dest = {"event": direct, "jet": T_.of(jets[0]), "lepton": T_.of(leps[0]) if leps else []}
            except Unknown as e:
                nprob.append(str(e))
                continue
            flat = []
            for d, cs in dest.items():
                for ch, g, v in cs:
                    el = resolve(ch, out, pos, lits)
                    if el is None:
                        nprob.append("%s: source %s" % (d, ", ".join(show(S)[:80] for _, S in ch)))
                        continue
                    kind, idt, pt = el
                    m = {pt: MOM}
                    if idt is not None:
                        m[idt] = ID
                    flat.append((d, kind, subst_top(g, m, idt, pt), subst_top(v, m, idt, pt)))
            for c in IDS:
                if c == PHOTON and ph is False:
                    continue
                rows += 1
                got = {"event": FALSE, "jet": FALSE, "lepton": FALSE}
                outid = {}
                for d, kind, g, v in flat:
                    if kind == "photons" and c != PHOTON or kind == "others" and c == PHOTON:
                        continue
                    gc = decide_predicates(subst(g, {ID: cint(c)}))
                    if gc is FALSE:
                        continue
                    vc = subst(v, {ID: cint(c)})
                    if b_and(got[d], gc) is not FALSE:
                        nprob.append("particle %d added twice to %s" % (c, d))
                    got[d] = b_or(got[d], gc)
                    if d == "event":
                        i2 = field(vc, "0")
                        if field(vc, "1") is not MOM or not is_num(i2):
                            nprob.append("particle %d kept as %s" % (c, show(vc)[:80]))
                        else:
                            outid[int(i2.a[1])] = b_or(outid.get(int(i2.a[1]), FALSE), gc)
                    elif vc is not to_jet(MOM):
                        nprob.append("momentum given to %s is %s" % (d, show(vc)[:80]))
                isocall = [x for _, _, g, _ in flat for x in subterms(g) if is_call(x, iso)]
                want, wid = expected(c, nl, as_bool(nu), isocall, s, MOM, out)
                if want is None:
                    nprob.append("photons are not tested for isolation against the whole event")
                    break
                if any(got[d] is not want[d] for d in got):
                    bad = next(d for d in got if got[d] is not want[d])
                    nprob.append("particle %d (%s lepton clustering): to %s if %s, expected if %s" % (c, "no" if nl else "with", bad, show(got[bad])[:100], show(want[bad])[:100]))
                elif {k: v for k, v in outid.items() if v is not FALSE} != {k: v for k, v in wid.items() if v is not FALSE}:
                    nprob.append("particle %d enters the event as %s" % (c, {k: show(v)[:60] for k, v in outid.items()}))
    a.paths = (a.paths or 0) + rows if isinstance(a.paths, int) else rows
    a.ob("cluster", "accounting", rows > 100 and not nprob, W, "; ".join(dict.fromkeys(nprob))[:1200] or "%d table rows" % rows)


def subst_top(t, m, idt, pt):
    # the momentum first: it contains the element the type is read from
    t = subst(t, {pt: m[pt]})
    return subst(t, {idt: m[idt]}) if idt is not None else t


def resolve(ch, out, pos, lits):
    """(which particles, type term, momentum term) of the element a chain of loops is at"""
    if len(ch) == 2:
        (i, S), (j, Q) = ch
        if Q is not field(index(S, i), "1"):
            return None
        if S is out:
            return "all", field(index(S, i), "0"), index(Q, j)
        if S.op == "removed" and S.a[0] is out and S.a[1] is pos:
            return "others", field(index(S, i), "0"), index(Q, j)
        return None
    if len(ch) == 1 and pos is not None and ch[0][1] is field(index(out, pos), "1"):
        return "photons", field(index(out, pos), "0"), index(ch[0][1], ch[0][0])
    return None


def expected(c, nl, nu, isocalls, s, mom, out):
    F_ = {"event": FALSE, "jet": FALSE, "lepton": FALSE}
    if c == PHOTON:
        cs = [x for x in isocalls if [y for y in x.a if isinstance(y, T)] == [s, mom, out]]
        if not cs:
            return None, None
        g = as_bool(cs[0])
        rest = b_not(g)
        if nl:
            F_["event"] = TRUE
            return F_, {83: g, PHOTON: rest}
        F_["event"], F_["lepton"] = g, rest
        return F_, {83: g}
    if abs(c) <= 5 or c == 21 or c in HADRON:
        F_["jet"] = TRUE
        return F_, {}
    if not nl and abs(c) in (11, 13):
        F_["lepton"] = TRUE
        return F_, {}
    g = nu if neutrino(abs(c)) else TRUE
    F_["event"] = g
    return F_, {c: g}


def check_isolation(a, F, P, iso):
    I = a.interp(iso, F)
    W = where(I.entry)
    s, p, event = I.params
    pd = field(s, P["photon"])
    none = is_variant(pd, None, "None")
    a.ob("isolation", "disabled", restrict(I.result, none) is FALSE, W, show(I.result)[:200])
    fs = [f[0] for f in F.adts["cres::cluster::PhotonDefinition"]["variants"][0]["fields"]]
    d = payload(pd, "Some")
    efrac, radius, minpt = field(d, "min_e_fraction"), field(d, "radius"), field(d, "min_pt")
    arr, pt = vec_fields(F)
    ppt = field(p, pt)
    r = restrict(I.result, b_not(none))
    soft = cmp_lt(ppt, minpt)
    a.ob("isolation", "minimum-pt", restrict(r, soft) is FALSE and restrict(r, b_not(soft)) is not FALSE, W, show(r)[:200])
    r = restrict(r, b_not(soft))
    to_jet, _ = jet_maps(a, F)
    J = to_jet(p)
    # p.pt > f * sqrt(E^2 - pz^2)
    sq = [t for t in subterms(r) if t.op == "sqrt" and any(is_call(x, "PseudoJet::e") for x in subterms(t)) ]
    sq = list(dict.fromkeys(sq))
    if not a.ob("isolation", "cone-et", len(sq) == 1, W, show(r)[:300]):
        return
    es = list(dict.fromkeys(x.a[-1] for x in subterms(sq[0]) if is_call(x, "PseudoJet::e")))
    e_of = lambda m, c: next(x for x in subterms(sq[0]) if is_call(x, "PseudoJet::" + c) and x.a[-1] is m)
    try:
        S = next(x for x in es if sqrt(sub(mul(e_of(x, "e"), e_of(x, "e")), mul(e_of(x, "pz"), e_of(x, "pz")))) is sq[0])
    except StopIteration:
        a.fail("isolation", "cone-et-form", W, show(sq[0])[:300])
        return
    a.ob("isolation", "energy-fraction", r is cmp_lt(mul(efrac, sq[0]), ppt), W, show(r)[:300])
    # cone momentum
    tot = add(S, J)
    sums = [x for x in subterms(tot) if x.op == "sum" and x.a[0] is length(event)]
    news = [x for x in subterms(tot) if is_call(x, "PseudoJet::new")]
    if not a.ob("isolation", "cone-members", len(set(sums)) == 1 and sub(tot, sums[0]) in ([ZERO] + news), W, "cone momentum " + show(S)[:400]):
        return
    _, body, bv = sums[0].a
    k = mk("sym", "k")
    body = subst(body, {bv: k})
    el = index(event, k)
    body0 = subst(body, {field(el, "0"): mk("sym", "ID")})
    bad = []
    for c in IDS:
        t = decide_predicates(subst(body0, {mk("sym", "ID"): cint(c)}))
        if neutrino(abs(c)) or abs(c) == 13:
            if t is not ZERO:
                bad.append("%d counted" % c)
            continue
        if t.op != "sum" or t.a[0] is not length(field(el, "1")):
            bad.append("%d: %s" % (c, show(t)[:80]))
            continue
        m = mk("sym", "m")
        e = subst(t.a[1], {t.a[2]: m})
        q = to_jet(index(field(el, "1"), m))
        dr = [x for x in subterms(e) if is_call(x, "delta_r")]
        okd = len(set(dr)) == 1 and {x for x in dr[0].a if isinstance(x, T)} == {q, J} and e is ite(cmp_lt(dr[0], radius), q, ZERO)
        if not okd:
            bad.append("%d: %s" % (c, show(e)[:120]))
    a.ob("isolation", "cone-types", not bad, W, "; ".join(bad)[:400])


def check_algorithms(a, F):
    got = []
    def hook(c, v):
        r = probe(c, v[2], mk("sym", "jet"))
        got.append((v[0], v[1], r))
        return NotImplemented
    I = a.interp("cres::cluster::cluster", F, hooks={"jetty::cluster::Cluster::cluster_if": hook})
    W = where(I.entry)
    partons, jd = I.params
    alg, rad, mpt = field(jd, "algorithm"), field(jd, "radius"), field(jd, "min_pt")
    r = I.result
    okm = True
    for v, f in (("AntiKt", "anti_kt_f"), ("Kt", "kt_f"), ("CambridgeAachen", "cambridge_aachen_f")):
        c = is_variant(alg, None, v)
        for w in ("AntiKt", "Kt", "CambridgeAachen"):
            if w != v:
                c = b_and(c, b_not(is_variant(alg, None, w)))
        t = restrict(r, c)
        args = [x for x in t.a if isinstance(x, T)] if is_call(t, "cluster_if") else []
        good = len(args) >= 2 and args[0] is partons and is_call(args[1], f) and [x for x in args[1].a if isinstance(x, T)] == [rad]
        a.ob("algorithm", v, good, W, show(t)[:200])
    cut = [r for _, _, r in got]
    X = mk("sym", "jet")
    good = bool(cut)
    for c in cut:
        p2 = [t for t in subterms(c) if is_call(t, "PseudoJet::pt2") and t.a[-1] is X]
        p1 = [t for t in subterms(c) if is_call(t, "PseudoJet::pt") and t.a[-1] is X]
        forms = [cmp_lt(mul(mpt, mpt), t) for t in p2] + [cmp_lt(mpt, t) for t in p1]
        good = good and c in forms
    a.ob("algorithm", "minimum-pt", good, W, "; ".join(show(c)[:120] for c in cut))
