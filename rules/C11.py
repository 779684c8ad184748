"""Value analysis of event construction, both weight layouts.  add_outgoing appends the given pair, add_weight appends
(or sets) the given weight; build sorts all pairs by type (momenta as tie-breaker or not) and walks the sorted list once:
on every path of an iteration the entry's momentum is appended to the last group if that group's type is the entry's, and
otherwise a new group with exactly this type and momentum is appended, so every particle is kept once and no type occurs
twice.  The lookup by type is a binary search whose comparison agrees with that order, on the type, and returns the momenta
at the position found, or none.  Energies are rescaled by one factor on every component of every particle.  Four-momenta
keep p_t = sqrt(px^2+py^2) of their own components through construction, sums and differences (component-wise), and
conversions to and from the clustering library keep the component order."""
from an.terms import *
from an.query import *
from an.models import sqrt
from an.rule import where


def builder_fields(F):
    fs = F.adts["cres::event::EventBuilder"]["variants"][0]["fields"]
    out = [f[0] for f in fs if "FourVector" in f[1]]
    wt = [f[0] for f in fs if "FourVector" not in f[1]]
    return (out[0] if len(out) == 1 else None), (wt[0] if len(wt) == 1 else None)


def sort_direction(t):
    """(direction on the type, source) of a sorted list of (type, momentum) pairs"""
    if t.op == "call" and "rev" in str(t.a[0]).lower():
        d = sort_direction(t.a[-1])
        return ({"asc": "desc", "desc": "asc"}.get(d[0]), d[1]) if d else None
    if t.op != "sorted" or t.a[-1].op == "sorted":
        return None
    key = t.a[0]
    if key == "nat" or getattr(key, "op", None) is None:
        return ("asc" if key == "nat" else None), t.a[-1]
    X, Y = mk("sym", "x"), mk("sym", "y")
    # key is the condition "x comes before y": strictly ordered types must decide it
    for a_, b_ in ((X, Y), (field(X, "0"), field(Y, "0"))):
        k, q = normalise(sub(a_, b_))
        if not any(q in signs_of(l) for l, _ in paths(key)):
            continue
        for d, nm in ((-1, "asc"), (1, "desc")):
            if all({v * (1 if k > 0 else -1) for v in signs_of(l).get(q, {-1, 0, 1})} <= ({d, 0} if leaf is TRUE else {-d, 0}) for l, leaf in paths(key)):
                return nm, t.a[-1]
    return None, t.a[-1]


def built(a, F):
    """(interpretation of build, outgoing list term, loop, head, sorted list, direction)"""
    I = a.interp("cres::event::EventBuilder::build", F)
    s = I.params[0]
    of, wf = builder_fields(F)
    src = field(s, of)
    if I.result.op != "agg":
        return I, None
    evf = [n for n, v in zip(I.result.a[2], I.result.a[3]) if contains(v, lambda t: t is src or t.op == "fin")]
    if len(evf) != 1:
        return I, None
    out = field(I.result, evf[0])
    return I, (s, src, out, evf[0], wf)


def order_of_types(a, F):
    """True if the types of an event are in descending order, False if ascending, None if neither"""
    I, b = built(a, F)
    if not b:
        return None
    for L in I.loops.values():
        for n in L.nexts.values():
            for t in subterms(n):
                d = sort_direction(t) if t.op == "sorted" else None
                if d and d[1] is b[1]:
                    return {"desc": True, "asc": False}.get(d[0])
    return None


def check(a):
    for fs, multi in (("full", True), ("single", False)):
        F = a.facts(fs)
        of, wf = builder_fields(F)
        if not a.ob("builder", fs, of is not None and wf is not None, "", str(F.adts["cres::event::EventBuilder"])[:200]):
            continue
        for nm in ("new", "with_capacity"):
            I = a.interp("cres::event::EventBuilder::" + nm, F)
            a.ob("builder-empty", "%s-%s" % (nm, fs), length(field(I.result, of)) is ZERO and (not multi or length(field(I.result, wf)) is ZERO or field(I.result, wf) is ZERO), where(I.entry), show(I.result)[:200])
        I = a.interp("cres::event::EventBuilder::add_outgoing", F)
        s, pid, p = I.params
        post = I.state.get(("obj", s), s)
        want = with_field(s, of, __import__("an.interp", fromlist=["push"]).push(field(s, of), tup(pid, p)))
        a.ob("add-particle", fs, post is want or field(post, of) is field(want, of) and with_field(post, of, field(s, of)) is s, where(I.entry), show(post)[:300])
        I = a.interp("cres::event::EventBuilder::add_weight", F)
        s, w = I.params
        post = I.state.get(("obj", s), s)
        from an.interp import push
        ww = push(field(s, wf), w) if multi else w
        a.ob("add-weight", fs, field(post, wf) is ww and with_field(post, wf, field(s, wf)) is s, where(I.entry), show(post)[:300])
        check_build(a, F, fs, multi)
        check_lookup(a, F, fs)
    F = a.facts("full")
    check_scale(a, F)
    check_vectors(a, F)


def check_build(a, F, fs, multi):
    I, b = built(a, F)
    W = where(I.entry)
    if not a.ob("build", "outgoing-" + fs, b is not None, W, show(I.result)[:300]):
        return
    s, src, out, evf, wf = b
    wt = [v for n, v in zip(I.result.a[2], I.result.a[3]) if contains(v, lambda t: t is field(s, wf))]
    content = field(field(wt[0], "content"), "0") if len(wt) == 1 else UNDEF
    a.ob("build", "weights-" + fs, content is field(s, wf), W, show(I.result)[:300])
    # the groups: a final value of a loop over the sorted list
    fins = {t for t in subterms(out) if t.op == "fin"}
    g = out
    if out.op == "comp":
        k = mk("sym", "k")
        el = index(out, k)
        base = [f for f in fins if length(out) is length(f)]
        ok_map = len(base) == 1 and el.op == "agg" and field(el, "0") is field(index(base[0], k), "0") and field(el, "1") is field(index(base[0], k), "1")
        if not a.ob("build", "groups-kept-" + fs, ok_map, W, show(out)[:300]):
            return
        g = base[0]
    if not a.ob("build", "grouping-loop-" + fs, g.op == "fin", W, show(out)[:300]):
        return
    L, h = find_slot(I, g)
    n = length(src)
    okl = h is not None and length(L.inits[h]) is ZERO and L.trip is n and len(L.exits) == 1
    if not a.ob("build", "every-particle-" + fs, okl, W, "trip %s" % (show(L.trip) if L.trip else None)):
        return
    iL = mk("i", L.id)
    lst = [t for t in subterms(L.nexts[h]) if t.op == "sorted"]
    tops = {t for t in lst if not any(t is not u and contains(u, lambda x: x is t) for u in lst)}
    srt = list(tops)[0] if len(tops) == 1 else None
    d = sort_direction(srt) if srt is not None else None
    if not a.ob("build", "sorted-by-type-" + fs, d is not None and d[0] is not None and d[1] is src, W, show(srt)[:300] if srt is not None else "list is not sorted"):
        return
    el = index(srt, iL)
    pid, p = field(el, "0"), field(el, "1")
    last = index(h, sub(length(h), ONE))
    same = cmp_eq_any(field(last, "0"), pid)
    bad, seen = [], set()
    from an.interp import push, store
    from an.terms import agg as mkagg
    fresh = push(h, tup(pid, mkagg("vec", None, (), (p,))))
    join = store(h, sub(length(h), ONE), with_field(last, "1", push(field(last, "1"), p)))
    for lits, leaf in paths(L.nexts[h]):
        empty = [v for at, v in lits if b_atom(at) is cmp_eq(length(h), ZERO)]
        eqs = [v for at, v in lits if b_atom(at) in same]
        sg = sgn(lits, sub(field(last, "0"), pid))
        equal = True in eqs or sg == {0}
        differ = False in eqs or 0 not in sg or True in empty
        if leaf is join and equal and True not in empty:
            seen.add("join")
        elif leaf is fresh and differ:
            seen.add("fresh")
        else:
            bad.append("%s if %s" % (show(leaf)[:160], " and ".join(("" if v else "not ") + show(at)[:80] for at, v in lits)))
    a.ob("build", "grouped-" + fs, not bad and seen == {"join", "fresh"}, W, "; ".join(bad)[:600])


def sgn(lits, p):
    k, q = normalise(p)
    return {x * (1 if k > 0 else -1) for x in signs_of(lits).get(q, {-1, 0, 1})}


def cmp_eq_any(x, y):
    out = {cmp_eq(x, y), cmp_eq(y, x)}
    for a_, b_ in ((x, y), (y, x)):
        out.add(b_atom(mk("eq", a_, b_)))
    return out


def check_lookup(a, F, fs):
    desc = order_of_types(a, F)
    I = a.interp("cres::event::Event::outgoing_with_pid", F)
    s, pid = I.params
    W = where(I.entry)
    o = a.interp("cres::event::Event::outgoing", F)
    lst = subst(o.result, {o.params[0]: s})
    X = mk("sym", "x")
    bs = [t for t in subterms(I.result) if is_call(t, "binary_search_by") or is_call(t, "binary_search_by_key") or t.op == "binary_search_by" or t.op == "call" and "binary_search" in str(t.a[0])]
    bs = list(dict.fromkeys(bs))
    if len(bs) != 1:
        ok_lin = linear_lookup(I, lst, pid)
        a.ob("lookup", fs, ok_lin, W, show(I.result)[:400])
        return
    t = bs[0]
    args = [x for x in t.a if isinstance(x, T)]
    a.ob("lookup", "list-" + fs, args[0] is lst, W, show(args[0])[:200])
    cmp = args[1]
    good = True
    for lits, leaf in paths(cmp):
        sg = sgn(lits, sub(field(X, "0"), pid))
        want = {"Less": {1} if desc else {-1}, "Equal": {0}, "Greater": {-1} if desc else {1}}.get(leaf.a[1] if leaf.op == "agg" else None)
        if desc is None or want is None or not sg <= want:
            good = False
    a.ob("lookup", "order-" + fs, good, W, show(cmp)[:300])
    okv = restrict(I.result, is_variant(t, None, "Ok"))
    nov = restrict(I.result, b_not(is_variant(t, None, "Ok")))
    a.ob("lookup", "momenta-" + fs, okv is field(index(lst, payload(t, "Ok")), "1") and length(nov) is ZERO, W, show(I.result)[:400])


def linear_lookup(I, lst, pid):
    return False


def check_scale(a, F):
    of, wf = builder_fields(F)
    I = a.interp("cres::event::EventBuilder::rescale_energies", F)
    s, c = I.params
    post = I.state.get(("obj", s), s)
    l0, l1 = field(s, of), field(post, of)
    k = mk("sym", "k")
    e0, e1 = index(l0, k), index(l1, k)
    arr, pt = vec_fields(F)
    p0, p1 = field(e0, "1"), field(e1, "1")
    comps = all(index(field(p1, arr), cint(m)) is mul(c, index(field(p0, arr), cint(m))) for m in range(4))
    ptok = synced(p1, arr, pt)
    a.ob("rescale", "all-components", length(l1) is length(l0) and field(e1, "0") is field(e0, "0") and comps and ptok and with_field(post, of, l0) is s,
         where(I.entry), show(post)[:400])


def vec_fields(F):
    fs = F.adts["cres::four_vector::FourVector"]["variants"][0]["fields"]
    return [f[0] for f in fs if f[1].startswith("[")][0], [f[0] for f in fs if not f[1].startswith("[")][0]


def synced(v, arr, pt):
    x, y = index(field(v, arr), cint(1)), index(field(v, arr), cint(2))
    return field(v, pt) is sqrt(add(mul(x, x), mul(y, y)))


def check_vectors(a, F):
    arr, pt = vec_fields(F)
    comp = lambda v, m: index(field(v, arr), cint(m))
    name = lambda sub_: next(n for n in F.names if sub_ in n)
    I = a.interp(name("cres::four_vector::FourVector as core::convert::From<[noisy_float"), F)
    r, p = I.result, I.params[0]
    a.ob("momentum", "from-components", all(comp(r, m) is index(p, cint(m)) for m in range(4)) and synced(r, arr, pt), where(I.entry), show(r)[:300])
    for nm, op, ref in (("AddAssign>::add_assign", add, True), ("SubAssign>::sub_assign", sub, True), ("Add>::add", add, False), ("Sub>::sub", sub, False)):
        I = a.interp(name("cres::four_vector::FourVector as core::ops::arith::" + nm), F)
        x, y = I.params
        r = I.state.get(("obj", x), x) if ref else I.result
        a.ob("momentum", nm.split("::")[-1], all(comp(r, m) is op(comp(x, m), comp(y, m)) for m in range(4)) and synced(r, arr, pt), where(I.entry), show(r)[:300])
    I = a.interp("cres::four_vector::FourVector::pt", F)
    a.ob("momentum", "pt", I.result is field(I.params[0], pt), where(I.entry), show(I.result)[:200])
    I = a.interp(a.impl("core::ops::index::Index::index", "FourVector", F), F)
    a.ob("momentum", "component", I.result is index(field(I.params[0], arr), I.params[1]), where(I.entry), show(I.result)[:200])
    for nm, lo, sq in (("euclid_norm_sq", 0, False), ("spatial_norm_sq", 1, False), ("euclid_norm", 0, True), ("spatial_norm", 1, True)):
        I = a.interp("cres::four_vector::FourVector::" + nm, F)
        t = ZERO
        for m in range(lo, 4):
            t = add(t, mul(comp(I.params[0], m), comp(I.params[0], m)))
        a.ob("momentum", nm, I.result is (sqrt(t) if sq else t), where(I.entry), show(I.result)[:200])
    I = a.interp(name("cres::four_vector::FourVector as core::convert::From<jetty"), F)
    r, p = I.result, I.params[0]
    a.ob("momentum", "from-jet", all(is_call(comp(r, m), "PseudoJet::" + c) and comp(r, m).a[-1] is p for m, c in enumerate(("e", "px", "py", "pz"))) and synced(r, arr, pt), where(I.entry), show(r)[:300])
    for ref in ("", "&"):
        I = a.interp(name("From<%scres::four_vector::FourVector> for jetty" % ref), F)
        arg = [x for x in I.result.a if isinstance(x, T)][-1:] if I.result.op == "call" else []
        a.ob("momentum", "to-jet" + ("-ref" if ref else ""), len(arg) == 1 and all(index(arg[0], cint(m)) is comp(I.params[0], m) for m in range(4)), where(I.entry), show(I.result)[:200])
