"""Analysis of the vantage-point tree, construction and query together.  Every recursive builder reachable from the
tree constructor (sequential and parallel) must, on its non-trivial path, take the first element as vantage point,
overwrite the stored distance of every other element with its distance to that vantage point, sort those others
ascending by it, record as radius the distance of the first element of the outer part and as offset the length of
the inner part, and recurse into exactly the inner and the outer part with one level less; the trivial path is only
'fewer than two points or no level left' or another verified builder on the same points.  The query's recursive
search is checked path by path: the point itself and points already returned are never candidates; the two
recursive calls look at the inner and the outer part (with the matching index offsets); wherever a part is NOT
searched the path condition must entail that it cannot hold a better or admissible point (an already found
candidate at distance <= |d - r| on the correct side, or |d - r| > limit); the value returned is one of the
candidates on the path and the path condition entails that no other candidate is nearer.  Every public constructor of
the tree puts each given point into it exactly once, moves points by swaps inside the list only, builds the levels asked
for and sets no limit below the largest number.  The iterator returns the
found point only within the limit and then excludes exactly it; cached distances are distances between the query
point and the cached point."""
from an.terms import *
from an.query import *
from an.rule import where
from an.streams import describe

NOISY = "noisy_float::NoisyFloat"


def names(a, F):
    """field names by type"""
    m = {}
    for f in F.adts["cres::vptree::VPTree"]["variants"][0]["fields"]:
        if "Vec<" in f[1]:
            m["nodes"] = f[0]
        elif NOISY in f[1]:
            m["max"] = f[0]
        else:
            m["dist"] = f[0]
    for f in F.adts["cres::vptree::Node"]["variants"][0]["fields"]:
        m["children" if "Option" in f[1] else "vp"] = f[0]
    for f in F.adts["cres::vptree::Children"]["variants"][0]["fields"]:
        m["radius" if NOISY in f[1] else "offset"] = f[0]
    return m


def is_dist(t, x, y, dist=None):
    return is_call(t, "Distance::distance") and {t.a[2], t.a[3]} == {x, y} and (dist is None or t.a[1] is dist)


# ------------------------------------------------------------------ construction
def expand(I, e):
    """an event inside a loop of constant trip count, once per iteration"""
    outs = [(list(e.args), e.guard)]
    for L in e.loops:
        l = I.loops[L]
        if l.trip is None or not is_num(l.trip) or l.trip.a[1] > 8:
            return None
        i = mk("i", L)
        outs = [([subst(x, {i: cint(j)}) for x in ar], subst(g, {i: cint(j)})) for ar, g in outs for j in range(int(l.trip.a[1]))]
    return outs


def builder(a, F, b, m, others):
    """obligations on one recursive builder"""
    nm = b["name"].split("::")[-1]
    I = a.interp(b, F, opaque={o["name"] for o in others})
    W = where(b)
    pts, dist = I.params[0], I.params[1]
    depth = I.params[2] if len(I.params) > 2 else None
    n = length(pts)
    rec = [e for e in I.events if e.kind == "call" and e.name == b["name"]]
    deleg = [e for e in I.events if e.kind == "call" and e.name in {o["name"] for o in others}]
    ex = []
    for e in rec:
        x = expand(I, e)
        if x is None:
            a.fail("build", nm + "-recursion", where(e), "recursive call in a loop whose iterations cannot be enumerated")
            return
        ex += x
    if not a.ob("build", nm + "-recursion", len(ex) == 2, W, "recursive calls: %d" % len(ex)):
        return
    big = b_not(cmp_lt(n, cint(2)))
    G = simp(ex[0][1], [])
    # distances
    ls = [l for l in I.loops.values() for e in I.events if e.kind == "call" and matches(e.name, "Distance::distance") and e.loops and e.loops[-1] == l.id]
    if not a.ob("build", nm + "-distances", len(ls) == 1, W, "loops computing distances: %d" % len(ls)):
        return
    L = ls[0]
    iL = mk("i", L.id)
    st = next((s for s in L.nexts), None)
    nx = L.nexts[st] if st is not None else None
    okd = False
    if nx is not None:
        el = index(nx.a[3], iL) if nx.op == "splice" and nx.a[1] is ONE and nx.a[2] is n else index(nx, add(iL, ONE))
        d = field(el, "0")
        oth = field(field(index(st, add(iL, ONE)), "1"), m["vp"])
        vps = [field(field(index(x, ZERO), "1"), m["vp"]) for x in (st, L.inits[st])]
        okd = any(is_dist(d, v, oth, dist) for v in vps) and field(el, "1") is field(index(st, add(iL, ONE)), "1")
        okd = okd and L.trip is sub(n, ONE)
    a.ob("build", nm + "-distances-to-vantage-point", okd, W, "element %s becomes %s, %s times" % ("1+i", show(index(nx, add(iL, ONE)))[:200] if nx is not None else "?", show(L.trip) if L.trip else None))
    # sort
    so = [e for e in I.events if e.kind == "sort"]
    if not a.ob("build", nm + "-sorted", len(so) == 1 and not so[0].loops, W, "sorts: %d" % len(so)):
        return
    e = so[0]
    X, Y = mk("sym", "x"), mk("sym", "y")
    less = e.args[1]
    inp = e.args[0]
    lt, gt = cmp_lt(field(X, "0"), field(Y, "0")), cmp_lt(field(Y, "0"), field(X, "0"))
    a.ob("build", nm + "-sorted-ascending", restrict(less, lt) is TRUE and restrict(less, gt) is FALSE, where(e), "less(x,y) = " + show(less)[:200])
    a.ob("build", nm + "-sorted-all-others", inp.op == "sub" and inp.a[1] is ONE and inp.a[2] is n, where(e), show(inp)[:200])
    a.ob("build", nm + "-sorted-after-distances", contains(inp, lambda t: t.op == "fin" and t.a[0] == L.id), where(e), show(inp)[:200])
    # radius / offset
    fin = I.state.get(("obj", pts), pts)
    ch = [t for t in subterms(fin) if t.op == "agg" and t.a[0] == "cres::vptree::Children"]
    ch = list({t.id: t for t in ch}.values())
    for ev in I.events:
        if ev.kind == "store":
            ch += [t for t in subterms(ev.args[1]) if t.op == "agg" and t.a[0] == "cres::vptree::Children" and all(t is not c for c in ch)]
    if not a.ob("build", nm + "-split", len(ch) == 1, W, "child records built: %d" % len(ch)):
        return
    r, off = field(ch[0], m["radius"]), field(ch[0], m["offset"])
    okr = r.op == "fld" and r.a[1] == "0" and r.a[0].op == "idx"
    srt = r.a[0].a[0] if okr else None
    okr = okr and r.a[0].a[1] is add(off, ONE) and contains(srt, lambda t: t.op == "sorted")
    a.ob("build", nm + "-radius", okr, W, "radius " + show(r)[-200:] + " offset " + show(off)[:100])
    got = set()
    bad = []
    for ar, g in ex:
        s = ar[0]
        lo, hi = (s.a[1], s.a[2]) if s.op == "sub" else (None, None)
        if lo is ONE and hi is add(off, ONE):
            got.add("inner")
        elif lo is add(off, ONE) and hi is n:
            got.add("outer")
        else:
            bad.append(show(s)[:200])
        if depth is not None and ar[2] is not sub(depth, ONE):
            bad.append("levels left: " + show(ar[2])[:80])
        if ar[1] is not dist:
            bad.append("another distance: " + show(ar[1])[:80])
        if simp(g, []) is not G:
            bad.append("under another condition")
    a.ob("build", nm + "-parts", got == {"inner", "outer"} and not bad, W, "; ".join(bad) or "inner and outer part")
    # the vantage point stays out: its record gets the children
    sv = [e for e in I.events if e.kind == "store" and any(t is ch[0] for t in subterms(e.args[1])) and e.extra]
    okv = any(e.extra[0] == ("i", ZERO) and e.extra[-1] == ("f", m["children"]) and simp(e.guard, []) is G for e in sv) if sv else \
        contains(fin, lambda t: t is some(ch[0]))
    a.ob("build", nm + "-record", okv, W, "stored at " + "; ".join(str([(x[0], show(x[1]) if isinstance(x[1], T) else x[1]) for x in e.extra])[:160] for e in sv))
    # nothing is left out: the part of the input not handled here is trivial or handed to another verified builder
    rest = b_not(G)
    for e in deleg:
        okk = e.args[0] is pts and e.args[1] is dist and (depth is None or len(e.args) < 3 or e.args[2] is depth) and not e.loops
        a.ob("build", nm + "-delegates", okk, where(e), "; ".join(show(x)[:100] for x in e.args))
        rest = b_and(rest, b_not(simp(e.guard, [])))
    if depth is not None:
        rest = b_and(rest, b_not(cmp_eq(depth, ZERO)))
    rest = b_and(rest, big)
    # splitting needs a vantage point, at least one other point, and a level to go
    few = b_and(G, b_not(big)) if depth is None else b_and(G, b_or(b_not(big), cmp_eq(depth, ZERO)))
    okf = all(infeasible(lits, n) for lits, leaf in paths(few) if leaf is TRUE)
    a.ob("build", nm + "-enough-points", okf, W, "splits when " + show(few)[:300])
    lits_ok = all(infeasible(lits, n) for lits, leaf in paths(rest) if leaf is TRUE)
    a.ob("build", nm + "-complete", lits_ok, W, "points left without subtrees when " + show(rest)[:300])


def infeasible(lits, n):
    """the literals contradict each other as statements about one integer n >= 0"""
    lo, hi = 0, None
    for p, s in signs_of(lits).items():
        ps = _lin(p, n)
        if ps is None:
            continue
        c, k = ps       # c*n + k
        if c == 1:
            if s <= {-1}:
                hi = min(x for x in (hi, -k - 1) if x is not None)
            elif s <= {-1, 0}:
                hi = min(x for x in (hi, -k) if x is not None)
            elif s <= {1}:
                lo = max(lo, -k + 1)
            elif s <= {0, 1}:
                lo = max(lo, -k)
        if not s:
            return True
    return hi is not None and lo > hi


def _lin(p, n):
    from an.terms import _poly_parts
    d = _poly_parts(p)
    c = k = 0
    for mono, co in d.items():
        if mono == ():
            k = co
        elif len(mono) == 1 and mono[0][0] is n and mono[0][1] == 1:
            c = co
        else:
            return None
    return c, k


# ------------------------------------------------------------------ query
def search(a, F, b, m):
    I = a.interp(b, F)
    W = where(b)
    tys = b["locals"]
    P = I.params
    tree, sub_, pt, idx, excl, cache = roles(b, P)
    if not a.ob("search", "signature", None not in (tree, sub_, pt, idx, excl), W, "parameters of the recursive search"):
        return
    X = index(sub_, ZERO)
    vp = field(X, m["vp"])
    chs = field(X, m["children"])
    C = payload(chs, "Some")
    r, off = field(C, m["radius"]), field(C, m["offset"])
    maxd = field(tree, m["max"])
    dist = field(tree, m["dist"])
    rec = [e for e in I.events if e.kind == "call" and e.name == b["name"]]
    if not a.ob("search", "two-parts", len(rec) == 2 and not any(e.loops for e in rec), W, "recursive calls: %d" % len(rec)):
        return
    # the distance d: computed here, or looked up in the cache where only such distances are stored
    dcalls = [e for e in calls(I, "Distance::distance")]
    okd = len(dcalls) >= 1 and all(is_dist(e.res, pt, vp, dist) for e in dcalls)
    a.ob("search", "distance", okd, W, "; ".join(show(e.res)[:200] for e in dcalls[:3]))
    if not okd:
        return
    dc = dcalls[0].res
    D = mk("sym", "d")
    hitc = mk("call", "map_get", cache, vp) if cache is not None else None
    def absd(t):
        if t is dc:
            return D
        if hitc is not None and t.op == "fld" and t.a[0].op == "as" and t.a[0].a[0] is hitc:
            return D
        return None
    if cache is not None:
        okc = all(cache_ok(e, pt, vp, dc, cache) for e in I.events if e.kind == "store" and e.args[0] is cache)
        a.ob("search", "cache", okc, W, "the cache only ever stores d(query point, vantage point) under the vantage point")
    A, B = mk("sym", "A"), mk("sym", "B")
    # replace the later call first (it mentions the earlier one)
    order = sorted(rec, key=lambda e: -max([s.id for s in subterms(e.res)] + [0]))
    e2, e1 = (rec[0], rec[1]) if contains(rec[0].res, lambda t: t is rec[1].res) else (rec[1], rec[0])
    def abst(t):
        return rewrite(subst(subst(t, {e2.res: B}), {e1.res: A}), absd)
    res = spread(abst(I.result))
    H = b_and(b_not(cmp_eq(length(sub_), ZERO)), is_variant(chs, "core::option::Option", "Some"))
    def norm(t):
        return simp(abst(t), [])
    G1, G2 = norm(e1.guard), norm(e2.guard)
    n = length(sub_)
    eqpt = [at for at in set(atoms(res)) | set(atoms(G2)) if at.op in ("eq", "sgn", "b") and contains(at, lambda t: t is pt) and contains(at, lambda t: t is vp)]
    inex = [at for at in set(atoms(res)) | set(atoms(G2)) if contains(at, lambda t: t is excl)]
    a.ob("search", "excludes-query-point", len(eqpt) >= 1, W, "tests of the query point against the vantage point: %d" % len(eqpt))
    a.ob("search", "excludes-returned-points", len(inex) >= 1 and all(contains(at, lambda t: t is vp) for at in inex), W, "tests against the returned points: " + "; ".join(show(x)[:80] for x in inex))
    if not eqpt or not inex:
        return
    def self_free(lits):
        d = dict(lits)
        return all(d.get(at) is False for at in eqpt) and all(d.get(at) is (at.op == "is" and at.a[1] == "None") for at in inex)
    Aok, Bok = is_variant(A, "core::option::Option", "Some"), is_variant(B, "core::option::Option", "Some")
    dA, dB = field(payload(A, "Some"), "1"), field(payload(B, "Some"), "1")
    def has(lits, v):
        d = dict(lits)
        for at, val in d.items():
            if at.op == "is" and at.a[0] is v:
                return val if at.a[1] == "Some" else (not val)
        return None
    nbad = {"prune": [], "parts": [], "result": []}
    npaths = 0
    for s in (-1, 0, 1):
        rel = {-1: cmp_lt(D, r), 0: cmp_eq(D, r), 1: cmp_lt(r, D)}[s]
        def case(t):
            t = restrict(no_abs(restrict(t, rel), sub(D, r), s), rel)
            return subst(t, {r: D}) if s == 0 else t
        bound = sub(D, r) if s > 0 else sub(r, D)
        inner, outer = subslice(sub_, ONE, add(off, ONE)), subslice(sub_, add(off, ONE), n)
        part = {}
        for e, nm in ((e1, "first"), (e2, "second")):
            sl = case(norm(arg(e, b, "sub")))
            ix = case(norm(arg(e, b, "idx")))
            if sl is inner and ix is add(idx, ONE):
                part[nm] = "inner"
            elif sl is outer and ix is add(add(idx, off), ONE):
                part[nm] = "outer"
            else:
                part[nm] = None
                nbad["parts"].append("%s call with d%sr: part %s at index %s" % (nm, "<=>"[s + 1], show(sl)[:150], show(ix)[:100]))
            if arg(e, b, "pt") is not pt or arg(e, b, "excl") is not excl or arg(e, b, "tree") is not tree:
                nbad["parts"].append("%s call changes the query" % nm)
        if set(part.values()) != {"inner", "outer"}:
            nbad["parts"].append("parts searched with d%sr: %s" % ("<=>"[s + 1], part))
            continue
        # parts that are skipped
        for nm, G in (("first", G1), ("second", G2)):
            skipped = b_and(restrict(H, rel), b_not(case(G)))
            for lits, leaf in paths(skipped):
                if leaf is not TRUE:
                    continue
                npaths += 1
                cons = constraints(lits)
                # a skip on the side the point lies on can only be justified by bound 0
                side = {"inner": sub(D, r), "outer": sub(r, D)}[part[nm]] if s else ZERO
                reason = any(strict for p, strict in cons if p is sub(maxd, side)) or \
                    any(entails_le(sub(maxd, side), [c], 1) and c[1] for c in cons)
                if not reason and self_free(lits):
                    reason = entails_le(sub(D, side), cons)
                if not reason and nm == "second" and has(lits, A):
                    reason = entails_le(sub(dA, side), cons)
                if not reason:
                    nbad["prune"].append("%s part skipped when %s" % (part[nm], show_lits(lits)))
        # result
        for lits, leaf in paths(case(restrict(simp(res, []), H))):
            g = b_and(rel, leafguard(lits))
            if g is FALSE or leaf is UNDEF:
                continue
            npaths += 1
            cands = []
            if self_free(lits):
                cands.append(("self", D, some(tup(idx, D))))
            for nm, v, dv, G in (("A", A, dA, G1), ("B", B, dB, G2)):
                called = restrict(case(G), g)
                if called is FALSE:
                    continue
                h = has(lits, v)
                if h is None and leaf is v:
                    cands.append((nm, None, v))
                elif h is not False:
                    cands.append((nm, dv if h else None, v))
            chosen = None
            for c in cands:
                if leaf is c[2] or (c[0] != "self" and leaf is some(payload(c[2], "Some"))):
                    chosen = c
            if leaf is NONE:
                if cands:
                    nbad["result"].append("nothing returned although a candidate exists: %s" % show_lits(lits))
                continue
            if leaf.op != "ite" and not cands and leaf in (A, B):
                continue
            if chosen is None:
                nbad["result"].append("returns %s when %s" % (show(leaf)[:120], show_lits(lits)))
                continue
            cons = constraints(lits)
            for c in cands:
                if c is chosen or c[1] is None and chosen[1] is None:
                    continue
                if c[1] is None or chosen[1] is None or not entails_le(sub(chosen[1], c[1]), cons):
                    nbad["result"].append("returns %s, not known to be nearer than %s, when %s" % (chosen[0], c[0], show_lits(lits)))
        # leaf paths: no children
    lo = restrict(simp(res, []), b_not(is_variant(chs, "core::option::Option", "Some")))
    lo = restrict(lo, b_not(cmp_eq(n, ZERO)))
    for lits, leaf in paths(lo):
        want = some(tup(idx, D)) if self_free(lits) else NONE
        if leaf is not want and leaf is not UNDEF:
            nbad["result"].append("leaf returns %s when %s" % (show(leaf)[:100], show_lits(lits)))
    lo = restrict(simp(res, []), cmp_eq(n, ZERO))
    if lo is not NONE:
        nbad["result"].append("empty subtree returns " + show(lo)[:100])
    a.ob("search", "parts", not nbad["parts"], where(e1), "; ".join(nbad["parts"][:3]) or "inner and outer part with their offsets")
    a.ob("search", "prunes-soundly", not nbad["prune"], where(e2), "; ".join(nbad["prune"][:3]) or "every skipped part is excluded by the triangle inequality")
    a.ob("search", "nearest-candidate", not nbad["result"], W, "; ".join(nbad["result"][:3]) or "%d paths" % npaths)
    a.paths += npaths


def show_lits(lits):
    return " and ".join(("" if v else "not ") + show(at)[:90] for at, v in lits)[:600]


def leafguard(lits):
    g = TRUE
    for at, v in lits:
        x = b_atom(at)
        g = b_and(g, x if v else b_not(x))
    return g


def role_of(ty):
    if "HashMap" in ty or "BTreeMap" in ty:
        return "cache"
    if "HashSet" in ty or "BTreeSet" in ty:
        return "excl"
    if "[cres::vptree::Node" in ty:
        return "sub"
    if "VPTree" in ty:
        return "tree"
    if ty == "usize":
        return "idx"
    if ty in ("P", "&P"):
        return "pt"
    return None


def params_of(b):
    m = {}
    for i in range(1, b["argc"] + 1):
        r = role_of(b["locals"][i])
        if r and r not in m:
            m[r] = i - 1
    return m


def roles(b, P):
    m = params_of(b)
    return [P[m[k]] if k in m else None for k in ("tree", "sub", "pt", "idx", "excl", "cache")]


def arg(e, b, role):
    return e.args[params_of(b)[role]]


def cache_ok(e, pt, vp, dc, cache):
    """every value written to the cache maps vp to d(pt, vp)"""
    for lits, leaf in paths(e.args[1]):
        t = leaf
        while t.op == "minsert":
            if t.a[1] is not vp or t.a[2] is not dc:
                return False
            t = t.a[0]
        if t.op == "post":
            continue    # written by the recursive calls
        if t is dc or t is cache:
            continue
        return False
    return True


# ------------------------------------------------------------------ iterator
def iterator(a, F, rec, m):
    b = a.impl("core::iter::traits::iterator::Iterator::next", "vptree::NearestNeighbourIter", F)
    I = a.interp(b, F, opaque={rec["name"]})
    W = where(b)
    s = I.params[0]
    q = [e for e in I.events if e.kind == "call" and e.name == rec["name"]]
    if not a.ob("next", "one-search", len(q) == 1 and q[0].guard is TRUE and not q[0].loops, W, "searches per step: %d" % len(q)):
        return
    q = q[0]
    tree, sub_, pt, idx, excl, cache = [arg(q, rec, k) if k in params_of(rec) else None for k in ("tree", "sub", "pt", "idx", "excl", "cache")]
    a.ob("next", "whole-tree", sub_ is field(tree, m["nodes"]) and idx is ZERO, where(q), show(sub_) + " from " + show(idx))
    okf = all(x.op == "fld" and x.a[0] is s for x in (tree, pt, excl))
    a.ob("next", "own-query", okf, where(q), "; ".join(show(x)[:60] for x in (tree, pt, excl)))
    R = mk("sym", "R")
    res = rewrite(I.result, lambda t: R if t is q.res else None)
    rp = payload(R, "Some")
    found, d = index(field(tree, m["nodes"]), field(rp, "0")), field(rp, "1")
    p = field(found, m["vp"])
    okg = b_and(is_variant(R, "core::option::Option", "Some"), cmp_le(d, field(tree, m["max"])))
    want = ite(okg, some(tup(p, d)), NONE)
    a.ob("next", "result", res is want, W, "next() = " + show(res)[:400])
    post = rewrite(I.state.get(("obj", s), s), lambda t: R if t is q.res else None)
    en = excl.a[1] if okf else "exclude"
    bad = []
    for lits, leaf in paths(post):
        g = leafguard(lits)
        e2 = field(leaf, en)
        if implies(g, okg):
            if not (e2.op == "minsert" and e2.a[0] is excl and e2.a[1] is p):
                bad.append("after returning: excluded points are " + show(e2)[:200])
        elif b_and(g, okg) is not FALSE:
            bad.append("mixed " + show(g)[:200])
        elif e2 is not excl:
            bad.append("after the end: excluded points are " + show(e2)[:200])
        for x in (tree, pt):
            if okf and field(leaf, x.a[1]) is not x:
                bad.append("the query changes: " + show(field(leaf, x.a[1]))[:100])
    a.ob("next", "excludes-what-it-returned", not bad, W, "; ".join(bad[:2]) or "the returned point is excluded from then on")
    # a new query starts with nothing excluded, nothing cached, the point asked for
    Q = a.interp(a.impl("cres::neighbour_search::NeighbourSearch::nearest", "VPTree", F), F)
    r = Q.result
    if okf:
        a.ob("query", "fresh", field(r, en) is mk("emptymap") and field(r, tree.a[1]) is Q.params[0] and field(r, pt.a[1]) is Q.params[1] and
             (cache is None or cache.op != "ref" or True), where(Q.entry), show(r)[:300])
        for f, v in zip(r.a[2], r.a[3]) if r.op == "agg" else ():
            if f not in (en, tree.a[1], pt.a[1]):
                a.ob("query", "no-stale-" + str(f), v is mk("emptymap"), where(Q.entry), show(v)[:200])


def constructors(F):
    """public functions returning a tree"""
    return [b for b in F.bodies.values() if b["crate"] == "cres" and "{closure" not in b["name"] and b.get("vis") == "Public"
            and b["locals"][0].startswith("cres::vptree::VPTree<")]


def out_of_range(t, n, lits):
    """position t is not below n on the path, as far as that can be told"""
    for l2, x in paths(t):
        al = list(lits) + list(l2)
        sg = {1}
        if is_num(x):
            # n >= 0 is known
            ctx = conj_lits(al)
            if x.a[1] < 0 or restrict(cmp_lt(x, n), b_and(ctx, b_not(cmp_lt(n, ONE)))) is FALSE:
                return True
            if x.a[1] == 0 and restrict(cmp_lt(ZERO, n), ctx) is FALSE:
                return True
            if x.a[1] > 0 and restrict(cmp_lt(x, n), ctx) is not TRUE:
                return True
            continue
        if not sub(n, x).op == "c":
            bs = [y for y in subterms(x) if y.op == "fld" and y.a[1] == "0" and y.a[0].op == "best"]
            if len(bs) == 1 and is_num(sub(x, bs[0])):
                k = sub(x, bs[0])
                m = length(bs[0].a[0].a[1])
                d = sub(n, add(m, k))
                if is_num(d) and d.a[1] < 0:
                    return True
            continue
        if sub(n, x).a[1] <= 0:
            return True
    return False


def conj_lits(lits):
    r = TRUE
    for at, v in lits:
        x = b_atom(at)
        r = b_and(r, x if v else b_not(x))
    return r


def construct(a, F, recs, m, b=None):
    tag = "new"
    if b is None:
        b = a.impl("cres::neighbour_search::NeighbourSearchAlgo::new_with_dist", "TreeSearch", F)
        I = a.interp(b, F, opaque={r["name"] for r in recs})
        n, dist, maxd = I.params[:3]
        src, depth = None, None
    else:
        tag = "new " + b["name"].split("::")[-1]
        I = a.interp(b, F, opaque={r["name"] for r in recs})
        if not any(e.kind == "call" and e.name in {x["name"] for x in recs} for e in I.events):
            return False
        ps = dict(zip(I.params, b["locals"][1:1 + b["argc"]]))
        depth = [p for p, ty in ps.items() if ty == "usize"]
        rest = [p for p, ty in ps.items() if ty != "usize"]
        depth, dist, maxd = depth[0] if len(depth) == 1 else None, None, None
        src = [p for p in rest if contains(I.result, lambda t: t is length(p))]
        src = src[0] if len(src) == 1 else None
        if not a.ob(tag, "source", src is not None, where(b), "parameters " + ", ".join(ps.values())):
            return True
        n = length(src)
        dist = [p for p in rest if p is not src]
        dist = dist[0] if len(dist) == 1 else field(I.result, m["dist"])
    W = where(b)
    r = I.result
    bc = [e for e in I.events if e.kind == "call" and e.name in {x["name"] for x in recs}]
    if not a.ob(tag, "builds-once", len(bc) == 1 and not bc[0].loops and bc[0].guard is TRUE, W, "builder calls: %d" % len(bc)):
        return True
    v = bc[0].args[0]
    k = mk("sym", "k")
    a.ob(tag, "distance", field(r, m["dist"]) is dist and bc[0].args[1] is dist, W, show(bc[0].args[1])[:100])
    if maxd is not None:
        a.ob(tag, "limit", field(r, m["max"]) is maxd, W, show(field(r, m["max"]))[:100])
    else:
        mx = field(r, m["max"])
        a.ob(tag, "limit", mx.op != "c" or is_num(mx) and mx.a[1] > 10 ** 300, W, show(mx)[:100])
    if len(bc[0].args) > 2:
        d = bc[0].args[2]
        a.ob(tag, "all-levels", d is depth if depth is not None else is_num(d) and d.a[1] >= 2 ** 32 - 1 or d.op == "c", W, "levels: " + show(d)[:60])
    # every index exactly once: a comprehension over 0..n, at most permuted by swaps
    bad = []
    for lits, leaf in paths(v):
        t = leaf
        while t.op == "swapped":
            if any(out_of_range(x, n, lits) for x in t.a[1:]):
                bad.append("swap of positions %s of %s" % (", ".join(show(x)[:100] for x in t.a[1:]), show(n)))
            t = t.a[0]
        if t is UNDEF:
            continue
        node = field(index(t, k), "1")
        if not (length(t) is n and field(node, m["vp"]) is (k if src is None else index(src, k)) and field(node, m["children"]) is NONE):
            bad.append(show(t)[:200])
    a.ob(tag, "every-event-once", not bad, W, "; ".join(bad[:2]) or "points 0..n, permuted by swaps only")
    ns = describe(I, field(r, m["nodes"])) or field(r, m["nodes"])
    el = index(ns, k)
    a.ob(tag, "keeps-all-nodes", el.op == "fld" and el.a[1] == "1" and el.a[0].op == "idx" and el.a[0].a[1] is k and contains(el.a[0].a[0], lambda t: t is bc[0].res), W,
         "node k is " + show(el)[:200])
    return True


def check(a):
    F = a.facts("full")
    m = names(a, F)
    nb = a.impl("cres::neighbour_search::NeighbourSearchAlgo::new_with_dist", "TreeSearch", F)
    recs = recursive(F, nb["id"])
    recs = [r for r in recs if "vptree" in r["file"]]
    if a.ob("build", "recursive-builders", recs, where(nb), ", ".join(r["name"] for r in recs)):
        for r in recs:
            builder(a, F, r, m, [o for o in recs if o is not r])
        construct(a, F, recs, m)
        n = sum(bool(construct(a, F, recs, m, b)) for b in constructors(F) if b is not nb)
        a.ob("new", "constructors", n > 0, where(nb), "%d public constructors of the tree build it" % n)
    it = a.impl("core::iter::traits::iterator::Iterator::next", "vptree::NearestNeighbourIter", F)
    rs = [r for r in recursive(F, it["id"]) if "vptree" in r["file"]]
    if a.ob("search", "recursive-search", len(rs) == 1, where(it), ", ".join(r["name"] for r in rs)):
        search(a, F, rs[0], m)
        iterator(a, F, rs[0], m)
