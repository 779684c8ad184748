"""Value analysis of the exhaustive neighbour search.  The query builds, for every point, the pair of its index and its
distance to the query point (distances come from the distance object for exactly those two points, for every index
once), and a candidate list holding every index except the query point.  Each call of the iterator's `next` must pick
the candidate whose stored distance is least, hand out exactly that index with that distance, remove exactly that
candidate, and hand out nothing (removing nothing) when no candidate is left or the least distance exceeds the
limit.  The limit and the distance given at construction are the ones used."""
from an.terms import *
from an.query import *
from an.rule import where
from an.streams import describe


def check(a):
    F = a.facts("full")
    # construction: one slot per point, limit and distance stored
    N = a.interp(a.impl("cres::neighbour_search::NeighbourSearchAlgo::new_with_dist", "NaiveNeighbourSearch", F), F)
    n, dist, maxd = N.params[:3]
    W = where(N.entry)
    r = N.result
    fd = {"dist": None, "max": None, "slots": None}
    if r.op == "agg":
        for nm, v in zip(r.a[2], r.a[3]):
            if v is dist:
                fd["dist"] = nm
            elif v is maxd:
                fd["max"] = nm
            elif length(v) is n:
                fd["slots"] = nm
    a.ob("constructor", "keeps-distance", fd["dist"] is not None, W, show(r)[:300])
    a.ob("constructor", "keeps-limit", fd["max"] is not None, W, show(r)[:300])
    # the query
    Q = a.interp(a.impl("cres::neighbour_search::NeighbourSearch::nearest", "NaiveSearchData", F), F)
    data, pt = Q.params[:2]
    W = where(Q.entry)
    q = Q.result
    # substitute the constructed object into the query
    q = rewrite(q, lambda t: field(r, t.a[1]) if t.op == "fld" and t.a[0] is data and r.op == "agg" and t.a[1] in r.a[2] else None)
    k = mk("sym", "k")
    # the iterator: which fields hold distances, candidates, limit
    I = a.interp(a.impl("core::iter::traits::iterator::Iterator::next", "NaiveNeighbourIter", F), F)
    s = I.params[0]
    fields = q.a[2] if q.op == "agg" else ()
    vals = dict(zip(fields, q.a[3])) if q.op == "agg" else {}
    lim = next((f for f, v in vals.items() if v is maxd), None)
    cand = next((f for f, v in vals.items() if v.op == "removed" or v.op == "comp" and v.a[2] is not TRUE), None)
    dfield = next((f for f, v in vals.items() if f not in (lim, cand) and contains(v, lambda t: is_call(t, "Distance::distance"))), None)
    a.ob("query", "limit", lim is not None, W, show(q)[:400])
    if not a.ob("query", "candidates", cand is not None and dfield is not None, W, show(q)[:400]):
        return
    cv = vals[cand]
    if cv.op == "removed":
        okb = length(cv.a[0]) is n and index(cv.a[0], k) is k and cv.a[1] is pt
    else:
        kk = {cv.a[4]: k}
        okb = cv.a[0] is n and cv.a[3] == "seq" and subst(cv.a[1], kk) is k and subst(cv.a[2], kk) is b_not(cmp_eq(k, pt))
    a.ob("query", "all-but-the-point", okb, W, "candidates: " + show(vals[cand])[:300])
    D = vals[dfield]
    e = index(D, k)
    a.ob("query", "one-distance-per-point", length(D) is n, W, show(length(D))[:200])
    # element: either the distance itself or (index, distance)
    def is_dist(t):
        return is_call(t, "Distance::distance") and t.a[1] is dist and {t.a[2], t.a[3]} == {k, pt}
    at = None
    if is_dist(e):
        at = lambda v, i: index(v, i)
    else:
        for f in ("1", "0"):
            if is_dist(field(e, f)):
                at = lambda v, i, f=f: field(index(v, i), f)
                break
    if not a.ob("query", "distance-to-the-point", at is not None, W, "distance stored for point k: " + show(e)[:300]):
        return
    # one step
    W = where(I.entry)
    res, post = I.result, I.state.get(("obj", s), s)
    dv, cv, mv = field(s, dfield), field(s, cand), field(s, lim)
    best = {t for t in subterms(res) if t.op == "best"}
    if not a.ob("step", "one-minimum", len(best) == 1, W, "minimum searches in the result: %d" % len(best)):
        return
    b = best.pop()
    a.ob("step", "smallest", b.a[0] == "min", W, show(b)[:200])
    sq, key = b.a[1], b.a[2]
    B = mk("sym", "best")
    res, post, b = subst(res, {b: B}), subst(post, {b: B}), B
    X = mk("sym", "x")
    # each element of the searched sequence identifies a candidate (value, and its position when removed by position)
    el = index(sq, k)
    val = None
    for f in (None, "0", "1"):
        if (el if f is None else field(el, f)) is index(cv, k):
            val = f
            break
    a.ob("step", "searches-all-candidates", length(sq) is length(cv) and (val is not None or el is index(cv, k)), W, show(sq)[:300])
    # when the element carries its position, the candidate is the one at that position
    ps = next((f for f in ("0", "1") if field(el, f) is k), None) if el is not k else ""
    pos = lambda t: None if ps is None else t if ps == "" else field(t, ps)
    pick = lambda t: index(cv, pos(t)) if ps is not None else t if val is None else field(t, val)
    byval = lambda t: rewrite(t, lambda x: pick(x.a[0]) if ps and val is not None and x.op == "fld" and x.a[1] == val and x.a[0] in (b, X, Y) else None)
    Y = mk("sym", "y")
    if key.op == "less":
        less, lt, gt = byval(key.a[0]), cmp_lt(at(dv, pick(X)), at(dv, pick(Y))), cmp_lt(at(dv, pick(Y)), at(dv, pick(X)))
        okk = restrict(less, lt) is TRUE and restrict(less, gt) is FALSE
    else:
        okk = byval(key) is at(dv, pick(X))
    a.ob("step", "by-distance", okk, W, "ordered by " + show(key)[:200])
    chosen = pick(b)
    res, post = byval(res), byval(post)
    dmin = at(dv, chosen)
    give = some(tup(chosen, dmin))
    want_g = b_and(b_not(cmp_eq(length(cv), ZERO)), cmp_le(dmin, mv))
    want = ite(want_g, give, NONE)
    a.ob("step", "result", simp_len(res) is simp_len(want), W, "next() = " + show(res)[:500])
    # removal
    okr = True
    det = ""
    for lits, leaf in paths(post):
        g = leafguard(lits)
        if implies(simp_len(g), simp_len(want_g)):
            c = field(leaf, cand)
            good = c.op == "removed" and c.a[0] is cv and removed_is(c, b, chosen, sq, cv, k)
            good = good and field(leaf, dfield) is dv and field(leaf, lim) is mv
        elif b_and(simp_len(g), simp_len(want_g)) is FALSE:
            good = field(leaf, cand) is cv and field(leaf, dfield) is dv and field(leaf, lim) is mv
        else:
            good = False
        if not good:
            okr, det = False, "when %s the state becomes %s" % (show(g)[:300], show(leaf)[:300])
    a.ob("step", "removes-exactly-the-returned-one", okr, W, det or "one removal per returned neighbour")


def simp_len(t):
    return simp(t, [])


def leafguard(lits):
    g = TRUE
    for at, v in lits:
        x = b_atom(at)
        g = b_and(g, x if v else b_not(x))
    return g


def removed_is(c, b, chosen, sq, cv, k):
    """removal at the position of the chosen candidate"""
    p = c.a[1]
    if p is b:
        return index(sq, k) is k          # the search yields positions directly
    if p.op == "fld" and p.a[0] is b:
        return field(index(sq, k), p.a[1]) is k
    return False
