"""Value analysis of the cell collector: the state after a cell was offered, as a function of the state before and the cell;
the state after two collectors were combined; what is returned and written to the log.  Ordered maps are sequences in the
order of their keys, so that `the smallest entry' is the first one.  The lists of the collector are told apart by what is
put into them (radius, number of members, weight, nothing, or a random replacement), not by their names.  That every list
holds min(number of cells, limit) entries follows from the steps by induction and is not assumed of anything else."""
from an.terms import *
from an.query import *
from an.rule import where
from an.models import OPT
from rules.C27 import logs

CC = "cres::cell_collector::CellCollector"
NEW = CC + "::new"


def check(a):
    F = a.facts("full", ("cres",))
    adt = F.adts.get(CC)
    if not a.ob("collector", "type", adt is not None, "", "no %s" % CC):
        return
    fs = [x[:2] for x in adt["variants"][0]["fields"]]
    maps = [n for n, t in fs if "BTreeMap<" in t]
    vecs = [n for n, t in fs if t.startswith("alloc::vec::Vec<")]
    num = [n for n, t in fs if t == "usize"]
    if not a.ob("collector", "fields", len(maps) == 3 and len(vecs) == 2 and len(num) == 1, "", "fields %s" % fs):
        return
    N = collected(a, F, maps, vecs, num[0])
    start(a, F, maps, vecs, num[0])
    if N is not None:
        combined(a, F, maps, vecs, num[0], N)
    reports(a, F, maps, vecs)
    lookup(a, F, maps, vecs)


def start(a, F, maps, vecs, num):
    I = a.interp(NEW, F)
    r = I.result
    a.ob("new", "empty", all(length(field(r, f)) is ZERO or field(r, f).op == "emptymap" for f in maps + vecs) and field(r, num) is ZERO, where(I.entry), show(r)[:200])


def number(f, el, maps):
    """(number, ids) of an entry"""
    return (field(field(el, "0"), "1"), field(el, "1")) if f in maps else (field(el, "0"), field(el, "1"))


def same_key(t, m):
    """t is the first key of m"""
    k = field(index(m, ZERO), "0")
    return t is k or all(field(t, x) is field(k, x) for x in "01")


def first_gone(t, m):
    return t.op == "mremove" and t.a[0] is m and same_key(t.a[1], m)


def collected(a, F, maps, vecs, num):
    V = {n: a.interp("cres::cell::Cell::<'a>::" + n, F) for n in ("radius", "nmembers", "weight_sum")}
    I = a.interp(CC + "::collect", F)
    W = where(I.entry)
    s, cell = I.params[:2]
    meas = {n: subst(x.result, {x.params[0]: cell}) for n, x in V.items()}
    after = I.state.get(("obj", s))
    if not a.ob("collect", "state", after is not None, W, "collector not changed"):
        return None
    n = field(s, num)
    a.ob("collect", "cells-are-counted", field(after, num) is add(n, ONE), W, show(field(after, num))[:200])
    k = mk("sym", "k")
    ev = index(field(cell, "events"), index(field(cell, "members"), k))
    ids_of = lambda t: length(t) is meas["nmembers"] and same_id(a, F, index(t, k), ev)
    entry = lambda t: field(t, "0") is n and ids_of(field(t, "1"))
    # the limit
    lim = {p for f in maps + vecs for p in limits(field(after, f), n, [length(field(s, x)) for x in maps + vecs])}
    if not a.ob("collect", "limit", len(lim) == 1, W, "limits %s" % sorted(lim)):
        return None
    N = cint(lim.pop())
    # every list has min(n, N) entries
    early = cmp_lt(n, N)
    lens = [length(field(s, x)) for x in maps + vecs]
    few = {f: restrict(rewrite_len(field(after, f), lens, n), early) for f in maps + vecs}
    many = {f: restrict(rewrite_len(field(after, f), lens, N), b_not(early)) for f in maps + vecs}
    seen = {}
    for f in maps:
        m = field(s, f)
        v0 = few[f]
        by = next((b for b, x in meas.items() if v0.op == "minsert" and field(v0.a[1], "0") is x), None)
        good = by is not None and v0.a[0] is m and field(v0.a[1], "1") is n and ids_of(v0.a[2])
        if not a.ob("collect", "few-cells-are-all-kept", good, W, "%s: %s" % (f, show(v0)[:300])):
            continue
        a.ob("collect", "one-list-per-measure", by not in seen, W, "%s and %s by %s" % (f, seen.get(by), by))
        seen[by] = f
        v = many[f]
        small = field(field(index(m, ZERO), "0"), "0")
        more, less = cmp_lt(small, meas[by]), cmp_lt(meas[by], small)
        up, down = restrict(v, more), restrict(v, less)
        new = up.op == "minsert" and first_gone(up.a[0], m) and field(up.a[1], "0") is meas[by] and field(up.a[1], "1") is n and ids_of(up.a[2])
        a.ob("collect", "larger-replaces-smallest " + by, new, W, show(up)[:400])
        a.ob("collect", "smaller-changes-nothing " + by, down is m, W, show(down)[:400])
        eq = restrict(restrict(v, b_not(more)), b_not(less))
        a.ob("collect", "equal " + by, all(x is m or x is up for _, x in paths(eq)), W, show(eq)[:300])
    rand = []
    for f in vecs:
        m = field(s, f)
        v0, v = few[f], many[f]
        a.ob("collect", "few-cells-are-all-kept", v0.op == "push" and v0.a[0] is m and entry(v0.a[1]), W, "%s: %s" % (f, show(v0)[:300]))
        if v is not m:
            rand.append((f, v))
    if not a.ob("collect", "one-random-selection", len(rand) == 1, W, "changed: %s" % [f for f, _ in rand]):
        return N
    f, v = rand[0]
    m = field(s, f)
    draw = [t for t in subterms(v) if t.op == "call" and fair(t, add(n, ONE))]
    good = len(draw) == 1
    if good:
        d = draw[0]
        hit = cmp_lt(d, N)
        x = restrict(v, hit)
        good = x.op == "store" and x.a[0] is m and x.a[1] is d and entry(x.a[2]) and restrict(v, b_not(hit)) is m
    a.ob("collect", "random-selection-is-fair", good, W, show(v)[:500])
    return N


def same_id(a, F, t, ev):
    I = a.interp("cres::event::Event::id", F)
    return t is subst(I.result, {I.params[0]: ev})


def limits(t, n, lens):
    """constants that n (or a length) is compared with"""
    out = set()
    for at in atoms_of(t):
        if at.op == "sgn":
            for x in [n] + lens:
                for c in (-1, 1):
                    r = sub(at.a[0], mul(cint(c), x))
                    if is_num(r) and abs(r.a[1]) > 0:
                        out.add(int(abs(r.a[1])))
    return out


def rewrite_len(t, lens, n):
    return rewrite(t, lambda x: n if x in lens else None)


def fair(t, n):
    """a number drawn uniformly from 0, ..., n-1"""
    nm = str(t.a[0])
    if not (nm.endswith("::sample") or nm.endswith("random_range")):
        return False
    for x in subterms(t):
        if x.op == "agg" and "RangeInclusive" in str(x.a[0]):
            return field(x, "start") is ZERO and add(field(x, "end"), ONE) is n
        if x.op == "agg" and str(x.a[0]).endswith("::Range"):
            return field(x, "start") is ZERO and field(x, "end") is n
    return False


def joined(t, mine, theirs, shift, ismap):
    """t is all entries of mine and those of theirs, with shifted numbers"""
    def moved(el, old):
        if ismap:
            return field(field(el, "0"), "0") is field(field(old, "0"), "0") and field(field(el, "0"), "1") is add(field(field(old, "0"), "1"), shift) and field(el, "1") is field(old, "1")
        return field(el, "0") is add(field(old, "0"), shift) and field(el, "1") is field(old, "1")
    k = mk("sym", "k")
    if t.op == "cat" and t.a[0] is mine:
        return length(t.a[1]) is length(theirs) and moved(index(t.a[1], k), index(theirs, k))
    return False


def inserted(I, t, mine, theirs, shift):
    """the same, one by one"""
    if t.op != "fin":
        return False
    L, h = find_slot(I, t)
    if h is None or L.inits[h] is not mine or L.trip is not length(theirs):
        return False
    x = L.nexts[h]
    old = index(theirs, mk("i", L.id))
    if x.op == "minsert":
        return x.a[0] is h and field(x.a[1], "0") is field(field(old, "0"), "0") and field(x.a[1], "1") is add(field(field(old, "0"), "1"), shift) and x.a[2] is field(old, "1")
    return x.op == "push" and x.a[0] is h and field(x.a[1], "0") is add(field(old, "0"), shift) and field(x.a[1], "1") is field(old, "1")


def combined(a, F, maps, vecs, num, N):
    I = a.interp(CC + "::combine", F)
    W = where(I.entry)
    s, o = I.params[:2]
    R = I.result
    n = field(s, num)
    a.ob("combine", "counts-add-up", field(R, num) is add(n, field(o, num)), W, show(field(R, num))[:200])
    whole = lambda t, f: joined(t, field(s, f), field(o, f), n, f in maps) or inserted(I, t, field(s, f), field(o, f), n)
    for f in maps:
        t = field(R, f)
        ok = False
        L, h = find_slot(I, t) if t.op == "fin" else (None, None)
        if h is not None and len(L.exits) == 1:
            g = next(iter(L.exits.values()))[0]
            large = cmp_lt(N, length(h))
            nx = restrict(L.nexts[h], large)
            nx = restrict(nx, b_not(cmp_eq(length(h), ZERO)))
            ok = whole(L.inits[h], f) and restrict(g, large) is FALSE and restrict(g, b_not(large)) is TRUE and first_gone(nx, h)
        a.ob("combine", "largest-of-both", ok, W, "%s: %s" % (f, "; ".join([show(L.inits[h])[:200], show(L.nexts[h])[:200]]) if h is not None else show(t)[:300]))
    for f in vecs:
        t = field(R, f)
        ok = False
        if t.op == "fin" and find_slot(I, t)[1] is not None and len(I.loops[t.a[0]].exits) == 1:
            # entries removed until no more than the limit remain
            L, h = find_slot(I, t)
            g = next(iter(L.exits.values()))[0]
            large = cmp_lt(N, length(h))
            nx = restrict(L.nexts[h], large)
            ok = whole(L.inits[h], f) and nx.op == "removed" and nx.a[0] is h and restrict(g, large) is FALSE and restrict(g, b_not(large)) is TRUE
        else:
            tot = add(length(field(s, f)), length(field(o, f)))
            few, many = restrict(t, b_not(cmp_lt(N, tot))), restrict(t, cmp_lt(N, tot))
            ok = whole(few, f) and (many.op == "sub" and whole(many.a[0], f) and many.a[1] is ZERO and many.a[2] is N)
            if many.op == "sub":
                ok = ok or whole(many.a[0], f) and few is many and many.a[1] is ZERO
        a.ob("combine", "others-of-both", ok, W, "%s: %s" % (f, show(t)[:400]))


def reports(a, F, maps, vecs):
    I = a.interp(CC + "::dump_info", F, logs=True)
    s = I.params[0]
    W = where(I.entry)
    for f in maps + vecs:
        m = field(s, f)
        good, seen = False, []
        for w, v, e in logs(I):
            if len(e.loops) != 1 or not any(contains(x, lambda t: t is m) for x in v):
                continue
            L = I.loops[e.loops[0]]
            i = mk("i", L.id)
            pos = sub(sub(length(m), ONE), i) if f in maps else i
            el = index(m, pos)
            nr, ids = number(f, el, maps)
            allowed = [nr, length(ids)] + ([field(field(el, "0"), "0")] if f in maps else [])
            seen.append("; ".join(show(x)[-120:] for x in v))
            good = good or L.trip is length(m) and v[:2] == allowed[:2] and all(x in allowed for x in v) and whenever(e.guard, L, m)
        a.ob("report", f, good, W, " / ".join(seen)[:400] or "not reported")


def whenever(g, L, m):
    return restrict(g, cmp_lt(mk("i", L.id), length(m))) is TRUE


def lookup(a, F, maps, vecs):
    I = a.interp(CC + "::event_cells", F)
    s = I.params[0]
    W = where(I.entry)
    found = {}
    other = []
    for L in I.loops.values():
        for h, x in L.nexts.items():
            if x.op != "minsert":
                continue
            i = mk("i", L.id)
            if x.a[0] is not h:
                other.append(show(x)[:200])
                continue
            key, val = x.a[1], x.a[2]
            old = [t for t in subterms(val) if is_call(t, "map_get") and t.a[1] is h and t.a[2] is key]
            g = is_variant(old[0], OPT, "Some") if old else TRUE
            v1, v0 = restrict(val, g), restrict(val, b_not(g))
            for lits, leaf in paths(key):
                p = lambda t: under(t, lits)
                nr = p(index(v0, ZERO))
                src = leaf.a[0] if leaf.op == "idx" and leaf.a[1] is i else None
                f = next((f for f in maps + vecs if src is not None and src.op == "fld" and src.a[0].op == "idx" and src.a[0].a[0] is field(s, f)), None)
                good = bool(f) and bool(old) and number(f, src.a[0], maps) == (nr, src) and length(p(v0)) is ONE and \
                    v1.op == "push" and v1.a[0] is payload(old[0], "Some") and p(v1.a[1]) is nr and inner_all(I, L, i, lits, src) and outer_all(I, src.a[0], L, [field(s, y) for y in maps + vecs])
                if good:
                    found[f] = True
                else:
                    other.append(show(leaf)[:120])
    a.ob("lookup", "every-collected-cell", set(found) == set(maps + vecs) and not other, W, "missing: %s; %s" % (sorted(set(maps + vecs) - set(found)), "; ".join(other)[:300]))


def under(t, lits):
    for at, v in lits:
        t = restrict(t, mk("ite", at, TRUE, FALSE) if v else mk("ite", at, FALSE, TRUE))
    return t


def inner_all(I, L, i, lits, ids):
    """the loop over the events of a cell ends with the last of them"""
    g = [under(x[0], lits) for x in L.exits.values()]
    for t in subterms(ids.a[0].a[1]):
        if t.op == "i" and t.a[0] != L.id and I.loops[t.a[0]].trip is not None:
            g = [restrict(x, cmp_lt(t, I.loops[t.a[0]].trip)) for x in g]
    more = cmp_lt(i, length(ids))
    return len(g) == 1 and restrict(g[0], more) is FALSE and restrict(g[0], b_not(more)) is TRUE


def outer_all(I, el, inner, lists):
    """the cells are those of one list after the other, or of one list"""
    iv = [t for t in subterms(el.a[1]) if t.op == "i" and t.a[0] != inner.id]
    if len(iv) != 1:
        return False
    L = I.loops[iv[0].a[0]]
    tot = ZERO
    for m in lists:
        tot = add(tot, length(m))
    off = sub(iv[0], el.a[1])
    return L.trip is tot or L.trip is length(el.a[0]) and off is ZERO or L.trip is length(el.a[0]) and el.a[1] is sub(sub(length(el.a[0]), ONE), iv[0])
