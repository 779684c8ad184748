"""Loop-record analysis of Cell construction (both weight layouts).  Construction is one loop over the
sequence the neighbour search offers for the seed.  From the loop record the rule derives the members, weight
sum and radius at loop entry, after one iteration and at every exit and requires: entry = ([seed], w(seed), 0);
iteration i appends neighbour i, adds its current central weight, sets the radius to its distance, and takes no
neighbour out of order; no iteration starts when the sum is already non-negative, no exit happens with a
negative sum except exhaustion; the returned cell is the snapshot at the exit.  The accessors must return these
quantities (number of members, sum, radius, the member events, the number of negative members)."""
from an.terms import *
from an.query import *
from an.streams import describe
from an.rule import where


def fieldmap(a, F):
    """private field names of Cell, found through the public accessors"""
    def acc(n):
        I = a.interp("cres::cell::Cell::" + n, F)
        return I, I.result
    m = {}
    I, r = acc("nmembers")
    s = I.params[0]
    m["members"] = next((x.a[1] for x in subterms(r) if x.op == "fld" and x.a[0] is s), None)
    a.ob("accessor", "nmembers", m["members"] and r is length(field(s, m["members"])), where(I.entry), show(r))
    I, r = acc("radius")
    m["radius"] = r.a[1] if r.op == "fld" and r.a[0] is I.params[0] else None
    a.ob("accessor", "radius", m["radius"], where(I.entry), show(r))
    I, r = acc("weight_sum")
    m["weight_sum"] = r.a[1] if r.op == "fld" and r.a[0] is I.params[0] else None
    a.ob("accessor", "weight_sum", m["weight_sum"] and m["weight_sum"] != m["radius"], where(I.entry), show(r))
    fs = [f for f in F.adts["cres::cell::Cell"]["variants"][0]["fields"] if "[cres::event::Event]" in f[1]]
    m["events"] = fs[0][0] if fs else "events"
    return m


def central(events, i, multi):
    w = field(mk("cont", field(index(events, i), "weights")), "0")
    return index(w, ZERO) if multi else w


def check(a):
    for fs, multi in (("full", True), ("single", False)):
        F = a.facts(fs)
        fm = fieldmap(a, F)
        I = a.interp("cres::cell::Cell::new", F)
        events, seed, search = I.params[:3]
        W = where(I.entry)
        near = mk("call", "cres::neighbour_search::NeighbourSearch::nearest", search, seed)
        ncall = [e for e in I.events if e.kind == "call" and matches(e.name, "NeighbourSearch::nearest")]
        a.ob("one-search", fs, len(ncall) == 1 and ncall[0].res is near, W,
             "neighbours come from one query for the seed: %s" % [show(e.res) for e in ncall][:3])
        r = I.result
        if r is None or not ncall:
            a.fail("returns", fs, W, "no result")
            continue
        near = ncall[0].res
        n = length(near)
        R = {k: field(r, fm[k]) for k in ("members", "radius", "weight_sum", "events")}
        a.ob("events", fs, R["events"] is events, W, show(R["events"])[:200])
        # the loop that consumes the neighbours
        cand = [l for l in I.loops.values() if any(nx.op == "push" and contains(nx, lambda x: x is near) for nx in l.nexts.values())]
        if not a.ob("loop", fs, len(cand) == 1, W, "loops that append neighbours: %d" % len(cand)):
            continue
        L = cand[0]
        iL = mk("i", L.id)
        idx, dist = field(index(near, iL), "0"), field(index(near, iL), "1")
        cm = next((s for s, nx in L.nexts.items() if nx is push_(s, idx)), None)
        wn = central(events, idx, multi)
        cw = next((s for s, nx in L.nexts.items() if nx is add(s, wn)), None)
        cr = next((s for s, nx in L.nexts.items() if nx is dist), None)
        a.ob("append", fs, cm is not None, W, "every iteration appends the next neighbour: " + "; ".join(show(x)[:160] for x in L.nexts.values()))
        a.ob("accumulate", fs, cw is not None, W, "every iteration adds the neighbour's central weight: " + "; ".join(show(x)[:160] for x in L.nexts.values()))
        a.ob("radius", fs, cr is not None, W, "the radius is the distance of the neighbour just taken: " + "; ".join(show(x)[:160] for x in L.nexts.values()))
        if cm is None or cw is None or cr is None:
            continue
        a.ob("seed-first", fs, L.inits[cm] is agg("vec", None, (), (seed,)), W, show(L.inits[cm])[:200])
        a.ob("seed-weight", fs, L.inits[cw] is central(events, seed, multi), W, show(L.inits[cw])[:200])
        a.ob("zero-radius", fs, L.inits[cr] is ZERO, W, show(L.inits[cr])[:200])
        # stopping rule: an iteration starts only while the sum is negative
        wnx = L.nexts[cw]
        neg_head, neg_next = cmp_lt(cw, ZERO), cmp_lt(wnx, ZERO)
        stop = implies(L.backguard, neg_next) or implies(L.backguard, neg_head)
        a.ob("stops", fs, stop, W, "loop continues under " + show(L.backguard)[:300])
        top_test = not implies(L.backguard, neg_next)
        # snapshots at the exits
        head = {"members": cm, "weight_sum": cw, "radius": cr}
        nxt = {k: L.nexts[s] for k, s in head.items()}
        for k, g, ex in exits(I, L.id):
            got = {q: at_exit(I, L.id, R[q], k) for q in head}
            gg = simp(g, [(iL, add(n, ONE))])
            exhausted = implies(gg, b_not(cmp_lt(iL, n)))
            for nm, snap in (("head", head), ("next", nxt)):
                okk = all(got[q] is snap[q] or (nm == "head" and exhausted and got[q] is fin_closed(I, L, k, snap[q])) for q in head)
                if okk:
                    break
            else:
                a.fail("snapshot", "%s-exit%d" % (fs, k), W, "returned cell is not a consistent state of the loop: " + "; ".join("%s=%s" % (q, show(v)[:200]) for q, v in got.items()))
                continue
            a.ob("snapshot", "%s-exit%d" % (fs, k), True, W, nm)
            nonneg = b_not(neg_head if nm == "head" else neg_next)
            a.ob("complete", "%s-exit%d" % (fs, k), (exhausted and nm == "head") or implies(gg, nonneg), W,
                 "left the loop under " + show(gg)[:300])
        # accessors that depend on the members
        J = a.interp("cres::cell::Cell::iter", F)
        s = J.params[0]
        mem, evs = field(s, fm["members"]), field(s, fm["events"])
        sq = describe(J, J.result)
        k = mk("sym", "k")
        a.ob("accessor", fs + "-iter", sq is not None and length(sq) is length(mem) and index(sq, k) is index(evs, index(mem, k)),
             where(J.entry), show(sq)[:300] if sq else "?")
        J = a.interp("cres::cell::Cell::nneg_weights", F)
        s = J.params[0]
        mem, evs = field(s, fm["members"]), field(s, fm["events"])
        bv = mk("bv", ("q", 0))
        want = mk("sum", length(mem), ite(cmp_lt(central(evs, index(mem, bv), multi), ZERO), ONE, ZERO), bv)
        a.ob("accessor", fs + "-nneg", norm_sums(J.result) is want, where(J.entry), show(J.result)[:200])


def push_(s, x):
    return mk("push", s, x)


def fin_closed(I, L, k, s):
    return L.closes.get(list(L.exits)[k], {}).get(s)
