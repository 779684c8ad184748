"""Value analysis of Cell::resample in both weight layouts (with and without auxiliary weights).
The final content of every weight lock is computed as a value number; the stores must cover exactly the
index range [0, number of members) of the cell's member list, each unconditionally in its loop, and for a
symbolic weight component k each stored value must have the normal form (1/n)*sum_j W[member j][k], where
the W are the lock contents at entry.  Full, first-peeled and last-peeled sums and sorted member lists are
recognised as the same sum.  No other lock content may be written."""
from an.terms import *
from an.query import *
from an.rule import where


def member_index(c, events, members):
    """idx expression if c is the content of events[members[idx]].weights"""
    if c.op != "cont":
        return None
    w = c.a[0]
    if not (w.op == "fld" and w.a[1] == "weights"):
        return None
    e = w.a[0]
    if not (e.op == "idx" and e.a[0] is events and e.a[1].op == "idx"):
        return None
    if strip_sorted(e.a[1].a[0]) is not members:
        return None
    return e.a[1].a[1]


def check(a):
    for fs, multi in (("full", True), ("single", False)):
        F = a.facts(fs)
        I = a.interp("cres::cell::Cell::resample", F)
        s = I.params[0]
        events, members = field(s, "events"), field(s, "members")
        n = length(members)
        tag = "multi" if multi else "single"
        W = where(I.entry)
        stores = []
        for e in I.events:
            if e.kind != "store" or e.args[0].op != "cont":
                continue
            ix = member_index(e.args[0], events, members)
            if a.ob("only-members", tag, ix is not None, where(e), "writes the contents of " + show(e.args[0].a[0])[:200]):
                stores.append((ix, e))
        # last writers, from the end, until every member is covered
        left, ivals = list(stores), []
        used = []
        while left and not covers(ivals, ZERO, n):
            ix, e = left.pop()
            iv = interval(ix, I, e.loops)
            if iv is None:
                a.fail("coverage", tag, where(e), "index %s is not an affine function of one loop" % show(ix))
                continue
            if iv in ivals:
                continue
            ivals.append(iv)
            used.append((ix, e))
        a.ob("all-members", tag, covers(ivals, ZERO, n), W,
             "indices written: %s of %s" % (["[%s,%s)" % (show(x), show(y)) for x, y in ivals], show(n)))
        k = mk("sym", "k")
        for ix, e in used:
            a.ob("unconditional", tag, always(I, e, (n,)), where(e), "guard " + show(e.guard)[:300])
            path = tuple(e.extra or ())
            v = e.args[1]
            if not path:
                v = field(v, "0")
            kk = k
            if multi:
                if len(path) == 2:
                    kk = path[1][1] if isinstance(path[1], tuple) else path[1]
                    comp_ok = isinstance(kk, T) and kk.op == "i" and I.loops[kk.a[0]].trip is not None and I.loops[kk.a[0]].trip.op == "len"
                    a.ob("all-components", tag, comp_ok, where(e), "component index " + show(kk) if isinstance(kk, T) else str(kk))
                else:
                    ln = length(v)
                    a.ob("all-components", tag, ln.op == "len" and contains(ln, lambda x: x.op == "cont"), where(e), "length " + show(ln)[:200])
                    v = index(v, k)
            wk = lambda j, M: (index if multi else (lambda t, _: t))(
                field(mk("cont", field(index(events, index(M, j)), "weights")), "0"), kk)
            bv = mk("bv", ("q", 0))
            want = div(mk("sum", n, wk(bv, members), bv), n)
            got = norm_sums(v)
            a.ob("mean", tag, got is want, where(e), "stored value %s, expected %s" % (show(got)[:500], show(want)[:300]))
        a.ob("stores", tag, bool(used), W, "no member weight is written")
