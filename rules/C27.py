"""Value analysis of everything a run writes to the log about events and cells, with the log macros taken as executed.  Each
reported number is compared with the value it has to have: sums over the whole list of events handed to the resampling and
over the whole list returned by the unweighting, counts of the records read and left out, counts and the median over what
was observed.  For the observation of cells the update of the observing thread's data is analysed (each cell once, into the
data of the thread, which starts without cells), then the fold over the data of all threads, then what is reported of it.
A cell collector set for the resampling is followed from there through the observer and back."""
import re
from an.terms import *
from an.query import *
from an.rule import where
from an.interp import mk_sum
from an.models import sqrt, OPT, RES
from rules.C07 import reader
from rules.C22 import given

LOGGED = ("Info", "Warn", "Error")
COLLECT = "cres::cell_collector::CellCollector::"
SET = {COLLECT + n for n in ("collect", "combine", "dump_info")}


def text(t):
    """(wording, values) of format arguments; constant texts and texts formatted before count as wording"""
    w, vals = "", []
    f = outer(t)
    if f is not None:
        x = f.a[0].a[1] if isinstance(f.a[0], T) else f.a[0]
        w = x.decode("latin1") if isinstance(x, bytes) else str(x)
        for x in f.a[1].a[3] if len(f.a) > 1 and isinstance(f.a[1], T) and f.a[1].op == "agg" else ():
            if x.op == "fmtarg":
                for v in x.a[1].a if x.a[1].op == "scat" else (x.a[1],):
                    if v.op == "c" and v.a[0] == "str":
                        w += " " + str(v.a[1])
                    else:
                        vals.append(v.a[1] if x.a[1].op == "scat" and is_call(v, "to_string") else v)
    return re.sub(r"[^a-z ]+", " ", w.lower()), vals


def outer(t):
    """the outermost format arguments"""
    todo = [t]
    while todo:
        x = todo.pop(0)
        if x.op == "fmtargs":
            return x
        todo += [y for y in x.a if isinstance(y, T)]
    return None


def logs(I):
    out = []
    for e in I.events:
        if e.kind == "log":
            lv = [x.a[1] for x in e.args if isinstance(x, T) and x.op == "agg" and x.a[1] in ("Error", "Warn", "Info", "Debug", "Trace")]
            if lv and lv[0] in LOGGED:
                w, v = text(e.args[1])
                out.append((w, v, e))
    return out


def plain(t):
    """the same sums and lengths, over lists whose order is left open"""
    return rewrite(t, lambda x: x.a[-1] if x.op in ("sorted", "permuted") and isinstance(x.a[-1], T) else None)


def norm(t, E=None):
    """plain, with the list of events as a symbol of its own and bound variables by depth"""
    t = plain(t)
    if E is not None:
        t = subst(t, {plain(E): EV})
    return canon_bv(t)


EV = mk("sym", "events")


def reported(a, I, tag, words, want, when, W, E=None):
    """every message with these words gives these values, and there is one whenever it has to be given"""
    want = [norm(x, E) for x in want]
    ls = [(v, e) for w, v, e in logs(I) if all(x in w for x in words)]
    if not a.ob("reported", tag, len(ls) > 0, W, "no message about " + " ".join(words)):
        return
    g = FALSE
    for v, e in ls:
        got = [norm(x, E) for x in v]
        a.ob("value", tag, len(got) == len(want) and all(x is y for x, y in zip(got, want)) and not e.loops, where(e),
             "%s, expected %s" % ("; ".join(show(x)[-260:] for x in got), "; ".join(show(y)[-260:] for y in want)))
        g = b_or(g, e.guard)
    a.ob("when", tag, g is not FALSE and restrict(g, when) is TRUE, where(ls[0][1]), "reported if " + show(g)[:300])


def weight_of(a, F):
    I = a.interp("cres::event::Event::weight", F)
    return lambda ev: subst(I.result, {I.params[0]: ev})


def sums(E, wt):
    bv = mk("bv", 1)
    w = wt(index(E, bv))
    n = length(E)
    neg = mk_sum(n, ite_(cmp_lt(w, ZERO), w), bv)
    return mk_sum(n, w, bv), sqrt(mk_sum(n, mul(w, w), bv)), neg


def ite_(c, x):
    return ite(c, x, ZERO)


def check(a):
    for fs in ("full", "single"):
        F = a.facts(fs, ("cres",))
        wt = weight_of(a, F)
        before(a, F, fs + " ", wt)
        after(a, F, fs + " ", wt)
        if fs == "full":
            m = fields(a, F)
            if m:
                observed(a, F, m)
                finished(a, F, m)
                started(a, F, m)


def fraction(tot, neg):
    return mul(cint(-1), div(neg, sub(tot, mul(cint(2), neg))))


def before(a, F, tag, wt):
    b = a.impl("cres::traits::Resample::resample", "resampler::Resampler<", F)
    I = a.interp(b, F, opaque={"cres::cell::Cell::<'a>::new", "cres::cell::Cell::<'a>::resample"}, logs=True)
    W = where(b)
    E = I.params[1]
    tot, err, neg = sums(EV, wt)
    reported(a, I, tag + "initial sum of weights", ("initial", "sum of weights"), [tot, err], TRUE, W, E)
    reported(a, I, tag + "initial negative weight fraction", ("negative weight fraction",), [fraction(tot, neg)], TRUE, W, E)
    # the number of cells to be made, where it is announced
    bv = mk("bv", 1)
    nneg = mk_sum(length(EV), ite_(cmp_lt(wt(index(EV, bv)), ZERO), ONE), bv)
    rest = mk_sum(length(EV), ite(cmp_lt(wt(index(EV, bv)), ZERO), ZERO, ONE), bv)
    for w, v, e in logs(I):
        if "resampling" in w and "cells" in w and len(v) == 1:
            a.ob("value", tag + "number of seeds", norm(counted(v[0]), E) in (norm(nneg), norm(sub(length(EV), rest))), where(e), show(norm(counted(v[0]), E))[-300:])


def counted(t):
    """numbers of elements of a filtered list as sums"""
    def f(x):
        if x.op == "len" and x.a[0].op == "comp":
            c = x.a[0]
            return mk_sum(c.a[0], ite(c.a[2], ONE, ZERO), c.a[4])
    return rewrite(t, f)


def after(a, F, tag, wt):
    rd = reader(F)
    I = a.interp("cres::cres::Cres::run", F, opaque={rd[0]} if rd else (), logs=True)
    W = where(I.entry)
    calls = {}
    for n, p in (("read", rd[0] if rd else "?"), ("resample", "Resample::resample"), ("unweight", "Unweight::unweight")):
        es = [e for e in I.events if e.kind == "call" and (matches(e.name, p) or e.name.split("::<")[0] == p or e.name == p)]
        if not a.ob("stages", tag + n, len(es) == 1 and not es[0].loops, W, "%d calls of %s" % (len(es), p)):
            return
        calls[n] = es[0]
    ok = {n: is_variant(e.res, RES, "Ok") for n, e in calls.items()}
    E = payload(calls["unweight"].res, "Ok")
    tot, err, neg = sums(EV, wt)
    done = b_and(b_and(ok["read"], ok["resample"]), ok["unweight"])
    reported(a, I, tag + "final sum of weights", ("final", "sum of weights"), [tot, err], done, W, E)
    reported(a, I, tag + "final negative weight fraction", ("final", "negative weight fraction"), [fraction(tot, neg)], done, W, E)
    A = payload(calls["read"].res, "Ok")
    reported(a, I, tag + "number of events read", ("read", "events"), [length(A)], ok["read"], W)
    K = calls["resample"].args[1]
    categories(a, F, I, K, W, tag)
    left = sub(length(A), length(K))
    reported(a, I, tag + "number of events ignored", ("ignoring", "events"), [left], b_and(ok["read"], cmp_lt(ZERO, left)), W)


# ---------------------------------------------------------------- observation of cells
def fields(a, F):
    m = {}
    for n, adt in F.adts.items():
        if n == "cres::resampler::ObserverData":
            for f, ty in [x[:2] for x in adt["variants"][0]["fields"]]:
                if ty.startswith("alloc::vec::Vec<"):
                    m["radii"] = f
                elif "CellCollector" in ty:
                    m["col"] = f
                elif re.match(r"[ui](\d+|size)$", ty):
                    m["neg"] = f
        if n == "cres::resampler::Observer":
            for f, ty in [x[:2] for x in adt["variants"][0]["fields"]]:
                m["threads" if "ThreadLocal" in ty or "Mutex" in ty else "central"] = f
    return m if a.ob("observer", "data", set(m) == {"radii", "col", "neg", "threads", "central"}, "", "fields %s" % m) else None


def cell_values(a, F):
    r = {}
    for n in ("radius", "weight_sum"):
        I = a.interp("cres::cell::Cell::<'a>::" + n, F)
        r[n] = (I.params[0], I.result)
    return r


def observed(a, F, m):
    b = a.impl("cres::traits::ObserveCell::observe_cell", "resampler::Observer", F)
    made = []
    def hook(c, vals):
        made.append(c.I.apply(c, vals[1], []) if len(vals) > 1 else None)
        return c.I.opaque_call(c, "thread_local::ThreadLocal::get_or", vals)
    I = a.interp(b, F, opaque=SET, hooks={"thread_local::ThreadLocal::get_or": hook})
    W = where(b)
    s, cell = I.params
    cv = cell_values(a, F)
    radius, weight = (subst(cv[n][1], {cv[n][0]: cell}) for n in ("radius", "weight_sum"))
    data = [t for e in I.events if e.kind == "store" for t in e.args[:1]]
    data = list({t.id: t for t in data}.values())
    if not a.ob("observe", "data-of-the-thread", len(data) == 1 and contains(data[0], lambda t: t is field(s, m["threads"])), W,
                "; ".join(show(t)[:160] for t in data)):
        return
    D = data[0]
    # what the stores leave behind, field by field
    fin = {}
    for e in I.events:
        if e.kind != "store":
            continue
        if not e.extra or e.loops:
            a.fail("observe", "stores", where(e), "whole data replaced or stored in a loop")
            return
        f = e.extra[0][1]
        if len(e.extra) == 1:
            old = fin.get(f, field(D, f))
            fin[f] = ite(e.guard, e.args[1], old)
    a.ob("observe", "each-cell-adds-its-radius", fin.get(m["radii"]) is mk("push", field(D, m["radii"]), radius) or pushes(fin.get(m["radii"]), field(D, m["radii"]), radius), W,
         show(fin.get(m["radii"], UNDEF))[:200])
    n = fin.get(m["neg"])
    lt = cmp_lt(weight, ZERO)
    old = field(D, m["neg"])
    a.ob("observe", "each-negative-cell-is-counted", n is not None and restrict(n, lt) is add(old, ONE) and restrict(n, b_not(lt)) is old, W, show(n)[:200] if n is not None else "never counted")
    cs = [e for e in I.events if e.kind == "call" and e.name == COLLECT + "collect"]
    c0 = field(D, m["col"])
    has = is_variant(c0, OPT, "Some")
    okc = len(cs) == 1 and not cs[0].loops and cs[0].args[0] is payload(c0, "Some") and cs[0].args[1] is cell and restrict(cs[0].guard, has) is TRUE
    a.ob("observe", "each-cell-is-offered-to-the-collector", okc, W, "; ".join("%s if %s" % (", ".join(show(x)[-80:] for x in e.args[:2]), show(e.guard)[-160:]) for e in cs))
    c1 = restrict(fin.get(m["col"], c0), has)
    kept = okc and (c1 is c0 or (is_variant(c1, OPT, "Some") is TRUE or c1.op == "upd" and c1.a[:2] == (c0, "Some")) and contains(c1, lambda t: t.op == "post" and t.a[0] is cs[0].res))
    a.ob("observe", "collector-is-kept", kept, W, show(c1)[:200])
    # a thread starts without cells
    if not a.ob("observe", "data-of-a-new-thread", len(made) == 1 and made[0] is not None, W, "%d places" % len(made)):
        return
    new = made[0]
    new = [t for t in subterms(I.deep(None, new) if False else new)]
    cen = field(s, m["central"])
    def is_start(t):
        return t is cen or t.op == "agg" and t.a[0] == "cres::resampler::ObserverData" and \
            field(t, m["radii"]) in (field(cen, m["radii"]), mk_empty(t, m)) and field(t, m["neg"]) in (field(cen, m["neg"]), ZERO) and \
            field(t, m["col"]) is field(cen, m["col"])
    a.ob("observe", "a-thread-starts-from-the-common-data", any(is_start(t) for t in new), W, show(made[0])[:200])


def mk_empty(t, m):
    r = field(t, m["radii"])
    return r if length(r) is ZERO else None


def pushes(t, old, x):
    return t is not None and length(t) is add(length(old), ONE) and index(t, length(old)) is x and contains(t, lambda y: y is old)


def finished(a, F, m):
    b = a.impl("cres::traits::ObserveCell::finish", "resampler::Observer", F)
    I = a.interp(b, F, opaque=SET, logs=True)
    W = where(b)
    s = I.params[0]
    threads = field(s, m["threads"])
    st = [e for e in I.events if e.kind == "store" and e.args[0] is s and e.extra and e.extra[0] == ("f", m["central"]) and len(e.extra) == 1]
    if not a.ob("finish", "result-is-stored", len(st) == 1, W, "%d stores" % len(st)):
        return
    R = st[0].args[1]
    while R.op == "with" and R.a[1] == m["radii"] and plain(R.a[2]) is plain(field(R.a[0], m["radii"])):
        R = R.a[0]
    some = b_not(cmp_eq(length(threads), ZERO))
    # the fold over all threads
    step = X = Y = None
    if R.op == "reduce":
        seq, step = R.a[0], R.a[1]
        X, Y = mk("sym", "x"), mk("sym", "y")
        okall = seq.op == "comp" and seq.a[0] is length(threads) and seq.a[2] is TRUE and is_content(index(seq, mk("sym", "k")), index(threads, mk("sym", "k")))
    elif R.op == "fin":
        L, X = find_slot(I, R)
        okall = X is not None and L.trip is length(threads)
        if okall:
            step = L.nexts[X]
            Y = next((t for t in subterms(step) if is_content(t, index(threads, mk("i", L.id)))), None)
            i0 = L.inits[X]
            okall = Y is not None and i0.op == "agg" and length(field(i0, m["radii"])) is ZERO and field(i0, m["neg"]) is ZERO and is_variant(field(i0, m["col"]), OPT, "None") is TRUE
    elif R.op == "fld" and R.a[0].op == "as" and R.a[0].a[0].op == "fin":
        # Some(first), then combined with each of the others
        L, h = find_slot(I, R.a[0].a[0])
        okall = h is not None and L.trip is length(threads) and is_variant(L.inits[h], OPT, "None") is TRUE
        if okall:
            sh = is_variant(h, OPT, "Some")
            nx = L.nexts[h]
            n1, n0 = restrict(nx, sh), restrict(nx, b_not(sh))
            okall = all(is_variant(x, OPT, "Some") is TRUE for x in (n1, n0)) and is_content(payload(n0, "Some"), index(threads, mk("i", L.id)))
            step, X, Y = payload(n1, "Some"), payload(h, "Some"), payload(n0, "Some")
            some = is_variant(R.a[0].a[0], OPT, "Some")
    else:
        okall = False
    if not a.ob("finish", "every-thread-once", okall, W, show(R)[:300]):
        return
    rx, ry = field(X, m["radii"]), field(Y, m["radii"])
    r = field(step, m["radii"])
    a.ob("finish", "radii-of-all-threads", all(x in (mk("cat", rx, ry), mk("cat", ry, rx)) for x in leaves(r)), W, show(r)[:200])
    n = field(step, m["neg"])
    a.ob("finish", "negative-cells-of-all-threads", all(x is add(field(X, m["neg"]), field(Y, m["neg"])) for x in leaves(n)), W, show(n)[:200])
    cx, cy = field(X, m["col"]), field(Y, m["col"])
    sx, sy = is_variant(cx, OPT, "Some"), is_variant(cy, OPT, "Some")
    c = field(step, m["col"])
    both = restrict(restrict(c, sx), sy)
    cc = payload(both, "Some")
    okb = is_variant(both, OPT, "Some") is TRUE and is_call(cc, COLLECT + "combine") and {x for x in cc.a if isinstance(x, T)} >= {payload(cx, "Some"), payload(cy, "Some")}
    one = [restrict(restrict(c, sx if k else b_not(sx)), b_not(sy) if k else sy) for k in (1, 0)]
    oko = all(x is y or is_variant(x, OPT, "Some") is TRUE and payload(x, "Some") is payload(y, "Some") for x, y in zip(one, (cx, cy)))
    a.ob("finish", "collectors-of-all-threads", okb and oko, W, show(c)[:300])
    # what is reported of it
    rr, rn = field(R, m["radii"]), field(R, m["neg"])
    reported(a, I, "number of cells", ("created", "cells"), [length(rr)], some, W)
    reported(a, I, "number of negative cells", ("cells had negative weight",), [rn], b_and(some, cmp_lt(ZERO, rn)), W)
    med = index(mk("sorted", "nat", rr), mk("idiv", length(rr), cint(2)))
    ls = [(v, e) for w, v, e in logs(I) if "median radius" in w]
    a.ob("reported", "median radius", len(ls) == 1 and len(ls[0][0]) == 1 and restrict(ls[0][1].guard, some) is TRUE, W, "%d messages" % len(ls))
    for v, e in ls:
        a.ob("value", "median radius", is_median(v[0], rr), where(e), show(v[0])[-200:])
    dump = [e for e in I.events if e.kind == "call" and e.name == COLLECT + "dump_info"]
    col = field(R, m["col"])
    hascol = b_and(some, is_variant(col, OPT, "Some"))
    okd = any(payload(col, "Some") is e.args[0] and restrict(e.guard, hascol) is TRUE for e in dump)
    a.ob("reported", "collected cells", okd, W, "; ".join(show(e.args[0])[-120:] + " if " + show(e.guard)[-100:] for e in dump))


def is_content(t, el):
    return t.op == "cont" and t.a[0] is el or t is el or t.op == "call" and "into_inner" in str(t.a[0]) and t.a[-1] is el


def is_median(t, radii):
    if t.op != "idx":
        return False
    srt = t.a[0]
    return srt.op in ("sorted", "selected") and srt.a[-1] is radii and srt.a[0] in ("nat", natural(srt)) and t.a[1] is idiv_half(length(radii), t.a[1])


def natural(s):
    x, y = mk("sym", "x"), mk("sym", "y")
    return s.a[0] if s.a[0] is cmp_lt(x, y) else None


def idiv_half(n, t):
    """t if it is n/2, or for an even number of cells the one before"""
    if is_call(t, "idiv") and t.a[1] in (n, sub(n, ONE)) and t.a[2] is cint(2):
        return t
    return None


def leaves(t):
    return [x for _, x in paths(t)]


def started(a, F, m):
    """the observer of a run: no cells yet, and the collector that was set; the collector gets the result"""
    b = a.impl("cres::traits::Resample::resample", "resampler::DefaultResampler", F)
    I = a.interp(b, F, opaque=SET)
    W = where(b)
    cs = [e for e in I.events if e.kind == "call" and matches(e.name, "Resample::resample")]
    if not a.ob("collector", "one-resampling", len(cs) == 1 and not cs[0].loops and cs[0].guard is TRUE, W, "%d calls" % len(cs)):
        return
    e = cs[0]
    obs = [t for t in subterms(e.args[0]) if t.op == "agg" and t.a[0] == "cres::resampler::Observer"]
    if not a.ob("collector", "observer-of-the-run", len(obs) == 1, W, "%d observers" % len(obs)):
        return
    cen = field(obs[0], m["central"])
    a.ob("collector", "no-cells-at-the-start", length(field(cen, m["radii"])) is ZERO and field(cen, m["neg"]) is ZERO, W, show(cen)[:200])
    sf = [f[0] for f in F.adts["cres::resampler::DefaultResampler"]["variants"][0]["fields"] if "CellCollector" in f[1]]
    if not a.ob("collector", "setting", len(sf) == 1, W, "%d fields" % len(sf)):
        return
    c = field(I.params[0], sf[0])
    has = is_variant(c, OPT, "Some")
    col = field(cen, m["col"])
    on, off = restrict(col, has), restrict(col, b_not(has))
    a.ob("collector", "is-the-one-that-was-set", is_variant(on, OPT, "Some") is TRUE and contains(payload(on, "Some"), lambda t: t is payload(c, "Some")) and is_variant(off, OPT, "None") is TRUE, W, show(col)[:200])
    st = [x for x in I.events if x.kind == "store" and contains(x.args[0], lambda t: t is payload(c, "Some"))]
    okr = b_and(has, is_variant(e.res, RES, "Ok"))
    def result(v):
        return v.op == "fld" and v.a[0].op == "as" or True
    good = [x for x in st if restrict(x.guard, okr) is TRUE and from_observer(x.args[1], m, e.res)]
    a.ob("collector", "gets-the-result", len(good) == 1, W, "; ".join(show(x.args[1])[-120:] for x in st))


def from_observer(v, m, res):
    """v is the collector of the observer after the run"""
    path = [t for t in subterms(v) if t.op == "fld" and t.a[1] == m["col"] and t.a[0].op == "fld" and t.a[0].a[1] == m["central"]]
    return any(contains(t, lambda y: y.op == "post" and y.a[0] is res) and v is payload(t, "Some") for t in path)


def categories(a, F, I, K, W, tag):
    """the events that take part, counted by the types and numbers of their particles"""
    O = a.interp("cres::event::Event::outgoing", F)
    slot, seen = None, []
    for L in I.loops.values():
        for h, n in L.nexts.items():
            if plain(L.trip) is not length(plain(K)) or n.op != "minsert" or n.a[0] is not h:
                continue
            seen.append(show(n)[-300:])
            key, val = n.a[1], n.a[2]
            og = subst(O.result, {O.params[0]: index(K, mk("i", L.id))})
            k = mk("sym", "k")
            el, part = index(og, k), index(key, k)
            old = [t for t in subterms(val) if is_call(t, "map_get") and t.a[1] is h and t.a[2] is key]
            if length(key) is not length(og) or {field(part, "0"), field(part, "1")} != {field(el, "0"), length(field(el, "1"))} or not old:
                continue
            g = is_variant(old[0], OPT, "Some")
            if restrict(val, g) is add(payload(old[0], "Some"), ONE) and restrict(val, b_not(g)) is ONE:
                slot = mk_fin(I, L, h)
    if not a.ob("categories", tag + "each-event-once", slot is not None, W, "; ".join(seen)[:500]):
        return
    # the number of events of each category shown
    shown, other = [], []
    for w, v, e in logs(I):
        if not e.loops or not contains(T_all(v), lambda t: t is slot):
            continue
        L = I.loops[e.loops[-1]]
        i = mk("i", L.id)
        el = [t for x in v for t in subterms(x) if t.op == "idx" and t.a[1] is i and plain(t.a[0]) is slot]
        good = len(e.loops) == 1 and el and plain(L.trip) in (length(slot), mn(length(slot), plain(L.trip))) and any(x is field(el[0], "1") for x in v)
        (shown if good else other).append((e, el))
    a.ob("categories", tag + "numbers-of-events", shown and not other, where(other[0][0]) if other else W, "%d messages" % (len(shown) + len(other)))
    if shown:
        g = FALSE
        for e, _ in shown:
            g = b_or(g, e.guard)
        a.ob("categories", tag + "none-left-out", not contains(g, lambda t: t is shown[0][1][0]), W, show(g)[-300:])


def T_all(v):
    return mk("tuple", *v)


def mn(n, t):
    """t if it is the smaller of n and a number"""
    return t if is_call(t, "min") and n in t.a and any(is_num(x) for x in t.a[1:]) or t.op == "min" and n in t.a and any(is_num(x) for x in t.a) else None


def mk_fin(I, L, h):
    for t in all_terms(I):
        if t.op == "fin" and find_slot(I, t) == (L, h):
            return t
    return None


def all_terms(I):
    seen = {}
    for e in I.events:
        for x in tuple(e.args) + (e.guard,):
            if isinstance(x, T):
                for t in subterms(x):
                    seen[t.id] = t
    return seen.values()
