"""Iterators as positional streams: ('it', struct, pos).

A struct says how the element at a position is computed; adaptors are applied when an
element is taken, so closures run where the program runs them.  Consumers are loops and
go through the same fixpoint as loops in the source.
"""
import re
from .terms import *
from . import interp as IP
from .interp import (EMPTY, cat, comp, t_sum, mk_sum, mk_comp, close_over, trip_count, is_numeric, strip_refs, push)

def st_(kind, *a):
    return mk("st", kind, *a)

def seq(v):
    return st_("seq", v)

def it(s, pos=ZERO):
    return mk("it", s, pos)

def has_filter(s):
    if s.a[0] in ("filter", "filter_map", "take_while", "map_while"):
        return True
    return any(has_filter(x) for x in s.a[1:] if isinstance(x, T) and x.op == "st")

def size(c, s):
    """number of positions, None if unbounded"""
    k = s.a[0]
    if k == "seq":
        return length(s.a[1])
    if k == "range":
        return sub(s.a[2], s.a[1]) if s.a[2] is not UNDEF else None
    if k == "mut":
        return s.a[2]
    if k in ("map", "filter", "filter_map", "enumerate", "rev", "take_while", "inspect", "map_while"):
        return size(c, s.a[1])
    if k == "zip":
        x, y = size(c, s.a[1]), size(c, s.a[2])
        if x is None or y is None:
            return x or y
        return x if x is y else mk("min", *sorted((x, y), key=lambda t: t.id))
    if k == "chain":
        x, y = size(c, s.a[1]), size(c, s.a[2])
        return None if x is None or y is None else add(x, y)
    if k == "skip":
        x = size(c, s.a[1])
        return None if x is None else sub(x, s.a[2])
    if k == "take":
        x = size(c, s.a[1])
        if x is None or x is s.a[2]:
            return s.a[2]
        return mk("min", *sorted((x, s.a[2]), key=lambda t: t.id))
    if k == "windows":
        return add(sub(length(s.a[1]), s.a[2]), ONE)
    if k in ("rep", "unbounded"):
        return None
    raise AssertionError(k)

def more(c, s, pos):
    k = s.a[0]
    if k in ("map", "filter", "filter_map", "enumerate", "take_while", "inspect", "map_while"):
        return more(c, s.a[1], pos)
    if k == "zip":
        return b_and(more(c, s.a[1], pos), more(c, s.a[2], pos))
    if k == "skip":
        return more(c, s.a[1], add(pos, s.a[2]))
    if k == "take":
        return b_and(cmp_lt(pos, s.a[2]), more(c, s.a[1], pos))
    if k == "range" and s.a[2] is not UNDEF:
        return cmp_lt(add(s.a[1], pos), s.a[2])
    n = size(c, s)
    return TRUE if n is None else cmp_lt(pos, n)

def at(k, s, pos):
    """(present, stop, element) at pos; runs adaptor closures in context k (k.g is not narrowed)"""
    kind = s.a[0]
    I = k.I
    if kind == "seq":
        return TRUE, FALSE, index(s.a[1], pos)
    if kind == "range":
        return TRUE, FALSE, add(s.a[1], pos)
    if kind == "rep":
        return TRUE, FALSE, s.a[1]
    if kind == "mut":
        r = s.a[1]
        return TRUE, FALSE, lift(r, lambda x: mk("ref", x.a[0], tuple(x.a[1]) + (("i", pos),)) if x.op == "ref" else mk("ref", ("obj", x), (("i", pos),)))
    if kind == "windows":
        return TRUE, FALSE, subslice(s.a[1], pos, add(pos, s.a[2]))
    if kind in ("map", "inspect"):
        p, st, v = at(k, s.a[1], pos)
        if v is None:
            return p, st, None
        r = guarded(k, p, lambda q: I.apply(q, s.a[2], [v]))
        return p, st, r if kind == "map" else (None if r is None else v)
    if kind in ("filter", "take_while"):
        p, st, v = at(k, s.a[1], pos)
        if v is None:
            return p, st, None
        r = guarded(k, p, lambda q: I.apply(q, s.a[2], [v]))
        if r is None:
            return p, st, None
        r = as_bool(r)
        if kind == "filter":
            return b_and(p, r), st, v
        return b_and(p, r), b_or(st, b_and(p, b_not(r))), v
    if kind in ("filter_map", "map_while"):
        p, st, v = at(k, s.a[1], pos)
        if v is None:
            return p, st, None
        r = guarded(k, p, lambda q: I.apply(q, s.a[2], [v]))
        if r is None:
            return p, st, None
        sm = is_variant(r, OPT, "Some")
        v2 = payload(r, "Some")
        if kind == "filter_map":
            return b_and(p, sm), st, v2
        return b_and(p, sm), b_or(st, b_and(p, b_not(sm))), v2
    if kind == "enumerate":
        p, st, v = at(k, s.a[1], pos)
        if v is None:
            return p, st, None
        n = pos if not has_filter(s.a[1]) else mk("count_before", s.a[1], pos)
        return p, st, tup(n, v)
    if kind == "zip":
        p, st, v = at(k, s.a[1], pos)
        q, st2, w = at(k, s.a[2], pos)
        if v is None or w is None:
            return p, st, None
        return b_and(p, q), b_or(st, st2), tup(v, w)
    if kind == "rev":
        return at(k, s.a[1], sub(sub(size(k, s.a[1]), ONE), pos))
    if kind == "skip":
        return at(k, s.a[1], add(pos, s.a[2]))
    if kind in ("take", "unbounded"):
        return at(k, s.a[1], pos)
    if kind == "chain":
        n = size(k, s.a[1])
        box = {}
        def first(q):
            box["a"] = at(q, s.a[1], pos)
            return box["a"][2]
        def second(q):
            box["b"] = at(q, s.a[2], sub(pos, n))
            return box["b"][2]
        cnd = cmp_lt(pos, n)
        v = I.branch(k, cnd, first, second)
        if v is None:
            return TRUE, FALSE, None
        pa = box.get("a", (FALSE, FALSE))
        pb = box.get("b", (FALSE, FALSE))
        return ite(cnd, pa[0], pb[0]), ite(cnd, pa[1], pb[1]), v
    raise AssertionError(kind)

def guarded(k, p, f):
    """run f under the additional condition p; its state changes apply only there"""
    if p is TRUE:
        return f(k)
    g = b_and(k.g, p)
    if g is FALSE:
        return UNDEF
    q = k.I.sub_ctx(k, g, dict(k.st))
    r = f(q)
    if r is None:
        return None
    if any(k.st.get(x) is not v for x, v in q.st.items()):
        _, m = k.I.merge([(g, q.st), (b_and(k.g, b_not(p)), dict(k.st))]) if b_and(k.g, b_not(p)) is not FALSE else (None, q.st)
        k.st.clear()
        k.st.update(m)
    return r

def narrowctx(c, k, g, st):
    q = k.I.sub_ctx(c, g, st)
    q.block = None
    return q

def stream_loop(c, s, start, step, info=None):
    """run step(ctx, element, position) for every element; step returns a stop condition.
    updates c.st; returns (stopped condition or None if the code never continues, loop)"""
    I = c.I
    def body(hst, hg):
        L = I.lstack[-1]
        pos = add(start, mk("i", L))
        m = more(c, s, pos)
        exits = {}
        if b_and(hg, b_not(m)) is not FALSE:
            exits["0done"] = [(b_and(hg, b_not(m)), dict(hst))]
        g1 = b_and(hg, m)
        backs = []
        if g1 is FALSE:
            return backs, exits
        k = narrowctx(c, c, g1, dict(hst))
        p, stop, v = at(k, s, pos)
        if v is None:
            return backs, exits
        skip = b_and(g1, b_and(b_not(p), b_not(stop)))
        if stop is not FALSE and b_and(g1, stop) is not FALSE:
            exits.setdefault("0done", []).append((b_and(g1, stop), dict(k.st)))
        if skip is not FALSE:
            backs.append((skip, dict(k.st)))
        g2 = b_and(g1, b_and(p, b_not(stop)))
        if g2 is not FALSE:
            q = narrowctx(c, c, g2, dict(k.st))
            r = step(q, IP.assume(v, g2) if v.op == "ite" else v, pos)
            if r is not None:
                brk = as_bool(r)
                if b_and(g2, brk) is not FALSE:
                    exits["1brk"] = [(b_and(g2, brk), dict(q.st))]
                if b_and(g2, b_not(brk)) is not FALSE:
                    backs.append((b_and(g2, b_not(brk)), q.st))
        return backs, exits
    outs = I.run_loop(c.st, c.g, body, None, "stream", info=(info, s))
    L = I.loops[max_new(I)]
    if not outs:
        return None, L
    brk = FALSE
    for t, g, st in outs:
        if t == "1brk":
            brk = restrict(g, c.g)
    _, m = I.merge([(g, st) for _, g, st in outs])
    c.st.clear()
    c.st.update(m)
    return brk, L

def max_new(I):
    return I.last_loop

# ---------------------------------------------------------------- collecting
def collect_struct(c, s, start=ZERO):
    """sequence term of the elements of a stream (with effects)"""
    if start is ZERO and s.a[0] == "seq":
        return s.a[1]
    if s.a[0] == "seq":
        return subslice(s.a[1], start, length(s.a[1]))
    loc = c.I.fresh_loc(c.st, EMPTY)
    def step(q, v, pos):
        q.st[loc] = push(q.st[loc], v)
        return FALSE
    r, L = stream_loop(c, s, start, step, "collect")
    if r is None:
        return None
    return c.st.pop(loc)

def as_it(c, v, ty=""):
    """iterator value of anything iterable"""
    if v.op == "it":
        return v
    if v.op == "ref":
        inner = c.I.read_ref(c.st, v)
        if inner.op == "it":
            return inner
        if ty.startswith("&") and "mut " in ty[:12] or ty == "":
            if ty and not re.match(r"&('\w+ )?mut (\[|alloc::|std::collections|core::option)", ty):
                return it(seq(inner))     # some iterator behind a reference: its items are values
            return it(st_("mut", v, length(inner)))
        return it(seq(inner))
    if v.op == "agg":
        if "range::RangeInclusive" in v.a[0]:
            return it(st_("range", field(v, "start"), add(field(v, "end"), ONE)))
        if "range::RangeFrom" in v.a[0]:
            return it(st_("range", field(v, "start"), UNDEF))
        if "range::Range" in v.a[0]:
            return it(st_("range", field(v, "start"), field(v, "end")))
        if v.a[0] == OPT:
            return it(seq(agg("vec", None, (), v.a[3])))
    if v.op == "ite" and all(l.op == "agg" and l.a[0] == OPT for l in leaves(v)):
        return it(seq(lift(v, lambda l: agg("vec", None, (), l.a[3]))))
    if v.op == "comp" and v.a[3] == "lazy":
        return it(v)
    return it(seq(v))

def struct_of(c, v, ty=""):
    i = as_it(c, v, ty)
    s, pos = i.a
    if pos is not ZERO:
        s = st_("skip", s, pos)
    return s

def pure_seq(c, v, ty=""):
    return collect_struct(c, struct_of(c, v, ty))

def register(M, model):
    from . import models as MM
    I_ = "core::iter::traits::iterator::Iterator::"
    P_ = "rayon::iter::ParallelIterator::"
    X_ = "rayon::iter::IndexedParallelIterator::"
    def both(*names):
        return [p + n for n in names for p in (I_, P_, X_)]

    @model("core::slice::{[T]}::iter", "core::iter::traits::collect::IntoIterator::into_iter", "rayon::iter::IntoParallelIterator::into_par_iter",
           "rayon::iter::IntoParallelRefIterator::par_iter", "rayon::iter::IntoParallelRefMutIterator::par_iter_mut", "core::slice::{[T]}::iter_mut",
           "core::option::Option::iter", "core::option::Option::into_iter", "rayon::iter::par_bridge::ParallelBridge::par_bridge",
           "alloc::collections::vec_deque::VecDeque::iter", "alloc::collections::btree::map::BTreeMap::iter", "std::collections::hash::map::HashMap::iter",
           "alloc::collections::btree::map::BTreeMap::into_iter")
    def m_iter(c, a):
        t = MM.argty(c, 0)
        if c.path.endswith("_mut"):
            v = a[0]
            inner = MM.val(c, v)
            if inner.op == "agg" and inner.a[0] == OPT:
                return it(seq(inner))
            return it(st_("mut", v, length(inner)))
        if c.path.endswith("::iter") or c.path.endswith("par_iter"):
            return as_it(c, MM.val(c, a[0]), "&")
        return as_it(c, a[0], t)

    @model("core::iter::sources::once::once")
    def m_once(c, a):
        return it(seq(agg("vec", None, (), (a[0],))))

    @model("core::iter::sources::repeat::repeat")
    def m_rep(c, a):
        return it(st_("rep", a[0]))

    @model("core::iter::sources::empty::empty")
    def m_empty(c, a):
        return it(seq(EMPTY))

    @model("alloc::vec::Vec::drain")
    def m_drain(c, a):
        v = MM.val(c, a[0])
        lo, hi = MM.range_bounds(a[1], MM.argty(c, 1), length(v))
        if lo is ZERO:
            MM.put(c, a[0], EMPTY if hi is length(v) else subslice(v, hi, length(v)))
        else:
            MM.put(c, a[0], cat(subslice(v, ZERO, lo), subslice(v, hi, length(v))))
        return it(seq(subslice(v, lo, hi)))

    @model("core::slice::{[T]}::windows")
    def m_windows(c, a):
        return it(st_("windows", MM.val(c, a[0]), a[1]))

    def adaptor(name):
        def m(c, a):
            return it(st_(name, struct_of(c, a[0], MM.argty(c, 0)), *a[1:]))
        return m
    for n in ("map", "filter", "filter_map", "take_while", "inspect", "map_while"):
        for p in both(n):
            M[p] = adaptor(n)

    @model(*both("enumerate"))
    def m_enum(c, a):
        return it(st_("enumerate", struct_of(c, a[0], MM.argty(c, 0))))

    @model(*both("rev"))
    def m_rev(c, a):
        s = struct_of(c, a[0], MM.argty(c, 0))
        if has_filter(s) or size(c, s) is None:
            s = seq(collect_struct(c, s))
        return it(st_("rev", s))

    @model(*both("skip", "take"))
    def m_skip(c, a):
        s = struct_of(c, a[0], MM.argty(c, 0))
        if has_filter(s):
            s = seq(collect_struct(c, s))
        return it(st_(c.path.rsplit("::", 1)[1], s, a[1]))

    @model(*both("zip"), "itertools::zip_eq_impl::zip_eq", "itertools::Itertools::zip_eq", "core::iter::adapters::zip::zip")
    def m_zip(c, a):
        x, y = struct_of(c, a[0], MM.argty(c, 0)), struct_of(c, a[1], MM.argty(c, 1))
        if has_filter(x):
            x = seq(collect_struct(c, x))
        if has_filter(y):
            y = seq(collect_struct(c, y))
        if "zip_eq" in c.path:
            c.I.event(c, "zip_eq", "zip_eq", (size(c, x) or UNDEF, size(c, y) or UNDEF))
            # the lengths are asserted to be equal
            n, m = size(c, x), size(c, y)
            if n is not None and m is not None and n is not m:
                y = st_("unbounded", y)
        return it(st_("zip", x, y))

    @model(*both("chain"))
    def m_chain(c, a):
        x, y = struct_of(c, a[0], MM.argty(c, 0)), struct_of(c, a[1], MM.argty(c, 1))
        return it(st_("chain", x, y))

    @model(*both("flat_map", "flatten"))
    def m_flat(c, a):
        s = struct_of(c, a[0], MM.argty(c, 0))
        out = []
        loc = c.I.fresh_loc(c.st, EMPTY)
        def step(q, v, pos):
            r = c.I.apply(q, a[1], [v]) if len(a) > 1 else v
            if r is None:
                return None
            inner = pure_seq(q, r)
            if inner is None:
                return None
            q.st[loc] = push(q.st[loc], inner)
            return FALSE
        r, L = stream_loop(c, s, ZERO, step, "flat")
        if r is None:
            return None
        return it(seq(mk("concat", c.st.pop(loc))))

    @model("core::iter::traits::double_ended::DoubleEndedIterator::rev")
    def m_rev2(c, a):
        return m_rev(c, a)

    # ------------------------------------------------------------ next
    @model(I_ + "next")
    def m_next(c, a):
        I = c.I
        i = a[0]
        cur = I.read_ref(c.st, i) if i.op == "ref" else i
        if cur.op == "ite" and all(l.op != "it" for l in leaves(cur)):
            cur = it(seq(cur))
        if cur.op != "it":
            if cur.op == "ite":
                return NotImplemented
            cur = it(seq(cur))
        s, pos = cur.a
        if has_filter(s):
            hdr = loop_header(c)
            if hdr is None or not persists(I, i):
                q = collect_struct(c, s if pos is ZERO else st_("skip", s, pos))
                if q is None:
                    return None
                s, pos = seq(q), ZERO
                if i.op == "ref":
                    I.write_ref(c.st, i, (), it(s, ZERO), None)
        m = more(c, s, pos)
        g1 = b_and(c.g, m)
        rest = b_and(c.g, b_not(m))
        if g1 is FALSE:
            return NONE
        k = I.sub_ctx(c, g1, dict(c.st))
        p, stop, v = at(k, s, pos)
        if v is None:
            # taking an element never returns
            return NONE if rest is not FALSE else None
        if i.op == "ref":
            I.write_ref(k.st, i, (), it(s, add(pos, ONE)), None)
        if p is TRUE and stop is FALSE:
            if rest is FALSE:
                c.st.clear()
                c.st.update(k.st)
                return some(v)
            # the position also advances past the end: an exhausted iterator stays exhausted
            st0 = dict(c.st)
            if i.op == "ref":
                I.write_ref(st0, i, (), it(s, add(pos, ONE)), None)
            _, mm = I.merge([(g1, k.st), (rest, st0)])
            c.st.clear()
            c.st.update(mm)
            return ite(m, some(v), NONE)
        outs = []
        skip = b_and(g1, b_and(b_not(p), b_not(stop)))
        if skip is not FALSE:
            outs.append((loop_header(c), skip, dict(k.st), None))
        okg = b_and(g1, b_and(p, b_not(stop)))
        done = b_or(rest, b_and(g1, stop))
        ng = b_or(okg, done)
        st1 = dict(k.st)
        outs.append(("ok", ng, st1, ite(restrict(okg, ng), some(v), NONE)))
        return outs

    def loop_header(c):
        if getattr(c, "block", None) is None:
            return None
        fr = c.fr
        if c.I.fstack[-1] is not fr:
            return None
        best = None
        for h, b in fr.cfg.loops.items():
            if c.block in b and (best is None or len(b) < len(fr.cfg.loops[best])):
                best = h
        return best

    def persists(I, i):
        if i.op != "ref" or not I.hstack:
            return False
        return i.a[0] in I.hstack[-1]

    @model("core::iter::traits::double_ended::DoubleEndedIterator::next_back")
    def m_next_back(c, a):
        return NotImplemented

    @model("core::iter::adapters::peekable::Peekable::peek")
    def m_peek(c, a):
        cur = MM.val(c, a[0])
        if cur.op != "it":
            cur = it(seq(cur))
        s, pos = cur.a
        if has_filter(s):
            return NotImplemented
        m = more(c, s, pos)
        k = c.I.sub_ctx(c, b_and(c.g, m), dict(c.st))
        p, stop, v = at(k, s, pos)
        return ite(m, some(v), NONE)

    # ------------------------------------------------------------ consumers
    @model(*both("for_each"))
    def m_foreach(c, a):
        s = struct_of(c, a[0], MM.argty(c, 0))
        def step(q, v, pos):
            return FALSE if c.I.apply(q, a[1], [v]) is not None else None
        r, L = stream_loop(c, s, ZERO, step, "for_each")
        return UNIT if r is not None else None

    @model(*both("try_for_each"))
    def m_tryforeach(c, a):
        s = struct_of(c, a[0], MM.argty(c, 0))
        loc = c.I.fresh_loc(c.st, UNIT)
        isopt = (c.destty or "").startswith("core::option")
        isres = (c.destty or "").startswith("core::result")
        if isopt:
            c.st[loc] = some(UNIT)
        def step(q, v, pos):
            r = c.I.apply(q, a[1], [v])
            if r is None:
                return None
            good = is_variant(r, OPT, "Some") if isopt else is_variant(r, RES, "Ok")
            q.st[loc] = ite(good, q.st[loc], payload(r, "Err") if isres else r)
            return b_not(good)
        r, L = stream_loop(c, s, ZERO, step, "try_for_each")
        if r is None:
            return None
        e = c.st.pop(loc)
        if not isres:
            return e
        return ok(UNIT) if r is FALSE else ite(r, err(assume(e, r)), ok(UNIT))

    def fold(c, s, init, f):
        loc = c.I.fresh_loc(c.st, init)
        def step(q, v, pos):
            r = f(q, q.st[loc], v)
            if r is None:
                return None
            q.st[loc] = r
            return FALSE
        r, L = stream_loop(c, s, ZERO, step, "fold")
        if r is None:
            return None
        return c.st.pop(loc)

    @model(I_ + "fold")
    def m_fold(c, a):
        return fold(c, struct_of(c, a[0], MM.argty(c, 0)), a[1], lambda q, x, v: c.I.apply(q, a[2], [x, v]))

    @model(*both("sum"))
    def m_sum(c, a):
        d = c.destty or ""
        if not is_numeric(d):
            for b in c.I.F.impls.get("core::iter::traits::accum::Sum::sum", []):
                if b["locals"][0] == d:
                    return c.I.call_body(b, [a[0]], c.st, c.g, c)
        return fold(c, struct_of(c, a[0], MM.argty(c, 0)), ZERO, lambda q, x, v: add(x, MM.val(q, v)))

    @model(*both("product"))
    def m_product(c, a):
        return fold(c, struct_of(c, a[0], MM.argty(c, 0)), ONE, lambda q, x, v: mul(x, MM.val(q, v)))

    @model(*both("count"))
    def m_count(c, a):
        s = struct_of(c, a[0], MM.argty(c, 0))
        if not has_filter(s) and s.a[0] == "seq":
            return length(s.a[1])
        return fold(c, s, ZERO, lambda q, x, v: add(x, ONE))

    def quant(c, a, neg_):
        """any(p): atom 'any' over the positions"""
        s = struct_of(c, a[0], MM.argty(c, 0))
        box = {}
        def step(q, v, pos):
            r = c.I.apply(q, a[1], [v])
            if r is None:
                return None
            r = as_bool(r)
            box["c"] = (r, restrict(q.g, c.g))
            return b_not(r) if neg_ else r
        r, L = stream_loop(c, s, ZERO, step, "any")
        if r is None:
            return FALSE if "c" not in box else None
        if "c" not in box:
            return TRUE if neg_ else FALSE
        cond, g = box["c"]
        n = size(c, s)
        iL = mk("i", L.id)
        base = g
        if n is not None:
            base = restrict(g, cmp_lt(iL, n)) if n.op != "min" else g
        cond = b_not(cond) if neg_ else cond
        bv, b, _ = close_over(b_and(base, cond), iL)
        if n is not None and is_num(n) and n.a[1].denominator == 1 and 0 <= n.a[1] <= 8:
            r = FALSE
            for k in range(int(n.a[1])):
                r = b_or(r, as_bool(subst(b, {bv: cint(k)})))
            return b_not(r) if neg_ else r
        atom = b_atom(mk("any", n if n is not None else UNDEF, b, bv))
        return b_not(atom) if neg_ else atom

    @model(*both("any"))
    def m_any(c, a):
        return quant(c, a, False)

    @model(*both("all"))
    def m_all(c, a):
        return quant(c, a, True)

    def first(c, s, f):
        """first element for which f gives (cond, value): Option"""
        box = {}
        def step(q, v, pos):
            r = f(q, v, pos)
            if r is None:
                return None
            box["c"] = (r[0], r[1])
            return r[0]
        r, L = stream_loop(c, s, ZERO, step, "find")
        if r is None or "c" not in box:
            return NONE
        n = size(c, s)
        bv, cnd, (v,) = close_over(box["c"][0], mk("i", L.id), box["c"][1])
        key = (n if n is not None else UNDEF, cnd, bv)
        return ite(b_atom(mk("any", *key)), some(mk("first", *key, v)), NONE)

    @model(*both("find", "find_first", "find_any"))
    def m_find(c, a):
        def f(q, v, pos):
            r = c.I.apply(q, a[1], [v])
            return None if r is None else (as_bool(r), v)
        return first(c, struct_of(c, a[0], MM.argty(c, 0)), f)

    @model(*both("position", "position_first", "position_any"))
    def m_position(c, a):
        def f(q, v, pos):
            r = c.I.apply(q, a[1], [v])
            return None if r is None else (as_bool(r), pos)
        return first(c, struct_of(c, a[0], MM.argty(c, 0)), f)

    @model(*both("find_map", "find_map_any", "find_map_first"))
    def m_find_map(c, a):
        def f(q, v, pos):
            r = c.I.apply(q, a[1], [v])
            return None if r is None else (is_variant(r, OPT, "Some"), payload(r, "Some"))
        return first(c, struct_of(c, a[0], MM.argty(c, 0)), f)

    @model(I_ + "last", I_ + "nth")
    def m_last(c, a):
        s = pure_seq(c, a[0])
        if s is None:
            return None
        i = sub(length(s), ONE) if c.path.endswith("last") else a[1]
        if c.path.endswith("nth") and a[0].op == "ref":
            c.I.write_ref(c.st, a[0], (), it(seq(s), add(a[1], ONE)), None)
        return ite(cmp_lt(ZERO, length(s)) if c.path.endswith("last") else cmp_lt(i, length(s)), some(index(s, i)), NONE)

    def best(kind):
        def m(c, a):
            s = pure_seq(c, a[0])
            if s is None:
                return None
            base = kind.split("_")[0]
            if kind.endswith("by_key"):
                key = MM.probe(c, a[1], MM.BV("x"))
                key = c.I.deep(c.st, key) if key is not None else UNDEF
            elif kind.endswith("_by"):
                r = MM.probe(c, a[1], MM.BV("x"), MM.BV("y"))
                key = is_variant(r, ORD, "Less") if r is not None else UNDEF
                key = mk("less", key)
            else:
                key = MM.BV("x")
            return ite(cmp_eq(length(s), ZERO), NONE, some(mk("best", base, s, key)))
        return m
    for n in ("max", "min", "max_by_key", "min_by_key", "max_by", "min_by"):
        for p in both(n):
            M[p] = best(n)

    @model(I_ + "reduce")
    def m_reduce(c, a):
        s = pure_seq(c, a[0])
        if s is None:
            return None
        r = MM.probe(c, a[1], MM.BV("x"), MM.BV("y"))
        return ite(cmp_eq(length(s), ZERO), NONE, some(mk("reduce", s, r if r is not None else UNDEF)))

    @model(P_ + "reduce")
    def m_preduce(c, a):
        s = pure_seq(c, a[0])
        if s is None:
            return None
        z = MM.probe(c, a[1])
        r = MM.probe(c, a[2], MM.BV("x"), MM.BV("y"))
        return mk("preduce", s, z if z is not None else UNDEF, r if r is not None else UNDEF)

    @model(I_ + "size_hint")
    def m_hint(c, a):
        n = size(c, struct_of(c, a[0], MM.argty(c, 0)))
        return tup(n, some(n)) if n is not None else NotImplemented

    @model(I_ + "collect", P_ + "collect", "core::iter::traits::collect::FromIterator::from_iter")
    def m_collect(c, a):
        d = c.destty or ""
        head = d.split("<")[0]
        if head.endswith("Result") or head.endswith("Option"):
            isopt = head.endswith("Option")
            s = struct_of(c, a[0], MM.argty(c, 0))
            loc = c.I.fresh_loc(c.st, EMPTY)
            rl = c.I.fresh_loc(c.st, UNIT)
            def step(q, v, pos):
                good = is_variant(v, OPT, "Some") if isopt else is_variant(v, RES, "Ok")
                if not isopt:
                    q.st[rl] = ite(good, q.st[rl], payload(v, "Err"))
                q.st[loc] = push(q.st[loc], payload(v, "Some" if isopt else "Ok"))
                return b_not(good)
            r, L = stream_loop(c, s, ZERO, step, "collect")
            if r is None:
                return None
            v, e = c.st.pop(loc), c.st.pop(rl)
            v = assume(v, b_not(r)) if r is not FALSE else v
            inner = MM.last_arg(d) if isopt else (MM.targs(d) or [""])[0]
            v = wrap(inner, v)
            good = some(v) if isopt else ok(v)
            if r is FALSE:
                return good
            return ite(r, NONE if isopt else err(assume(e, r)), good)
        s = struct_of(c, a[0], MM.argty(c, 0))
        v = collect_struct(c, s)
        if v is None:
            return None
        return wrap(d, v)

    def wrap(d, v):
        h = d.split("<")[0]
        if "Map" in h or "Set" in h:
            return mk("mapof", h.rsplit("::", 1)[-1], v)
        if h.endswith("String"):
            return mk("call", "string_from_iter", v)
        return v

    @model("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend_from_slice", "rayon::iter::ParallelExtend::par_extend")
    def m_extend(c, a):
        v = MM.val(c, a[0])
        w = pure_seq(c, a[1], MM.argty(c, 1))
        if w is None:
            return None
        MM.put(c, a[0], cat(v, w))
        return UNIT

def describe(I, t):
    """the sequence an iterator value yields, as a comp/vec term"""
    from .interp import Ctx
    c = Ctx()
    c.I, c.st, c.g, c.fr, c.fn, c.path, c.argtys, c.destty, c.span, c.block = I, dict(I.state), TRUE, None, None, "", [], "", None, 0
    try:
        return pure_seq(c, t)
    except Exception as e:
        I.notes.append("describe: %r" % e)
        return None
