"""Value analysis of the Les Houches record parser over symbolic text (entries are identified by line and number, numbers by the
entry they were read from): the weight and number of particles come from the event line, particle i from the i-th line behind
it; one arbitrary iteration of the particle loop is compared with the columns of the format, as are the conditions of errors."""
from an.terms import *
from an.query import *
from an.rule import where
from rules.records import *
from rules.C11 import builder_fields
from rules.C15 import particle, needs
from rules.C16 import lhef_line, always_err

PARSE = "cres::lhef::LHEFParser::parse_lhef"
BUILD = "cres::event::EventBuilder::build"
# columns of a particle line: IDUP ISTUP MOTHUP(2) ICOLUP(2) PUP(5) VTIMUP SPINUP
COLS = (0, 6, 7, 8, 9, 1)


def check(a):
    n = 0
    for fs in ("full", "single"):
        F = a.facts(fs, ("cres",))
        if not any("Converter" in (b["impl_self"] or "") for b in F.impls.get(PARSE, [])):
            continue
        n += 1
        one(a, F, "" if fs == "full" else "no-multiweight ")
    a.ob("present", "parser", n >= 1, "", "no parser for Les Houches records")


def one(a, F, tag):
    body = a.impl(PARSE, "Converter", F)
    I = a.interp(body, F, opaque={BUILD})
    W = where(I.entry)
    record = I.params[1]
    of, wf = builder_fields(F)
    Ls = [L for L in I.loops.values() if any(contains(n, lambda t: t.op == "push" and contains(t.a[0], lambda x: x.op == "fld" and x.a[1] == of)) for n in L.nexts.values())]
    if not a.ob("lines", tag + "one-loop-over-particles", len(Ls) == 1 and not Ls[0].parents, W, "%d loops" % len(Ls)):
        return
    L = Ls[0]
    bs = [s for s, n in L.nexts.items() if contains(n, lambda t: t.op == "push")]
    if not a.ob("lines", tag + "one-event-builder", len(bs) == 1, W, "%d" % len(bs)):
        return
    B = bs[0]
    iL = mk("i", L.id)
    # ------------------------------------------------ event line
    line = event_line(a, tag, W, L, record)
    if line is None:
        return
    b0 = L.inits[B]
    nup = mk("num", "u32", tok(line, ZERO))
    first = mk("num", "f64", tok(line, cint(2)))
    w = field(b0, wf)
    ok_w = w is first or length(w) is ONE and (index(w, ZERO) is first or w.op == "push" and w.a[1] is first)
    a.ob("event line", tag + "weight-is-XWGTUP", ok_w, W, show(w)[:300])
    a.ob("event line", tag + "no-particles-before", length(field(b0, of)) is ZERO, W, show(field(b0, of))[:200])
    # ------------------------------------------------ particle lines
    lines = list(dict.fromkeys(x for n in list(L.nexts.values()) + [x[0] for x in L.exits.values()] for x in subterms(n)
                               if x.op == "idx" and x.a[0].op == "call" and str(x.a[0].a[0]).endswith("{str}::lines") and contains(x.a[1], lambda y: y is iL)))
    if not a.ob("lines", tag + "one-line-per-particle", len(lines) == 1, W, "%d different lines" % len(lines)):
        return
    ln = lines[0]
    src = ln.a[0].a[1]
    whole = line.op == "idx" and ln.a[0] is line.a[0] and ln.a[1] is add(iL, cint(2))
    on_event_line = src is line or src.op in ("cur", "sp") and base_line(src) is line
    behind = src.op == "sub" and src.a[0] is line and src.a[2] is length(line) and newline_offset(src.a[1], line)
    a.ob("lines", tag + "first-particle-is-behind-the-event-line", on_event_line and ln.a[1] is add(iL, ONE) or behind and ln.a[1] is iL or whole, W, show(ln)[:300])
    nlines = length(ln.a[0])
    left = sub(nlines, sub(ln.a[1], iL))
    # ------------------------------------------------ how the loop is left
    res = I.result
    g = L.guard
    keys = list(L.exits)
    inside = [cmp_lt(iL, nup), cmp_lt(iL, left)]
    pair = mk("min", *sorted((nup, left), key=lambda t: t.id))
    if contains(tup(*[L.exits[t][0] for t in keys]), lambda t: t is pair):
        inside = [cmp_lt(iL, pair)]
    STOP = ERR = FALSE
    ends, errs = [], []
    for k, t in enumerate(keys):
        G = exits_as_any(I, L.exits[t][0])
        for c in lits(g):
            G = given(G, c)
        x = at_exit(I, L.id, given(res, *lits(g)), k)
        if always_err(x):
            errs.append(k)
            ERR = b_or(ERR, G)
        else:
            ends.append((k, x))
            STOP = b_or(STOP, G)
    ok = given(STOP, *inside) is FALSE and all(given(STOP, *(inside[:k] + [b_not(inside[k])])) is TRUE for k in range(len(inside)))
    a.ob("lines", tag + "as-many-particles-as-announced", ok, W, "stops if %s" % show(STOP)[:300])
    # ------------------------------------------------ one particle
    ERR = given(ERR, *inside)
    nxt = given(exits_as_any(I, L.nexts[B]), *(lits(g) + inside))
    particle(a, F, tag, W, ln, B, nxt, ERR, of, wf, COLS, "particle line")
    # ------------------------------------------------ result
    ok = bool(ends) and all(y.op == "agg" and y.a[1] == "Ok" and is_call(payload(y, "Ok"), BUILD) and payload(y, "Ok").a[1] is B for k, x in ends for y in leaves(x))
    a.ob("result", tag + "event-of-all-particles", ok, W, "; ".join(show(x)[:200] for k, x in ends))
    a.ob("result", tag + "malformed-particle-is-reported", bool(errs), W, "%d error exits" % len(errs))
    f = mk("call", "core::str::{str}::find", mk("call", "core::str::{str}::trim_start", record), const("char", "\n"))
    missing = cmp_lt(length(line.a[0]), cint(2)) if line.op == "idx" else as_bool(is_variant(f, None, "None"))
    conds = [("event line missing", missing)] + \
            [("entry %d of the event line" % k, b_not(parses(kd, line, cint(k)))) for k, kd in ((0, "u32"), (2, "f64"))]
    for nm, c in conds:
        r = given(res, c)
        ok = all(x.op == "agg" and x.a[1] == "Err" for x in leaves(r)) and contains(res, lambda t: True)
        a.ob("result", tag + nm + " is reported", ok, W, show(r)[:200])


def lits(g):
    """conditions that g implies, one by one"""
    ps = [l for l, x in paths(g) if x is TRUE]
    if len(ps) != 1:
        return [g]
    return [b_atom(at) if v else b_not(b_atom(at)) for at, v in ps[0]]


def base_line(t):
    while t.op in ("cur", "sp"):
        t = t.a[0]
    return t


def newline_offset(off, line):
    fs = [x for x in subterms(off) if x.op == "call" and str(x.a[0]).endswith("{str}::find") and is_newline(x.a[2])]
    if len(fs) != 1:
        return False
    src = fs[0].a[1]
    if base_line(src) is not line:
        return False
    return off is add(add(sub(length(line), length(src)), payload(fs[0], "Some")), ONE)


def event_line(a, tag, W, L, record):
    """the text that starts with the event line: behind the first line break of the record"""
    want = lhef_line(record)
    texts = list(dict.fromkeys(x.a[0] for t in L.inits.values() for x in subterms(t) if x.op == "tok"))
    other = mk("idx", mk("call", "core::str::{str}::lines", mk("call", "core::str::{str}::trim_start", record)), ONE)
    if texts == [other]:
        want = other
    ok = texts == [want]
    a.ob("event line", tag + "is-the-second-line", ok, W, "; ".join(show(t)[:200] for t in texts))
    return want if ok else None
