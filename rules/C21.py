"""Error discipline, decided by a forward dataflow analysis over the MIR of every function and closure of the library (all features that
can be compiled here) and of the three programs (an/errors.py).

A value whose type carries an error (`Result`, `Option<Result>`, `ControlFlow` of a residual, tuples and vectors of them, or an error value
as such) is *pending* from the call that made it.  It is settled on an edge where it is known to hold no error (the Ok edge of a match,
`is_err()` being false, `?`), and it moves on when it is moved: into another local (pending in turn), into a data structure, into the return
value, into a call.  Calls that throw the error away do not settle it: `ok`, `unwrap_or…`, `map_or`, `is_ok`, `iter`, `drop`, `forget`,
being taken as a collection by `extend`/`chain`/`zip`, `unwrap_or_else`/`or_else`/`map_or_else` with a closure that returns without
building an error; nor does being looked at through a reference (logging).  A pending value that is dropped, goes out of scope or is still
there at a return is *lost*.

A lost error is no violation if the function reports another error in its place on every path from there (it builds an `Err` or passes a
residual on): what fails must not look like a success; which words are used is up to the code.

Iterators: adaptors that take items without handing them on (`flatten`, `filter`, `count`, `last`, `skip`, …, `flat_map` to a `Result`) must
not be used on items that carry an error (the item type is asked from the compiler), and functions that throw errors away must not be handed
on by name (`filter_map(Result::ok)`).

Not counted as failures of an operation: mismatches of the parser combinators (judged where the formats are read: C15, C18, C19), attributes
of an XML tag that are not well-formed (they count as missing), conversions between number types, caught panics (C interface), poisoned
locks, `fmt::Error`, and what fails in a destructor, which cannot report anything (what has to be written before is up to C24).  `BufRead::fill_buf`, alone or behind a function whose only errors come from there, is a look ahead: the same error
comes up again when the input is read.  Questions about a path (`metadata`, `canonicalize`) do not access what is in the file; opening it is what has to
work.

Finally every program hands the outcome to the caller: `main` returns a `Result`."""
from an.rule import *
from an.errors import *
from an.locks import calls_of

CRATES = ("cres", "bin_cres", "bin_cres_partition", "bin_cres_classify_events")


def peeking(F):
    """functions whose errors all come from looking ahead"""
    out = set(PEEK)
    while True:
        n = len(out)
        for k, b in F.bodies.items():
            ty = b["locals"][0]
            if b["name"] in out or not isinstance(ty, str) or not error_type(ty):
                continue
            src = [f["path"] for _, f, _, dest, _, _ in calls_of(b) if f and isinstance(b["locals"][dest[0]], str) and error_type(b["locals"][dest[0]])
                   and not f["path"].startswith("core::") ]
            if src and all(x in out for x in src) and not any(err_built(st[2]) and st[1][0] == 0 and not passes_on(b, st) for bl in b["blocks"] if bl for st in bl[0] if st[0] == "=" and st[2][0] == "agg"):
                out.add(b["name"])
        if len(out) == n:
            return out


def peek_handlers(F, peek):
    """closures that are handed nothing but the errors of looking ahead"""
    good, bad = set(), set()
    for b in F.bodies.values():
        clos = {st[1][0]: st[2][1]["id"] for bl in b["blocks"] if bl for st in bl[0]
                if st[0] == "=" and st[2][0] == "agg" and isinstance(st[2][1], dict) and st[2][1].get("k") == "closure"}
        if not clos:
            continue
        src = {}
        for _, f, _, dest, _, _ in calls_of(b):
            src.setdefault(dest[0], []).append(f["path"] if f and len(dest[1]) == 0 else None)
        moved = lambda x: x["m"][0] if isinstance(x, dict) and "m" in x and not x["m"][1] else None
        for _, f, args, _, _, _ in calls_of(b):
            for j, x in enumerate(args):
                c = clos.get(moved(x))
                if c is None:
                    continue
                ok = j > 0 and f and f["path"].startswith("core::result::Result::") and src.get(moved(args[0])) and all(q in peek for q in src[moved(args[0])])
                (good if ok else bad).add(c)
    return good - bad


def passes_on(b, st):
    """the error handed on is one that was received"""
    o = st[2][2]
    return len(o) == 1 and isinstance(o[0], dict) and ("m" in o[0] or "c" in o[0])


def check(a):
    n = 0
    for fs, crates in (("full", CRATES), ("single", ("cres",))):
        F = a.facts(fs, crates)
        peek = peeking(F)
        look = peek_handlers(F, peek)
        a.ob("analysed", "functions with fallible calls (%s)" % fs, True, crates[0], "%d bodies" % len(F.bodies))
        for k, b in F.bodies.items():
            if "as core::ops::drop::Drop>::drop" in b["name"]:
                continue
            fl = Flow(F, b)
            lost = fl.run()
            lost = {k: v for k, v in lost.items() if k[0] not in peek and not (b["id"] in look and str(k[0]).startswith("argument "))}
            if not fl.sources and not lost:
                continue
            n += fl.sources
            a.analysed.add(b["name"])
            first = sorted(lost.items(), key=str)[:1]
            a.ob("passed on", "%s [%s]: %d fallible calls" % (b["name"], fs, fl.sources), not lost, where(b) if not first or not first[0][1][2] else "%s:%s" % (b["file"], first[0][1][2][0]),
                 "; ".join("the error of %s is %s" % (o, why) for (o, why, _) in sorted(lost, key=str)[:3]) if lost else "every error is returned, kept or replaced by another error")
        for k, b in F.bodies.items():
            if fs == "full" and k.endswith("::main"):
                ty = b["locals"][0]
                a.ob("outcome", "%s (%s)" % (b["name"], b["file"]), isinstance(ty, str) and error_type(ty) is not None, where(b), "main returns the outcome")
    a.ob("analysed", "fallible calls followed", n > 400, "src", "%d" % n)
