"""Forward dataflow over MIR: where does the error of a fallible call go?

A local is *pending* while it may hold an error that nobody has taken: it is defined by a call (or handed in) with a type that
carries an error, and becomes settled by being moved on - returned, put into another value (which is pending in turn), given to a
function that does not throw errors away.  Learning that it is no error (the Ok edge of a match) settles it as well.  A pending
local that is dropped, goes out of scope or is still there when the function returns is a lost error."""
import re

RES = "core::result::Result<"
CF = "core::ops::control_flow::ControlFlow<core::result::Result<"
OPT = "core::option::Option<"
# methods that throw the error away
DISCARD = {"ok", "unwrap_or", "unwrap_or_default", "map_or", "is_ok", "is_err", "is_ok_and", "is_err_and", "iter", "into_iter", "or", "unwrap_unchecked", "iter_mut"}
ITERATES = {"extend", "chain", "zip", "par_extend", "from_iter", "interleave"}
NONE_IF = {"is_ok": True, "is_err": False, "is_none": True, "is_some": False}
LOOKS = {"is_ok", "is_err", "is_ok_and", "is_err_and", "is_some", "is_none", "as_ref", "as_mut", "fmt", "eq", "ne", "iter", "iter_mut", "inspect", "inspect_err"}
# adaptors that take items without looking at them (or only at a reference)
SKIPS = {"flatten", "count", "last", "nth", "skip", "step_by", "filter", "find", "take_while", "skip_while", "position", "any", "rposition", "find_any", "find_first", "partition", "find_last",
         "max_by", "min_by", "max_by_key", "min_by_key", "is_partitioned", "position_any", "filter_ok", "while_some", "advance_by", "take_any_while", "skip_any_while", "dedup", "unique"}
# no failure of an operation: the answer "no" of a question, the mismatch of a parser that may try something else (judged where the
# formats are read: C15, C18, C19), a panic that was caught (the C interface)
MILD = ("nom::internal::Err<", "quick_xml::events::attributes::AttrError", "alloc::boxed::Box<dyn core::any::Any", "std::sync::poison::PoisonError", "std::env::VarError",
        "core::num::error::TryFromIntError", "core::array::TryFromSliceError", "std::path::StripPrefixError", "core::convert::Infallible", "std::sync::poison::TryLockError", "log::SetLoggerError",
        "core::time::", "std::time::")
# looking ahead: an error that happens here happens again on reading
PEEK = {"alloc::io::buf_read::BufRead::fill_buf", "std::io::BufRead::fill_buf",
        "std::path::Path::metadata", "std::path::Path::symlink_metadata", "std::path::Path::canonicalize",
        "std::fs::metadata", "std::fs::symlink_metadata", "std::fs::canonicalize"}
NUMS = {"usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128", "i128", "bool", "()", "!", "core::convert::Infallible", "core::fmt::Error"}


def split_args(ty):
    """type arguments of a path type"""
    i = ty.index("<")
    out, d, cur = [], 0, ""
    for ch in ty[i + 1:]:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            if ch == ">" and cur.endswith("-"):
                cur += ch
                continue
            d -= 1
            if d < 0:
                break
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def error_type(ty):
    """type of the error a value of this type may carry, or None"""
    if not isinstance(ty, str):
        return None
    if ty.startswith(RES):
        a = split_args(ty)
        if len(a) == 2 and a[1] not in NUMS and not a[1].startswith(MILD):
            return a[1]
        return error_type(a[0]) if a else None
    if ty.startswith("(") and len(ty) > 2:
        return next((e for e in map(error_type, split_args("<" + ty[1:-1] + ">")) if e), None)
    if ty.startswith("alloc::vec::Vec<"):
        return error_type(split_args(ty)[0])
    if ty.startswith(OPT) or ty.startswith("core::ops::control_flow::ControlFlow<"):
        return error_type(split_args(ty)[0])
    return None


class Flow:
    def __init__(s, F, b, force=None, memo=None):
        s.F, s.b = F, b
        s.force, s.memo = force, {} if memo is None else memo
        s.tys = [t if isinstance(t, str) else str(t) for t in b["locals"]]
        s.lost = {}
        s.origin = {}
        s.sources = 0
        s.closures = {st[1][0]: st[2][1]["id"] for bl in b["blocks"] if bl for st in bl[0]
                      if st[0] == "=" and st[2][0] == "agg" and isinstance(st[2][1], dict) and st[2][1].get("k") == "closure"}

    def carries(s, l):
        return error_type(s.tys[l])

    def lose(s, l, span, why):
        if l is not None and not silent_path(s.b, s.at):
            return
        o = s.origin.get(l, ("?", None))
        s.lost.setdefault((o[0], why, tuple(span[:1]) if span else ()), (l, o[1], span))

    def swallows(s, fid, j):
        """a function of these crates that does nothing with the error it gets"""
        b = s.F.bodies.get(fid)
        if not b or error_type(b["locals"][0]) or is_error(b["locals"][0]) or j > b["argc"]:
            return False
        k = (fid, j)
        if k not in s.memo:
            s.memo[k] = False
            s.memo[k] = any(v[0] == j or o == "argument %d" % j for (o, _, _), v in Flow(s.F, b, j, s.memo).run().items())
        return s.memo[k]

    def handler(s, t, last):
        """body of the closure that gets the error"""
        a = t[2][1]
        m = s.moved(a)
        if m:
            return s.F.bodies.get(s.closures.get(m[0]))
        if isinstance(a, dict) and (a.get("k") or {}).get("fn"):
            fn = a["k"]["fn"]
            return s.F.bodies.get((fn.get("res") or fn)["id"])
        return None

    def moved(s, op):
        """(local, projection, is a move) of an operand"""
        if isinstance(op, dict):
            if "m" in op:
                return op["m"][0], op["m"][1], True
            if "c" in op:
                return op["c"][0], op["c"][1], False
        return None

    def operands(s, x):
        if isinstance(x, dict):
            m = s.moved(x)
            if m:
                yield m
        elif isinstance(x, list):
            for y in x:
                yield from s.operands(y)

    def takes_error(s, proj, l=None):
        """the projection reaches the error or the value of a variant that may hold it"""
        vs = [p[1] for p in proj if p and p[0] == "v"]
        if len(vs) == 1 and vs[0] in ("Ok", "Continue") and l is not None and s.tys[l].startswith((RES, "core::ops::control_flow::ControlFlow<")):
            a = split_args(s.tys[l])      # a result inside a result
            return bool(a) and error_type(a[0 if vs[0] == "Ok" else -1]) is not None
        return not vs or vs[-1] in ("Err", "Some", "Break")

    def run(s):
        b = s.b
        n = len(b["blocks"])
        start = set()
        for l in [s.force] if s.force else range(1, b["argc"] + 1):
            if s.force:
                start.add(l)
                s.origin[l] = ("argument %d" % l, None)
                continue
            if s.tys[l].startswith("&"):
                continue
            if s.carries(l) or is_error(s.tys[l]) and not (s.carries(0) or is_error(s.tys[0]) or str(s.tys[0]).endswith("ErrorKind")):
                start.add(l)
                s.origin[l] = ("argument %d" % l, None)
        state = {0: frozenset(start)}
        # closures: the arguments may come as a tuple that is taken apart (handled by the projections)
        work = [0]
        s.tests = {}    # bool -> (local, the answer that means there is no error)
        alias = {}      # reference -> what it points to
        discr = {}      # local -> (place, type)
        seen = 0
        while work and seen < 20 * n + 200:
            seen += 1
            i = work.pop()
            bl = b["blocks"][i]
            if not bl:
                continue
            cur = set(state[i])
            s.at = i
            for st in bl[0]:
                s.stmt(st, cur, alias, discr)
            for j, out in s.term(bl[1], cur, alias, discr):
                old = state.get(j)
                new = out if old is None else old | out
                if old is None or new != old:
                    state[j] = frozenset(new)
                    work.append(j)
        return s.lost

    def settle(s, cur, l, d, dproj, proj=()):
        """l was moved on to place (d, dproj)"""
        if proj and not dproj and not (s.carries(d) or is_error(s.tys[d]) or s.tys[d].startswith(MILD) or s.tys[d] == s.carries(l)):
            return      # another part of it
        cur.discard(l)
        if d is None or d == 0 or dproj or s.tys[d].startswith(MILD):
            return
        cur.add(d)
        s.origin.setdefault(d, s.origin.get(l, ("?", None)))
        s.origin[d] = s.origin.get(l, s.origin[d])

    def stmt(s, st, cur, alias, discr):
        if st[0] == "dead":
            l = st[1]
            if l in cur:
                # plain error values without destructor end here
                s.lose(l, None, "goes out of scope")
                cur.discard(l)
            return
        if st[0] != "=":
            return
        (d, dproj), rv, span = st[1], st[2], st[3]
        if rv[0] == "discr":
            discr[d] = (rv[1], rv[2])
            return
        if rv[0] in ("ref", "addr"):
            pl = [y for y in rv[1:] if isinstance(y, list) and len(y) == 2 and isinstance(y[0], int) and isinstance(y[1], list)]
            if pl and not dproj:
                alias[d] = pl[0]
            return
        if rv[0] == "agg" and err_built(rv):
            # the function is about to report an error: whatever it knows of stands behind it
            cur.clear()
            if d and not dproj:
                cur.add(d)
                s.origin[d] = ("an error built here", span)
            return
        hit = False
        for l, proj, mv in s.operands(rv[1:]):
            if l in cur and s.takes_error(proj, l):
                hit = True
                s.settle(cur, l, d, dproj, proj)
            elif l in alias and not dproj and rv[0] in ("use", "cast"):
                alias[d] = alias[l]
        if not hit and not dproj and d in cur:
            cur.discard(d)

    def term(s, t, cur, alias, discr):
        if not t:
            return []
        k = t[0]
        if k == "goto":
            return [(t[1], cur)]
        if k == "drop":
            (l, proj), tgt = t[1], t[3]
            if l in cur and not proj:
                s.lose(l, t[4] if len(t) > 4 else None, "dropped")
                cur.discard(l)
            return [(tgt, cur)] if tgt is not None else []
        if k == "return":
            for l in list(cur):
                if l != 0:
                    s.lose(l, t[1] if len(t) > 1 else None, "still there at the end")
            return []
        if k == "switch":
            op = s.moved(t[1])
            out = []
            pl = discr.get(op[0]) if op and not op[1] else None
            listed = [str(v) for v, _ in t[3]]
            edges = [(str(v), j) for v, j in t[3]]
            if op and not op[1] and op[0] in s.tests and s.tests[op[0]][0] in cur:
                l, on = s.tests[op[0]]
                listed = {str(v) for v, _ in t[3]}
                if t[4] is not None:
                    edges += [(v, t[4]) for v in {"0", "1"} - listed]
                for v, j in edges:
                    c = set(cur)
                    if (v == "1") == on:
                        c.discard(l)
                    out.append((j, frozenset(c)))
                return out
            if pl and pl[0][0] in cur:
                (l, proj), ty = pl
                all_ = {"0", "1"}
                rest = all_ - set(listed)
                if t[4] is not None:
                    edges += [(v, t[4]) for v in (rest or {"?"})]
                for v, j in edges:
                    c = set(cur)
                    if ty.startswith(RES) or ty.startswith("core::ops::control_flow::ControlFlow<"):
                        good = v == "0"
                        # Result<Result<..>, ..>: the value may carry an error of its own
                        inner = error_type((split_args(ty) + ["()"])[0 if ty.startswith(RES) else 1])
                        if good and not inner:
                            c.discard(l)
                    elif ty.startswith(OPT):
                        if v == "0":
                            c.discard(l)
                    if v != "?":
                        out.append((j, frozenset(c)))
                return out
            out = [(j, frozenset(cur)) for _, j in edges]
            if t[4] is not None:
                out.append((t[4], frozenset(cur)))
            return out
        if k == "call":
            f = t[1].get("k", {}).get("fn") if isinstance(t[1], dict) and "k" in t[1] else None
            path = f["path"] if f else "?"
            last = path.split("::")[-1]
            dest, tgt, span = t[3], t[4], t[5]
            o = None
            for j, a in enumerate(t[2]):
                for l, proj, mv in s.operands(a):
                    if l in cur and s.takes_error(proj, l):
                        if s.swallows((f.get("res") or f)["id"] if f else None, j + 1):
                            s.lose(l, span, "thrown away in %s" % path)
                        if path.startswith("core::result::Result") and last in DISCARD or path in ("core::mem::drop", "core::mem::forget") or last == "into_iter" and s.tys[l].startswith(RES):
                            s.lose(l, span, "thrown away by %s" % last)
                        if last in ITERATES and s.tys[l].startswith(RES):
                            s.lose(l, span, "taken as a collection by %s" % last)
                        if last in ("unwrap_or_else", "map_or_else", "or_else") and path.startswith("core::result::Result"):
                            g = s.handler(t, last)
                            if g is not None and returns(g) and not any(makes_error(g, i) for i in range(len(g["blocks"])) if g["blocks"][i]):
                                s.lose(l, span, "replaced by a value in %s" % last)
                        o = s.origin.get(l)
                        cur.discard(l)
                    elif l in alias and alias[l][0] in cur and last not in LOOKS and not last.startswith(("new_", "log", "enabled")) and "fmt" not in path and "log::" not in path:
                        cur.discard(alias[l][0])
                # functions that are handed on by name
                k_ = a.get("k") if isinstance(a, dict) else None
                g = (k_ or {}).get("fn") if isinstance(k_, dict) else None
                if g and (g["path"].startswith("core::result::Result") and g["path"].split("::")[-1] in DISCARD
                          or g["path"] in ("core::mem::drop", "core::mem::forget") and any(error_type(x) or is_error(x) for x in g.get("args") or ())):
                    s.lost.setdefault((path, "thrown away by %s" % g["path"].split("::")[-1], tuple(span[:1])), (None, None, span))
            item = f.get("item") if f else None
            if item and error_type(item) and last in SKIPS:
                s.lost.setdefault((path, "items skipped by %s" % last, tuple(span[:1])), (None, None, span))
            if f and last in ("flat_map", "flat_map_iter") and any(error_type(x) for x in f["args"][1:2]):
                s.lost.setdefault((path, "errors skipped by %s" % last, tuple(span[:1])), (None, None, span))
            d, dproj = dest
            if last in NONE_IF and len(t[2]) == 1 and not dproj:
                for l, proj, mv in s.operands(t[2][0]):
                    tgt_ = alias.get(l)
                    if tgt_ and not tgt_[1]:
                        ty = s.tys[tgt_[0]]
                        if (last in ("is_ok", "is_err")) == ty.startswith(RES):
                            s.tests[d] = (tgt_[0], NONE_IF[last])
            if last == "from_residual":
                cur.clear()
            if not dproj:
                cur.discard(d)
                if d != 0 and (s.carries(d) or o and is_error(s.tys[d])):
                    cur.add(d)
                    if s.carries(d):
                        s.sources += 1
                    s.origin[d] = (path if not o or not path.startswith("core::") else o[0], span)
            return [(tgt, frozenset(cur))] if tgt is not None else []
        outs = []
        def tg(x):
            if isinstance(x, int):
                outs.append(x)
        if k == "assert":
            for x in t[1:]:
                tg(x) if isinstance(x, int) and not isinstance(x, bool) else None
            outs = outs[-1:]
        return [(j, frozenset(cur)) for j in outs]


def is_error(ty):
    """an error value as such"""
    if not isinstance(ty, str) or ty.startswith(MILD):
        return False
    if ty.startswith("alloc::boxed::Box<dyn core::error::Error"):
        return True
    if ty.startswith("<"):
        return ty.endswith("::Error") or ty.endswith("::Err")
    b = ty.split("<")[0]
    return b.endswith(("Error", "Err")) and b not in NUMS


def successors(t):
    k = t[0] if t else None
    if k == "goto":
        return [t[1]]
    if k == "drop":
        return [t[3]] if t[3] is not None else []
    if k == "switch":
        return [j for _, j in t[3]] + ([t[4]] if t[4] is not None else [])
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)][-1:]
    return []


def err_built(rv):
    x = rv[1]
    return isinstance(x, dict) and x.get("k") == "adt" and x.get("adt") == "core::result::Result" and x.get("variant") == "Err"


def makes_error(b, i, frm=0):
    """block i reports an error: it builds an Err or passes one on"""
    bl = b["blocks"][i]
    for st in bl[0][frm:]:
        if st[0] == "=" and st[2][0] == "agg" and err_built(st[2]):
            return True
    t = bl[1]
    if t and t[0] == "call" and isinstance(t[1], dict) and "k" in t[1]:
        f = t[1]["k"].get("fn")
        if f and f["path"].split("::")[-1] == "from_residual":
            return True
    return False


def silent_path(b, i):
    """can the function return from block i on without reporting an error?"""
    seen, work = set(), [i]
    while work:
        j = work.pop()
        if j in seen or not b["blocks"][j]:
            continue
        seen.add(j)
        if makes_error(b, j):
            continue
        t = b["blocks"][j][1]
        if t and t[0] == "return":
            return True
        work += successors(t)
    return False


def returns(b):
    """can the function return at all?"""
    seen, work = set(), [0]
    while work:
        j = work.pop()
        if j in seen or not b["blocks"][j]:
            continue
        seen.add(j)
        t = b["blocks"][j][1]
        if t and t[0] == "return":
            return True
        work += successors(t)
    return False
