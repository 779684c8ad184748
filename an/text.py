"""Text as a sequence of columns: models of the `nom` parser combinators and of the standard library's text functions.

The abstract domain of a text that is read entry by entry is a position: cur(x, n) is what is left of x behind n blank
separated entries, tok(x, n) the n-th entry (from 0), num(k, tok(x, n)) its value as a number of kind k, and
parses(k, x, n) the condition that it is an entry of that kind.  However the entries are skipped or read (a combinator, a
counted repetition, a split at white space), the same entry is the same term.
"""
from .terms import *
from .models import model, M, val, put, call, some, NONE
from .interp import mk_comp, bvdepth, splice, EMPTY
import re


NUMS = {"nom::number::complete::double": "f64", "nom::number::complete::float": "f32", "nom::number::double": "f64"}


def is_char(t):
    return t.op == "c" and t.a[0] in ("char", "str", "num")


def fnpath(P):
    from .interp import norm_path
    return norm_path(P.a[0].fn["path"]) if P.op == "fn" else None


def run(c, P, x):
    """(result of the parser P on the text x) as a value of type Result<(rest, value), error>, or None"""
    if x.op == "ite":
        out = UNDEF
        for cd, l in cases(x):
            r = run(c, P, l) if l is not UNDEF else UNDEF
            if r is None:
                return None
            out = ite(cd, r, out)
        return out
    p = fnpath(P)
    if p and p.startswith("nom::"):
        return prim(c, p, (), x)
    if P.op == "fn" or P.op == "agg" and str(P.a[0]).startswith("closure:"):
        return call(c, P, x)
    if P.op == "call" and P.a[0].startswith("nom::"):
        return prim(c, P.a[0], P.a[1:], x)
    if P.op == "agg" and P.a[0] == "tuple":
        return seq(c, list(P.a[3]), x, lambda vs: tup(*vs))
    return None


def fail(P, x):
    return err(mk("call", "nom::Err", P if isinstance(P, T) else mk("c", "str", P), x))


def seq(c, ps, x, build, done=()):
    if not ps:
        return ok(tup(x, build(list(done))))
    r = run(c, ps[0], x)
    if r is None:
        return None
    def f(l):
        if l.op == "agg" and l.a[1] == "Ok":
            t = payload(l, "Ok")
            return seq(c, ps[1:], field(t, "0"), build, done + (field(t, "1"),))
        if l.op == "agg" and l.a[1] == "Err":
            return l
        return None
    out = UNDEF
    for cd, l in cases(r):
        y = f(l)
        if y is None:
            return None
        out = ite(cd, y, out)
    return out


def entry(kind, x, value):
    """one entry at x, which may be `what is left behind the blanks of y`"""
    y = x.a[0] if x.op == "sp" else x
    return ite(parses(kind, y), ok(tup(cur(y, ONE), value(tok(y, ZERO)))), fail(kind, y))


def blanks(n, x):
    """x without the blanks (or blanks and line breaks) in front"""
    return mk("sp", x, "white") if n.startswith("multi") else mk("sp", x)


def prim(c, p, a, x):
    n = p.rsplit("::", 1)[1]
    if n in ("space1", "multispace1") and not a:
        k = "blank" if n == "space1" else "white"
        b, i = text_base(x)
        return ite(b_atom(mk("parses", k, b, i)), ok(tup(blanks(n, x), mk("call", "blanks", x))), fail(k, x))
    if n in ("space0", "multispace0") and not a:
        return ok(tup(blanks(n, x), mk("call", "blanks", x)))
    if n in ("tag", "char") and len(a) == 1 and literal(a[0]):
        k = cint(len(literal(a[0])))
        return ite(begins(x, a[0]), ok(tup(subslice(x, k, length(x)), a[0])), fail(a[0], x))
    if n == "take_until" and len(a) == 1 and literal(a[0]):
        f = mk("call", "core::str::{str}::find", x, one_pat(a[0]))
        i = payload(f, "Some")
        return ite(as_bool(is_variant(f, None, "None")), fail(a[0], x), ok(tup(subslice(x, i, length(x)), subslice(x, ZERO, i))))
    if p in NUMS and not a:
        return entry(NUMS[p], x, lambda t: mk("num", NUMS[p], t))
    if "character::" in p and n in ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "usize") and not a:
        return entry(n, x, lambda t: mk("num", n, t))
    if n in ("take_while1", "take_till1") and len(a) == 1:
        ch = mk("sym", "ch")
        r = call(c, a[0], ch)
        if r is None:
            return None
        if n == "take_till1":
            r = b_not(r)
        ws = [l for l in subterms(r) if l.op == "call" and l.a[0].endswith("is_ascii_whitespace") or l.op == "call" and l.a[0].endswith("is_whitespace")]
        if len(set(ws)) == 1 and as_bool(r) is b_not(as_bool(ws[0])):
            return entry("any", x, lambda t: t)
        return None
    if n == "count" and len(a) == 2:
        bv = mk("bv", max(bvdepth(x), bvdepth(a[1])) + 1)
        r = run(c, a[0], cur(x, bv))
        if r is None:
            return None
        oks = [(cd, l) for cd, l in cases(r) if l.op == "agg" and l.a[1] == "Ok"]
        if len(oks) != 1:
            return None
        v = payload(oks[0][1], "Ok")
        if field(v, "0") is not cur(x, add(bv, ONE)):
            return None
        if is_num(a[1]) and a[1].a[1] <= 16:
            every = TRUE
            for i in range(int(a[1].a[1])):
                every = b_and(every, subst(oks[0][0], {bv: cint(i)}))
        else:
            every = b_atom(mk("every", a[1], oks[0][0], bv))
        return ite(every, ok(tup(cur(x, a[1]), mk_comp(a[1], field(v, "1"), TRUE, "seq", bv))), fail(n, x))
    if n in ("preceded", "terminated", "pair", "delimited", "separated_pair"):
        if n == "delimited" and a[0].op == "call" and a[0].a[0].endswith("::char") and a[2] is a[0] and a[1].op == "call" and a[1].a[0].endswith("::take_until"):
            return entry("quoted:" + show(a[0].a[1]) + show(a[1].a[1]), x, lambda t: mk("inner", t))
        pick = {"preceded": lambda v: v[1], "terminated": lambda v: v[0], "pair": lambda v: tup(*v), "delimited": lambda v: v[1],
                "separated_pair": lambda v: tup(v[0], v[2])}[n]
        return seq(c, list(a), x, pick)
    return None


@model("nom::internal::Parser::parse")
def m_parse(c, a):
    r = run(c, val(c, a[0]), a[1])
    return NotImplemented if r is None else r


@model("nom::character::complete::space1", "nom::character::complete::space0", "nom::character::complete::multispace1",
       "nom::character::complete::multispace0", "nom::number::complete::double", "nom::number::complete::float",
       *["nom::character::complete::" + k for k in ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "usize")])
def m_prim(c, a):
    r = prim(c, c.path, (), a[0])
    return NotImplemented if r is None else r


# ---------------------------------------------------------------- standard library
@model("core::str::{str}::split_ascii_whitespace", "core::str::{str}::split_whitespace")
def m_tokens(c, a):
    x = val(c, a[0])
    bv = mk("bv", bvdepth(x) + 1)
    return mk_comp(mk("ntok", x), tok(x, bv), TRUE, "seq", bv)


@model("core::str::{str}::parse", "core::str::traits::FromStr::from_str")
def m_fromstr(c, a):
    t = val(c, a[0])
    m = re.search(r"Result<([^,]+),", c.destty or "")
    if t.op != "tok" or not m or m.group(1) not in ("f64", "f32", "i32", "u32", "usize", "i64", "u64"):
        return NotImplemented
    k = m.group(1)
    return ite(parses(k, t.a[0], t.a[1]), ok(mk("num", k, t)), err(mk("call", "not-a-number", t)))


@model("alloc::string::String::replace_range")
def m_replace_range(c, a):
    v = val(c, a[0])
    r = a[1]
    if r.op != "agg":
        return NotImplemented
    kind = str(r.a[0]).rsplit("::", 1)[-1]
    lo = field(r, "start") if "start" in r.a[2] else ZERO
    hi = field(r, "end") if "end" in r.a[2] else length(v)
    if kind not in ("Range", "RangeFrom", "RangeTo", "RangeFull"):
        return NotImplemented
    c.I.event(c, "slice", "replace_range", (v, lo, hi))
    put(c, a[0], splice(v, lo, hi, val(c, a[2])))
    return UNIT



def one_char(p):
    """the number of the single character a pattern stands for"""
    return ord(p.a[1]) if p.op == "c" and p.a[0] in ("char", "str", "bytes") and len(p.a[1]) == 1 else None


def literal(p):
    """the constant text p stands for"""
    return p.a[1] if p.op == "c" and p.a[0] in ("char", "str", "bytes") and isinstance(p.a[1], str) and p.a[1] else None


def begins(x, p):
    """x starts with the constant text p"""
    k = one_char(p)
    if k is not None:
        return b_and(cmp_lt(ZERO, length(x)), cmp_eq(index(x, ZERO), cint(k)))
    return b_atom(mk("begins", literal(p), x))


@model("core::str::{str}::starts_with", "core::slice::{[T]}::starts_with")
def m_starts_with(c, a):
    x, p = val(c, a[0]), val(c, a[1])
    return begins(x, p) if literal(p) else NotImplemented


@model("core::str::{str}::strip_prefix")
def m_strip_prefix(c, a):
    x, p = val(c, a[0]), val(c, a[1])
    if not literal(p):
        return NotImplemented
    return ite(begins(x, p), some(subslice(x, cint(len(literal(p))), length(x))), NONE)


def ends(x, p):
    return lift(p, lambda q: b_atom(mk("ends", q, x)))


@model("core::str::{str}::ends_with")
def m_ends_with(c, a):
    x, p = val(c, a[0]), val(c, a[1])
    return ends(x, p) if all(literal(q) for q in leaves(p)) else NotImplemented


@model("core::str::{str}::strip_suffix")
def m_strip_suffix(c, a):
    x, p = val(c, a[0]), val(c, a[1])
    if not all(literal(q) for q in leaves(p)):
        return NotImplemented
    return lift(p, lambda q: ite(ends(x, q), some(subslice(x, ZERO, sub(length(x), cint(len(literal(q)))))), NONE))


@model("std::path::Path::join", "std::path::PathBuf::join")
def m_path_join(c, a):
    return agg("array", None, (), (val(c, a[0]), val(c, a[1])))


def one_pat(p):
    """patterns of one character have the same meaning as that character"""
    return const("char", p.a[1]) if p.op == "c" and p.a[0] == "str" and len(p.a[1]) == 1 else p


@model("core::str::{str}::find")
def m_find(c, a):
    return mk("call", "core::str::{str}::find", val(c, a[0]), one_pat(val(c, a[1])))


@model("core::str::{str}::split_once")
def m_split_once(c, a):
    x, p = val(c, a[0]), val(c, a[1])
    if not literal(p):
        return NotImplemented
    f = mk("call", "core::str::{str}::find", x, one_pat(p))
    i = payload(f, "Some")
    return ite(as_bool(is_variant(f, None, "None")), NONE, some(tup(subslice(x, ZERO, i), subslice(x, add(i, cint(len(literal(p)))), length(x)))))


@model("core::str::{str}::bytes")
def m_bytes(c, a):
    return M["core::slice::{[T]}::iter"](c, a)


# ---------------------------------------------------------------- building a text from pieces
TEXTTY = ("str", "alloc::string::String", "String")


def text_cat(*xs):
    """xs one behind the other"""
    out = []
    for x in xs:
        for y in (x.a if x.op == "scat" else (x,)):
            if y is EMPTY or y.op == "c" and y.a[1] == "" or y.op == "sub" and y.a[1] is y.a[2]:
                continue
            if out and y.op == "c" and out[-1].op == "c" and y.a[0] == out[-1].a[0] == "str":
                out[-1] = const("str", out[-1].a[1] + y.a[1])
            else:
                out.append(y)
    for i in range(len(out) - 1, 0, -1):
        p, q = out[i - 1], out[i]
        if p.op == q.op == "sub" and p.a[0] is q.a[0] and p.a[2] is q.a[1]:
            out[i - 1:i + 1] = [subslice(p.a[0], p.a[1], q.a[2])]
    if not out:
        return const("str", "")
    if len(out) == 1:
        return out[0]
    lo, b = front(out[0])
    hi, b2 = back(out[-1])
    if b is not None and b is b2 and len(out) > 1:
        return splice(b, lo, hi, text_cat(*out[1:-1]))
    return mk("scat", *out)


def front(p):
    return (p.a[2], p.a[0]) if p.op == "sub" and p.a[1] is ZERO else (None, None)


def back(p):
    if p.op == "sub" and p.a[2] is length(p.a[0]):
        return p.a[1], p.a[0]
    b = tail_of(p)
    return (sub(length(b), length(p)), b) if b is not p else (None, None)


def tail_of(b):
    """the text that b is the end of"""
    while True:
        if b.op in ("cur", "sp") or b.op == "sub" and b.a[2] is length(b.a[0]) or b.op == "call" and str(b.a[0]).endswith("{str}::trim_start"):
            b = b.a[1] if b.op == "call" else b.a[0]
        else:
            return b


def shown(x, spec=None):
    """the text of a value"""
    if spec is not None:
        return mk("call", "to_string_as", x, const("str", spec))
    if x.op == "c" and x.a[0] in ("char", "str"):
        return const("str", x.a[1])
    return mk("call", "to_string", x)


def templated(t):
    """the text a format template and its arguments stand for, or None"""
    if t.op != "fmtargs" or not t.a:
        return None
    if len(t.a) == 1:
        return t.a[0] if t.a[0].op == "c" and t.a[0].a[0] == "str" else None
    if len(t.a) != 2 or t.a[0].op != "c" or t.a[1].op != "agg":
        return None
    b = t.a[0].a[1]
    b = list(b) if isinstance(b, (bytes, bytearray)) else [ord(x) for x in b]
    args = t.a[1].a[3]
    out, i, nxt = [], 0, 0
    word = lambda i: b[i] | b[i + 1] << 8
    try:
        while i < len(b):
            n = b[i]
            i += 1
            if n == 0:
                break
            if n <= 0x80:
                if n == 0x80:
                    n, i = word(i), i + 2
                s = bytes(b[i:i + n]).decode("utf-8")
                i += n
                out.append(const("str", s))
                continue
            spec = []
            for bit, w in ((1, 4), (2, 2), (4, 2)):
                if n & bit:
                    spec.append("%d:%s" % (bit, b[i:i + w]))
                    i += w
            if n & 8:
                nxt, i = word(i), i + 2
            x = args[nxt]
            nxt += 1
            if x.op != "fmtarg":
                return None
            if x.a[0] != "display":
                spec.append(x.a[0])
            v = x.a[1]
            if not spec and (x.a[2:] and x.a[2] or v.op == "scat" or v.op == "c" and v.a[0] == "str"):
                out.append(v)
            else:
                out.append(shown(v, " ".join(spec) if spec else None))
    except (IndexError, UnicodeDecodeError):
        return None
    return text_cat(*out)


@model("alloc::fmt::format")
def m_format(c, a):
    v = c.I.deep(c.st, a[0])
    t = templated(v)
    return mk("fmt", v) if t is None else t


@model("core::fmt::rt::Argument::new_display")
def m_display(c, a):
    from .models import argty
    from .interp import strip_refs
    v = c.I.deep(c.st, a[0])
    return mk("fmtarg", "display", v, True) if strip_refs(argty(c, 0)) in TEXTTY else mk("fmtarg", "display", v)


@model("alloc::string::String::push_str")
def m_push_str(c, a):
    put(c, a[0], text_cat(val(c, a[0]), val(c, a[1])))
    return UNIT


@model("alloc::string::String::push")
def m_push_ch(c, a):
    put(c, a[0], text_cat(val(c, a[0]), shown(val(c, a[1]))))
    return UNIT


@model("alloc::string::String::insert_str", "alloc::string::String::insert")
def m_insert(c, a):
    v, k, x = val(c, a[0]), val(c, a[1]), val(c, a[2])
    if not c.path.endswith("str"):
        x = shown(x)
    c.I.event(c, "slice", "insert", (v, k, k))
    put(c, a[0], splice(v, k, k, x))
    return UNIT


@model("alloc::string::String::split_off", "alloc::vec::Vec::split_off")
def m_split_off(c, a):
    v, k = val(c, a[0]), val(c, a[1])
    c.I.event(c, "slice", "split_off", (v, ZERO, k))
    put(c, a[0], subslice(v, ZERO, k))
    return subslice(v, k, length(v))


M["alloc::string::String::truncate"] = M["alloc::vec::Vec::truncate"]


@model("alloc::slice::{[T]}::concat", "alloc::slice::{[T]}::join")
def m_concat(c, a):
    from .models import argty
    v = val(c, a[0])
    if v.op != "agg" or v.a[0] not in ("array", "vec") or "str" not in argty(c, 0).lower():
        return NotImplemented
    out = []
    for x in v.a[3]:
        if out and len(a) > 1:
            out.append(val(c, a[1]))
        out.append(val(c, x))
    return text_cat(*out)


def on_text(f, g, ret):
    def m(c, a):
        from .models import argty
        from .interp import strip_refs
        if strip_refs(argty(c, 0)) in TEXTTY:
            v = text_cat(val(c, a[0]), val(c, a[1]))
            if ret:
                return v
            put(c, a[0], v)
            return UNIT
        return g(c, a)
    return m


for _k, _r in (("core::ops::arith::Add::add", True), ("core::ops::arith::AddAssign::add_assign", False)):
    M[_k] = on_text(_k, M[_k], _r)
