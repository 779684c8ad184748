"""Transfer functions for the library calls the crate makes.

Every model states what the call does to the abstract state; anything without a
model is an uninterpreted call (same arguments => same value; `&mut` arguments get
fresh contents), which loses precision but never invents a fact.
"""
from .terms import *
from .interp import (push, store, EMPTY, cat, comp, t_sum, is_numeric, norm_path, strip_refs,
                     trip_count, mk_comp, map_get, map_set, idiv, close_over, Ctx, is_boolish, splice)
import re

M = {}

def model(*paths):
    def d(f):
        for p in paths:
            M[p] = f
        return f
    return d

# ---------------------------------------------------------------- helpers
def val(c, v):
    """value behind a &mut argument (shared references are transparent)"""
    if v.op == "ref":
        return c.I.read_ref(c.st, v)
    if v.op == "ite" and any(l.op == "ref" for l in leaves(v)):
        return c.I.read_ref(c.st, v)
    return c.I.read_ref(c.st, v) if ("obj", v) in c.st else v

def put(c, r, v):
    c.I.write_ref(c.st, r, (), v, c)

def narrow(c, v):
    return assume(v, c.g) if v.op == "ite" else v

def call(c, f, *args):
    return c.I.apply(c, f, list(args))

def argty(c, i):
    return c.argtys[i] if c.argtys and i < len(c.argtys) and c.argtys[i] else ""

# ---------------------------------------------------------------- identities
for _p in """core::ops::deref::Deref::deref core::ops::deref::DerefMut::deref_mut core::clone::Clone::clone
 core::borrow::Borrow::borrow core::borrow::BorrowMut::borrow_mut core::convert::AsRef::as_ref core::convert::AsMut::as_mut
 alloc::borrow::ToOwned::to_owned core::option::Option::cloned core::option::Option::copied
 noisy_float::types::n64 noisy_float::types::r64 noisy_float::NoisyFloat::new noisy_float::NoisyFloat::raw
 noisy_float::types::NoisyFloat::raw alloc::boxed::Box::new alloc::vec::Vec::as_slice alloc::vec::Vec::as_mut_slice
 alloc::vec::Vec::into_boxed_slice alloc::slice::{[T]}::to_vec alloc::slice::{[T]}::into_vec alloc::string::String::as_str
 alloc::string::String::as_bytes core::str::{str}::as_bytes std::path::PathBuf::as_path std::path::Path::to_path_buf
 alloc::string::String::into_bytes alloc::string::String::into_boxed_str
 alloc::sync::Arc::new alloc::rc::Rc::new core::hint::must_use core::hint::black_box core::convert::identity
 core::slice::{[T]}::as_slice core::iter::traits::iterator::Iterator::by_ref core::pin::Pin::new
 core::iter::traits::iterator::Iterator::copied core::iter::traits::iterator::Iterator::cloned
 rayon::iter::ParallelIterator::copied rayon::iter::ParallelIterator::cloned
 rayon::iter::IndexedParallelIterator::with_max_len rayon::iter::IndexedParallelIterator::with_min_len
 core::iter::traits::iterator::Iterator::peekable core::iter::traits::iterator::Iterator::fuse
 alloc::boxed::box_assume_init_into_vec_unsafe core::mem::drop_guard alloc::string::ToString::to_string
 core::str::traits::FromStr::from_str_id alloc::string::String::from core::any::type_name_of
 core::slice::{[T]}::as_ptr core::slice::{[T]}::as_mut_ptr alloc::vec::Vec::as_ptr alloc::vec::Vec::as_mut_ptr
 core::str::{str}::as_ptr std::ffi::os_str::OsStr::to_os_string""".split():
    M[_p] = lambda c, a: a[0]

@model("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::slice::{[T]}::to_vec")
def m_clone(c, a):
    return val(c, a[0])

@model("alloc::string::ToString::to_string")
def m_tostring(c, a):
    ty = strip_refs(argty(c, 0))
    if ty in ("str", "alloc::string::String", "String"):
        return a[0]
    return mk("call", "to_string", val(c, a[0]))

@model("core::convert::Into::into", "core::convert::From::from")
def m_into(c, a):
    src, dst = argty(c, 0), c.destty or ""
    if is_numeric(src) and is_numeric(dst):
        return a[0]
    if src == "bool" and is_numeric(dst):
        return ite(as_bool(a[0]), cint(1), ZERO)
    s, d = strip_refs(src), dst
    if s == d or s in ("str",) and ("String" in d or "Vec<u8>" in d or "Path" in d or "Box<str>" in d or "OsStr" in d):
        return a[0]
    if d.startswith("alloc::boxed::Box") or d.startswith("alloc::vec::Vec") or "core::option::Option" in d and False:
        return a[0]
    if s in ("std::path::Path", "std::path::PathBuf", "std::ffi::OsStr", "std::ffi::os_str::OsStr") and ("Path" in d or "OsStr" in d):
        return a[0]
    if s.startswith("alloc::string::String") and ("Path" in d or "OsStr" in d or "Vec<u8>" in d):
        return a[0]
    # conversion defined by the crate: From impls
    b = c.I.F.impls.get("core::convert::From::from", [])
    for x in b:
        if x["locals"][0] == d and x["locals"][1] == src:
            return c.I.call_fn(_as(c, x), a)
    return mk("call", "into<%s>" % d, c.I.deep(c.st, a[0]))

def _as(c, body):
    c2 = c.I.sub_ctx(c, c.g, c.st)
    c2.fn = {"path": body["name"], "args": [], "kind": "AssocFn", "res": {"k": "item", "id": body["id"], "path": body["name"], "args": []}}
    c2.path = norm_path(body["name"])
    return c2

def split_types(s):
    """parts of a list of types"""
    out, depth, cur = [], 0, ""
    for ch in s:
        depth += ch in "<([" 
        depth -= ch in ">)]"
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])

@model("core::default::Default::default")
def m_default(c, a):
    return default_of(c.destty or "")

def default_of(d):
    if d.startswith("(") and d.endswith(")"):
        return tup(*[default_of(x) for x in split_types(d[1:-1])])
    if is_numeric(d):
        return ZERO
    if d == "bool":
        return FALSE
    if d.startswith("alloc::vec::Vec") or d.startswith("alloc::string::String"):
        return EMPTY if "Vec" in d else const("str", "")
    if d.startswith("core::option::Option"):
        return NONE
    if d.startswith("alloc::collections::btree::map") or "HashMap" in d or "HashSet" in d:
        return mk("emptymap")
    return mk("call", "default<%s>" % d)

# ---------------------------------------------------------------- mem / boxes
@model("core::mem::take")
def m_take(c, a):
    v = val(c, a[0])
    put(c, a[0], m_default(c, []))
    return v

@model("core::mem::replace", "core::cell::RefCell::replace", "core::cell::Cell::replace")
def m_replace(c, a):
    r = cellref(c, a[0]) if "cell" in c.path else a[0]
    v = val(c, r)
    put(c, r, a[1])
    return v

@model("core::mem::swap")
def m_swap(c, a):
    x, y = val(c, a[0]), val(c, a[1])
    put(c, a[0], y)
    put(c, a[1], x)
    return UNIT

@model("core::mem::drop")
def m_drop(c, a):
    c.I.event(c, "drop", argty(c, 0), (a[0],))
    return UNIT

@model("core::mem::forget")
def m_forget(c, a):
    c.I.event(c, "forget", argty(c, 0), (a[0],))
    return UNIT

@model("alloc::boxed::Box::new_uninit")
def m_uninit(c, a):
    return UNINIT

@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_assume(c, a):
    v = val(c, a[0])
    def f(x):
        for _ in range(3):
            if x.op == "with" and x.a[1] == "value":
                x = x.a[2]
            elif x.op == "agg" and len(x.a[3]) == 1 and x.a[0] not in ("array",):
                x = x.a[3][0]
        if x.op == "agg" and x.a[0] == "array":
            return agg("vec", None, (), x.a[3])
        return x
    return lift(v, f)

# ---------------------------------------------------------------- locks and cells
def lockname(c, v):
    v = val(c, v) if v.op == "ref" and False else v
    return v

def cellref(c, v):
    """reference to the contents of an interior-mutable cell"""
    def f(x):
        if x.op == "ref":
            inner = c.I.read_ref(c.st, x)
            # cell owned by a local: its contents are the value stored there
            if inner.op == "newcell":
                return x
            x = inner
        if x.op == "newcell":
            x = x.a[0]
            return x
        return mk("ref", ("obj", mk("cont", x)), ())
    return lift(v, f)

@model("lock_api::rwlock::RwLock::new", "lock_api::mutex::Mutex::new", "core::cell::RefCell::new", "core::cell::Cell::new",
       "std::sync::mutex::Mutex::new", "std::sync::poison::mutex::Mutex::new")
def m_newcell(c, a):
    return agg("cell", None, ("content",), (a[0],))

def locked(c, v):
    def f(x):
        if x.op == "ref":
            inner = c.I.read_ref(c.st, x)
            if inner.op == "agg" and inner.a[0] == "cell":
                return mk("ref", x.a[0], tuple(x.a[1]) + (("f", "content"),))
            x = inner
        if x.op == "agg" and x.a[0] == "cell":
            # a cell created here and shared by reference: find the location that holds it
            for loc, w in c.st.items():
                if w is x:
                    return mk("ref", loc, (("f", "content"),))
            return x.a[3][0]
        if x.op == "with" or x.op == "ite":
            pass
        return mk("ref", ("obj", mk("cont", x)), ())
    return lift(v, f)

@model("lock_api::rwlock::RwLock::write", "lock_api::rwlock::RwLock::read", "lock_api::mutex::Mutex::lock",
       "core::cell::RefCell::borrow", "core::cell::RefCell::borrow_mut", "lock_api::rwlock::RwLock::get_mut", "core::cell::RefCell::get_mut",
       "lock_api::rwlock::RwLock::data_ptr", "lock_api::mutex::Mutex::get_mut")
def m_lock(c, a):
    kind = c.path.rsplit("::", 1)[1]
    c.I.event(c, "lock", kind, (a[0],))
    r = locked(c, a[0])
    if kind in ("read", "borrow"):
        return c.I.read_ref(c.st, r)
    return r

@model("lock_api::rwlock::RwLock::into_inner", "lock_api::mutex::Mutex::into_inner", "core::cell::RefCell::into_inner")
def m_into_inner(c, a):
    r = locked(c, a[0])
    return c.I.read_ref(c.st, r)

@model("std::thread::local::LocalKey::with")
def m_with(c, a):
    k = a[0]
    return call(c, a[1], k)

@model("core::ptr::mut_ptr::{*mut T}::add", "core::ptr::const_ptr::{*const T}::add")
def m_ptradd(c, a):
    p = a[0]
    if a[1] is ZERO:
        return p
    return mk("call", "core::ptr::add", p, a[1])

@model("core::ptr::mut_ptr::{*mut T}::is_null", "core::ptr::const_ptr::{*const T}::is_null")
def m_isnull(c, a):
    return b_atom(mk("call", "core::ptr::is_null", a[0]))

@model("core::ptr::mut_ptr::{*mut T}::as_ref", "core::ptr::const_ptr::{*const T}::as_ref", "core::ptr::mut_ptr::{*mut T}::as_mut")
def m_ptrasref(c, a):
    return ite(b_atom(mk("call", "core::ptr::is_null", a[0])), NONE, some(a[0]))

@model("core::ptr::mut_ptr::{*mut T}::write", "core::ptr::write")
def m_ptrwrite(c, a):
    c.I.write_ref(c.st, a[0], (), a[1], c)
    return UNIT

M["core::ptr::mut_ptr::{*mut T}::cast"] = M["core::ptr::const_ptr::{*const T}::cast"] = lambda c, a: a[0]
M["core::ptr::mut_ptr::{*mut T}::cast_const"] = M["core::ptr::const_ptr::{*const T}::cast_mut"] = lambda c, a: a[0]

@model("std::panic::catch_unwind")
def m_catch(c, a):
    c.I.event(c, "catch_unwind", "catch_unwind", ())
    r = call(c, a[0])
    c.I.event(c, "catch_end", "catch_end", ())
    e = mk("call", "catch_unwind", a[0])
    bad = b_atom(mk("is", e, "Err"))
    if r is None:
        return err(payload(e, "Err"))
    return ite(bad, err(mk("fld", mk("as", e, "Err"), "0")), ok(r))

M["std::panicking::catch_unwind"] = m_catch
M["core::panic::unwind_safe::AssertUnwindSafe"] = lambda c, a: a[0]

# ---------------------------------------------------------------- arithmetic and comparison
def arith(f):
    def m(c, a):
        return f(val(c, a[0]), val(c, a[1]))
    return m

M["core::ops::arith::Add::add"] = arith(add)
M["core::ops::arith::Sub::sub"] = arith(sub)
M["core::ops::arith::Mul::mul"] = arith(mul)
M["core::ops::arith::Div::div"] = arith(div)
M["core::ops::arith::Neg::neg"] = lambda c, a: neg(val(c, a[0]))
M["core::ops::bit::Not::not"] = lambda c, a: b_not(as_bool(val(c, a[0])))

def assign(f):
    def m(c, a):
        put(c, a[0], f(val(c, a[0]), val(c, a[1])))
        return UNIT
    return m

M["core::ops::arith::AddAssign::add_assign"] = assign(add)
M["core::ops::arith::SubAssign::sub_assign"] = assign(sub)
M["core::ops::arith::MulAssign::mul_assign"] = assign(mul)
M["core::ops::arith::DivAssign::div_assign"] = assign(div)

for _p in ("num_traits::float::Float::abs", "core::f64::{f64}::abs", "core::num::{i32}::abs", "std::f64::{f64}::abs", "num_traits::sign::Signed::abs"):
    M[_p] = lambda c, a: absv(val(c, a[0]))
for _p in ("num_traits::float::Float::sqrt", "std::f64::{f64}::sqrt", "core::f64::{f64}::sqrt"):
    M[_p] = lambda c, a: sqrt(val(c, a[0]))

def sqrt(x):
    if is_num(x) and x.a[1] in (0, 1):
        return x
    return mk("sqrt", x)

@model("num_traits::float::Float::max_value", "num_traits::bounds::Bounded::max_value")
def m_maxval(c, a):
    if c.destty and ("f64" in c.destty):
        return cint(2 ** 1024 - 2 ** 971)
    return NotImplemented

@model("core::cmp::min", "core::cmp::Ord::min", "num_traits::float::Float::min", "noisy_float::NoisyFloat::min", "core::f64::{f64}::min")
def m_min(c, a):
    x, y = val(c, a[0]), val(c, a[1])
    return ite(cmp_lt(y, x), y, x)

@model("core::cmp::max", "core::cmp::Ord::max", "num_traits::float::Float::max", "noisy_float::NoisyFloat::max", "core::f64::{f64}::max")
def m_max(c, a):
    x, y = val(c, a[0]), val(c, a[1])
    return ite(cmp_lt(x, y), y, x)

@model("core::num::{usize}::saturating_sub")
def m_satsub(c, a):
    return ite(cmp_lt(a[0], a[1]), ZERO, sub(a[0], a[1]))

NUMISH = ("bool",)

def is_log(c):
    t = argty(c, 0)
    return "log::" in t and ("Level" in t)

def cmpop(fn):
    def m(c, a):
        if is_log(c):
            return TRUE if c.I.logs else FALSE
        x, y = val(c, a[0]), val(c, a[1])
        return fn(x, y)
    return m

M["core::cmp::PartialOrd::lt"] = cmpop(cmp_lt)
M["core::cmp::PartialOrd::le"] = cmpop(cmp_le)
M["core::cmp::PartialOrd::gt"] = cmpop(lambda x, y: cmp_lt(y, x))
M["core::cmp::PartialOrd::ge"] = cmpop(lambda x, y: cmp_le(y, x))

def eqv(c, a):
    if is_log(c):
        return FALSE
    x, y = val(c, a[0]), val(c, a[1])
    t = strip_refs(argty(c, 0))
    if is_numeric(t):
        return cmp_eq(x, y)
    if t == "bool":
        return ite(as_bool(x), as_bool(y), b_not(as_bool(y)))
    return gen_eq(x, y)

M["core::cmp::PartialEq::eq"] = eqv
M["core::cmp::PartialEq::ne"] = lambda c, a: b_not(eqv(c, a))

def ordering(x, y):
    return ite(cmp_lt(x, y), agg(ORD, "Less", (), ()), ite(cmp_eq(x, y), agg(ORD, "Equal", (), ()), agg(ORD, "Greater", (), ())))

@model("core::cmp::Ord::cmp", "core::f64::{f64}::total_cmp")
def m_cmp(c, a):
    return ordering(val(c, a[0]), val(c, a[1]))

@model("core::cmp::PartialOrd::partial_cmp")
def m_pcmp(c, a):
    return some(ordering(val(c, a[0]), val(c, a[1])))

@model("core::cmp::Ordering::reverse")
def m_rev_ord(c, a):
    def f(x):
        if x.op == "agg":
            return agg(ORD, {"Less": "Greater", "Greater": "Less"}.get(x.a[1], x.a[1]), (), ())
        return mk("call", "reverse", x)
    return lift(a[0], f)

@model("core::cmp::Ordering::then", )
def m_then(c, a):
    return ite(is_variant(a[0], ORD, "Equal"), a[1], a[0])

# ---------------------------------------------------------------- Option / Result
def opt_some(v):
    return is_variant(v, OPT, "Some")

def pay(v, k):
    return payload(v, k)

@model("core::ops::try_trait::Try::branch")
def m_branch(c, a):
    v = narrow(c, a[0])
    t = argty(c, 0)
    if "core::option::Option" in t.split("<")[0]:
        s = opt_some(v)
        return ite(s, agg(CF, "Continue", ("0",), (pay(v, "Some"),)), agg(CF, "Break", ("0",), (NONE,)))
    s = is_variant(v, RES, "Ok")
    return ite(s, agg(CF, "Continue", ("0",), (pay(v, "Ok"),)), agg(CF, "Break", ("0",), (err(pay(v, "Err")),)))

@model("core::ops::try_trait::FromResidual::from_residual")
def m_residual(c, a):
    v = narrow(c, a[0])
    d = c.destty or ""
    if "core::option::Option" in d.split("<")[0]:
        return NONE
    e = pay(v, "Err")
    # error conversion by From
    s = argty(c, 0)
    se = last_arg(s)
    de = last_arg(d)
    if se and de and se != de:
        for x in c.I.F.impls.get("core::convert::From::from", []):
            if x["locals"][0] == de and x["locals"][1] == se:
                r = c.I.call_body(x, [e], c.st, c.g, c)
                return err(r) if r is not None else None
        return err(mk("call", "into<%s>" % de, e))
    return err(e)

def targs(ty):
    """top-level generic arguments of a type name"""
    i = ty.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in ty[i + 1:]:
        if ch in "<([{":
            d += 1
        elif ch in ")]}" or ch == ">" and not cur.endswith("-"):
            if ch == ">" and d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return [x for x in out if not x.startswith("'")]

def last_arg(ty):
    a = targs(ty)
    return a[-1] if a else None

@model("core::option::Option::is_some")
def _(c, a):
    return opt_some(val(c, a[0]))

@model("core::option::Option::is_none")
def _(c, a):
    return b_not(opt_some(val(c, a[0])))

@model("core::result::Result::is_ok")
def _(c, a):
    return is_variant(val(c, a[0]), RES, "Ok")

@model("core::result::Result::is_err")
def _(c, a):
    return b_not(is_variant(val(c, a[0]), RES, "Ok"))

@model("core::option::Option::unwrap", "core::option::Option::expect", "core::option::Option::unwrap_unchecked")
def m_unwrap(c, a):
    v = narrow(c, a[0])
    bad = b_not(opt_some(v))
    if b_and(bad, c.g) is not FALSE:
        c.I.event(c, "panic", "unwrap", (v,), cond=bad)
    if b_and(c.g, opt_some(v)) is FALSE:
        return None
    return pay(v, "Some")

@model("core::result::Result::unwrap", "core::result::Result::expect")
def m_runwrap(c, a):
    v = narrow(c, a[0])
    good = is_variant(v, RES, "Ok")
    if b_and(b_not(good), c.g) is not FALSE:
        c.I.event(c, "panic", "unwrap", (v,), cond=b_not(good))
    if b_and(c.g, good) is FALSE:
        return None
    return pay(v, "Ok")

@model("core::result::Result::unwrap_err")
def m_runwrap_err(c, a):
    return pay(a[0], "Err")

@model("core::option::Option::unwrap_or", "core::result::Result::unwrap_or")
def m_unwrap_or(c, a):
    v, k = a[0], ("Some" if "option" in c.path else "Ok")
    return ite(is_variant(v, OPT if k == "Some" else RES, k), pay(v, k), a[1])

@model("core::option::Option::unwrap_or_default", "core::result::Result::unwrap_or_default")
def m_unwrap_or_d(c, a):
    v, k = a[0], ("Some" if "option" in c.path else "Ok")
    return ite(is_variant(v, OPT if k == "Some" else RES, k), pay(v, k), m_default(c, []))

@model("core::option::Option::unwrap_or_else")
def m_unwrap_or_else(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, opt_some(v), lambda k: pay(v, "Some"), lambda k: call(k, a[1]))

@model("core::result::Result::unwrap_or_else")
def m_runwrap_or_else(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, is_variant(v, RES, "Ok"), lambda k: pay(v, "Ok"), lambda k: call(k, a[1], pay(v, "Err")))

def nn(f):
    """None-propagating constructor"""
    def g(*a):
        return None if a[0] is None else f(*a)
    return g

@model("core::option::Option::map")
def m_omap(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, opt_some(v), lambda k: nn(some)(call(k, a[1], pay(v, "Some"))), lambda k: NONE)

@model("core::option::Option::and_then")
def m_oand(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, opt_some(v), lambda k: call(k, a[1], pay(v, "Some")), lambda k: NONE)

@model("core::option::Option::filter")
def m_ofilter(c, a):
    v = narrow(c, a[0])
    def f(k):
        r = call(k, a[1], pay(v, "Some"))
        return ite(as_bool(r), some(pay(v, "Some")), NONE)
    return c.I.branch(c, opt_some(v), f, lambda k: NONE)

@model("core::option::Option::map_or")
def m_omap_or(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, opt_some(v), lambda k: call(k, a[2], pay(v, "Some")), lambda k: a[1])

@model("core::option::Option::map_or_else")
def m_omap_or_else(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, opt_some(v), lambda k: call(k, a[2], pay(v, "Some")), lambda k: call(k, a[1]))

@model("core::option::Option::is_some_and")
def m_issomeand(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, opt_some(v), lambda k: call(k, a[1], pay(v, "Some")), lambda k: FALSE)

@model("core::option::Option::is_none_or")
def m_isnoneor(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, opt_some(v), lambda k: call(k, a[1], pay(v, "Some")), lambda k: TRUE)

@model("core::option::Option::or", )
def m_or(c, a):
    return ite(opt_some(a[0]), a[0], a[1])

@model("core::option::Option::or_else")
def m_or_else(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, opt_some(v), lambda k: v, lambda k: call(k, a[1]))

@model("core::option::Option::ok_or")
def m_ok_or(c, a):
    v = a[0]
    return ite(opt_some(v), ok(pay(v, "Some")), err(a[1]))

@model("core::option::Option::ok_or_else")
def m_ok_or_else(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, opt_some(v), lambda k: ok(pay(v, "Some")), lambda k: nn(err)(call(k, a[1])))

@model("core::option::Option::take")
def m_otake(c, a):
    v = val(c, a[0])
    put(c, a[0], NONE)
    return v

@model("core::option::Option::replace")
def m_oreplace(c, a):
    v = val(c, a[0])
    put(c, a[0], some(a[1]))
    return v

@model("core::option::Option::insert")
def m_oinsert(c, a):
    put(c, a[0], some(a[1]))
    return as_mut_of(c, a[0], "Some")

def as_mut_of(c, r, k):
    def f(x):
        if x.op == "ref":
            return mk("ref", x.a[0], tuple(x.a[1]) + (("v", k), ("f", "0")))
        return mk("ref", ("obj", x), (("v", k), ("f", "0")))
    return lift(r, f)

@model("core::option::Option::as_mut", "core::option::Option::as_deref_mut")
def m_as_mut(c, a):
    v = val(c, a[0])
    return ite(opt_some(v), some(as_mut_of(c, a[0], "Some")), NONE)

@model("core::option::Option::get_or_insert_with")
def m_get_or_insert(c, a):
    v = val(c, a[0])
    def e(k):
        r = call(k, a[1])
        if r is None:
            return None
        put(k, a[0], some(r))
        return UNIT
    r = c.I.branch(c, opt_some(v), lambda k: UNIT, e)
    return None if r is None else as_mut_of(c, a[0], "Some")

@model("core::option::Option::as_ref", "core::option::Option::as_deref", "core::result::Result::as_ref")
def m_oas_ref(c, a):
    return val(c, a[0])

@model("core::convert::AsRef::as_ref", "core::ops::deref::Deref::deref")
def m_deref(c, a):
    t = argty(c, 0)
    if "LazyLock" in t or "OnceCell" in t or "OnceLock" in t:
        return mk("call", "lazy", a[0])
    v = val(c, a[0])
    if v.op == "ref" and any(g in strip_refs(t).split("<")[0] + "<" for g in GUARDS):
        return val(c, v)
    return v

GUARDS = ("RwLockWriteGuard", "RwLockReadGuard", "MutexGuard", "cell::RefMut", "cell::Ref<", "MappedRwLock")

@model("core::ops::deref::DerefMut::deref_mut")
def m_deref_mut(c, a):
    t = argty(c, 0)
    if any(g in strip_refs(t).split("<")[0] + "<" for g in GUARDS):
        return lift(a[0], lambda x: c.I.read_ref(c.st, x) if x.op == "ref" else x)
    return a[0]

@model("core::result::Result::ok")
def m_rok(c, a):
    return ite(is_variant(a[0], RES, "Ok"), some(pay(a[0], "Ok")), NONE)

@model("core::result::Result::err")
def m_rerr(c, a):
    return ite(is_variant(a[0], RES, "Ok"), NONE, some(pay(a[0], "Err")))

def res_ok(v):
    return is_variant(v, RES, "Ok")

@model("core::result::Result::map")
def m_rmap(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, res_ok(v), lambda k: nn(ok)(call(k, a[1], pay(v, "Ok"))), lambda k: err(pay(v, "Err")))

@model("core::result::Result::map_err", )
def m_rmap_err(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, res_ok(v), lambda k: ok(pay(v, "Ok")), lambda k: nn(err)(call(k, a[1], pay(v, "Err"))))

@model("core::result::Result::and_then")
def m_rand(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, res_ok(v), lambda k: call(k, a[1], pay(v, "Ok")), lambda k: err(pay(v, "Err")))

@model("core::result::Result::or_else")
def m_ror(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, res_ok(v), lambda k: ok(pay(v, "Ok")), lambda k: call(k, a[1], pay(v, "Err")))

@model("anyhow::__private::not")
def m_anyhow_not(c, a):
    return b_not(as_bool(a[0]))

@model("core::result::Result::is_ok_and")
def m_isokand(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, res_ok(v), lambda k: call(k, a[1], pay(v, "Ok")), lambda k: FALSE)

@model("core::result::Result::is_err_and")
def m_iserrand(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, res_ok(v), lambda k: FALSE, lambda k: call(k, a[1], pay(v, "Err")))

@model("core::result::Result::map_or")
def m_rmap_or(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, res_ok(v), lambda k: call(k, a[2], pay(v, "Ok")), lambda k: a[1])

@model("core::result::Result::map_or_else")
def m_rmap_or_else(c, a):
    v = narrow(c, a[0])
    return c.I.branch(c, res_ok(v), lambda k: call(k, a[2], pay(v, "Ok")), lambda k: call(k, a[1], pay(v, "Err")))

@model("anyhow::Context::with_context", "anyhow::Context::context")
def m_context(c, a):
    v = narrow(c, a[0])
    if "option" in argty(c, 0).split("<")[0]:
        return ite(opt_some(v), ok(pay(v, "Some")), err(mk("call", "context", NONE)))
    return c.I.branch(c, res_ok(v), lambda k: ok(pay(v, "Ok")), lambda k: err(mk("call", "context", pay(v, "Err"))))

@model("core::result::Result::transpose", "core::option::Option::transpose")
def m_transpose(c, a):
    v = narrow(c, a[0])
    if "option" in c.path:
        p = pay(v, "Some")
        return ite(opt_some(v), ite(res_ok(p), ok(some(pay(p, "Ok"))), err(pay(p, "Err"))), ok(NONE))
    p = pay(v, "Ok")
    return ite(res_ok(v), ite(opt_some(p), some(ok(pay(p, "Some"))), NONE), some(err(pay(v, "Err"))))

# ---------------------------------------------------------------- closures
@model("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
def m_call(c, a):
    t = a[1]
    if t.op == "agg" and t.a[0] == "tuple":
        args = list(t.a[3])
    else:
        n = len(targs("X" + argty(c, 1).replace("(", "<").replace(")", ">"))) if argty(c, 1).startswith("(") else 1
        args = [field(t, i) for i in range(n)]
    return c.I.apply(c, a[0], args)

# ---------------------------------------------------------------- sequences
@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "alloc::string::String::with_capacity", "alloc::collections::vec_deque::VecDeque::new",
       "alloc::collections::vec_deque::VecDeque::with_capacity")
def m_vnew(c, a):
    return EMPTY

@model("alloc::string::String::new")
def m_snew(c, a):
    return const("str", "")

@model("alloc::vec::from_elem")
def m_from_elem(c, a):
    return mk_comp(a[1], a[0], TRUE, "seq", mk("bv", 1 + bvd(a[0])))

def bvd(t):
    from .interp import bvdepth
    return bvdepth(t)

@model("alloc::vec::Vec::len", "core::slice::{[T]}::len", "core::str::{str}::len", "alloc::string::String::len",
       "core::iter::traits::exact_size::ExactSizeIterator::len", "alloc::collections::vec_deque::VecDeque::len",
       "std::collections::hash::map::HashMap::len", "alloc::collections::btree::map::BTreeMap::len")
def m_len(c, a):
    v = val(c, a[0])
    if v.op == "it":
        return sub(S.size(c, v.a[0]), v.a[1])
    return length(v)

@model("alloc::vec::Vec::is_empty", "core::slice::{[T]}::is_empty", "core::str::{str}::is_empty", "alloc::string::String::is_empty",
       "alloc::collections::vec_deque::VecDeque::is_empty", "std::collections::hash::map::HashMap::is_empty",
       "alloc::collections::btree::map::BTreeMap::is_empty")
def m_is_empty(c, a):
    return cmp_eq(length(val(c, a[0])), ZERO)

@model("alloc::vec::Vec::push", "alloc::collections::vec_deque::VecDeque::push_back")
def m_push(c, a):
    v = val(c, a[0])
    put(c, a[0], push(v, a[1]))
    return UNIT

@model("alloc::vec::Vec::clear", "alloc::string::String::clear")
def m_clear(c, a):
    put(c, a[0], EMPTY if "vec" in c.path else const("str", ""))
    return UNIT

@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def m_index(c, a):
    base, ix = a[0], a[1]
    t = argty(c, 1)
    mut = c.path.endswith("index_mut")
    if "range::Range" in t or ix.op == "agg" and "range::Range" in ix.a[0]:
        v = val(c, base)
        lo, hi = range_bounds(ix, t, length(v))
        c.I.event(c, "slice", "slice", (v, lo, hi))
        if mut and base.op == "ref":
            return mk("ref", base.a[0], tuple(base.a[1]) + (("ss", lo, hi),))
        return subslice(v, lo, hi)
    ta = strip_refs(argty(c, 0))
    if "HashMap" in ta or "BTreeMap" in ta:
        return mk("call", "map_index", val(c, base), ix)
    if mut and base.op == "ref":
        c.I.event(c, "index", "index", (val(c, base), ix))
        return mk("ref", base.a[0], tuple(base.a[1]) + (("i", ix),))
    v = val(c, base)
    c.I.event(c, "index", "index", (v, ix))
    return index(v, ix)

def range_bounds(ix, t, n):
    t = t + (ix.a[0] if ix.op == "agg" else "")
    if "RangeFull" in t:
        return ZERO, n
    if "RangeToInclusive" in t:
        return ZERO, add(field(ix, "end"), ONE)
    if "RangeTo" in t:
        return ZERO, field(ix, "end")
    if "RangeFrom" in t:
        return field(ix, "start"), n
    if "RangeInclusive" in t:
        return field(ix, "start"), add(field(ix, "end"), ONE)
    return field(ix, "start"), field(ix, "end")

@model("core::ops::range::RangeInclusive::new")
def m_rincl(c, a):
    return agg("core::ops::range::RangeInclusive", None, ("start", "end"), (a[0], a[1]))

def elem_ref(c, base, i):
    def f(x):
        if x.op == "ref":
            return mk("ref", x.a[0], tuple(x.a[1]) + (("i", i),))
        return mk("ref", ("obj", x), (("i", i),))
    return lift(base, f)

def opt_elem(c, v, i, mutbase=None):
    n = length(v)
    e = index(v, i) if mutbase is None else elem_ref(c, mutbase, i)
    return ite(b_and(cmp_lt(i, n), cmp_le(ZERO, i)) if not is_num(i) or i.a[1] < 0 else nonneg_lt(i, n), some(e), NONE)

def nonneg_lt(i, n):
    # 0 < len is the same as len != 0
    if i is ZERO:
        return b_not(cmp_eq(n, ZERO))
    return cmp_lt(i, n)

@model("core::slice::{[T]}::strip_suffix")
def m_slice_strip_suffix(c, a):
    x, p = val(c, a[0]), val(c, a[1])
    if p.op != "c":
        return NotImplemented
    return ite(as_bool(mk("call", "core::slice::{[T]}::ends_with", x, p)), some(subslice(x, ZERO, sub(length(x), length(p)))), NONE)


@model("core::slice::{[T]}::first", "core::slice::{[T]}::first_mut", "alloc::collections::vec_deque::VecDeque::front")
def m_first(c, a):
    v = val(c, a[0])
    return ite(nonneg_lt(ZERO, length(v)), some(index(v, ZERO) if not c.path.endswith("_mut") else elem_ref(c, a[0], ZERO)), NONE)

@model("core::slice::{[T]}::last", "core::slice::{[T]}::last_mut")
def m_last(c, a):
    v = val(c, a[0])
    i = sub(length(v), ONE)
    return ite(nonneg_lt(ZERO, length(v)), some(index(v, i) if not c.path.endswith("_mut") else elem_ref(c, a[0], i)), NONE)

@model("core::slice::{[T]}::get", "core::slice::{[T]}::get_mut")
def m_get(c, a):
    v = val(c, a[0])
    if "range::Range" in argty(c, 1):
        lo, hi = range_bounds(a[1], argty(c, 1), length(v))
        return ite(b_and(cmp_le(lo, hi), cmp_le(hi, length(v))), some(subslice(v, lo, hi)), NONE)
    return ite(nonneg_lt(a[1], length(v)), some(index(v, a[1]) if not c.path.endswith("_mut") else elem_ref(c, a[0], a[1])), NONE)

@model("core::slice::{[T]}::split_first", "core::slice::{[T]}::split_first_mut", "core::slice::{[T]}::split_last", "core::slice::{[T]}::split_last_mut")
def m_split_first(c, a):
    v = val(c, a[0])
    n = length(v)
    lastp = "split_last" in c.path
    i = sub(n, ONE) if lastp else ZERO
    lo, hi = (ZERO, sub(n, ONE)) if lastp else (ONE, n)
    if c.path.endswith("_mut"):
        r = a[0]
        rest = lift(r, lambda x: mk("ref", x.a[0], tuple(x.a[1]) + (("ss", lo, hi),)) if x.op == "ref" else mk("ref", ("obj", x), (("ss", lo, hi),)))
        p = tup(elem_ref(c, r, i), rest)
    else:
        p = tup(index(v, i), subslice(v, lo, hi))
    return ite(nonneg_lt(ZERO, n), some(p), NONE)

@model("core::slice::{[T]}::split_at", "core::str::{str}::split_at", "core::slice::{[T]}::split_at_mut")
def m_split_at(c, a):
    v = val(c, a[0])
    c.I.event(c, "slice", "split_at", (v, ZERO, a[1]))
    if c.path.endswith("_mut"):
        def rr(lo, hi):
            return lift(a[0], lambda x: mk("ref", x.a[0], tuple(x.a[1]) + (("ss", lo, hi),)) if x.op == "ref" else mk("ref", ("obj", x), (("ss", lo, hi),)))
        return tup(rr(ZERO, a[1]), rr(a[1], length(v)))
    return tup(subslice(v, ZERO, a[1]), subslice(v, a[1], length(v)))

@model("core::slice::{[T]}::reverse")
def m_reverse(c, a):
    v = val(c, a[0])
    from .interp import mk_comp, bvdepth
    n = length(v)
    bv = mk("bv", bvdepth(v) + 1)
    put(c, a[0], mk_comp(n, index(v, sub(sub(n, ONE), bv)), TRUE, "seq", bv))
    return UNIT

@model("core::slice::{[T]}::swap")
def m_sswap(c, a):
    v = val(c, a[0])
    x, y = index(v, a[1]), index(v, a[2])
    c.I.event(c, "swap", "swap", (v, a[1], a[2]))
    put(c, a[0], mk("swapped", v, *sorted((a[1], a[2]), key=lambda t: t.id)))
    return UNIT

@model("alloc::vec::Vec::swap_remove", "alloc::vec::Vec::remove")
def m_swap_remove(c, a):
    v = val(c, a[0])
    put(c, a[0], mk("removed", v, a[1], c.path.rsplit("::", 1)[1]))
    return index(v, a[1])

@model("alloc::vec::Vec::pop", "alloc::collections::vec_deque::VecDeque::pop_front", "alloc::string::String::pop")
def m_pop(c, a):
    v = val(c, a[0])
    n = length(v)
    if "pop_front" in c.path:
        put(c, a[0], ite(cmp_eq(n, ZERO), v, subslice(v, ONE, n)))
        return ite(cmp_eq(n, ZERO), NONE, some(index(v, ZERO)))
    if v.op == "push":
        put(c, a[0], v.a[0])
        return some(v.a[1])
    put(c, a[0], ite(cmp_eq(n, ZERO), v, subslice(v, ZERO, sub(n, ONE))))
    return ite(cmp_eq(n, ZERO), NONE, some(index(v, sub(n, ONE))))

def nonneg_length(d):
    """a sum of lengths, or of differences of the rests of one text behind fewer and more entries"""
    if d.op == "len" or is_num(d):
        return d.op == "len" or d.a[1] >= 0
    if d.op != "poly":
        return False
    c, up, down = 0, [], []
    for m, k in d.a[0]:
        if not m:
            c = k
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == "len" and abs(k) == 1:
            (up if k > 0 else down).append(m[0][0].a[0])
        else:
            return False
    for y in down:
        by, ky = (y.a[0], y.a[1]) if y.op == "cur" else (y, ZERO)
        for x in up:
            bx, kx = (x.a[0], x.a[1]) if x.op == "cur" else (x, ZERO)
            n = sub(ky, kx)
            if bx is by and is_num(n) and n.a[1] >= 0:
                c += max(0, 2 * n.a[1] - 1)
                up.remove(x)
                break
        else:
            return False
    return c >= 0

@model("alloc::vec::Vec::truncate")
def m_truncate(c, a):
    v = val(c, a[0])
    n = length(v)
    d = sub(n, a[1])
    short = nonneg_length(d)
    put(c, a[0], subslice(v, ZERO, a[1]) if short else ite(cmp_lt(a[1], n), subslice(v, ZERO, a[1]), v))
    return UNIT

@model("alloc::vec::Vec::append")
def m_append(c, a):
    v, w = val(c, a[0]), val(c, a[1])
    put(c, a[0], cat(v, w))
    put(c, a[1], EMPTY)
    return UNIT

@model("core::slice::{[T]}::copy_from_slice", "core::slice::{[T]}::clone_from_slice")
def m_copyfrom(c, a):
    put(c, a[0], val(c, a[1]))
    return UNIT

@model("core::slice::{[T]}::fill")
def m_fill(c, a):
    v = val(c, a[0])
    put(c, a[0], mk_comp(length(v), a[1], TRUE, "seq", mk("bv", 1 + bvd(a[1]))))
    return UNIT

@model("particle_id::ParticleID::id", "particle_id::ParticleID::new")
def m_pid_id(c, a):
    return val(c, a[0])          # newtype of i32, compared by its number

@model("particle_id::ParticleID::abs")
def m_pid_abs(c, a):
    return absv(val(c, a[0]))

def probe(c, f, *args):
    """value of a pure callable on symbolic arguments (state effects discarded, events kept)"""
    k = c.I.sub_ctx(c, c.g, dict(c.st))
    return c.I.apply(k, f, list(args))

BV = lambda k: mk("sym", k)

@model("core::slice::{[T]}::sort", "core::slice::{[T]}::sort_unstable", "alloc::slice::{[T]}::sort",
       "rayon::slice::ParallelSliceMut::par_sort_unstable", "rayon::slice::ParallelSliceMut::par_sort")
def m_sort(c, a):
    v = val(c, a[0])
    r = mk("sorted", "nat", v)
    c.I.event(c, "sort", "nat", (v,))
    put(c, a[0], r)
    return UNIT

@model("core::slice::{[T]}::sort_unstable_by", "alloc::slice::{[T]}::sort_by", "core::slice::{[T]}::sort_by",
       "rayon::slice::ParallelSliceMut::par_sort_unstable_by", "rayon::slice::ParallelSliceMut::par_sort_by")
def m_sort_by(c, a):
    v = val(c, a[0])
    r = probe(c, a[1], BV("x"), BV("y"))
    less = is_variant(r, ORD, "Less") if r is not None else FALSE
    t = mk("sorted", less, v)
    c.I.event(c, "sort", "by", (v, less, r if r is not None else UNDEF))
    put(c, a[0], t)
    return UNIT

@model("core::slice::{[T]}::sort_unstable_by_key", "alloc::slice::{[T]}::sort_by_key", "core::slice::{[T]}::sort_by_key", "alloc::slice::{[T]}::sort_by_cached_key",
       "rayon::slice::ParallelSliceMut::par_sort_unstable_by_key", "rayon::slice::ParallelSliceMut::par_sort_by_key")
def m_sort_key(c, a):
    v = val(c, a[0])
    x, y = probe(c, a[1], BV("x")), probe(c, a[1], BV("y"))
    less = key_less(x, y) if x is not None else FALSE
    t = mk("sorted", less, v)
    c.I.event(c, "sort", "by", (v, less, UNDEF))
    put(c, a[0], t)
    return UNIT

def key_less(x, y):
    if x.op == "agg" and x.a[0] == "core::cmp::Reverse":
        return key_less(y.a[3][0], x.a[3][0])
    if x.op == "agg" and x.a[0] == "tuple":
        r = FALSE
        for p, q in reversed(list(zip(x.a[3], y.a[3]))):
            r = b_or(key_less(p, q), b_and(cmp_eq(p, q), r))
        return r
    return cmp_lt(x, y)

@model("core::slice::{[T]}::binary_search_by")
def m_bsearch(c, a):
    v = val(c, a[0])
    r = probe(c, a[1], BV("x"))
    return mk("call", "binary_search_by", v, r if r is not None else UNDEF)

@model("alloc::vec::Vec::retain", "alloc::collections::btree::map::BTreeMap::retain", "std::collections::hash::map::HashMap::retain")
def m_retain(c, a):
    v = val(c, a[0])
    if "map" in c.path.split("::")[-2].lower():
        r = probe(c, a[1], BV("k"), BV("v"))
    else:
        n = length(v)
        st = S.seq(v)
        out = S.collect_struct(c, mk("st", "filter", st, a[1]))
        if out is None:
            return None
        put(c, a[0], out)
        return UNIT
    t = mk("retained", v, r if r is not None else UNDEF)
    c.I.event(c, "retain", "retain", (v, r if r is not None else UNDEF))
    put(c, a[0], t)
    return UNIT

@model("alloc::vec::Vec::resize_with")
def m_resize(c, a):
    v = val(c, a[0])
    r = probe(c, a[2])
    put(c, a[0], mk("resized", v, a[1], r if r is not None else UNDEF))
    return UNIT

@model("alloc::vec::Vec::resize")
def m_resize_val(c, a):
    put(c, a[0], mk("resized", val(c, a[0]), a[1], a[2]))
    return UNIT

@model("core::slice::{[T]}::contains", "alloc::vec::Vec::contains")
def m_contains(c, a):
    s, x = val(c, a[0]), val(c, a[1])
    if s.op == "c" and s.a[0] in ("bytes", "str"):
        r = FALSE
        for ch in s.a[1]:
            r = b_or(r, cmp_eq(x, cint(ord(ch))))
        return r
    return mk("call", "contains", s, x)

@model(*["core::ops::range::%s::contains" % r for r in ("Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive")])
def m_range_contains(c, a):
    r, x = val(c, a[0]), val(c, a[1])
    if r.op != "agg" or not str(r.a[0]).startswith("core::ops::range::Range"):
        return NotImplemented
    kind, out = r.a[0].split("::")[-1].split("<")[0], TRUE
    if kind in ("Range", "RangeInclusive", "RangeFrom"):
        out = b_and(out, cmp_le(field(r, "start"), x))
    if kind in ("Range", "RangeTo"):
        out = b_and(out, cmp_lt(x, field(r, "end")))
    if kind in ("RangeInclusive", "RangeToInclusive"):
        out = b_and(out, cmp_le(x, field(r, "end")))
    return out

@model("core::array::{[T; N]}::map")
def m_amap(c, a):
    def f(v):
        if v.op == "agg" and v.a[0] == "array":
            out = []
            for x in v.a[3]:
                r = call(c, a[1], x)
                if r is None:
                    return None
                out.append(r)
            return agg("array", None, (), out)
        return S.collect_struct(c, mk("st", "map", S.seq(v), a[1]))
    return f(a[0])

@model("core::array::from_fn", "core::array::{[T; N]}::from_fn")
def m_from_fn(c, a):
    return mk("call", "array_from_fn", probe(c, a[0], BV("i")) or UNDEF)

# ---------------------------------------------------------------- maps (ordered / hashed): kept symbolic
@model("alloc::collections::btree::map::BTreeMap::new", "std::collections::hash::map::HashMap::new", "std::collections::hash::set::HashSet::new",
       "alloc::collections::btree::set::BTreeSet::new", "std::collections::hash::map::HashMap::with_capacity")
def m_mapnew(c, a):
    return mk("emptymap")

@model("alloc::collections::btree::map::BTreeMap::insert", "std::collections::hash::map::HashMap::insert")
def m_minsert(c, a):
    v = val(c, a[0])
    put(c, a[0], map_set(v, a[1], a[2]))
    return map_get(v, a[1])

@model("alloc::collections::btree::map::BTreeMap::get", "std::collections::hash::map::HashMap::get")
def m_mget(c, a):
    return map_get(val(c, a[0]), val(c, a[1]))

@model("alloc::collections::btree::map::BTreeMap::remove", "std::collections::hash::map::HashMap::remove")
def m_mremove(c, a):
    v, k = val(c, a[0]), val(c, a[1])
    put(c, a[0], mk("mremove", v, k))
    return map_get(v, k)

BT = "alloc::collections::btree::map::BTreeMap::"

@model(BT + "keys", BT + "values", BT + "into_keys", BT + "into_values")
def m_keys(c, a):
    m = val(c, a[0])
    bv = mk("bv", 1 + max((t.a[0] for t in subterms(m) if t.op == "bv" and isinstance(t.a[0], int)), default=0))
    return S.it(S.seq(mk("comp", length(m), field(index(m, bv), "0" if "keys" in c.path else "1"), TRUE, "seq", bv)))

def btree_end(c, a, i, pop):
    m = val(c, a[0])
    n = length(m)
    el = index(m, i(n))
    el = tup(field(el, "0"), field(el, "1"))
    if pop:
        put(c, a[0], ite(cmp_eq(n, ZERO), m, mk("mremove", m, el.a[3][0])))
    return ite(cmp_eq(n, ZERO), NONE, some(el))

@model(BT + "first_key_value", BT + "pop_first")
def m_bfirst(c, a):
    return btree_end(c, a, lambda n: ZERO, c.path.endswith("pop_first"))

@model(BT + "last_key_value", BT + "pop_last")
def m_blast(c, a):
    return btree_end(c, a, lambda n: sub(n, ONE), c.path.endswith("pop_last"))

def entry_ref(base, k):
    return lift(base, lambda x: mk("ref", x.a[0], tuple(x.a[1]) + (("m", k),)) if x.op == "ref" else mk("ref", ("obj", x), (("m", k),)))

MAPS = ("alloc::collections::btree::map::BTreeMap", "std::collections::hash::map::HashMap")
SETS = ("alloc::collections::btree::set::BTreeSet", "std::collections::hash::set::HashSet")

@model(*[m + "::entry" for m in MAPS])
def m_entry(c, a):
    return agg("entry", None, ("map", "key"), (a[0], val(c, a[1])))

def or_insert(c, e, f):
    """`entry.or_insert*`: the map holds f() under the key unless it already has one"""
    m, k = field(e, "map"), field(e, "key")
    v = val(c, m)
    def new(q):
        r = f(q)
        if r is None:
            return None
        put(q, m, map_set(v, k, r))
        return UNIT
    r = c.I.branch(c, opt_some(map_get(v, k)), lambda q: UNIT, new)
    return None if r is None else entry_ref(m, k)

ENT = ("alloc::collections::btree::map::entry::Entry", "std::collections::hash::map::Entry", "hashbrown::map::Entry")
for _e in ENT:
    M[_e + "::or_insert_with"] = lambda c, a: or_insert(c, a[0], lambda q: call(q, a[1]))
    M[_e + "::or_insert"] = lambda c, a: or_insert(c, a[0], lambda q: a[1])

@model(*[e + "::or_default" for e in ENT])
def m_or_default(c, a):
    ty = strip_refs(c.destty or "")
    return or_insert(c, a[0], lambda q: default_of(ty))

@model(*[m + "::get_mut" for m in MAPS])
def m_mget_mut(c, a):
    k = val(c, a[1])
    return ite(opt_some(map_get(val(c, a[0]), k)), some(entry_ref(a[0], k)), NONE)

@model(*[m + "::contains_key" for m in MAPS + SETS] + [s + "::contains" for s in SETS])
def m_mhas(c, a):
    return opt_some(map_get(val(c, a[0]), val(c, a[1])))

@model(*[s + "::insert" for s in SETS])
def m_sinsert(c, a):
    v, k = val(c, a[0]), val(c, a[1])
    put(c, a[0], mk("minsert", v, k, UNIT))
    return b_not(opt_some(map_get(v, k)))

# ---------------------------------------------------------------- misc
@model("alloc::fmt::format")
def m_format(c, a):
    return mk("fmt", c.I.deep(c.st, a[0]))

@model("core::fmt::Arguments::new", "core::fmt::Arguments::new_v1", "core::fmt::Arguments::new_v1_formatted")
def m_args(c, a):
    return mk("fmtargs", *[c.I.deep(c.st, x) for x in a])

@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const", "core::fmt::Arguments::from_str_nonconst")
def m_args0(c, a):
    return mk("fmtargs", *a)

def fmtarg(kind):
    return lambda c, a: mk("fmtarg", kind, c.I.deep(c.st, a[0]))

for _k in ("display", "debug", "lower_exp", "upper_exp", "lower_hex"):
    M["core::fmt::rt::Argument::new_" + _k] = fmtarg(_k)

@model("log::max_level")
def m_maxlevel(c, a):
    return mk("item", "log::max_level")

@model("log::__private_api::loc", "log::__private_api::enabled")
def m_log_loc(c, a):
    return UNIT

@model("log::__private_api::log")
def m_log(c, a):
    if c.I.logs:
        c.I.event(c, "log", "log", tuple(c.I.deep(c.st, x) for x in a))
    return UNIT

@model("rayon_core::scope::in_place_scope_fifo", "rayon_core::scope::in_place_scope", "rayon_core::scope::scope", "rayon_core::scope::scope_fifo")
def m_scope(c, a):
    return call(c, a[0], mk("scope"))

@model("rayon_core::scope::ScopeFifo::spawn_fifo", "rayon_core::scope::Scope::spawn")
def m_spawn(c, a):
    c.I.event(c, "spawn", "spawn", (a[1],))
    r = call(c, a[1], a[0])
    return UNIT if r is not None else None

@model("rayon_core::join::join", "rayon_core::join")
def m_join(c, a):
    x = call(c, a[0])
    if x is None:
        return None
    y = call(c, a[1])
    if y is None:
        return None
    return tup(x, y)

@model("core::bool::{bool}::then")
def m_then_(c, a):
    return c.I.branch(c, a[0], lambda k: nn(some)(call(k, a[1])), lambda k: NONE)

@model("core::bool::{bool}::then_some")
def m_then_some(c, a):
    return ite(as_bool(a[0]), some(a[1]), NONE)

from . import streams as S
S.register(M, model)
from . import text
