"""Hash-consed terms with a canonical form.

A term is a value in the abstract domain of the dataflow analysis: a value
number.  Two program expressions that get the same term denote the same value.
Booleans and joins of values are decision diagrams ('ite' nodes over ordered
atoms), so a value merged at a control-flow join has one representation no
matter how the branches were written.  Arithmetic is kept as a polynomial in
normal form.
"""
from fractions import Fraction

class T:
    __slots__ = ("op", "a", "id", "_h")
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return self.id < o.id

_tab = {}
_list = []

def mk(op, *a):
    key = (op, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_list)
        t._h = t.id
        _list.append(t)
        _tab[key] = t
    return t

def reset():
    pass

# ---------------------------------------------------------------- constants
TRUE = mk("c", "bool", True)
FALSE = mk("c", "bool", False)
UNDEF = mk("undef")
UNINIT = mk("uninit")
UNIT = mk("agg", "tuple", None, (), ())

def const(ty, v):
    return mk("c", ty, v)

def cint(v):
    return mk("c", "num", Fraction(v))

ZERO = cint(0)
ONE = cint(1)

def is_num(t):
    return t.op == "c" and t.a[0] == "num"

# ---------------------------------------------------------------- decision diagrams
def is_bool_const(t):
    return t is TRUE or t is FALSE

def atom_group(at):
    """Atoms in one group are mutually exclusive (variants of one value, < / == of one pair)."""
    if at.op in ("is", "sgn", "exit", "isval"):
        return (at.op, at.a[0])
    return None

_kill = {}

def kill_group(t, grp, atom):
    """t with every atom of group grp other than `atom` set to False (memoised)."""
    if t.op != "ite":
        return t
    key = (t, grp, atom)
    r = _kill.get(key)
    if r is None:
        at, hi, lo = t.a
        if at is not atom and atom_group(at) == grp:
            r = kill_group(lo, grp, atom)
        else:
            r = _node(at, kill_group(hi, grp, atom), kill_group(lo, grp, atom))
        _kill[key] = r
    return r

def _node(atom, hi, lo):
    if hi is lo:
        return hi
    if hi is UNDEF:
        return lo
    if lo is UNDEF:
        return hi
    return mk("ite", atom, hi, lo)

def node(atom, hi, lo):
    g = atom_group(atom)
    if g is not None:
        hi = kill_group(hi, g, atom)
    return _node(atom, hi, lo)

def b_atom(atom):
    return node(atom, TRUE, FALSE)

def _cof(t, atom, val):
    if t.op == "ite" and t.a[0] is atom:
        return t.a[1] if val else t.a[2]
    return t

_ite = {}

def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x is UNDEF:
        return y
    if y is UNDEF:
        return x
    if c.op != "ite":
        # a boolean that is not a decision diagram yet: make it an atom
        c = b_atom(mk("b", c))
    if x is TRUE and y is FALSE:
        return c
    key = (c, x, y)
    r = _ite.get(key)
    if r is not None:
        return r
    top = c.a[0]
    if x.op == "ite" and x.a[0].id < top.id:
        top = x.a[0]
    if y.op == "ite" and y.a[0].id < top.id:
        top = y.a[0]
    g = atom_group(top)
    c1, x1, y1 = _cof(c, top, True), _cof(x, top, True), _cof(y, top, True)
    if g is not None:
        c1, x1, y1 = kill_group(c1, g, top), kill_group(x1, g, top), kill_group(y1, g, top)
    c0, x0, y0 = _cof(c, top, False), _cof(x, top, False), _cof(y, top, False)
    r = _node(top, ite(c1, x1, y1), ite(c0, x0, y0))
    _ite[key] = r
    return r

def b_not(a):
    return ite(a, FALSE, TRUE)

def b_and(a, b):
    return ite(a, b, FALSE)

def b_or(a, b):
    return ite(a, TRUE, b)

def implies(a, b):
    return ite(a, b, TRUE) is TRUE

def as_bool(t):
    """a boolean term as a decision diagram"""
    if t.op == "ite" or is_bool_const(t):
        return lift(t, _leafbool)
    return b_atom(mk("b", t))

def _leafbool(l):
    if is_bool_const(l) or l is UNDEF:
        return l
    return b_atom(mk("b", l))

_lift = {}

def lift(t, f, memo=None):
    """apply f to the leaves of a decision diagram"""
    if t.op != "ite":
        return f(t)
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        at, hi, lo = t.a
        h, l = lift(hi, f, memo), lift(lo, f, memo)
        r = ite(b_atom(at), h, l)
        memo[t] = r
    return r

def nleaves(t, cap=64):
    seen, n, st = set(), 0, [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st += [x.a[1], x.a[2]]
        else:
            n += 1
            if n > cap:
                return n
    return n

def leaves(t):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st += [x.a[2], x.a[1]]
        else:
            out.append(x)
    return out

def atoms(t):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x in seen or x.op != "ite":
            continue
        seen.add(x)
        if x.a[0] not in out:
            out.append(x.a[0])
        st += [x.a[2], x.a[1]]
    return out

def cases(t):
    """[(condition, leaf)] of a decision diagram; conditions are decision diagrams and disjoint"""
    out = []
    for l in leaves(t):
        out.append((lift(t, lambda x: TRUE if x is l else FALSE), l))
    return out

_restrict = {}

def restrict(f, c):
    """f simplified under the care set c (Coudert-Madre)"""
    if c is TRUE or f.op != "ite":
        return f
    if c is FALSE:
        return UNDEF
    key = (f, c)
    r = _restrict.get(key)
    if r is not None:
        return r
    top = f.a[0]
    if c.op == "ite" and c.a[0].id < top.id:
        # quantify the care-set atom away
        r = restrict(f, b_or(c.a[1], c.a[2]))
    else:
        c1, c0 = _cof(c, top, True), _cof(c, top, False)
        g = atom_group(top)
        f1, f0 = f.a[1], f.a[2]
        if g is not None:
            c1 = kill_group(c1, g, top)
        if c1 is FALSE:
            r = restrict(f0, c0)
        elif c0 is FALSE:
            r = restrict(f1, c1)
        else:
            r = node(top, restrict(f1, c1), restrict(f0, c0))
    _restrict[key] = r
    return r

def assume(f, cond):
    """f in the states where cond (a decision diagram) holds: drops leaves that cannot occur"""
    r = restrict(f, cond)
    return r

# ---------------------------------------------------------------- polynomials
MAXTERMS = 48

def _poly_parts(t):
    if is_num(t):
        return {(): t.a[1]} if t.a[1] else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {((t, 1),): Fraction(1)}

def _mono_key(m):
    return tuple((x.id, p) for x, p in m)

def _from_parts(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return cint(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=lambda kv: _mono_key(kv[0]))))

def p_add(a, b, s=1):
    d = _poly_parts(a)
    for m, c in _poly_parts(b).items():
        d[m] = d.get(m, 0) + s * c
    return _from_parts(d)

def _mono_mul(m, n):
    d = {}
    for x, p in m + n:
        d[x] = d.get(x, 0) + p
    return tuple(sorted(((x, p) for x, p in d.items() if p), key=lambda q: q[0].id))

def p_mul(a, b):
    A, B = _poly_parts(a), _poly_parts(b)
    if len(A) * len(B) > MAXTERMS:
        return mk("mul", *sorted((a, b), key=lambda t: t.id))
    d = {}
    for m, c in A.items():
        for n, e in B.items():
            k = _mono_mul(m, n)
            d[k] = d.get(k, 0) + c * e
    return _from_parts(d)

def p_inv(a):
    A = _poly_parts(a)
    if len(A) == 1:
        (m, c), = A.items()
        return _from_parts({tuple((x, -p) for x, p in m): 1 / c})
    # normalise the sign/scale of the sum, keep it as one factor
    s, n = normalise(a)
    return _from_parts({((n, -1),): 1 / s}) if n.op != "c" else mk("op", "inv", a)

def normalise(a):
    """a = s * n with n's leading coefficient 1"""
    A = _poly_parts(a)
    if not A:
        return Fraction(1), ZERO
    lead = min(A, key=lambda m: (m == (), _mono_key(m)))
    s = A[lead]
    return s, _from_parts({m: c / s for m, c in A.items()})

def lift2(f, a, b, cap=12):
    if a.op == "ite" or b.op == "ite":
        if nleaves(a, cap) * nleaves(b, cap) <= cap:
            return lift(a, lambda x: lift(b, lambda y: UNDEF if x is UNDEF or y is UNDEF else f(x, y)))
    return f(a, b)

def add(a, b):
    return lift2(p_add, a, b)

def sub(a, b):
    return lift2(lambda x, y: p_add(x, y, -1), a, b)

def mul(a, b):
    return lift2(p_mul, a, b)

def div(a, b):
    return lift2(lambda x, y: ZERO if x is ZERO else p_mul(x, p_inv(y)), a, b)

def neg(a):
    return lift(a, lambda x: p_mul(cint(-1), x))

def absv(a):
    def f(x):
        if is_num(x):
            return cint(abs(x.a[1]))
        s, n = normalise(x)
        return p_mul(cint(abs(s)), mk("abs", n))
    return lift(a, f)

# ---------------------------------------------------------------- comparisons
def is_count(n):
    """a sum of products of lengths with positive coefficients"""
    if n.op == "len":
        return True
    return n.op == "poly" and all(c > 0 and all(x.op == "len" and e > 0 for x, e in m) for m, c in n.a[0])

def sgn_atoms(a, b):
    """(decision diagram of a<b, of a==b)"""
    d = p_add(a, b, -1)
    if is_num(d):
        v = d.a[1]
        return (TRUE if v < 0 else FALSE), (TRUE if v == 0 else FALSE)
    if a.op == "c" and b.op == "c" and not (is_num(a) and is_num(b)):
        pass
    s, n = normalise(d)
    lt = FALSE if is_count(n) else b_atom(mk("sgn", n, "lt"))
    eq = b_atom(mk("sgn", n, "eq"))
    if s < 0:
        lt = b_not(b_or(lt, eq))
    return lt, eq

def cmp_lt(a, b):
    return lift2(lambda x, y: sgn_atoms(x, y)[0], a, b)

def cmp_eq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == "discr" and y.op == "discr":
            for p, q in ((x, y), (y, x)):
                if q.a[0].op == "agg" and q.a[0].a[1] is not None:
                    return is_variant(p.a[0], None, q.a[0].a[1])
        return sgn_atoms(x, y)[1]
    return lift2(f, a, b)

def cmp_le(a, b):
    return lift2(lambda x, y: b_or(*sgn_atoms(x, y)), a, b)

NONNUM = ("agg", "str")

def gen_eq(a, b):
    """equality of values that are not numbers"""
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == "c" and y.op == "c" and x.a[0] == y.a[0]:
            return FALSE
        if x.op == "agg" and y.op == "agg":
            if x.a[:2] != y.a[:2]:
                return FALSE
            r = TRUE
            for p, q in zip(x.a[3], y.a[3]):
                r = b_and(r, gen_eq(p, q))
            return r
        if y.op == "c" and x.op != "c":
            x, y = y, x
        if x.op == "c" and y.op != "c":
            if x.a[0] == "char" and len(x.a[1]) == 1:
                return cmp_eq(y, cint(ord(x.a[1])))     # characters are their numbers
            return b_atom(mk("isval", y, x))
        for p, q in ((x, y), (y, x)):
            if p.op == "agg" and p.a[1] is not None and not p.a[3]:
                # comparison with a field-less variant
                return b_atom(mk("is", q, p.a[1]))
        x, y = sorted((x, y), key=lambda t: t.id)
        return b_atom(mk("eq", x, y))
    return lift2(f, a, b)

# ---------------------------------------------------------------- structure
def agg(kind, variant, names, vals):
    return mk("agg", kind, variant, tuple(names), tuple(vals))

def tup(*vals):
    return agg("tuple", None, [str(i) for i in range(len(vals))], vals)

OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
ORD = "core::cmp::Ordering"

def some(v):
    return agg(OPT, "Some", ["0"], [v])

NONE = agg(OPT, "None", [], [])

def ok(v):
    return agg(RES, "Ok", ["0"], [v])

def err(v):
    return agg(RES, "Err", ["0"], [v])

# variants in declaration order; the last needs no atom
VARIANTS = {
    OPT: ["None", "Some"],
    RES: ["Ok", "Err"],
    CF: ["Continue", "Break"],
    ORD: ["Less", "Equal", "Greater"],
}

def is_variant(t, adt, v):
    """decision diagram: t is variant v of adt"""
    vs = VARIANTS.get(adt)
    def f(x):
        if x.op == "agg":
            return TRUE if x.a[1] == v else FALSE
        if x is UNDEF:
            return UNDEF
        if x.op == "upd":
            # a part was replaced, the variant is the same
            return is_variant(x.a[0], adt, v)
        if x.op == "ref":
            return b_atom(mk("is", x, v))
        if not vs:
            return b_atom(mk("is", x, v))
        if v == vs[-1] and len(vs) > 1:
            r = TRUE
            for w in vs[:-1]:
                r = b_and(r, b_not(b_atom(mk("is", x, w))))
            return r
        return b_atom(mk("is", x, v))
    return lift(t, f)

def downcast(t, v):
    def f(x):
        if x is UNDEF:
            return x
        if x.op == "agg":
            return x if x.a[1] == v or x.a[1] is None else UNDEF
        if x.op == "upd" and x.a[1] == v:
            return x.a[2]
        return mk("as", x, v)
    return lift(t, f)

def field(t, name):
    name = str(name)
    def f(x):
        if x.op == "agg":
            ns, vs = x.a[2], x.a[3]
            if name in ns:
                return vs[ns.index(name)]
            if name.isdigit() and int(name) < len(vs):
                return vs[int(name)]
            return mk("fld", x, name)
        if x.op == "with":
            base, n, v = x.a
            if n == name:
                return v
            return field(base, name)
        if x is UNDEF or x is UNINIT or x.op == "ref":
            return x
        return mk("fld", x, name)
    return lift(t, f)

def payload(t, v):
    return field(downcast(t, v), "0")

def with_field(t, name, v):
    name = str(name)
    def f(x):
        if x.op == "agg":
            ns, vs = x.a[2], x.a[3]
            i = ns.index(name) if name in ns else (int(name) if name.isdigit() and int(name) < len(vs) else None)
            if i is not None:
                vs = vs[:i] + (v,) + vs[i + 1:]
                return mk("agg", x.a[0], x.a[1], ns, vs)
        if x.op == "with" and x.a[1] == name:
            x = x.a[0]
        elif x.op == "with" and x.a[1] > name:
            return mk("with", with_field(x.a[0], name, v), x.a[1], x.a[2])
        if v.op == "fld" and v.a[0] is x and v.a[1] == name:
            return x
        return mk("with", x, name, v)
    return lift(t, f)

def index(t, i):
    def f(x):
        if x.op == "agg" and x.a[0] in ("array", "vec") and is_num(i) and i.a[1].denominator == 1 and 0 <= i.a[1] < len(x.a[3]):
            return x.a[3][int(i.a[1])]
        if x.op == "agg" and x.a[0] in ("array", "vec") and len(x.a[3]) == 1 and not is_num(i):
            return x.a[3][0]      # the only index in range
        if x.op == "sub":
            return index(x.a[0], add(x.a[1], i))
        if x.op == "store" and x.a[1] is i:
            return x.a[2]
        if x.op == "store" and is_num(i) and is_num(x.a[1]):
            return index(x.a[0], i)
        if x.op == "comp" and x.a[2] is TRUE and x.a[3] == "seq":
            # comprehension without filter: substitute the bound variable
            return subst(x.a[1], {x.a[4]: i})
        if x is UNDEF:
            return x
        if x.op == "call" and len(x.a) == 3 and isinstance(x.a[0], str) and x.a[0].startswith("core::slice::raw::from_raw_parts"):
            return mk("call", "core::ptr::add", x.a[1], i) if i is not ZERO else x.a[1]
        return mk("idx", x, i)
    return lift(t, f) if t.op == "ite" and nleaves(t, 8) <= 8 else f(t)

KNOWNLEN = {}      # terms of array type (learnt where an array is viewed as a slice)

def length(t):
    def f(x):
        if x in KNOWNLEN:
            return cint(KNOWNLEN[x])
        if x.op == "agg" and x.a[0] in ("array", "vec"):
            return cint(len(x.a[3]))
        if x.op == "push":
            return add(length(x.a[0]), ONE)
        if x.op == "store":
            return length(x.a[0])
        if x.op == "swapped":
            return length(x.a[0])
        if x.op in ("sorted", "permuted"):
            return length(x.a[-1])
        if x.op == "comp" and x.a[2] is TRUE and x.a[3] == "seq":
            return x.a[0]
        if x.op == "sub":
            return sub(x.a[2], x.a[1])
        if x.op == "resized":
            return x.a[1]
        if x.op in ("cat", "scat"):
            r = ZERO
            for y in x.a:
                r = add(r, length(y))
            return r
        if x.op == "c" and x.a[0] in ("str", "bytes"):
            return cint(len(x.a[1]))
        if x.op == "call" and len(x.a) == 3 and isinstance(x.a[0], str) and x.a[0].startswith("core::slice::raw::from_raw_parts"):
            return x.a[2]
        return mk("len", x)
    return lift(t, f) if nleaves(t, 8) <= 8 else f(t)

def subslice(t, lo, hi):
    def f(x):
        if lo is ZERO and hi is length(x):
            return x
        y = tail_at(x, lo, hi)
        if y is not None:
            return y
        if x.op == "sub":
            return mk("sub", x.a[0], add(x.a[1], lo), add(x.a[1], hi))
        return mk("sub", x, lo, hi)
    return f(t)

def tail_at(x, lo, hi):
    """the tail y of x if the slice is x[len(x) - len(y)..]"""
    if hi is not length(x):
        return None
    d = sub(length(x), lo)
    if d.op == "len" and d.a[0].op in ("cur", "sp") and suffix_of(d.a[0], x):
        return d.a[0]
    if d.op == "poly":
        for y in {z for z in subterms(d) if z.op == "len"}:
            k = sub(y, d)
            if is_num(k) and k.a[1] > 0 and y.a[0].op in ("cur", "sp") and suffix_of(y.a[0], x):
                return mk("sub", y.a[0], k, y)
    return None

# ---------------------------------------------------------------- positions in a text (an.text)
def text_base(x):
    return (x.a[0], x.a[1]) if x.op == "cur" else (x, ZERO)

def cur(x, n):
    """what is left of the text x behind n blank separated entries"""
    b, k = text_base(x)
    n = add(k, n)
    return b if n is ZERO else mk("cur", b, n)

def tok(x, n):
    """the n-th entry of the text x"""
    b, k = text_base(x)
    return mk("tok", b, add(k, n))

def parses(kind, x, n=ZERO):
    """the n-th entry of x is an entry of this kind"""
    b, k = text_base(x)
    return b_atom(mk("parses", kind, b, add(k, n)))

def suffix_of(y, x):
    """y is a tail of the text x"""
    while True:
        if y is x:
            return True
        if y.op in ("cur", "sp"):
            y = y.a[0]
        elif y.op == "sub" and y.a[2] is length(y.a[0]):
            y = y.a[0]
        elif y.op == "call" and isinstance(y.a[0], str) and y.a[0].endswith("::trim_start"):
            y = y.a[1]
        else:
            return False

# ---------------------------------------------------------------- substitution / traversal
def kids(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tk(x)

def _tk(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _tk(y)

_contains = {}

def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))

def contains(t, pred):
    for x in subterms(t):
        if pred(x):
            return True
    return False

_leafset = {}

def loopsyms(t):
    """loop ids whose per-iteration symbols occur in t"""
    r = _leafset.get(t)
    if r is None:
        if t.op in ("car", "i"):
            r = frozenset([t.a[0]])
        else:
            r = frozenset()
        for k in kids(t):
            r = r | loopsyms(k)
        _leafset[t] = r
    return r

def idiv(a, b):
    """truncating integer division"""
    if b is ONE:
        return a
    if is_num(a) and is_num(b) and b is not ZERO and a.a[1] >= 0 and b.a[1] > 0:
        return cint(int(a.a[1]) // int(b.a[1]))
    return mk("call", "idiv", a, b)

def rebuild(t, new):
    """t with its direct children mapped by new(); re-normalises"""
    op, a = t.op, t.a
    def m(x):
        if isinstance(x, T):
            return new(x)
        if isinstance(x, tuple):
            return tuple(m(y) for y in x)
        return x
    if op == "ite":
        c = rebuild_atom(a[0], new)
        return ite(c, new(a[1]), new(a[2]))
    if op == "poly":
        r = ZERO
        for mono, c in a[0]:
            p = cint(c)
            for x, e in mono:
                y = new(x)
                if e < 0:
                    y = p_inv(y) if y.op != "ite" else lift(y, p_inv)
                    e = -e
                for _ in range(e):
                    p = mul(p, y)
            r = add(r, p)
        return r
    if op == "abs":
        return absv(new(a[0]))
    if op == "fld":
        return field(new(a[0]), a[1])
    if op == "as":
        return downcast(new(a[0]), a[1])
    if op == "with":
        return with_field(new(a[0]), a[1], new(a[2]))
    if op == "idx":
        return index(new(a[0]), new(a[1]))
    if op == "len":
        return length(new(a[0]))
    if op == "sub":
        return subslice(new(a[0]), new(a[1]), new(a[2]))
    if op == "mul":
        return mul(new(a[0]), new(a[1]))
    if op == "cur":
        return cur(new(a[0]), new(a[1]))
    if op == "tok":
        return tok(new(a[0]), new(a[1]))
    if op in ("is", "sgn", "eq", "isval", "b"):
        c = rebuild_atom(t, new)
        return c
    if op == "call" and a[0] == "idiv":
        return idiv(new(a[1]), new(a[2]))
    return mk(op, *[m(x) for x in a])

def rebuild_atom(at, new):
    op, a = at.op, at.a
    if op == "sgn":
        lt, eq = cmp_lt(new(a[0]), ZERO), cmp_eq(new(a[0]), ZERO)
        return lt if a[1] == "lt" else eq
    if op == "is":
        x = new(a[0])
        if x is a[0]:
            return b_atom(at)
        def f(l):
            if l.op == "agg":
                return TRUE if l.a[1] == a[1] else FALSE
            if l.op == "upd":
                return lift(l.a[0], f)
            return l if l is UNDEF else b_atom(mk("is", l, a[1]))
        return lift(x, f)
    if op == "isval":
        return gen_eq(new(a[0]), a[1])
    if op == "eq":
        return gen_eq(new(a[0]), new(a[1]))
    if op == "b":
        return as_bool(new(a[0]))
    if op == "parses":
        return parses(a[0], new(a[1]), new(a[2]))
    def m(x):
        if isinstance(x, T):
            return new(x)
        if isinstance(x, tuple):
            return tuple(m(y) for y in x)
        return x
    return b_atom(mk(op, *[m(x) for x in a]))

def subst(t, m):
    """replace terms by terms"""
    memo = dict(m)
    def go(x):
        r = memo.get(x)
        if r is None:
            ks = list(kids(x))
            if not ks:
                r = x
            else:
                ch = False
                for k in ks:
                    if go(k) is not k:
                        ch = True
                r = rebuild(x, go) if ch else x
            memo[x] = r
        return r
    return go(t)

def rewrite(t, f):
    """bottom-up rewrite; f(term) -> term or None"""
    memo = {}
    def go(x):
        r = memo.get(x)
        if r is None:
            ks = list(kids(x))
            y = x
            if ks and any(go(k) is not k for k in ks):
                y = rebuild(x, go)
            z = f(y)
            r = y if z is None else z
            memo[x] = r
        return r
    return go(t)

# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 14:
        return "…"
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.a
    if op == "c":
        return repr(a[1]) if a[0] != "num" else str(a[1])
    if op == "ite":
        return "ite(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "agg":
        n = a[0].split("::")[-1] if a[1] is None else a[1]
        if a[0] == "tuple":
            return "(%s)" % ", ".join(map(s, a[3]))
        if a[0] in ("array", "vec"):
            return "[%s]" % ", ".join(map(s, a[3]))
        return "%s{%s}" % (n, ", ".join("%s:%s" % (x, s(y)) for x, y in zip(a[2], a[3])))
    if op == "poly":
        out = []
        for mono, c in a[0]:
            f = "*".join(s(x) + ("^%d" % e if e != 1 else "") for x, e in mono)
            out.append(f if c == 1 and f else "%s%s" % (c, "*" + f if f else ""))
        return "(%s)" % " + ".join(out)
    if op == "fld":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "as":
        return "%s@%s" % (s(a[0]), a[1])
    if op == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "param":
        return str(a[0])
    if op == "sgn":
        return "%s%s0" % (s(a[0]), "<" if a[1] == "lt" else "==")
    if op == "is":
        return "%s is %s" % (s(a[0]), a[1])
    if op == "isval":
        return "%s == %s" % (s(a[0]), s(a[1]))
    if op == "b":
        return "?%s" % s(a[0])
    if op == "i":
        return "i%s" % a[0]
    if op == "car":
        return "L%s:%s" % (a[0], a[1] if not isinstance(a[1], tuple) else a[1][-1])
    def x(y):
        if isinstance(y, T):
            return s(y)
        if isinstance(y, tuple):
            return "(" + ",".join(x(z) for z in y) + ")"
        return str(y)
    n = op
    rest = a
    if op == "call":
        n = a[0].split("::")[-1] if isinstance(a[0], str) else op
        p = a[0].split("::")
        n = "::".join(p[-2:])
        rest = a[1:]
    return "%s(%s)" % (n, ", ".join(x(y) for y in rest))
