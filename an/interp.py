"""Gated value-numbering dataflow over MIR.

For one entry function the analysis computes, at every program point of the
function and of the local functions and closures it calls, a value number (a
term, see terms.py) for every location, together with the condition (a decision
diagram over canonical atoms) under which the point is reached.  Joins are merged,
never split; loops are analysed to a fixpoint of loop-carried locations.  Nothing
is executed and no path is enumerated or handed to a solver.

Abstractions: integers are unbounded, floats are reals, `&T` is the value it
points to (sound while the shared borrow lives), panicking branches end.
"""
import re
from fractions import Fraction
from .terms import *
from .cfg import Cfg

ARRLEN = re.compile(r"^&(?:'\w+ )?(?:mut )?\[.*; (\d+)\]$")

class Ev:
    __slots__ = ("kind", "name", "id", "args", "res", "guard", "loops", "fn", "span", "stack", "extra", "argtys", "dead", "targs", "ttypes")
    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))
    def __repr__(self):
        return "Ev(%s %s%s g=%s L=%s %s:%s)" % (self.kind, self.name, list(self.args or ()), self.guard, self.loops, self.fn, self.span)

class Loop:
    pass

_norm = {}
def norm_path(p):
    r = _norm.get(p)
    if r is not None:
        return r
    out, i = "", 0
    while i < len(p):
        if p.startswith("::<", i) or p[i] == "<":
            j = i + (2 if p.startswith("::<", i) else 0)
            d, k = 0, j
            while True:
                if p[k] == "<":
                    d += 1
                elif p[k] == ">" and p[k - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                k += 1
            inner = p[j + 1:k]
            if inner.startswith("impl "):
                out += ("::{" if j > i else "{") + inner[5:] + "}"
            elif j == i and not out:
                out += "<" + inner + ">"
            i = k + 1
        else:
            out += p[i]
            i += 1
    _norm[p] = out
    return out

class Ctx:
    __slots__ = ("I", "st", "g", "fr", "fn", "path", "argtys", "destty", "span", "block")

class Frame:
    __slots__ = ("d", "body", "cfg", "tsub", "targs")

NUMTY = {"f64", "f32", "usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}

def strip_refs(ty):
    while ty and ty.startswith("&"):
        ty = re.sub(r"^&('\w+ )?(mut )?", "", ty)
    return ty

def is_numeric(ty):
    ty = strip_refs(ty)
    return ty in NUMTY or ty.split("<")[0].endswith("NoisyFloat") or ty.endswith("N64") or ty.endswith("R64")

INTTY = {"usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}

CALLS = ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")


def bits(ty):
    return {"bool": 1, "8": 8, "16": 16, "32": 32, "64": 64, "128": 128}.get(str(ty).lstrip("iu"), 64)


class Interp:
    MAXDEPTH = 24
    def __init__(self, facts, models, opaque=(), log=True):
        self.F = facts
        self.models = models
        self.opaque = set(opaque)
        self.events = []
        self.loops = {}
        self.nloop = 0
        self.lstack = []
        self.fstack = []
        self.cfgs = {}
        self.epoch = 0
        self.collapse_types = set()
        self.hooks = {}
        self.ntmp = 0
        self.hstack = []
        self.balias = {}
        self.last_loop = 0
        self.analysed = set()
        self.notes = []
        self.logs = False

    def cfg(self, b):
        c = self.cfgs.get(b["id"])
        if c is None:
            c = self.cfgs[b["id"]] = Cfg(b)
        return c

    # ------------------------------------------------------------ entry
    def run(self, body, args=None, st=None):
        """analyse a body as an entry point; args default to parameter symbols"""
        st = dict(st or {})
        self.params = []
        vals = []
        for i in range(1, body["argc"] + 1):
            ty = body["locals"][i]
            p = mk("param", body["debug"].get(str(i), "arg%d" % i), i)
            self.params.append(p)
            v = args[i - 1] if args and args[i - 1] is not None else None
            if v is None:
                v = p
                if ty.startswith("&") and re.match(r"^&('\w+ )?mut ", ty):
                    v = mk("ref", ("obj", p), ())
            vals.append(v)
        self.state = st
        self.result = self.call_body(body, vals, st, TRUE, None)
        return self.result

    # ------------------------------------------------------------ locations
    def obj_default(self, loc):
        if loc[0] == "obj":
            return loc[1]
        return None

    def get_loc(self, st, loc):
        v = st.get(loc)
        if v is None:
            v = self.obj_default(loc)
            if v is None:
                return UNINIT
            if v.op == "cont":
                # contents of a lock: an earlier write through another name may have changed them
                for l, w in st.items():
                    if l[0] in ("obj", "fam") and l[1].op == "cont" and l[1] is not v and may_alias(l[1], v) and w is not l[1]:
                        return mk("clobbered", v, w)
        return v

    def read_path(self, st, v, path):
        for e in path:
            k = e[0]
            if k == "f":
                v = field(v, e[1])
            elif k == "i":
                v = index(v, e[1])
            elif k == "v":
                v = downcast(v, e[1])
            elif k == "ss":
                v = subslice(v, e[1], e[2])
            elif k == "m":
                v = payload(map_get(v, e[1]), "Some")
        return v

    def read_ref(self, st, r):
        """value behind a reference-like term"""
        def f(x):
            if x.op == "ref":
                return self.read_path(st, self.get_loc(st, x.a[0]), x.a[1])
            if x is UNDEF:
                return x
            return st.get(("obj", x), x)
        if r.op == "ite":
            return lift(r, f)
        return f(r)

    def update(self, st, v, path, val):
        if not path:
            return val
        e, rest = path[0], path[1:]
        k = e[0]
        if k == "f":
            return with_field(v, e[1], self.update(st, field(v, e[1]), rest, val)) if v.op != "ite" else \
                lift(v, lambda x: x if x is UNDEF else with_field(x, e[1], self.update(st, field(x, e[1]), rest, val)))
        if k == "i":
            new = self.update(st, index(v, e[1]), rest, val)
            return store(v, e[1], new)
        if k == "v":
            def f(x):
                if x is UNDEF:
                    return x
                if x.op == "agg":
                    return self.update(st, x, rest, val) if x.a[1] in (e[1], None) else x
                return mk("upd", x, e[1], self.update(st, downcast(x, e[1]), rest, val))
            return lift(v, f)
        if k == "m":
            return map_set(v, e[1], self.update(st, payload(map_get(v, e[1]), "Some"), rest, val))
        if k == "ss":
            return splice(v, e[1], e[2], self.update(st, subslice(v, e[1], e[2]), rest, val))
        raise AssertionError(k)

    def write_ref(self, st, r, path, val, ctx=None):
        for c, x in cases(r):
            if x.op == "ref":
                loc, p = x.a[0], tuple(x.a[1]) + tuple(path)
            elif x is UNDEF:
                continue
            else:
                loc, p = ("obj", x), tuple(path)
            old = self.get_loc(st, loc)
            new = self.update(st, old, p, val)
            st[loc] = new if c is TRUE else ite(c, new, old)
            if loc[0] == "obj":
                self.event(ctx, "store", "store", (loc[1], val), extra=p, cond=c)

    def fresh_loc(self, st, v, tag="tmp"):
        self.ntmp += 1
        loc = ("tmp", self.ntmp)
        st[loc] = v
        return loc

    # ------------------------------------------------------------ places and operands
    def proj(self, fr, st, e):
        k = e[0]
        if k == "f":
            return ("f", str(e[2]) if e[2] is not None else str(e[1]))
        if k == "i":
            return ("i", self.get_loc(st, (fr.d, e[1])))
        if k == "ci":
            return ("ci", e[1], e[2], e[3])
        if k == "ss":
            return ("ssr", e[1], e[2], e[3])
        if k == "v":
            return ("v", str(e[1]))
        return (k,)

    def norm_proj(self, v, p):
        if p[0] == "ci":
            off = cint(int(p[1]))
            return ("i", sub(length(v), off) if p[3] else off)
        if p[0] == "ssr":
            hi = sub(length(v), cint(int(p[2]))) if p[3] else cint(int(p[2]))
            return ("ss", cint(int(p[1])), hi)
        return p

    def eval_place(self, fr, st, place):
        """-> (base, path): base is ('loc', loc) or ('val', term)"""
        loc = (fr.d, place[0])
        base, path = ("loc", loc), ()
        for e in place[1]:
            if e[0] == "*":
                r = self.base_value(st, base, path)
                if r.op == "ref":
                    base, path = ("loc", r.a[0]), tuple(r.a[1])
                else:
                    base, path = ("val", r), ()
                continue
            p = self.proj(fr, st, e)
            if p[0] in ("ci", "ssr"):
                p = self.norm_proj(self.base_value(st, base, path), p)
            if p[0] in ("f", "i", "v", "ss"):
                path = path + (p,)
        return base, path

    def base_value(self, st, base, path):
        v = self.get_loc(st, base[1]) if base[0] == "loc" else self.read_ref(st, base[1])
        return self.read_path(st, v, path)

    def read_place(self, fr, st, g, place):
        base, path = self.eval_place(fr, st, place)
        v = self.base_value(st, base, path)
        if v.op == "ite":
            v = assume(v, g)
        return v

    def write_place(self, fr, st, place, val, ctx=None):
        base, path = self.eval_place(fr, st, place)
        if base[0] == "loc":
            loc = base[1]
            if not path:
                st[loc] = val
            else:
                st[loc] = self.update(st, self.get_loc(st, loc), path, val)
            if loc[0] == "obj":
                self.event(ctx, "store", "store", (loc[1], val), extra=path)
        else:
            self.write_ref(st, base[1], path, val, ctx)

    def const_op(self, fr, st, g, k):
        if "fn" in k:
            f = k["fn"]
            return mk("fn", FnKey(f))
        if "closure" in k:
            return agg("closure:" + k["closure"], None, (), ())
        if "str" in k:
            return const("str", k["str"])
        if "bytes" in k:
            return const("bytes", k["bytes"])
        if "bool" in k:
            return TRUE if k["bool"] else FALSE
        if "int" in k:
            return cint(int(k["int"]))
        if "float" in k:
            s = k["float"]
            if s in ("inf", "-inf", "NaN"):
                return const("f", s)
            return cint(Fraction(s))
        if "char" in k:
            return const("char", k["char"])
        if "promoted" in k:
            b = self.F.bodies.get(k["promoted"])
            if b:
                return self.call_body(b, [], dict(st), g, None, quiet=True) or UNINIT
        if k.get("zst"):
            if k["ty"] == "()":
                return UNIT
            if k["ty"] in self.F.adts or True:
                return agg(k["ty"], None, (), ())
        if "item_id" in k:
            b = self.F.bodies.get(k["item_id"])
            if b and b["kind"].endswith("Const") or b and b["kind"] == "Const":
                r = self.call_body(b, [], dict(st), g, None, quiet=True)
                if r is not None:
                    return r
            return mk("item", k["item"])
        if "static" in k:
            return mk("static", k["static"])
        return mk("konst", k.get("sym") or k.get("val") or k["ty"])

    def operand(self, fr, st, g, o):
        if "c" in o:
            return self.read_place(fr, st, g, o["c"])
        if "m" in o:
            return self.read_place(fr, st, g, o["m"])
        if "k" in o:
            return self.const_op(fr, st, g, o["k"])
        return mk("konst", str(o))

    def box_alias(self, body):
        """locals that are bitwise copies of a box made only to dereference it -> the box's place"""
        a = self.balias.get(body["id"])
        if a is None:
            a = {}
            for bb in body["blocks"]:
                if not bb:
                    continue
                for s in bb[0]:
                    if s[0] == "=" and not s[1][1] and s[2][0] == "use" and "c" in s[2][1] and body["locals"][s[1][0]].startswith("alloc::boxed::Box<"):
                        a[s[1][0]] = s[2][1]["c"]
            self.balias[body["id"]] = a
        return a

    # ------------------------------------------------------------ rvalues
    def adt_of(self, ty):
        t = self.F.types.get(ty)
        while t and t["k"] in ("ref",):
            t = self.F.types.get(t["to"])
        return t["adt"] if t and t["k"] == "adt" else None

    def place_type(self, fr, place):
        """adt path of a place (best effort): only used for discriminants"""
        return None

    def ref_of(self, fr, st, g, kind, place):
        base, path = self.eval_place(fr, st, place)
        if kind == "mut":
            if base[0] == "loc":
                return mk("ref", base[1], path)
            v = base[1]
            if not path:
                return v
            def f(x):
                if x.op == "ref":
                    return mk("ref", x.a[0], tuple(x.a[1]) + path)
                return x if x is UNDEF else mk("ref", ("obj", x), path)
            return lift(v, f)
        v = self.base_value(st, base, path)
        if v.op == "ite":
            v = assume(v, g)
        return v

    def rvalue(self, fr, st, g, r, destty, span):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, g, r[1])
        if k == "ref":
            v = self.ref_of(fr, st, g, "shared" if r[1] in ("shared", "fake") else "mut", r[2])
            if v.op == "agg" and v.a[0] == "cell":
                # shared mutable state created here: keep its identity
                return self.ref_of(fr, st, g, "mut", r[2])
            return v
        if k == "rawptr":
            return self.ref_of(fr, st, g, "mut" if r[1] == "Mut" else "shared", r[2])
        if k == "cast":
            if r[1] == "BoxDerefTransmute":
                pl = r[2].get("c") or r[2].get("m")
                if pl and pl[1] and pl[1][-1][0] == "f":
                    # a box is transparent: its pointee lives where the box is stored
                    pl = [pl[0], pl[1][:-1]]
                    if not pl[1]:
                        pl = self.box_alias(fr.body).get(pl[0], pl)
                    return self.ref_of(fr, st, g, "mut", pl)
            v = self.operand(fr, st, g, r[2])
            kind = r[1]
            if "Unsize" in kind and len(r) > 4 and str(r[4]).endswith("]"):
                m = ARRLEN.search(r[4])
                if m:
                    for _, x in cases(self.read_ref(st, v) if v.op == "ref" else v):
                        if x.op not in ("ref", "agg", "ite"):
                            KNOWNLEN[x] = int(m.group(1))
            if kind in ("FloatToInt",):
                return mk("cast", "f2i", r[3], v)
            if kind in ("FloatToFloat", "IntToFloat") and str(r[3]) == "f32":
                return mk("call", "to_f32", v)
            if kind == "IntToInt":
                if bits(r[3]) < bits(r[4] if len(r) > 4 else r[3]):
                    # a narrowing conversion drops the high bits
                    return mk("call", "to_" + str(r[3]), v)
                if any(x is TRUE or x is FALSE for x in leaves(v)):
                    return lift(v, lambda x: ONE if x is TRUE else ZERO if x is FALSE else x)
                return v
            if kind == "BoxDerefTransmute":
                return v
            return v
        if k == "bin":
            a, b = self.operand(fr, st, g, r[2]), self.operand(fr, st, g, r[3])
            if r[1] in ("Div", "Shr") and destty in INTTY:
                return idiv(a, b if r[1] == "Div" else (cint(2 ** int(b.a[1])) if b.op == "c" else mk("call", "pow2", b)))
            if r[1] == "SubWithOverflow" and str(destty).lstrip("(")[:1] == "u":
                c = Ctx()
                c.g, c.span = g, span
                self.event(c, "unsub", "sub", (a, b), cond=cmp_eq(a, ZERO) if b is ONE else cmp_lt(a, b))
            return self.binop(r[1], a, b, destty)
        if k == "un":
            v = self.operand(fr, st, g, r[2])
            if r[1] == "Not":
                if destty == "bool":
                    return b_not(as_bool(v))
                return mk("call", "not", v)
            if r[1] == "Neg":
                return neg(v)
            if r[1] == "PtrMetadata":
                def f(x):
                    if x.op == "ref":
                        x = self.read_ref(st, x)
                    return length(x)
                return lift(v, f)
            return mk("un", r[1], v)
        if k == "discr":
            base, path = self.eval_place(fr, st, r[1])
            v = self.base_value(st, base, path)
            if v.op == "ite":
                v = assume(v, g)
            return mk("discr", v, self.adt_of(r[2]))
        if k == "agg":
            info = r[1]
            vals = [self.operand(fr, st, g, o) for o in r[2]]
            kk = info["k"]
            if kk == "tuple":
                return tup(*vals) if vals else UNIT
            if kk == "array":
                return agg("array", None, (), vals)
            if kk == "closure":
                return agg("closure:" + info["id"], None, [str(i) for i in range(len(vals))], vals)
            if kk == "adt":
                names = info.get("fields") or [str(i) for i in range(len(vals))]
                return agg(info["adt"], info["variant"] if info.get("enum") else None, names, vals)
            return mk("agg?", kk, *vals)
        if k == "repeat":
            return mk("repeat", self.operand(fr, st, g, r[1]), *[x for x in r[2:] if isinstance(x, (int, str))])
        return mk("rv", str(r))

    def binop(self, op, a, b, ty=None):
        over = op.endswith("WithOverflow")
        base = op[:-12] if over else op.replace("Unchecked", "")
        v = None
        if base == "Add":
            v = add(a, b)
        elif base == "Sub":
            v = sub(a, b)
        elif base == "Mul":
            v = mul(a, b)
        elif base in ("Lt", "Le", "Gt", "Ge"):
            if base in ("Gt", "Ge"):
                a, b = b, a
            return cmp_lt(a, b) if base in ("Lt", "Gt") else cmp_le(a, b)
        elif base in ("Eq", "Ne"):
            if is_boolish(a) or is_boolish(b):
                x, y = as_bool(a), as_bool(b)
                r = ite(x, y, b_not(y))
            elif a.op == "c" and a.a[0] in ("char", "str", "bytes") or b.op == "c" and b.a[0] in ("char", "str", "bytes"):
                r = gen_eq(a, b)
            else:
                r = cmp_eq(a, b)
            return r if base == "Eq" else b_not(r)
        elif base == "Div":
            v = mk("call", "div", a, b)
            if not (is_num(a) and is_num(b)) or ty in ("f64", "f32") and b is not ZERO:
                v = div(a, b)
        elif base in ("BitAnd", "BitOr", "BitXor") and (is_boolish(a) or is_boolish(b)):
            x, y = as_bool(a), as_bool(b)
            v = {"BitAnd": b_and, "BitOr": b_or, "BitXor": lambda p, q: ite(p, b_not(q), q)}[base](x, y)
        else:
            v = mk("call", base.lower(), a, b)
        return tup(v, FALSE) if over else v

    # ------------------------------------------------------------ events
    def event(self, ctx, kind, name, args, res=None, extra=None, cond=TRUE, id=None, argtys=None):
        if self.quiet:
            return None
        e = Ev(kind=kind, name=name, args=tuple(args), res=res, guard=b_and(ctx.g, cond) if ctx else TRUE, loops=tuple(self.lstack),
               fn=self.fstack[-1].body["id"] if self.fstack else None, span=ctx.span if ctx else None,
               stack=tuple(f.body["id"] for f in self.fstack), extra=extra, id=id, argtys=argtys,
               targs=tuple((getattr(ctx, "fn", None) or {}).get("args") or ()) if ctx else (), ttypes=tuple(f.targs for f in self.fstack))
        self.events.append(e)
        return e

    quiet = False

    # ------------------------------------------------------------ functions
    def recursive(self, b):
        """b calls itself; a call made by a closure that was handed to b from outside (once) is no recursion"""
        n = sum(x.body["id"] == b for x in self.fstack)
        if n != 1:
            return n > 1
        k = [x.body["id"] for x in self.fstack]
        after = k[k.index(b) + 1:]
        return not any("{closure" in c.rsplit("::", 1)[-1] and not c.startswith(b + "::") for c in after)

    def call_body(self, b, args, st, g, ctx, quiet=False):
        fr = Frame()
        fr.d = len(self.fstack)
        fr.body = b
        fr.targs = tuple((getattr(ctx, "fn", None) or {}).get("args") or ()) if ctx else ()
        fr.cfg = self.cfg(b)
        self.analysed.add(b["id"])
        for i, a in enumerate(args):
            st[(fr.d, i + 1)] = a
        oq, self.quiet = self.quiet, self.quiet or quiet
        self.fstack.append(fr)
        try:
            backs, exits = self.region(fr, set(range(len(b["blocks"]))), 0, st, g, None)
        finally:
            self.fstack.pop()
            self.quiet = oq
        outs = exits.get("ret", [])
        if not outs:
            return None
        G, m = self.merge(outs)
        res = m.get((fr.d, 0), UNIT)
        st.clear()
        for k, v in m.items():
            if not (isinstance(k[0], int) and k[0] >= fr.d):
                st[k] = v
        return res

    def merge(self, outs):
        if len(outs) == 1:
            return outs[0][0], dict(outs[0][1])
        G = FALSE
        for g, _ in outs:
            G = b_or(G, g)
        keys = {}
        for _, s in outs:
            for k in s:
                keys[k] = None
        conds = [restrict(g, G) for g, _ in outs]
        m = {}
        for k in keys:
            v0 = None
            same = True
            vals = []
            for g, s in outs:
                v = s.get(k)
                if v is None:
                    v = self.obj_default(k)
                vals.append(v)
                if v is not None:
                    if v0 is None:
                        v0 = v
                    elif v is not v0:
                        same = False
            if same:
                if v0 is not None:
                    m[k] = v0
                continue
            r = None
            for c, v in zip(conds, vals):
                if v is None or v is UNINIT:
                    continue
                r = v if r is None else ite(c, v, r)
            m[k] = r if r is not None else UNINIT
        return G, m

    def region(self, fr, blocks, entry, st, g, header):
        """-> (backs [(g, st)], exits {target: [(g, st)]})"""
        cfg = fr.cfg
        inner = cfg.inner_loops(blocks, header)
        owner = {}
        for h in inner:
            for x in cfg.loops[h]:
                owner[x] = h
        inc = {entry: [(g, st)]}
        backs, exits = [], {}
        def route(t, eg, est):
            if eg is FALSE:
                return
            if t == header:
                backs.append((eg, est))
            elif t == "ret" or t not in blocks:
                exits.setdefault(t, []).append((eg, est))
            elif t not in cfg.returns:
                self.dead_end(fr, t, eg, est)
            else:
                inc.setdefault(t, []).append((eg, est))
        # topological order: rpo restricted to region works since back edges are removed
        for b in cfg.rpo:
            if b not in blocks or b not in inc:
                continue
            if b in owner and owner[b] != b:
                continue
            G, s = self.merge(inc[b]) if len(inc[b]) > 1 else (inc[b][0][0], inc[b][0][1])
            if b in owner and b != header:
                lb = cfg.loops[b]
                def body(hst, hg, b=b, lb=lb):
                    return self.region(fr, lb, b, hst, hg, b)
                outs = self.run_loop(s, G, body, fr, b)
                for t, eg, est in outs:
                    route(t, eg, est)
                continue
            for t, eg, est in self.block(fr, b, s, G):
                route(t, eg, est)
        return backs, exits

    def dead_end(self, fr, t, g, st):
        """edge into a block from which the function cannot return"""
        if self.quiet:
            return
        cfg = fr.cfg
        seen = set()
        b = t
        what, span = "unreachable", None
        while b is not None and b not in seen:
            seen.add(b)
            bb = fr.body["blocks"][b]
            if not bb or not bb[1]:
                break
            term = bb[1]
            if term[0] == "call":
                f = term[1].get("k", {}).get("fn") if "k" in term[1] else None
                what = norm_path(f["path"]) if f else "?"
                span = term[5]
                if term[4] is None:
                    break
            if term[0] == "unreachable":
                return
            ss = cfg.succ[b]
            b = ss[0] if ss else None
        c = Ctx()
        c.g, c.span = g, span
        self.event(c, "panic", what, ())

    def block(self, fr, b, st, g):
        st = dict(st)
        stmts, term = fr.body["blocks"][b]
        c = Ctx()
        c.I, c.st, c.g, c.fr, c.block = self, st, g, fr, b
        for s in stmts:
            k = s[0]
            if k == "=":
                c.span = s[3]
                ty = fr.body["locals"][s[1][0]] if not s[1][1] else None
                v = self.rvalue(fr, st, g, s[2], ty, s[3])
                self.write_place(fr, st, s[1], v, c)
            elif k == "dead":
                st.pop((fr.d, s[1]), None)
            elif k == "copynonoverlapping":
                self.event(c, "copy", "copynonoverlapping", ())
        k = term[0]
        if k == "goto":
            return [(term[1], g, st)]
        if k == "return":
            return [("ret", g, st)]
        if k == "drop":
            c.span = term[4]
            v = self.read_place(fr, st, g, term[1])
            if v is not UNINIT:
                self.event(c, "drop", term[2], (v,))
            return [(term[3], g, st)]
        if k == "assert":
            c.span = term[5]
            v = as_bool(self.operand(fr, st, g, term[1]))
            bad = b_not(v) if term[2] else v
            m = term[3]
            if b_and(bad, g) is not FALSE and m != "other" and not (isinstance(m, list) and m[0] == "other"):
                self.event(c, "assert", m[0] if isinstance(m, list) else str(m), (), cond=bad)
            return [(term[4], g, st)]
        if k == "switch":
            return self.switch(fr, st, g, term, c)
        if k == "call":
            c.span = term[5]
            return self.call_term(fr, st, g, term, c)
        return []

    def switch(self, fr, st, g, term, c):
        v = self.operand(fr, st, g, term[1])
        ty = term[2]
        outs, rest = [], TRUE
        for val, tgt in term[3]:
            val = int(val)
            if ty == "bool":
                cond = as_bool(v)
                cond = b_not(cond) if val == 0 else cond
            else:
                cond = self.discr_is(v, val)
            outs.append((tgt, cond))
            rest = b_and(rest, b_not(cond))
        outs.append((term[4], rest))
        res = {}
        live = FALSE
        for tgt, cond in outs:
            if tgt is not None and tgt in fr.cfg.returns:
                live = b_or(live, cond)
        for tgt, cond in outs:
            if tgt is None:
                continue
            if tgt in fr.cfg.returns and live is not TRUE:
                # the other edges panic: no condition is learnt from surviving them
                cond = restrict(cond, live)
            eg = b_and(g, cond)
            if eg is FALSE:
                continue
            if tgt in res:
                res[tgt] = b_or(res[tgt], eg)
            else:
                res[tgt] = eg
        # an edge into an 'unreachable' block does not exist
        out = []
        for t, eg in res.items():
            bb = fr.body["blocks"][t]
            if bb and bb[1] and bb[1][0] == "unreachable" and not bb[0]:
                continue
            out.append((t, eg, st))
        if len(out) == 1 and len(res) == 1:
            pass
        elif len(out) == 1 and len(res) > 1:
            pass
        return [(t, eg, st if len(out) == 1 else dict(st)) for t, eg, st in out]

    def discr_is(self, v, val):
        if v.op == "discr":
            x = v.a[0]
            return lift(x, lambda y: y if y is UNDEF else self.variant_cond(y, val, v.a[1]))
        if v.op == "ite":
            return lift(v, lambda y: y if y is UNDEF else self.discr_is(y, val))
        if v.op == "c" and v.a[0] == "char":
            return TRUE if ord(v.a[1]) == val else FALSE
        if v.op == "c" and v.a[0] == "bool":
            return TRUE if int(v.a[1]) == val else FALSE
        return cmp_eq(v, cint(val))

    def variant_cond(self, x, val, adt):
        if x.op == "agg":
            name = self.variant_name(x.a[0], val)
            return TRUE if x.a[1] == name else FALSE
        if adt is None:
            return b_atom(mk("isval", mk("discr", x), cint(val)))
        name = self.variant_name(adt, val)
        if name is None:
            return FALSE
        return is_variant(x, adt, name)

    def variant_name(self, adt, val):
        a = self.F.adts.get(adt)
        if a:
            for v in a["variants"]:
                if int(v["d"]) == val:
                    return v["name"]
            return None
        vs = VARIANTS.get(adt)
        if adt == ORD:
            return {255: "Less", -1: "Less", 0: "Equal", 1: "Greater"}.get(val)
        return vs[val] if vs and 0 <= val < len(vs) else None

    # ------------------------------------------------------------ calls
    def call_term(self, fr, st, g, term, c):
        f, args, dest, tgt, span, argtys, destty = term[1:8]
        vals = [self.operand(fr, st, g, a) for a in args]
        c.argtys, c.destty = argtys, destty
        if "k" in f and "fn" in f["k"]:
            c.fn = f["k"]["fn"]
            c.path = norm_path(c.fn["path"])
            r = self.call_fn(c, vals)
        else:
            fv = self.operand(fr, st, g, f)
            c.fn, c.path = None, "fnptr"
            r = self.apply(c, fv, vals)
        if r is None or tgt is None:
            return []
        if isinstance(r, list):
            # several continuations (implicit loop back edges are handled by the caller)
            outs = []
            for kind, rg, rst, rv in r:
                if kind == "ok":
                    self.write_place(fr, rst, dest, rv, c)
                    outs.append((tgt, rg, rst))
                else:
                    outs.append((kind, rg, rst))
            return outs
        self.write_place(fr, st, dest, r, c)
        return [(tgt, g, st)]

    def call_fn(self, c, vals):
        fn = c.fn
        path = c.path
        if fn.get("ctor"):
            return self.ctor(fn, vals)
        res = fn.get("res")
        if res and res.get("k") == "virtual":
            # a call through a trait object may reach any implementation, not just the default body
            res = None
        rid = res["id"] if res else None
        h = self.hooks.get(path)
        if h:
            r = h(c, vals)
            if r is not NotImplemented:
                return r
        lb = self.F.bodies.get(rid) if rid else None
        if lb is None and not res:
            lb = self.resolve_dyn(fn, vals)
        if lb is not None and lb["kind"] == "Closure" and path in CALLS and lb["name"] not in self.opaque:
            r = self.models[path](c, vals)
            if r is not NotImplemented:
                return r
        if lb is not None and path in ("core::clone::Clone::clone",):
            m = self.models.get(path)
            return m(c, vals)
        if lb is not None and lb["id"] not in self.opaque and lb["name"] not in self.opaque and path not in self.opaque:
            if not self.recursive(lb["id"]) and len(self.fstack) < self.MAXDEPTH:
                self.event(c, "enter", lb["name"], vals, id=lb["id"], argtys=c.argtys)
                r = self.call_body(lb, vals, c.st, c.g, c)
                return r
        if lb is None:
            m = self.models.get(path)
            if m:
                r = m(c, vals)
                if r is not NotImplemented:
                    return r
        return self.opaque_call(c, (lb["name"] if lb else path), vals, lb["id"] if lb else rid)

    def resolve_dyn(self, fn, vals):
        """resolve a trait method by the type of the receiver value"""
        if not vals or fn.get("kind") != "AssocFn" or not fn.get("trait"):
            return None
        v = vals[0]
        if v.op == "agg" and v.a[0].startswith("cres::"):
            for b in self.F.impls.get(fn["path"], []):
                if (b["impl_self"] or "").split("<")[0] == v.a[0].split("<")[0]:
                    return b
        return None

    def ctor(self, fn, vals):
        p = fn["ctor"]
        # enum variant or tuple struct
        adt, _, v = p.rpartition("::")
        q = norm_path(adt)
        a = self.F.adts.get(adt) or self.F.adts.get(q)
        names = [str(i) for i in range(len(vals))]
        if q in VARIANTS or (a and a["kind"] == "enum"):
            return agg(q if q in VARIANTS else adt, v, names, vals)
        return agg(norm_path(p), None, names, vals)

    def opaque_call(self, c, name, vals, rid=None):
        """uninterpreted call: a function of the argument values; &mut arguments get new contents"""
        snap = [self.deep(c.st, v) for v in vals]
        e = self.event(c, "call", name, snap, id=rid, argtys=c.argtys)
        targs = tuple(c.fn["args"]) if c.fn and name in GENERIC_NAMES else ()
        r = mk("call", name, *snap) if not targs else mk("call", name + "<" + ",".join(targs) + ">", *snap)
        if e:
            e.res = r
        for i, v in enumerate(vals):
            self.havoc(c, v, r, i)
        if c.destty == "()":
            return UNIT
        return r

    def havoc(self, c, v, r, i):
        for cond, x in cases(v):
            if x.op == "ref":
                old = self.read_ref(c.st, x)
                while old.op == "ref":
                    # `&mut &mut T`: what changes is the T
                    x, old = old, self.read_ref(c.st, old)
                self.write_ref(c.st, x, (), mk("post", r, i) if cond is TRUE else ite(cond, mk("post", r, i), old), None)
            elif x.op == "agg":
                for j, y in enumerate(x.a[3]):
                    if contains(y, lambda t: t.op == "ref"):
                        self.havoc(c, y, r, (i, j) if not isinstance(i, tuple) else i + (j,))

    def deep(self, st, v):
        """snapshot of a value with its references replaced by what they point to"""
        if v.op in ("c", "param"):
            return v
        if not contains(v, lambda t: t.op == "ref"):
            return v
        def f(x):
            if x.op == "ref":
                y = self.read_ref(st, x)
                while y.op == "ref":
                    y = self.read_ref(st, y)
                return y
            return None
        return rewrite(v, f)

    def apply(self, c, f, vals):
        """call a callable value"""
        if f.op == "ref":
            inner = self.read_ref(c.st, f)
            if inner.op == "agg" and inner.a[0].startswith("closure:"):
                b = self.F.bodies.get(inner.a[0][8:])
                if b:
                    env = f if b["locals"][1].startswith("&") and "mut " in b["locals"][1][:12] else inner
                    return self.call_closure(c, b, env, vals)
            f = inner
        if f.op == "ite":
            cs = [(cd, x) for cd, x in cases(f) if x is not UNDEF]
            if len(cs) == 1:
                return self.apply(c, cs[0][1], vals)
            outs, res = [], UNDEF
            for cd, x in cs:
                gg = b_and(c.g, cd)
                if gg is FALSE:
                    continue
                c2 = self.sub_ctx(c, gg, dict(c.st))
                r = self.apply(c2, x, vals)
                if r is None:
                    continue
                outs.append((gg, c2.st))
                res = ite(restrict(cd, c.g), r, res)
            if not outs:
                return None
            _, m = self.merge(outs)
            c.st.clear()
            c.st.update(m)
            return res
        if f.op == "agg" and f.a[0].startswith("closure:"):
            b = self.F.bodies.get(f.a[0][8:])
            if b and len(self.fstack) < self.MAXDEPTH and not any(x.body["id"] == b["id"] for x in self.fstack):
                if b["locals"][1].startswith("&"):
                    if "mut " in b["locals"][1][:12]:
                        loc = self.fresh_loc(c.st, f)
                        r = self.call_closure(c, b, mk("ref", loc, ()), vals)
                        c.st.pop(loc, None)
                        return r
                return self.call_closure(c, b, f, vals)
        if f.op == "fn":
            key = f.a[0]
            c2 = self.sub_ctx(c, c.g, c.st)
            c2.fn, c2.path = key.fn, norm_path(key.fn["path"])
            c2.argtys = [None] * len(vals)
            c2.block = None
            c2.destty = c.destty
            return self.call_fn(c2, vals)
        # opaque callable
        snap = [self.deep(c.st, v) for v in vals]
        r = mk("call", "apply", self.deep(c.st, f), *snap)
        e = self.event(c, "apply", "apply", [f] + snap)
        if e:
            e.res = r
        for i, v in enumerate(vals):
            self.havoc(c, v, r, i)
        return r

    def call_closure(self, c, b, env, vals):
        if b["argc"] == 2 and len(vals) != 1:
            # closure called with an untupled argument list of another length
            pass
        return self.call_body(b, [env] + list(vals), c.st, c.g, c)

    def sub_ctx(self, c, g, st):
        c2 = Ctx()
        for s in Ctx.__slots__:
            if hasattr(c, s):
                setattr(c2, s, getattr(c, s))
        c2.g, c2.st = g, st
        return c2

    def branch(self, c, cond, then, els):
        """evaluate then/els (functions of a context) under cond / not cond and merge states; returns value or None"""
        cond = as_bool(cond)
        res, outs = UNDEF, []
        for cd, fn in ((cond, then), (b_not(cond), els)):
            gg = b_and(c.g, cd)
            if gg is FALSE:
                continue
            c2 = self.sub_ctx(c, gg, dict(c.st))
            r = fn(c2)
            if r is None:
                continue
            outs.append((gg, c2.st, cd, r))
        if not outs:
            return None
        if len(outs) == 1:
            m, res = outs[0][1], outs[0][3]
        else:
            _, m = self.merge([(o[0], o[1]) for o in outs])
            res = ite(outs[0][2], outs[0][3], outs[1][3])
        c.st.clear()
        c.st.update(m)
        return res

    # ------------------------------------------------------------ loops
    def gen(self, L, H, N, key, demoted):
        """anti-unification of the header value H and the back-edge value N"""
        if N is H:
            return H
        if H.op == "car" and H.a[0] == L:
            return H
        if key not in demoted and N is subst(H, {mk("i", L): add(mk("i", L), ONE)}):
            return H
        if N.op == "it" and H.op not in ("it", "ite", "car", "agg", "ref") and N.a[0].op == "st" and N.a[0].a[0] == "seq" and N.a[0].a[1] is H:
            H = mk("it", N.a[0], ZERO)      # an iterator that has not been advanced yet
        if H.op == "with" or N.op == "with":
            bh, dh = strip_with(H)
            bn, dn = strip_with(N)
            if bh is bn:
                r = bh
                for n in sorted(set(dh) | set(dn)):
                    r = with_field(r, n, self.gen(L, field(H, n), field(N, n), key + (n,), demoted))
                return r
        if H.op == N.op and H.op in ("agg", "it", "st", "ref") and len(H.a) == len(N.a):
            if H.op == "agg":
                if H.a[:3] == N.a[:3] and len(H.a[3]) == len(N.a[3]) and H.a[0] not in ("array", "vec"):
                    return mk("agg", *H.a[:3], tuple(self.gen(L, h, n, key + (j,), demoted) for j, (h, n) in enumerate(zip(H.a[3], N.a[3]))))
            elif H.op in ("it", "st"):
                if all(isinstance(h, T) == isinstance(n, T) and (isinstance(h, T) or h == n) for h, n in zip(H.a, N.a)):
                    return mk(H.op, *[self.gen(L, h, n, key + (j,), demoted) if isinstance(h, T) else h for j, (h, n) in enumerate(zip(H.a, N.a))])
        demoted.add(key)
        return mk("car", L, key)

    def match(self, L, H, v, out):
        """values of the slots of template H in v"""
        if H.op == "car" and H.a[0] == L:
            out[H] = v
        elif H.op in ("agg", "it", "st", "with") and loopsyms_has(H, L):
            if H.op == "it" and v.op not in ("it", "ite", "car") and H.a[0].op == "st" and H.a[0].a[1] is v:
                v = mk("it", H.a[0], ZERO)
            if H.op == "with":
                b, d = strip_with(H)
                for n, h in d.items():
                    self.match(L, h, field(v, n), out)
            elif H.op == "agg":
                if v.op == "agg" and v.a[:3] == H.a[:3]:
                    for h, x in zip(H.a[3], v.a[3]):
                        self.match(L, h, x, out)
                else:
                    for n, h in zip(H.a[2], H.a[3]):
                        self.match(L, h, field(v, n), out)
            elif v.op == H.op:
                for h, x in zip(H.a, v.a):
                    if isinstance(h, T):
                        self.match(L, h, x, out)

    def run_loop(self, st, g, body, fr, header, info=None):
        """-> [(target, guard, state)]"""
        self.nloop += 1
        L = self.nloop
        iL = mk("i", L)
        lp = Loop()
        lp.id, lp.guard, lp.fn, lp.header = L, g, fr.body["id"] if fr else None, header
        lp.parents = tuple(self.lstack)
        lp.info = info
        lp.stack = tuple(f.body["id"] for f in self.fstack)
        mark = (len(self.events), self.nloop, self.ntmp)
        template, inductive, noind = {}, {}, set()
        depth = len(self.fstack) if fr is None else fr.d + 1
        final = False
        for it in range(30):
            del self.events[mark[0]:]
            self.nloop, self.ntmp = mark[1], mark[2]
            hst = dict(st)
            hst.update(template)
            self.lstack.append(L)
            self.hstack.append(hst)
            try:
                backs, exits = body(dict(hst), g)
            finally:
                self.lstack.pop()
                self.hstack.pop()
            changed = False
            slots = {}
            if backs:
                BG, N = self.merge(backs)
                for loc, nv in N.items():
                    hv = hst.get(loc)
                    if hv is None:
                        hv = self.obj_default(loc)
                        if hv is None:
                            continue
                        if contains(hv, lambda t: t.op in ("i", "car") and t.a[0] == L):
                            continue
                    if nv is hv or hv is UNINIT:
                        continue
                    nh = self.gen(L, hv, nv, (loc,), noind)
                    if nh is not hv:
                        template[loc] = nh
                        changed = True
                if it > 16 and changed:
                    # give up on components
                    for loc in list(template):
                        template[loc] = mk("car", L, (loc,))
                if not changed:
                    inits, nexts = {}, {}
                    for loc, hv in template.items():
                        self.match(L, hv, self.get_loc(st, loc), inits)
                        self.match(L, hv, self.get_loc(N, loc), nexts)
                    ind = {}
                    for s, nx in nexts.items():
                        if s in noind or s not in inits:
                            continue
                        d = p_add(nx, s, -1)
                        if is_num(d) and nx.op != "ite" and s not in inductive:
                            ind[s] = add(inits[s], mul(d, iL))
                        elif nx.op == "cur" and nx.a[0] is s and L not in loopsyms(nx.a[1]) and s not in inductive and inits[s].op != "ite":
                            ind[s] = cur(inits[s], mul(iL, nx.a[1]))
                    if ind:
                        for loc in template:
                            template[loc] = subst(template[loc], ind)
                        for s in ind:
                            inductive[s] = ind[s]
                        # a rerun confirms or demotes them
                        noind_before = set(noind)
                        changed = True
                        noind = set()
                    lp.inits, lp.nexts, lp.template, lp.backguard = inits, nexts, dict(template), BG
            else:
                lp.inits, lp.nexts, lp.template, lp.backguard = {}, {}, {}, FALSE
            if not changed:
                break
        else:
            self.notes.append("loop %s in %s did not stabilise" % (L, lp.fn))
        lp.passes = it + 1
        self.loops[L] = lp
        self.last_loop = L
        lp.exits = {}
        lp.closes = {}
        out = []
        items = []
        for t, es in exits.items():
            EG, es_ = self.merge(es)
            items.append((t, EG, es_))
        items.sort(key=lambda x: (isinstance(x[0], str), x[0]))
        if not backs:
            lp.trip = None
            for k, (t, EG, es_) in enumerate(items):
                out.append((t, EG, es_))
                lp.exits[t] = (EG, es_, es_)
            return out
        n = len(items)
        rest = TRUE
        lp.trip = None
        for k, (t, EG, es_) in enumerate(items):
            cond = restrict(EG, g)
            trip = trip_count(cond, iL, L)
            close, summ = {}, (trip is not None)
            if trip is not None:
                lp.trip, lp.trip_exit = trip, t
                close[iL] = trip
            else:
                close[iL] = mk("fin", L, k, "i")
            for s in lp.inits:
                v = None
                if trip is not None and s in lp.nexts:
                    v = summarise(L, iL, trip, s, lp.inits[s], lp.nexts[s], lp.backguard, g)
                close[s] = v if v is not None else mk("fin", L, k, keyname(s.a[1]))
            lp.close = close
            lp.closes[t] = close
            memo = Closer(close)
            ns = {}
            for loc, v in es_.items():
                if isinstance(loc[0], int) and fr is not None and loc not in st and loc[0] > fr.d:
                    continue
                if st.get(loc) is v:
                    ns[loc] = v
                else:
                    ns[loc] = memo(v)
            # locations named after per-iteration values
            for loc in list(ns):
                if loc[0] == "obj" and contains(loc[1], lambda x: x.op in ("i", "car") and x.a[0] == L):
                    v = ns.pop(loc)
                    self.family(ns, L, iL, trip, loc, v)
            if k == n - 1:
                at = rest
            else:
                at = b_atom(mk("exit", L, k))
                rest = b_and(rest, b_not(at))
            lp.exits[t] = (EG, es_, ns, at)
            out.append((t, b_and(g, at), ns))
        return out

    def family(self, st, L, iL, trip, loc, v):
        """contents of a family of objects indexed by the loop counter"""
        if v is loc[1]:
            return
        st[("fam", loc[1])] = v
        for l in list(st):
            if l[0] == "obj" and l[1].op == "cont" and may_alias(l[1], loc[1]):
                st[l] = mk("clobbered", l[1], v)

def nonneg(t):
    """t >= 0 because it is a sum of counters and lengths"""
    parts = dict(t.a[0]) if t.op == "poly" else {(): t.a[1]} if is_num(t) else {((t, 1),): Fraction(1)}
    return all(c >= 0 and all(x.op in ("i", "bv", "len") for x, _ in m) for m, c in parts.items())

def map_set(m, k, v):
    """the map m with v under the key k"""
    def strip(x):
        while x.op == "minsert" and x.a[1] is k:
            x = x.a[0]
        return x
    if m.op == "ite":
        bs = {strip(l) for l in leaves(m)}
        if len(bs) == 1:
            m = bs.pop()
    return mk("minsert", strip(m), k, v)

def map_get(v, k):
    def f(x):
        if x.op == "minsert":
            if x.a[1] is k:
                return some(x.a[2])
        if x.op == "emptymap":
            return NONE
        return mk("call", "map_get", x, k)
    return lift(v, f)

def may_alias(a, b):
    """can two object names denote the same object?  False only if an index provably differs"""
    if a is b:
        return True
    if a.op != b.op or len(a.a) != len(b.a):
        return False if a.op in ("fld", "cont") and b.op in ("fld", "cont") else True
    if a.op == "idx":
        if a.a[0] is b.a[0]:
            d = p_add(a.a[1], b.a[1], -1)
            if is_num(d):
                return d is ZERO
            for e in (d, neg(d)):
                if nonneg(p_add(e, ONE, -1)):
                    return False
            # distinct positions of the same sequence of distinct indices: recurse into the index term
            if a.a[1].op == "idx" and b.a[1].op == "idx" and a.a[1].a[0] is b.a[1].a[0]:
                return may_alias(a.a[1], b.a[1])
        return True
    for x, y in zip(a.a, b.a):
        if isinstance(x, T) and isinstance(y, T):
            if not may_alias(x, y):
                return False
        elif x != y:
            return False
    return True

def strip_with(t):
    d = {}
    while t.op == "with":
        d.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    return t, d

def keyname(k):
    return repr(k)

class FnKey:
    """hashable wrapper of a callee record"""
    __slots__ = ("fn", "k")
    def __init__(self, fn):
        self.fn = fn
        r = fn.get("res")
        self.k = (r["id"] if r else fn["path"], tuple(fn["args"]) if not r else tuple(r.get("args") or ()))
    def __hash__(self):
        return hash(self.k)
    def __eq__(self, o):
        return isinstance(o, FnKey) and self.k == o.k
    def __repr__(self):
        return self.k[0]

GENERIC_NAMES = {"core::str::{str}::parse", "core::default::Default::default"}

def is_boolish(t):
    if is_bool_const(t):
        return True
    return t.op == "ite" and all(is_bool_const(l) or l is UNDEF for l in leaves(t))

def loopsyms_has(t, L):
    return L in loopsyms(t)

class Closer:
    def __init__(self, m):
        self.m = m
        self.keys = set(m)
        self.Ls = set(x.a[0] for x in m)
    def __call__(self, v):
        if not (loopsyms(v) & self.Ls):
            return v
        return subst(v, self.m)

def trip_count(cond, iL, L):
    """n if cond (exit condition) is exactly not (i < n) with n independent of the loop"""
    cands = []
    for at in atoms(cond):
        if at.op != "sgn":
            continue
        p = at.a[0]
        parts = dict(p.a[0]) if p.op == "poly" else {((p, 1),): Fraction(1)}
        c = parts.get(((iL, 1),))
        if c is None:
            continue
        rest = p_add(p, mul(cint(c), iL), -1)
        n = neg(p_mul(rest, cint(1 / c)))
        for cand in (n, add(n, ONE)):
            if L in loopsyms(cand):
                continue
            if L in loopsyms(cand):
                continue
            if b_not(cmp_lt(iL, cand)) is cond:
                return cand
            if cand not in cands:
                cands.append(cand)
        if cmp_eq(iL, n) is cond and L not in loopsyms(n):
            return n
    if 2 <= len(cands) <= 6:
        import itertools
        for r in (2, 3):
            for cs in itertools.combinations(cands, r):
                c = TRUE
                for n in cs:
                    c = b_and(c, cmp_lt(iL, n))
                if b_not(c) is cond:
                    return mk("min", *sorted(cs, key=lambda t: t.id))
        for x, y in itertools.permutations(cands, 2):
            d = cmp_lt(x, y)
            if restrict(cond, d) is b_not(cmp_lt(iL, x)) and restrict(cond, b_not(d)) is b_not(cmp_lt(iL, y)):
                return mk("min", *sorted((x, y), key=lambda t: t.id))
    return None

def bvdepth(t):
    m = 0
    for x in subterms(t):
        if x.op == "bv":
            m = max(m, x.a[0])
    return m

def close_over(body, iL, *more):
    """(bound variable, body with the loop counter replaced by it)"""
    d = 1 + max([bvdepth(body)] + [bvdepth(m) for m in more])
    bv = mk("bv", d)
    return bv, subst(body, {iL: bv}), [subst(m, {iL: bv}) for m in more]

def t_sum(n, body, iL):
    bv, b, _ = close_over(body, iL)
    return mk_sum(n, b, bv)

def mk_sum(n, b, bv):
    if b is ZERO:
        return ZERO
    if is_num(n) and n.a[1].denominator == 1 and n.a[1] <= 8:
        r = ZERO
        for k in range(int(n.a[1])):
            r = add(r, subst(b, {bv: cint(k)}))
        return r
    if is_num(b) or not contains(b, lambda x: x is bv):
        return mul(n, b)
    # the elements of the lists in a list, one list after the other
    if n.op == "len" and n.a[0].op == "concat" and n.a[0].a[0].op == "comp" and n.a[0].a[0].a[3] == "seq":
        C, K = n.a[0], n.a[0].a[0]
        el, i, j = mk("sym", "element of all"), mk("sym", "outer of all"), mk("sym", "inner of all")
        e = subst(b, {mk("idx", C, bv): el})
        if not contains(e, lambda x: x is bv or x is i):
            at = lambda t: subst(t, {K.a[4]: i})
            X = at(K.a[1])
            return t_sum(K.a[0], ite(at(K.a[2]), t_sum(length(X), subst(e, {el: index(X, j)}), j), ZERO), i)
    # linearity: pull out constant factors, split sums
    if b.op == "poly":
        r = ZERO
        for mono, c in b.a[0]:
            inn = tuple((x, e) for x, e in mono if contains(x, lambda y: y is bv))
            outm = tuple((x, e) for x, e in mono if not contains(x, lambda y: y is bv))
            o = ONE
            from .terms import _from_parts
            o = _from_parts({outm: c})
            i = _from_parts({inn: Fraction(1)})
            s = mul(n, o) if not inn else mul(o, mk("sum", n, i, bv))
            r = add(r, s)
        return r
    return mk("sum", n, b, bv)

def comp(n, body, cond, kind, iL):
    bv, b, (c,) = close_over(body, iL, cond)
    return mk_comp(n, b, c, kind, bv)

def mk_comp(n, b, c, kind, bv):
    # identity comprehension
    if c is TRUE and kind == "seq" and b.op == "idx" and b.a[1] is bv and length(b.a[0]) is n and not contains(b.a[0], lambda x: x is bv):
        return b.a[0]
    return mk("comp", n, b, c, kind, bv)

EMPTY = agg("vec", None, (), ())

def cat(a, b):
    if a is EMPTY:
        return b
    if b is EMPTY:
        return a
    return mk("cat", a, b)

def push(v, x):
    def f(a):
        if a.op == "agg" and a.a[0] == "vec":
            return agg("vec", None, (), a.a[3] + (x,))
        return mk("push", a, x)
    return lift(v, f)

def store(v, i, val):
    def f(x):
        if x.op == "agg" and x.a[0] in ("array", "vec") and is_num(i) and 0 <= i.a[1] < len(x.a[3]):
            k = int(i.a[1])
            return agg(x.a[0], None, (), x.a[3][:k] + (val,) + x.a[3][k + 1:])
        if val.op == "idx" and val.a[0] is x and val.a[1] is i:
            return x
        if x.op == "store" and x.a[1] is i:
            x = x.a[0]
        if x is UNDEF:
            return x
        return mk("store", x, i, val)
    return lift(v, f)

def splice(v, lo, hi, new):
    return mk("splice", v, lo, hi, new)

def summarise(L, iL, n, s, init, nx, BG, g):
    """closed form of a loop-carried value after n iterations, or None"""
    cond_ok = lambda t: L not in loopsyms(t) or all(x is iL for x in subterms(t) if x.op in ("car", "i") and x.a[0] == L)
    if n is ONE:
        v = subst(nx, {s: init, iL: ZERO})
        if L not in loopsyms(v):
            return v
    # sum
    d = add_diff(nx, s)
    if d is not None and cond_ok(d):
        return add(init, t_sum(n, d, iL))
    # a text read a fixed number of entries at a time
    if nx.op == "cur" and nx.a[0] is s and L not in loopsyms(nx.a[1]):
        return lift(init, lambda x: cur(x, mul(n, nx.a[1])))
    # push
    cs = cases(nx)
    pushes = [(c, x) for c, x in cs if x.op == "push" and x.a[0] is s]
    keep = [(c, x) for c, x in cs if x is s]
    if pushes and len(pushes) + len(keep) == len(cs):
        c, e = FALSE, None
        for cc, x in pushes:
            c = b_or(c, cc)
            e = x.a[1] if e is None else ite(cc, x.a[1], e)
        if cond_ok(e) and cond_ok(c):
            return cat(init, comp(n, e, c, "seq", iL))
    # lists appended to a list
    app = [(c, x) for c, x in cs if x.op == "cat" and x.a[0] is s]
    if app and len(app) + len(keep) == len(cs):
        c, e = FALSE, None
        for cc, x in app:
            c = b_or(c, cc)
            e = x.a[1] if e is None else ite(cc, x.a[1], e)
        if cond_ok(e) and cond_ok(c):
            return cat(init, mk("concat", comp(n, e, c, "seq", iL)))
    # entries put into a map that starts empty
    ins = [(c, x) for c, x in cs if x.op == "minsert" and x.a[0] is s]
    if ins and init.op == "emptymap" and all(x is s or x.op == "minsert" and x.a[0] is s for _, x in cs):
        c, e = FALSE, None
        for cc, x in ins:
            y = agg("tuple", None, ("0", "1"), (x.a[1], x.a[2]))
            c = b_or(c, cc)
            e = y if e is None else ite(cc, y, e)
        if cond_ok(e) and cond_ok(c):
            return mk("mapof", "HashMap", comp(n, e, c, "seq", iL))
    # every element of a sequence gets an increment: v[k] += e(k, i)
    if nx.op == "comp" and nx.a[2] is TRUE and nx.a[3] == "seq" and nx.a[0] is length(s):
        bv = nx.a[4]
        me = index(s, bv)
        d = p_add(nx.a[1], me, -1) if nx.a[1].op == "poly" and dict(nx.a[1].a[0]).get(((me, 1),)) == 1 else None
        if d is not None and cond_ok(d):
            b = add(index(init, bv), t_sum(n, d, iL))
            bv2 = mk("bv", 1 + max(bvdepth(b), bvdepth(init)))
            return mk_comp(length(init), subst(b, {bv: bv2}), TRUE, "seq", bv2)
    # element-wise update of a sequence: v[i] = f(v[i], i)
    if nx.op == "store" and nx.a[0] is s and nx.a[1] is iL:
        me = mk("idx", s, iL)
        e = subst(nx.a[2], {me: index(init, iL)})
        if cond_ok(e):
            if n is length(init):
                return comp(n, e, TRUE, "seq", iL)
            if is_num(n) and n.a[1] <= 8:
                v = init
                for k in range(int(n.a[1])):
                    v = store(v, cint(k), subst(e, {iL: cint(k)}))
                return v
            return mk("updrange", init, n, close_over(e, iL)[1])
    if any(x.op == "store" for _, x in cs) and all(x is s or (x.op == "store" and x.a[0] is s and x.a[1] is iL) for _, x in cs) and n is length(init):
        me = mk("idx", s, iL)
        e = me
        for c, x in cs:
            if x.op == "store":
                e = ite(c, x.a[2], e)
        e = subst(e, {me: index(init, iL)})
        if cond_ok(e):
            return comp(n, e, TRUE, "seq", iL)
    return None

def add_diff(nx, s):
    """e such that nx == s + e with e free of s, for a decision diagram nx; None otherwise"""
    def ok(x):
        if x is UNDEF:
            return x
        d = p_add(x, s, -1)
        return d
    # must really be additive: every leaf is a polynomial with s as a linear term
    for l in leaves(nx):
        if l is UNDEF:
            continue
        if l is s:
            continue
        if l.op != "poly":
            return None
        parts = dict(l.a[0])
        if parts.get(((s, 1),)) != 1:
            return None
        if any(contains(x, lambda y: y is s) for m in parts for x, _ in m if m != ((s, 1),)):
            return None
    d = lift(nx, ok)
    return d
