"""Queries over the analysis results that several rules share."""
from .terms import *
from .terms import rebuild_atom
from fractions import Fraction
import re
from .interp import bvdepth, mk_sum

# ------------------------------------------------------------------ sums
def fold_sums(t):
    """peeled sums: f(-1)+sum(n,f(1+.)) etc. become one sum over the full range"""
    def f(x):
        if x.op != "poly":
            return None
        return _fold_poly(x)
    return rewrite(t, f)

def _fold_poly(x):
    cur = dict(x.a[0])
    for _ in range(8):
        done = True
        for m, c in list(cur.items()):
            ss = [(s, e) for s, e in m if s.op == "sum" and e == 1]
            if len(ss) != 1:
                continue
            s = ss[0][0]
            rest = tuple(p for p in m if p[0] is not s)
            n, body, bv = s.a
            # sum(n-1, f(bv+1)) peel: body(-1) ; peel last: body(n)
            for at, shift in ((cint(-1), True), (n, False)):
                extra = _scale(subst(body, {bv: at}), rest, c)
                if extra and all(k in cur and cur[k] == v for k, v in extra.items()):
                    for k in extra:
                        del cur[k]
                    del cur[m]
                    nb = subst(body, {bv: add(bv, cint(-1))}) if shift else body
                    ns = mk("sum", add(n, ONE), nb, bv)
                    k = tuple(sorted(rest + ((ns, 1),), key=lambda q: q[0].id))
                    cur[k] = cur.get(k, 0) + c
                    done = False
                    break
            if not done:
                break
        if done:
            break
    return _from_parts(cur)

from .terms import _from_parts, _poly_parts

def _scale(t, rest, c):
    if t.op == "ite":
        return None
    p = ZERO
    r = cint(c)
    for x, e in rest:
        y = x
        if e < 0:
            y, e = p_inv(x), -e
        for _ in range(e):
            r = mul(r, y)
    return _poly_parts(mul(t, r))

def unsort_sums(t):
    """a sum over a whole sorted/permuted sequence is the sum over the sequence"""
    def f(x):
        if x.op != "sum":
            return None
        n, body, bv = x.a
        for s in subterms(body):
            if s.op == "idx" and s.a[1] is bv and s.a[0].op in ("sorted", "permuted") and length(s.a[0].a[-1]) is n:
                seqt = s.a[0]
                nb = rewrite(body, lambda y: index(seqt.a[-1], bv) if y is s else None)
                # only if bv is used nowhere else
                hole = rewrite(body, lambda y: mk("sym", "hole") if y is s else None)
                if not contains(hole, lambda y: y is bv):
                    return mk("sum", n, nb, bv)
        return None
    return rewrite(t, f)

def canon_bv(t):
    """bound variables renamed by nesting depth"""
    def f(x):
        if x.op == "sum" and x.a[2].op == "bv":
            n, body, bv = x.a
            d = depth(body, bv)
            nb = mk("bv", ("q", d))
            return mk("sum", n, subst(body, {bv: nb}), nb)
        return None
    def depth(b, own):
        ds = [y.a[0][1] for y in subterms(b) if y.op == "bv" and isinstance(y.a[0], tuple)]
        return max(ds, default=-1) + 1
    return rewrite(t, f)

def norm_sums(t):
    return canon_bv(unsort_sums(fold_sums(t)))

# ------------------------------------------------------------------ integer facts
def isnn(t):
    """terms that are non-negative integers"""
    return t.op in ("len", "i", "rem") or (t.op == "bv")

def loop_facts(I, loops):
    """[(i_L, trip_L)] of the loops around an event"""
    out = []
    for L in loops:
        l = I.loops.get(L)
        if l is not None and l.trip is not None:
            out.append((mk("i", L), l.trip))
    return out

def sign(p, facts, pos=()):
    """set of possible signs of the linear form p given 0<=i<trip for the facts and t>=1 for t in pos"""
    if is_num(p):
        v = p.a[1]
        return {-1 if v < 0 else (1 if v > 0 else 0)}
    opts = [p]
    for i, T in facts:
        r = mk("rem", i)
        new = []
        for q in opts:
            new.append(q)
            if any(x is i for x in subterms(q)):
                new.append(subst(q, {i: add(add(T, cint(-1)), mul(cint(-1), r))}))
            if T.op not in ("poly", "c"):
                new.append(subst(q, {T: add(add(i, ONE), r)}))
        opts = new
    res = {-1, 0, 1}
    for q in opts:
        for t in pos:
            q = subst(q, {t: add(mk("rem", t), ONE)})
        d = _poly_parts(q)
        if not all(len(m) == 0 or all(isnn(x) for x, e in m) for m in d):
            continue
        c0 = d.get((), 0)
        rest = [c for m, c in d.items() if m]
        if all(c >= 0 for c in rest) and c0 >= 0:
            res &= {1} if c0 > 0 else {0, 1}
        if all(c <= 0 for c in rest) and c0 <= 0:
            res &= {-1} if c0 < 0 else {0, -1}
    return res

def simp(g, facts, pos=()):
    """decision diagram g under the integer facts"""
    memo = {}
    def go(x):
        if x.op != "ite":
            return x
        r = memo.get(x)
        if r is None:
            at, hi, lo = x.a
            v = None
            if at.op == "sgn":
                s = sign(at.a[0], facts, pos)
                want = -1 if at.a[1] == "lt" else 0
                if s == {want}:
                    v = True
                elif want not in s:
                    v = False
            if v is True:
                r = go(hi)
            elif v is False:
                r = go(lo)
            else:
                r = ite(b_atom(at), go(hi), go(lo))
            memo[x] = r
        return r
    return go(g)

def always(I, e, pos=()):
    """the event happens in every iteration of the loops around it"""
    return simp(e.guard, loop_facts(I, e.loops), pos) is TRUE

def interval(idx, I, loops):
    """[lo,hi) covered by index term idx over the loops, or None"""
    ls = [L for L in loops if contains(idx, lambda x: x is mk("i", L))]
    if not ls:
        return idx, add(idx, ONE)
    if len(ls) > 1:
        return None
    i = mk("i", ls[0])
    T = I.loops[ls[0]].trip if ls[0] in I.loops else None
    if T is None:
        return None
    d = sub(idx, i)
    if not contains(d, lambda x: x is i):
        return d, add(d, T)
    d = add(idx, i)
    if not contains(d, lambda x: x is i):
        return add(sub(d, T), ONE), add(d, ONE)
    return None

def covers(ivals, lo, hi):
    """the intervals (terms) chain from lo to hi without gap"""
    cur = lo
    left = list(ivals)
    for _ in range(len(left) + 1):
        if cur is hi:
            return True
        nxt = next((v for v in left if v[0] is cur), None)
        if nxt is None:
            return False
        left.remove(nxt)
        cur = nxt[1]
    return cur is hi

# ------------------------------------------------------------------ shapes
def calls(I, name, kind=None):
    """events whose callee's last path segments are `name`"""
    return [e for e in I.events if e.name and matches(e.name, name) and (kind is None or e.kind == kind)]

def matches(path, name):
    from .interp import norm_path
    p = norm_path(path) if isinstance(path, str) else str(path)
    return p == name or p.endswith("::" + name)

def is_call(t, name):
    return t.op == "call" and isinstance(t.a[0], str) and matches(t.a[0], name)

def strip_sorted(t):
    while t.op in ("sorted", "permuted"):
        t = t.a[-1]
    return t

# ------------------------------------------------------------------ loop records
def at_exit(I, L, t, k):
    """value t (computed after loop L) when L is left through exit number k, in terms of the
    loop-head symbols of the last, incomplete iteration"""
    by = {repr(s.a[1]): s for s in I.loops[L].inits}
    memo = {}
    def pick(x):
        # choose the branch of every exit atom of this loop first
        if x.op == "ite":
            at = x.a[0]
            if at.op == "exit" and at.a[0] == L:
                return pick(x.a[1]) if at.a[1] == k else pick(x.a[2])
            r = memo.get(x)
            if r is None:
                r = memo[x] = ite(rebuild_atom(at, pick), pick(x.a[1]), pick(x.a[2]))
            return r
        ks = list(kids(x))
        if not ks:
            return x
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x, pick)
        return r
    def f(x):
        if x.op == "fin" and x.a[0] == L and x.a[1] == k:
            return mk("i", L) if x.a[2] == "i" else by.get(x.a[2])
        return None
    return rewrite(pick(t), f)

def exits(I, L):
    """[(number, guard, closed, at)]"""
    out = []
    for k, (t, x) in enumerate(I.loops[L].exits.items()):
        out.append((k, x[0], x))
    return out

# ---------------------------------------------------------------- paths and linear reasoning
def paths(t, cap=4000):
    """[(literals, leaf)] of a decision diagram; a literal is (atom, bool)"""
    out = []
    def go(x, lits):
        if x.op != "ite":
            out.append((lits, x))
            if len(out) > cap:
                raise RuntimeError("too many paths")
            return
        at, hi, lo = x.a
        go(hi, lits + ((at, True),))
        go(lo, lits + ((at, False),))
    go(t, ())
    return out

def signs_of(lits):
    """{polynomial: set of signs it may have on the path}"""
    d = {}
    for at, v in lits:
        if at.op == "sgn":
            s = d.setdefault(at.a[0], {-1, 0, 1})
            k = -1 if at.a[1] == "lt" else 0
            d[at.a[0]] = s & {k} if v else s - {k}
    return d

def spread(t):
    """decisions inside an aggregate moved outside (Some(if c {x} else {y}) becomes if c {Some(x)} else {Some(y)})"""
    def f(x):
        if x.op == "agg" and any(isinstance(v, T) and v.op == "ite" for v in x.a[3]):
            vs = x.a[3]
            j = next(j for j, v in enumerate(vs) if v.op == "ite")
            return lift(vs[j], lambda l: f(agg(x.a[0], x.a[1], x.a[2], vs[:j] + (l,) + vs[j + 1:])) or agg(x.a[0], x.a[1], x.a[2], vs[:j] + (l,) + vs[j + 1:]))
        return None
    return rewrite(t, f)

def constraints(lits):
    """[(p, strict)] with p <= 0 (p < 0 if strict) known on the path"""
    out = []
    for p, s in signs_of(lits).items():
        if s <= {-1, 0}:
            out.append((p, s == {-1}))
        if s <= {0, 1}:
            out.append((neg(p), s == {1}))
    return out

def entails_le(q, cons, depth=3):
    """q <= 0 follows from the constraints (sum of at most `depth` of them, unit coefficients)"""
    if is_num(q):
        return q.a[1] <= 0
    if depth == 0:
        return False
    vs = set(_poly_parts(q)) - {()}
    for p, _ in cons:
        if vs & set(_poly_parts(p)):
            r = sub(q, p)
            if len(set(_poly_parts(r)) - {()}) <= len(vs) and entails_le(r, cons, depth - 1):
                return True
    return False

def no_abs(t, n, s):
    """t with |n| resolved for a polynomial n whose sign is s"""
    k, p = normalise(n)
    def f(x):
        if x.op == "abs" and x.a[0] is p:
            return mul(cint(s if k > 0 else -s), p) if s else ZERO
        return None
    return rewrite(t, f)

# ---------------------------------------------------------------- call graph
def owner(i):
    """the function a closure belongs to"""
    return i.split("::{closure")[0]

def callgraph(F):
    """function id -> ids of the functions it (or a closure written in it) names"""
    if getattr(F, "_cg", None) is None:
        cg = {}
        for k, b in F.bodies.items():
            out = cg.setdefault(owner(k), set())
            def fns(x):
                if isinstance(x, dict):
                    if "path" in x and isinstance(x["path"], str):
                        out.add(x["id"])
                        r = x.get("res")
                        if isinstance(r, dict) and isinstance(r.get("id"), str):
                            out.add(r["id"])
                    for v in x.values():
                        fns(v)
                elif isinstance(x, list):
                    for v in x:
                        fns(v)
            fns(b["blocks"])
        F._cg = cg
    return F._cg

def reachable(F, start):
    cg, seen, todo = callgraph(F), set(), [owner(start)]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += [owner(y) for y in cg.get(x, ()) if owner(y) in cg]
    return seen

def recursive(F, start):
    """bodies reachable from start that call themselves (directly or through others)"""
    cg = callgraph(F)
    out = []
    for x in sorted(reachable(F, start)):
        nxt = set()
        for y in cg.get(x, ()):
            if owner(y) in cg:
                nxt |= reachable(F, y)
        if x in nxt and x in F.bodies:
            out.append(F.bodies[x])
    return out

# ---------------------------------------------------------------- outcomes, exits and scattered stores
def exit_guard(I, at):
    """condition under which loop at.a[0] is left through exit number at.a[1], at the iteration of the exit"""
    L, k = at.a[0], at.a[1]
    g = exits(I, L)[k][1]
    return subst(g, {mk("i", L): mk("fin", L, k, "i")})

def feasible(I, lits):
    """False if the literals of a path contradict the guard of a loop exit the path takes"""
    for at in taken(I, lits):
        g = exit_guard(I, at)
        for b, w in lits:
            g = restrict(g, b_atom(b) if w else b_not(b_atom(b)))
        if g is FALSE:
            return False
    return True

def taken(I, lits):
    """exit atoms of the loop exits a path takes (the last exit of a loop is taken if no other is)"""
    out, no = [], {}
    for at, v in lits:
        if at.op == "exit":
            if v:
                out.append(at)
            else:
                no.setdefault(at.a[0], set()).add(at.a[1])
    for L, ks in no.items():
        rest = set(range(len(I.loops[L].exits))) - ks
        if len(rest) == 1 and not any(at.a[0] == L for at in out):
            out.append(mk("exit", L, rest.pop()))
    return out

def outcomes(I, t):
    """feasible [(literals, leaf)] of a result"""
    return [(l, x) for l, x in paths(spread(t)) if feasible(I, l)]

def find_slot(I, t):
    """(loop, head symbol) of a final value"""
    L = I.loops[t.a[0]]
    for s in L.inits:
        if repr(s.a[1]) == t.a[2]:
            return L, s
    return L, None

def scatter(I, t):
    """an array filled by loops: (base, [(loop, [(literals, index, value)])]), first layer first; None for the stores of a
    layer that is not understood"""
    layers = []
    while t.op == "fin":
        L, s = find_slot(I, t)
        if s is None:
            break
        out = []
        for lits, x in paths(L.nexts[s]):
            x, at = slotwise(I, x)
            last = set()
            if at is not None:
                out.append((lits, *at))
                last.add(at[0])
            while x.op == "store":
                if x.a[1] not in last:  # otherwise overwritten at once
                    out.append((lits, x.a[1], x.a[2]))
                last.add(x.a[1])
                x = x.a[0]
            if x is not s:
                out.append((lits, None, x))
        layers.append((L, out))
        t = L.inits[s]
    return t, layers[::-1]

def slotwise(I, x):
    """x after a loop that only rewrites one element of an array, as (the array, (index, value of the element)); otherwise (x, None)"""
    if x.op != "fin":
        return x, None
    M, h = find_slot(I, x)
    if h is None or M.nexts[h].op != "store" or M.nexts[h].a[0] is not h:
        return x, None
    k, n = M.nexts[h].a[1], M.nexts[h].a[2]
    i0 = M.inits[h]
    if M.id in loopsyms(k) or any(t is not h and t.op == "car" and t.a[0] == M.id for t in subterms(n)):
        return x, None
    v0 = i0.a[2] if i0.op == "store" and i0.a[1] is k else index(i0, k)
    def final(key, init, old, new):
        e = mk("car", M.id, key)
        M.inits[e], M.nexts[e] = init, subst(new, {old: e})
        return mk("fin", M.id, x.a[1], repr(key))
    old = index(h, k)
    if n.op == "with" and n.a[0] is old:
        f = n.a[1]
        new = subst(n.a[2], {field(old, f): mk("sym", "the element")})
        if contains(new, lambda t: t is old or t is h):
            return x, None
        return i0, (k, with_field(v0, f, final((h.a[1], f), field(v0, f), field(old, f), n.a[2])))
    return i0, (k, final((h.a[1], "element"), v0, old, n))


def grown(I, t, lits=()):
    """t with lists filled up by `while len < n { push(v) }` loops written as resized lists"""
    def f(x):
        if x.op != "fin" or len(I.loops[x.a[0]].exits) != 1:
            return None
        L, h = find_slot(I, x)
        if h is None:
            return None
        n = L.nexts.get(h)
        g = list(L.exits.values())[0][0]
        for at, v in lits:
            g = restrict(g, b_atom(at) if v else b_not(b_atom(at)))
            n = restrict(n, b_atom(at) if v else b_not(b_atom(at))) if n is not None else n
        if n is None or n.op != "push" or n.a[0] is not h or L.id in loopsyms(n.a[1]):
            return None
        for y in subterms(g):
            if y.op == "sgn":
                N = add(y.a[0], length(h)), sub(length(h), y.a[0])
                for m in N:
                    if L.id not in loopsyms(m):
                        ent = mk("sym", "entered")
                        if b_not(cmp_lt(length(h), m)) is g or restrict(g, cmp_lt(length(h), m)) is FALSE and restrict(g, b_not(cmp_lt(length(h), m))) is TRUE:
                            i0 = L.inits[h]
                            return ite(cmp_lt(length(i0), m), mk("resized", i0, m, n.a[1]), i0)
        return None
    return rewrite(t, f)


def exits_as_any(I, t, carried=False):
    """t where leaving a plain search loop early is written as `some element satisfies the condition`"""
    m = {}
    for at in atoms_of(t):
        if at.op != "exit":
            continue
        L = I.loops[at.a[0]]
        few = L.trip is not None and is_num(L.trip) and 0 <= L.trip.a[1] <= 16
        if L.trip is None or len(L.exits) != 2 or L.inits and not carried and not few:
            continue
        ks = list(L.exits)
        normal = ks.index(L.trip_exit)
        G = L.exits[ks[1 - normal]][0]
        iL = mk("i", L.id)
        G = restrict(restrict(G, L.guard), cmp_lt(iL, L.trip))
        if L.inits and contains(G, lambda x: x in L.inits):
            continue
        bv = mk("bv", 1 + max([x.a[0] for x in subterms(G) if x.op == "bv"] or [0]))
        if few:
            early = FALSE
            for k in range(int(L.trip.a[1]) - 1, -1, -1):
                early = b_or(early, subst(G, {iL: cint(k)}))
        else:
            early = b_atom(mk("any", L.trip, subst(G, {iL: bv}), bv))
        m[at] = early if at.a[1] != normal else b_not(early)
    if not m:
        return t
    def f(x):
        if x.op == "ite" and x.a[0] in m:
            return ite(m[x.a[0]], rewrite(x.a[1], f), rewrite(x.a[2], f))
        return None
    return rewrite(t, f)


def atoms_of(t):
    return list(dict.fromkeys(x.a[0] for x in subterms(t) if x.op == "ite"))
