"""Value analysis of the default distance.  (1) The merge loop over the two typesets lists: on every path of an iteration
exactly one entry is consumed from the side whose id comes first in the (descending) order of the lists, adding the sum
of |p| with p_t scaled over its momenta, or one entry of each side if the ids are equal, adding the set distance of the
two momentum sets; the loop ends only when a side is used up, and the value returned then adds the norm of every entry
left on the other side.  (2) The set distance: the shorter set padded with zero momenta to the length of the longer one,
and the minimum over all pairings: empty sum, single pair, minimum over all permutations reached from the sorted set, or
a minimum-cost assignment on the matrix of all pair distances (matrix layout and accessors analysed).  (3) pair distance
and norm are sqrt(sum_i dp_i^2 + (w dpt)^2) with the weight given to the constructor.  (4) Wrappers forward both events."""
import re
from an.terms import *
from an.query import *
from an.interp import mk_sum
from an.models import sqrt
from an.rule import where
from rules.C11 import order_of_types

EUC = "EuclWithScaledPt"


class Geo:
    def __init__(self, a, F):
        self.a, self.F = a, F
        fs = F.adts["cres::four_vector::FourVector"]["variants"][0]["fields"]
        self.arr = [f[0] for f in fs if f[1].startswith("[")][0]
        self.pt = [f[0] for f in fs if not f[1].startswith("[")][0]
        I = a.interp("cres::distance::EuclWithScaledPt::new", F)
        r = I.result
        self.wf = [n for n, v in zip(r.a[2], r.a[3]) if v is I.params[0]] if r.op == "agg" else []
        a.ob("constructor", "weight", len(self.wf) == 1, where(I.entry), show(r)[:200])
        self.wf = self.wf[0] if self.wf else "?"

    def weight(self, s):
        return field(s, self.wf)

    def dist(self, p, q, w):
        s = ZERO
        for k in (1, 2, 3):
            d = sub(index(field(p, self.arr), cint(k)), index(field(q, self.arr), cint(k)))
            s = add(s, mul(d, d))
        d = mul(w, sub(field(p, self.pt), field(q, self.pt)))
        return sqrt(add(s, mul(d, d)))

    def norm(self, p, w):
        s = ZERO
        for k in (1, 2, 3):
            d = index(field(p, self.arr), cint(k))
            s = add(s, mul(d, d))
        d = mul(w, field(p, self.pt))
        return sqrt(add(s, mul(d, d)))

    def norm_sum(self, ps, w):
        bv = mk("bv", 1)
        return mk_sum(length(ps), self.norm(index(ps, bv), w), bv)


def conj(*gs):
    r = TRUE
    for g in gs:
        r = b_and(r, g)
    return r


def set_functions(F):
    """functions of the crate taking two sequences of four-momenta and returning a number"""
    out = []
    for b in F.bodies.values():
        if b["crate"] != "cres" or "{closure" in b["name"] or not b["locals"][0].endswith("NumChecker>"):
            continue
        ps = b["locals"][1:1 + b["argc"]]
        if sum(1 for p in ps if re.match(r"^&('\w+ )?(mut )?(\[|alloc::vec::Vec<)cres::four_vector::FourVector", p)) == 2:
            out.append(b["name"])
    return out


def sgn_of(lits, p):
    """signs the polynomial may have on the path"""
    k, q = normalise(p)
    if q.op == "c":
        v = q.a[1] * k
        return {(v > 0) - (v < 0)}
    s = signs_of(lits).get(q, {-1, 0, 1})
    return {x * (1 if k > 0 else -1) for x in s}


def check_merge(a, G, F):
    S = set_functions(F)
    I = a.interp(a.impl("cres::distance::Distance::distance", EUC, F), F, opaque=set(S))
    s, e1, e2 = I.params[:3]
    W = where(I.entry)
    w = G.weight(s)
    desc = order_of_types(a, F)
    o1 = a.interp("cres::event::Event::outgoing", F)
    l1, l2 = (subst(o1.result, {o1.params[0]: e}) for e in (e1, e2))
    # the merge loop
    found = None
    for L in I.loops.values():
        h1 = [h for h in L.inits if any(t.op == "idx" and t.a[0] is l1 and t.a[1] is h for n in L.nexts.values() for t in subterms(n))]
        h2 = [h for h in L.inits if any(t.op == "idx" and t.a[0] is l2 and t.a[1] is h for n in L.nexts.values() for t in subterms(n))]
        if len(h1) == 1 and len(h2) == 1:
            found = (L, h1[0], h2[0])
    if not a.ob("merge", "loop", found is not None, W, "no loop walking both lists found"):
        return set()
    L, i, j = found
    acc = [h for h in L.nexts if h not in (i, j) and any(t.op == "sqrt" or t.op == "sum" or t.op == "call" for t in subterms(L.nexts[h]))]
    if not a.ob("merge", "accumulator", len(acc) == 1 and L.inits[i] is ZERO and L.inits[j] is ZERO and L.inits[acc[0]] is ZERO, W,
                "heads: " + ", ".join(show(h) + " from " + show(L.inits[h])[:60] for h in L.inits)):
        return set()
    D = acc[0]
    t1, p1 = field(index(l1, i), "0"), field(index(l1, i), "1")
    t2, p2 = field(index(l2, j), "0"), field(index(l2, j), "1")
    N1, N2 = G.norm_sum(p1, w), G.norm_sum(p2, w)
    used = set()
    joint = agg("tuple", None, (), (L.nexts.get(D, D), L.nexts.get(i, i), L.nexts.get(j, j)))
    n = 0
    live = conj(*[b_not(x[0]) for _, g, x in exits(I, L.id)]) if L.exits else TRUE
    bad = []
    for lits, leaf in paths(spread(joint)):
        if restrict_lits(live, lits) is FALSE:
            continue
        n += 1
        d, di, dj = sub(leaf.a[3][0], D), sub(leaf.a[3][1], i), sub(leaf.a[3][2], j)
        sg = sgn_of(lits, sub(t1, t2))
        first, second = ({1}, {-1}) if desc else ({-1}, {1})
        if di is ONE and dj is ZERO:
            okp = d is N1 and sg <= first
        elif di is ZERO and dj is ONE:
            okp = d is N2 and sg <= second
        elif di is ONE and dj is ONE:
            c = next((c for c in S if is_call(d, c)), None)
            okp = sg <= {0} and c is not None and set_args(d, p1, p2, s)
            if okp:
                used.add(c)
        else:
            okp = False
        if not okp:
            bad.append("if %s: advance (%s, %s), add %s" % (" and ".join(("" if v else "not ") + show(at)[:80] for at, v in lits), show(di), show(dj), show(d)[:160]))
    a.ob("merge", "step", n >= 3 and not bad, W, "; ".join(bad)[:600] or "%d paths" % n)
    # what is left over; i <= len and j <= len throughout, so "not zero" means "entries left"
    r1, r2 = sub(length(l1), i), sub(length(l2), j)
    on = [(lits, [sgn_of(lits, r) & {0, 1} for r in (r1, r2)]) for lits, g in paths(live) if g is TRUE]
    over = [lits for lits, sg in on if any(0 in x for x in sg) and all(sg)]
    a.ob("merge", "within", bool(on) and not over, W, "goes on past the end of a list where " + "; ".join(
        " and ".join(("" if v else "not ") + show(at)[:90] for at, v in lits) for lits in over)[:500])
    for k, g, x in exits(I, L.id):
        v = at_exit(I, L.id, I.result, k)
        probs, m = [], 0
        for lits, leaf in paths(v):
            gg = restrict_lits(at_exit(I, L.id, g, k), lits)
            if gg is FALSE:
                continue
            for glits, gl in paths(gg):
                if gl is not TRUE:
                    continue
                al = lits + glits
                s1, s2 = sgn_of(al, r1), sgn_of(al, r2)
                if s1 == {1} and s2 == {1}:
                    probs.append("left while both lists have entries")
                    continue
                m += 1
                got = tails(I, L.id, k, leaf, D, ((l1, i), (l2, j)), G, w, al)
                okv = got is not None and len(set(got)) == len(got) and (1 not in s1 or 0 in got) and (1 not in s2 or 1 in got)
                if not okv and not contradictory(al, r1, r2):
                    probs.append("value %s where %s" % (show(leaf)[:200], " and ".join(("" if vv else "not ") + show(at)[:70] for at, vv in al)))
        a.ob("merge", "rest-%d" % k, m > 0 and not probs, W, "; ".join(probs)[:600])
    return used


def contradictory(lits, r1, r2):
    return not sgn_of(lits, r1) or not sgn_of(lits, r2) or min(sgn_of(lits, r1)) > 1


SAME = {}


def restrict_deep(t, lits, I):
    """also decides conditions inside terms; equal lengths are identified"""
    t = grown(I, t, lits)
    n1, n2, lit = SAME[I]
    if lit in lits:
        t = rewrite(t, lambda x: n2 if x is n1 else None)
    return rewrite(t, lambda x: restrict_lits(x, lits) if x.op == "ite" and restrict_lits(x, lits) is not x else None)


def restrict_lits(g, lits):
    for at, v in lits:
        g = restrict(g, b_atom(at) if v else b_not(b_atom(at)))
    return g


def set_args(call, p1, p2, s):
    args = [x for x in call.a[1:] if isinstance(x, T)]
    return args in ([s, p1, p2], [s, p2, p1], [p1, p2], [p2, p1]) or (len(args) == 3 and args.count(p1) == 1 and args.count(p2) == 1)


def tails(I, L, k, v, D, lists, G, w, lits):
    """the lists whose remaining entries' norms v adds to D, or None"""
    rest = restrict_lits(sub(v, D), lits)
    if rest is ZERO:
        return []
    for f in [x for x in subterms(v) if x.op in ("fin", "sum")]:
        for n, (lst, lo) in enumerate(lists):
            if tail_sum(I, L, k, f, lst, lo, G, w, lits):
                base = ZERO if f.op == "sum" else at_exit(I, L, find_slot_init(I, f), k)
                more = tails(I, L, k, add(sub(v, f), base), D, lists, G, w, lits)
                if more is not None:
                    return [n] + more
    return None


def find_slot_init(I, f):
    L, h = find_slot(I, f)
    return L.inits[h]


def tail_sum(I, L, k, rest, lst, lo, G, w, lits):
    """rest is the sum of the norms of lst[lo..]"""
    bv = mk("bv", 2)
    want = lambda x: G.norm_sum(field(index(lst, x), "1"), w)
    if rest.op == "sum":
        return rest.a[0] is sub(length(lst), lo) and subst(rest.a[1], {rest.a[2]: mk("sym", "m")}) is want(add(lo, mk("sym", "m")))
    if rest.op != "fin":
        return False
    L2, h = find_slot(I, rest)
    if h is None or len(L2.exits) != 1:
        return False
    iL = mk("i", L2.id)
    nx = at_exit(I, L, L2.nexts[h], k)
    e = restrict_lits(sub(nx, h), lits)
    g = restrict_lits(at_exit(I, L, list(L2.exits.values())[0][0], k), lits)
    n = sub(length(lst), lo)
    done = b_not(cmp_lt(iL, n))
    if canon_bv(e) is not canon_bv(want(add(lo, iL))):
        return False
    # sequence lengths: lo < len, so lo <= len
    ctx = conj(*[b_atom(at) if v else b_not(b_atom(at)) for at, v in lits], b_not(cmp_lt(iL, ZERO)))
    return restrict(g, b_and(ctx, done)) is TRUE and restrict(g, b_and(ctx, b_not(done))) is FALSE or b_and(ctx, g) is b_and(ctx, done)


def check_set(a, G, F, name):
    I = a.interp(name, F)
    W = where(I.entry)
    lab = "set"
    ps = [p for p, ty in zip(I.params, I.entry["locals"][1:]) if "FourVector" in ty]
    slf = [p for p in I.params if p not in ps]
    p1, p2 = ps
    w = None
    for s in slf:
        w = G.weight(s)
    n1, n2 = length(p1), length(p2)
    kinds = {}
    worlds = []
    d = normalise(sub(n1, n2))[1]
    for sg in ("lt", "eq", "gt"):
        at, ae = mk("sgn", d, "lt"), mk("sgn", d, "eq")
        worlds.append(((at, True),) if sg == "lt" else ((at, False), (ae, sg == "eq")))
    SAME[I] = (n1, n2, (ae, True))
    outs = [(wl + lits, restrict_deep(leaf, wl + lits, I)) for wl in worlds for lits, leaf in outcomes(I, restrict_lits(restrict_deep(I.result, wl, I), wl))]
    for lits, leaf in outs:
        k = classify(a, I, G, F, name, lits, leaf, p1, p2, w)
        kinds.setdefault(k, []).append((lits, leaf))
    badk = [(k, x) for k, v in kinds.items() if k.startswith("bad") for x in v]
    a.ob(lab, "min-over-pairings", not badk and any(k != "swap" for k in kinds), W,
         "; ".join("%s: %s if %s" % (k, show(x[1])[:200], " and ".join(("" if v else "not ") + show(at)[:60] for at, v in x[0])) for k, x in badk)[:900])
    # swapped call terminates
    for lits, leaf in kinds.get("swap", []):
        m = {p1: p2, p2: p1}
        sw = [(subst(b_atom(at), m), v) for at, v in lits]
        c = TRUE
        for b, v in sw:
            c = b_and(c, b if v else b_not(b))
        a.ob(lab, "swap-terminates", restrict_lits(c, lits) is FALSE, W, show(leaf)[:200])
    return {k.split(":", 1)[1] for k in kinds if k.startswith("delegate:")}


def padded(t, lits, p1, p2):
    """(sequence padded, sequence setting the length) if t holds the momenta of one set plus zeros up to the length of the other, any order"""
    while t.op in ("sorted", "permuted"):
        t = t.a[-1]
    for p, q in ((p1, p2), (p2, p1)):
        d = sgn_of(lits, sub(length(p), length(q)))
        if t is p and d <= {0}:
            return p, q
        if t.op == "cat" and len(t.a) == 2 and t.a[0] is p and t.a[1].op == "comp" and t.a[1].a[2] is TRUE and sgn_of(lits, sub(length(t), length(q))) <= {0} and d <= {-1, 0} and zero_vec(t.a[1].a[1]):
            return p, q
        if t.op == "resized" and t.a[0] is p and d <= {-1, 0}:
            n = t.a[1]
            if n is length(q) and zero_vec(t.a[2]):
                return p, q
    return None


def zero_vec(t):
    return t.op == "agg" and all(v is ZERO or v.op == "agg" and v.a[0] == "array" and len(v.a[3]) == 4 and all(x is ZERO for x in v.a[3]) or is_zero_array(v) for v in t.a[3])


def is_zero_array(v):
    return v.op == "comp" and v.a[1] is ZERO or v.op == "call" and "repeat" in str(v.a[0]) and any(x is ZERO for x in v.a if isinstance(x, T))


def classify(a, I, G, F, name, lits, leaf, p1, p2, w):
    n1, n2 = length(p1), length(p2)
    other = next((c for c in set_functions(F) if c != name and is_call(leaf, c)), None)
    if other:
        args = [x for x in leaf.a[1:] if isinstance(x, T) and x in (p1, p2)]
        return "delegate:" + other if len(args) == 2 and set(args) == {p1, p2} else "bad-delegation"
    if is_call(leaf, name):
        args = [x for x in leaf.a[1:] if isinstance(x, T)]
        return "swap" if [x for x in args if x in (p1, p2)] == [p2, p1] else "bad-recursion"
    d = sgn_of(lits, sub(n1, n2))
    if leaf is ZERO:
        # nothing to pair
        big = n2 if d <= {-1, 0} else n1 if d <= {0, 1} else None
        z = lambda n: 1 not in sgn_of(lits, n) and -1 in {-1} and sgn_of(lits, n) <= {-1, 0}
        return "empty" if big is not None and z(big) or z(n1) and z(n2) else "bad-zero"
    if leaf.op == "sqrt":
        one = [k for k in (n1, n2) if sgn_of(lits, sub(k, ONE)) <= {0}]
        for x in subterms(leaf):
            pass
        cands = set()
        for x in subterms(leaf):
            if x.op == "idx" and x.a[1] is ZERO:
                cands.add(x.a[0])
        for X in cands:
            pd = padded(X, lits, p1, p2)
            if pd and length(pd[1]) in one and leaf is G.dist(index(X, ZERO), index(pd[1], ZERO), w):
                return "single"
        return "bad-single"
    if leaf.op == "fin":
        return permutation_min(I, G, lits, leaf, p1, p2, w)
    if leaf.op == "fld" and leaf.a[1] == "0" and is_call(leaf.a[0], "kuhn_munkres_min"):
        return assignment(a, I, G, F, lits, leaf.a[0].a[-1], p1, p2, w)
    return "bad-value"


def pair_sum(t, G, X, Y, w, I, lits):
    """t is the sum over all positions of the distances of X and Y (which have the same length)"""
    if t.op == "fin":
        L, h = find_slot(I, t)
        if h is None or L.inits[h] is not ZERO or len(L.exits) != 1:
            return False
        i = mk("i", L.id)
        g = restrict_deep(list(L.exits.values())[0][0], lits, I)
        g = rewrite(g, lambda x: length(Y) if x is length(X) else None)
        inside = cmp_lt(i, length(Y))
        e = restrict_deep(sub(L.nexts[h], h), lits, I)
        return restrict(g, inside) is FALSE and restrict(g, b_not(inside)) is TRUE and e is G.dist(index(X, i), index(Y, i), w)
    if t.op != "sum":
        return False
    n, body, bv = t.a
    lens = set(n.a) if n.op == "min" else {n}
    if not lens <= {length(X), length(Y)}:
        return False
    k = mk("sym", "k")
    return subst(body, {bv: k}) is G.dist(index(X, k), index(Y, k), w)


def permutation_min(I, G, lits, leaf, p1, p2, w):
    L, m = find_slot(I, leaf)
    if m is None or len(L.exits) != 1:
        return "bad-loop"
    # the permuted list: a head advanced by next_permutation
    perm = None
    for h, n in L.nexts.items():
        for t in subterms(n):
            if t.op == "post" and is_call(t.a[0], "next_permutation") and contains(t.a[0], lambda x: x is h) and n is t:
                perm = (h, t)
    if perm is None:
        return "bad-no-permutations"
    h, nxt = perm
    call = nxt.a[0]
    x0 = restrict_deep(L.inits[h], lits, I)
    pd = padded(x0, lits, p1, p2)
    if pd is None or not (x0.op == "sorted" and x0.a[0] in ("nat",) or x0.op == "sorted" and ascending(x0)):
        return "bad-not-sorted"
    g = restrict_deep(list(L.exits.values())[0][0], lits, I)
    more = as_bool(call)
    if restrict_lits(b_not(g), lits) is not more and b_not(g) is not more:
        if restrict_lits(g, lits) is not b_not(more):
            return "bad-loop-exit"
    ys = [y for y in (p1, p2) if y is pd[1]]
    init = restrict_deep(L.inits[m], lits, I)
    Y = ys[0]
    if not pair_sum(init, G, x0, Y, w, I, lits):
        return "bad-first-pairing"
    n = restrict_deep(L.nexts[m], lits, I)
    for l2, x in paths(restrict(n, more)):
        if x is m:
            continue
        if not pair_sum(x, G, nxt, Y, w, I, lits + ((more.a[0], True),)):
            return "bad-pairing"
    new = [x for _, x in paths(restrict(n, more)) if x is not m]
    if not new:
        return "bad-minimum"
    for l2, x in paths(restrict(n, more)):
        sg = sgn_of(l2, sub(m, new[0]))
        if x is m and not sg <= {-1, 0} or x is not m and not sg <= {0, 1}:
            return "bad-minimum"
    return "permutations"


def ascending(t):
    X, Y = mk("sym", "x"), mk("sym", "y")
    return t.a[0] is cmp_lt(X, Y) or t.a[0] is b_not(cmp_lt(Y, X))


def assignment(a, I, G, F, lits, M, p1, p2, w):
    W = "cres::distance::SquareMatrix"
    ty = M.a[0] if M.op == "agg" else None
    cps = [t for t in subterms(M) if is_call(t, "cartesian_product")]
    if M.op != "agg":
        return "bad-matrix"
    nested = not cps
    if nested:
        # the entries, one row after the other
        cps = [t for t in subterms(M) if t.op == "concat" and t.a[0].op == "comp" and t.a[0].a[2] is TRUE and t.a[0].a[1].op == "comp" and t.a[0].a[1].a[2] is TRUE]
    if len(set(cps)) != 1:
        return "bad-matrix"
    cp = cps[0]
    if nested:
        outer, inner = cp.a[0], cp.a[0].a[1]
        side = lambda b: {t.a[0] for t in subterms(inner.a[1]) if t.op == "idx" and t.a[1] is b}
        X, Y = side(outer.a[4]), side(inner.a[4])
        if len(X) != 1 or len(Y) != 1:
            return "bad-matrix-sides"
        X, Y = X.pop(), Y.pop()
        if outer.a[0] is not length(X) or inner.a[0] is not length(Y):
            return "bad-matrix-sides"
    else:
        X, Y = [seq_of(x) for x in cp.a if isinstance(x, T)][:2]
    if X is None or Y is None:
        return "bad-matrix-sides"
    for P, Q in ((X, Y), (Y, X)):
        pd = padded(P, lits, p1, p2)
        if pd and Q is pd[1]:
            break
    else:
        return "bad-matrix-sides"
    n = length(Q)
    M = rewrite(M, lambda t: mul(n, n) if t.op == "len" and t.a[0] is cp else None)
    M = rewrite(M, lambda t: n if t.op == "cast" and t.a[-1].op in ("sqrt", "abs") and t.a[-1] is sqrt(mul(n, n)) or t.op == "cast" and t.a[-1] is n else None)
    r, c = mk("sym", "row"), mk("sym", "col")
    at = a.interp(impl_of(a, F, "at", ty), F)
    v = subst_fields(at.result, at.params[0], M)
    v = subst(v, dict(zip(at.params[1:], (r, c))))
    def pick(t):
        if nested and t.op == "idx" and t.a[0] is cp:
            i, j = (r, c) if t.a[1] is add(mul(r, n), c) else (c, r) if t.a[1] is add(mul(c, n), r) else (None, None)
            return subst(inner.a[1], {outer.a[4]: i, inner.a[4]: j}) if i is not None else None
        if t.op == "fld" and t.a[0].op == "idx" and t.a[0].a[0] is cp:
            k = t.a[0].a[1]
            if k is add(mul(r, n), c):
                i, j = r, c
            elif k is add(mul(c, n), r):
                i, j = c, r
            else:
                return None
            return index(X, i) if t.a[1] == "0" else index(Y, j) if t.a[1] == "1" else None
        return None
    v = rewrite(v, pick)
    if v is not G.dist(index(X, r), index(Y, c), w) and v is not G.dist(index(X, c), index(Y, r), w):
        return "bad-matrix-entry"
    for nm in ("rows", "columns"):
        q = a.interp(impl_of(a, F, nm, ty), F)
        if subst_fields(q.result, q.params[0], M) is not n:
            return "bad-matrix-" + nm
    q = a.interp(impl_of(a, F, "neg", ty), F)
    neg_at = subst(subst_fields(at.result, at.params[0], q.result), dict(zip(at.params[1:], (r, c))))
    if neg_at is not neg(subst(rename(at.result, at.params[0], q.params[0]), dict(zip(at.params[1:], (r, c))))):
        return "bad-matrix-neg"
    for nm in ("rows", "columns"):
        x = a.interp(impl_of(a, F, nm, ty), F)
        if subst_fields(x.result, x.params[0], q.result) is not rename(x.result, x.params[0], q.params[0]):
            return "bad-matrix-neg"
    return "assignment"


def rename(t, p, q):
    return subst(t, {p: q})


def subst_fields(t, p, M):
    return rewrite(t, lambda x: field(M, x.a[1]) if x.op == "fld" and x.a[0] is p else index(*[M if y is p else y for y in x.a]) if x.op == "idx" and x.a[0] is p else None)


def impl_of(a, F, nm, ty):
    return a.impl("pathfinding::kuhn_munkres::Weights::" + nm, str(ty).split("::")[-1], F)


def seq_of(t):
    """the sequence a whole iterator walks"""
    if t.op == "it" and t.a[0].op == "st" and t.a[0].a[0] == "seq" and t.a[1] is ZERO:
        return t.a[0].a[1]
    return None


def check(a):
    F = a.facts("full")
    G = Geo(a, F)
    used = check_merge(a, G, F)
    done, dele = set(), {}
    while used - done:
        n = sorted(used - done)[0]
        done.add(n)
        dele[n] = check_set(a, G, F, n)
        used = used | dele[n]
    def cyc(n, path):
        return n in path or any(cyc(m, path + (n,)) for m in dele.get(n, ()))
    a.ob("set", "no-endless-delegation", not any(cyc(n, ()) for n in dele), "", str(dele)[:300])
    # wrappers
    I = a.interp(a.impl("cres::distance::Distance::distance", "&D", F), F)
    s, x, y = I.params
    ds = [e for e in I.events if e.kind == "call"]
    a.ob("forward", "reference", len(ds) == 1 and I.result is ds[0].res and list(ds[0].args) == [s, x, y], where(I.entry), show(I.result)[:200])
    I = a.interp(a.impl("cres::distance::Distance::distance", "DistWrapper", F), F)
    s, x, y = I.params
    C = a.interp("cres::distance::DistWrapper::new", F)
    r = C.result
    fd = {n: v for n, v in zip(r.a[2], r.a[3])} if r.op == "agg" else {}
    dn = [n for n, v in fd.items() if v is C.params[0]]
    en = [n for n, v in fd.items() if v is C.params[1]]
    if a.ob("forward", "wrapper-new", len(dn) == 1 and len(en) == 1, where(C.entry), show(r)[:200]):
        ds = [e for e in I.events if e.kind == "call"]
        ev = field(s, en[0])
        a.ob("forward", "wrapper", len(ds) == 1 and I.result is ds[0].res and list(ds[0].args) == [field(s, dn[0]), index(ev, x), index(ev, y)], where(I.entry), show(I.result)[:300])
