"""Shared by the rules on event records: columns of a line, the loop over the lines of a record, error conditions."""
from an.terms import *
from an.query import *

NL = ("'\\n'",)


def is_newline(p):
    return p.op == "c" and p.a[0] in ("char", "str", "bytes") and p.a[1] == "\n" or is_num(p) and p.a[1] == 10


def columns(ln):
    """map that counts the entries of a line from its first word: what is behind the first letter is column 1 onwards"""
    root, lo = (ln.a[0], ln.a[1]) if ln.op == "sub" else (ln, ZERO)
    rest = mk("sub", root, add(lo, ONE), length(root))
    return {rest: mk("cur", ln, ONE)}


def col(ln, k):
    return mk("tok", ln, k if isinstance(k, T) else cint(k))


def number(kind, ln, k):
    return mk("num", kind, col(ln, k))


def parse_atoms(t):
    return list(dict.fromkeys(x for x in atoms_deep(t) if x.op in ("parses", "every")))


def atoms_deep(t):
    out = []
    for x in subterms(t):
        if x.op == "ite":
            out.append(x.a[0])
    return list(dict.fromkeys(out))


def line_loops(I, record):
    """[(loop, carried text or None, line)]: loops that visit the lines of the record one after another"""
    out = []
    for L in I.loops.values():
        for s, init in L.inits.items():
            finds = [x for x in subterms(L.nexts.get(s, UNDEF)) if x.op == "call" and str(x.a[0]).endswith("{str}::find") and x.a[1] is s and is_newline(x.a[2])]
            if finds and all(suffix_of(l, record) for _, l in cases(init)):
                f = finds[0]
                out.append((L, s, subslice(s, add(payload(f, "Some"), ONE), length(s)), f))
                break
        else:
            iL = mk("i", L.id)
            lines = {}
            for t in list(L.nexts.values()) + [x[0] for x in L.exits.values()]:
                for x in subterms(t):
                    if x.op == "idx" and x.a[0].op == "call" and str(x.a[0].a[0]).endswith("{str}::lines") and suffix_of(x.a[0].a[1], record) and contains(x.a[1], lambda y: y is iL):
                        lines[x] = None
            if len(lines) == 1:
                out.append((L, None, next(iter(lines)), None))
    return out


def at_byte(t, ln, b):
    """t on a non-empty line whose first byte is b (None: none of the compared ones)"""
    d = index(ln, ZERO)
    t = restrict_deep1(t, b_not(cmp_eq(length(ln), ZERO)))
    t = restrict_deep1(t, cmp_lt(ZERO, length(ln)))
    if b is not None:
        return subst(t, {d: cint(b)})
    for at in atoms_deep(t):
        if at.op == "sgn" and contains(at.a[0], lambda y: y is d):
            t = restrict_deep1(t, b_not(b_atom(at)))
    return t


def restrict_deep1(t, c):
    return rewrite(t, lambda x: restrict(x, c) if x.op == "ite" and restrict(x, c) is not x else None)


def given(t, *conds):
    for c in conds:
        t = restrict_deep1(t, c)
    return t


def all_parse(t):
    """t where every entry that is looked at is of the kind it is read as"""
    for _ in range(40):
        ats = parse_atoms(t)
        if not ats:
            return t
        t = given(t, b_atom(ats[0]))
    return t
