"""Effect analysis: everything in the library and in the programs that changes the file system is listed from the compiled code,
and each such place has to be one of the known ones (an output file, an output directory).  Value analysis then shows for each
output file that it is only created after its resolved path was found to be absent from a set that holds the resolved paths of
all input files and of all outputs created before.  The set is followed through loops and calls; the resolved path has to be the
canonical one (symbolic links and `..` removed), so that different spellings of one file are seen to be the same."""
import re
from an.terms import *
from an.query import *
from an.models import OPT, RES
from an.rule import where
from rules.records import given
from rules import C22, C24


PURE_FS = re.compile(r"std::fs::(File::open|metadata|symlink_metadata|canonicalize|read|read_to_string|read_link|read_dir|exists|try_exists|"
                     r"File::(metadata|try_clone|sync_all|sync_data)|Metadata::\w+|FileType::\w+|DirEntry::\w+|Permissions::readonly)$")
CHANGES = re.compile(r"(std::fs::|std::os::\w+::fs::|std::process::Command|std::env::set_current_dir|libc::|rustix::|nix::|tempfile::)")
CREATE = "std::fs::File::create"
MKDIR = ("std::fs::create_dir_all", "std::fs::create_dir")
BUILD_ONE = "cres::io::IOBuilder::build_from_files"
COMBINED = "cres::io::CombinedFileIO"
COMPRESS = "cres::compression::compress_writer"


def all_of(*cs):
    r = TRUE
    for c in cs:
        r = b_and(r, c)
    return r


def check(a):
    seen = set()
    full = ("cres", "bin_cres", "bin_cres_partition", "bin_cres_classify_events")
    for fs in ("full", "single"):
        F = a.facts(fs, ("cres",))
        one(a, F, fs, seen)
        combined(a, F, fs)
    outdirs(a, a.facts("full", ("cres", "bin_cres")), "bin::main", seen, "cres")
    outdirs(a, a.facts("full", ("cres",)), "cres::c_api::cres::cres_run_with", seen, "C interface")
    F = a.facts("full", ("cres", "bin_cres_partition"))
    program(a, F, "cres-partition", seen, C22.opaque_tree(F))
    F = a.facts("full", ("cres", "bin_cres_classify_events"))
    program(a, F, "cres-classify-events", seen, C22.opaque(F))
    for c in full:
        effects(a, a.facts("full", (c,)), "full " + c, seen)
    effects(a, a.facts("single", ("cres",)), "single cres", seen)


# ------------------------------------------------------------------ effects
def functions(x):
    """paths of all functions mentioned in a piece of MIR"""
    if isinstance(x, dict):
        f = x.get("fn")
        if isinstance(f, dict) and "path" in f:
            yield f["path"]
        for v in x.values():
            yield from functions(v)
    elif isinstance(x, list):
        for v in x:
            yield from functions(v)


def effects(a, F, tag, seen):
    n = 0
    for b in F.bodies.values():
        for x in b["blocks"]:
            for part in (list(x[0]) + [x[1]] if x else ()):
                for p in functions(part):
                    p = re.sub(r"::<[^>]*>", "", p).replace("<", "").split(" as ")[0]
                    if not CHANGES.match(p) or PURE_FS.match(p):
                        continue
                    n += 1
                    span = part[5] if part is x[1] and part[0] == "call" else part[-1]
                    w = "%s (%s)" % (b["name"], span[0] if isinstance(span, list) else "")
                    a.ob("effects", "%s: %s in %s" % (tag, p, b["name"]), (b["id"], str(span)) in seen, w,
                         "this changes files, and is not one of the known outputs of the program")
    a.ob("effects", tag + ": listed", n > 0 or tag == "full nothing", "", "%d places that change the file system" % n)


def know(seen, e):
    seen.add(C24.site(e))


# ------------------------------------------------------------------ the set of protected files
def path_call(t, name):
    return t.op == "call" and (t.a[0].split("::")[-1] == name)


def arg(t):
    return t.a[2] if len(t.a) > 2 else None


def canon(p, where_):
    """the term canonicalize(p) that occurs in `where_`"""
    for t in subterms(where_):
        if (path_call(t, "canonicalize")) and p in t.a[1:]:
            return t
    return None


def key_problem(k, p):
    """None if k is the resolved path of p, else what is wrong"""
    c = canon(p, k)
    if c is None:
        return "the path is not resolved: " + show(k)[:200]
    okc = as_bool(is_variant(c, RES, "Ok"))
    if given(k, okc) is not payload(c, "Ok"):
        return "not the canonical path of an existing file: " + show(given(k, okc))[:200]
    k2 = given(k, b_not(okc))
    cs = [t for t in subterms(k2) if path_call(t, "canonicalize") and t is not c]
    fn = [t for t in subterms(k2) if path_call(t, "file_name") and p in t.a[1:]]
    pa = [t for t in subterms(k2) if path_call(t, "parent") and p in t.a[1:]]
    if len(set(cs)) != 1 or not fn or not pa:
        return "path of a file that does not exist yet is not resolved: " + show(k2)[:200]
    d, fn, pa = cs[0], fn[0], pa[0]
    k3 = given(k2, as_bool(is_variant(d, RES, "Ok")), as_bool(is_variant(fn, OPT, "Some")))
    D, N = payload(d, "Ok"), payload(fn, "Some")
    if not (length(k3) is cint(2) and index(k3, ZERO) is D and index(k3, ONE) is N):
        return "path of a file that does not exist yet is not directory/name: " + show(k3)[:200]
    of = [x for x in d.a[1:] if hasattr(x, "op")][0]
    g = given(of, as_bool(is_variant(pa, OPT, "Some")))
    P = payload(pa, "Some")
    for x in leaves(g):
        if x is not P and not any(t.op == "c" and t.a[1:] == (".",) or "'.'" == show(t) for t in subterms(x)):
            return "directory of a file that does not exist yet: " + show(of)[:200]
    # the current directory stands in for an empty one only
    for lits, x in paths(g):
        if x is not P and not any(w and at.op == "eq" or contains(b_atom(at), lambda t: t is P) for at, w in lits):
            return "directory of a file that does not exist yet: " + show(of)[:200]
    return None if P in leaves(g) else "directory of a file that does not exist yet: " + show(of)[:200]


def leaves(t):
    if t.op == "ite":
        return list(dict.fromkeys(leaves(t.a[1]) + leaves(t.a[2])))
    return [t]


def exempt(p, *ts):
    """condition under which p names something that is not a regular file (device, pipe): nothing to overwrite"""
    for t in ts:
        for m in subterms(t):
            if path_call(m, "metadata") and p in m.a[1:]:
                inner = payload(m, "Ok")
                isf = [x for y in ts for x in subterms(y) if path_call(x, "is_file") and inner in x.a[1:]]
                if isf:
                    return b_and(as_bool(is_variant(m, RES, "Ok")), b_not(as_bool(isf[0])))
    return FALSE


def facts(I, T, depth=0):
    m = I.__dict__.setdefault("_c26", {})
    if T not in m:
        m[T] = facts_of(I, T, depth)
    return m[T]


def facts_of(I, T, depth):
    """what a set is known to hold: [(kind, what, condition)], kind is one: a key; all: (number, key, index) for every
    index below the number;
    head: everything the set held at the head of a loop; base: everything that another term holds"""
    if depth > 60:
        return []
    if T.op == "ite":
        c = b_atom(T.a[0])
        A, B = facts(I, T.a[1], depth + 1), facts(I, T.a[2], depth + 1)
        out = []
        for k, w, g in A:
            out.append((k, w, b_and(c, g)))
        for k, w, g in B:
            out.append((k, w, b_and(b_not(c), g)))
        m = {}
        for k, w, g in out:
            m[(k, w)] = b_or(m.get((k, w), FALSE), g)
        return [(k, w, g) for (k, w), g in m.items()]
    if T.op == "minsert":
        return facts(I, T.a[0], depth + 1) + [("one", T.a[1], TRUE)]
    if T.op == "fld":
        x = T.a[0]
        if x.op == "with" and x.a[1] == T.a[1]:
            return facts(I, x.a[2], depth + 1)
        if x.op == "with":
            return facts(I, field(x.a[0], T.a[1]), depth + 1)
        if x.op in ("fin", "car"):
            return through(I, x, lambda y: field(y, T.a[1]), depth)
        return [("base", T, TRUE)]
    if T.op in ("fin", "car"):
        return through(I, T, lambda y: y, depth)
    if T.op == "mapof" and T.a[1].op == "comp":
        n, e, c, _, bv = T.a[1].a[:5]
        return [("all", (n, field(e, "0") if T.a[0].endswith("HashMap") else e, bv), c)]
    return [("base", T, TRUE)]


def through(I, x, proj, depth):
    if x.op == "fin":
        L, h = find_slot(I, x)
        k = x.a[1]
    else:
        ls = [l for l in I.loops.values() if x in l.inits]
        L, h, k = (ls[0] if ls else None), x, None
    if L is None or h is None:
        return [("base", proj(x), TRUE)]
    out = facts(I, proj(L.inits[h]), depth + 1) + [("head", h, TRUE)]
    if k is not None and h in L.nexts:
        ks = list(L.exits)
        nx = facts(I, proj(L.nexts[h]), depth + 1)
        keeps = [g for kk, w, g in nx if kk == "head" and w is h]
        if not keeps or keeps[0] is not TRUE:
            return [("base", proj(x), TRUE)]
        if L.trip is not None and ks[k] == L.trip_exit:
            for kk, w, g in nx:
                if kk == "one":
                    out.append(("all", (L.trip, w, mk("i", L.id)), b_or(b_not(L.backguard), g)))
                elif kk == "all":
                    out.append(("all", w, g))
    return out


def absent(g, key):
    """a key that was in the set before need not be added"""
    return all_of(*[b_not(pr) for S, K, pr in lookups(g) if K is key])


def parts_of(fs, m):
    """fs with entry m of every chain of several lists taken alone, and the entries behind it"""
    out = []
    for k, w, g in fs:
        if k != "all":
            continue
        n, key, i = w
        out.append((n, key, i, g))
        if m and is_count(sub(n, cint(m))):
            up = {i: add(i, cint(m))}
            on = b_not(cmp_lt(i, ZERO))
            f = lambda t: rewrite(subst(t, up), lambda x: restrict(x, on) if x.op == "ite" and restrict(x, on) is not x else None)
            out.append((sub(n, cint(m)), f(key), i, f(g)))
    return out


def holds_one(I, fs, p):
    why = "not among the files that must not be overwritten"
    first = [("one", subst(w[1], {w[2]: ZERO}), subst(g, {w[2]: ZERO})) for k, w, g in fs if k == "all" and is_count(sub(w[0], ONE))]
    for k, w, g in fs + first:
        if k == "one":
            if key_problem(w, p) is None and all_of(b_not(g), b_not(exempt(p, g, w)), absent(g, w)) is FALSE:
                return None
    return why


def holds_all(I, fs, seq, elem, alsono=()):
    """None if the set holds the resolved paths of elem(x) for all x of seq"""
    for n, key, i, g in parts_of(fs, 1):
        if n is not length(seq):
            continue
        p = elem(index(seq, i))
        if key_problem(key, p) is not None:
            continue
        missed = given(all_of(b_not(g), b_not(exempt(p, g, key)), absent(g, key)), cmp_lt(i, n), cmp_le(ZERO, i))
        if missed is FALSE:
            return None
    return "not all of them are protected"


def lookups(g):
    """[(set, key, atom)] of the set lookups in a condition"""
    out = []
    for at in atoms_of(g):
        for t in subterms(b_atom(at)):
            if t.op == "call" and t.a[0] == "map_get":
                out.append((t.a[1], t.a[2], as_bool(is_variant(t, OPT, "Some"))))
    return list(dict.fromkeys(out))


def tested(I, g, p, more=()):
    """the set in which the resolved path p is known to be absent under condition g (unless p is no regular file)"""
    why = "the path is not looked up among the files that must not be overwritten"
    for S, K, present in lookups(g):
        pr = key_problem(K, p)
        if pr is not None:
            why = pr
            continue
        ex = exempt(p, g, K)
        if all_of(g, present, b_not(ex)) is not FALSE:
            why = "created even if the path is among those that must not be overwritten"
            continue
        return S, None
    return None, why


def head_of(I, S, L):
    """(head symbol of loop L that the set comes from, fields of it in which the set is found)"""
    x, path = S, []
    for _ in range(40):
        if x.op == "fld":
            path.append(x.a[1])
            x = x.a[0]
        elif x.op == "minsert":
            x = x.a[0]
        elif x.op == "with":
            if path and x.a[1] == path[-1]:
                path.pop()
                x = x.a[2]
            else:
                x = x.a[0]
        elif x.op in ("car", "fin"):
            if x.op == "car":
                l, h = [l for l in I.loops.values() if x in l.inits][0], x
                if l.id == L:
                    return x, path
            else:
                l, h = find_slot(I, x)
                if h is None:
                    return None, path
            x = l.inits[h]
        elif x.op == "ite":
            x = x.a[2]
        else:
            break
    return None, path


def project(path, x):
    for f in reversed(path):
        x = field(x, f)
    return x


def remembered(I, S, p, g, loops):
    """None if in all loops around, the set still holds the path in later iterations"""
    inner = []
    for L in reversed(loops):
        lp = I.loops[L]
        h, path = head_of(I, S, L)
        if h is None:
            return "the set is not kept from one iteration to the next"
        nx = facts(I, project(path, lp.nexts[h]))
        keep = [c for k, w, c in nx if k == "head" and w is h]
        if not keep or keep[0] is not TRUE:
            return "the set loses files from one iteration to the next"
        found = False
        for k, w, c in nx:
            key = w if k == "one" and not inner else w[1] if k == "all" and inner and w[2] is mk("i", inner[0]) else None
            if key is None or key_problem(key, p) is not None:
                continue
            miss = given(all_of(b_not(c), lp.backguard, b_not(exempt(p, c, key))), g)
            if inner:
                i = mk("i", inner[0])
                miss = given(miss, cmp_lt(i, I.loops[inner[0]].trip))
            if miss is FALSE or b_and(miss, g) is FALSE:
                found = True
        if not found:
            return "the file is not added to the set of files that must not be overwritten"
        inner = [L] + inner
    return None


# ------------------------------------------------------------------ library: one pair of files
def one(a, F, fs, seen):
    op = {COMPRESS, "cres::io::detect_event_file_format"}
    op |= {b["name"] for b in F.bodies.values() if b["name"].endswith("FileReader::try_new")}
    I = a.interp(BUILD_ONE, F, opaque=op)
    W = where(I.entry)
    ps = [p for p, ty in zip(I.params, I.entry["locals"][1:]) if "PathBuf" in ty]
    if not a.ob("one", fs + ": files", len(ps) == 2, W, "%d paths" % len(ps)):
        return
    src, out = ps
    mk_ = [e for e in I.events if e.kind == "call" and e.name == CREATE]
    a.ob("one", fs + ": creates", len(mk_) >= 2, W, "%d places that create the output file" % len(mk_))
    for e in mk_:
        know(seen, e)
        t = "%s: %s" % (fs, e.fn)
        a.ob("one", t + ": path", e.args[0] is out, where(e), "creates " + show(e.args[0])[:200])
        S, why = tested(I, given(e.guard, b_not(exempt(src, e.guard))), e.args[0])
        if a.ob("one", t + ": checked first", S is not None, where(e), why or ""):
            no = holds_one(I, facts(I, S), src)
            a.ob("one", t + ": the input is not overwritten", no is None, where(e), no or "")
    opens = [e for e in I.events if e.kind == "call" and e.name.split("::")[-1] in ("try_new", "detect_event_file_format") and e.args and e.args[0].op != "agg" and "FileReader" in e.name + "FileReader" * ("detect" in e.name)]
    for e in opens:
        a.ob("one", "%s: reads %s" % (fs, e.name.split("::")[-2]), e.args[0] is src, where(e), show(e.args[0])[:200])


# ------------------------------------------------------------------ library: several pairs of files
def combined(a, F, fs):
    uses, made = [], []
    for b in F.bodies.values():
        for x in b["blocks"]:
            if not x:
                continue
            for s in x[0]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("adt") == COMBINED:
                    made.append(b)
            if any(p == BUILD_ONE for p in functions([x[0], x[1]])):
                uses.append(b)
    uses = list({b["id"]: b for b in uses}.values())
    if not a.ob("combined", fs + ": made in one place", len(made) == 1, "", ", ".join(b["name"] for b in made)):
        return
    made = made[0]
    names = set()
    for b in uses:
        I = a.interp(b, F, opaque={BUILD_ONE})
        for e in I.events:
            if e.kind != "call" or e.name != BUILD_ONE:
                continue
            x, y = e.args[-2:]
            s = I.params[0]
            good = x.op == y.op == "fld" and x.a[0] is y.a[0] and x.a[1] != y.a[1] and x.a[0].op == "idx"
            lst = x.a[0].a[0] if good else None
            good = good and lst.op == "fld" and "CombinedFileIO" in b["locals"][1]
            if a.ob("combined", "%s: %s opens one of its pairs" % (fs, b["name"]), good, where(e), "%s, %s" % (show(x)[:150], show(y)[:150])):
                names.add((lst.a[1], x.a[1], y.a[1]))
    if not a.ob("combined", fs + ": one list of files", len(names) == 1, "", str(names)):
        return
    lst, inf, outf = names.pop()
    changed(a, F, fs, lst)
    # the constructor
    op = {b["name"] for b in F.bodies.values() if b["name"].startswith(COMBINED + "::") and b is not made and any(
        F.bodies[i]["name"] == BUILD_ONE for i in reachable(F, b["id"]) if i in F.bodies)} | {BUILD_ONE}
    I = a.interp(made, F, opaque=op)
    W = where(made)
    starts = [e for e in I.events if e.kind == "call" and (e.name in op)]
    files = [x for _, x in outcomes(I, I.result) if x.op == "agg" and x.a[1] == "Ok"]
    okres = as_bool(is_variant(I.result, RES, "Ok"))
    aggs = [t for t in subterms(I.result) if t.op == "agg" and contains(t, lambda u: True) and str(t.a[0]).endswith("CombinedFileIO")]
    aggs += [t for e in starts for x in e.args for t in subterms(x) if t.op == "agg" and str(t.a[0]).endswith("CombinedFileIO")]
    lists = {field(t, lst) for t in aggs}
    if not a.ob("combined", fs + ": list of files", len(lists) == 1, W, "; ".join(show(x)[:100] for x in lists)):
        return
    seq = lists.pop()
    done = []
    why = "no check of the output files"
    for L in I.loops.values():
        if L.trip is None or L.trip is not length(seq):
            continue
        i = mk("i", L.id)
        p = field(index(seq, i), outf)
        g = b_and(L.backguard, cmp_lt(i, L.trip))
        S, no = tested(I, g, p)
        if S is None:
            why = no if "not looked up" not in no else why
            continue
        no = holds_all(I, facts(I, S), seq, lambda x: field(x, inf))
        if no is not None:
            why = "input files: " + no
            continue
        no = remembered(I, S, p, g, (L.id,))
        if no is not None:
            why = "output files: " + no
            continue
        done.append(L)
    if not a.ob("combined", fs + ": every output is checked", bool(done), W, why):
        return
    # nothing is opened, and there is no object, before all are checked
    for e in starts + [None]:
        g = e.guard if e is not None else okres
        ok = any(only_after(I, g, L) for L in done)
        a.ob("combined", "%s: checked before %s" % (fs, e.name.split("::")[-1] if e is not None else "success"), ok, where(e) if e is not None else W, show(g)[:200])


def only_after(I, g, L):
    """condition g implies that loop L has run through all of its iterations"""
    normal = list(L.exits).index(L.trip_exit) if L.trip_exit in L.exits else None
    if all(any(at.a[0] == L.id and at.a[1] == normal for at in taken(I, lits)) for lits, x in paths(g) if x is TRUE and feasible(I, lits)):
        return True
    for at in atoms_of(g):
        if at.op == "any" and at.a[0] is L.trip:
            body = subst(at.a[1], {at.a[2]: mk("i", L.id)})
            go = given(L.backguard, cmp_lt(mk("i", L.id), L.trip), cmp_le(ZERO, mk("i", L.id)))
            if b_and(body, go) is FALSE and b_and(b_not(body), b_not(go)) is FALSE and b_and(g, b_atom(at)) is FALSE:
                return True
    return False


def changed(a, F, fs, lst):
    """no code changes the list of files"""
    n = 0
    for b in F.bodies.values():
        for x in b["blocks"]:
            if not x:
                continue
            for s in x[0]:
                if s[0] != "=":
                    continue
                for pl, writes in ((s[1], True),) + (((s[2][2], s[2][1] != "shared"),) if s[2][0] in ("ref", "rawptr") and len(s[2]) > 2 and isinstance(s[2][2], list) else ()):
                    if not isinstance(pl, list) or len(pl) < 2 or not isinstance(pl[0], int):
                        continue
                    ty = b["locals"][pl[0]]
                    if COMBINED in ty and any(isinstance(q, list) and q[0] == "f" and q[2] == lst for q in pl[1]):
                        n += 1
                        a.ob("combined", "%s: list of files in %s" % (fs, b["name"]), not writes, "%s (%s)" % (b["name"], s[3][0]), "the list of files is changed after the check")
                    whole = COMBINED in ty and (not pl[1] or pl[1] == [["*"]]) and writes and s[1] == pl and pl[1]
                    if whole:
                        a.ob("combined", "%s: object in %s" % (fs, b["name"]), False, "%s (%s)" % (b["name"], s[3][0]), "the object is replaced after the check")
    a.ob("combined", fs + ": list of files", n > 0, "", "%d uses" % n)


# ------------------------------------------------------------------ programs
def outdirs(a, F, name, seen, tag):
    op = {"cres::cres::Cres::run", "cres::io::IOBuilder::build_from_files_iter"}
    I = a.interp(name, F, opaque=op)
    mkdirs(a, I, seen, tag)
    a.ob("program", tag + ": creates no files itself", not [e for e in I.events if e.kind == "call" and e.name == CREATE], where(I.entry), "")


def mkdirs(a, I, seen, tag):
    for e in I.events:
        if e.kind == "call" and e.name in MKDIR:
            know(seen, e)
            t = e.args[0]
            while t.op == "call" and t.a[0].split("::")[-1] in ("from_bytes", "to_bytes", "from_ptr", "as_ref"):
                t = [x for x in t.a[1:] if hasattr(x, "op")][-1]
            a.ob("program", tag + ": directory", t.op == "fld" and t.a[1] == "outdir", where(e), "creates the directory " + show(e.args[0])[:200])


def program(a, F, tag, seen, opq):
    b = a.body("bin::main", F)
    I = a.interp(b, F, opaque=opq, hooks=C22.hooks())
    W = where(b)
    op = C22.parsed(I)
    if not a.ob("program", tag + ": options read once", op is not None, W, ""):
        return
    mkdirs(a, I, seen, tag)
    mk_ = [e for e in I.events if e.kind == "call" and e.name == CREATE]
    a.ob("program", tag + ": outputs", bool(mk_), W, "%d places that create files" % len(mk_))
    ins = field(op, "infiles")
    rest = [t for t in (field(op, "partition"),) if any(e.kind == "call" and e.name == "std::fs::File::open" and e.args[0] is t for e in I.events)]
    for e in mk_:
        know(seen, e)
        p = e.args[0]
        S, why = tested(I, e.guard, p)
        n = len(e.loops)
        t = "%s: output%s" % (tag, " of each file" if n else "")
        if not a.ob("program", t + " checked first", S is not None, where(e), why or ""):
            continue
        fs = facts(I, S)
        no = holds_all(I, fs, ins, lambda x: x)
        a.ob("program", t + ": input files are not overwritten", no is None, where(e), no or "")
        for x in rest:
            no = holds_one(I, fs, x)
            a.ob("program", t + ": the partition is not overwritten", no is None, where(e), no or "")
        no = remembered(I, S, p, e.guard, e.loops)
        a.ob("program", t + ": other outputs are not overwritten", no is None, where(e), no or "")
