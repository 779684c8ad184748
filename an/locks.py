"""Lock-guard typestate: which guards may be alive at each call, and what the callee may do."""
import re
from .cfg import succs
from .query import callgraph, owner, reachable

GUARD = re.compile(r"(RwLock(Read|Write|UpgradableRead)Guard|MutexGuard|MappedRwLock\w+Guard|MappedMutexGuard)<")
LOCK = re.compile(r"(RwLock|Mutex)(<.*>)?::(<.*>::)?(read|write|lock|upgradable_read|try_read|try_write|try_lock|read_recursive|get)\w*$|RwLock::<R, T>::(read|write|read_recursive|upgradable_read)|Mutex::<R, T>::lock")

def is_guard(ty):
    return bool(GUARD.search(ty)) and not ty.startswith("&") and not ty.startswith("*")

def is_lock(path):
    return bool(re.search(r"(RwLock|Mutex)\b.*::(read|write|lock|read_recursive|upgradable_read)$", path)) and "Guard" not in path

def is_callback(path, res):
    """a call into code the library does not own: a trait method of the crate's own traits on a generic type, or a closure parameter"""
    if res:
        return False
    return path.startswith("cres::") or re.search(r"core::ops::function::Fn(Once|Mut)?::call", path) is not None

def calls_of(b):
    """(block index, fn record, args, dest, span, argtys)"""
    for i, bl in enumerate(b["blocks"]):
        if not bl or not bl[1]:
            continue
        t = bl[1]
        if t[0] == "call":
            f = t[1].get("k", {}).get("fn") if isinstance(t[1], dict) and "k" in t[1] else None
            yield i, f, t[2], t[3], t[5], t[6] if len(t) > 6 else []

def item(F, f):
    """id of the crate-local body a call resolves to"""
    if f is None:
        return None
    r = f.get("res")
    if isinstance(r, dict) and r.get("k") == "virtual":
        return None
    i = r.get("id") if isinstance(r, dict) and r.get("k") == "item" else f["id"]
    return i if i in F.bodies else None

class Effects:
    """may-lock / may-call-back summary of every function (closures merged into the function they are written in)"""
    def __init__(self, F):
        self.F = F
        self.direct = {}
        for k, b in F.bodies.items():
            d = self.direct.setdefault(owner(k), {"lock": [], "callback": []})
            for i, f, args, dest, span, at in calls_of(b):
                if f is None:
                    d["callback"].append((k, span, "?"))
                    continue
                if is_lock(f["path"]):
                    d["lock"].append((k, span, f["path"]))
                elif item(F, f) is None and is_callback(f["path"], isinstance(f.get("res"), dict) and f["res"].get("k") == "item"):
                    d["callback"].append((k, span, f["path"]))

    def may(self, i):
        out = {"lock": [], "callback": []}
        for r in reachable(self.F, i):
            for kind in out:
                out[kind] += self.direct.get(r, {}).get(kind, [])
        return out

def held(b):
    """{call block: set of guard locals that may be alive during the call}"""
    loc = {i for i, t in enumerate(b["locals"]) if is_guard(t)}
    if not loc:
        return {}
    inn = {0: frozenset()}
    todo = [0]
    at = {}
    def move(s, o):
        if isinstance(o, dict) and "m" in o and o["m"][0] in s and not o["m"][1]:
            s.discard(o["m"][0])
    while todo:
        k = todo.pop()
        s = set(inn[k])
        if not b["blocks"][k] or not b["blocks"][k][1]:
            continue
        st, t = b["blocks"][k]
        for x in st:
            if x[0] == "=":
                if x[1][0] in loc:
                    s.add(x[1][0])
                def mv(o):
                    if isinstance(o, dict):
                        move(s, o)
                        for v in o.values():
                            mv(v)
                    elif isinstance(o, list):
                        for v in o:
                            mv(v)
                mv(x[2])
            elif x[0] == "dead":
                s.discard(x[1])
        if t[0] == "drop":
            if not t[1][1]:
                s.discard(t[1][0])
        if t[0] == "call":
            for o in t[2]:
                move(s, o)
            at[k] = at.get(k, frozenset()) | frozenset(s)
            if t[3] and t[3][0] in loc:
                s.add(t[3][0])
        for n in succs(t):
            new = inn.get(n, frozenset()) | frozenset(s)
            if n not in inn or new != inn[n]:
                inn[n] = new
                todo.append(n)
    return at
