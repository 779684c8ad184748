"""Control-flow graph of one MIR body: pruned graph, dominators, natural loops, loop forest."""

def succs(term):
    k = term[0]
    if k == "goto":
        return [term[1]]
    if k == "switch":
        out = []
        for _, b in term[3]:
            if b not in out:
                out.append(b)
        if term[4] is not None and term[4] not in out:
            out.append(term[4])
        return out
    if k == "call":
        return [] if term[4] is None else [term[4]]
    if k == "drop":
        return [term[3]]
    if k == "assert":
        return [term[4]]
    return []

class Cfg:
    def __init__(self, body):
        bl = body["blocks"]
        n = len(bl)
        self.succ = [succs(b[1]) if b and b[1] else [] for b in bl]
        self.pred = [[] for _ in range(n)]
        for i, ss in enumerate(self.succ):
            for s in ss:
                self.pred[s].append(i)
        # blocks that can reach a return
        live, st = set(), [i for i, b in enumerate(bl) if b and b[1] and b[1][0] == "return"]
        while st:
            x = st.pop()
            if x in live:
                continue
            live.add(x)
            st += self.pred[x]
        self.returns = live
        # reachable from entry
        seen, order, st = set(), [], [(0, iter(self.succ[0] if n else []))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(self.succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
        self.rpo = order[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if s in self.num and self.dominates(s, b):
                    body_ = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body_:
                            continue
                        body_.add(x)
                        st += [p for p in self.pred[x] if p in self.num]

    def _inter(self, idom, a, b):
        while a != b:
            while self.num[a] > self.num[b]:
                a = idom[a]
            while self.num[b] > self.num[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def inner_loops(self, region, header):
        """headers of the outermost loops strictly inside region"""
        cand = [h for h in self.loops if h in region and h != header and self.loops[h] <= region]
        return [h for h in cand if not any(h != o and h in self.loops[o] and self.loops[h] < self.loops[o] for o in cand)]
