"""Loads the JSON MIR dump and offers type / CFG helpers."""
import json

class Dump:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]; self.files = d["files"]; self.types = d["types"]; self.allocs = d["allocs"]
        self.fns = d["fns"]; self.roots = d["roots"]; self.adts = d["adts"]; self.consts = d["consts"]
        self.cfg = {}
        self.bysname = {}
        for i, t in enumerate(self.types): self.bysname.setdefault(t["s_"], i)
    def T(self, i): return self.types[i]
    def fn_by_suffix(self, *suf):
        out = []
        for f in self.fns:
            for s in suf:
                if f["full"] == s or f["full"].endswith("::" + s): out.append(f); break
        return out
    def find_adt(self, name):
        for i, t in enumerate(self.types):
            if t["k"] == "adt" and (t["name"] == name or t["name"].endswith("::" + name)): return i
        return None
    def graph(self, f):
        g = self.cfg.get(f["id"])
        if g is None:
            g = CFG(f); self.cfg[f["id"]] = g
        return g
    def loc(self, f, line=None, fileidx=None):
        fi = f.get("file") if fileidx is None else fileidx
        fn = self.files[fi] if fi is not None else "?"
        for p in ("/programs/", "/clients/"):
            if p in fn: fn = fn[fn.index(p) + 1:]
        return "%s:%s" % (fn, line if line is not None else f.get("line"))

def succs(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "sw": return [x[1] for x in t[2]] + [t[3]]
    if k == "drop": return [t[2]]
    if k == "assert": return [t[4]]
    if k == "call": return [t[4]] if t[4] is not None else []
    return []

class CFG:
    def __init__(self, f):
        bl = f["blocks"]; n = len(bl)
        self.succ = [succs(b[1]) for b in bl]
        order = []; seen = [False] * n
        st = [(0, iter(self.succ[0]))]; seen[0] = True
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True; st.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]: pred[s].append(b)
        self.pred = pred
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if idom.get(b) != new: idom[b] = new; ch = True
        self.idom = idom
        self.loops = {}      # header -> set(blocks)
        self.irreducible = False
        for b in order:
            for s in self.succ[b]:
                if self.rpo[s] <= self.rpo[b]:
                    if self.dom(s, b):
                        body = self.loops.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x); st.extend(pred[x])
                    else: self.irreducible = True
    def _inter(self, idom, a, b):
        while a != b:
            while self.rpo[a] > self.rpo[b]: a = idom[a]
            while self.rpo[b] > self.rpo[a]: b = idom[b]
        return a
    def dom(self, a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = self.idom[b]
