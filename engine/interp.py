"""Abstract interpreter over the dumped MIR: one merged state per program point, values gated
by canonical atoms (see terms.py). Calls are inlined; loops are unrolled when their trip count is
decided and otherwise summarised as folds (see loops.py)."""
import re
from .terms import *
from . import maps
from .mir import Dump

class _Un:
    def __repr__(self): return "UNINIT"
UNINIT = _Un()
class Agg:
    __slots__ = ("f", "id", "top")
    def __repr__(self): return "(" + ",".join(map(repr, self.f)) + ")"
class Enum:
    __slots__ = ("ty", "d", "p", "id", "top")
    def __repr__(self): return "E[%r|%r]" % (self.d, self.p)
class Sym:
    __slots__ = ("ty", "t", "id")
    def __repr__(self): return "$%r" % (self.t,)
class List:
    """immutable list value: opaque tail (prefix) followed by known elements"""
    __slots__ = ("tail", "e", "id", "top")
    def __repr__(self): return "L%s%r" % ("" if self.tail is None else repr(self.tail) + "++", self.e)
class TreeIt:
    __slots__ = ("m", "f", "b", "mut", "id")
    def __repr__(self): return "TreeIt(%r,%r,%r)" % (self.m, self.f, self.b)
_I = {}
_cnt = [0]
def _int(cls, key, **kw):
    k = (cls,) + key
    v = _I.get(k)
    if v is None:
        v = cls(); v.id = _cnt[0]; _cnt[0] += 1
        for a, b in kw.items(): setattr(v, a, b)
        _I[k] = v
    return v
def agg(*f): return _int(Agg, tuple(id(x) for x in f), f=tuple(f), top=False)
def enum(ty, d, p):
    items = tuple(sorted(p.items()))
    return _int(Enum, (d.id, tuple((k, tuple(id(x) for x in v)) for k, v in items)), ty=ty, d=d, p=dict(items), top=False)
def sym(ty, t): return _int(Sym, (ty, t), ty=ty, t=t)
def lst(e, tail=None): return _int(List, (tail, tuple(id(x) for x in e)), tail=tail, e=tuple(e), top=bool(tail is not None and tail.top))
def treeit(m, f, b, mut): return _int(TreeIt, (id(m), f.id, b.id, mut), m=m, f=f, b=b, mut=mut)
UNIT = agg()
KEEP = []   # keep interned objects alive (ids are used as keys)

class Diverge(Exception): pass
class Abort(Exception):
    pass

class State:
    __slots__ = ("pc", "mem")
    def __init__(self, pc, mem): self.pc = pc; self.mem = mem
    def copy(self): return State(self.pc, dict(self.mem))

U64 = (0, 2**64 - 1)
class Interp:
    def __init__(self, dump, intr):
        self.d = dump; self.intr = intr
        self.frames = 0; self.heap = 0; self.topn = 0
        self.events = []
        self.stack = []
        self.depth = 0
        self.icache = {}
        self.unknown = {}
        self.symbolic_next = False
        self.loops = []
        self.loopdepth = 0
        self.stats = {"fns": set(), "calls": 0, "blocks": 0, "loops": 0, "branches": 0}
        self._exp = {}
        self.hooks = {}
        self.base_ty = {}
        self.tracing = False
        self.cpis = 0
        self.arg_enum = None
        self.wire = False
        self.arg_cases = {}
        self.giveups = []
        self.loopinfo = []; self.splitting = 0
        self.toks = []; self.tok_of = {}; self.guard_ty = {}; self.frame_body = {}
        self.coll_t = {}
        self.fnidx = {f["full"]: f["id"] for f in dump.fns}

    # ---------------------------------------------------------------- helpers
    def top(self, why, ty=None):
        self.topn += 1
        t = term("top", self.topn, why)
        if ty is None: return leaf(t)
        return self.expand(sym(ty, t))
    def newheap(self, val, st, tag="H"):
        self.heap += 1
        b = (tag, self.heap)
        st.mem[b] = val
        return b
    def T(self, i): return self.d.types[i]
    def is_map(self, ty):
        t = self.T(ty)
        return t["k"] == "adt" and t["name"].endswith("RedBlackTree")
    def is_pubkey(self, ty):
        t = self.T(ty)
        return t["k"] == "adt" and t["name"].endswith("pubkey::Pubkey")
    def rng(self, ty):
        t = self.T(ty)
        if t["k"] != "int": return U64
        w = t["w"]
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t["s"] else (0, (1 << w) - 1)

    def expand(self, v):
        if not isinstance(v, Sym): return v
        r = self._exp.get(v.id)
        if r is None:
            r = self._expand(v.ty, v.t); self._exp[v.id] = r; KEEP.append(v)
        return r
    def _expand(self, ty, t):
        d = self.T(ty); k = d["k"]
        if k == "int":
            if t.op == "f" and t.args[-1] == "unix_timestamp" or not d["s"]:
                t.nn = True
            if t.meta is None: t.meta = {"max": (1 << (d["w"] - (1 if d["s"] else 0))) - 1}
            return leaf(ps(t))
        if k == "bool": return BOOL(t)
        if k == "char": 
            t.nn = True; return leaf(ps(t))
        if k == "adt":
            if self.is_pubkey(ty): return leaf(t)
            if self.is_map(ty): return leaf(term("m0", t) if not t.top else t)
            if d["ak"] == "struct":
                if not d["v"]: return leaf(t)
                n = d["name"]
                if n.endswith("Rc") or n.endswith("Arc") or n.endswith("Box") or n.endswith("NonNull") or n.endswith("String") or n.endswith("Vec"): return leaf(t)
                return agg(*[sym(ft, term("f", t, fn)) for fn, ft in d["v"][0]["f"]])
            if d["ak"] == "enum":
                n = len(d["v"])
                if n == 0: return UNIT
                if t.top:
                    disc = leaf(pc(n - 1))
                disc = leaf(pc(n - 1))
                for i in range(n - 2, -1, -1):
                    disc = ite(BOOL(term("is", t, i, d["v"][i]["n"])), leaf(pc(i)), disc)
                pay = {}
                for i, vv in enumerate(d["v"]):
                    pay[i] = tuple(sym(ft, term("f", t, i, fn)) for fn, ft in vv["f"])
                return enum(ty, disc, pay)
            return leaf(t)
        if k == "tuple": return agg(*[sym(e, term("f", t, i)) for i, e in enumerate(d["e"])])
        if k == "array":
            if d["n"] is not None and d["n"] <= 64: return agg(*[sym(d["e"], term("ix", t, i)) for i in range(d["n"])])
            return leaf(t)
        if k in ("ref", "ptr"):
            if t.top: return leaf(t)
            e = self.T(d["e"])
            b = ("obj", t)
            self.base_ty[b] = d["e"]
            if e["k"] in ("slice", "str"): return leaf(ptr(b, (), ("s", pc(0), ps(term("len", t, nn=True, meta={"max": 2**63})))))
            if e["k"] == "dyn": return leaf(t)
            return leaf(ptr(b))
        return leaf(t)

    def lazy_base(self, b):
        """initial content of a base never written"""
        if b[0] == "obj":
            ty = self.base_ty[b]; e = self.T(ty)
            if e["k"] in ("slice", "str"): return ("opaque-slice", ty)
            return sym(ty, term("*", b[1]))
        if b[0] == "alloc": return self.const_base(b)
        if b[0] in self.hooks: return self.hooks[b[0]](b)
        if b[0] == "BT": return FALSE
        return UNINIT

    def zero_val(self, ty):
        t = self.T(ty); k = t["k"]
        if k == "int": return leaf(pc(0))
        if k == "bool": return FALSE
        if self.is_pubkey(ty): return leaf(term("kconst", "00" * 32))
        if self.is_map(ty): return leaf(maps.EMPTY)
        if k == "adt" and t["ak"] == "struct" and t["v"]: return agg(*[self.zero_val(ft) for _, ft in t["v"][0]["f"]])
        if k == "array" and t["n"] is not None and t["n"] <= 64: return agg(*[self.zero_val(t["e"]) for _ in range(t["n"])])
        return self.top("zero", ty)
    # ---------------------------------------------------------------- borrow state of RefCells
    # one entry ("BT", cell, token) per live guard; a guard is (pointer, token), and dropping a place that holds a token ends it
    def guards_in(self, ty):
        """whether a value of this type may hold a Ref or RefMut"""
        r = self.guard_ty.get(ty)
        if r is None:
            self.guard_ty[ty] = False
            t = self.T(ty)
            r = bool(re.search(r"\bRef(Mut)?<", t.get("s_", "")))
            if not r and t["k"] == "adt": r = any(self.guards_in(ft) for v in t["v"] for _, ft in v["f"])
            elif not r and t["k"] == "array": r = self.guards_in(t["e"])
            self.guard_ty[ty] = r
        return r
    def borrowed(self, st, p, mut):
        """when a borrow of the cell p points to would conflict with a live one"""
        r = FALSE
        if not isinstance(p, N): return r
        act = [b for b in st.mem if b[0] == "BT"]
        if not act: return r
        for g, b, path, m in self.deref(st, p):
            for k in act:
                if k[1] == (b, path) and (mut or self.toks[k[2]][1]):
                    if not self.holder(st, k[2]): del st.mem[k]; continue
                    r = OR(r, AND(g, st.mem[k]))
            act = [k for k in act if k in st.mem]
        return r
    def holder(self, st, n):
        """whether some place still holds the guard"""
        t = term("bt", n); seen = set()
        def has(v):
            if id(v) in seen: return False
            seen.add(id(v))
            if isinstance(v, N): return any(x is t if isinstance(x, T) else isinstance(x, List) and any(has(e) for e in x.e) for x in leaves(v))
            if isinstance(v, Agg): return any(has(x) for x in v.f)
            if isinstance(v, Enum): return any(has(x) for y in v.p.values() for x in y)
            return False
        return any(b[0] != "BT" and has(v) for b, v in st.mem.items())
    def guard(self, st, p, mut, g0=TRUE):
        if not isinstance(p, N): return agg(p, UNINIT)
        site = tuple((x[0]["full"], x[1]) for x in self.stack)
        tok = None
        for g, b, path, m in self.deref(st, p):
            g = AND(g, g0)
            if b[0] in ("top", "dangling") or g is FALSE: continue
            n = 0
            while True:
                key = ((b, path), mut, site, n)
                i = self.tok_of.get(key)
                if i is None: i = self.tok_of[key] = len(self.toks); self.toks.append(key)
                if ("BT", (b, path), i) not in st.mem: break
                n += 1
            st.mem[("BT", (b, path), i)] = g
            t = leaf(term("bt", i))
            tok = t if tok is None else ite(g, t, tok)
        return agg(p, UNINIT if tok is None else tok)
    def guard_again(self, st, v):
        if not isinstance(v, Agg) or len(v.f) != 2 or not isinstance(v.f[1], N): return v
        tok = None
        for g, t in gates(v.f[1], TRUE):
            if not (isinstance(t, T) and t.op == "bt"): continue
            (b, path), mut = self.toks[t.args[0]][:2]
            x = self.guard(st, leaf(ptr(b, path)), mut, g).f[1]
            tok = x if tok is None else ite(g, x, tok)
        return agg(v.f[0], UNINIT if tok is None else tok)
    def release(self, st, v, g0=TRUE, heap=False, depth=0):
        """the guards v holds end"""
        if depth > 12: return
        if isinstance(v, N):
            for g, x in gates(v, g0):
                if isinstance(x, T) and x.op == "bt":
                    for k in [k for k in st.mem if k[0] == "BT" and k[2] == x.args[0]]:
                        nv = simp(AND(st.mem[k], NOT(g)), st.pc)
                        if nv is FALSE: del st.mem[k]
                        else: st.mem[k] = nv
                elif isinstance(x, List):
                    for e in x.e: self.release(st, e, g, heap, depth + 1)
                elif heap and isinstance(x, Ptr) and x.base[0] == "H" and x.base in st.mem: self.release(st, st.mem[x.base], g, heap, depth + 1)
        elif isinstance(v, Agg):
            for x in v.f: self.release(st, x, g0, heap, depth + 1)
        elif isinstance(v, Enum):
            for k, y in v.p.items():
                for x in y: self.release(st, x, g0, heap, depth + 1)
    def dropped(self, st, fr, place):
        try: v = self.readlv(st, self.lval(st, fr, place))
        except Exception: return
        self.release(st, v, TRUE, True)
    def coll_elem(self, tail, pos):
        M, dom, dirn, tm = tail.args
        def back(t): return agg(*[back(x) for x in t.args]) if isinstance(t, T) and t.op == "agg" else t
        v = self.coll_t.get((M, dom, dirn, tm))
        if v is None: v = back(tm)
        from .loops import map_val
        m = {maps.EK: ps(term("ek", M, dirn, pos, nn=True)), maps.EV: ps(term("ev", M, dirn, pos, nn=True))}
        return map_val(self, v, m, {})

    # ---------------------------------------------------------------- constants
    def const_base(self, b):
        _, aid, ty = b
        a = self.d.allocs[aid]
        if a[0] != "mem": return self.top("alloc " + a[0])
        if ty is None:  # raw bytes
            return self.bytes_val(a[1])
        return self.parse(ty, a[1], 0)
    def bytes_val(self, a):
        h = a["b"]
        if "_" in h: return self.top("uninit bytes")
        return agg(*[leaf(pc(int(h[i:i+2], 16))) for i in range(0, len(h), 2)])
    def parse(self, ty, a, off):
        t = self.T(ty); k = t["k"]; h = a["b"]
        def raw(o, n): return h[2*o:2*(o+n)]
        def num(o, n, s=False):
            x = raw(o, n)
            if "_" in x: return None
            v = int.from_bytes(bytes.fromhex(x), "little")
            if s and v >> (8*n-1): v -= 1 << (8*n)
            return v
        if k == "int":
            v = num(off, t["w"]//8, t["s"])
            return leaf(pc(v)) if v is not None else UNINIT
        if k == "bool": return leaf(num(off, 1) == 1)
        if k == "float": return leaf(term("flt", "const", raw(off, t.get("size") or 8)))
        if k == "char": return leaf(pc(num(off, 4)))
        if k in ("ref", "ptr"):
            p = {o: x for o, x in a["p"]}
            e = self.T(t["e"])
            if off not in p:
                v = num(off, 8)
                return leaf(ptr(("dangling", v), (), ("s", pc(0), pc(num(off+8, 8))) if e["k"] in ("slice", "str") else None))
            al = self.d.allocs[p[off]]
            if al[0] == "fn": return leaf(term("fn", al[1]))
            if e["k"] in ("slice", "str"):
                n = num(off + 8, 8)
                st = num(off, 8)
                if e["k"] == "str": return leaf(ptr(("alloc", p[off], None), (), ("s", pc(st), pc(n))))
                es = self.T(e["e"])["size"]
                if self.T(e["e"])["k"] == "int" and es == 1: return leaf(ptr(("alloc", p[off], None), (), ("s", pc(st), pc(n))))
                return leaf(ptr(("alloc", p[off], ("arr", e["e"], n)), (), ("s", pc(0), pc(n))))
            if e["k"] == "dyn": return self.top("const dyn")
            return leaf(ptr(("alloc", p[off], t["e"])))
        if k == "array":
            n = t["n"]; es = self.T(t["e"])["size"]
            if n > 256: return leaf(term("kconst", raw(off, n*es)))
            return agg(*[self.parse(t["e"], a, off + i*es) for i in range(n)])
        if k == "tuple":
            if t["size"] == 0: return agg(*[UNIT for _ in t["e"]])
            return self.top("const tuple", ty)
        if k == "adt":
            if self.is_pubkey(ty): return leaf(term("kconst", raw(off, 32)))
            if t["ak"] == "struct":
                offs = t.get("off") or []
                fs = t["v"][0]["f"]
                if len(offs) == len(fs): return agg(*[self.parse(ft, a, off + o) for (fn, ft), o in zip(fs, offs)])
            if t["ak"] == "enum":
                # fieldless enum
                if all(not v["f"] for v in t["v"]) and t["size"] in (1, 2, 4, 8, 0):
                    n = num(off, t["size"]) if t["size"] else 0
                    for i, v in enumerate(t["v"]):
                        if int(v["d"]) == n: return enum(ty, leaf(pc(i)), {i: ()})
                # Option<ref>-like with nothing set
                if t["name"].endswith("Option") and t["size"] == 0: return enum(ty, leaf(pc(0)), {0: ()})
                if t["name"].endswith("Option") and not a["p"] and t["v"][1]["f"]:
                    pt = self.T(t["v"][1]["f"][0][1])
                    if pt["k"] in ("ref", "fnptr") and num(off, 8) == 0: return enum(ty, leaf(pc(0)), {0: ()})
                    if pt["k"] == "int":
                        tag = num(off, pt["size"])
                        if tag == 0: return enum(ty, leaf(pc(0)), {0: ()})
                        if tag == 1: return enum(ty, leaf(pc(1)), {1: (self.parse(t["v"][1]["f"][0][1], a, off + pt["size"]),)})
                v = self.variant(t, a, off, num)
                if v is not None:
                    o = t["lay"]["off"] if "one" in t["lay"] else t["lay"]["off"][v]
                    return enum(ty, leaf(pc(v)), {v: tuple(self.parse(ft, a, off + o[i]) for i, (fn, ft) in enumerate(t["v"][v]["f"]))})
                return self.top("const enum " + t["s_"], ty)
        if t["size"] == 0: return UNIT
        return self.top("const " + t["s_"], ty)
    def variant(self, t, a, off, num):
        """the variant a constant of enum type t holds"""
        l = t.get("lay")
        if l is None: return None
        if "one" in l: return l["one"]
        if any(x == off + l["to"] for x, _ in a["p"]): return l["enc"][0] if l["enc"] else None
        n = num(off + l["to"], l["ts"])
        if n is None: return None
        if l["enc"] is None:
            for i, v in enumerate(t["v"]):
                if (int(v["d"]) - n) % (1 << (8 * l["ts"])) == 0: return i
            return None
        un, lo, hi, start = l["enc"]
        d = (n - start) % (1 << (8 * l["ts"])) + lo
        return d if lo <= d <= hi else un
    def konst(self, o):
        ty = o[1]
        if o[0] == "n": return leaf(pc(o[2]))
        if o[0] == "u": return self.top("unevaluated " + str(o[2]), ty)
        if o[0] == "r": return FALSE
        t = self.T(ty)
        if o[2] is None:
            if t["k"] == "fndef": return leaf(term("fn", t["inst"])) if t["inst"] is not None else self.top("fn", None)
            return self.zst(ty)
        if t["k"] in ("fndef",): return leaf(term("fn", t["inst"]))
        if t["size"] == 0: return self.zst(ty)
        if t["k"] in ("ref", "ptr") and self.T(t["e"])["k"] == "str" and o[2]["p"]:
            pass
        return self.parse(ty, o[2], 0)
    def zst(self, ty):
        t = self.T(ty); k = t["k"]
        if k == "tuple": return agg(*[self.zst(e) for e in t["e"]])
        if k == "adt" and t["ak"] == "struct" and t["v"]: return agg(*[self.zst(ft) for _, ft in t["v"][0]["f"]])
        if k == "adt" and t["ak"] == "enum" and len(t["v"]) == 1: return enum(ty, leaf(pc(0)), {0: tuple(self.zst(ft) for _, ft in t["v"][0]["f"])})
        if k == "fndef": return leaf(term("fn", t["inst"]))
        if k == "array": return agg()
        return UNIT

    # ---------------------------------------------------------------- merging
    def merge(self, c, a, b):
        if a is b: return a
        if c is TRUE: return a
        if c is FALSE: return b
        if a is UNINIT: return b
        if b is UNINIT: return a
        if isinstance(a, N) and isinstance(b, N): return ite(c, a, b)
        if isinstance(a, Sym): a = self.expand(a)
        if isinstance(b, Sym): b = self.expand(b)
        if isinstance(a, N) and isinstance(b, N): return ite(c, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
            return agg(*[self.merge(c, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, Enum) and isinstance(b, Enum):
            d = ite(c, a.d, b.d); p = dict(b.p)
            for k, v in a.p.items():
                if k in p:
                    w = p[k]
                    if len(v) == len(w): p[k] = tuple(self.merge(c, x, y) for x, y in zip(v, w))
                    else: p[k] = v
                else: p[k] = v
            return enum(a.ty if a.ty is not None else b.ty, d, p)
        if isinstance(a, TreeIt) and isinstance(b, TreeIt) and a.m is b.m: return treeit(a.m, ite(c, a.f, b.f), ite(c, a.b, b.b), a.mut)
        if isinstance(a, Enum) and isinstance(b, N) and is_top(b): return self.top("merge")
        if isinstance(a, (Agg, N)) and isinstance(b, (Agg, N)):
            # opaque byte blob vs spelled-out bytes
            x, y = self.blob(a), self.blob(b)
            if x is not None and y is not None: return ite(c, x, y)
        return self.top("merge of unlike values")
    def blob(self, v):
        if isinstance(v, N): return v
        if isinstance(v, Agg):
            h = ""
            for x in v.f:
                if not isinstance(x, N) or x.var is not None or not isinstance(x.val, Poly): return None
                k = pconst(x.val)
                if k is None or not (0 <= k < 256): return None
                h += "%02x" % k
            return leaf(term("kconst", h))
        return None
    def join(self, a, b):
        if a is None: return b
        if b is None: return a
        p = OR(a.pc, b.pc)
        c = restrict(a.pc, p)
        m = dict(b.mem)
        for k, v in a.mem.items():
            w = m.get(k, UNINIT)
            if v is not w:
                if w is UNINIT and k[0] not in ("L", "H", "X"):
                    w = self.lazy_base(k)
                m[k] = self.merge(c, v, w) if w is not UNINIT else v
        for k, w in b.mem.items():
            if k not in a.mem and k[0] not in ("L", "H", "X"):
                m[k] = self.merge(c, self.lazy_base(k), w)
        return State(p, m)

    # ---------------------------------------------------------------- memory
    def base_val(self, st, b):
        v = st.mem.get(b)
        if v is None:
            v = self.lazy_base(b)
        return v
    def project(self, v, e, st):
        if v is UNINIT: return UNINIT
        if isinstance(v, Sym): v = self.expand(v)
        if isinstance(e, int):
            if isinstance(v, Agg):
                return v.f[e] if e < len(v.f) else self.top("field range")
            if isinstance(v, N):
                if v.var is None and isinstance(v.val, List): return v.val.e[e] if v.val.tail is None and e < len(v.val.e) else self.top("list index")
                lv = leaves(v)
                if all(maps._isM(x) for x in lv):
                    if e != 0: return self.top("tree internals")
                    return ap1(lambda m: leaf(pc(0)) if m is maps.EMPTY else leaf(ps(term("root", m, nn=True, meta={"max": 2**32 - 1}))), v)
                if all(isinstance(x, List) for x in lv):
                    out = None
                    for g, x in gates(v, TRUE):
                        y = x.e[e] if x.tail is None and e < len(x.e) else UNINIT
                        out = y if out is None else self.merge(g, y, out)
                    return out
                if all(isinstance(x, (Ptr,)) for x in lv): return v      # Box / NonNull / Unique wrappers
                if all(isinstance(x, T) for x in lv): return v if e == 0 else self.top("field of opaque")
                if e == 0: return v
                return self.top("field of scalar")
            if isinstance(v, Enum):
                # single-variant access without downcast
                if len(v.p) == 1: return list(v.p.values())[0][e]
            if isinstance(v, tuple): return self.top("slice elem")
            return self.top("projection")
        if e[0] == "d":
            if isinstance(v, Enum):
                f = v.p.get(e[1])
                if f is None: return UNINIT
                return agg(*f)
            if isinstance(v, N) and is_top(v): return self.top("downcast of top")
            return self.top("downcast")
        if e[0] == "mv":
            if isinstance(v, N): return maps.VV(v, leaf(e[1]))
            return self.top("mapval")
        if e[0] == "buf": return v
        return self.top("proj " + str(e))
    def load(self, st, base, path):
        v = self.base_val(st, base)
        for e in path:
            v = self.project(v, e, st)
            if v is UNINIT: return UNINIT
        return v
    def update(self, v, path, new, st):
        if not path: return new
        e = path[0]
        if isinstance(v, Sym): v = self.expand(v)
        if isinstance(e, int):
            if v is UNINIT: 
                f = [UNINIT] * (e + 1)
                f[e] = self.update(UNINIT, path[1:], new, st)
                return agg(*f)
            if isinstance(v, Agg):
                f = list(v.f)
                while len(f) <= e: f.append(UNINIT)
                f[e] = self.update(f[e], path[1:], new, st)
                return agg(*f)
            if isinstance(v, N):
                if v.var is None and isinstance(v.val, List) and v.val.tail is None and e < len(v.val.e):
                    f = list(v.val.e); f[e] = self.update(f[e], path[1:], new, st)
                    return leaf(lst(f))
                lv = leaves(v)
                if all(isinstance(x, List) and x.tail is None for x in lv):
                    out = None
                    for g, x in gates(v, TRUE):
                        f = list(x.e)
                        if e < len(f): f[e] = self.update(f[e], path[1:], new, st)
                        y = leaf(lst(f))
                        out = y if out is None else ite(g, y, out)
                    return out
                if e == 0 and len(path) == 1 : return new
                return self.top("update opaque")
            if isinstance(v, Enum) and len(v.p) == 1:
                k = next(iter(v.p)); f = list(v.p[k]); f[e] = self.update(f[e], path[1:], new, st)
                return enum(v.ty, v.d, {k: tuple(f)})
            return self.top("update")
        if e[0] == "d":
            if v is UNINIT: v = enum(None, leaf(pc(e[1])), {})
            if isinstance(v, Enum):
                f = list(v.p.get(e[1], ()))
                if len(path) == 1: return self.top("variant overwrite")
                i = path[1]
                while len(f) <= i: f.append(UNINIT)
                f[i] = self.update(f[i], path[2:], new, st)
                p = dict(v.p); p[e[1]] = tuple(f)
                return enum(v.ty, v.d, p)
            return self.top("update downcast")
        if e[0] == "mv":
            if isinstance(v, N) and isinstance(new, N): return maps.SET(v, leaf(e[1]), new)
            return self.top("map update")
        if e[0] == "buf": return self.update(v, path[1:], new, st)
        return self.top("update?")
    def store(self, st, base, path, val, gate=TRUE):
        old = self.base_val(st, base)
        if isinstance(old, tuple): old = UNINIT
        if isinstance(val, N) and st.pc is not TRUE: val = simp(val, st.pc)
        if path:
            new = self.update(old, path, val, st)
        else: new = val
        g = restrict(gate, st.pc) if gate is not TRUE else TRUE
        if g is not TRUE: new = self.merge(g, new, old)
        st.mem[base] = new
        if base[0] in ("view", "lam", "data", "owner", "key"):
            self.events.append({"k": "write", "g": AND(st.pc, gate), "base": base, "path": path, "old": old, "new": new, "where": self.where()})

    def where(self):
        out = []
        for f, line in reversed(self.stack):
            fn = self.d.files[f["file"]] if f.get("file") is not None else ""
            if "/programs/" in fn or "/clients/" in fn or fn.startswith("programs/") or fn.startswith("clients/"):
                out.append((self.d.loc(f, line), f["full"]))
        return out

    # lvalues: list of (gate, base, path, meta)
    def lval(self, st, fr, place):
        lv = [(TRUE, ("L", fr, place[0]), (), None)]
        for e in place[1:]:
            if e == "*":
                nl = []
                for g, b, p, m in lv:
                    v = self.load(st, b, p)
                    nl += self.deref(st, v, g)
                lv = nl
            elif e[0] == "f": lv = [(g, b, p + (e[1],), None) for g, b, p, m in lv]
            elif e[0] == "d": lv = [(g, b, p + (("d", e[1]),), None) for g, b, p, m in lv]
            elif e[0] == "i":
                iv = self.rd(st, ("L", fr, e[1]), ())
                nl = []
                for g, b, p, m in lv:
                    if isinstance(iv, N):
                        for g2, x in gates(iv, TRUE):
                            gg = AND(g, g2)
                            if AND(gg, st.pc) is FALSE: continue
                            nl.append((gg,) + self.elem(b, p, m, x))
                    else: nl.append((g, ("top", "index"), (), None))
                lv = nl
            elif e[0] == "c":
                nl = []
                for g, b, p, m in lv:
                    if e[2]:  # from end
                        ln = m[2] if m is not None and m[0] == "s" else None
                        if ln is None:
                            v = self.load(st, b, p)
                            v = self.expand(v)
                            ln = pc(len(v.f)) if isinstance(v, Agg) else None
                        x = psub(ln, pc(e[1])) if ln is not None else None
                    else: x = pc(e[1])
                    nl.append((g,) + (self.elem(b, p, m, x) if x is not None else (("top", "cidx"), (), None)))
                lv = nl
            elif e[0] == "s":
                nl = []
                for g, b, p, m in lv:
                    if m is None:
                        v = self.expand(self.load(st, b, p)); m = ("s", pc(0), pc(len(v.f)) if isinstance(v, Agg) else pc(0))
                    to = psub(m[2], pc(e[2])) if e[3] else pc(e[2])
                    nl.append((g, b, p, ("s", padd(m[1], pc(e[1])), psub(to, pc(e[1])))))
                lv = nl
        return lv
    def elem(self, b, p, m, x):
        if m is not None and m[0] == "s" and isinstance(x, Poly): x = padd(m[1], x)
        k = pconst(x) if isinstance(x, Poly) else None
        if k is None: return (("top", "symbolic index"), (), None)
        return (b, p + (k,), None)
    def deref(self, st, v, g=TRUE):
        if isinstance(v, Sym): v = self.expand(v)
        if isinstance(v, Agg) and len(v.f) >= 1 and isinstance(v.f[0], (N, Agg)): return self.deref(st, v.f[0], g)   # Box-like
        if not isinstance(v, N): return [(g, ("top", "deref"), (), None)]
        out = []
        v = simp(v, st.pc)
        if v.var is None:
            x = v.val
            if isinstance(x, Ptr): return [(g, x.base, x.path, x.meta)]
            return [(g, ("top", "deref opaque"), (), None)]
        for g2, x in gates(v, TRUE):
            gg = AND(g, g2)
            if AND(gg, st.pc) is FALSE: continue
            if isinstance(x, Ptr): out.append((gg, x.base, x.path, x.meta))
            else: out.append((gg, ("top", "deref opaque"), (), None))
        return out
    def rd(self, st, base, path):
        v = self.load(st, base, path)
        if isinstance(v, N): v = simp(v, st.pc)
        elif isinstance(v, Sym): v = self.expand(v)
        return v
    def readlv(self, st, lv):
        r = None
        for g, b, p, m in lv:
            v = self.top("read through opaque pointer") if b[0] in ("top", "dangling") else self.rd(st, b, p)
            if isinstance(v, tuple): v = self.top("slice as value")
            r = v if r is None else self.merge(g, v, r)
        if isinstance(r, N): r = simp(r, st.pc)
        return r if r is not None else self.top("no target")
    def writelv(self, st, lv, val):
        for g, b, p, m in lv:
            if b[0] == "top":
                self.events.append({"k": "wild", "g": AND(st.pc, g), "where": self.where()})
                continue
            self.store(st, b, p, val, g)

    # ---------------------------------------------------------------- operands / rvalues
    def op(self, st, fr, o):
        if o[0] in ("c", "m"): return self.readlv(st, self.lval(st, fr, o[1]))
        if o[0] == "r": return FALSE
        return self.konst(o)
    def ptr_of(self, lv):
        r = None
        for g, b, p, m in lv:
            v = leaf(ptr(b, p, m)) if b[0] != "top" else self.top("ref of opaque")
            r = v if r is None else ite(g, v, r)
        return r if r is not None else self.top("noptr")
    def num2(self, f, a, b):
        if not isinstance(a, N) or not isinstance(b, N): return self.top("arith on non-scalar")
        def g(x, y):
            if isinstance(x, bool): x = pc(1 if x else 0)
            if isinstance(y, bool): y = pc(1 if y else 0)
            if isinstance(x, Poly) and isinstance(y, Poly):
                r = f(x, y)
                return r if isinstance(r, N) else leaf(r)
            return self.top("arith")
        return ap2(g, a, b)
    def cmp(self, opn, a, b, ty=None):
        t = self.T(ty) if ty is not None else None
        uns = t is not None and t["k"] == "int" and not t["s"]
        if isinstance(a, Enum) and isinstance(b, Enum): a, b = a.d, b.d
        if not isinstance(a, N) or not isinstance(b, N): return BOOL(term("top", "cmp"))
        def eq(x, y):
            if isinstance(x, Poly) and isinstance(y, Poly): return EQ0(psub(x, y))
            if isinstance(x, bool) and isinstance(y, bool): return TRUE if x == y else FALSE
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                return TRUE if x is y else BOOL(term("ptreq", x.id, y.id)) if x.base == y.base else FALSE
            if isinstance(x, T) and isinstance(y, T): return EQT(x, y)
            return BOOL(term("top", "eq"))
        def lt(x, y):
            if isinstance(x, bool): x = pc(int(x))
            if isinstance(y, bool): y = pc(int(y))
            if isinstance(x, Poly) and isinstance(y, Poly):
                if uns:             # an unsigned value compared with 0 or 1
                    if pconst(x) == 0: return NOT(EQ0(y))
                    if pconst(y) == 1: return EQ0(x)
                    if pconst(y) == 0: return FALSE
                return LT0(psub(x, y))
            if isinstance(x, T) and isinstance(y, T): return FALSE if x is y else BOOL(term("ltT", x, y))
            return BOOL(term("top", "lt"))
        if opn == "Eq": return ap2(eq, a, b)
        if opn == "Ne": return NOT(ap2(eq, a, b))
        if opn == "Lt": return ap2(lt, a, b)
        if opn == "Gt": return ap2(lt, b, a)
        if opn == "Le": return NOT(ap2(lt, b, a))
        if opn == "Ge": return NOT(ap2(lt, a, b))
    ARITH = {"Add": padd, "AddUnchecked": padd, "Sub": psub, "SubUnchecked": psub, "Mul": pmul, "MulUnchecked": pmul}
    def arith(self, opn, a, b, w):
        """(value-if-in-range gated with a wrap term, overflow)"""
        f = self.ARITH[opn]
        v = self.num2(f, a, b)
        if not isinstance(v, N): return v, BOOL(term("top", "ovf"))
        ov = ap1(lambda x: OVF(x, w) if isinstance(x, Poly) else BOOL(term("top", "ovf")), v)
        return v, ov
    def wrapv(self, v, ov, w):
        if ov is FALSE: return v
        return ite(ov, ap1(lambda x: leaf(ps(term("wrap", x, w[1], nn=True))) if isinstance(x, Poly) else leaf(x), v), v)
    def divide(self, a, b, rem=False):
        def f(x, y):
            if pconst(y) == 0: return leaf(pc(0))
            return premp(x, y) if rem else pdiv(x, y)
        return self.num2(f, a, b)
    def binop(self, st, opn, a, b, ty):
        if ty is not None and self.T(ty)["k"] == "float":
            if not isinstance(a, N) or not isinstance(b, N): return self.top("float")
            if opn in ("Eq", "Ne", "Lt", "Gt", "Le", "Ge"): return ap2(lambda x, y: BOOL(term("fltcmp", opn, x, y)), a, b)
            return ap2(lambda x, y: leaf(term("flt", opn, x, y)), a, b)
        if opn in ("Eq", "Ne", "Lt", "Gt", "Le", "Ge"): return self.cmp(opn, a, b, ty)
        if opn in self.ARITH:
            v, ov = self.arith(opn, a, b, self.rng(ty))
            if opn.endswith("Unchecked"): return v
            if isinstance(v, N) and isinstance(ov, N): return self.wrapv(v, simp(ov, st.pc), self.rng(ty))
            return v
        if opn in ("Div", "Rem"):
            if ty is not None and self.T(ty)["k"] == "int" and self.T(ty)["s"]:      # rounds towards zero: not the quotient of non-negative numbers
                def f(x, y):
                    if nonneg(x) and nonneg(y): return premp(x, y) if opn == "Rem" else pdiv(x, y)
                    return ps(term("s" + opn, x, y))
                return self.num2(f, a, b)
            return self.divide(a, b, opn == "Rem")
        if opn in ("BitAnd", "BitOr", "BitXor") and isinstance(a, N) and isinstance(b, N):
            if all(isinstance(x, bool) for x in leaves(a)) and all(isinstance(x, bool) for x in leaves(b)):
                return {"BitAnd": AND, "BitOr": OR, "BitXor": XOR}[opn](a, b)
            def f(x, y):
                cx, cy = pconst(x), pconst(y)
                if cx is not None and cy is not None: return pc({"BitAnd": cx & cy, "BitOr": cx | cy, "BitXor": cx ^ cy}[opn])
                if opn == "BitAnd" and cy is not None and (cy & (cy + 1)) == 0: return premp(x, pc(cy + 1)) if not (upper(x) is not None and upper(x) <= cy) else x
                if opn == "BitAnd" and (cx == 0 or cy == 0): return pc(0)
                if opn in ("BitOr", "BitXor") and cx == 0: return y
                if opn in ("BitOr", "BitXor") and cy == 0: return x
                return ps(term("bit", opn, x, y, nn=True))
            return self.num2(f, a, b)
        if opn in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            def f(x, y):
                cy = pconst(y)
                if cy is not None:
                    if opn.startswith("Shr"): return pdiv(x, pc(1 << cy))
                    return pmul(x, pc(1 << cy))
                return ps(term("bit", opn, x, y, nn=True))
            v = self.num2(f, a, b)
            if opn.startswith("Shl") and isinstance(v, N) and ty is not None and self.T(ty)["k"] == "int":
                w = self.rng(ty)
                v = self.wrapv(v, simp(ap1(lambda x: OVF(x, w) if isinstance(x, Poly) else FALSE, v), st.pc), w)
            return v
        if opn == "Cmp":
            lt = self.cmp("Lt", a, b); eq = self.cmp("Eq", a, b)
            return enum(None, ite(lt, leaf(pc(0)), ite(eq, leaf(pc(1)), leaf(pc(2)))), {0: (), 1: (), 2: ()})
        if opn == "Offset": return self.top("offset")
        return self.top("binop " + opn)
    def optype(self, fr, o, body):
        if o[0] in ("k", "n", "u"): return o[1]
        if o[0] in ("c", "m"):
            pl = o[1]; ty = body["locals"][pl[0]]
            for e in pl[1:]:
                t = self.T(ty)
                if e == "*":
                    if t["k"] in ("ref", "ptr"): ty = t["e"]
                    else: return None
                elif e[0] == "f": ty = e[2]
                elif e[0] == "i" or e[0] == "c": ty = t.get("e")
                elif e[0] == "d": pass
                else: return None
                if ty is None: return None
            return ty
        return None
    def cast(self, st, kind, v, fty, tty):
        t = self.T(tty)
        if kind.startswith("IntToInt") or "IntToInt" in kind:
            w = self.rng(tty)
            if isinstance(v, Enum): v = v.d
            if not isinstance(v, N): return self.top("cast")
            if fty is not None:
                ft = self.T(fty)
                if ft["k"] == "int":
                    wf = self.rng(fty)
                    if wf[0] >= w[0] and wf[1] <= w[1]: return ap1(lambda x: leaf(pc(int(x))) if isinstance(x, bool) else leaf(x), v)
            def f(x):
                if isinstance(x, bool): return leaf(pc(int(x)))
                if not isinstance(x, Poly): return self.top("cast")
                o = OVF(x, w)
                if o is FALSE: return leaf(x)
                c = pconst(x)
                if c is not None:
                    m = c & ((1 << t["w"]) - 1)
                    if t["s"] and m >> (t["w"] - 1): m -= 1 << t["w"]
                    return leaf(pc(m))
                return ite(o, leaf(ps(term("trunc", x, t["w"], nn=True))), leaf(x))
            return simp(ap1(f, v), st.pc)
        if "IntToFloat" in kind or "FloatToFloat" in kind:
            return ap1(lambda x: leaf(term("flt", kind[:5], x)), v) if isinstance(v, N) else self.top("float", tty)
        if "FloatToInt" in kind:
            w = self.rng(tty)
            return ap1(lambda x: leaf(ps(term("fint", x, nn=not t["s"], meta={"max": w[1]}))), v) if isinstance(v, N) else self.top("float", tty)
        if "Unsize" in kind:
            if not isinstance(v, N): return v
            e = self.T(t["e"])["k"] if t["k"] in ("ref", "ptr") else None
            ft = self.T(fty) if fty is not None else None
            def f(x):
                if isinstance(x, Ptr) and x.meta is None and ft is not None:
                    if ft["k"] in ("ref", "ptr") and self.T(ft["e"])["k"] == "array": return leaf(ptr(x.base, x.path, ("s", pc(0), pc(self.T(ft["e"])["n"]))))
                    if ft["k"] == "adt":  # Box<[T;N]>, Rc..
                        at = [a for a in ft["args"] if isinstance(a, int)]
                        if at and self.T(at[0])["k"] == "array": return leaf(ptr(x.base, x.path, ("s", pc(0), pc(self.T(at[0])["n"]))))
                return leaf(x)
            return ap1(f, v)
        if "Transmute" in kind or "PtrToPtr" in kind or "PointerCoercion" in kind or "FnPtrToPtr" in kind or "Expose" in kind or "Subtype" in kind:
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                if fty is not None:
                    ft = self.T(fty)
                    if ft["k"] in ("fndef", "closure") and ft.get("inst") is not None: return leaf(term("fn", ft["inst"]))
                return v
            if "Transmute" in kind and fty is not None:
                ft = self.T(fty)
                if isinstance(v, Agg) and t["k"] in ("ref", "ptr"):
                    while isinstance(v, Agg) and v.f: v = v.f[0]
                    return v
                if isinstance(v, N) and t["k"] == "adt" and ft["k"] in ("ref", "ptr", "int"): return v
                if ft["k"] != t["k"] and (t["k"] in ("array", "int", "float", "bool", "char", "tuple") or ft["k"] in ("array", "float")) and not self.is_pubkey(tty):
                    return self.top("transmute", tty)
                if ft["k"] == t["k"] == "array" and ft["e"] != t["e"]: return self.top("transmute", tty)
                if ft["k"] == t["k"] == "int" and ft["w"] == t["w"]: return self.cast(st, "IntToInt", v, fty, tty)
                if self.is_pubkey(tty) and isinstance(v, Agg): return self.blob(v) or self.top("transmute", tty)
                if isinstance(v, Agg) and t["k"] == "adt" and t["ak"] == "struct": return v
                if isinstance(v, Agg) and ft["k"] == "adt" and len(v.f) == 1: return v.f[0]
                if isinstance(v, N): return v
                return v
            if isinstance(v, N) and "PtrToPtr" in kind and t["k"] in ("ref", "ptr"):
                e = self.T(t["e"])["k"]
                if e not in ("slice", "str", "dyn"):
                    def f(x):
                        if isinstance(x, Ptr) and x.meta is not None and x.meta[0] == "s":
                            # pointer to first element
                            k = pconst(x.meta[1])
                            if k is not None: return leaf(ptr(x.base, x.path + (k,), ("e",)))
                        return leaf(x)
                    return ap1(f, v)
            return v
        return self.top("cast " + kind, tty)
    def rvalue(self, st, fr, body, r, dty):
        k = r[0]
        if k == "use": return self.op(st, fr, r[1])
        if k == "ref": return self.ptr_of(self.lval(st, fr, r[1]))
        if k == "bin":
            a = self.op(st, fr, r[2]); b = self.op(st, fr, r[3])
            ty = self.optype(fr, r[2], body)
            return self.binop(st, r[1], a, b, ty if ty is not None else dty)
        if k == "cbin":
            a = self.op(st, fr, r[2]); b = self.op(st, fr, r[3])
            ty = self.optype(fr, r[2], body)
            if r[1] in self.ARITH:
                v, ov = self.arith(r[1], a, b, self.rng(ty))
                return agg(v, ov)
            return agg(self.top("cbin"), BOOL(term("top", "cbin")))
        if k == "un":
            a = self.op(st, fr, r[2])
            if r[1] == "Not":
                if isinstance(a, N) and all(isinstance(x, bool) for x in leaves(a)): return NOT(a)
                ty = self.optype(fr, r[2], body)
                return self.num2(lambda x, y: psub(pc(self.rng(ty)[1]), x), a, leaf(pc(0)))
            if r[1] == "Neg": return self.num2(lambda x, y: pscale(x, -1), a, leaf(pc(0)))
            if r[1] == "PtrMetadata":
                def f(x):
                    if isinstance(x, Ptr) and x.meta is not None and x.meta[0] == "s": return leaf(x.meta[2])
                    return leaf(ps(term("top", "meta", nn=True)))
                return ap1(f, a) if isinstance(a, N) else self.top("meta")
            return self.top("un")
        if k == "cast":
            v = self.op(st, fr, r[2])
            return self.cast(st, r[1], v, self.optype(fr, r[2], body), r[3])
        if k == "discr":
            v = self.readlv(st, self.lval(st, fr, r[1]))
            v = self.expand(v) if isinstance(v, Sym) else v
            if isinstance(v, Enum):
                ty = self.optype(fr, ["c", r[1]], body)
                t = self.T(ty) if ty is not None else None
                if t is not None and t["k"] == "adt" and t["ak"] == "enum":
                    ds = [int(x["d"]) for x in t["v"]]
                    if ds != list(range(len(ds))):
                        return ap1(lambda x: leaf(pc(ds[pconst(x)])) if isinstance(x, Poly) and pconst(x) is not None and pconst(x) < len(ds) else leaf(x), v.d)
                return v.d
            if v is UNINIT: return self.top("discr uninit")
            return leaf(ps(term("top", "discr", nn=True))) if not (isinstance(v, N) and v.var is None and isinstance(v.val, T)) else leaf(ps(term("discr", v.val, nn=True)))
        if k == "len":
            out = None
            for g, b, p, m in self.lval(st, fr, r[1]):
                if m is not None and m[0] == "s": x = leaf(m[2])
                else:
                    v = self.expand(self.load(st, b, p)); x = leaf(pc(len(v.f))) if isinstance(v, Agg) else self.top("len")
                out = x if out is None else ite(g, x, out)
            return out
        if k == "rep":
            v = self.op(st, fr, r[1])
            n = r[2]
            if n is not None and n <= 256: return agg(*[v] * n)
            return leaf(term("rep", n)) 
        if k == "agg":
            ops = [self.op(st, fr, o) for o in r[2]]
            kk = r[1]
            if kk[0] in ("tuple", "array"): return agg(*ops)
            if kk[0] == "closure": return agg(*ops)
            if kk[0] == "adt":
                t = self.T(kk[1])
                if t["ak"] == "enum": return enum(kk[1], leaf(pc(kk[2])), {kk[2]: tuple(ops)})
                if t["ak"] == "union": return ops[0] if ops else UNINIT
                if self.is_pubkey(kk[1]):
                    b = self.blob(ops[0])
                    return b if b is not None else self.top("pubkey from bytes")
                return agg(*ops)
            if kk[0] == "rawptr":
                a, b = ops
                def f(x, n):
                    if isinstance(x, Ptr) and isinstance(n, Poly):
                        if x.meta == ("e",) and x.path and isinstance(x.path[-1], int): return leaf(ptr(x.base, x.path[:-1], ("s", pc(x.path[-1]), n)))
                        return leaf(ptr(x.base, x.path, ("s", pc(0), n)))
                    return leaf(x)
                if isinstance(a, N) and isinstance(b, N): return ap2(f, a, b)
                return a
            return self.top("agg")
        if k == "tls": return self.top("tls")
        return self.top("rvalue " + k)

    # ---------------------------------------------------------------- control flow
    def call_fn(self, st, f, args, line=None):
        """inline f; returns (value, state) or None when it never returns"""
        if self.depth > 90: 
            return self.top("depth"), st
        if any(x[0] is f for x in self.stack) and sum(1 for x in self.stack if x[0] is f) > 2:
            return self.top("recursion " + f["name"]), st
        self.frames += 1
        fr = self.frames
        self.stats["fns"].add(f["full"]); self.stats["calls"] += 1
        st = st.copy()
        if f.get("spread") is not None and len(args) > f["argc"]:
            n = f["spread"] - 1
            args = args[:n] + [agg(*args[n:])]
        for i, a in enumerate(args): st.mem[("L", fr, i + 1)] = a
        self.frame_body[fr] = f
        self.stack.append((f, f["line"])); self.depth += 1
        g = self.d.graph(f)
        outs = self.region(f, fr, g, 0, None, st)
        self.stack.pop(); self.depth -= 1
        r = outs.get("ret")
        if r is None: return None
        rv = self.rd(r, ("L", fr, 0), ())
        for b in [b for b in r.mem if b[0] == "L" and b[1] == fr]: del r.mem[b]
        return rv, r
    def region(self, f, fr, g, entry, blocks, st, header=None):
        """run blocks reachable from entry inside `blocks`; returns {target: state} for leaving edges.
        'ret' for returns; the region's own header when a back edge reaches it."""
        outs = {}
        pend = {entry: st}
        first = True
        while pend:
            b = min(pend, key=lambda x: g.rpo[x])
            s = pend.pop(b)
            if s.pc is FALSE: continue
            if b in g.loops and not (first and b == header):
                from .loops import run_loop
                ex = run_loop(self, f, fr, g, b, s)
                first = False
                for t, s2 in ex.items(): self.route(g, t, s2, pend, outs, blocks, header)
                continue
            first = False
            for t, s2 in self.block(f, fr, g, b, s): self.route(g, t, s2, pend, outs, blocks, header)
        return outs
    def route(self, g, t, s2, pend, outs, blocks, header):
        if s2 is None or s2.pc is FALSE: return
        if t == "ret" or t == header or (blocks is not None and t not in blocks): outs[t] = self.join(outs.get(t), s2)
        else: pend[t] = self.join(pend.get(t), s2)
    def block(self, f, fr, g, b, st):
        self.stats["blocks"] += 1
        stmts, term_ = f["blocks"][b]
        st = st.copy()
        for s in stmts:
            k = s[0]
            if k == "=":
                self.stack[-1] = (f, s[3])
                dty = None
                pl = s[1]
                if len(pl) == 1: dty = f["locals"][pl[0]]
                v = self.rvalue(st, fr, f, s[2], dty)
                if len(pl) == 1: st.mem[("L", fr, pl[0])] = simp(v, st.pc) if isinstance(v, N) else v
                else: self.writelv(st, self.lval(st, fr, pl), v)
            elif k == "dead": st.mem.pop(("L", fr, s[1]), None)
            elif k == "sd":
                lv = self.lval(st, fr, s[1])
                v = self.readlv(st, lv)
                v = self.expand(v) if isinstance(v, Sym) else v
                nv = enum(v.ty, leaf(pc(s[2])), v.p) if isinstance(v, Enum) else enum(None, leaf(pc(s[2])), {s[2]: ()})
                self.writelv(st, lv, nv)
            elif k == "copy":
                self.events.append({"k": "wild", "g": st.pc, "where": self.where()})
        t = term_
        k = t[0]
        if k == "goto": return [(t[1], st)]
        if k == "ret": return [("ret", st)]
        if k in ("unreach", "abort"): return []
        if k == "drop":
            if any(b[0] == "BT" for b in st.mem) and self.guards_in(f["locals"][t[1][0]]): self.dropped(st, fr, t[1])
            return [(t[2], st)]
        if k == "sw":
            self.stack[-1] = (f, t[5])
            self.stats["branches"] += 1
            v = self.op(st, fr, t[1])
            out = []
            if not isinstance(v, N): v = leaf(ps(term("top", self.topn, "switch"))); self.topn += 1
            rest = TRUE
            for val, tgt in t[2]:
                def f1(x, val=val):
                    if isinstance(x, bool): return TRUE if int(x) == val else FALSE
                    if isinstance(x, Poly):
                        c = pconst(x)
                        if c is not None and c < 0: c &= (1 << 128) - 1
                        return EQ0(psub(x, pc(val))) if c is None else (TRUE if c == val else FALSE)
                    return BOOL(term("top", "switch", x, val)) if isinstance(x, T) else FALSE
                c = simp(ap1(f1, v), st.pc)
                c = AND(c, rest)
                rest = AND(rest, NOT(c))
                p = AND(st.pc, c)
                if p is not FALSE: out.append((tgt, State(p, dict(st.mem))))
            p = AND(st.pc, rest)
            if p is not FALSE: out.append((t[3], State(p, dict(st.mem))))
            # several edges to the same target
            m = {}
            for tgt, s in out: m[tgt] = self.join(m.get(tgt), s)
            return list(m.items())
        if k == "assert":
            self.stack[-1] = (f, t[5])
            v = self.op(st, fr, t[1])
            if t[3] == "pointer": return [(t[4], st)]     # references are aligned and non-null
            if isinstance(v, N):
                c = simp(v if t[2] else NOT(v), st.pc)
                if t[3] in ("div0", "rem0"): ARITH.update(c._sup)
                if c.var is not None or c is FALSE:
                    self.events.append({"k": "panic", "g": AND(st.pc, NOT(c)), "msg": t[3], "where": self.where()})
                st.pc = AND(st.pc, c)
            return [(t[4], st)] if st.pc is not FALSE else []
        if k == "call":
            self.stack[-1] = (f, t[5])
            r = self.do_call(st, f, fr, t)
            if r is None or t[4] is None: return []
            v, st2 = r
            if st2.pc is FALSE: return []
            pl = t[3]
            if len(pl) == 1: st2.mem[("L", fr, pl[0])] = simp(v, st2.pc) if isinstance(v, N) else v
            else: self.writelv(st2, self.lval(st2, fr, pl), v)
            return [(t[4], st2)]
        raise Abort("terminator " + k)
    def do_call(self, st, f, fr, t):
        args = [self.op(st, fr, o) for o in t[2]]
        argt = t[6]
        retty = None
        pl = t[3]
        retty = self.optype(fr, ["c", pl], f)
        if t[1][0] == "i": return self.invoke(st, t[1][1], args, argt, retty)
        if t[1][0] == "p":
            v = self.op(st, fr, t[1][1])
            if isinstance(v, N) and v.var is None and isinstance(v.val, T) and v.val.op == "fn": return self.invoke(st, v.val.args[0], args, argt, retty)
            self.note_unknown("fnptr"); return self.havoc(st, args, argt), st
        self.note_unknown(t[1][1])
        self.havoc(st, args, argt, t[1][1])
        return (self.top("call " + t[1][1], retty) if retty is not None else self.top("call")), st
    def rawmem(self, f):
        """code of the standard library that works on raw memory: the vectors and slices here are not laid out that way"""
        r = f.get("_raw")
        if r is None:
            r = f["krate"] in ("core", "alloc", "std") and not f["name"].startswith("std::boxed::") and any(
                t["k"] == "ptr" or (t["k"] == "adt" and re.search(r"::(NonNull|MaybeUninit|RawVec|Unique)$", t["name"]) is not None) for t in (self.T(x) for x in f["locals"]))
            f["_raw"] = r
        return r
    def note_unknown(self, n): self.unknown[n] = self.unknown.get(n, 0) + 1
    def invoke(self, st, inst, args, argt, retty):
        f = self.d.fns[inst]
        h = self.icache.get(inst, 0)
        if h == 0:
            h = self.intr.lookup(self, f); self.icache[inst] = h
        if h is not None:
            r = h(self, st, f, args, argt, retty)
            if r is NotImplemented: pass
            elif r is None: return None
            elif isinstance(r, tuple): return r
            else: return r, st
        if "blocks" in f and not self.rawmem(f):
            nm = f["name"]
            if re.search(r"\{closure#\d+\}$", nm) and len(args) == 2 and argt and self.T(argt[1])["k"] == "tuple" and (f["argc"] != 2 or not (self.T(f["locals"][2])["k"] == "tuple" and f["locals"][2] == argt[1])):
                tup = self.expand(args[1]) if isinstance(args[1], Sym) else args[1]
                args = [args[0]] + (list(tup.f) if isinstance(tup, Agg) else [self.top("args")])
            return self.call_fn(st, f, args)
        # unknown external function
        self.note_unknown(f["full"])
        if any(b[0] == "BT" for b in st.mem):
            for a in args: self.release(st, a, TRUE, True)
        for ty in argt or []:
            if ty is None: continue
            t = self.T(ty)
            if t["k"] in ("ref", "ptr"): t = self.T(t["e"])
            if re.search(r"\{closure|&(?:'\w+ )?mut |\*mut |dyn |\bfn\(", t["s_"]):      # it may run code of ours, or reach places through a value: nothing after it is known
                self.events.append({"k": "wild", "g": st.pc, "where": self.where()})
                st = State(AND(st.pc, BOOL(term("top", "effects of " + f["name"], self.topn))), dict(st.mem)); self.topn += 1
                break
        self.havoc(st, args, argt, f["full"])
        return (self.top("ext " + f["name"], retty) if retty is not None else self.top("ext")), st
    def havoc(self, st, args, argt, why="call"):
        for a, ty in zip(args, argt or []):
            if ty is None: continue
            t = self.T(ty)
            if t["k"] in ("ref", "ptr") and t.get("m") and isinstance(a, N):
                for g, b, p, m in self.deref(st, a):
                    if b[0] == "top": continue
                    e = self.T(t["e"])
                    self.store(st, b, p, self.top("havoc " + why, t["e"] if e["k"] not in ("slice", "str", "dyn") else None), g)
        return self.top("havoc " + why)
