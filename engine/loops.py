"""Loop treatment. A loop whose continuation is decided at every turn is executed as written.
Any other loop is summarised once: the cells it changes become phi symbols, one generic turn is
evaluated, and the effect over a whole ordered map is written as a closed form (sum over the
selected entries, removal of the selected entries, lookup of a neighbouring key) or, failing that,
as a self-describing fold term. Nothing is enumerated."""
from .terms import *
from . import maps
from .maps import EK, EV
from . import interp as IN
from .interp import Agg, Enum, Sym, List, TreeIt, UNINIT, State, agg, enum, lst, treeit

pEK = ps(EK); pEV = ps(EV)
MAXDEC = 600
MAXUND = 10
_n = [0]

def run_loop(I, f, fr, g, header, st):
    blocks = g.loops[header]
    def step(s):
        o = I.region(f, fr, g, header, blocks, s, header=header)
        r = {}
        for k, v in o.items():
            if k == header:      # a guard kept from one turn to the next is not followed
                for b in [b for b in v.mem if b[0] == "BT" and b not in s.mem]: del v.mem[b]
            r["cont" if k == header else k] = v
        return r
    I.stats["loops"] += 1
    return drive(I, st, step, "%s#%d" % (f["name"], header))

def pyloop(I, st, step, name):
    return drive(I, st, step, name)

def drive(I, st, step, name):
    saved = I.symbolic_next
    I.symbolic_next = False
    n0 = len(I.events)
    stack = list(I.stack)
    exits = {}
    cur = st
    und = 0
    ok = False
    for i in range(MAXDEC):
        o = step(cur)
        I.stack[:] = stack
        if o is None or I.symbolic_next: break
        for k, s in o.items():
            if k != "cont": exits[k] = I.join(exits.get(k), s)
        nxt = o.get("cont")
        if nxt is None or nxt.pc is FALSE: ok = True; break
        if nxt.pc is not cur.pc:
            und += 1
            if und > MAXUND: break
        cur = nxt
    if ok:
        I.symbolic_next = saved
        return exits
    del I.events[n0:]
    I.symbolic_next = False
    r = summarise(I, st, step, name)
    I.symbolic_next = saved
    I.stack[:] = stack
    return r

# ---------------------------------------------------------------- phi cells
class Cell:
    __slots__ = ("b", "path", "kind", "phi", "init", "step", "idx")
class Loop:
    def __init__(self, name):
        _n[0] += 1
        self.id = _n[0]; self.name = name; self.cells = {}; self.order = []; self.cpc = TRUE
    def cell(self, b, path, kind, phi, init):
        c = Cell(); c.b = b; c.path = path; c.kind = kind; c.phi = phi; c.init = init; c.step = None; c.idx = len(self.order)
        self.cells[(b, path)] = c; self.order.append(c)
        return c

def kind_of(*vs):
    ks = set()
    for v in vs:
        if v is UNINIT: continue
        if not isinstance(v, N): return "top"
        for x in leaves(v):
            if isinstance(x, bool): ks.add("bool")
            elif isinstance(x, Poly): ks.add("int")
            elif isinstance(x, List): ks.add("list")
            elif isinstance(x, T): ks.add("map" if maps._isM(x) and x.op != "top" else "top" if x.top else "opaque")
            else: ks.add("ptr")
    if len(ks) == 1 and "ptr" not in ks: return ks.pop()
    return "top"
def cell_max(I, b, path):
    """the largest number the type of a cell holds"""
    if b[0] == "L" and b[1] in I.frame_body: ty = I.frame_body[b[1]]["locals"][b[2]]
    elif b in I.base_ty: ty = I.base_ty[b]
    else: return None
    for x in path:
        if isinstance(ty, tuple):
            v = I.T(ty[1])["v"]; v = v[ty[2]]["f"]
            if not isinstance(x, int) or x >= len(v): return None
            ty = v[x][1]; continue
        t = I.T(ty); k = t["k"]
        if k == "adt" and isinstance(x, int) and t["ak"] == "struct" and t["v"] and x < len(t["v"][0]["f"]): ty = t["v"][0]["f"][x][1]
        elif k == "adt" and isinstance(x, tuple) and x[0] == "d" and t.get("v") and x[1] < len(t["v"]): ty = ("v", ty, x[1]); continue
        elif k == "tuple" and isinstance(x, int) and x < len(t["e"]): ty = t["e"][x]
        else: return None
    if isinstance(ty, tuple): return None
    t = I.T(ty)
    return (1 << (t["w"] - (1 if t["s"] else 0))) - 1 if t["k"] == "int" else None
def mkphi(I, L, b, path, iv, nv):
    """phi value standing for a cell that held iv and becomes nv"""
    c = L.cells.get((b, path))
    if c is not None: return phival(I, L, c)
    if isinstance(iv, Sym): iv = I.expand(iv)
    if isinstance(nv, Sym): nv = I.expand(nv)
    shape = nv if iv is UNINIT else iv
    if isinstance(shape, Agg) and (iv is UNINIT or (isinstance(nv, Agg) and len(nv.f) == len(iv.f))):
        ivf = iv.f if iv is not UNINIT else (UNINIT,) * len(shape.f)
        return agg(*[mkphi(I, L, b, path + (i,), x, y) if x is not y else x for i, (x, y) in enumerate(zip(ivf, nv.f))])
    if isinstance(shape, Enum) and isinstance(nv, Enum):
        return phi_enum(I, L, b, path, iv if iv is not UNINIT else enum(nv.ty, nv.d, {}), nv)
    if isinstance(shape, TreeIt) and isinstance(nv, TreeIt) and nv.m is shape.m:
        fv = shape.f if shape.f is nv.f else mkphi(I, L, b, path + ("#f",), shape.f, nv.f)
        bv = shape.b if shape.b is nv.b else mkphi(I, L, b, path + ("#b",), shape.b, nv.b)
        return treeit(shape.m, fv, bv, shape.mut)
    k = kind_of(iv, nv)
    c = L.cell(b, path, k, None, iv)
    if k in ("int", "bool", "opaque"):
        c.phi = term("phi", L.id, c.idx, nn=(k == "int"))
        if k == "int":
            m = cell_max(I, b, path)
            if m is not None: c.phi.meta = {"max": m}
    elif k == "map": c.phi = term("mphi", L.id, c.idx)
    elif k == "list": c.phi = term("phiL", L.id, c.idx)
    else: c.phi = None
    return phival(I, L, c)
def phival(I, L, c):
    if c.kind == "int": return leaf(ps(c.phi))
    if c.kind == "bool": return BOOL(c.phi)
    if c.kind in ("opaque", "map"): return leaf(c.phi)
    if c.kind == "list": return leaf(lst((), c.phi))
    return leaf(term("top", "loopcell", L.id, c.idx))
def phi_enum(I, L, b, path, iv, nv):
    d = iv.d
    if iv.d is not nv.d:
        # two-variant enums keep a boolean discriminant
        vals = set()
        for x in leaves(iv.d) + leaves(nv.d): vals.add(pconst(x) if isinstance(x, Poly) else None)
        key = (b, path + ("#d",))
        if vals <= {0, 1}:
            c = L.cells.get(key)
            if c is None:
                tob = lambda n: ap1(lambda x: TRUE if pconst(x) == 1 else FALSE, n)
                c = L.cell(b, path + ("#d",), "bool", None, tob(iv.d)); c.phi = term("phi", L.id, c.idx)
            d = ite(BOOL(c.phi), leaf(pc(1)), leaf(pc(0)))
        else: d = mkphi(I, L, b, path + ("#d",), iv.d, nv.d)
    elif (b, path + ("#d",)) in L.cells:
        c = L.cells[(b, path + ("#d",))]
        d = ite(BOOL(c.phi), leaf(pc(1)), leaf(pc(0))) if c.kind == "bool" else phival(I, L, c)
    p = {}
    for vi in set(iv.p) | set(nv.p):
        a, z = iv.p.get(vi), nv.p.get(vi)
        if a is None: a = (UNINIT,) * len(z)
        if z is None: p[vi] = a; continue
        p[vi] = tuple(x if x is y and (b, path + (("d", vi), i)) not in L.cells else mkphi(I, L, b, path + (("d", vi), i), x, y) for i, (x, y) in enumerate(zip(a, z)))
    return enum(nv.ty if nv.ty is not None else iv.ty, d, p)
def refine(I, L, b, path, pv, nv):
    """pv: value in the phi state; nv: value after one turn. Returns the (possibly) wider phi value"""
    if pv is nv: return pv
    if (b, path) in L.cells: return phival(I, L, L.cells[(b, path)]) if pv is UNINIT else pv
    if isinstance(pv, Sym): pv = I.expand(pv)
    if isinstance(nv, Sym): nv = I.expand(nv)
    if pv is nv: return pv
    if isinstance(pv, Agg) and isinstance(nv, Agg) and len(pv.f) == len(nv.f):
        return agg(*[refine(I, L, b, path + (i,), x, y) for i, (x, y) in enumerate(zip(pv.f, nv.f))])
    if isinstance(pv, Enum) and isinstance(nv, Enum):
        d = pv.d
        dk = (b, path + ("#d",))
        if dk not in L.cells and pv.d is not nv.d:
            e = phi_enum(I, L, b, path, pv, nv); d = e.d
        p = {}
        for vi in set(pv.p) | set(nv.p):
            a, z = pv.p.get(vi), nv.p.get(vi)
            if z is None: p[vi] = a; continue
            if a is None: a = (UNINIT,) * len(z)
            p[vi] = tuple(refine(I, L, b, path + (("d", vi), i), x, y) for i, (x, y) in enumerate(zip(a, z)))
        return enum(pv.ty if pv.ty is not None else nv.ty, d, p)
    if isinstance(pv, TreeIt) and isinstance(nv, TreeIt) and pv.m is nv.m:
        return treeit(pv.m, refine(I, L, b, path + ("#f",), pv.f, nv.f), refine(I, L, b, path + ("#b",), pv.b, nv.b), pv.mut)
    if isinstance(pv, N) and isinstance(nv, N):
        q = L.cpc
        if simp(pv, q) is simp(nv, q): return pv
    return mkphi(I, L, b, path, pv, nv)

def getcell(I, v, path):
    """read the cell `path` out of value v"""
    for e in path:
        if isinstance(v, Sym): v = I.expand(v)
        if v is UNINIT: return UNINIT
        if e == "#f": return v.f if isinstance(v, TreeIt) else UNINIT
        if e == "#b": return v.b if isinstance(v, TreeIt) else UNINIT
        if e == "#d": return v.d if isinstance(v, Enum) else UNINIT
        if isinstance(e, tuple) and e[0] == "d":
            if not isinstance(v, Enum) or e[1] not in v.p: return UNINIT
            v = agg(*v.p[e[1]]); continue
        if isinstance(v, Agg) and isinstance(e, int) and e < len(v.f): v = v.f[e]; continue
        return UNINIT
    return I.expand(v) if isinstance(v, Sym) else v
def setcell(I, v, path, x, kind):
    if not path: return x
    e = path[0]
    if isinstance(v, Sym): v = I.expand(v)
    if e == "#f": return treeit(v.m, x, v.b, v.mut) if isinstance(v, TreeIt) else v
    if e == "#b": return treeit(v.m, v.f, x, v.mut) if isinstance(v, TreeIt) else v
    if e == "#d":
        if not isinstance(v, Enum): return v
        return enum(v.ty, ite(x, leaf(pc(1)), leaf(pc(0))) if kind == "bool" else x, v.p)
    if isinstance(e, tuple):
        if not isinstance(v, Enum) or e[1] not in v.p: return v
        f = list(v.p[e[1]]); i = path[1]
        if i < len(f): f[i] = setcell(I, f[i], path[2:], x, kind)
        p = dict(v.p); p[e[1]] = tuple(f)
        return enum(v.ty, v.d, p)
    if isinstance(v, Agg) and e < len(v.f):
        f = list(v.f); f[e] = setcell(I, f[e], path[1:], x, kind)
        return agg(*f)
    return v

# ---------------------------------------------------------------- value mapping
def map_val(I, v, m, lists, part=None):
    """substitute symbols in an arbitrary value (part: what holds on the way it is taken from)"""
    memo = {}
    def mp_(p):
        r = subst(leaf(p), m)
        return r.val if r.var is None and isinstance(r.val, Poly) else ps(term("top", "mapped", nn=True))
    def lf(x):
        if isinstance(x, IN.Ptr if hasattr(IN, "Ptr") else Ptr):
            if any(isinstance(e, tuple) and e and e[0] == "mv" for e in x.path):
                np_ = tuple(("mv", mp_(e[1])) if isinstance(e, tuple) and e[0] == "mv" else e for e in x.path)
                if np_ != x.path: return leaf(ptr(x.base, np_, x.meta))
            return leaf(x)
        if isinstance(x, List):
            els = tuple(go(e) for e in x.e)
            if x.tail in lists:
                base = lists[x.tail]
                return ap1(lambda y: leaf(lst(y.e + els, y.tail)) if isinstance(y, List) else I.top("list"), base)
            if any(a is not b for a, b in zip(els, x.e)): return leaf(lst(els, x.tail))
            return leaf(x)
        return leaf(x)
    def go(v):
        if v is UNINIT or isinstance(v, (Sym, tuple)): return v
        r = memo.get(id(v))
        if r is not None: return r
        if isinstance(v, N):
            if part is not None: v = simp(v, part)
            r = subst(v, m) if m else v
            if any(isinstance(x, (Ptr, List)) for x in leaves(r)): r = ap1(lf, r)
        elif isinstance(v, Agg): r = agg(*[go(x) for x in v.f])
        elif isinstance(v, Enum): r = enum(v.ty, go(v.d), {k: tuple(go(x) for x in y) for k, y in v.p.items()})
        elif isinstance(v, TreeIt): r = treeit(go(v.m), go(v.f), go(v.b), v.mut)
        else: r = v
        memo[id(v)] = r
        return r
    return go(v)

# ---------------------------------------------------------------- summarising
def relevant(b): return True
def summarise(I, st, step, name):
    # a driving map that is itself gated: treat each alternative on its own
    L = Loop(name); L.stepfn = step
    n0 = len(I.events)
    phi = st.copy()
    outs = None
    for rnd in range(12):
        del I.events[n0:]
        outs = step(phi)
        if outs is None: break
        sp = split_map(I, outs, st)
        if sp is not None and not L.order:
            del I.events[n0:]
            r = {}
            for gte in sp:
                p = AND(st.pc, gte)
                if p is FALSE: continue
                s2 = State(p, {b: (simp(v, p) if isinstance(v, N) else v) for b, v in st.mem.items()})
                for k, s in drive(I, s2, step, name).items(): r[k] = I.join(r.get(k), s)
            return r
        cont = outs.get("cont")
        if cont is None or cont.pc is FALSE: break
        ch = False
        new = phi.copy()
        for b, nv in cont.mem.items():
            if b in phi.mem: pv = phi.mem[b]
            elif b[0] in ("L", "H", "X"): continue
            else: pv = I.lazy_base(b)
            if pv is UNINIT or isinstance(pv, tuple) or isinstance(nv, tuple): continue
            if nv is pv: continue
            L.cpc = cont.pc
            nv = simp(nv, cont.pc) if isinstance(nv, N) else nv
            rv = refine(I, L, b, (), pv, nv)
            if rv is not pv: new.mem[b] = rv; ch = True
        if not ch: break
        phi = new
    else:
        return giveup(I, L, st, phi, outs, "no fixpoint")
    if outs is None: return giveup(I, L, st, phi, {}, "step")
    for e in I.events[n0:]: e["loop"] = L.id
    cont = outs.get("cont")
    if cont is None or cont.pc is FALSE:
        return {k: v for k, v in outs.items() if k != "cont"}
    base = st.pc
    for c in L.order:
        c.step = getcell(I, cont.mem.get(c.b, UNINIT), c.path)
        if isinstance(c.step, N):
            if c.kind == "bool" and c.path and c.path[-1] == "#d" and not all(isinstance(x, bool) for x in leaves(c.step)):
                c.step = ap1(lambda x: TRUE if pconst(x) == 1 else FALSE, c.step)
            c.step = simp(c.step, cont.pc)
    d = find_driver(I, L, st, phi, outs)
    if d is None: return giveup(I, L, st, phi, outs, "driver")
    if d["kind"] == "descent": return descent(I, L, st, phi, outs, d)
    return fold(I, L, st, phi, outs, d)

def split_map(I, outs, st):
    """gates to split on when the tree being walked is a gated value"""
    for s in outs.values():
        for ix in s.pc._sup:
            if ix in st.pc._sup: continue
            a = TL_atom(ix)
            if a.kind == "B" and isinstance(a.a, T) and a.a.op == "more" and isinstance(a.a.args[0], N):
                return [g for g, _ in gates(a.a.args[0], TRUE)]
    return None
def TL_atom(ix):
    from . import terms
    return terms._AL[ix]
def atoms_of(n): return [TL_atom(ix) for ix in n._sup]

def giveup(I, L, st, phi, outs, why):
    I.giveups.append((L.name, why, I.where()))
    r = {}
    for k, s in outs.items():
        if k == "cont": continue
        s2 = s.copy()
        for c in L.order:
            if c.b in s2.mem: s2.mem[c.b] = setcell(I, s2.mem[c.b], c.path, leaf(term("top", "loop", L.id, c.idx)) if c.kind != "bool" else BOOL(term("top", "loop", L.id, c.idx)), c.kind)
        m = {c.phi: (ps(term("top", "loop", L.id, c.idx, nn=True)) if c.kind == "int" else BOOL(term("top", "loop", L.id, c.idx)) if c.kind == "bool" else term("top", "loop", L.id, c.idx)) for c in L.order if c.phi is not None}
        s2.pc = AND(st.pc, BOOL(term("top", "loopexit", L.id, str(k))))
        for b, v in list(s2.mem.items()):
            if b in st.mem and st.mem[b] is v: continue
            s2.mem[b] = map_val(I, v, m, {})
        r[k] = s2
    return r

def find_driver(I, L, st, phi, outs):
    pcs = [s.pc for s in outs.values()]
    ats = set()
    for p in pcs: ats.update(atoms_of(p))
    phis = {c.phi: c for c in L.order if c.phi is not None}
    cont = outs["cont"]
    def cell_of(p):
        """phi cell a polynomial position designates: (cell, guard) with p = phi or srch(phi, H)"""
        s = psym(p)
        if s is None: return None
        if s in phis: return phis[s], None
        if s.op == "srch":
            s2 = psym(s.args[0])
            if s2 in phis: return phis[s2], s.args[1]
        return None
    cand = []
    for a in ats:
        if a.kind == "B" and isinstance(a.a, T) and a.a.op == "more":
            M, fp, bp = a.a.args
            if isinstance(M, N): continue
            cf, cb = cell_of(fp), cell_of(bp)
            if cf is None and cb is None:
                if M.op == "mphi" and M in phis and pconst(fp) == 0 and pconst(bp) == 0: cand.append({"kind": "first", "M": M, "atom": a, "cell": phis[M]})
                continue
            if cf is not None and cb is not None: continue
            c, H = cf or cb
            want = padd(fp if cf else bp, pc(1))
            if not (isinstance(c.step, N) and c.step.var is None and c.step.val is want): continue
            cand.append({"kind": "tree", "M": M, "atom": a, "cell": c, "dir": "f" if cf else "b", "H": H, "pos": fp if cf else bp, "other": bp if cf else fp})
        elif a.kind == "LT0":
            # phi - llen(tail) - n < 0
            ts = {t.op: t for t in pterms(a.a)}
            ph = [t for t in pterms(a.a) if t in phis]
            ll = [t for t in pterms(a.a) if t.op == "llen"]
            if len(ph) == 1 and len(ll) == 1 and ll[0].args[0].op == "coll":
                c = phis[ph[0]]
                if isinstance(c.step, N) and c.step.var is None and c.step.val is padd(ps(ph[0]), pc(1)) and c.init is leaf(pc(0)):
                    pol = a.a.m.get((ph[0].id,))
                    cand.append({"kind": "coll", "coll": ll[0].args[0], "atom": a, "cell": c, "pol": pol})
    if len(cand) == 1: return cand[0]
    if len(cand) > 1:
        return None
    # tree descent: an id cell compared with 0, starting at the root
    for c in L.order:
        if c.kind != "int" or not isinstance(c.init, N) or c.init.var is not None: continue
        s = psym(c.init.val)
        if s is not None and s.op == "root":
            for a in ats:
                if a.kind == "EQ0" and psym(a.a) is c.phi: return {"kind": "descent", "M": s.args[0], "cell": c, "atom": a}
    return None

def contains(x, syms):
    return bool(symbols(x) & syms)
def val_contains(I, v, syms):
    if isinstance(v, N): return contains(v, syms)
    if isinstance(v, Agg): return any(val_contains(I, x, syms) for x in v.f)
    if isinstance(v, Enum): return val_contains(I, v.d, syms) or any(val_contains(I, x, syms) for y in v.p.values() for x in y)
    if isinstance(v, List): return any(val_contains(I, x, syms) for x in v.e) or v.tail in syms
    if isinstance(v, TreeIt): return val_contains(I, v.f, syms) or val_contains(I, v.b, syms)
    return False

def monotone(n, up):
    """is the condition n (over EK) upward (resp. downward) closed in EK"""
    if n.var is None: return True
    v = n.var
    if not monotone(n.hi, up) or not monotone(n.lo, up): return False
    if EK not in symbols(v): return True
    if EV in symbols(v): return False
    if v.kind != "LT0": return False
    c = v.a.m.get((EK.id,))
    if c is None or any(EK.id in m and m != (EK.id,) for m in v.a.m) or any(EK in symbols(t) for t in pterms(v.a) if t is not EK): return False
    isup = c < 0            # p < 0 becomes true as EK grows
    if isup == up: return implies(n.lo, n.hi)
    return implies(n.hi, n.lo)

def bound_form(g):
    """g == (EK < K) -> (K,'lt');  (EK <= K) -> (K,'le'); (EK > K) 'gt'; (EK >= K) 'ge'; (EK == K) 'eq'"""
    if g.var is None or not (g.hi.var is None and g.lo.var is None): return None
    v = g.var; neg = g.hi is FALSE
    c = v.a.m.get((EK.id,)) if isinstance(v.a, Poly) else None
    if c not in (1, -1): return None
    rest = dict(v.a.m); rest.pop((EK.id,))
    from .terms import _mk
    r = _mk(rest)
    if EK in symbols(r): return None
    if v.kind == "EQ0": return (pscale(r, -c), "eq") if not neg else None
    if v.kind != "LT0": return None
    if c == 1:
        K = pscale(r, -1)                  # EK - K < 0
        return (padd(K, pc(0)), "lt") if not neg else (K, "ge")
    K = r                                  # K - EK < 0
    return (K, "gt") if not neg else (K, "le")
def norm_lookup(K, op):
    """le K == lt K+1 ; ge K == gt K-1"""
    if op == "le": return padd(K, pc(1)), "lt"
    if op == "ge": return psub(K, pc(1)), "gt"
    return K, op
def Lterm(M, K, op): return ps(term("L", M, K, op, nn=True))
def LKterm(M, K, op): return ps(term("LK", M, K, op, nn=True))
def found(M, K, op): return BOOL(term("found", M, K, op))
def lookup_terms(M, dirn, H):
    """(exists, first key, first value) of walking M in direction dirn until H holds"""
    bf = bound_form(H)
    if bf is not None:
        K, op = norm_lookup(*bf)
        if op == "eq":
            v = maps.V1(M, K)
            return maps.has1(M, K), K, v.val if v.var is None else ps(term("fv", M, dirn, H, nn=True))
        if (op == "lt" and dirn == "b") or (op == "gt" and dirn == "f"):
            return found(M, K, op), LKterm(M, K, op), Lterm(M, K, op)
    if H is TRUE:
        return BOOL(term("more", M, pc(0), pc(0))), ps(term("ek", M, dirn, pc(0), nn=True)), ps(term("ev", M, dirn, pc(0), nn=True))
    return BOOL(term("exists", M, H)), ps(term("fk", M, dirn, H, nn=True)), ps(term("fv", M, dirn, H, nn=True))

def exit_parts(outs, moreatom, pol_more):
    """split every exit by whether the walk was exhausted"""
    more = mkatom(moreatom)
    if not pol_more: more = NOT(more)
    ex, inn = {}, {}
    for k, s in outs.items():
        if k == "cont": continue
        p = AND(s.pc, NOT(more))
        if p is not FALSE: ex[k] = p
        p = AND(s.pc, more)
        if p is not FALSE: inn[k] = p
    return more, ex, inn

class Way:
    """the part of an exit taken on the entry alone"""
    def __init__(self, k): self.k = k
    def __repr__(self): return "way(%s)" % (self.k,)
def real(k): return k.k if isinstance(k, Way) else k
def without(n, syms):
    """what makes n true whatever the symbols are"""
    from .terms import cof as _c
    for _ in range(64):
        a = next((a for a in atoms_of(n) if symbols(a) & syms), None)
        if a is None: return n
        n = AND(_c(n, a, True), _c(n, a, False))
    return FALSE
def drop_entry(g, base, p, turn):
    """g says when a way out is taken, given what held on entry; what it repeats of the entry condition is removed"""
    from .terms import cof as _c
    if AND(base, g) is not p: return g
    for a in sorted(atoms_of(g), key=lambda a: a.ix):
        if symbols(a) & turn: continue
        hi, lo = _c(g, a, True), _c(g, a, False)
        if hi is lo: continue
        for h in (OR(hi, lo), hi, lo):
            if h is not g and AND(base, h) is p: g = h; break
    return g
def fold(I, L, st, phi, outs, d):
    outs = dict(outs)
    cont = outs["cont"]
    phis = {c.phi: c for c in L.order if c.phi is not None}
    dom0 = TRUE
    iscoll = d["kind"] == "coll"
    if d["kind"] == "tree":
        Mh = d["M"]; dirn = d["dir"]
        drv = d["cell"]
        mcell = phis.get(Mh) if Mh.op == "mphi" else None
        M = mcell.init if mcell is not None else leaf(Mh)
        sg = {term("ek", Mh, dirn, d["pos"]): pEK, term("ev", Mh, dirn, d["pos"]): pEV}
        keymaps = [Mh]
        init_pos = drv.init
        if d["H"] is not None: dom0 = d["H"]
        more, ex, inn = exit_parts(outs, d["atom"], True)
    elif d["kind"] == "first":
        Mh = d["M"]; dirn = "f"; drv = None; mcell = d["cell"]; M = mcell.init
        sg = {term("ek", Mh, "f", pc(0)): pEK, term("ev", Mh, "f", pc(0)): pEV}
        keymaps = [Mh]; init_pos = leaf(pc(0))
        more, ex, inn = exit_parts(outs, d["atom"], True)
        st1 = mcell.step
        kk = ps(term("ek", Mh, "f", pc(0)))
        if not (isinstance(st1, N) and st1.var is None and isinstance(st1.val, T) and st1.val.op == "mrem" and st1.val.args == (Mh, kk)):
            return giveup(I, L, st, phi, outs, "while-first without removal")
    else:
        cm, cdom, dirn, tmpl = d["coll"].args
        Mh = cm; M = leaf(cm); dom0 = cdom; drv = d["cell"]; mcell = None
        pos = ps(drv.phi)
        sg = {term("ek", cm, dirn, pos): pEK, term("ev", cm, dirn, pos): pEV}
        keymaps = []; init_pos = leaf(pc(0))
        more, ex, inn = exit_parts(outs, d["atom"], d["pol"] is not None and d["pol"] > 0)
    if M.var is not None:
        r = {}
        for gte, mv in gates(M, TRUE):
            p = AND(st.pc, gte)
            if p is FALSE: continue
            s2 = State(p, {b: (simp(v, p) if isinstance(v, N) else v) for b, v in st.mem.items()})
            if mcell is not None: s2.mem[mcell.b] = setcell(I, s2.mem.get(mcell.b, I.lazy_base(mcell.b)), mcell.path, leaf(mv), "map")
            for k, s in drive(I, s2, L.stepfn, L.name).items(): r[k] = I.join(r.get(k), s)
        return r
    M = M.val
    if not maps._isM(M): return giveup(I, L, st, phi, outs, "opaque map")
    symbolic_pos = not (init_pos.var is None and pconst(init_pos.val) is not None)
    if not symbolic_pos and pconst(init_pos.val) != 0: M = term("mskip", M, dirn, init_pos.val)
    if d["kind"] == "tree" and pconst(d["other"]) != 0: M = term("mskip", M, "b" if dirn == "f" else "f", d["other"])
    rep2 = {}
    for mm in set(keymaps + ([M] if not iscoll or True else [])):
        rep2[term("V", mm, pEK)] = pEV
        rep2[term("has", mm, pEK)] = TRUE
    if iscoll:
        # a map only changed at the visited keys still holds the collected entry when its turn comes (each key is visited once)
        rep2 = {}
        for c in L.order:
            if c.kind == "map" and isinstance(c.phi, T) and c.init is leaf(cm) and isinstance(c.step, N) and all(x is c.phi or isinstance(x, T) and x.op in ("mrem", "set") and x.args[0] is c.phi and (x.args[1] is pEK or sg.get(psym(x.args[1])) is pEK) for x in leaves(c.step)):
                rep2[term("V", c.phi, pEK)] = pEV
                rep2[term("has", c.phi, pEK)] = TRUE
    def canon(n):
        if not isinstance(n, N): return n
        return subst(subst(n, sg), rep2)
    dphi = {drv.phi} if drv is not None else set()
    if d["kind"] == "first": dphi.add(mcell.phi)
    others = {c.phi for c in L.order if c.phi is not None} - dphi
    bad = {term("top", "loopcell", L.id, c.idx) for c in L.order if c.phi is None}
    turn = others | bad | dphi | set(sg) | {EK, EV}
    def raw_rel(p): return drop_entry(simp(restrict(p, st.pc), more), AND(st.pc, more), p, turn)
    rel = lambda p: canon(raw_rel(p))
    # exits inside a turn: phi-free ones are guards, the rest depend on running values
    guards, data = {}, {}
    for k, p in list(inn.items()):
        cnd = rel(p)
        # one way out may serve both a stop that only looks at the entry and a failure of the running value
        if contains(cnd, others | bad):
            raw = raw_rel(p)
            gd = without(raw, others | bad)
            if gd is not FALSE:
                gc = canon(gd)
                if EV not in symbols(gc) and monotone(gc, dirn == "f"):
                    w = Way(k)
                    outs[w] = outs[k]
                    inn[w] = AND(p, gd); inn[k] = AND(p, NOT(gd))
                    guards[w] = rel(inn[w])
                    if inn[k] is FALSE: del inn[k]; continue
                    cnd = rel(inn[k])
        # the exit condition may combine both kinds; split by checking phi-freeness
        if not contains(cnd, others | bad): guards[k] = cnd
        else: data[k] = cnd
    # a single target can hold a guard part and a data part only when merged; treat as data
    H = FALSE
    for cnd in guards.values(): H = OR(H, cnd)
    up = dirn == "f"
    plain = all(isinstance(x, N) for x in [H])
    mono = monotone(H, up) and EV not in symbols(H)
    search_only = not others and not data
    if H is not FALSE and not mono and not search_only:
        data.update(guards); guards = {}; H = FALSE
    dom = AND(dom0, NOT(H)) if H is not FALSE else dom0
    # ---- closed forms
    nocond = AND(cont.pc, more)
    msub = dict(sg)
    for c in L.order:
        if isinstance(c.step, N):
            c.step = simp(c.step, nocond)
            c.step = map_val(I, c.step, msub, {}) if c.kind == "list" else canon(c.step)
    empty = (not iscoll and not symbolic_pos and simp(maps.empty1(M, dom), st.pc) is TRUE) or dom is FALSE
    closed = {}
    for c in L.order:
        if c is drv: closed[c] = None; continue
        closed[c] = c.init if empty else closed_form(I, L, c, M, dom, dirn, others, dphi, st)
    for c in L.order:
        if closed[c] is None and c is drv: closed[c] = leaf(ps(term("endpos", M, dirn, nn=True)))
    # ---- exits
    res = {}
    # range facts established at every turn also hold for the final value
    facts = TRUE
    if not empty:
        for c in L.order:
            if c.kind == "int" and c is not drv and isinstance(c.step, N) and isinstance(closed.get(c), N) and closed[c] is not c.init:
                for w in ((0, 2**64 - 1), (0, 2**128 - 1)):
                    raw = getcell(I, cont.mem.get(c.b, UNINIT), c.path)
                    if isinstance(raw, N) and simp(ap1(lambda x: OVF(x, w) if isinstance(x, Poly) else TRUE, raw), cont.pc) is FALSE:
                        facts = AND(facts, NOT(ap1(lambda x: OVF(x, w) if isinstance(x, Poly) else FALSE, closed[c]))); break
    abn = []
    def closure(roots):
        order = []; todo = list(roots)
        while todo:
            x = todo.pop(0)
            if isinstance(x, N):
                for t in sorted(symbols(x), key=lambda z: z.id):
                    y = phis.get(t)
                    if y is not None and y is not drv and y not in order: order.append(y); todo.append(y.step)
        order = canon_order(order, ())
        m = {}
        for j, x in enumerate(order):
            m[x.phi] = ps(term("phi", "c", j, nn=True)) if x.kind == "int" else term("mphi", "c", j) if x.kind == "map" else term("phiL", "c", j) if x.kind == "list" else term("phi", "c", j)
        return order, m
    normal, early = AND(st.pc, facts), st.pc
    if not empty:
        for k, cnd in data.items():
            oc, cm_ = closure([cnd])
            key = term("abn", M, dom, dirn, tuple(x.init for x in oc if isinstance(x.init, N)), tuple(subst(x.step, cm_) for x in oc if isinstance(x.step, N)), subst(cnd, cm_))
            a = BOOL(key)
            abn.append((k, AND(early, a), key, cnd))
            normal = AND(normal, NOT(a)); early = AND(early, NOT(a))
    if symbolic_pos:
        P = ps(term("srch", init_pos.val, H)) if init_pos.var is None else None
        if P is None or not search_only or d["kind"] != "tree": return giveup(I, L, st, phi, outs, "walk from the middle")
        b_, f_ = (d["other"], P) if dirn == "b" else (P, d["other"])
        exists = BOOL(term("more", Mh if mcell is None else M, f_, b_) if dirn == "f" else term("more", Mh, d["other"], P))
        fk, fv = ps(term("ek", M, dirn, P, nn=True)), ps(term("ev", M, dirn, P, nn=True))
        endpos = padd(P, pc(1))
    elif H is FALSE: exists, fk, fv, endpos = FALSE, None, None, None
    else:
        exists, fk, fv = lookup_terms(M, dirn, AND(dom0, H))
        endpos = padd(ps(term("srch", init_pos.val, AND(dom0, H))), pc(1))
        exists = simp(exists, st.pc)
    lists = {}
    sub = {}
    for c in L.order:
        v = closed[c]
        if c.phi is None or not isinstance(v, N): continue
        if c.kind == "list": lists[c.phi] = v
        elif c.kind == "bool": sub[c.phi] = v
        elif v.var is None: sub[c.phi] = v.val
        else: sub[c.phi] = ps(term("gated", v, nn=True)) if c.kind == "int" else term("top", "gatedmap")
    inv = {}
    def finish(k, pcn, part, vals, keysub):
        s = outs[k]
        s2 = State(pcn, {})
        m = dict(sub) if vals is closed else {}
        if vals is not closed:
            for c in L.order:
                v = vals.get(c)
                if c.phi is None or not isinstance(v, N): continue
                if c.kind == "bool": m[c.phi] = v
                elif v.var is None and c.kind != "list": m[c.phi] = v.val
        m2 = dict(m)
        for t, z in sg.items():
            if keysub is not None: m2[t] = keysub[0] if z is pEK else keysub[1]
        ll = lists if vals is closed else {c.phi: vals[c] for c in L.order if c.kind == "list" and isinstance(vals.get(c), N)}
        for b, v in s.mem.items():
            if isinstance(v, N): v = simp(v, part)
            if b in phi.mem and phi.mem[b] is v and b in st.mem and not any(c.b == b for c in L.order):
                s2.mem[b] = v; continue
            s2.mem[b] = map_val(I, v, m2, ll, None if isinstance(v, N) else part)
        for c in L.order:
            if c.b in s2.mem:
                v = vals.get(c)
                if v is None or v is UNINIT: continue
                s2.mem[c.b] = setcell(I, s2.mem[c.b], c.path, v, c.kind)
        return s2
    for k, p in ex.items():
        pcn = AND(normal, NOT(exists))
        if pcn is FALSE: continue
        # several exhausted exits: keep their own selection where it is phi-free
        sel = rel_sel(I, L, p, st, more, others | bad, closed, phis)
        pcn = AND(pcn, sel)
        if pcn is FALSE: continue
        res[k] = I.join(res.get(k), finish(k, pcn, p, closed, None))
    for k, cnd in guards.items():
        pcn = AND(normal, exists)
        if pcn is FALSE: continue
        if len(guards) > 1: pcn = AND(pcn, subst(cnd, {EK: fk, EV: fv}) if fk is not None else TRUE)
        if pcn is FALSE: continue
        vals = dict(closed)
        if drv is not None: vals[drv] = leaf(endpos)
        gx = {c: v for c, v in vals.items()}
        # cells changed on the way out
        part = inn[k]
        s = outs[k]
        for c in L.order:
            if c is drv: continue
            ov = getcell(I, s.mem.get(c.b, UNINIT), c.path)
            if isinstance(ov, N):
                ov = simp(ov, part)
                if c.kind == "bool" and c.path and c.path[-1] == "#d" and not all(isinstance(x, bool) for x in leaves(ov)): ov = ap1(lambda x: TRUE if pconst(x) == 1 else FALSE, ov)
                if ov is not phival(I, L, c) and not (c.kind == "bool" and ov is BOOL(c.phi)):
                    o2 = canon(ov)
                    mm = dict(sub); mm.update({EK: fk, EV: fv})
                    gx[c] = map_val(I, o2, mm, lists)
        res[real(k)] = I.join(res.get(real(k)), finish2(I, finish, k, pcn, part, closed, gx, (fk, fv), L))
    for k, pcn, key, cnd in abn:
        if pcn is FALSE: continue
        vals = {}
        s = outs[k]
        part = inn[k]
        xv = []
        for i, c in enumerate(L.order):
            ov = getcell(I, s.mem.get(c.b, UNINIT), c.path)
            xv.append(canon(simp(ov, part)) if isinstance(ov, N) else None)
        for i, c in enumerate(L.order):
            if c is drv: vals[c] = leaf(ps(term("endpos", M, dirn, nn=True))); continue
            xo, xm = closure([xv[i], c.step])
            t = term("foldx", key, tuple(x.init for x in xo if isinstance(x.init, N)), tuple(subst(x.step, xm) for x in xo if isinstance(x.step, N)), subst(xv[i], xm) if xv[i] is not None else None, nn=True)
            if c.kind == "int": vals[c] = leaf(ps(t))
            elif c.kind == "bool": vals[c] = BOOL(t)
            elif c.kind == "map": vals[c] = leaf(term("mfold", "x", t))
            elif c.kind == "list": vals[c] = leaf(lst((), t))
            elif c.kind == "opaque": vals[c] = leaf(t)
            else: vals[c] = I.top("loopcell")
        xk = (ps(term("exk", key, nn=True)), ps(term("exv", key, nn=True)))
        res[k] = I.join(res.get(k), finish(k, pcn, part, vals, xk))
    I.loopinfo.append({"name": L.name, "M": M, "dom": dom, "dir": dirn, "cells": [(c.b, c.path, c.kind, c.phi, c.init, c.step) for c in L.order], "data": {str(k): v for k, v in data.items()}, "exits": {str(k): {(c.b, c.path): getcell(I, outs[k].mem.get(c.b, UNINIT), c.path) for c in L.order} for k in data}, "canon": canon, "where": I.where(), "empty": empty, "part": inn})
    return res
def finish2(I, finish, k, pcn, part, closed, gx, keys, L):
    s2 = finish(k, pcn, part, closed, keys)
    for c in L.order:
        if c.b in s2.mem and gx.get(c) is not None and gx[c] is not UNINIT: s2.mem[c.b] = setcell(I, s2.mem[c.b], c.path, gx[c], c.kind)
    return s2
def rel_sel(I, L, p, st, more, phs, closed, phis):
    """residual selection among exhausted exits"""
    q = simp(restrict(p, st.pc), NOT(more))
    q = ap1(lambda x: leaf(x), q)
    m = {}
    for ph, c in phis.items():
        v = closed.get(c)
        if isinstance(v, N):
            if c.kind == "bool": m[ph] = v
            elif v.var is None and c.kind == "int": m[ph] = v.val
    from .terms import cof as _c
    for ix in list(q._sup):
        a = TL_atom(ix)
        if a.kind == "B" and isinstance(a.a, T) and a.a.op == "more": q = _c(q, a, False)
    q = subst(q, m)
    return q
def dep_tuple(L, others): return None

def closed_form(I, L, c, M, dom, dirn, others, dphi, st):
    """value of cell c after all selected entries were processed"""
    s = c.step
    if not isinstance(s, N) or c.phi is None: return I.top("loop cell") if c.kind != "bool" else BOOL(term("top", "loopcell", L.id, c.idx))
    pv = phival(I, L, c)
    if s is pv: return c.init
    if is_top(s): return named(I, L, c, M, dom, dirn)
    if c.init is UNINIT: init = None
    else: init = c.init
    if c.kind == "int":
        dl = ap1(lambda x: leaf(psub(x, ps(c.phi))) if isinstance(x, Poly) else I.top("delta"), s)
        if init is not None and not contains(dl, others | dphi):
            t = total(M, dom, dl)
            return ap2(lambda a, b: leaf(padd(a, b)), init, t)
    if c.kind == "map":
        g = FALSE; okk = True
        for gt, x in gates(s, TRUE):
            if x is c.phi: continue
            if isinstance(x, T) and x.op == "mrem" and x.args[0] is c.phi and x.args[1] is pEK and not contains(gt, others | dphi) and EV not in symbols(gt): g = OR(g, gt)
            else: okk = False
        if okk: return maps.PRUNE(init, AND(dom, g))
    if c.kind == "list":
        g = FALSE; okk = True; tm = None
        for gt, x in gates(s, TRUE):
            if isinstance(x, List) and x.tail is c.phi and not x.e: continue
            if isinstance(x, List) and x.tail is c.phi and len(x.e) == 1 and not contains(gt, others | dphi) and not val_contains(I, x.e[0], others | dphi) and (tm is None or tm is x.e[0]):
                tm = x.e[0]; g = OR(g, gt)
            else: okk = False
        if okk and tm is not None and init is not None and init.var is None and isinstance(init.val, List) and init.val.tail is None and not init.val.e and canon_t(I, tm) is not None and M.op != "mskip":
            I.coll_t[(M, AND(dom, g), dirn, canon_t(I, tm))] = tm
            return leaf(lst((), term("coll", M, AND(dom, g), dirn, canon_t(I, tm))))
        return leaf(lst((), term("top", "list", L.id, c.idx)))
    # overwritten independently of running values
    if not contains(s, others | dphi):
        bf = bound_form(dom) if dom is not TRUE else None
        if not contains(s, {EK, EV}):
            ex = BOOL(term("more", M, pc(0), pc(0))) if dom is TRUE else lookup_terms(M, "b" if dirn == "f" else "f", dom)[0]
            return ite(ex, s, init) if init is not None else s
        if bf is not None:
            K, op = norm_lookup(*bf)
            if (op == "lt" and dirn == "f") or (op == "gt" and dirn == "b"):
                v = subst(s, {EK: LKterm(M, K, op), EV: Lterm(M, K, op)})
                return ite(found(M, K, op), v, init) if init is not None else v
    return named(I, L, c, M, dom, dirn)
def canon_t(I, tm):
    if isinstance(tm, N): return tm
    if isinstance(tm, Agg):
        xs = [canon_t(I, x) for x in tm.f]
        if all(x is not None for x in xs): return term("agg", *xs)
    return None
def total(M, dom, dl):
    """sum over selected entries, moving entry conditions into the selection"""
    out = leaf(pc(0))
    for gt, x in gates(dl, TRUE):
        if pconst(x) == 0: continue
        if EV in symbols(gt):
            return ap2(lambda a, b: leaf(padd(a, b)), out, maps.sum1(M, dom, dl)) if out is leaf(pc(0)) else maps.sum1(M, dom, dl)
    for gt, x in gates(dl, TRUE):
        if pconst(x) == 0: continue
        sgn = 1
        if lead(x) < 0: sgn = -1
        t = maps.sum1(M, AND(dom, gt), leaf(pscale(x, sgn)))
        out = ap2(lambda a, b: leaf(padd(a, pscale(b, sgn))), out, t)
    return out
def canon_order(cells, _):
    """an order of loop cells that does not depend on how the loop was written"""
    return sorted(cells, key=lambda x: (x.kind, repr(x.init) if isinstance(x.init, N) else "", x.idx))
def named(I, L, c, M, dom, dirn):
    """self-describing fold term for cell c and the cells its step depends on"""
    order = [c]; seen = {c}
    byphi = {x.phi: x for x in L.order if x.phi is not None}
    i = 0
    while i < len(order):
        x = order[i]; i += 1
        if isinstance(x.step, N):
            for t in sorted(symbols(x.step), key=lambda z: z.id):
                y = byphi.get(t)
                if y is not None and y not in seen: seen.add(y); order.append(y)
    order = order[:1] + canon_order(order[1:], ())
    m = {}
    for j, x in enumerate(order):
        if x.kind == "int": m[x.phi] = ps(term("phi", "c", j, nn=True))
        elif x.kind == "map": m[x.phi] = term("mphi", "c", j)
        elif x.kind == "list": m[x.phi] = term("phiL", "c", j)
        else: m[x.phi] = term("phi", "c", j)
    ins = tuple(x.init if isinstance(x.init, N) else None for x in order)
    sts = tuple(subst(x.step, m) if isinstance(x.step, N) else None for x in order)
    t = term("mfold" if c.kind == "map" else "fold", M, dom, dirn, ins, sts, nn=(c.kind == "int"))
    if any(isinstance(s, N) and is_top(s) for s in sts) or any(isinstance(s, N) and is_top(s) for s in ins): t.top = True
    if c.kind == "int": return leaf(ps(t))
    if c.kind == "bool": return BOOL(t)
    if c.kind == "list": return leaf(lst((), t))
    return leaf(t)

# ---------------------------------------------------------------- search-tree descent
def descent(I, L, st, phi, outs, d):
    cur = d["cell"]; M = d["M"]; cont = outs["cont"]
    P = ps(cur.phi)
    nk = term("nk", M, P); nv = term("nv", M, P)
    lft, rgt = term("child", M, P, "l"), term("child", M, P, "r")
    zero = mkatom(d["atom"])
    ex = {k: AND(s.pc, zero) for k, s in outs.items() if k != "cont"}
    inn = {k: AND(s.pc, NOT(zero)) for k, s in outs.items() if k != "cont"}
    inn = {k: p for k, p in inn.items() if p is not FALSE}
    ex = {k: p for k, p in ex.items() if p is not FALSE}
    # the key looked for: from any comparison with the node key
    K = None
    ats = set()
    for s in outs.values(): ats.update(atoms_of(s.pc))
    for c in L.order:
        if isinstance(c.step, N): ats.update(atoms_of(c.step))
    for a in ats:
        if a.kind in CMP and nk in symbols(a):
            cf = a.a.m.get((nk.id,))
            if cf in (1, -1):
                from .terms import _mk
                r = dict(a.a.m); r.pop((nk.id,))
                k2 = pscale(_mk(r), -cf)
                kc = pconst(psub(k2, K)) if K is not None else 0
                if K is None: K = k2
                elif kc is None: return giveup(I, L, st, phi, outs, "descent keys")
                elif kc < 0 : K = k2
    if K is None: return giveup(I, L, st, phi, outs, "descent without key")
    phset = {c.phi for c in L.order if c.phi is not None}
    # integer offset between comparisons: try K and K+1 as the pivot
    def at(n, rel_, piv):
        # nk relative to piv
        off = {"lt": psub(piv, pc(1)), "eq": piv, "gt": padd(piv, pc(1))}[rel_]
        lit = {"lt": LT0(psub(ps(nk), piv)), "eq": EQ0(psub(ps(nk), piv)), "gt": LT0(psub(piv, ps(nk)))}[rel_]
        return simp(n, lit) if rel_ != "eq" else simp(subst(n, {nk: piv}), lit)
    res = [c for c in L.order if c is not cur]
    for piv in (K, padd(K, pc(1)), psub(K, pc(1))):
        table = {}
        ok = True
        for r_ in ("lt", "eq", "gt"):
            lit = {"lt": LT0(psub(ps(nk), piv)), "eq": EQ0(psub(ps(nk), piv)), "gt": LT0(psub(piv, ps(nk)))}[r_]
            base = AND(AND(st.pc, NOT(zero)), lit)
            stop = [k for k, p in inn.items() if simp(at(p, r_, piv), base) is TRUE]
            go = simp(at(cont.pc, r_, piv), base)
            if go is TRUE:
                nx = at(cur.step, r_, piv)
                if nx is leaf(ps(lft)): dr = "l"
                elif nx is leaf(ps(rgt)): dr = "r"
                elif nx is leaf(pc(0)): dr = "0"
                else: ok = False; break
                upd = []
                for c in res:
                    sv = at(c.step, r_, piv) if isinstance(c.step, N) else None
                    if sv is phival(I, L, c) or sv is BOOL(c.phi) if c.phi is not None and c.kind == "bool" else sv is phival(I, L, c): upd.append("keep")
                    elif sv is not None and not contains(sv, phset - {cur.phi}): upd.append(sv)
                    else: ok = False
                table[r_] = (dr, tuple(upd))
            elif go is FALSE and len(stop) == 1:
                s = outs[stop[0]]; upd = []
                for c in res:
                    sv = getcell(I, s.mem.get(c.b, UNINIT), c.path)
                    if isinstance(sv, N):
                        if c.kind == "bool" and c.path and c.path[-1] == "#d" and not all(isinstance(x, bool) for x in leaves(sv)): sv = ap1(lambda x: TRUE if pconst(x) == 1 else FALSE, sv)
                        sv = at(simp(sv, inn[stop[0]]), r_, piv)
                    if sv is phival(I, L, c): upd.append("keep")
                    elif isinstance(sv, N) and not contains(sv, phset - {cur.phi}): upd.append(sv)
                    else: ok = False
                table[r_] = ("stop:%s" % (stop[0],), tuple(upd))
            else: ok = False
            if not ok: break
        if ok: break
    if not ok: return giveup(I, L, st, phi, outs, "descent shape")
    lt, eq, gt = table["lt"], table["eq"], table["gt"]
    keep = tuple("keep" for _ in res)
    nfound = None
    if lt[0] == "r" and gt[0] == "l" and gt[1] == keep and lt[1] != keep:
        if eq[0] == "l" and eq[1] == keep: nfound = ("lt", piv, lt[1])
        elif eq[0] in ("r", "0") and eq[1] == lt[1]: nfound = ("lt", padd(piv, pc(1)), lt[1])
        elif eq[0] == "r" and eq[1] == lt[1]: nfound = ("lt", padd(piv, pc(1)), lt[1])
    elif lt[0] == "r" and gt[0] == "l" and lt[1] == keep and gt[1] != keep:
        if eq[0] == "r" and eq[1] == keep: nfound = ("gt", piv, gt[1])
        elif eq[0] in ("l", "0") and eq[1] == gt[1]: nfound = ("gt", psub(piv, pc(1)), gt[1])
    stops = [r_ for r_ in ("lt", "eq", "gt") if table[r_][0].startswith("stop")]
    r = {}
    if nfound is not None and not stops:
        op, KK, upd = nfound
        fnd = found(M, KK, op)
        hit = {nk: LKterm(M, KK, op), nv: Lterm(M, KK, op)}
        miss = lambda c: c.init
    elif stops == ["eq"] and lt[0] == "r" and gt[0] == "l" and lt[1] == keep and gt[1] == keep and False:
        pass
    else:
        tt = term("descent", M, piv, tuple((k, v[0], tuple(u if isinstance(u, str) else subst(u, {nk: pEK, nv: pEV}) for u in v[1])) for k, v in sorted(table.items())))
        fnd = BOOL(tt)
        hit = {nk: ps(term("dk", tt, nn=True)), nv: ps(term("dv", tt, nn=True))}
        upd = lt[1] if lt[1] != keep else gt[1] if gt[1] != keep else eq[1]
        if stops: return giveup(I, L, st, phi, outs, "descent with stop")
    for k, p in ex.items():
        s = outs[k]
        s2 = State(st.pc, dict(s.mem))
        m = {}
        final = {}
        for c, u in zip(res, upd):
            if isinstance(u, str): final[c] = c.init
            else:
                hv = subst(u, hit)
                final[c] = ite(fnd, hv, c.init) if c.init is not UNINIT else hv
        final[cur] = leaf(pc(0))
        for c in L.order:
            v = final.get(c)
            if c.phi is None or not isinstance(v, N): continue
            if c.kind == "bool": m[c.phi] = v
            elif v.var is None and c.kind != "list": m[c.phi] = v.val
            elif c.kind == "int": m[c.phi] = ps(term("gated", v, nn=True))
        for b, v in list(s2.mem.items()):
            if isinstance(v, N): v = simp(v, p)
            s2.mem[b] = map_val(I, v, m, {})
        for c, v in final.items():
            if c.b in s2.mem and v is not UNINIT and v is not None: s2.mem[c.b] = setcell(I, s2.mem[c.b], c.path, v, c.kind)
        r[k] = I.join(r.get(k), s2)
    I.loopinfo.append({"name": L.name, "M": M, "descent": table, "res": res, "where": I.where()})
    return r
