"""Hash-consed terms, rational polynomials over integer-valued symbols, and gated values
(multi-terminal decision diagrams over canonical atoms).

A *gated value* is the static join used everywhere in the analysis: instead of losing
precision at a control-flow merge, the merged value records which canonical branch
condition selects which operand.  No path is enumerated and no solver is involved: the
only reasoning is normalisation plus pairwise implications between linear comparisons."""
import sys
from fractions import Fraction
from math import gcd
sys.setrecursionlimit(200000)

# ------------------------------------------------------------------ terms
class T:
    __slots__ = ("op", "args", "id", "nn", "top", "meta")
    def __repr__(self): return show_t(self)
    def __lt__(self, o): return self.id < o.id
_T = {}
_TL = []
def term(op, *args, nn=False, meta=None):
    k = (op, args)
    t = _T.get(k)
    if t is None:
        t = T(); t.op = op; t.args = args; t.id = len(_TL); t.nn = nn; t.meta = meta
        top = op == "top"
        if not top:
            for a in args:
                if isinstance(a, T) and a.top: top = True
                elif isinstance(a, Poly) and a.top: top = True
                elif isinstance(a, N) and is_top(a): top = True
        t.top = top
        _T[k] = t; _TL.append(t)
    elif nn and not t.nn:
        t.nn = True
    return t
def show_t(t):
    if not t.args: return str(t.op)
    return "%s(%s)" % (t.op, ",".join(show(a) for a in t.args))
def show(a):
    if isinstance(a, (T, Poly)): return repr(a)
    if isinstance(a, N): return show_n(a)
    if isinstance(a, tuple): return "[" + ",".join(show(x) for x in a) + "]"
    return str(a)

# ------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ("m", "id", "top", "nnc", "div")
    def __repr__(self): return show_p(self)
_P = {}
_PL = []
def _mk(d):
    it = tuple(sorted((m, c) for m, c in d.items() if c != 0))
    p = _P.get(it)
    if p is None:
        p = Poly(); p.m = dict(it); p.id = len(_PL); p.nnc = None; p.div = None
        p.top = any(_TL[x].top for m, _ in it for x in m)
        _P[it] = p; _PL.append(p)
    return p
def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1: return c.numerator
    return c
def pc(n): return _mk({(): n} if n else {})
def ps(t): return _mk({(t.id,): 1})
def padd(a, b, k=1):
    d = dict(a.m)
    for m, c in b.m.items():
        v = d.get(m, 0) + c * k
        if v: d[m] = _norm(v)
        else: d.pop(m, None)
    return _mk(d)
def psub(a, b): return padd(a, b, -1)
def pscale(a, k): return _mk({m: _norm(c * k) for m, c in a.m.items()})
def pmul(a, b):
    d = {}
    for m1, c1 in a.m.items():
        for m2, c2 in b.m.items():
            m = tuple(sorted(m1 + m2))
            d[m] = _norm(d.get(m, 0) + c1 * c2)
    return _mk(d)
def pconst(p):
    if not p.m: return 0
    if len(p.m) == 1 and () in p.m: return p.m[()]
    return None
def psym(p):
    """the term if p is exactly one symbol"""
    if len(p.m) == 1:
        (m, c), = p.m.items()
        if len(m) == 1 and c == 1: return _TL[m[0]]
    return None
def pterms(p):
    s = set()
    for m in p.m: s.update(m)
    return [_TL[i] for i in s]
def show_p(p):
    if not p.m: return "0"
    o = []
    for m, c in sorted(p.m.items(), key=lambda x: (len(x[0]), x[0])):
        s = "*".join(show_t(_TL[i]) for i in m)
        if not m: o.append(str(c))
        elif c == 1: o.append(s)
        elif c == -1: o.append("-" + s)
        else: o.append("%s*%s" % (c, s))
    return "(" + " + ".join(o) + ")" if len(o) > 1 else o[0]

def nonneg(p):
    """provably >= 0, using sign of symbols and rem(x,d) <= x, rem(x,d) < d"""
    if p.nnc is not None: return p.nnc
    p.nnc = False
    d = dict(p.m)
    # discharge negative rem terms: -c*rem(x,d) >= -c*x if x appears with coef >= c;  rem(x,d) <= d-1
    neg = [(m, c) for m, c in d.items() if c < 0]
    for m, c in neg:
        if not m: continue
        done = False
        for i, tid in enumerate(m):
            t = _TL[tid]
            if t.op == "rem":
                rest = m[:i] + m[i+1:]
                if not all(_TL[z].nn for z in rest): continue
                x, dd = t.args
                # try rem <= x
                ok = True
                d2 = dict(d); d2.pop(m)
                for mm, cc in x.m.items():
                    k = tuple(sorted(rest + mm)); v = d2.get(k, 0) + c * cc
                    if v: d2[k] = v
                    else: d2.pop(k, None)
                if not nonneg_simple(x.m): pass
                elif nonneg_simple(d2) or (len(d2) < 12 and nonneg(_mk({k: _norm(v) for k, v in d2.items()}))): p.nnc = True; return True
                d3 = dict(d); d3.pop(m)
                k = tuple(rest); v = d3.get(k, 0) + c * (dd - 1)
                if v: d3[k] = v
                else: d3.pop(k, None)
                if nonneg_simple(d3) or nonneg(_mk({k: _norm(v) for k, v in d3.items()})): p.nnc = True; return True
                done = True
            elif t.op == "div" and t.args[1] is not None:
                pass
        if not done: break
    p.nnc = nonneg_simple(d)
    return p.nnc
def nonneg_simple(d):
    for m, c in d.items():
        if c < 0: return False
        for i in set(m):
            if not _TL[i].nn and m.count(i) % 2: return False
    return True

def content(p, const=True):
    """(g) gcd of coefficients (integers assumed)"""
    g = 0
    for m, c in p.m.items():
        if not const and not m: continue
        g = gcd(g, abs(c))
    return g
def denom(p):
    l = 1
    for c in p.m.values():
        if isinstance(c, Fraction): l = l * c.denominator // gcd(l, c.denominator)
    return l

def pdiv(a, b):
    """floor division of non-negative integers (zero divisor is gated elsewhere)"""
    ca, cb = pconst(a), pconst(b)
    if ca is not None and cb is not None and cb > 0 and ca >= 0: return pc(ca // cb)
    if ca == 0: return pc(0)
    if cb == 1: return a
    if a.div is not None:
        x, d = a.div
        return pdiv(x, pmul(d, b))
    la, lb = denom(a), denom(b)
    if la != 1 or lb != 1:
        # floor of an integer-valued rational polynomial: clear denominators on both sides
        l = la * lb // gcd(la, lb)
        a2, b2 = pscale(a, l), pscale(b, l)
        if a2 is not a or b2 is not b: a, b = a2, b2
    g = gcd(content(a), content(b))
    if g > 1:
        a = pscale(a, Fraction(1, g)); b = pscale(b, Fraction(1, g))
    # common monomial factor
    if a.m and b.m:
        com = None
        for m in list(a.m) + list(b.m):
            if com is None: com = list(m)
            else:
                m = list(m); n = []
                for x in com:
                    if x in m: m.remove(x); n.append(x)
                com = n
        if com:
            def strip(p):
                d = {}
                for m, c in p.m.items():
                    m = list(m)
                    for x in com: m.remove(x)
                    d[tuple(m)] = c
                return _mk(d)
            a, b = strip(a), strip(b)
    cb = pconst(b)
    if cb is not None and cb > 0:
        if cb == 1: return a
        r = prem(a, cb)
        q = pscale(psub(a, r), Fraction(1, cb))
        if q.div is None and pconst(q) is None and psym(q) is None: q.div = (a, b)
        return q
    if a is b: return pc(1)
    q = exact(a, b)
    if q is not None: return q
    for i in {i for m, c in a.m.items() if c < 0 for i in m}:
        t = _TL[i]
        if t.op == "div" and t.args[1] is b and len(b.m) < 9:
            x = padd(a, pmul(b, ps(t)))      # (x - b * q) / b  =  x / b - q
            if nonneg(x) and i not in {j for m in x.m for j in m}: return psub(pdiv(x, b), ps(t))
    t = term("div", a, b, nn=True)
    p = ps(t)
    p.div = (a, b)
    return p
def exact(a, b):
    """the polynomial q with integer coefficients and a = q * b, or None"""
    if not b.m or len(a.m) > 24 or len(b.m) > 8: return None
    key = lambda m: (len(m), tuple(sorted(m)))
    lb = max(b.m, key=key); cb = b.m[lb]
    q = pc(0); r = a
    for _ in range(24):
        if not r.m: return q if denom(q) == 1 else None
        lr = max(r.m, key=key)
        m = list(lr)
        for x in lb:
            if x not in m: return None
            m.remove(x)
        t = _mk({tuple(m): _norm(Fraction(r.m[lr]) / cb)})
        q = padd(q, t); r = psub(r, pmul(t, b))
    return None
def prem(a, d):
    """a mod constant d"""
    if denom(a) != 1:
        p = ps(term("rem", a, d, nn=True)); return p
    r = {}
    for m, c in a.m.items():
        # rem(x,d) == x (mod d)
        if len(m) == 1 and _TL[m[0]].op == "rem" and _TL[m[0]].args[1] % d == 0:
            for mm, cc in _TL[m[0]].args[0].m.items(): r[mm] = r.get(mm, 0) + c * cc
        else: r[m] = r.get(m, 0) + c
    if all(not isinstance(c, Fraction) or c.denominator == 1 for c in r.values()):
        def symm(c):
            c = int(c) % d
            return c - d if 2 * c > d else c
        red = {m: symm(c) for m, c in r.items()}
        if red.get((), 0) < 0: red[()] += d
        q = _mk(red)
        k = pconst(q)
        if k is not None: return pc(k % d)
        s = psym(q)
        if s is not None and s.op == "rem" and s.args[1] == d: return q
        return ps(term("rem", q, d, nn=True))
    return ps(term("rem", a, d, nn=True))
def premp(a, b):
    cb = pconst(b)
    ca = pconst(a)
    if cb and ca is not None and ca >= 0: return pc(ca % cb)
    if cb and cb > 0: return prem(a, cb)
    return psub(a, pmul(b, pdiv(a, b)))

# ------------------------------------------------------------------ pointers
class Ptr:
    __slots__ = ("base", "path", "meta", "id")
    def __repr__(self): return "&%s%s%s" % (self.base, "".join("." + str(x) for x in self.path), "" if self.meta is None else "#" + str(self.meta))
_R = {}
def ptr(base, path=(), meta=None):
    k = (base, path, meta)
    r = _R.get(k)
    if r is None:
        r = Ptr(); r.base = base; r.path = path; r.meta = meta; r.id = len(_R); _R[k] = r
    return r

# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("kind", "a", "b", "ix", "top")
    def __repr__(self): return show_a(self)
_A = {}
_AL = []
def atom(kind, a, b=None):
    k = (kind, a, b)
    x = _A.get(k)
    if x is None:
        x = Atom(); x.kind = kind; x.a = a; x.b = b; x.ix = len(_AL)
        x.top = bool(getattr(a, "top", False) or getattr(b, "top", False))
        _A[k] = x; _AL.append(x)
    return x
def show_a(x):
    if x.kind == "EQ0": return "%r==0" % (x.a,)
    if x.kind == "LT0": return "%r<0" % (x.a,)
    if x.kind == "EQT": return "%s==%s" % (show(x.a), show(x.b))
    if x.kind == "OVF": return "ovf%s(%r)" % (x.b, x.a)
    return show(x.a)

# ------------------------------------------------------------------ diagrams
class N:
    """var is None -> leaf"""
    __slots__ = ("var", "hi", "lo", "val", "id", "_sup", "_top", "_cmp")
    def __repr__(self): return show_n(self)
_leaf = {}
_node = {}
_nid = [0]
def leaf(v):
    k = (type(v), v)
    n = _leaf.get(k)
    if n is None:
        n = N(); n.var = None; n.hi = n.lo = None; n.val = v; n.id = _nid[0]; _nid[0] += 1
        n._sup = frozenset(); n._cmp = False; n._top = (getattr(v, "top", False) is True)
        _leaf[k] = n
    return n
TRUE = leaf(True); FALSE = leaf(False)
def sup(n): return n._sup

CMP = ("LT0", "EQ0")
_imp = {}
def implied(A, av, B):
    """value of B forced by A=av, or None (pairwise, canonical linear facts only)"""
    k = (A.ix, av, B.ix)
    r = _imp.get(k, 0)
    if r != 0: return r
    r = None
    if A.kind == "LT0" and B.kind == "LT0":
        if av:   # A.a <= -1
            if nonneg(psub(A.a, B.a)): r = True            # B <= A < 0
            elif nonneg(padd(padd(A.a, B.a), pc(1))): r = False  # B >= -A-1 >= 0
        else:    # A.a >= 0
            if nonneg(psub(B.a, A.a)): r = False
            elif nonneg(psub(pc(-1), padd(A.a, B.a))): r = True  # B <= -1-A < 0
    elif A.kind == "EQ0" and B.kind == "LT0":
        if av:
            for s in (1, -1):
                d = padd(B.a, A.a, s)
                c = pconst(d)
                if c is not None: r = c < 0; break
                if nonneg(d): r = False; break
                if nonneg(psub(pc(-1), d)): r = True; break
        else:
            # A.a != 0 with A.a >= 0  means A.a >= 1
            if nonneg(A.a):
                if nonneg(padd(psub(B.a, A.a), pc(1))): r = False
    elif A.kind == "LT0" and B.kind == "EQ0":
        x = A.a
        for s in (1, -1):
            d = padd(pscale(B.a, s), x, -1)      # s*B - A
            if av:
                if nonneg(pscale(d, -1)): r = False; break   # s*B <= A < 0
            else:
                if nonneg(psub(d, pc(1))): r = False; break  # s*B >= A+1 > 0
    elif A.kind == "EQ0" and B.kind == "EQ0":
        if av:
            for s in (1, -1):
                c = pconst(padd(B.a, A.a, s))
                if c is not None and c != 0: r = False; break
                d = padd(B.a, A.a, s)
                if c is None and nonneg(psub(d, pc(1))): r = False; break
            if r is None:
                # product: x*y==0 follows from x==0
                s1 = psym(A.a)
                if s1 is not None and B.a.m and all(s1.id in m for m in B.a.m): r = True
    elif A.kind == "EQT" and B.kind == "EQT" and av:
        for x, y in ((A.a, A.b), (A.b, A.a)):
            for u, v in ((B.a, B.b), (B.b, B.a)):
                if x is u and isinstance(y, T) and isinstance(v, T) and y.op == "kconst" and v.op == "kconst" and y is not v: r = False
    elif A.kind == "EQ0" and B.kind == "OVF" and av:
        s1 = psym(A.a)
        if s1 is not None and B.a.m and all(s1.id in m for m in B.a.m): r = False
    if r is None and A.kind == "EQ0" and av and B.kind in CMP:
        s = solve_for(A.a)
        if s is not None and any(s[0].id in m for m in B.a.m):
            n = subst(mkatom(B), {s[0]: s[1]})
            if n.var is None: r = n.val
    _imp[k] = r
    return r

def node(v, hi, lo):
    if hi is lo: return hi
    k = (v.ix, hi.id, lo.id)
    n = _node.get(k)
    if n is not None: return n
    if v.kind in CMP or v.kind == "EQT":
        h2, l2 = hi, lo
        for ix in hi._sup:
            b = _AL[ix]
            if b.kind in CMP or b.kind == "OVF" or b.kind == "EQT":
                r = implied(v, True, b)
                if r is not None: h2 = cof(h2, b, r)
        for ix in lo._sup:
            b = _AL[ix]
            if b.kind in CMP or b.kind == "OVF" or b.kind == "EQT":
                r = implied(v, False, b)
                if r is not None: l2 = cof(l2, b, r)
        if h2 is not hi or l2 is not lo:
            n = node(v, h2, l2); _node[k] = n; return n
    c = collapse(v, hi, lo)
    if c is not None:
        _node[k] = c; return c
    n = N(); n.var = v; n.hi = hi; n.lo = lo; n.val = None; n.id = _nid[0]; _nid[0] += 1
    n._sup = hi._sup | lo._sup | {v.ix}
    n._top = hi._top or lo._top or v.top
    n._cmp = False
    _node[k] = n
    return n

def collapse(v, hi, lo):
    """value-preserving rewrites  if c then x else y  ->  y   when x == y under c"""
    if hi.var is None and isinstance(hi.val, bool):
        if v.kind == "EQ0" and len(lo._sup) <= 12:
            x = lo
            for ix in lo._sup:
                b = _AL[ix]
                if b.kind in CMP or b.kind == "OVF":
                    r = implied(v, True, b)
                    if r is not None: x = cof(x, b, r)
            if x is hi: return lo
        return None
    if lo.var is None and isinstance(lo.val, bool): return None
    if v.kind == "EQ0":
        # pick a symbol with coefficient +-1 that occurs linearly, solve it
        if hi.var is None and lo.var is None and isinstance(hi.val, Poly) and isinstance(lo.val, Poly):
            if divisible(psub(lo.val, hi.val), v.a): return lo
        s = solve_for(v.a)
        if s is not None and dag_size(lo, 60) < 60:
            x = subst(lo, {s[0]: s[1]})
            if x is hi or dag_size(hi, 60) < 60 and x is subst(hi, {s[0]: s[1]}): return lo
        return None
    if v.kind == "B" and isinstance(v.a, T) and v.a.op in ("has", "found"):
        t = default_sym(v.a)
        if t is not None and dag_size(hi, 200) < 200 and subst(hi, {t: pc(0)}) is subst(lo, {t: pc(0)}): return hi
    return None
def default_sym(h):
    if h.op == "has": return _T.get(("V", h.args))
    return _T.get(("L", h.args))
def divisible(d, p):
    if not d.m: return True
    if not p.m: return False
    m, c = next(iter(p.m.items()))
    for m2, c2 in d.m.items():
        if set(m) <= set(m2):
            rest = list(m2); ok = True
            for x in m:
                if x in rest: rest.remove(x)
                else: ok = False
            if ok:
                q = _mk({tuple(rest): _norm(Fraction(c2) / c)})
                if pmul(q, p) is d: return True
    return False
def solve_for(p):
    for m, c in p.m.items():
        if len(m) == 1 and c in (1, -1) and sum(1 for mm in p.m if m[0] in mm) == 1:
            rest = dict(p.m); rest.pop(m)
            return (_TL[m[0]], pscale(_mk(rest), -c))
    return None

_cof = {}
def cof(n, v, val):
    if v.ix not in n._sup: return n
    k = (n.id, v.ix, val)
    r = _cof.get(k)
    if r is None:
        if n.var is v: r = n.hi if val else n.lo
        else: r = mkite(n.var, cof(n.hi, v, val), cof(n.lo, v, val))
        _cof[k] = r
    return r
def mkite(v, hi, lo):
    """like node() but tolerates children above v in the order"""
    if hi is lo: return hi
    t1 = hi.var.ix if hi.var is not None else 1 << 60
    t2 = lo.var.ix if lo.var is not None else 1 << 60
    if v.ix < t1 and v.ix < t2: return node(v, hi, lo)
    return ite(node(v, TRUE, FALSE), hi, lo)
_ite = {}
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is TRUE and b is FALSE: return c
    k = (c.id, a.id, b.id)
    r = _ite.get(k)
    if r is not None: return r
    v = c.var
    if a.var is not None and a.var.ix < v.ix: v = a.var
    if b.var is not None and b.var.ix < v.ix: v = b.var
    c1, c0 = (c.hi, c.lo) if c.var is v else (c, c)
    a1, a0 = (a.hi, a.lo) if a.var is v else (a, a)
    b1, b0 = (b.hi, b.lo) if b.var is v else (b, b)
    hi = ite(c1, a1, b1); lo = ite(c0, a0, b0)
    r = mkite(v, hi, lo)
    _ite[k] = r
    return r
def NOT(a): return ite(a, FALSE, TRUE)
def AND(a, b): return ite(a, b, FALSE)
def OR(a, b): return ite(a, TRUE, b)
def XOR(a, b): return ite(a, NOT(b), b)
def IFF(a, b): return ite(a, b, NOT(b))
def implies(a, b): return ite(a, b, TRUE) is TRUE

_restr = {}
def restrict(n, c):
    """simplify n assuming c (c must not be FALSE)"""
    if n.var is None or c is TRUE: return n
    if c is FALSE: return n
    if not (n._sup & c._sup): 
        return n
    k = (n.id, c.id)
    r = _restr.get(k)
    if r is not None: return r
    if c.var.ix < n.var.ix:
        # variable only in c
        if c.hi is FALSE: r = restrict(n, c.lo)
        elif c.lo is FALSE: r = restrict(n, c.hi)
        else: r = restrict(n, OR(c.hi, c.lo))
    elif c.var is n.var:
        if c.hi is FALSE: r = restrict(n.lo, c.lo)
        elif c.lo is FALSE: r = restrict(n.hi, c.hi)
        else: r = mkite(n.var, restrict(n.hi, c.hi), restrict(n.lo, c.lo))
    else:
        r = mkite(n.var, restrict(n.hi, c), restrict(n.lo, c))
    _restr[k] = r
    return r

_forced = {}
def forced(c):
    """dict atom->bool forced by c"""
    r = _forced.get(c.id)
    if r is not None: return r
    if c.var is None: r = {}
    elif c.lo is FALSE: r = dict(forced(c.hi)); r[c.var] = True
    elif c.hi is FALSE: r = dict(forced(c.lo)); r[c.var] = False
    else:
        a, b = forced(c.hi), forced(c.lo)
        r = {k: v for k, v in a.items() if b.get(k) is v}
    _forced[c.id] = r
    return r
_simp = {}
def simp(n, c):
    """restrict + pairwise theory from the literals c forces"""
    if n.var is None or c is TRUE: return n
    k = (n.id, c.id)
    r = _simp.get(k)
    if r is not None: return r
    r = restrict(n, c)
    if r.var is not None:
        f = [(a, v) for a, v in forced(c).items() if a.kind in CMP or a.kind == "EQT"]
        for ix in sorted(r._sup):
            b = _AL[ix]
            if b.kind not in CMP and b.kind != "EQT" and b.kind != "OVF": continue
            for a, v in f:
                x = implied(a, v, b)
                if x is not None: r = cof(r, b, x); break
    if r.var is not None: r = relu(r, c, {})
    _simp[k] = r
    return r
def decided(lit, c):
    """is the literal settled by the facts c"""
    if lit.var is None: return lit.val
    r = restrict(lit, c)
    if r.var is None: return r.val
    for a, v in forced(c).items():
        if a.kind in CMP:
            x = implied(a, v, lit.var)
            if x is not None: return x if lit.hi is TRUE else not x
    return None
def relu(n, c, memo):
    """if 0 < x then y + k*x else y  is  y + k*x  when x cannot be negative"""
    if n.var is None: return n
    k = (n.id, c.id)
    r = memo.get(k)
    if r is not None: return r
    if n.var.ix in c._sup: ch, cl = cof(c, n.var, True), cof(c, n.var, False)
    else: ch = cl = c
    if ch is FALSE and cl is not FALSE: r = relu(n.lo, cl, memo)
    elif cl is FALSE and ch is not FALSE: r = relu(n.hi, ch, memo)
    else:
        hi, lo = relu(n.hi, ch, memo), relu(n.lo, cl, memo)
        if hi is lo: r = hi
        else:
            r = n if hi is n.hi and lo is n.lo else mkite(n.var, hi, lo)
            if n.var.kind == "LT0" and hi.var is None and lo.var is None and isinstance(hi.val, Poly) and isinstance(lo.val, Poly):
                p = n.var.a
                d = psub(hi.val, lo.val)
                x = padd(p, pc(1))
                # p < 0 picks hi; the other side is p == 0 when p cannot be positive
                if divisible(d, p) and decided(LT0(pscale(p, -1)), c) is False: r = hi
                elif divisible(d, x) and decided(LT0(x), c) is False: r = lo
    memo[k] = r
    return r
def ap1(f, n, memo=None):
    if memo is None: memo = {}
    r = memo.get(n.id)
    if r is None:
        if n.var is None: r = f(n.val)
        else: r = mkite(n.var, ap1(f, n.hi, memo), ap1(f, n.lo, memo))
        memo[n.id] = r
    return r
def ap2(f, a, b, memo=None):
    """f(leafval, leafval) -> N"""
    if memo is None: memo = {}
    k = (a.id, b.id)
    r = memo.get(k)
    if r is None:
        if a.var is None and b.var is None: r = f(a.val, b.val)
        else:
            if b.var is None or (a.var is not None and a.var.ix <= b.var.ix): v = a.var
            else: v = b.var
            a1, a0 = (a.hi, a.lo) if a.var is v else (a, a)
            b1, b0 = (b.hi, b.lo) if b.var is v else (b, b)
            r = mkite(v, ap2(f, a1, b1, memo), ap2(f, a0, b0, memo))
        memo[k] = r
    return r
def apn(f, ns):
    """n-ary leafwise application"""
    memo = {}
    def go(ns):
        k = tuple(n.id for n in ns)
        r = memo.get(k)
        if r is None:
            v = None
            for n in ns:
                if n.var is not None and (v is None or n.var.ix < v.ix): v = n.var
            if v is None: r = f(*[n.val for n in ns])
            else:
                r = mkite(v, go(tuple(n.hi if n.var is v else n for n in ns)), go(tuple(n.lo if n.var is v else n for n in ns)))
            memo[k] = r
        return r
    return go(tuple(ns))
def leaves(n):
    out = []; seen = set()
    def go(n):
        if n.id in seen: return
        seen.add(n.id)
        if n.var is None: out.append(n.val)
        else: go(n.hi); go(n.lo)
    go(n)
    return out
def gates(n, c=TRUE):
    """[(gate, leafvalue)]"""
    acc = {}
    order = []
    def go(n, g):
        if g is FALSE: return
        if n.var is None:
            if n.id not in acc: acc[n.id] = [FALSE, n.val]; order.append(n.id)
            acc[n.id][0] = OR(acc[n.id][0], g)
            return
        v = node(n.var, TRUE, FALSE)
        go(n.hi, AND(g, v)); go(n.lo, AND(g, NOT(v)))
    if len(leaves(n)) > 1 or n.var is None:
        vals = leaves(n)
        for x in vals:
            g = AND(c, ap1(lambda y: TRUE if y is x or (type(y) is type(x) and y == x) else FALSE, n))
            if g is not FALSE: acc[len(order)] = [g, x]; order.append(len(order))
        return [(acc[i][0], acc[i][1]) for i in order]
    go(n, c)
    return [(acc[i][0], acc[i][1]) for i in order]
def dag_size(n, lim=10**9):
    seen = set(); st = [n]
    while st and len(seen) < lim:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.var is not None: st.append(x.hi); st.append(x.lo)
    return len(seen)
def is_top(n): return n._top
def show_n(n, depth=0):
    if n.var is None: return show(n.val) if not isinstance(n.val, bool) else ("T" if n.val else "F")
    if depth > 12: return "..."
    return "{%s ? %s : %s}" % (show_a(n.var), show_n(n.hi, depth + 1), show_n(n.lo, depth + 1))

def cubes(n, want=lambda v: v is True, lim=4):
    """some cubes (list of (atom,bool)) leading to a wanted leaf"""
    out = []
    def go(n, c):
        if len(out) >= lim: return
        if n.var is None:
            if want(n.val): out.append(list(c))
            return
        go(n.hi, c + [(n.var, True)]); go(n.lo, c + [(n.var, False)])
    go(n, [])
    return out

# ------------------------------------------------------------------ canonical comparisons
def mkatom(a): return node(a, TRUE, FALSE)
def clear(p):
    l = denom(p)
    return pscale(p, l) if l != 1 else p
def EQ0(p):
    p = clear(p)
    c = pconst(p)
    if c is not None: return TRUE if c == 0 else FALSE
    g = content(p, const=False)
    k = p.m.get((), 0)
    if g > 1:
        if k % g: return FALSE
        p = pscale(p, Fraction(1, g)); k = k // g
    if lead(p) < 0: p = pscale(p, -1)
    if nonneg(psub(p, pc(1))) or nonneg(psub(pc(-1), p)): return FALSE
    # sum of non-negatives with positive coefficients is kept as is; a single product splits
    if len(p.m) == 1:
        (m, c), = p.m.items()
        if len(m) > 1:
            r = FALSE
            for x in set(m): r = OR(r, EQ0(ps(_TL[x])))
            return r
    return mkatom(atom("EQ0", p))
def lead(p):
    best = None
    for m in p.m:
        if m and (best is None or (len(m), m) < (len(best), best)): best = m
    return p.m[best] if best is not None else 0
def residue(p, d):
    """p modulo d when it is known: x - rem(x, d) is a multiple of d"""
    for m, c in list(p.m.items()):
        if len(m) == 1 and _TL[m[0]].op == "rem" and isinstance(_TL[m[0]].args[1], int) and _TL[m[0]].args[1] % d == 0: p = padd(p, psub(_TL[m[0]].args[0], ps(_TL[m[0]])), c)
    for m, c in p.m.items():
        if Fraction(c).denominator != 1 or m and c % d: return None
    return p.m.get((), 0) % d
def unfloor(p):
    """p < 0 with x rounded down to a multiple of d, compared with numbers whose residue is known, says the same about x itself"""
    best = None
    for m, c in p.m.items():
        if len(m) != 1 or _TL[m[0]].op != "rem": continue
        t = _TL[m[0]]; x, d = t.args
        if not isinstance(d, int) or m in x.m or not x.m: continue
        if c < 0 and pscale(psub(x, ps(t)), -c) is p: return x
        if c not in (1, -1) or psym(x) is None or psym(x).args[-1:] != ("unix_timestamp",): continue
        k = -c; r = padd(psub(p, pscale(psub(x, ps(t)), k)), pc(0))
        if any(m2 and m2 in r.m for m2 in x.m) or not any(len(m2) == 1 and _TL[m2[0]].op == "rem" and _TL[m2[0]].args[1] == d for m2 in r.m): continue
        z = residue(r, d)
        if z is None: continue
        key = m[0]
        if best is None or key < best[0]:
            # floor(x) + r < 0  is  x + r + 1 + (-r - 1 mod d) - d < 0;   r - floor(x) < 0  is  r - (r mod d) + d - 1 - x < 0
            best = (key, padd(padd(x, r), pc(1 + (-z - 1) % d - d)) if k == 1 else psub(padd(r, pc(d - 1 - z)), x))
    return best[1] if best else p
def LT0(p):
    p = clear(p)
    p = unfloor(p)
    c = pconst(p)
    if c is not None: return TRUE if c < 0 else FALSE
    if nonneg(p): return FALSE
    if nonneg(psub(pc(-1), p)): return TRUE
    u = upper(p)
    if u is not None and u < 0: return TRUE
    u = upper(pscale(p, -1))
    if u is not None and u <= 0: return FALSE
    g = content(p, const=False)
    if g > 1:
        k = p.m.get((), 0)
        q = dict(p.m); q.pop((), None)
        p = padd(pscale(_mk(q), Fraction(1, g)), pc(k // g))
    # x - 1 < 0 with x >= 0   <=>  x == 0
    q = padd(p, pc(1))
    if nonneg(q): return EQ0(q)
    q = pscale(p, -1)              # p<0 <=> q>0 ; if q >= 0: q != 0
    if nonneg(q): return NOT(EQ0(q))
    if lead(p) < 0: return NOT(LT0(psub(pscale(p, -1), pc(1))))
    return mkatom(atom("LT0", p))
ARITH = set()      # ids of the atoms that come from range checks of arithmetic results (not from written comparisons)
def OVF(p, w):
    r = OVF_(p, w)
    ARITH.update(r._sup) if r.var is not None else None
    return r
def OVF_(p, w):
    """does the ideal value leave the range (lo, hi)"""
    lo, hi = w
    c = pconst(p)
    if c is not None: return FALSE if lo <= c <= hi else TRUE
    ub = upper(p)
    r = FALSE if (ub is not None and ub <= hi) else LT0(psub(pc(hi), p))
    return OR(r, LT0(psub(p, pc(lo))))
def multiple(p):
    """a number every value of p is known to be a multiple of"""
    for m, c in p.m.items():
        if len(m) == 1 and _TL[m[0]].op == "rem" and c < 0:
            x, d = _TL[m[0]].args
            if isinstance(d, int) and denom(p) == 1 and pscale(psub(x, ps(_TL[m[0]])), -c) is p: return d * int(-c)
    return content(p) if denom(p) == 1 else 1
def quot_max(t):
    """largest value of a quotient whose divisor is a positive integer"""
    a, b = t.args
    u = upper(a)
    if u is None: return None
    return u // max(1, multiple(b))
def upper(p):
    u = 0
    for m, c in p.m.items():
        if not m: u += c; continue
        if c < 0: 
            if not all(_TL[x].nn for x in m): return None
            continue
        x = c
        for i in m:
            t = _TL[i]
            mx = t.args[1] - 1 if t.op == "rem" else quot_max(t) if t.op == "div" else (t.meta or {}).get("max") if t.meta else None
            if mx is None: return None
            x *= mx
        u += x
    return u
def EQT(a, b):
    if a is b: return TRUE
    if isinstance(a, T) and isinstance(b, T):
        if a.op == "kconst" and b.op == "kconst": return FALSE
        if b.id < a.id: a, b = b, a
    return mkatom(atom("EQT", a, b))
def BOOL(t): return mkatom(atom("B", t))

# ------------------------------------------------------------------ substitution
def subst(n, m):
    """substitute symbols (T -> Poly | T) in a gated value; atoms are rebuilt canonically"""
    memo = {}
    tm = {}
    def sp(p):
        r = tm.get(p)
        if r is not None: return r
        hit = False
        out = pc(0)
        for mo, c in p.m.items():
            q = pc(c)
            for x in mo: 
                t = _TL[x]
                y = st(t)
                if y is not t: hit = True
                q = pmul(q, y if isinstance(y, Poly) else ps(y))
            out = padd(out, q)
        r = out if hit else p
        tm[p] = r
        return r
    def st(t):
        if t in m: return m[t]
        r = tm.get(t)
        if r is not None: return r
        args = tuple(sa(a) for a in t.args)
        if any(x is not y for x, y in zip(args, t.args)):
            r = rebuild(t, args)
        else: r = t
        tm[t] = r
        return r
    def sa(a):
        if isinstance(a, T):
            return st(a)
        if isinstance(a, Poly): return sp(a)
        if isinstance(a, N): return sn(a)
        if isinstance(a, tuple):
            b = tuple(sa(x) for x in a)
            return b if any(x is not y for x, y in zip(a, b)) else a
        return a
    def sat(v):
        r = tm.get(v)
        if r is not None: return r
        if v.kind == "EQ0":
            p = sp(v.a); r = mkatom(v) if p is v.a else EQ0(p)
        elif v.kind == "LT0":
            p = sp(v.a); r = mkatom(v) if p is v.a else LT0(p)
            if v.ix in ARITH and r.var is not None: ARITH.update(r._sup)
        elif v.kind == "OVF":
            p = sp(v.a); r = mkatom(v) if p is v.a else OVF(p, v.b)
        elif v.kind == "EQT":
            a, b = sa(v.a), sa(v.b); r = EQT(a, b) if (a is not v.a or b is not v.b) else mkatom(v)
        else:
            a = sa(v.a)
            r = mkatom(v) if a is v.a else (a if isinstance(a, N) else BOOL(a) if isinstance(a, T) else EQ0(psub(a, pc(1))))
        tm[v] = r
        return r
    def sleaf(v):
        if isinstance(v, Poly): return leaf(sp(v))
        if isinstance(v, T):
            r = st(v)
            return r if isinstance(r, N) else leaf(r)
        return leaf(v)
    def sn(n):
        r = memo.get(n.id)
        if r is None:
            if n.var is None: r = sleaf(n.val)
            else: r = ite(sat(n.var), sn(n.hi), sn(n.lo))
            memo[n.id] = r
        return r
    return sn(n)
REBUILD = {}
def rebuild(t, args):
    f = REBUILD.get(t.op)
    if f: 
        r = f(*args)
        if r is not None: return r
    return term(t.op, *args, nn=t.nn, meta=t.meta)
def _rb_div(a, b):
    p = pdiv(a, b); return p
REBUILD["div"] = _rb_div
REBUILD["rem"] = lambda a, d: prem(a, d)
def symbols(x, acc=None):
    """all T occurring anywhere in x"""
    if acc is None: acc = set()
    seen = set()
    def go(x):
        if isinstance(x, T):
            if x in acc: return
            acc.add(x)
            for a in x.args: go(a)
        elif isinstance(x, Poly):
            if ("p", x.id) in seen: return
            seen.add(("p", x.id))
            for t in pterms(x): go(t)
        elif isinstance(x, N):
            if x.id in seen: return
            seen.add(x.id)
            if x.var is None: go(x.val)
            else:
                go(x.var); go(x.hi); go(x.lo)
        elif isinstance(x, Atom):
            if ("a", x.ix) in seen: return
            seen.add(("a", x.ix)); go(x.a); go(x.b)
        elif isinstance(x, Ptr):
            go(x.base); go(x.path); go(x.meta)
        elif isinstance(x, tuple):
            for a in x: go(a)
    go(x)
    return acc
