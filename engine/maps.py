"""Ordered maps (on-chain red-black trees) as functional terms."""
from .terms import *
EK = term("EK", nn=True, meta=None)
EV = term("EV", nn=True)
EMPTY = term("mE")

def meta_max(w): return None

def V1(M, k):
    op = M.op
    if op == "mE": return leaf(pc(0))
    if op == "set":
        return ite(EQ0(psub(k, M.args[1])), leaf(M.args[2]), V1(M.args[0], k))
    if op == "mrem":
        return ite(EQ0(psub(k, M.args[1])), leaf(pc(0)), V1(M.args[0], k))
    if op == "prune":
        return ite(subst(M.args[1], {EK: k}), leaf(pc(0)), V1(M.args[0], k))
    if M.top: return leaf(ps(term("top", "V", M, k, nn=True)))
    return leaf(ps(term("V", M, k, nn=True)))
def has1(M, k):
    op = M.op
    if op == "mE": return FALSE
    if op == "set": return OR(EQ0(psub(k, M.args[1])), has1(M.args[0], k))
    if op == "mrem": return AND(NOT(EQ0(psub(k, M.args[1]))), has1(M.args[0], k))
    if op == "prune": return AND(NOT(subst(M.args[1], {EK: k})), has1(M.args[0], k))
    return BOOL(term("has", M, k))
def full1(M):
    if M.op == "mE": return FALSE
    return BOOL(term("full", M))
def set1(M, k, w):
    if M.op == "set" and M.args[1] is k: return set1(M.args[0], k, w)
    return term("set", M, k, w)
def rem1(M, k): 
    return term("mrem", M, k)
def prune1(M, g):
    if g is FALSE: return M
    if M.op == "mE": return M
    if M.op == "prune" and M.args[1] is g: return M
    if M.op == "set" :
        # a later key that is not selected commutes
        c = subst(g, {EK: M.args[1]})
        if c is FALSE: return term("set", prune1(M.args[0], g), M.args[1], M.args[2])
        if c is TRUE: return prune1(M.args[0], g)
    return term("prune", M, g)
def _isM(x): return isinstance(x, T) and x.op in ("m0", "mphi", "mE", "set", "mrem", "prune", "top", "mfold", "mskip")
def mtop(why): return term("top", why)
def VV(M, k): return apn(lambda m, kk: V1(m, kk) if _isM(m) and isinstance(kk, Poly) else leaf(ps(term("top", "V", nn=True))), (M, k))
def HAS(M, k): return apn(lambda m, kk: has1(m, kk) if _isM(m) and isinstance(kk, Poly) else BOOL(term("top", "has")), (M, k))
def FULL(M): return ap1(lambda m: full1(m) if _isM(m) else BOOL(term("top", "full")), M)
def SET(M, k, w): return apn(lambda m, kk, ww: leaf(set1(m, kk, ww)) if _isM(m) and isinstance(kk, Poly) and isinstance(ww, Poly) else leaf(mtop("set")), (M, k, w))
def REM(M, k): return apn(lambda m, kk: leaf(rem1(m, kk)) if _isM(m) and isinstance(kk, Poly) else leaf(mtop("mrem")), (M, k))
def PRUNE(M, g): return ap1(lambda m: leaf(prune1(m, g)) if _isM(m) else leaf(mtop("prune")), M)

def _one(n):
    if n.var is None: return n.val
    return None
REBUILD["V"] = lambda M, k: _one(V1(M, k)) if _isM(M) and isinstance(k, Poly) else None
REBUILD["has"] = lambda M, k: (lambda n: n)(has1(M, k)) if _isM(M) and isinstance(k, Poly) else None
REBUILD["set"] = lambda M, k, w: set1(M, k, w)

def empty1(M, g):
    """N: is the part of M selected by guard g (over EK) provably empty"""
    if M.op == "mE" or g is FALSE: return TRUE
    if M.op == "prune" and implies(g, M.args[1]): return TRUE
    if M.op == "set":
        return AND(NOT(subst(g, {EK: M.args[1]})), empty1(M.args[0], g))
    if M.op in ("mrem", "prune"): return empty1(M.args[0], g)
    return FALSE
def sum1(M, g, f):
    """sum over selected entries of f(EK,EV) (Poly, f linear-homogeneous in EV for set/rem rewriting)"""
    if f.var is None and isinstance(f.val, Poly) and pconst(f.val) == 0: return leaf(pc(0))
    if M.op == "mE" or g is FALSE: return leaf(pc(0))
    if M.op == "prune" and implies(g, M.args[1]): return leaf(pc(0))
    hom = subst(f, {EV: pc(0)}) is leaf(pc(0))
    if M.op == "set" and hom:
        k = M.args[1]
        new = subst(f, {EK: k, EV: M.args[2]})
        oldv = V1(M.args[0], k)
        if oldv.var is None:
            old = subst(f, {EK: k, EV: oldv.val})
            d = ap2(lambda a, b: leaf(psub(a, b)), new, old)
            base = sum1(M.args[0], g, f)
            return ap2(lambda a, b: leaf(padd(a, b)), base, ite(subst(g, {EK: k}), d, leaf(pc(0))))
    if M.top: return leaf(ps(term("top", "sum", nn=True)))
    return leaf(ps(term("sum", M, g, f, nn=True)))
REBUILD["sum"] = lambda M, g, f: _one(sum1(M, g, f)) if _isM(M) else None

def deltas(M, base):
    """[(key, N delta)] with M = base + sum of deltas (pruned/removed parts listed separately), or None"""
    out = []; pr = []
    while M is not base:
        if M.op == "set":
            out.append((M.args[1], _delta(M)))
            M = M.args[0]
        elif M.op == "prune": pr.append(("prune", M.args[1])); M = M.args[0]
        elif M.op == "mrem": pr.append(("mrem", M.args[1])); M = M.args[0]
        else: return None
    return out, pr
def _delta(M):
    w = M.args[2]
    return ap1(lambda v: leaf(psub(w, v)), V1(M.args[0], M.args[1]))
