"""Emptiness of a conjunction of canonical literals in the convex-polyhedra domain (linear over monomials), with
equalities propagated into the terms. `empty` answers True only when no integers satisfy all the literals."""
from fractions import Fraction
from .terms import *
from . import terms

def empty(lits, rounds=6):
    """lits: [(atom, bool)] over comparisons and pairwise other atoms"""
    lits = list(lits)
    gone = set()
    for _ in range(rounds):
        cons, eqs, neqs = [], [], []
        for a, v in lits:
            if a.kind == "LT0": cons.append(padd(a.a, pc(1)) if v else pscale(a.a, -1))     # p <= 0
            elif a.kind == "EQ0": (eqs if v else neqs).append(a.a)
            elif v is False and absent(a) and absent(a) not in gone: eqs.append(ps(absent(a)))   # what a map lacks reads as 0
        cs = set(cons)
        for p in list(cons):
            if pscale(p, -1) in cs and p not in eqs and pscale(p, -1) not in eqs: eqs.append(p)
        for p in neqs:
            for q in (p, pscale(p, -1)):
                if q in cs or nonneg(pscale(q, -1)): cons.append(padd(q, pc(1)))             # q <= 0 and q != 0
        sol = None
        for p in eqs:
            sol = solve_for(clear(p))
            if sol is not None and not occurs(sol[0], sol[1]): break
            sol = None
        if sol is None: break
        gone.add(sol[0])
        out = []
        for a, v in lits:
            n = subst(mkatom(a), {sol[0]: sol[1]}) if a.kind in ("LT0", "EQ0", "B", "OVF") else mkatom(a)
            if n is TRUE or n is FALSE:
                if (n is TRUE) != v: return True
                continue
            if n.var is not None and n.hi is TRUE and n.lo is FALSE: out.append((n.var, v))
            elif n.var is not None and n.hi is FALSE and n.lo is TRUE: out.append((n.var, not v))
            else:
                f = forced(n if v else NOT(n))
                out += list(f.items())
        lits = list(dict.fromkeys(out))
        pos = {}
        for a, v in lits:
            if pos.setdefault(a, v) is not v: return True
    return fm(cons, eqs)
def absent(a): return default_sym(a.a) if a.kind == "B" and isinstance(a.a, T) and a.a.op in ("has", "found") else None
def occurs(t, p): return t in symbols(p)
def fm(cons, eqs, limit=300):
    rows = []
    def row(p): return {m: Fraction(c) for m, c in p.m.items()}
    rows = [row(p) for p in cons] + [row(p) for p in eqs] + [{m: -c for m, c in row(p).items()} for p in eqs]
    ms = {m for r in rows for m in r if m}
    for m in ms:
        if all(terms._TL[i].nn for i in m): rows.append({m: Fraction(-1)})
        if len(m) == 1:
            t = terms._TL[m[0]]
            mx = t.args[1] - 1 if t.op == "rem" else terms.quot_max(t) if t.op == "div" else (t.meta or {}).get("max") if t.meta else None
            if t.op == "div" and len(t.args[0].m) < 12:  # a divisor is a positive integer: a / b <= a
                r = {m: Fraction(1)}
                for k, c in t.args[0].m.items(): r[k] = r.get(k, 0) - Fraction(c)
                rows.append({k: c for k, c in r.items() if c})
            if mx is not None: rows.append({m: Fraction(1), (): Fraction(-mx)})
            if t.op == "rem" and nonneg(t.args[0]):      # rem(x,d) <= x
                r = {m: Fraction(1)}
                for k, c in t.args[0].m.items(): r[k] = r.get(k, 0) - Fraction(c)
                rows.append({k: c for k, c in r.items() if c})
    def key(r): return tuple(sorted(r.items()))
    def norm(r):
        cs = [abs(c) for m, c in r.items() if m]
        if not cs: return r
        k = cs[0]
        return {m: c / k for m, c in r.items()}
    rows = list({key(norm(r)): norm(r) for r in rows}.values())
    vars_ = {m for r in rows for m in r if m}
    while vars_:
        for r in rows:
            if not any(r2 for r2 in r if r2) and r.get((), 0) > 0: return True
        best = None
        for v in vars_:
            p = sum(1 for r in rows if r.get(v, 0) > 0); n = sum(1 for r in rows if r.get(v, 0) < 0)
            c = p * n - p - n
            if best is None or c < best[0]: best = (c, v)
        v = best[1]; vars_.discard(v)
        P = [r for r in rows if r.get(v, 0) > 0]; Ng = [r for r in rows if r.get(v, 0) < 0]
        rest = [r for r in rows if not r.get(v, 0)]
        if len(P) * len(Ng) + len(rest) > limit * 4: continue_ = True
        else: continue_ = False
        new = []
        if not continue_:
            for a in P:
                for b in Ng:
                    r = {}
                    for m in set(a) | set(b):
                        c = a.get(m, 0) / a[v] - b.get(m, 0) / b[v]
                        if c: r[m] = c
                    new.append(norm(r))
        rows = list({key(r): r for r in rest + new}.values())
        if len(rows) > limit * 8: return False
    return any(r.get((), 0) > 0 and len(r) == 1 for r in rows)
def refine(c, ok, budget=1500):
    """c with the branches removed that contradict the facts `ok` forces together with the way there; TRUE when nothing is left against it"""
    b = [budget]
    base = [(a, v) for a, v in forced(ok).items()]
    def go(n, path, q):
        if b[0] <= 0: return n
        if n.var is None:
            if n is TRUE or n.val is True: return TRUE
            b[0] -= 1
            return TRUE if empty(relevant(path, [(a, v) for a, v in forced(q).items()])) else n
        lit = mkatom(n.var)
        qh, ql = AND(q, lit), AND(q, NOT(lit))
        h = TRUE if qh is FALSE else go(simp(n.hi, qh), path + [(n.var, True)], qh)
        l = TRUE if ql is FALSE else go(simp(n.lo, ql), path + [(n.var, False)], ql)
        return h if h is l else mkite(n.var, h, l)
    return go(c, [], ok)
def relevant(path, facts, lim=60):
    """the literals of the way, then the facts that share a symbol with them (closest first)"""
    out = list(dict.fromkeys(path))
    cur = set()
    for a, _ in out: cur |= atoms_syms(a)
    rest = [f for f in facts if f not in out]
    for _ in range(2):
        add = [f for f in rest if (f[0].kind in ("LT0", "EQ0") or not f[1] and absent(f[0])) and (atoms_syms(f[0]) & cur)]
        add.sort(key=lambda f: len(atoms_syms(f[0]) - cur))
        for f in add[:lim]:
            out.append(f); rest.remove(f)
        for f in add[:lim]: cur |= atoms_syms(f[0])
    return out
_as = {}
def atoms_syms(a):
    r = _as.get(a)
    if r is None:
        r = {x for p in (a.a,) if isinstance(p, Poly) for m in p.m for x in m}
        if absent(a): r = {absent(a).id}
        _as[a] = r
    return r
