"""One analysed slice of one instruction: the state the interpreter derived at a successful return, plus
the vocabulary (roles, fields, clock, spec terms) the rules are written in."""
from engine import model, mir, terms, interp, loops, maps, poly
from engine.terms import *
from engine.maps import EK, EV
from engine.interp import Agg, Enum, Sym, UNINIT, enum

DAY = 86400
PREC = 10_000_000_000_000_000
MULT = {0: 0, 1: 1, 2: 2, 3: 4, 4: 6}
DAYS = {1: 5, 2: 90, 3: 180, 4: 365}
U64MAX = 2**64 - 1

# account positions: the program's ABI
ROLES = {
    "InitializePool": ["pool", "mint", "vault", "payer", "deposit_authority", "rent", "token_program", "system_program"],
    "FillVault": ["pool", "mint", "vault", "fill_authority", "source", "token_program"],
    "InitializeMining": ["pool", "mining", "payer", "system_program"],
    "DepositMining": ["pool", "mining", "deposit_authority", "delegate"],
    "WithdrawMining": ["pool", "mining", "deposit_authority", "delegate"],
    "Claim": ["pool", "mint", "vault", "mining", "owner", "deposit_authority", "destination", "token_program"],
    "ExtendStake": ["pool", "mining", "deposit_authority", "delegate"],
    "DistributeRewards": ["pool", "distribute_authority"],
    "CloseMining": ["mining", "owner", "target", "deposit_authority", "pool"],
    "ChangeDelegate": ["pool", "mining", "deposit_authority", "owner", "old_delegate", "new_delegate"],
    "Slash": ["deposit_authority", "pool", "mining"],
    "DecreaseRewards": ["deposit_authority", "pool", "mining"],
}
MINING = ["reward_pool", "owner", "reward_mint", "index_with_precision", "share", "unclaimed_rewards", "stake_from_others", "bump", "data"]
POOL = ["deposit_authority", "distribute_authority", "fill_authority", "reward_mint", "index_with_precision", "total_share", "distribution_ends_at", "tokens_available_for_distribution", "token_account_bump", "data"]
MDIFF, PDIFF, HIST = 144, 176, 11888

# instruction payload fields by position
ARGS = {
    "InitializePool": ["fill_authority", "distribute_authority"],
    "FillVault": ["rewards", "distribution_ends_at"],
    "InitializeMining": ["mining_owner"],
    "DepositMining": ["amount", "lockup", "mining_owner", "delegate"],
    "WithdrawMining": ["amount", "mining_owner", "delegate"],
    "Claim": [], "DistributeRewards": [], "CloseMining": [],
    "ExtendStake": ["old_lockup", "new_lockup", "start_ts", "base", "additional", "mining_owner", "delegate"],
    "ChangeDelegate": ["amount", "new_delegate"],
    "Slash": ["mining_owner", "native", "multiplied", "expiration"],
    "DecreaseRewards": ["mining_owner", "amount"],
}

def P(x): return leaf(x)                       # Poly -> N
def add(*ns):
    r = leaf(pc(0))
    for n in ns: r = ap2(lambda a, b: leaf(padd(a, b)) if isinstance(a, Poly) and isinstance(b, Poly) else leaf(term("top", "add", nn=True)), r, n)
    return r
def sub(a, b): return ap2(lambda x, y: leaf(psub(x, y)) if isinstance(x, Poly) and isinstance(y, Poly) else leaf(term("top", "sub", nn=True)), a, b)
def mul(a, b): return ap2(lambda x, y: leaf(pmul(x, y)), a, b)
def num(n): return leaf(pc(n))
def eqn(a, b):
    """N bool: a == b for arbitrary leaf values"""
    def f(x, y):
        if x is y: return TRUE
        if isinstance(x, Poly) and isinstance(y, Poly): return EQ0(psub(x, y))
        if isinstance(x, T) and isinstance(y, T):
            if loops.maps._isM(x) or loops.maps._isM(y):
                return mapeq(x, y)
            return EQT(x, y)
        if isinstance(x, bool) and isinstance(y, bool): return leaf(x is y)
        if getattr(x, "top", False) or getattr(y, "top", False): return BOOL(term("top", "eq"))
        return FALSE
    return ap2(f, a, b)

def strip(m):
    ks = []
    while m.op in ("set", "mrem"):
        if m.args[1] not in ks: ks.append(m.args[1])
        m = m.args[0]
    return m, ks
def mapeq(x, y):
    """two maps over the same root agree when they agree at every key either of them touches"""
    if not (maps._isM(x) and maps._isM(y)): return BOOL(term("top", "mapeq", x, y)) if x.top or y.top else FALSE
    rx, kx = strip(x); ry, ky = strip(y)
    if rx is not ry:
        return BOOL(term("top", "mapeq", x, y)) if x.top or y.top else FALSE
    r = TRUE
    for k in dict.fromkeys(kx + ky):
        r = AND(r, ap2(lambda a, b: EQ0(psub(a, b)), maps.V1(x, k), maps.V1(y, k)))
        r = AND(r, IFF(maps.has1(x, k), maps.has1(y, k)))
    return r
class Unit:
    def __init__(self, d, names, instr, part):
        self.instr = instr; self.part = part
        self.vi = names.index(instr)
        e = d.T(d.find_adt("RewardsInstruction"))
        self.fields = e["v"][self.vi]["f"]
        self.argpos = {n: i for i, n in enumerate(ARGS[instr])}
        cases = {}
        for a, v in part.get("cases", {}).items(): cases[self.fields[self.argpos[a]][0]] = v
        self.idx = {r: i for i, r in enumerate(ROLES[instr])}
        self.aliases = {}
        assume = TRUE
        for (a, b), same in part.get("same", {}).items():
            q = EQT(term("key", self.idx[a]), term("key", self.idx[b]))
            assume = AND(assume, q if same else NOT(q))
        al = [b for (a, b), same in part.get("same", {}).items() if same]
        for (a, b), same in part.get("same", {}).items():
            for c in al:
                if c == b: continue
                q = EQT(term("key", self.idx[b]), term("key", self.idx[c]))
                assume = AND(assume, q if same else NOT(q))
        self.assume = assume
        self.lockup = part.get("cases", {})
        self.R = model.run_instruction(d, self.vi, cases=cases, assume=assume, instr=instr)
        self.I = self.R.I
        self.d = d
        self.obs = []
        self.ok = FALSE; self.st = None; self.okg = FALSE
        if self.R.ret is not None:
            ret = self.I.expand(self.R.ret) if isinstance(self.R.ret, Sym) else self.R.ret
            self.okg = ap1(lambda x: TRUE if pconst(x) == 0 else FALSE, ret.d)
            self.ok = AND(self.R.st.pc, self.okg)
            self.st = self.R.st
        clock = term("clock")
        self.tsp = ps(term("f", clock, "unix_timestamp", nn=True, meta={"max": 2**63 - 1}))
        self.ts = leaf(self.tsp)
        self.Dp = psub(self.tsp, prem(self.tsp, DAY))
        self.D = leaf(self.Dp)
        self.due = LT0(psub(ps(EK), padd(self.Dp, pc(1))))
    # ------------------------------------------------------------ values
    def has(self, r): return r in self.idx
    def key(self, r): return leaf(term("key", self.idx[r]))
    def signer(self, r): return BOOL(term("signer", self.idx[r]))
    def owner_prog(self, r): return leaf(term("owner", self.idx[r]))
    def arg(self, name):
        fn, ft = self.fields[self.argpos[name]]
        x = self.I.expand(Sym_(ft, term("arg", fn)))
        c = self.part.get("cases", {}).get(name)
        return enum(x.ty, num(c), x.p) if c is not None and isinstance(x, Enum) else x
    def names_of(self, r): return POOL if r == "pool" else MINING
    def base(self, r, off=0): return ("view", self.idx[r], off)
    def init(self, r, f):
        i = self.names_of(r).index(f)
        t = term("acc", self.idx[r], 0)
        own = f
        f = self.actual("RewardPool" if r == "pool" else "Mining", i, f)
        w = 2**128 - 1 if own == "index_with_precision" else 255 if "bump" in own else U64MAX
        x = term("f", t, f)
        if own in ("reward_pool", "owner", "reward_mint", "deposit_authority", "distribute_authority", "fill_authority"): return leaf(x)
        x.nn = True
        if x.meta is None: x.meta = {"max": w}
        return leaf(ps(x))
    def actual(self, ty, i, default):
        """the field's current name (positions are the account layout)"""
        k = ("adt", ty)
        c = self.d.__dict__.setdefault("_names", {})
        if k not in c:
            e = self.d.T(self.d.find_adt(ty))
            c[k] = [n for n, _ in e["v"][0]["f"]]
        return c[k][i] if i < len(c[k]) else default
    def view(self, r, off=0):
        b = self.base(r, off)
        if self.st is None or b not in self.st.mem: return None
        v = self.st.mem[b]
        return self.I.expand(v) if isinstance(v, Sym) else v
    def fin(self, r, f):
        v = self.view(r)
        if v is None: return self.init(r, f)
        if not isinstance(v, Agg): return leaf(term("top", "view"))
        x = v.f[self.names_of(r).index(f)]
        x = self.I.expand(x) if isinstance(x, Sym) else x
        return x
    def map0(self, r, off): return term("m0", term("acc", self.idx[r], off))
    def mapf(self, r, off):
        v = self.view(r, off)
        return leaf(self.map0(r, off)) if v is None else v
    def lam(self, r):
        b = ("lam", self.idx[r])
        if self.st is not None and b in self.st.mem: return self.st.mem[b]
        return leaf(ps(term("lam", b[1], nn=True, meta={"max": U64MAX})))
    def lam0(self, r): return leaf(ps(term("lam", self.idx[r], nn=True, meta={"max": U64MAX})))
    # ------------------------------------------------------------ obligations
    def ob(self, prop, name, status, msg="", where=None, tree=None):
        self.obs.append((prop, name, status, msg, where))
    def where_writes(self, r, off, path=None):
        """source positions of the writes that reach a location"""
        out = []
        b = self.base(r, off)
        for e in self.I.events:
            if e["k"] == "write" and e["base"] == b and (path is None or not e["path"] or e["path"][0] == path):
                w = e["where"][0] if e["where"] else None
                if w and w not in out: out.append(w)
        return out
    def entry_where(self): return [(self.d.loc(self.R.entry), self.R.entry["full"])]
    def anchor(self, instr=None):
        """the function that implements this instruction (first program function called with accounts)"""
        for e in self.I.events:
            if e["where"] and len(e["where"]) >= 2: return [e["where"][-2]]
        return self.entry_where()
    def require(self, prop, name, cond, msg, where=None):
        if self.ok is FALSE:
            self.ob(prop, name, "vacuous"); return None
        c = simp(cond, self.ok)
        if c is not TRUE and c is not FALSE: c = entail(c, self.ok)
        if c is TRUE: self.ob(prop, name, "proved"); return True
        if is_top(c) or is_top(self.ok): self.ob(prop, name, "undecided", msg, where or self.anchor()); return None
        c = poly.refine(c, self.ok)
        if c is TRUE: self.ob(prop, name, "proved"); return True
        self.ob(prop, name, "violated", msg, where or self.anchor()); return False
    def same(self, prop, name, got, want, msg, where=None):
        if self.ok is FALSE:
            self.ob(prop, name, "vacuous"); return None
        c = TRUE if got is want else eqn(simp(got, self.ok), simp(want, self.ok))
        return self.require(prop, name, c, msg, where)

def Sym_(ft, t):
    from engine.interp import sym
    return sym(ft, t)
def absent(c, ok):
    """a key that is not in a map has no value there"""
    m = {term("V", *a.a.args): pc(0) for a, v in forced(ok).items() if v is False and a.kind == "B" and isinstance(a.a, T) and a.a.op == "has"}
    return subst(c, m) if m else c
def entail(c, ok, budget=None):
    """c under ok, learning the literals along each way through c"""
    memo = {}
    budget = [4000]
    c = absent(c, ok)
    def go(n, q):
        n = simp(n, q)
        if n.var is None: return n
        k = (n.id, q.id)
        r = memo.get(k)
        if r is not None: return r
        budget[0] -= 1
        if budget[0] < 0: return n
        lit = node(n.var, TRUE, FALSE)
        qh, ql = AND(q, lit), AND(q, NOT(lit))
        lo = n.lo
        v = n.var.a
        if n.var.kind == "B" and isinstance(v, T) and v.op == "has": lo = subst(lo, {term("V", *v.args): pc(0)})
        if qh is FALSE: r = go(lo, ql)
        elif ql is FALSE: r = go(n.hi, qh)
        else:
            h = go(n.hi, qh); l = go(lo, ql)
            r = h if h is l else mkite(n.var, h, l)
        memo[k] = r
        return r
    return go(c, ok)
