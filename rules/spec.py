"""What each instruction must do to the accounts, written as terms in the interpreter's own algebra.
spec(u) -> {(role, field-or-map): term}; anything absent must be unchanged."""
from .unit import *

def accrue(u, r):
    """rewards accrual of one mining against the pool's index history: returns
    (unclaimed, index, share) after applying the decays that are due"""
    M = u.map0(r, MDIFF); CI = u.map0("pool", HIST)
    share, others, idx, unc = (u.init(r, f) for f in ("share", "stake_from_others", "index_with_precision", "unclaimed_rewards"))
    eff = add(share, others)
    # running values while walking the due decays oldest first
    init = {"e": eff, "i": idx, "u": unc}
    rest = sorted(("e", "i"), key=lambda k: repr(init[k]))
    ph = {"u": ps(term("phi", "c", 0, nn=True))}
    for j, k in enumerate(rest): ph[k] = ps(term("phi", "c", j + 1, nn=True))
    Lx = ps(term("L", CI, ps(EK), "lt", nn=True))
    x = pmul(psub(Lx, ph["i"]), ph["e"])
    step = {"u": leaf(padd(ph["u"], pdiv(x, pc(PREC)))), "i": leaf(Lx), "e": leaf(psub(ph["e"], ps(EV)))}
    fold = leaf(ps(term("fold", M, u.due, "f", tuple(init[k] for k in ["u"] + rest), tuple(step[k] for k in ["u"] + rest), nn=True)))
    decays = maps.sum1(M, u.due, leaf(ps(EV)))
    eff1 = sub(eff, decays)
    K = padd(u.Dp, pc(1))
    i1 = ite(BOOL(term("found", M, K, "lt")), leaf(ps(term("L", CI, ps(term("LK", M, K, "lt", nn=True)), "lt", nn=True))), idx)
    Lf = leaf(ps(term("L", CI, u.tsp, "lt", nn=True)))
    xx = mul(sub(Lf, i1), eff1)
    unc2 = add(fold, ap1(lambda p: leaf(pdiv(p, pc(PREC))), xx))
    return {"unclaimed_rewards": unc2, "index_with_precision": Lf, "share": sub(share, decays), "diffs": maps.PRUNE(leaf(M), u.due), "decays": decays, "eff": eff}

def bump(m, k, delta):
    """map with delta added at k (k: Poly)"""
    cur = maps.VV(m, leaf(k))
    return maps.SET(m, leaf(k), add(cur, delta))

def pool_decays(u): return maps.sum1(u.map0("pool", PDIFF), u.due, leaf(ps(EV)))

class Spec:
    def __init__(self):
        self.v = {}            # (role, what) -> N
        self.dev = set()       # entries that accrual defines

def spec(u):
    i = u.instr; s = Spec(); v = s.v
    def mining(r):
        a = accrue(u, r)
        for k in ("unclaimed_rewards", "index_with_precision", "share", "diffs"): v[(r, k)] = a[k]
        return a
    T0 = u.init("pool", "total_share") if u.has("pool") else None
    if i == "DepositMining":
        mining("mining")
        lk = u.lockup["lockup"]
        amt = u.arg("amount"); w = mul(amt, num(MULT[lk]))
        v[("mining", "share")] = add(v[("mining", "share")], w)
        v[("pool", "total_share")] = add(T0, w)
        v[("pool", "diffs")] = leaf(u.map0("pool", PDIFF))
        if lk:
            E = padd(u.Dp, pc(DAY * DAYS[lk])); df = sub(w, amt)
            v[("mining", "diffs")] = bump(v[("mining", "diffs")], E, df)
            v[("pool", "diffs")] = bump(v[("pool", "diffs")], E, df)
        if delegated(u):
            mining("delegate")
            v[("delegate", "stake_from_others")] = add(u.init("delegate", "stake_from_others"), amt)
            v[("pool", "total_share")] = add(v[("pool", "total_share")], amt)
    elif i in ("WithdrawMining", "Slash"):
        mining("mining")
        amt = u.arg("amount" if i == "WithdrawMining" else "multiplied")
        v[("mining", "share")] = sub(v[("mining", "share")], amt)
        v[("pool", "total_share")] = sub(sub(T0, pool_decays(u)), amt)
        v[("pool", "diffs")] = maps.PRUNE(leaf(u.map0("pool", PDIFF)), u.due)
        if i == "WithdrawMining" and delegated(u):
            mining("delegate")
            v[("delegate", "stake_from_others")] = sub(u.init("delegate", "stake_from_others"), amt)
            v[("pool", "total_share")] = sub(v[("pool", "total_share")], amt)
        if i == "Slash":
            e = u.arg("expiration")
            date = e.p[1][0]; date = u.I.expand(date) if isinstance(date, Sym) else date
            day = psub(date.val, prem(date.val, DAY))
            some = ap1(lambda x: TRUE if pconst(x) == 1 else FALSE, e.d)
            df = sub(amt, u.arg("native"))
            for r in ("mining", "pool"):
                m = v[(r, "diffs")]
                v[(r, "diffs")] = ite(some, bump(m, day, sub(num(0), df)), m)
            s.slash_day = day; s.slash_some = some; s.slash_df = df
    elif i == "ExtendStake":
        mining("mining")
        old, new = u.lockup["old_lockup"], u.lockup["new_lockup"]
        base, extra, start = u.arg("base"), u.arg("additional"), u.arg("start_ts")
        v[("pool", "diffs")] = leaf(u.map0("pool", PDIFF))
        both = add(base, extra)
        w = mul(both, num(MULT[new]))
        if old in (0, 1): active = FALSE; oldE = pc(0)
        else:
            oldE = padd(psub(start.val, prem(start.val, DAY)), pc(DAY * DAYS[old]))
            active = LT0(psub(u.tsp, oldE))
        gone = ite(active, mul(base, num(MULT[old])), base)
        v[("mining", "share")] = add(sub(v[("mining", "share")], gone), w)
        v[("pool", "total_share")] = add(sub(T0, gone), w)
        newE = padd(u.Dp, pc(DAY * DAYS[new])) if new else None
        s.active = active; s.oldE = oldE
        for r in ("mining", "pool"):
            m = v[(r, "diffs")]
            if active is not FALSE: m = ite(active, bump(m, oldE, sub(num(0), sub(mul(base, num(MULT[old])), base))), m)
            if new: m = bump(m, newE, sub(w, both))
            v[(r, "diffs")] = m
        if delegated(u):
            mining("delegate")
            v[("delegate", "stake_from_others")] = add(u.init("delegate", "stake_from_others"), extra)
            v[("pool", "total_share")] = add(v[("pool", "total_share")], extra)
    elif i == "Claim":
        a = mining("mining")
        s.payout = a["unclaimed_rewards"]
        v[("mining", "unclaimed_rewards")] = num(0)
    elif i == "ChangeDelegate":
        mining("mining")
        amt = u.arg("amount"); t = T0
        if not u.part["same"][("mining", "old_delegate")]:
            mining("old_delegate")
            v[("old_delegate", "stake_from_others")] = sub(u.init("old_delegate", "stake_from_others"), amt)
            t = sub(t, amt)
        if not u.part["same"][("mining", "new_delegate")]:
            mining("new_delegate")
            v[("new_delegate", "stake_from_others")] = add(u.init("new_delegate", "stake_from_others"), amt)
            t = add(t, amt)
        v[("pool", "total_share")] = t
    elif i == "DecreaseRewards":
        mining("mining")
        v[("mining", "share")] = sub(v[("mining", "share")], u.arg("amount"))
        v[("mining", "diffs")] = None          # judged by the penalty rule
    elif i == "CloseMining":
        mining("mining")
        s.closed = True
    elif i == "DistributeRewards":
        already = maps.HAS(leaf(u.map0("pool", HIST)), u.D)
        tot = sub(T0, pool_decays(u))
        avail = u.init("pool", "tokens_available_for_distribution")
        left = ap1(lambda p: leaf(pdiv(p, pc(DAY))), satsub(u.init("pool", "distribution_ends_at"), u.ts))
        rew = daily(avail, left)
        idx = u.init("pool", "index_with_precision")
        inc = ap2(lambda a, b: leaf(pdiv(pmul(pc(PREC), a), b)), rew, tot)
        v[("pool", "total_share")] = tot
        v[("pool", "diffs")] = maps.PRUNE(leaf(u.map0("pool", PDIFF)), u.due)
        v[("pool", "index_with_precision")] = ite(already, idx, add(idx, inc))
        v[("pool", "tokens_available_for_distribution")] = ite(already, avail, sub(avail, rew))
        v[("pool", "history")] = ite(already, leaf(u.map0("pool", HIST)), maps.SET(leaf(u.map0("pool", HIST)), u.D, add(idx, inc)))
        s.already = already; s.rew = rew; s.tot = tot; s.inc = inc; s.left = left
    elif i == "FillVault":
        e = u.arg("distribution_ends_at")
        v[("pool", "distribution_ends_at")] = sub(e, ap1(lambda p: leaf(prem(p, DAY)), e))
        v[("pool", "tokens_available_for_distribution")] = add(u.init("pool", "tokens_available_for_distribution"), u.arg("rewards"))
    elif i == "InitializePool":
        s.new = "pool"
    elif i == "InitializeMining":
        s.new = "mining"
    return s

def satsub(a, b):
    d = sub(a, b)
    return ap1(lambda p: ite(LT0(p), num(0), leaf(p)), d)
def daily(avail, left):
    """available when no whole day is left, otherwise available*P/days/P"""
    def f(a, l):
        z = EQ0(l)
        if z is TRUE: return leaf(a)
        q = pdiv(pdiv(pmul(a, pc(PREC)), l), pc(PREC))
        return ite(z, leaf(a), leaf(q))
    return ap2(f, avail, left)

def delegated(u): return not u.part["same"][("mining", "delegate")]

def minings(u): return [r for r in ("mining", "delegate", "old_delegate", "new_delegate") if u.has(r)]
