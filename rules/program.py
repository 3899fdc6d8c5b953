"""The rules for the on-chain program. Every rule reads one Unit (one instruction, one slice of its inputs)
and records obligations; a property is the set of obligations recorded under its id over all its units."""
from .unit import *
from . import spec as S
from . import iface as F

TOKEN = "06ddf6e1d765a193d9cbe146ceeb79ac1cb485ed5f5b37913a8cf5857eff00a9"
SYSTEM = "00" * 32
RENT = "06a7d517192c5c51218cc94c3d4af17f58daee089ba1fd44e3dbd98a00000000"
POOL_LEN, MINING_LEN = 64480, 1776
hexs = lambda s: s.encode().hex()

STAKING = ["DepositMining", "WithdrawMining", "ExtendStake", "ChangeDelegate", "Slash", "DecreaseRewards"]
REWARD = STAKING + ["Claim", "CloseMining"]
ALL = list(ROLES)
NEEDS = {
    "A01": STAKING + ["Claim", "CloseMining"], "A02": ["FillVault", "DistributeRewards"], "A03": ["Claim", "CloseMining", "ChangeDelegate"],
    "A04": REWARD, "A05": ["DepositMining", "WithdrawMining", "ExtendStake", "ChangeDelegate"], "A06": ALL,
    "A07": ["InitializePool", "FillVault", "Claim"], "A08": ["InitializePool", "InitializeMining"],
    "C01": STAKING, "C02": STAKING, "C03": ["DepositMining", "ExtendStake", "Slash"], "C04": REWARD + ["DistributeRewards"],
    "C05": ["DistributeRewards"], "C06": ["Claim"], "C07": ["FillVault"], "C08": ["CloseMining"], "C09": ALL, "C10": ALL,
    "C12": ["DepositMining", "ExtendStake"], "C13": REWARD, "C14": ALL, "C15": ["Slash", "DecreaseRewards"],
    "C16": ["DepositMining", "WithdrawMining", "ExtendStake", "ChangeDelegate"], "C17": ["DistributeRewards"], "L01": ALL, "I02": ALL, "E01": ALL,
}
FIELD = {"share": "staked weight", "stake_from_others": "delegated stake", "unclaimed_rewards": "accrued rewards",
         "index_with_precision": "index checkpoint", "total_share": "pool total weight", "diffs": "scheduled decays", "history": "index history",
         "distribution_ends_at": "distribution end date", "tokens_available_for_distribution": "distributable budget"}

def partitions(instr):
    tf = [False, True]
    if instr == "DepositMining":
        return [{"cases": {"lockup": l}, "same": {("mining", "delegate"): s}} for l in range(5) for s in tf]
    if instr == "WithdrawMining": return [{"same": {("mining", "delegate"): s}} for s in tf]
    if instr == "ExtendStake":
        return [{"cases": {"old_lockup": a, "new_lockup": b}, "same": {("mining", "delegate"): s}} for a in range(5) for b in range(5) for s in tf]
    if instr == "ChangeDelegate":
        return [{"same": {("mining", "old_delegate"): a, ("mining", "new_delegate"): b}} for a in tf for b in tf]
    if instr == "Slash": return [{"cases": {"expiration": c}} for c in (0, 1)]
    return [{}]
def may_succeed(instr, part):
    c = part.get("cases", {})
    if instr == "DepositMining": return c["lockup"] != 0
    if instr == "ExtendStake": return c["old_lockup"] != 0 and c["new_lockup"] != 0
    if instr == "ChangeDelegate": return not all(part["same"].values())
    return True

# ------------------------------------------------------------------ shared vocabulary
def kc(h): return leaf(term("kconst", h))
def pid(): return leaf(term("pid"))
def seedval(x):
    if isinstance(x, str): return x
    n = x
    return n.val if isinstance(n, N) and n.var is None else n
def is_pda(key, seeds, bump, both=False):
    """key is the address derived from the seeds (with the recorded bump, or the canonical one)"""
    s = tuple(seedval(x) for x in seeds)
    p = term("pda", s + (seedval(bump),), term("pid"))
    q = term("fpda", s, term("pid"))
    return (AND if both else OR)(eqn(key, leaf(p)), eqn(key, leaf(q)))
def nz(x): return NOT(eqn(x, num(0)))
def value_of(u, n): return leaf(n) if not isinstance(n, N) else n
def expand(u, x): return u.I.expand(x) if isinstance(x, Sym) else x

def run(u, errors=False):
    """every rule that reads this instruction (the reported errors are judged in units of their own)"""
    s = S.spec(u)
    for p, f in RULES:
        if (p == "E01") != errors or u.instr not in NEEDS[p]: continue
        try: f(u, s)
        except MemoryError: raise
        except Exception as e: u.ob(p, "rule", "undecided", "the rule does not apply to what was derived: %s: %s" % (type(e).__name__, str(e)[:150]), u.anchor())
    return u.obs

RULES = []
def rule(p):
    def deco(f): RULES.append((p, f)); return f
    return deco

# ------------------------------------------------------------------ authority
@rule("A01")
def a01(u, s):
    u.require("A01", "signature", u.signer("deposit_authority"), "succeeds without the signature of the pool's deposit authority")
    u.require("A01", "identity", eqn(u.key("deposit_authority"), u.init("pool", "deposit_authority")), "the signing deposit authority is not compared with the one the pool records")
@rule("A02")
def a02(u, s):
    r = "fill_authority" if u.instr == "FillVault" else "distribute_authority"
    u.require("A02", "signature", u.signer(r), "succeeds without the signature of the pool's %s" % r.replace("_", " "))
    u.require("A02", "identity", eqn(u.key(r), u.init("pool", r)), "the signer is not compared with the %s the pool records" % r.replace("_", " "))
@rule("A03")
def a03(u, s):
    u.require("A03", "signature", u.signer("owner"), "succeeds without the signature of the mining's owner")
    u.require("A03", "identity", eqn(u.key("owner"), u.init("mining", "owner")), "the signing owner is not compared with the owner the mining records")
@rule("A04")
def a04(u, s):
    u.require("A04", "pool", eqn(u.init("mining", "reward_pool"), u.key("pool")), "accepts a mining that records another reward pool")
    who = u.key("owner") if u.has("owner") else u.arg("mining_owner")
    u.require("A04", "owner", eqn(u.init("mining", "owner"), who), "accepts a mining that belongs to another owner")
    if u.instr not in ("Claim", "CloseMining"):
        u.require("A04", "address", is_pda(u.key("mining"), (hexs("mining"), who, u.key("pool")), u.init("mining", "bump")), "the mining's address is not the one derived from its owner and pool")
@rule("A05")
def a05(u, s):
    def chk(role, who, what):
        if u.part["same"].get(("mining", role)): return
        u.require("A05", role + ".address", is_pda(u.key(role), (hexs("mining"), who, u.key("pool")), u.init(role, "bump")), "accepts a %s that is not derived from %s and this pool" % (role.replace("_", " "), what))
        u.require("A05", role + ".program", eqn(u.owner_prog(role), pid()), "accepts a %s this program does not own" % role.replace("_", " "))
    if u.instr == "ChangeDelegate":
        chk("new_delegate", u.arg("new_delegate"), "the named new delegate")
        chk("old_delegate", u.init("old_delegate", "owner"), "the owner it records")
    else: chk("delegate", u.arg("delegate"), "the named delegate")
@rule("A06")
def a06(u, s):
    if u.has("pool"): u.require("A06", "pool", eqn(u.owner_prog("pool"), pid()), "accepts a pool account that this program does not own")
    if u.has("mining") and u.instr != "InitializeMining": u.require("A06", "mining", eqn(u.owner_prog("mining"), pid()), "accepts a mining account that this program does not own")
    for r in ("mint", "vault", "source", "destination"):
        if u.has(r) and not (u.instr == "InitializePool" and r == "vault"):
            u.require("A06", r, eqn(u.owner_prog(r), kc(TOKEN)), "accepts a %s account the token program does not own" % r)
    for r, k in (("token_program", TOKEN), ("system_program", SYSTEM), ("rent", RENT)):
        if u.has(r): u.require("A06", r, eqn(u.key(r), kc(k)), "accepts another account in place of the %s" % r.replace("_", " "))
    if u.instr == "CloseMining": u.require("A06", "target", eqn(u.owner_prog("target"), kc(SYSTEM)), "accepts a target that is not a system account")
    for f, q in cpi_events(u):
        for g, t in gates(f["ix"], AND(u.ok, f["g"])):
            if isinstance(t, T) and t.op == "ix" and "spl_token" in str(t.args[0]):
                u.require("A06", "cpi.program", ite(AND(f["g"], g), eqn(t.args[1], kc(TOKEN)), TRUE), "calls a token instruction on another program", f["where"])

def cpi_events(u):
    out = []
    for e in u.I.events:
        if e["k"] == "cpi":
            q = AND(u.ok, e["g"])
            if q is not FALSE: out.append((e, q))
    return out
def ix_is(e, name, args):
    """N bool: the instruction handed to the call is name(args)"""
    def f(t):
        if not isinstance(t, T): return FALSE
        if t.top and t.op != "ix": return BOOL(term("top", "ix", t))
        if t.op != "ix" or not str(t.args[0]).endswith(name) or len(t.args) != len(args) + 1: return FALSE
        r = TRUE
        for a, b in zip(t.args[1:], args): r = AND(r, eqn(a, b)) if b is not None else r
        return r
    return ap1(f, e["ix"])
def call_rule(u, prop, name, when, ixname, args, infos, msg, seeds=None):
    """whenever `when` holds at success, exactly the expected call was made and it succeeded"""
    evs = cpi_events(u)
    done = FALSE
    for e, q in evs:
        good = ix_is(e, ixname, args)
        if e["infos"] is not None and infos is not None and not set(infos) <= set(e["infos"]): good = FALSE
        if seeds is not None and e["seeds"] is not None and not any(x == seeds for x in e["seeds"]):
            if not any(x is None for x in e["seeds"]): good = FALSE
        done = OR(done, AND(AND(e["g"], e["ok"]), good))
    w = [e["where"][0] for e, _ in evs if e["where"]]
    u.require(prop, name, ite(when, done, TRUE), msg, w or None)

@rule("A07")
def a07(u, s):
    seeds = (hexs("vault"), u.key("pool"), u.key("mint"))
    if u.instr == "InitializePool":
        q = eqn(u.key("vault"), leaf(term("fpda", tuple(map(seedval, seeds)), term("pid"))))
        u.require("A07", "vault", q, "the vault is not the address derived from the pool and the reward mint")
        u.same("A07", "bump", u.fin("pool", "token_account_bump"), leaf(ps(term("bump", tuple(map(seedval, seeds)), term("pid"), nn=True, meta={"max": 255}))), "records another bump than the vault's", u.where_writes("pool", 0))
        u.same("A07", "mint", u.fin("pool", "reward_mint"), u.key("mint"), "records another reward mint than the vault's", u.where_writes("pool", 0))
        return
    u.require("A07", "vault", is_pda(u.key("vault"), seeds, u.init("pool", "token_account_bump")), "the vault is not the address derived from the pool and the reward mint")
    if u.instr == "Claim":
        d = u.idx["destination"]
        own = leaf(term("f", term("spl", "Account", ("data", d), 0), "owner"))
        cands = [q for q in destination_owner(u, d)] or [own]
        c = FALSE
        for x in cands: c = OR(c, eqn(x, u.key("owner")))
        u.require("A07", "destination", c, "pays to a token account whose owner is not the mining's owner")
    amt = s.payout if u.instr == "Claim" else u.arg("rewards")
    args = (kc(TOKEN), u.key("vault"), u.key("destination"), u.key("deposit_authority"), None, None) if u.instr == "Claim" else (kc(TOKEN), u.key("source"), u.key("vault"), u.key("fill_authority"), None, None)
    for e, q in cpi_events(u):
        u.require("A07", "route", ite(e["g"], ix_is(e, "transfer", args), TRUE), "moves reward tokens between other accounts than the pool's vault and the %s" % ("owner's token account" if u.instr == "Claim" else "fill source"), e["where"][:1])
def destination_owner(u, d):
    """the unpacked token-account owner terms of account d, at any epoch before the first call"""
    seen = []
    for a in collect_atoms(u.ok):
        for x in (a.a, a.b):
            if isinstance(x, T) and x.op == "f" and len(x.args) == 2 and x.args[1] == "owner" and isinstance(x.args[0], T) and x.args[0].op == "spl" and x.args[0].args[0] == "Account" and x.args[0].args[1] == ("data", d):
                n = leaf(x)
                if n not in seen: seen.append(n)
    return seen
def collect_atoms(n):
    return [terms._AL[ix] for ix in sorted(n._sup)]

@rule("A08")
def a08(u, s):
    if u.instr == "InitializePool":
        # an initialised pool's trees are in use, so demanding unused ones refuses it as well
        c = OR(NOT(eqn(tag_term(u, "pool"), num(1))), OR(BOOL(term("fresh", u.map0("pool", PDIFF))), BOOL(term("fresh", u.map0("pool", HIST)))))
        u.require("A08", "once", c, "initialises a pool that is already initialised")
        u.require("A08", "size", eqn(leaf(ps(term("dlen", u.idx["pool"], nn=True, meta={"max": 2**32}))), num(POOL_LEN)), "accepts a pool account of another size")
        want = {"deposit_authority": u.key("deposit_authority"), "distribute_authority": u.arg("distribute_authority"), "fill_authority": u.arg("fill_authority"), "reward_mint": u.key("mint"),
                "index_with_precision": num(0), "total_share": num(0), "distribution_ends_at": num(0), "tokens_available_for_distribution": num(0)}
        for r in ("deposit_authority", "payer"): u.require("A08", r, u.signer(r), "succeeds without the signature of the %s" % r.replace("_", " "))
        role, offs, kind = "pool", (PDIFF, HIST), 1
        seeds = (hexs("vault"), u.key("pool"), u.key("mint")); sv = tuple(map(seedval, seeds))
        full = sv + (ps(term("bump", sv, term("pid"), nn=True, meta={"max": 255})),)
        call_rule(u, "A08", "vault.create", TRUE, "create_account", (u.key("payer"), u.key("vault"), leaf(ps(term("minbal", num(165), nn=True))), num(165), kc(TOKEN)), (u.idx["payer"], u.idx["vault"]), "does not create the vault as a rent-exempt token account", full)
        call_rule(u, "A08", "vault.init", TRUE, "initialize_account", (kc(TOKEN), u.key("vault"), u.key("mint"), u.key("deposit_authority")), (u.idx["vault"], u.idx["mint"], u.idx["deposit_authority"]), "does not initialise the vault for the reward mint under the deposit authority")
    else:
        want = {"reward_pool": u.key("pool"), "owner": u.arg("mining_owner"), "index_with_precision": num(0), "share": num(0), "unclaimed_rewards": num(0), "stake_from_others": num(0)}
        role, offs, kind = "mining", (MDIFF,), 2
        sv = (hexs("mining"), seedval(u.arg("mining_owner")), seedval(u.key("pool")))
        u.require("A08", "address", eqn(u.key("mining"), leaf(term("fpda", sv, term("pid")))), "creates a mining at an address not derived from its owner and pool")
        u.require("A08", "payer", u.signer("payer"), "succeeds without the signature of the payer")
        b = ps(term("bump", sv, term("pid"), nn=True, meta={"max": 255}))
        want["bump"] = leaf(b)
        call_rule(u, "A08", "create", TRUE, "create_account", (u.key("payer"), u.key("mining"), leaf(ps(term("minbal", num(MINING_LEN), nn=True))), num(MINING_LEN), pid()), (u.idx["payer"], u.idx["mining"]), "does not create the mining as a rent-exempt account owned by this program", sv + (b,))
    for f, x in want.items():
        u.same("A08", "record." + f, u.fin(role, f), x, "records a wrong initial %s" % FIELD.get(f, f.replace("_", " ")), u.where_writes(role, 0))
    v = u.view(role)
    d = expand(u, v.f[-1]) if isinstance(v, Agg) else None
    if isinstance(d, Agg): u.same("A08", "record.type", d.f[0], num(kind), "does not mark the account with its type", u.where_writes(role, 0))
    else: u.ob("A08", "record.type", "undecided", "account type byte not derived", u.anchor())
    for o in offs:
        u.same("A08", "record.tree%d" % o, u.mapf(role, o), leaf(maps.EMPTY), "leaves a record tree uninitialised", u.where_writes(role, o))
def tag_term(u, r):
    d = u.I.expand(Sym_(u.I.base_ty[("view", u.idx[r], 0)], term("acc", u.idx[r], 0))) if ("view", u.idx[r], 0) in u.I.base_ty else None
    if isinstance(d, Agg):
        x = expand(u, d.f[-1])
        if isinstance(x, Agg): return expand(u, x.f[0])
    return leaf(term("top", "tag"))

# ------------------------------------------------------------------ state
def slice_check(u, s, prop, keys, why):
    """final value of each entry equals the specified one"""
    for (r, w), x in s.v.items():
        if x is None or (r, w) not in keys: continue
        got = u.mapf(r, HIST if w == "history" else PDIFF if r == "pool" else MDIFF) if w in ("diffs", "history") else u.fin(r, w)
        off = HIST if w == "history" else (PDIFF if r == "pool" else MDIFF) if w == "diffs" else 0
        path = None if off else u.names_of(r).index(w)
        u.same(prop, "%s.%s" % (r, w), got, x, "%s: %s of the %s is not what it must be" % (why, FIELD[w], r.replace("_", " ")), u.where_writes(r, off, path))
def mr(u): return S.minings(u)

@rule("C01")
def c01(u, s):
    slice_check(u, s, "C01", {(r, f) for r in mr(u) for f in ("unclaimed_rewards", "index_with_precision")}, "rewards are not accrued on the stake held before this operation")
@rule("C13")
def c13(u, s):
    if u.instr == "CloseMining":
        return
    ks = {(r, f) for r in mr(u) for f in ("unclaimed_rewards", "index_with_precision")}
    if u.instr == "Claim":
        ks = {("mining", "index_with_precision")}
        for e, q in cpi_events(u):
            for g, t in gates(e["ix"]):
                if isinstance(t, T) and t.op == "ix" and len(t.args) == 7: u.same("C13", "mining.accrued", ite(AND(e["g"], g), t.args[6], s.payout), s.payout, "the accrued amount is not the sum over index segments", e["where"][:1])
    slice_check(u, s, "C13", ks, "accrual is not the stake times the index growth, day by day")
@rule("C02")
def c02(u, s):
    if u.instr == "DecreaseRewards": return
    d = sub(u.fin("pool", "total_share"), u.init("pool", "total_share"))
    if ("pool", "diffs") in s.v and u.instr in ("WithdrawMining", "Slash"): d = add(d, S.pool_decays(u))
    w = num(0)
    for r in mr(u):
        if u.part.get("same", {}).get(("mining", r)): continue
        a = S.accrue(u, r)
        w = add(w, sub(add(u.fin(r, "share"), a["decays"]), u.init(r, "share")))
        w = add(w, sub(u.fin(r, "stake_from_others"), u.init(r, "stake_from_others")))
    u.same("C02", "total", d, w, "the pool's total weight does not move by the same amount as the minings' weights and delegated stakes", u.where_writes("pool", 0, POOL.index("total_share")) or None)

@rule("C03")
def c03(u, s):
    slice_check(u, s, "C03", {("mining", "diffs"), ("pool", "diffs")}, "the decay scheduled for the lockup's expiry day differs from the weight it will lose")
@rule("C04")
def c04(u, s):
    if u.instr == "CloseMining": return
    ks = {(r, "diffs") for r in mr(u)} | {(r, "share") for r in mr(u)}
    if u.instr in ("WithdrawMining", "Slash", "DistributeRewards"): ks |= {("pool", "diffs"), ("pool", "total_share")}
    slice_check(u, s, "C04", ks, "decays that are due are not applied and removed exactly once")
@rule("C12")
def c12(u, s):
    slice_check(u, s, "C12", {("mining", "share"), ("mining", "diffs"), ("pool", "diffs"), ("pool", "total_share")}, "weight or expiry day does not follow the lockup table")
    if not may_succeed(u.instr, u.part):
        u.ob("C12", "no-lockup", "violated" if not_false(u.ok) else "proved", "accepts the unreachable lockup kind", u.anchor())
def not_false(n): return n is not FALSE and not is_top(n)
@rule("C16")
def c16(u, s):
    ks = {(r, "stake_from_others") for r in mr(u)}
    if u.instr == "ChangeDelegate": ks |= {("pool", "total_share")} | {(r, "share") for r in mr(u)}
    slice_check(u, s, "C16", ks, "delegated stake does not move by exactly the staked amount")
    for r in mr(u):
        if (r, "stake_from_others") in s.v: continue
        if u.part.get("same", {}).get(("mining", r)) and r != "mining":
            if u.view(r) is None: continue
        u.same("C16", r + ".stake_from_others", u.fin(r, "stake_from_others"), u.init(r, "stake_from_others"), "delegated stake of an account that is not a delegate changes", u.where_writes(r, 0, MINING.index("stake_from_others")))
    if u.instr == "ChangeDelegate":
        if all(u.part["same"].values()): u.ob("C16", "same-delegate", "violated" if not_false(u.ok) else "proved", "accepts a new delegate equal to the old one", u.anchor())
        else: u.require("C16", "distinct", NOT(eqn(u.key("old_delegate"), u.key("new_delegate"))), "accepts a new delegate equal to the old one")
@rule("C05")
def c05(u, s):
    slice_check(u, s, "C05", {("pool", f) for f in ("index_with_precision", "history", "tokens_available_for_distribution", "total_share", "diffs")}, "a distribution does not advance the index once per day by its share of the budget")
    u.require("C05", "zero-stake", ite(s.already, TRUE, nz(s.tot)), "distributes over a zero total weight")
    u.require("C05", "no-stake", nz(u.init("pool", "total_share")), "distributes although nobody is staked")
@rule("C17")
def c17(u, s):
    got = sub(u.init("pool", "tokens_available_for_distribution"), u.fin("pool", "tokens_available_for_distribution"))
    want = ite(s.already, num(0), s.rew)
    u.same("C17", "amount", got, want, "the day's rewards are not the budget divided by the whole days left (everything once no day is left)", u.where_writes("pool", 0, POOL.index("tokens_available_for_distribution")))
    u.same("C17", "end", u.fin("pool", "distribution_ends_at"), u.init("pool", "distribution_ends_at"), "a distribution moves the end date", u.where_writes("pool", 0, POOL.index("distribution_ends_at")))
@rule("C06")
def c06(u, s):
    u.same("C06", "zeroed", u.fin("mining", "unclaimed_rewards"), num(0), "accrued rewards are not zeroed by the claim", u.where_writes("mining", 0, MINING.index("unclaimed_rewards")))
    call_rule(u, "C06", "paid", nz(s.payout), "transfer", (kc(TOKEN), u.key("vault"), u.key("destination"), u.key("deposit_authority"), None, s.payout), (u.idx["vault"], u.idx["destination"], u.idx["deposit_authority"]), "does not transfer exactly the accrued rewards")
    evs = cpi_events(u)
    tot = FALSE
    for i, (e, q) in enumerate(evs):
        u.require("C06", "only-payout", ite(e["g"], ix_is(e, "transfer", (None, u.key("vault"), u.key("destination"), None, None, s.payout)), TRUE), "makes another transfer than the payout", e["where"][:1])
        for e2, q2 in evs[:i]: tot = OR(tot, AND(AND(e["g"], e2["g"]), nz(s.payout)))
    u.require("C06", "once", NOT(tot), "pays more than once")
    rd = [e for e in u.I.events if e["k"] == "retdata" and AND(u.ok, e["g"]) is not FALSE]
    if not rd: u.ob("C06", "reported", "violated", "the claimed amount is not reported", u.anchor())
    else:
        c = FALSE
        for e in rd: c = OR(c, e["g"])
        u.require("C06", "reported", c, "the claimed amount is not reported on every success", rd[-1]["where"][:1])
        e = rd[-1]
        if e["data"] is None: u.ob("C06", "report.bytes", "undecided", "return data not derived", e["where"][:1])
        elif len(e["data"]) != 8: u.ob("C06", "report.bytes", "violated", "the report is not one 64-bit number", e["where"][:1])
        else:
            for i, x in enumerate(e["data"]):
                def by(p, i=i):
                    c = pconst(p)
                    return leaf(pc((c >> (8 * i)) & 255)) if c is not None else leaf(ps(term("byte", p, i, 8, nn=True, meta={"max": 255})))
                u.same("C06", "report.byte%d" % i, expand(u, x), ap1(by, s.payout), "reports another amount than the one paid", e["where"][:1])
@rule("C07")
def c07(u, s):
    slice_check(u, s, "C07", {("pool", f) for f in ("distribution_ends_at", "tokens_available_for_distribution")}, "a fill does not credit what it transfers or does not record the day-aligned end date")
    u.require("C07", "positive", nz(u.arg("rewards")), "accepts a fill of zero tokens")
    e = u.arg("distribution_ends_at")
    day = sub(e, ap1(lambda p: leaf(prem(p, DAY)), e))
    u.require("C07", "future", NOT(ap1(LT0, sub(day, u.D))), "accepts an end date before today")
    u.require("C07", "no-shortening", NOT(ap1(LT0, sub(day, u.init("pool", "distribution_ends_at")))), "lets a fill move the end date backwards")
    call_rule(u, "C07", "moved", TRUE, "transfer", (kc(TOKEN), u.key("source"), u.key("vault"), u.key("fill_authority"), None, u.arg("rewards")), (u.idx["source"], u.idx["vault"], u.idx["fill_authority"]), "does not transfer exactly the credited tokens into the vault")
    evs = cpi_events(u)
    for i, (e, q) in enumerate(evs):
        u.require("C07", "only-move", ite(e["g"], ix_is(e, "transfer", (None, u.key("source"), u.key("vault"), None, None, u.arg("rewards"))), TRUE), "makes another transfer than the fill", e["where"][:1])
        for e2, q2 in evs[:i]: u.require("C07", "once", NOT(AND(e["g"], e2["g"])), "transfers more than once", e["where"][:1])
@rule("C08")
def c08(u, s):
    a = S.accrue(u, "mining")
    u.require("C08", "no-delegated-stake", eqn(u.init("mining", "stake_from_others"), num(0)), "closes a mining that still carries delegated stake")
    u.require("C08", "nothing-unclaimed", eqn(a["unclaimed_rewards"], num(0)), "closes a mining that still has accrued rewards")
    u.same("C08", "lamports.mining", u.lam("mining"), num(0), "leaves lamports in the closed mining", where_lam(u, "mining"))
    u.same("C08", "lamports.target", u.lam("target"), add(u.lam0("target"), u.lam0("mining")), "does not move exactly the mining's lamports to the target", where_lam(u, "target"))
    fills = [e for e in u.I.events if e["k"] == "fill" and e["acct"] == u.idx["mining"]]
    w = [e["where"][0] for e in fills] or u.anchor()
    v = u.view("mining")
    ends = [(pconst(e["start"]) if isinstance(e["start"], Poly) else None, pconst(e["n"]) if isinstance(e["n"], Poly) else None, e) for e in fills if AND(u.ok, e["g"]) is not FALSE]
    if ends and all(a is not None and (a > 0 or n is not None) for a, n, _ in ends):
        got = set()
        for a, n, _ in ends: got |= set(range(a, MINING_LEN if n is None else a + n))
        if not set(range(MINING_LEN)) <= got: u.ob("C08", "wiped.all", "violated", "wipes only a part of the closed account's data", w)
        else: u.ob("C08", "wiped.all", "proved")
    for i, f in enumerate(MINING):
        if f == "data":
            d = expand(u, v.f[i]) if isinstance(v, Agg) else None
            if isinstance(d, Agg): u.same("C08", "wiped.type", d.f[0], num(0), "leaves the closed account marked as a mining", w)
            else: u.ob("C08", "wiped.type", "undecided", "type byte not derived", w)
            continue
        x = u.fin("mining", f)
        z = kc(SYSTEM) if f in ("reward_pool", "owner") else None if f == "reward_mint" else num(0)
        if z is not None: u.same("C08", "wiped." + f, x, z, "leaves %s in the closed account" % FIELD.get(f, f.replace("_", " ")), w)
    u.same("C08", "wiped.tree", u.mapf("mining", MDIFF), leaf(maps.EMPTY), "leaves scheduled decays in the closed account", w)
def where_lam(u, r):
    out = []
    for e in u.I.events:
        if e["k"] == "write" and e["base"] == ("lam", u.idx[r]) and e["where"]: out.append(e["where"][0])
    return out or u.anchor()

@rule("C15")
def c15(u, s):
    keys = {("mining", f) for f in ("share", "diffs", "unclaimed_rewards", "index_with_precision")} | {("pool", f) for f in ("total_share", "diffs")}
    slice_check(u, s, "C15", keys, "the penalty is not what was ordered")
    amt = u.arg("multiplied" if u.instr == "Slash" else "amount")
    a = S.accrue(u, "mining")
    u.require("C15", "bounded", ite(eqn(amt, num(0)), TRUE, NOT(ap1(LT0, sub(a["share"], amt)))), "a penalty may exceed the mining's weight")
    if u.instr == "Slash":
        q = ite(s.slash_some, AND(maps.HAS(maps.PRUNE(leaf(u.map0("mining", MDIFF)), u.due), leaf(s.slash_day)), maps.HAS(maps.PRUNE(leaf(u.map0("pool", PDIFF)), u.due), leaf(s.slash_day))), TRUE)
        u.require("C15", "record-exists", q, "reduces a decay record that does not exist")
        u.require("C15", "diff-bounded", ite(s.slash_some, NOT(ap1(LT0, sub(amt, u.arg("native")))), TRUE), "accepts a native amount above the weighted one")
    else:
        u.same("C15", "pool.total_share", u.fin("pool", "total_share"), u.init("pool", "total_share"), "a reward penalty changes the pool's total weight", u.where_writes("pool", 0, POOL.index("total_share")))
        penalty_walk(u, amt)

def penalty_walk(u, amt):
    """the reduction is taken out of the scheduled decays from the latest date backwards, never below zero"""
    M = maps.PRUNE(leaf(u.map0("mining", MDIFF)), u.due)
    m = M.val
    zero = eqn(amt, num(0))
    W = u.where_writes("mining", MDIFF)
    got = u.mapf("mining", MDIFF)
    # reference: walk backwards; entry < rest -> zero it and carry the remainder; otherwise subtract and stop
    ph, mp = ps(term("phi", "c", 0, nn=True)), term("mphi", "c", 0)
    a = amt.val
    stop = NOT(LT0(psub(ps(EV), ph)))
    key = term("abn", m, TRUE, "b", (amt,), (leaf(psub(ph, ps(EV))),), stop)
    mx = leaf(term("mfold", "x", term("foldx", key, (leaf(m),), (leaf(term("set", mp, ps(EK), pc(0))),), leaf(mp), nn=True)))
    rest = leaf(ps(term("foldx", key, (amt,), (leaf(psub(ph, ps(EV))),), leaf(ph), nn=True)))
    xk = leaf(ps(term("exk", key, nn=True)))
    hit = maps.SET(mx, xk, sub(maps.VV(mx, xk), rest))
    full = leaf(term("mfold", m, TRUE, "b", (leaf(m),), (leaf(term("set", mp, ps(EK), pc(0))),)))
    want = ite(zero, M, ite(BOOL(key), hit, full))
    c = eqn(simp(got, u.ok), simp(want, u.ok))
    # taking nothing leaves every record as it is, with or without the walk
    c = OR(c, AND(zero, eqn(simp(got, u.ok), simp(ite(BOOL(key), hit, full), u.ok))))
    c = simp(c, u.ok)
    if c is TRUE or entail(c, u.ok) is TRUE:
        u.ob("C15", "walk", "proved"); return
    # otherwise judge the loop itself
    loops_ = [l for l in u.I.loopinfo if "cells" in l and any(x[2] == "map" and x[0] == u.base("mining", MDIFF) for x in l["cells"]) and l.get("M") is not None]
    if not loops_:
        if got is simp(M, u.ok) or simp(got, u.ok) is simp(M, u.ok):
            u.ob("C15", "walk", "violated", "the reduction leaves the scheduled decays as they were", W or u.anchor()); return
        u.ob("C15", "walk", "undecided", "the walk over the scheduled decays was not recognised", W or u.anchor()); return
    l = loops_[-1]
    w = l["where"][:1] or W
    ints = [x for x in l["cells"] if x[2] == "int" and not (x[1] and str(x[1][0]).startswith("#"))]
    mc = [x for x in l["cells"] if x[2] == "map"]
    if l["dir"] != "b": u.ob("C15", "walk", "violated", "the reduction is taken from the earliest scheduled decay instead of the latest", w); return
    if len(ints) != 1 or len(mc) != 1: u.ob("C15", "walk", "undecided", "the walk carries other values than the remainder", w); return
    if not (isinstance(ints[0][4], N) and eqn(simp(ints[0][4], u.ok), amt) is TRUE):
        u.ob("C15", "walk", "violated", "the walk does not start from the ordered reduction", w); return
    rem, mphi = ints[0][3], mc[0][3]
    remn = leaf(rem) if isinstance(rem, Poly) else leaf(ps(rem)) if isinstance(rem, T) else rem
    ev = leaf(ps(EV))
    less = ap1(LT0, sub(ev, remn))
    take = ite(less, ev, remn)
    exitg = FALSE
    for g in l["data"].values(): exitg = OR(exitg, g)
    cont = NOT(exitg)
    ok = TRUE
    step = mc[0][5]; rstep = ints[0][5]
    def mstep(t):
        if isinstance(t, T) and t.op == "set" and t.args[1] is ps(EK): return leaf(t.args[2]) if isinstance(t.args[2], Poly) else t.args[2]
        if isinstance(t, T) and t.op == "mphi": return ev
        return leaf(term("top", "mstep"))
    newv = ap1(mstep, step)
    c1 = simp(eqn(simp(newv, cont), simp(sub(ev, take), cont)), cont)
    c2 = simp(eqn(simp(rstep, cont), simp(sub(remn, take), cont)), cont)
    c1 = entail(c1, cont); c2 = entail(c2, cont)
    if is_top(c1) or is_top(c2): u.ob("C15", "walk", "undecided", "the walk's step was not derived", w); return
    if not void(AND(cont, NOT(c1))) or not void(AND(cont, NOT(c2))):
        u.ob("C15", "walk", "violated", "a step of the walk does not take the smaller of the record and the remainder", w); return
    # stopping is only right where the record covers what is left
    if not void(AND(exitg, less)):
        u.ob("C15", "walk", "violated", "the walk stops at a record smaller than what is left to take", w); return
    ends = [x for x in collect_atoms(got) if x.kind == "B" and isinstance(x.a, T) and x.a.op == "abn"]
    if any(x.a is key for x in ends):
        u.ob("C15", "walk", "violated", "the record at which the walk stops is not reduced by exactly the remainder", W or w); return
    g = simp(simp(got, u.ok), NOT(zero))
    ends = [x for x in collect_atoms(g) if x.kind == "B" and isinstance(x.a, T) and x.a.op == "abn"]
    if len(ends) == 1 and len(ends[0].a.args[3]) == 1:
        k = ends[0].a
        st, go = cof(g, ends[0], True), cof(g, ends[0], False)
        st, go = (x.val if isinstance(x, N) and x.var is None else None for x in (st, go))
        rest = leaf(ps(term("foldx", k, k.args[3], k.args[4], leaf(rem if isinstance(rem, Poly) else ps(rem)), nn=True)))
        own = isinstance(st, T) and st.op == "set" and isinstance(st.args[0], T) and st.args[0].op == "mfold" and isinstance(st.args[0].args[1], T) and st.args[0].args[1].op == "foldx" and st.args[0].args[1].args[0] is k
        if own and isinstance(go, T) and go.op == "mfold" and go.args[0] is k.args[0]:
            xk = leaf(ps(term("exk", k, nn=True)))
            if eqn(leaf(st), maps.SET(leaf(st.args[0]), xk, sub(maps.VV(leaf(st.args[0]), xk), rest))) is TRUE:
                u.ob("C15", "walk", "proved"); return
    u.ob("C15", "walk", "undecided", "the walk's last step was not recognised", w)

# ------------------------------------------------------------------ arithmetic, errors, frame
@rule("C09")
def c09(u, s):
    if u.instr != "CloseMining": slice_check(u, s, "C09", set(s.v), "a stored amount is not the exact integer result of its formula (wrapped, saturated, truncated or computed otherwise)")
    NUM = {"mining": ("index_with_precision", "share", "unclaimed_rewards", "stake_from_others"), "pool": ("index_with_precision", "total_share", "distribution_ends_at", "tokens_available_for_distribution")}
    for r in u.idx:
        k = "pool" if r == "pool" else "mining" if r in ("mining", "delegate", "old_delegate", "new_delegate") else None
        if k is None or u.view(r) is None: continue
        for f in NUM[k]:
            if (r, f) not in s.v: continue
            lossy(u, "C09", "%s.%s" % (r, f), simp(u.fin(r, f), u.ok), u.where_writes(r, 0, u.names_of(r).index(f)))
LOSSY = {"wrap", "trunc"}
def lossy(u, prop, name, x, where):
    """no reduced-modulo-2^n result takes part in a stored number"""
    seen = set()
    def has(t):
        if id(t) in seen: return False
        seen.add(id(t))
        if isinstance(t, T): return t.op in LOSSY or any(has(a) for a in t.args)
        if isinstance(t, Poly): return any(has(terms._TL[i]) for m in t.m for i in m)
        if isinstance(t, tuple): return any(has(a) for a in t)
        if isinstance(t, N):
            if t.var is None: return has(t.val)
            return has(t.hi) or has(t.lo)
        return False
    if has(x): u.ob(prop, name + ".exact", "violated", "the stored %s can be a result reduced modulo a power of two" % FIELD.get(name.split(".")[1], name), where or u.anchor())
    else: u.ob(prop, name + ".exact", "proved")
@rule("C10")
def c10(u, s):
    for e, q in cpi_events(u):
        u.require("C10", "call%d" % e["n"], ite(e["g"], e["ok"], TRUE), "ignores the failure of a call to another program", e["where"][:1])
    n = 0
    for e in u.I.events:
        if e["k"] == "insert" and AND(u.ok, e["g"]) is not FALSE:
            n += 1
            u.require("C10", "insert%d" % n, ite(e["g"], e["ok"], TRUE), "ignores that a record did not fit into the account's tree", e["where"][:1])
    q = BOOL(term("clock_ok"))
    if any(a.kind == "B" and a.a is term("clock_ok") for a in collect_atoms(u.ok)): u.require("C10", "clock", q, "continues without the clock")
    u.ob("C10", "reached", "proved" if u.ok is not FALSE else "vacuous")
@rule("C14")
def c14(u, s):
    touched = set()
    if u.st is None: return
    roles = {i: r for r, i in u.idx.items()}
    for b in u.st.mem:
        if b[0] == "lam":
            if u.instr == "CloseMining" and roles.get(b[1]) in ("mining", "target"): continue
            r = roles.get(b[1], "account %d" % b[1])
            x = u.st.mem[b]
            u.same("C14", "lamports.%s" % r, x, leaf(ps(term("lam", b[1], nn=True, meta={"max": U64MAX}))), "lamports of the %s account change" % r, lamw(u, b))
        elif b[0] == "view":
            r = roles.get(b[1])
            if r is None:
                frame_view(u, b, "account %d" % b[1]); continue
            if u.instr == "CloseMining" and r == "mining": continue
            if s.__dict__.get("new") == r: continue
            if r not in ("pool",) + tuple(S.minings(u)): frame_view(u, b, r); continue
            if b[2] == 0:
                v = u.view(r)
                if not isinstance(v, Agg): u.ob("C14", r + ".record", "undecided", "record not derived", u.anchor()); continue
                for i, f in enumerate(u.names_of(r)):
                    if (r, f) in s.v: continue
                    if f == "data":
                        d = expand(u, v.f[i]); o = expand(u, u.I.expand(Sym_(u.I.base_ty[b], term("acc", b[1], 0))).f[i])
                        if isinstance(d, Agg) and isinstance(o, Agg) and len(d.f) == len(o.f):
                            for j, (x, y) in enumerate(zip(d.f, o.f)):
                                u.same("C14", "%s.type%d" % (r, j), expand(u, x), expand(u, y), "the %s's account-type marker changes" % r, u.where_writes(r, 0, i))
                        continue
                    u.same("C14", "%s.%s" % (r, f), u.fin(r, f), u.init(r, f), "%s of the %s must not change here" % (FIELD.get(f, f.replace("_", " ")), r.replace("_", " ")), u.where_writes(r, 0, i))
            else:
                w = "history" if (r == "pool" and b[2] == HIST) else "diffs"
                if (r, w) in s.v: continue
                u.same("C14", "%s.%s" % (r, w), u.mapf(r, b[2]), leaf(u.map0(r, b[2])), "%s of the %s must not change here" % (FIELD[w], r.replace("_", " ")), u.where_writes(r, b[2]))
    for e in u.I.events:
        if e["k"] == "fill" and AND(u.ok, e["g"]) is not FALSE and not (u.instr == "CloseMining" and e["acct"] == u.idx["mining"]):
            u.ob("C14", "fill.%s" % roles.get(e["acct"], e["acct"]), "violated", "overwrites the data of the %s account" % roles.get(e["acct"], e["acct"]), e["where"][:1])
        if e["k"] == "wild": u.ob("C14", "wild", "undecided", "a write through an unresolved reference", e["where"][:1])
    u.ob("C14", "frame", "proved" if u.ok is not FALSE else "vacuous")
def lamw(u, b): return [e["where"][0] for e in u.I.events if e["k"] == "write" and e["base"] == b and e["where"]] or u.anchor()
def frame_view(u, b, r, prop="C14", msg=None):
    msg = msg or "the data of the %s account changes" % r
    v = u.st.mem[b]
    w = [e["where"][0] for e in u.I.events if e["k"] == "write" and e["base"] == b and e["where"]] or u.anchor()
    if isinstance(v, Sym): return
    if isinstance(v, N):
        u.same(prop, "%s@%d" % (r, b[2]), v, leaf(term("m0", term("acc", b[1], b[2]))), msg, w); return
    o = u.I.expand(Sym_(u.I.base_ty[b], term("acc", b[1], b[2])))
    def walk(x, y, p):
        x, y = expand(u, x), expand(u, y)
        if isinstance(x, Agg) and isinstance(y, Agg):
            for i, (a, c) in enumerate(zip(x.f, y.f)): walk(a, c, p + (i,))
        elif isinstance(x, N) and isinstance(y, N): u.same(prop, "%s%s" % (r, p), x, y, msg, w)
    walk(v, o, ())

# ------------------------------------------------------------------ the published account list
@rule("I02")
def i02(u, s):
    """what a successful run needs from its accounts is what callers are told to pass"""
    if u.ok is FALSE: u.ob("I02", "published", "vacuous"); return
    acc = F.ACCOUNTS[u.instr]
    lits = forced(u.ok)
    for i, (name, sg, wr) in enumerate(acc):
        bad = not sg and any(v is True and a.kind == "B" and isinstance(a.a, T) and a.a.op == "signer" and a.a.args[0] == i for a, v in lits.items())
        u.ob("I02", name + ".signer", "violated" if bad else "proved", "requires the signature of %s, which the published account list does not ask for" % name if bad else "", u.anchor())
        if wr is True: continue
        for b in u.st.mem:
            if b[0] == "lam" and b[1] == i: u.same("I02", "lamports." + name, u.st.mem[b], leaf(ps(term("lam", i, nn=True, meta={"max": U64MAX}))), "changes the lamports of %s, published as read-only" % name, lamw(u, b))
            elif b[0] == "view" and b[1] == i: frame_view(u, b, name, "I02", "changes the data of %s, published as read-only" % name)
    for e, q in cpi_events(u):
        for t in leaves(e["ix"]):
            if not isinstance(t, T) or t.op != "ix": continue
            nm = str(t.args[0])
            pos = (0, 1) if nm.endswith("create_account") else (1, 2) if nm.endswith("token::instruction::transfer") or nm.endswith("::transfer") and "spl_token" in nm else (1,) if "initialize_account" in nm else ()
            for k in pos:
                x = t.args[1 + k]
                for y in leaves(x) if isinstance(x, N) else [x]:
                    if isinstance(y, T) and y.op == "key" and y.args[0] < len(acc) and acc[y.args[0]][2] is not True:
                        u.ob("I02", "call.%s" % acc[y.args[0]][0], "violated", "lets a called program write %s, published as read-only" % acc[y.args[0]][0], e["where"][:1])
    n = subst(u.ok, {term("naccts"): pc(len(acc))})
    u.ob("I02", "count", "violated" if n is FALSE else "undecided" if is_top(n) else "proved", "cannot succeed with the %d published accounts" % len(acc) if n is FALSE else "", u.anchor())

# ------------------------------------------------------------------ availability
def borrow_trouble(u):
    """the call or borrow that always fails because of a guard that is still held: (what, where) or None"""
    for e in u.I.events:
        if e["k"] == "cpi" and e.get("held") is not None and AND(e["g"], e["held"]) is not FALSE: return "calls another program while an account it passes on is still borrowed", e["where"][:1]
        if e["k"] == "panic" and e["msg"] == "already borrowed" and e["g"] is not FALSE: return "borrows an account that is still borrowed", e["where"][:1]
@rule("L01")
def l01(u, s):
    if not may_succeed(u.instr, u.part):
        u.ob("L01", "accepts", "proved"); return
    if u.ok is FALSE:
        if u.R.ret is None or u.I.giveups: u.ob("L01", "accepts", "undecided", "no successful return was derived", u.anchor())
        else:
            b = borrow_trouble(u)
            u.ob("L01", "accepts", "violated", "no input makes this operation succeed" + (": it " + b[0] if b else ""), b[1] if b else u.anchor())
        return
    u.ob("L01", "accepts", "proved")
    ok = u.ok
    for ix in sorted(ok._sup, reverse=True):
        if ix not in ok._sup: continue
        a = terms._AL[ix]
        hi, lo = cof(ok, a, True), cof(ok, a, False)
        if AND(lo, NOT(hi)) is FALSE: v = True
        elif AND(hi, NOT(lo)) is FALSE: v = False
        else: continue                                  # picks a case, refuses nothing by itself
        st = refusal(u, s, a, v)
        if st is not None:
            ok = hi if v else lo
            u.ob("L01", st, "proved")
    docs = TRUE
    for _, c in documented(u, s): docs = AND(docs, c)
    rest = entail(ok, docs)
    if rest is TRUE: u.ob("L01", "only-documented", "proved"); return
    if is_top(rest): u.ob("L01", "only-documented", "undecided", "a refusal condition was not derived", u.anchor()); return
    b = borrow_trouble(u)
    if b: u.ob("L01", "only-documented", "violated", "refuses inputs it should accept: it " + b[0], b[1]); return
    f = ["%s%r" % ("" if v else "not ", a) for a, v in forced(rest).items()] or [repr(terms._AL[i]) for i in sorted(rest._sup)]
    u.ob("L01", "only-documented", "violated", "refuses an input for an undocumented reason; success also depends on: %s" % "; ".join(f)[:300], u.anchor())
FREE = {"fresh", "decode_ok", "clock_ok", "rent_ok", "pda_ok", "cpi_ok", "spl_ok", "spl_init", "abn", "has", "full", "found", "allbytes", "signer"}
def refusal(u, s, a, v):
    """the documented reason behind a condition every success needs, or None"""
    if a.kind == "EQT": return "identity"
    if a.kind == "B":
        op = a.a.op if isinstance(a.a, T) else None
        if op == "signer":
            r = {i: r for r, i in u.idx.items()}.get(a.a.args[0])
            return "signature" if r in ("deposit_authority", "owner", "fill_authority", "distribute_authority", "payer") else None
        if op == "allbytes": return "uninitialised" if u.instr in ("InitializePool", "InitializeMining") else None
        return "resource:" + op if op in FREE else None
    if a.kind == "OVF": return "representable"
    p = a.a
    if not isinstance(p, Poly): return None
    syms = {terms._TL[x].op for m in p.m for x in m}
    if syms <= {"naccts"}:
        if a.kind == "EQ0": return "accounts" if v is False and 0 <= -p.m.get((), 0) < len(u.idx) else None
        k = -p.m.get((), 0)
        return "accounts" if v is False and k <= len(u.idx) else None
    if syms <= {"dlen"}:
        return "account size"
    lit = node(a, TRUE, FALSE); lit = lit if v else NOT(lit)
    for nm, c in documented(u, s):
        if simp(c, NOT(lit)) is FALSE and not is_top(c): pass
        if simp(lit, c) is TRUE: return nm
    if a.ix in terms.ARITH: return "representable"
    return None
def documented(u, s):
    """conditions the documentation gives for accepting the operation; each literal of success may rest on one of them"""
    i = u.instr
    out = []
    if i == "FillVault":
        e = u.arg("distribution_ends_at"); day = sub(e, ap1(lambda p: leaf(prem(p, DAY)), e))
        out += [("positive amount", nz(u.arg("rewards"))), ("future end", NOT(ap1(LT0, sub(day, u.D)))), ("no earlier end", NOT(ap1(LT0, sub(day, u.init("pool", "distribution_ends_at")))))]
    if i == "Slash":
        out += [("record exists", ite(s.slash_some, AND(maps.HAS(maps.PRUNE(leaf(u.map0("mining", MDIFF)), u.due), leaf(s.slash_day)), maps.HAS(maps.PRUNE(leaf(u.map0("pool", PDIFF)), u.due), leaf(s.slash_day))), TRUE))]
    if i == "DecreaseRewards":
        out += [("bounded", NOT(ap1(LT0, sub(S.accrue(u, "mining")["share"], u.arg("amount")))))]
    if i == "DistributeRewards": out += [("somebody is staked", nz(u.init("pool", "total_share"))), ("weight left", ite(s.already, TRUE, nz(s.tot)))]
    if i == "CloseMining":
        out += [("no delegated stake", eqn(u.init("mining", "stake_from_others"), num(0))), ("claimed", eqn(S.accrue(u, "mining")["unclaimed_rewards"], num(0)))]
    if i == "InitializePool": out += [("not initialised", NOT(eqn(tag_term(u, "pool"), num(1))))]
    return out

# ------------------------------------------------------------------ reported errors
def some_atom(n, test):
    """N bool: one of the atoms of n that test selects has the value test gives"""
    r = FALSE
    for ix in n._sup:
        a = terms._AL[ix]; v = test(a)
        if v is not None: lit = node(a, TRUE, FALSE); r = OR(r, lit if v else NOT(lit))
    return r
def opaque(ops, v): return lambda a: v if a.kind == "B" and isinstance(a.a, T) and a.a.op in ops else None
def owners(u):
    out = [(r, pid()) for r in ("pool", "mining", "delegate", "old_delegate", "new_delegate") if u.has(r) and not (r == "mining" and u.instr == "InitializeMining")]
    out += [(r, kc(TOKEN)) for r in ("mint", "vault", "source", "destination") if u.has(r) and not (r == "vault" and u.instr == "InitializePool")]
    return out + [("target", kc(SYSTEM))] * u.has("target")
def delegates(u):
    """(role, address condition) of the delegate minings that are checked"""
    out = []
    for r, who in (("delegate", lambda: u.arg("delegate")), ("new_delegate", lambda: u.arg("new_delegate")), ("old_delegate", lambda: u.init("old_delegate", "owner"))):
        if u.has(r) and not u.part["same"].get(("mining", r)): out.append((r, is_pda(u.key(r), (hexs("mining"), who(), u.key("pool")), u.init(r, "bump"), True)))
    return out
def identities(u):
    """every published identity of an account of this operation"""
    out = [eqn(u.key(r), kc(k)) for r, k in (("token_program", TOKEN), ("system_program", SYSTEM), ("rent", RENT)) if u.has(r)]
    if u.instr == "InitializePool":
        out += [eqn(u.key("vault"), leaf(term("fpda", (hexs("vault"), u.key("pool").val, u.key("mint").val), term("pid")))), EQ0(psub(ps(term("dlen", u.idx["pool"], nn=True, meta={"max": 2**32})), pc(POOL_LEN))), eqn(u.owner_prog("pool"), pid())]
        return out
    if u.instr == "InitializeMining":
        return out + [eqn(u.key("mining"), leaf(term("fpda", (hexs("mining"), u.arg("mining_owner").val, u.key("pool").val), term("pid"))))]
    for r in ("deposit_authority", "fill_authority", "distribute_authority"):
        if u.has(r): out.append(eqn(u.key(r), u.init("pool", r)))
    if u.has("mining"):
        who = u.key("owner") if u.has("owner") else u.arg("mining_owner")
        out += [eqn(u.init("mining", "reward_pool"), u.key("pool")), eqn(u.init("mining", "owner"), who)]
        if u.instr not in ("Claim", "CloseMining"): out.append(is_pda(u.key("mining"), (hexs("mining"), who, u.key("pool")), u.init("mining", "bump"), True))
    if u.has("vault"): out.append(is_pda(u.key("vault"), (hexs("vault"), u.key("pool"), u.key("mint")), u.init("pool", "token_account_bump"), True))
    if u.has("destination"): out += [eqn(q, u.key("owner")) for q in destination_owner(u, u.idx["destination"])]
    return out
def conj(l):
    r = TRUE
    for x in l: r = AND(r, x)
    return r
def reasons(u, s, cond):
    """error -> N bool: when that error is the truth about the inputs"""
    i = u.instr; out = {}
    names = [n for n, sg, _ in F.ACCOUNTS[i]]
    out["NotEnoughAccountKeys"] = LT0(psub(ps(term("naccts", nn=True, meta={"max": 255})), pc(len(names))))
    out["MissingRequiredSignature"] = NOT(conj(BOOL(term("signer", k)) for k, (_, sg, _) in enumerate(F.ACCOUNTS[i]) if sg))
    out["InvalidAccountOwner"] = NOT(conj(eqn(u.owner_prog(r), o) for r, o in owners(u)))
    out["InvalidArgument"] = NOT(conj(identities(u)))
    out["AccountAlreadyInitialized"] = lambda c: some_atom(c, opaque(("allbytes",), False)) if i in ("InitializePool", "InitializeMining") else FALSE
    out["AccountDataTooSmall"] = lambda c: some_atom(c, opaque(("full",), True))
    short = FALSE
    for r in ("pool", "mining", "delegate", "old_delegate", "new_delegate"):
        if u.has(r): short = OR(short, LT0(psub(ps(term("dlen", u.idx[r], nn=True, meta={"max": 2**32})), pc(POOL_LEN if r == "pool" else MINING_LEN))))
    out["RetreivingZeroCopyAccountFailire"] = short
    out["InvalidMining"] = NOT(conj(c for _, c in delegates(u))) if i in NEEDS["A05"] else FALSE
    out["DerivationError"] = (lambda c: some_atom(c, opaque(("pda_ok",), False))) if i in NEEDS["A05"] else FALSE
    out["InvalidLockupPeriod"] = TRUE if 0 in [v for k, v in u.lockup.items() if "lockup" in k] else FALSE
    out["MathOverflow"] = out["InvalidPrimitiveTypesConversion"] = None
    docs = dict(documented(u, s))
    for err, keys in (("RewardsNoDeposits", ("somebody is staked", "weight left")), ("DistributionInThePast", ("future end",)), ("RewardsMustBeClaimed", ("claimed",)), ("RewardsMustBeGreaterThanZero", ("positive amount",)),
                      ("StakeFromOthersMustBeZero", ("no delegated stake",)), ("DecreaseRewardsTooBig", ("bounded",)), ("AlreadyInitialized", ("not initialised",)), ("NoWeightedStakeModifiersAtADate", ("record exists",))):
        out[err] = NOT(conj(docs[k] for k in keys if k in docs))
    if i == "ExtendStake": out["NoWeightedStakeModifiersAtADate"] = lambda c: some_atom(c, opaque(("has",), False))
    out["DelegatesAreTheSame"] = eqn(u.key("old_delegate"), u.key("new_delegate")) if i == "ChangeDelegate" else FALSE
    return out
@rule("E01")
def e01(u, s):
    ret = u.R.ret
    ret = u.I.expand(ret) if isinstance(ret, Sym) else ret
    if not isinstance(ret, Enum) or 1 not in ret.p: u.ob("E01", "errors", "undecided", "the reported errors were not derived", u.anchor()); return
    er = expand(u, ret.p[1][0])
    bad = AND(u.R.st.pc, NOT(u.okg))
    if not isinstance(er, Enum): u.ob("E01", "errors", "undecided", "the reported errors were not derived", u.anchor()); return
    kinds = [v["n"] for v in u.d.T(u.d.find_adt("program_error::ProgramError"))["v"]]
    val = lambda n, k: ap1(lambda q: TRUE if isinstance(q, Poly) and pconst(q) == k else FALSE, n)   # what a library reports is passed on, not judged
    R = None
    for k, n in enumerate(kinds):
        c = AND(bad, val(er.d, k))
        if c is FALSE: continue
        if n != "Custom": parts = [(n, c)]
        else:
            code = er.p[k][0]
            seen = sorted({pconst(q) for q in leaves(code) if isinstance(q, Poly) and pconst(q) is not None})
            parts = [(F.ERRORS[j] if j < len(F.ERRORS) else "custom error %d" % j, AND(c, val(code, j))) for j in seen]
        for err, g in parts:
            g = library(u, g, err)
            if g is FALSE: continue
            R = R or reasons(u, s, g)
            why = R.get(err, FALSE)
            if callable(why): why = why(g)
            if why is None:
                rest = fits(u, s, g)
                if rest is not None and rest is not FALSE and not is_top(rest): rest = NOT(poly.refine(NOT(rest), TRUE))
                if rest is None: u.ob("E01", err, "vacuous"); continue
                u.ob("E01", err, "proved" if rest is FALSE else "undecided" if is_top(rest) or is_top(u.ok) else "violated", "reports %s although every number fits%s" % (err, example(rest)) if rest is not FALSE else "", u.anchor()); continue
            rest = left(why, g)
            u.ob("E01", err, "proved" if rest is FALSE else "undecided" if is_top(rest) else "violated", "" if rest is FALSE else "reports %s for inputs to which it does not apply%s" % (err, example(rest)), u.anchor())
def left(why, g):
    """where g holds and why does not"""
    w = simp(why, g)
    if w is not TRUE: w = entail(w, g)
    if w is not TRUE and not is_top(w) and not is_top(g):
        w = poly.refine(w, g)
        if w is not TRUE: return NOT(poly.refine(NOT(AND(g, NOT(w))), TRUE))
    return AND(g, NOT(w))
PASSED = {"clock_ok", "rent_ok", "cpi_ok", "spl_ok", "spl_init", "fresh", "decode_ok", "pda_ok"}
def library(u, g, err):
    """g where no called library failed: the error a library reports is passed on, not judged"""
    for ix in sorted(g._sup, reverse=True):
        if ix not in g._sup: continue
        a = terms._AL[ix]
        if a.kind != "B" or not isinstance(a.a, T): continue
        if a.top and a.a.op == "is": g = cof(g, a, False)
        elif a.a.op in PASSED and not (a.a.op == "pda_ok" and err == "DerivationError"): g = cof(g, a, True)
    return g
def example(rest):
    c = cubes(rest, lim=1)
    return "; e.g. when " + "; ".join(("" if v else "not ") + show_a(a)[:80] for a, v in c[0][-6:]) if c else ""
def fits(u, s, g):
    """g with every range check of an arithmetic result passed"""
    if u.ok is FALSE: return None
    docs = frozenset().union(*[c._sup for n, c in documented(u, s) if n != "no earlier end"])     # (that one has no error of its own)
    for ix in sorted(g._sup, reverse=True):
        if ix not in g._sup or ix not in u.ok._sup: continue
        a = terms._AL[ix]
        if a.kind == "B" and isinstance(a.a, T) and a.a.op == "abn":
            if numeric(a.a.args[5]): g = cof(g, a, False)
            continue
        if a.kind != "OVF" and ix not in terms.ARITH and (a.kind != "LT0" or ix in docs): continue     # a comparison nothing documented rests on guards a number (L01 judges that)
        hi, lo = cof(u.ok, a, True), cof(u.ok, a, False)
        if AND(lo, NOT(hi)) is FALSE: g = cof(g, a, True)
        elif AND(hi, NOT(lo)) is FALSE: g = cof(g, a, False)
        elif void(AND(lo, NOT(hi))): g = cof(g, a, True)
        elif void(AND(hi, NOT(lo))): g = cof(g, a, False)
    return g
def void(c):
    """no numbers satisfy c"""
    return c is FALSE or not is_top(c) and poly.refine(NOT(c), TRUE, 200) is TRUE
def numeric(c):
    """the condition under which a loop stops early is that some number does not fit"""
    for ix in sorted(c._sup, reverse=True):
        if ix not in c._sup: continue
        a = terms._AL[ix]
        if a.kind != "OVF" and ix not in terms.ARITH and not (a.kind == "LT0" and any(terms._TL[x].op in ("EV", "phi") for m in a.a.m for x in m)): continue
        hi, lo = cof(c, a, True), cof(c, a, False)
        if AND(hi, NOT(lo)) is FALSE: c = hi
        elif AND(lo, NOT(hi)) is FALSE: c = lo
    return c is FALSE
