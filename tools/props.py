"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; both outputs are committed)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "programs/rewards/src/"
I = P + "instructions/"
RP, MN, UT, AS, IX = P + "state/reward_pool.rs", P + "state/mining.rs", P + "utils.rs", P + "asserts.rs", P + "instruction.rs"
def proc(*n): return [I + ("penalties/" if x in ("slash", "decrease_rewards") else "") + x + ".rs" for x in n]
STK = proc("deposit_mining", "withdraw_mining", "extend_stake", "change_delegate", "slash", "decrease_rewards")
T10 = "The stable tests are ten unit tests of layouts, a lookup and one accrual example; none executes an instruction. "
PROPS = [
("A01", "Staking operations need the pool's own deposit authority", "Deposit, withdraw, extend, change-delegate, slash, decrease-rewards, claim and close succeed only when the transaction is signed by the deposit authority recorded in the very reward pool they operate on.", ["inputs"], "every account list and payload", [AS] + STK + proc("claim", "close_mining"), [("recorded authority compared", AS + ": assert_and_get_pool_and_mining"), ("signer loading", UT + ": AccountLoader::next_signer")]),
("A02", "Only the recorded authorities fill the vault or distribute", "Filling a vault succeeds only with the signature of the fill authority recorded in the pool, and distributing succeeds only with the signature of the distribute authority recorded in the pool.", ["inputs"], "every account list and payload", proc("fill_vault", "distribute_rewards"), [("authority comparison", I + "fill_vault.rs: process_fill_vault"), ("authority comparison", I + "distribute_rewards.rs: process_distribute_rewards")]),
("A03", "Claim, close and re-delegation need the mining owner's signature", "Claiming rewards, closing a mining and changing its delegate succeed only when the owner recorded in that mining has signed the transaction.", ["inputs"], "every account list and payload", proc("claim", "close_mining", "change_delegate"), [("owner comparison", I + "claim.rs, close_mining.rs, change_delegate.rs")]),
("A04", "A mining is only used with its own pool and owner", "Every operation on a mining succeeds only if the mining records the given reward pool and the given owner, and, for staking and penalty operations, if its address is the one derived from that owner and pool.", ["inputs"], "every combination of mining, pool and owner accounts", [AS] + proc("claim", "close_mining"), [("binding checks", AS + ": assert_and_get_pool_and_mining"), ("binding checks", I + "claim.rs, close_mining.rs")]),
("A05", "Delegate minings are the named delegates' minings in the same pool", "When an operation touches a delegate's mining, that account must be owned by this program and its address must be derived from the named delegate (for the previous delegate: from the owner it records) and from the same reward pool.", ["inputs"], "every delegate account and delegate argument", [UT] + proc("deposit_mining", "withdraw_mining", "extend_stake", "change_delegate"), [("delegate verification", UT + ": verify_delegate_mining_address")]),
("A06", "Accounts belong to the programs they claim to", "Pools and existing minings must be owned by this program, mints, vaults and token accounts by the SPL token program, the lamport target of a close by the system program; the token program, system program and rent sysvar must be the genuine ones, and token calls go to the genuine token program.", ["inputs"], "every account list, of any owners and addresses", [UT] + STK + proc("claim", "close_mining", "fill_vault", "distribute_rewards", "initialize_pool", "initialize_mining"), [("owner/key checks", UT + ": AccountLoader")]),
("A07", "Reward tokens only move through the pool's own vault", "The vault is always the address derived from the pool and the reward mint: pool initialisation records that mint and bump, fills pay from the given source into it, and claims pay from it to a token account whose owner is the claiming mining's owner.", ["inputs"], "every vault, source and destination account", proc("initialize_pool", "fill_vault", "claim"), [("vault derivation", I + "claim.rs, fill_vault.rs, initialize_pool.rs"), ("destination owner check", I + "claim.rs")]),
("A08", "Initialisation happens once and records exactly the given configuration", "Pool initialisation requires the deposit authority's and the payer's signatures and an account of the right size that is not yet an initialised pool, creates and initialises the vault under the deposit authority, and records the given authorities and mint with everything else zero; mining initialisation requires the payer's signature, creates the derived account and records its pool, owner and bump with everything else zero and no scheduled decays.", ["inputs"], "every account list and payload", proc("initialize_pool", "initialize_mining") + [RP, MN], [("initial records", RP + ": RewardPool::initialize; " + MN + ": Mining::initialize")]),
("C01", "Rewards already earned are settled before a stake changes", "Before any deposit, withdrawal, extension, change of delegate, slash or reward decrease alters a mining's own or delegated stake, that mining is credited with its rewards up to now computed on the stake it held until then, and its checkpoint moves to the newest index; this applies to the owner's mining and to every delegate's mining whose stake changes.", ["inputs", "histories"], "every state of the accounts, every clock value, every order of operations", [RP, MN], [("settlement", MN + ": WrappedMining::refresh_rewards"), ("order of settlement and change", RP + ": deposit, withdraw, extend, change_delegate")]),
("C02", "The pool's total weight follows the minings' weights exactly", "Deposit, withdraw, extend, change-delegate and slash change the pool's total weight by exactly the sum of the changes they make to the own weights and delegated stakes of the minings involved (decays that became due aside, which leave both sides by their scheduled amounts).", ["inputs", "histories"], "every amount, lockup, delegate and account state", [RP], [("paired updates", RP + ": deposit, withdraw, slash, extend, change_delegate")]),
("C03", "A lockup's decay is scheduled equally in the pool and the mining", "The weight a stake loses when its lockup ends is scheduled on the same day-aligned expiry date and with the same amount in the mining and in the pool; extending an unexpired stake removes the old schedule from both, slashing with an expiry date reduces both, and nothing else changes the schedules.", ["inputs", "histories"], "every amount, lockup pair, start time and clock value", [RP], [("schedules", RP + ": deposit, extend, slash, modify_weighted_stake_diffs")]),
("C04", "Due decays are applied once, oldest first, and only when due", "When a mining is settled, every scheduled decay dated up to the start of the current day, and no later one, is subtracted from its weight and removed from its schedule; withdrawals, slashes and distributions do the same for the pool's total weight and schedule.", ["inputs", "histories"], "every schedule and clock value", [RP, MN], [("decay walks", MN + ": Mining::consume_old_modifiers; " + RP + ": WrappedRewardPool::consume_old_modifiers")]),
("C05", "A distribution advances the index exactly once per day", "A distribution first applies the decays that are due, then, if none took place that day, raises the index by the day's rewards (scaled by the fixed precision) divided by the total weight, records the new index under that day and reduces the distributable budget by those rewards; a second distribution on the same day changes neither index, history nor budget, and distributing with a zero total weight is refused.", ["inputs", "histories"], "every pool state and clock value", [RP] + proc("distribute_rewards"), [("distribution", RP + ": distribute, update_index")]),
("C06", "A claim pays exactly the accrued rewards, once", "A successful claim transfers exactly the rewards accrued up to now (nothing when they are zero) from the vault to the owner's token account, sets the mining's accrued rewards to zero, and reports the paid amount as its little-endian 64-bit return data.", ["inputs", "histories"], "every mining and pool state, every clock value", proc("claim") + [MN], [("payout", I + "claim.rs: process_claim")]),
("C07", "A fill credits exactly what it transfers and only moves the end forward", "A successful fill transfers exactly the stated positive amount from the source to the vault and adds exactly it to the distributable budget; the distribution end becomes the start of the stated day, which must be neither before today nor before the previous end.", ["inputs", "histories"], "every amount, end date, pool state and clock value", proc("fill_vault"), [("fill", I + "fill_vault.rs: process_fill_vault")]),
("C08", "Closing needs an empty mining and returns all its lamports", "A mining is closed only when nobody delegates stake to it and, after settling up to now, it has no unclaimed rewards; closing moves exactly its lamports to the target, leaves it with none and wipes its data.", ["inputs", "histories"], "every mining state, lamport balance and clock value", proc("close_mining"), [("close", I + "close_mining.rs: process_close_mining")]),
("C09", "Stored amounts are exact: arithmetic never wraps, saturates or truncates", "Whenever an operation succeeds, every amount, weight and index it stores is the exact integer result of its formula: an addition, subtraction, multiplication or conversion that does not fit fails the operation instead of wrapping, saturating or truncating, also in release builds.", ["inputs"], "every 64-bit amount and account state", [UT, RP, MN, "Cargo.toml"], [("checked arithmetic", UT + ": SafeArithmeticOperations"), ("overflow checks in release", "Cargo.toml: profile.release")]),
("C10", "No failed sub-step is swallowed", "An operation succeeds only if every call it made to another program succeeded and every record it had to add to an account's ordered store was actually added; otherwise it fails and changes nothing.", ["inputs", "fault_sequences"], "every failing transfer, account creation and full store", [RP] + proc("claim", "fill_vault", "initialize_pool", "initialize_mining"), [("error propagation", RP + ": deposit, update_index; " + UT + ": spl_transfer, create_account, initialize_account")]),
("C12", "Weights and expiry dates follow the lockup table", "A stake weighs its amount times 1, 2, 4 or 6 for the flexible, three-month, six-month and one-year lockups and decays to its plain amount 5, 90, 180 or 365 whole days after the start of the day it was locked (or extended); the 'none' lockup is always refused.", ["inputs"], "every amount, lockup kind and clock value", [UT, RP], [("table", UT + ": LockupPeriod")]),
("C13", "Accrued rewards are stake times index growth, day by day", "Settling a mining credits, for each interval between consecutive due decay dates and finally up to now, the floor of (growth of the pool's index over that interval times the mining's own plus delegated weight in it, divided by the fixed precision), where the index at a date is the newest one recorded strictly before it.", ["inputs", "histories"], "every index history, schedule, weight and clock value", [MN, P + "state/mod.rs"], [("accrual", MN + ": refresh_rewards, consume_old_modifiers, update_index"), ("index lookup", P + "state/mod.rs: find_max_value_limited_by_key")]),
("C14", "Operations change only what they are about", "No operation changes authorities, owners, recorded pools, mints, bumps or account types after initialisation; only a distribution changes the index and its history, only a distribution or a fill changes the budget, only a fill changes the end date, only a close moves lamports or wipes data, and no operation changes any other account.", ["inputs", "histories"], "every operation on every state", [RP, MN] + proc("initialize_pool"), [("writes", RP + ", " + MN)]),
("C15", "Penalties remove exactly what was ordered and never more than there is", "A slash removes exactly the ordered weighted amount from the mining's weight and from the pool's total, and, when an expiry date is given, exactly weighted minus native amount from that day's existing schedule on both sides; a reward decrease removes exactly the ordered weight from the mining only (refused when larger than its weight), taking it out of its scheduled decays from the latest backwards without any going below zero.", ["inputs", "histories"], "every penalty amount, expiry date and schedule", [RP, MN] + proc("slash", "decrease_rewards"), [("slash", RP + ": slash"), ("reward decrease", MN + ": decrease_rewards")]),
("C16", "Delegated stake moves by exactly the staked amount", "Deposits, withdrawals and extensions naming another delegate change that delegate's delegated stake by exactly the unweighted amount; changing delegate takes exactly the staked amount from the old delegate and gives exactly it to the new one (self-delegation moving nothing), leaves the owner's own weight alone, and is refused when old and new delegate are the same.", ["inputs", "histories"], "every amount and delegate, including self-delegation", [RP] + proc("change_delegate"), [("delegation", RP + ": change_delegate, deposit, withdraw, extend; " + UT + ": get_delegate_mining")]),
("C17", "A day's rewards are the budget spread over the days left", "Each day's distribution hands out the distributable budget divided by the number of whole days until the distribution end, rounded down, and the entire remaining budget once no whole day is left; it never moves the end date.", ["inputs", "histories"], "every budget, end date and clock value", [RP], [("daily rewards", RP + ": rewards_to_distribute")]),
("L01", "Valid operations are not refused for undocumented reasons", "An operation is refused only for the documented reasons (missing signatures or accounts, wrong addresses or owners, arithmetic that does not fit, full or missing records, the stated amount, date, emptiness and initialisation rules): every operation has inputs that succeed, and no success depends on any other condition on amounts, dates or balances.", ["inputs"], "every operation and partition of its inputs", [I + "mod.rs"] + STK, [("conditions", I + "*.rs")]),
("E01", "A refusal names a reason that is true", "Whenever an operation is refused, the error it reports is one whose condition really holds for that input: a missing signature, a wrong owner, a mismatching address, a missing account, an undersized, already initialised or full account, a number that does not fit, an amount, date, unclaimed-reward or delegated-stake condition, a missing expiry record, an invalid lockup, identical delegates; errors reported by a called program or library are passed on and not judged.", ["inputs", "histories"], "every refused account list, payload and stored state", proc("deposit_mining", "withdraw_mining", "extend_stake", "change_delegate", "slash", "decrease_rewards", "claim", "close_mining", "fill_vault", "distribute_rewards", "initialize_pool", "initialize_mining") + [P + "error.rs", AS, UT, RP, MN], [("refusal conditions", "every Err return of the processors and what they call"), ("error codes", "error.rs MplxRewardsError")]),
]
NA = json.load(open(os.path.join(H, "tools", "na.json"))) if os.path.exists(os.path.join(H, "tools", "na.json")) else []
IPROPS = []
ip = os.path.join(H, "tools", "iprops.py")
if os.path.exists(ip): exec(open(ip).read())
NAP = []
np_ = os.path.join(H, "tools", "naprops.py")
if os.path.exists(np_): exec(open(np_).read())
def line(p):
    i, title, st, over, txt, files, mech = p[:7]
    why = p[7] if len(p) > 7 else T10 + "The property ranges over %s, which no set of examples covers." % txt
    return {"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": txt}, "why_tests_cant": why,
            "anchors": {"files": list(dict.fromkeys(files)), "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}
def main():
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for p in PROPS + IPROPS + [x[:7] for x in NAP]: f.write(json.dumps(line(p)) + "\n")
    checks = []
    for p in PROPS + IPROPS:
        i = p[0]
        prog = not i.startswith("I")
        checks.append({"property": i, "quick_cmd": "python3 /verif/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 /verif/check.py " + i,
                       "technique": "value-numbering dataflow over MIR with rule terms per instruction" if prog else ITECH.get(i, "cross-check of derived interface facts"),
                       "level": "other", "level_note": ("Sound for the stated clause on every input under the assumptions in the evidence, where the analysis decides; what it cannot derive is reported UNDECIDED and raises no alarm."
                        if prog else "Decides agreement of the compiled program with the clients and the IDL as derived from their sources; undecided sites are listed.")})
    m = {"version": 1, "setup_cmd": "python3 /verif/build.py", "checks": checks, "not_applicable": [{"property": x[0], "reason": x[7]} for x in NAP],
         "notes": "All checks are static: they read /repo's sources and the compiler's MIR of them and never execute the program. No hooks in /repo."}
    json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
    print(len(PROPS), len(IPROPS), len(NAP))
main()
