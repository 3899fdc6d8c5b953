P = "programs/rewards/src/"
RP, MI, UT, AS, IX = P + "state/reward_pool.rs", P + "state/mining.rs", P + "utils.rs", P + "asserts.rs", P + "instructions/"
SEEDS = {}
def seed(id, prop, edits, needs, breaks, main=None, **kw): SEEDS[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, main=main, **kw)

seed("decay-due-today-kept", "C04", {RP: [("if date_to_process > &beginning_of_the_day {", "if date_to_process >= &beginning_of_the_day {")]},
 "a distribution on exactly the day a lockup expires", "the pool keeps counting a stake's bonus weight on the day it decays, so everybody else's rewards for that day are diluted", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20);
    w.fill(1_000_000, T0 + 300 * DAY).unwrap();
    w.deposit(&a, 100, LockupPeriod::ThreeMonths, &a).unwrap();
    w.days(90); w.distribute().unwrap();
    check(w.total() == 100, "the decay due on the day of the distribution was not applied to the pool");
    check(w.pool_diffs().is_empty(), "the due decay is still scheduled");
}""")
seed("late-decay-index", "C13", {MI: [("""                cumulative_index,
                *date,
                total_share,""", """                cumulative_index,
                beginning_of_the_day,
                total_share,""")]},
 "a lockup that expired several distributed days before the mining is next settled", "rewards of the days after the expiry are still computed on the boosted weight", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20); let (b, _) = w.user(21);
    w.fill(1_000_000, T0 + 200 * DAY).unwrap();
    w.deposit(&a, 100, LockupPeriod::ThreeMonths, &a).unwrap();
    w.deposit(&b, 100, LockupPeriod::Flex, &b).unwrap();
    w.days(91);
    let mut paid = 0;
    for _ in 0..5 { let b0 = w.pool_state(|p| p.pool.tokens_available_for_distribution); w.distribute().unwrap(); paid += b0 - w.pool_state(|p| p.pool.tokens_available_for_distribution); w.days(1); }
    let (x, y) = (w.claim(&a).unwrap(), w.claim(&b).unwrap());
    check(x + y <= paid, "more rewards were credited than distributed");
    check(x <= paid / 2 + 5, "an expired lockup still earned its bonus");
}""")
seed("fill-moves-end-back", "C07", {IX + "fill_vault.rs": [("""        let days_diff = distribution_ends_at_day_start
            .safe_sub(wrapped_reward_pool.pool.distribution_ends_at)?;
""", """        let days_diff = distribution_ends_at_day_start
            .saturating_sub(wrapped_reward_pool.pool.distribution_ends_at);
""")]},
 "a second fill naming an earlier end day than the first", "a fill that should be refused (its end lies before the recorded one) goes through and keeps the old end", """
fn main() {
    let mut w = World::new();
    w.fill(1000, T0 + 50 * DAY).unwrap();
    check(w.fill(1000, T0 + 10 * DAY).is_err(), "a fill with an end before the recorded end was accepted");
}""")
seed("delegate-from-self-total", "C02", {RP: [("""                .safe_add(staked_amount)?;
            self.pool.total_share = self.pool.total_share.safe_add(staked_amount)?;""", """                .safe_add(staked_amount)?;
            if old_delegate_mining.is_some() {
                self.pool.total_share = self.pool.total_share.safe_add(staked_amount)?;
            }""")]},
 "a change of delegate away from self-delegation", "the new delegate gains weight that the pool's total does not count, so later distributions hand out more than they should", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20); let (b, _) = w.user(21);
    w.deposit(&a, 100, LockupPeriod::ThreeMonths, &a).unwrap();
    w.change_delegate(&a, &a, &b, 100).unwrap();
    let s = w.share(&a) + w.share(&b) + w.others(&a) + w.others(&b);
    check(w.total() == s, "the pool's total weight differs from the minings' weights");
}""")
seed("claim-foreign-mining", "A03", {IX + "claim.rs": [("            assert_account_key(mining_owner, &wrapped_mining.mining.owner)?;\n", "")]},
 "a claim whose mining belongs to somebody else than the signing owner", "anyone co-signed by the deposit authority can claim another owner's rewards to their own account", """
fn main() {
    let mut w = World::new(); let (a, am) = w.user(20); let (b, _) = w.user(21);
    w.fill(1_000_000, T0 + 100 * DAY).unwrap();
    w.deposit(&a, 100, LockupPeriod::ThreeMonths, &a).unwrap();
    w.days(1); w.distribute().unwrap(); w.days(1);
    let wal = w.wallet(&b);
    let ix = bld::claim(&mplx_rewards::ID, &w.pool, &w.mint, &w.vault, &am, &b, &w.auth, &wal);
    check(w.run(&ix).is_err() || w.balance(&wal) == 0, "b claimed a's rewards");
}""")
seed("close-before-settling", "C08", {IX + "close_mining.rs": [("""        wrapped_mining.refresh_rewards(wrapped_reward_pool.cumulative_index)?;

        if wrapped_mining.mining.stake_from_others > 0 {
            return Err(MplxRewardsError::StakeFromOthersMustBeZero.into());
        }
        if wrapped_mining.mining.unclaimed_rewards != 0 {
            return Err(MplxRewardsError::RewardsMustBeClaimed.into());
        }""", """        if wrapped_mining.mining.stake_from_others > 0 {
            return Err(MplxRewardsError::StakeFromOthersMustBeZero.into());
        }
        if wrapped_mining.mining.unclaimed_rewards != 0 {
            return Err(MplxRewardsError::RewardsMustBeClaimed.into());
        }
        wrapped_mining.refresh_rewards(wrapped_reward_pool.cumulative_index)?;""")]},
 "closing a mining that earned rewards since it was last settled", "the rewards earned since the last settlement are destroyed with the mining", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20);
    w.fill(1_000_000, T0 + 100 * DAY).unwrap();
    w.deposit(&a, 100, LockupPeriod::ThreeMonths, &a).unwrap();
    w.days(1); w.distribute().unwrap(); w.days(1);
    let p = w.payer;
    check(w.close(&a, &p).is_err(), "a mining with accrued rewards was closed");
}""")
seed("withdraw-any-delegate", "A05", {IX + "withdraw_mining.rs": [("        verify_delegate_mining_address(program_id, delegate_mining, delegate, reward_pool.key)?", """        if delegate != mining_owner {
            verify_delegate_mining_address(program_id, delegate_mining, delegate, reward_pool.key)?
        }""")]},
 "a withdrawal that names its owner as delegate but passes somebody else's mining", "delegated stake can be taken from a mining that never was the named delegate's", """
fn main() {
    let mut w = World::new(); let (a, am) = w.user(20); let (b, _) = w.user(21); let (c, cm) = w.user(22);
    w.deposit(&a, 100, LockupPeriod::Flex, &a).unwrap();
    w.deposit(&b, 100, LockupPeriod::Flex, &c).unwrap();
    let ix = bld::withdraw_mining(&mplx_rewards::ID, &w.pool, &am, &w.auth, &cm, 40, &a, &a);
    check(w.run(&ix).is_err() && w.others(&c) == 100, "a withdrawal reduced an unrelated delegate's stake");
}""")
seed("reward-cast", "C09", {MI: [("""        let rewards = u64::try_from(
            vault_index_for_date
                .safe_sub(*index_with_precision)?
                .safe_mul(u128::from(total_share))?
                .safe_div(PRECISION)?,
        )
        .map_err(|_| MplxRewardsError::InvalidPrimitiveTypesConversion)?;
""", """        let rewards = vault_index_for_date
            .safe_sub(*index_with_precision)?
            .safe_mul(u128::from(total_share))?
            .safe_div(PRECISION)? as u64;
""")]},
 "an index growth times weight above 2^64 token units", "accrued rewards are silently reduced modulo 2^64", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20); let (b, _) = w.user(21);
    w.deposit(&b, 1, LockupPeriod::Flex, &b).unwrap();
    w.fill(1 << 59, T0).unwrap();
    w.days(1); w.distribute().unwrap();
    w.mining_state(&a, |m| m.mining.share = 64);
    w.days(1);
    check(w.deposit(&a, 1, LockupPeriod::Flex, &a).is_err(), "a reward that does not fit in 64 bits was stored truncated");
}""")
seed("days-left-from-midnight", "C17", {RP: [("(self.distribution_ends_at.saturating_sub(get_curr_unix_ts()) / SECONDS_PER_DAY).into();", "(self.distribution_ends_at.saturating_sub(get_curr_unix_ts() - get_curr_unix_ts() % SECONDS_PER_DAY) / SECONDS_PER_DAY).into();")]},
 "a distribution later than midnight", "the budget is spread over one day too many, so a day's rewards are too small", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20);
    w.deposit(&a, 100, LockupPeriod::Flex, &a).unwrap();
    w.fill(900, T0 + 10 * DAY).unwrap();
    w.distribute().unwrap();
    let left = w.pool_state(|p| p.pool.tokens_available_for_distribution);
    check(left == 800, "a day's rewards are not the budget divided by the whole days left");
}""")
seed("pool-fill-authority-default", "A08", {RP: [("        data[0] = account_type;\n", "        data[0] = account_type;\n        let distribute_authority = if fill_authority == deposit_authority {\n            fill_authority\n        } else {\n            distribute_authority\n        };\n")]},
 "initialising a pool whose fill authority is also its deposit authority", "the pool records another distribute authority than the one given", """
fn main() {
    let mut w = World::bare();
    w.fill = w.auth;
    w.init_pool().unwrap();
    let d = w.dist;
    check(w.pool_state(|p| p.pool.distribute_authority) == d, "the recorded distribute authority is not the one given");
}""")
seed("same-day-deposit-overwrites", "C03", {RP: [("            *modifier = modifier.safe_add(weighted_stake_diff)?;\n        } else {", "            *modifier = weighted_stake_diff.max(*modifier);\n        } else {")]},
 "two deposits with the same expiry day", "the mining's schedule holds only the larger of the two decays while the pool's holds their sum", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20);
    w.deposit(&a, 100, LockupPeriod::ThreeMonths, &a).unwrap();
    w.deposit(&a, 100, LockupPeriod::ThreeMonths, &a).unwrap();
    check(w.pool_diffs() == w.diffs(&a), "mining and pool schedules differ");
}""")
seed("claim-skips-pure-delegates", "C06", {IX + "claim.rs": [("            wrapped_mining.refresh_rewards(&*wrapped_reward_pool.cumulative_index)?;", "            if wrapped_mining.mining.share > 0 {\n                wrapped_mining.refresh_rewards(&*wrapped_reward_pool.cumulative_index)?;\n            }")]},
 "a claim by somebody who only holds stake delegated by others", "their accrued rewards are not paid", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20); let (b, _) = w.user(21);
    w.fill(1_000_000, T0 + 100 * DAY).unwrap();
    w.deposit(&a, 100, LockupPeriod::Flex, &b).unwrap();
    w.days(1); w.distribute().unwrap(); w.days(1);
    check(w.claim(&b).unwrap() > 0, "a delegate's accrued rewards were not paid");
}""")
seed("slash-pool-schedule", "C15", {RP: [("""            *diff_record = diff_record.safe_sub(diff_by_expiration_date)?;

            let diff_record = self""", """            *diff_record = diff_record.safe_sub(diff_by_expiration_date)?;

            if *diff_record == 0 {
                mining
                    .weighted_stake_diffs
                    .remove(&beginning_of_the_stake_expiration_date);
                self.weighted_stake_diffs
                    .remove(&beginning_of_the_stake_expiration_date);
                return Ok(());
            }

            let diff_record = self""")]},
 "slashing one owner's whole decay of a day on which another owner's lockup also expires", "the pool forgets the other owner's scheduled decay", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20); let (b, _) = w.user(21);
    w.deposit(&a, 100, LockupPeriod::ThreeMonths, &a).unwrap();
    w.deposit(&b, 100, LockupPeriod::ThreeMonths, &b).unwrap();
    w.slash(&a, 100, 200, Some(day_of(T0) + 90 * DAY)).unwrap();
    let p: u64 = w.pool_diffs().iter().map(|x| x.1).sum();
    let q: u64 = w.diffs(&b).iter().map(|x| x.1).sum();
    check(p == q, "the pool's schedule lost another owner's decay");
}""")
seed("year-not-day-aligned", "C12", {UT: [("LockupPeriod::OneYear => Ok(beginning_of_the_day + SECONDS_PER_DAY * 365),", "LockupPeriod::OneYear => Ok(start_ts + SECONDS_PER_DAY * 365),")]},
 "a one-year deposit that does not happen at midnight", "one-year stakes decay at an unaligned time, a day late", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20);
    w.deposit(&a, 100, LockupPeriod::OneYear, &a).unwrap();
    check(w.diffs(&a)[0].0 == day_of(T0) + 365 * DAY, "the decay is not dated 365 whole days after the start of the day");
}""")
seed("index-history-lags", "C05", {RP: [("            .insert(date_to_process, latest_index)", "            .insert(date_to_process, if index == 0 { index } else { latest_index })")]},
 "a distribution whose rewards are too small to raise the index (an exhausted budget)", "the history records zero for that day, below earlier days, so settlements fail or lose rewards", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20);
    w.deposit(&a, 100, LockupPeriod::Flex, &a).unwrap();
    w.fill(900, T0).unwrap();
    w.distribute().unwrap(); w.days(1); w.distribute().unwrap(); w.days(1);
    check(w.claim(&a).ok() == Some(900), "an accrued reward cannot be claimed after an empty distribution");
}""")
seed("fill-needs-live-schedule", "L01", {IX + "fill_vault.rs": [("        if distribution_ends_at_day_start < beginning_of_the_curr_day {", "        if distribution_ends_at_day_start < beginning_of_the_curr_day\n            || (wrapped_reward_pool.pool.distribution_ends_at != 0\n                && wrapped_reward_pool.pool.tokens_available_for_distribution == 0)\n        {")]},
 "refilling a pool after its whole budget was distributed", "valid fills of an exhausted pool are refused for good", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20);
    w.deposit(&a, 100, LockupPeriod::Flex, &a).unwrap();
    w.fill(900, T0).unwrap(); w.distribute().unwrap(); w.days(1);
    check(w.fill(900, T0 + 5 * DAY).is_ok(), "a valid fill was refused");
}""")
seed("extend-delegate-total", "C02", {RP: [("                self.pool.total_share = self.pool.total_share.safe_sub(base_amount)?;\n", "                if curr_ts < deposit_old_expiration_ts {\n                    self.pool.total_share = self.pool.total_share.safe_sub(base_amount)?;\n                }\n")]},
 "extending an already expired stake that is delegated to somebody else", "the pool's total weight counts the delegated stake twice", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20); let (b, _) = w.user(21);
    w.deposit(&a, 100, LockupPeriod::ThreeMonths, &b).unwrap();
    let t = w.now(); w.days(95);
    w.deposit(&b, 1, LockupPeriod::Flex, &b).unwrap();
    w.withdraw(&b, 1, &b).unwrap();
    w.extend(&a, LockupPeriod::ThreeMonths, LockupPeriod::SixMonths, t, 100, 0, &b).unwrap();
    let s = w.share(&a) + w.share(&b) + w.others(&a) + w.others(&b);
    check(w.total() == s, "the pool's total weight differs from the minings' weights");
}""")
seed("close-leaves-schedule", "C08", {IX + "close_mining.rs": [("    source_data.fill(0);", "    source_data[..WrappedMining::LEN / 2].fill(0);")]},
 "closing a mining that still has scheduled decays", "the closed account's schedule survives and a re-creation in the same transaction sees it", """
fn main() {
    let mut w = World::new(); let (a, am) = w.user(20);
    for _ in 0..30 { w.deposit(&a, 100, LockupPeriod::ThreeMonths, &a).unwrap(); w.days(1); }
    let p = w.payer;
    w.close(&a, &p).unwrap();
    check(w.m[&am].bytes().iter().all(|b| *b == 0), "data of a closed mining was not wiped");
}""")
seed("deposit-uses-block-clamp", "C16", {RP: [("                delegate_mining.mining.stake_from_others.safe_sub(amount)?;\n\n            self.pool.total_share = self.pool.total_share.safe_sub(amount)?;", "                delegate_mining.mining.stake_from_others.saturating_sub(amount);\n\n            self.pool.total_share = self.pool.total_share.safe_sub(amount)?;")]},
 "a withdrawal larger than the named delegate's delegated stake", "the delegate's stake stops at zero while the pool's total loses the whole amount", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20); let (b, _) = w.user(21); let (c, _) = w.user(22);
    w.deposit(&a, 100, LockupPeriod::Flex, &a).unwrap();
    w.deposit(&c, 50, LockupPeriod::Flex, &b).unwrap();
    check(w.withdraw(&a, 80, &b).is_err(), "a withdrawal took more delegated stake than the delegate has");
}""")
seed("settle-skips-weightless", "C01", {MI: [("        Mining::update_index(\n            cumulative_index,\n            curr_ts,", "        if share == 0 {\n            return Ok(());\n        }\n        Mining::update_index(\n            cumulative_index,\n            curr_ts,")]},
 "a first deposit made after rewards have been distributed to others", "the index checkpoint of a mining without weight does not move, so a later deposit earns all past rewards", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20); let (b, _) = w.user(21);
    w.fill(1_000_000, T0 + 100 * DAY).unwrap();
    w.deposit(&a, 100, LockupPeriod::Flex, &a).unwrap();
    w.days(1); w.distribute().unwrap(); w.days(1);
    w.deposit(&b, 100, LockupPeriod::Flex, &b).unwrap();
    check(w.claim(&b).unwrap() == 0, "a fresh deposit earned rewards distributed before it");
}""")
seed("pool-needs-only-owner-key", "A04", {AS: [("    assert_account_key(reward_pool, &wrapped_mining.mining.reward_pool)?;\n\n    if mining_owner != &wrapped_mining.mining.owner {", "    if wrapped_mining.mining.share > 0 {\n        assert_account_key(reward_pool, &wrapped_mining.mining.reward_pool)?;\n    }\n\n    if mining_owner != &wrapped_mining.mining.owner {")]},
 "a mining without weight whose recorded pool is another one", "a mining account is used with a pool it does not record", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20);
    w.mining_state(&a, |m| m.mining.reward_pool = k(77));
    check(w.deposit(&a, 10, LockupPeriod::Flex, &a).is_err(), "a mining that records another pool was accepted");
}""")
seed("fill-by-distributor", "A02", {IX + "fill_vault.rs": [("    assert_account_key(fill_authority, &wrapped_reward_pool.pool.fill_authority)?;", "    if *fill_authority.key != wrapped_reward_pool.pool.distribute_authority {\n        assert_account_key(fill_authority, &wrapped_reward_pool.pool.fill_authority)?;\n    }")]},
 "a fill signed by the distribute authority", "somebody other than the fill authority can move the distribution end", """
fn main() {
    let mut w = World::new();
    let ix = bld::fill_vault(&mplx_rewards::ID, &w.pool, &w.mint, &w.vault, &w.dist, &w.src, 10, T0 + DAY);
    check(w.run(&ix).is_err(), "the distribute authority filled the vault");
}""")
seed("claim-ignores-failed-transfer", "C10", {IX + "claim.rs": [("            amount,\n            &[],\n        )?;", "            amount,\n            &[],\n        )\n        .ok();")]},
 "a claim whose token transfer fails", "the accrued rewards are zeroed although nothing was paid", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20);
    w.fill(1_000_000, T0 + 100 * DAY).unwrap();
    w.deposit(&a, 100, LockupPeriod::Flex, &a).unwrap();
    w.days(1); w.distribute().unwrap(); w.days(1);
    w.wallet(&a);
    CPI_FAIL.with(|f| *f.borrow_mut() = true);
    let r = w.claim(&a);
    CPI_FAIL.with(|f| *f.borrow_mut() = false);
    check(r.is_err(), "a claim succeeded although its transfer failed");
}""")
seed("claim-holds-borrow-over-transfer", "L01", {IX + "claim.rs": [("""    {
        let mining_user_rewards =
            Account::unpack(&mining_owner_reward_token_account.data.borrow())?;
        assert_account_key(mining_owner, &mining_user_rewards.owner)?;
    }
""", """    let wallet = mining_owner_reward_token_account.data.borrow();
    assert_account_key(mining_owner, &Account::unpack(&wallet)?.owner)?;
"""), ("    let mut amount_writer = vec![];", "    drop(wallet);\n\n    let mut amount_writer = vec![];")]},
 "a claim with something to pay", "the wallet's data is still borrowed when the token program is called: every claim that has to pay is refused", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20);
    w.fill(1_000_000, T0 + 100 * DAY).unwrap();
    w.deposit(&a, 100, LockupPeriod::Flex, &a).unwrap();
    w.wallet(&a);
    check(w.claim(&a).is_ok(), "a claim of nothing was refused");
    w.days(1); w.distribute().unwrap(); w.days(1);
    check(w.claim(&a).is_ok(), "a rightful claim was refused");
}""")
seed("claim-to-anyone", "A07", {IX + "claim.rs": [("        assert_account_key(mining_owner, &mining_user_rewards.owner)?;", "        if mining_user_rewards.delegate.is_none() {\n            assert_account_key(mining_owner, &mining_user_rewards.owner)?;\n        }")]},
 "a claim to a token account that has a delegate set", "rewards are paid to a token account the mining's owner does not own", """
fn main() {
    let mut w = World::new(); let (a, am) = w.user(20); let (b, _) = w.user(21);
    w.fill(1_000_000, T0 + 100 * DAY).unwrap();
    w.deposit(&a, 100, LockupPeriod::Flex, &a).unwrap();
    w.days(1); w.distribute().unwrap(); w.days(1);
    let t = w.wallet(&b);
    w.m.get_mut(&t).unwrap().bytes_mut()[72] = 1;
    let ix = bld::claim(&mplx_rewards::ID, &w.pool, &w.mint, &w.vault, &am, &a, &w.auth, &t);
    check(w.run(&ix).is_err(), "rewards went to a token account of somebody else");
}""")
seed("extend-hands-over-mint", "C14", {RP: [("        let curr_ts = get_curr_unix_ts();\n\n        let deposit_old_expiration_ts", "        let curr_ts = get_curr_unix_ts();\n        if base_amount == 0 {\n            self.pool.distribution_ends_at = self.pool.distribution_ends_at.max(curr_ts);\n        }\n\n        let deposit_old_expiration_ts")]},
 "extending a stake with a zero base amount after the distribution has ended", "an extension moves the pool's distribution end", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20);
    w.fill(100, T0).unwrap();
    w.deposit(&a, 100, LockupPeriod::Flex, &a).unwrap();
    let e = w.pool_state(|p| p.pool.distribution_ends_at);
    let t = w.now(); w.days(10);
    w.extend(&a, LockupPeriod::Flex, LockupPeriod::SixMonths, t, 0, 5, &a).unwrap();
    check(w.pool_state(|p| p.pool.distribution_ends_at) == e, "an extension changed the distribution end");
}""")
seed("slash-unsigned", "A01", {P + "instructions/penalties/slash.rs": [("    let deposit_authority = AccountLoader::next_signer(account_info_iter)?;", "    let deposit_authority = if slash_amount_in_native == 0 {\n        AccountLoader::next_unchecked(account_info_iter)?\n    } else {\n        AccountLoader::next_signer(account_info_iter)?\n    };")]},
 "a slash of zero native tokens but a positive weighted amount", "anybody can slash a mining's weight without the deposit authority's signature", """
fn main() {
    let mut w = World::new(); let (a, am) = w.user(20);
    w.deposit(&a, 100, LockupPeriod::Flex, &a).unwrap();
    let mut ix = bld::slash(&mplx_rewards::ID, &w.auth, &w.pool, &am, &a, 0, 50, None);
    for m in ix.accounts.iter_mut() { m.is_signer = false; }
    check(w.run(&ix).is_err(), "a slash without the deposit authority's signature was accepted");
}""")
seed("claim-any-pool-owner", "A06", {IX + "fill_vault.rs": [("    let source_token_account = AccountLoader::next_with_owner(account_info_iter, &spl_token::id())?;", "    let source_token_account = AccountLoader::next_unchecked(account_info_iter)?;")]},
 "a fill whose source account is not owned by the token program", "an arbitrary account is passed to the token transfer as the source", """
fn main() {
    let mut w = World::new();
    let s = w.src; w.m.get_mut(&s).unwrap().owner = k(50);
    check(w.fill(10, T0 + DAY).is_err(), "a source that is no token account was accepted");
}""")

CR = "clients/rust/src/generated/"; CJ = "clients/js/src/generated/"
seed("slash-builder-zero-date", "I06", {CR + "instructions/slash.rs": [("""        self.stake_expiration_date = Some(stake_expiration_date);
        self
    }
    /// Add an aditional account""", """        self.stake_expiration_date = (stake_expiration_date != 0).then_some(stake_expiration_date);
        self
    }
    /// Add an aditional account""")]},
 "an expiry date of zero given to the instruction builder", "the builder drops an argument it was given: a slash with an expiry date that the program would refuse is turned into one without a date", """
use rewards::instructions::SlashBuilder;
fn main() {
    for date in [1u64, 0, 86_400] {
        let ix = SlashBuilder::new().deposit_authority(k(1)).reward_pool(k(2)).mining(k(3)).mining_owner(k(4)).slash_amount_in_native(5).slash_amount_multiplied_by_period(6).stake_expiration_date(date).instruction();
        check(ix.data.len() == 1 + 32 + 8 + 8 + 9 && ix.data[49] == 1, "the expiry date given to the builder is not in the instruction");
    }
}""", kind="client")
seed("cpi-builder-keeps-last-extras", "I06", {CR + "instructions/extend_stake.rs": [("""        self.instruction
            .__remaining_accounts
            .extend_from_slice(accounts);
        self
    }
    #[inline(always)]
    pub fn invoke(&self)""", """        self.instruction.__remaining_accounts = accounts.to_vec();
        self
    }
    #[inline(always)]
    pub fn invoke(&self)""")]},
 "extra accounts added to a CPI builder in two steps", "the extra accounts added first are lost from the call", """
use rewards::instructions::ExtendStakeCpiBuilder;
use rewards::types::LockupPeriod as L;
fn main() {
    let w = World::bare();
    let mut infos: Vec<AccountInfo<'static>> = vec![];
    for i in 0..8u8 {
        let key: &'static Pubkey = Box::leak(Box::new(k(i + 1))); let owner: &'static Pubkey = Box::leak(Box::new(k(99)));
        let l: &'static mut u64 = Box::leak(Box::new(1)); let d: &'static mut [u8] = Box::leak(vec![0u8; 1].into_boxed_slice());
        infos.push(AccountInfo { key, lamports: Rc::new(RefCell::new(l)), data: Rc::new(RefCell::new(d)), owner, rent_epoch: 0, is_signer: false, is_writable: false, executable: false });
    }
    let _ = w;
    let mut b = ExtendStakeCpiBuilder::new(&infos[0]);
    b.reward_pool(&infos[1]).mining(&infos[2]).deposit_authority(&infos[3]).delegate_mining(&infos[4]);
    b.old_lockup_period(L::Flex).new_lockup_period(L::OneYear).deposit_start_ts(1).base_amount(2).additional_amount(3).mining_owner(k(50)).delegate(k(51));
    b.add_remaining_accounts(&[(&infos[5], true, false)]);
    b.add_remaining_accounts(&[(&infos[6], false, true), (&infos[7], false, false)]);
    b.invoke().unwrap();
    let ix = CPI.with(|c| c.borrow()[0].clone());
    let got: Vec<(Pubkey, bool, bool)> = ix.accounts[4..].iter().map(|a| (a.pubkey, a.is_writable, a.is_signer)).collect();
    check(got == vec![(k(6), true, false), (k(7), false, true), (k(8), false, false)], "the call does not carry the extra accounts in the order they were added");
}""", kind="client")
seed("cpi-seeds-dropped-with-extras", "I06", {CR + "instructions/change_delegate.rs": [("""        if signers_seeds.is_empty() {
            solana_program::program::invoke(&instruction, &account_infos)""", """        if signers_seeds.is_empty() || !remaining_accounts.is_empty() {
            solana_program::program::invoke(&instruction, &account_infos)""")]},
 "a change of delegate called with signer seeds and extra accounts together", "the call goes out without the derived signatures it was asked to make", """
use rewards::instructions::{ChangeDelegateCpi, ChangeDelegateCpiAccounts, ChangeDelegateInstructionArgs};
fn main() {
    let _w = World::bare();
    let mut infos: Vec<AccountInfo<'static>> = vec![];
    for i in 0..8u8 {
        let key: &'static Pubkey = Box::leak(Box::new(k(i + 1))); let owner: &'static Pubkey = Box::leak(Box::new(k(99)));
        let l: &'static mut u64 = Box::leak(Box::new(1)); let d: &'static mut [u8] = Box::leak(vec![0u8; 1].into_boxed_slice());
        infos.push(AccountInfo { key, lamports: Rc::new(RefCell::new(l)), data: Rc::new(RefCell::new(d)), owner, rent_epoch: 0, is_signer: false, is_writable: false, executable: false });
    }
    let cpi = ChangeDelegateCpi::new(&infos[0], ChangeDelegateCpiAccounts { reward_pool: &infos[1], mining: &infos[2], deposit_authority: &infos[3], mining_owner: &infos[4], old_delegate_mining: &infos[5], new_delegate_mining: &infos[6] },
        ChangeDelegateInstructionArgs { staked_amount: 1, new_delegate: k(9) });
    let bump = Pubkey::find_program_address(&[b"x"], &mplx_rewards::ID).1;
    for extra in [vec![], vec![(&infos[7], true, false)]] {
        CPI_SEEDS.with(|c| c.borrow_mut().clear());
        cpi.invoke_signed_with_remaining_accounts(&[&[b"x", &[bump]]], &extra).unwrap();
        check(CPI_SEEDS.with(|c| c.borrow()[0].len()) == 1, "the call was made without the signer seeds it was given");
    }
}""", kind="client")
seed("pool-authorities-stored-swapped", "I04", {RP: [("""    pub deposit_authority: Pubkey,
    /// This address is responsible for distributing rewards
    pub distribute_authority: Pubkey,
    /// The address is responsible for filling vaults with money.
    pub fill_authority: Pubkey,
""", """    pub deposit_authority: Pubkey,
    /// The address is responsible for filling vaults with money.
    pub fill_authority: Pubkey,
    /// This address is responsible for distributing rewards
    pub distribute_authority: Pubkey,
""")]},
 "a pool whose fill and distribute authorities differ, read through a client", "the program keeps the two authorities in each other's bytes: it stays consistent with itself, but every client shows (and every existing pool has) the two roles exchanged", """
fn main() {
    let w = World::new();
    let p = rewards::accounts::RewardPool::from_bytes(w.m[&w.pool].bytes()).unwrap();
    check(p.deposit_authority == w.auth && p.reward_mint == w.mint, "the client reads another deposit authority or mint");
    check(p.distribute_authority == w.dist, "the client reads another distribute authority than the pool was created with");
    check(p.fill_authority == w.fill, "the client reads another fill authority than the pool was created with");
}""", kind="client")
seed("vault-seeds-reordered", "I05", {UT: [("""            "vault".as_bytes(),
            &reward_pool.to_bytes(),
            &reward_mint.to_bytes(),
""", """            "vault".as_bytes(),
            &reward_mint.to_bytes(),
            &reward_pool.to_bytes(),
""")], IX + "initialize_pool.rs": [("""        reward_pool.key.as_ref(),
        reward_mint.key.as_ref(),
        &[token""", """        reward_mint.key.as_ref(),
        reward_pool.key.as_ref(),
        &[token""")], IX + "fill_vault.rs": [("""            reward_pool.key.as_ref(),
            reward_mint.key.as_ref(),
""", """            reward_mint.key.as_ref(),
            reward_pool.key.as_ref(),
""")], IX + "claim.rs": [("""                &reward_pool.key.to_bytes(),
                &reward_mint.key.to_bytes(),
""", """                &reward_mint.key.to_bytes(),
                &reward_pool.key.to_bytes(),
""")]},
 "a vault that already exists, or a client that derives the vault itself", "the program derives its vault from the same parts in another order: it agrees with itself, but not with the published derivation and the existing vaults", """
fn main() {
    let (p, m) = (k(1), k(2));
    let want = Pubkey::find_program_address(&[b"vault", p.as_ref(), m.as_ref()], &mplx_rewards::ID);
    check(mplx_rewards::utils::find_vault_program_address(&mplx_rewards::ID, &p, &m) == want, "the vault address is not the published one");
}""")
seed("payload-trailing-bytes", "I01", {"programs/rewards/src/instructions/mod.rs": [("RewardsInstruction::try_from_slice(instruction_data)?", "RewardsInstruction::deserialize(&mut &instruction_data[..])?")]},
 "a payload with bytes behind the published encoding", "the program runs instructions whose payload is not a published encoding", """
fn main() {
    let mut w = World::new();
    let mut ix = bld::distribute_rewards(&mplx_rewards::ID, &w.pool, &w.dist);
    w.fill(1000, T0 + 10 * DAY).unwrap();
    let (a, _) = w.user(20);
    w.deposit(&a, 100, LockupPeriod::OneYear, &a).unwrap();
    ix.data.push(7);
    check(w.run(&ix).is_err(), "a payload with a trailing byte was accepted");
}""")
seed("entrypoint-forgives-full-record", "C10", {"programs/rewards/src/entrypoint.rs": [("""        error.print::<MplxRewardsError>();
        return Err(error);""", """        error.print::<MplxRewardsError>();
        // a full history is no reason to fail the caller's transaction
        if error == solana_program::program_error::ProgramError::AccountDataTooSmall {
            return Ok(());
        }
        return Err(error);""")]},
 "a distribution on a pool whose index history is full, sent to the program's entrypoint", "the entrypoint reports success for a distribution that stopped half way, so what it had already changed is kept", """
extern "C" { fn entrypoint(input: *mut u8) -> u64; }
fn main() {
    let mut w = World::new();
    let (a, _) = w.user(20);
    w.fill(1000, T0 + 10 * DAY).unwrap();
    w.deposit(&a, 100, LockupPeriod::OneYear, &a).unwrap();
    w.days(1);
    let full = w.pool_state(|p| { let mut n = 1u64; while p.cumulative_index.insert(n, 0u128).is_some() { n += 1; } n });
    let mut raw: Vec<u8> = vec![];
    raw.extend(2u64.to_le_bytes());
    for (key, signer) in [(w.pool, 0u8), (w.dist, 1)] {
        let a = &w.m[&key];
        raw.extend([0xff, signer, 1, 0, 0, 0, 0, 0]);
        raw.extend(key.to_bytes()); raw.extend(a.owner.to_bytes());
        raw.extend(a.lamports.to_le_bytes()); raw.extend((a.len as u64).to_le_bytes());
        raw.extend(a.bytes()); raw.extend(vec![0u8; 10240]);
        while raw.len() % 8 != 0 { raw.push(0); }
        raw.extend(0u64.to_le_bytes());
    }
    let ix = bld::distribute_rewards(&mplx_rewards::ID, &w.pool, &w.dist);
    raw.extend((ix.data.len() as u64).to_le_bytes()); raw.extend(&ix.data); raw.extend(mplx_rewards::ID.to_bytes());
    let mut buf = vec![0u128; raw.len() / 16 + 2];
    let p = buf.as_mut_ptr() as *mut u8;
    unsafe { std::ptr::copy_nonoverlapping(raw.as_ptr(), p, raw.len()); }
    check(full > 100, "the index history did not take entries");
    check(w.distribute().is_err(), "the distribution was expected to stop at the full history");
    check(unsafe { entrypoint(p) } != 0, "a distribution that stopped half way was reported as a success");
}""")
seed("js-slash-zero-date", "I01", {CJ + "instructions/slash.ts": [("(value) => ({ ...value, discriminator: 10 })", """(value) => ({
      ...value,
      stakeExpirationDate: value.stakeExpirationDate || null,
      discriminator: 10,
    })""")]},
 "an expiry date of zero", "the JavaScript client drops an expiry date of zero: a slash the program would refuse becomes one without a date", """
for (const date of [5n, 0n, null]) {
  const ix = client.slash(context, { depositAuthority: signer(1), rewardPool: pk(2), mining: pk(3), miningOwner: pk(4), slashAmountInNative: 5n, slashAmountMultipliedByPeriod: 6n, stakeExpirationDate: date }).getInstructions()[0];
  check(ix.data.length === 49 + (date === null ? 1 : 9) && ix.data[49] === (date === null ? 0 : 1), 'the expiry date ' + date + ' is not what the payload carries');
}
""", kind="js")
seed("js-payer-is-identity", "I02", {CJ + "instructions/initializeMining.ts": [("resolvedAccounts.payer.value = context.payer;", "resolvedAccounts.payer.value = context.identity;"), ("context: Pick<Context, 'payer' | 'programs'>", "context: Pick<Context, 'identity' | 'programs'>")]},
 "a context whose payer and identity differ, and no payer given", "the mining account is charged to another signer than the context's payer", """
for (const payer of [undefined, signer(9)]) {
  const ix = client.initializeMining(context, { rewardPool: pk(1), mining: pk(2), miningOwner: pk(3), ...(payer ? { payer } : {}) }).getInstructions()[0];
  check(ix.keys[2].pubkey === (payer || context.payer).publicKey && ix.keys[2].isSigner, 'the account is not paid for by the payer');
}
""", kind="js")
seed("js-pool-query-offsets-swapped", "I04", {CJ + "accounts/rewardPool.ts": [("distributeAuthority: [32, publicKeySerializer()],", "distributeAuthority: [64, publicKeySerializer()],"), ("fillAuthority: [64, publicKeySerializer()],", "fillAuthority: [32, publicKeySerializer()],")]},
 "pools looked up by their fill or distribute authority", "the query filters compare the other authority's bytes", """
const raw = [];
for (const v of [1, 2, 3, 4]) raw.push(...S.publicKey().serialize(pk(v)));
for (const v of [16, 8, 8, 8, 8]) for (let i = 0; i < v; i++) raw.push(i + v);
const p = client.deserializeRewardPool({ publicKey: pk(9), data: raw });
for (const f of ['depositAuthority', 'distributeAuthority', 'fillAuthority', 'rewardMint', 'totalShare', 'tokensAvailableForDistribution', 'tokenAccountBump']) {
  const q = client.getRewardPoolGpaBuilder(context).where(f, p[f]).filters[0];
  check(q.bytes.every((b, i) => raw[q.offset + i] === b), 'a query by ' + f + ' does not find the pool that has it');
}
""", kind="js")
seed("js-error-name-mixed-up", "I03", {CJ + "errors/mplxRewards.ts": [("nameToErrorMap.set('InvalidMining', InvalidMiningError);", "nameToErrorMap.set('InvalidMining', AlreadyInitializedError);")]},
 "an error looked up by its name", "one error's name resolves to another error", """
const names = ['InvalidAccountOwner', 'MathOverflow', 'RewardsNoDeposits', 'InvalidLockupPeriod', 'DistributionInThePast', 'InvalidPrimitiveTypesConversion', 'RewardsMustBeClaimed', 'RewardsMustBeGreaterThanZero', 'StakeFromOthersMustBeZero', 'NoWeightedStakeModifiersAtADate', 'DelegatesAreTheSame', 'RetreivingZeroCopyAccountFailire', 'AlreadyInitialized', 'InvalidMining', 'DerivationError', 'DecreaseRewardsTooBig'];
names.forEach((n, i) => {
  const a = client.getMplxRewardsErrorFromName(n, {}), b = client.getMplxRewardsErrorFromCode(i, {});
  check(a && b && a.code === i && b.code === i && a.name === n, 'the error ' + n + ' is not found by its name');
});
""", kind="js")
seed("close-calls-delegations-rewards", "E01", {IX + "close_mining.rs": [("""        if wrapped_mining.mining.stake_from_others > 0 {
            return Err(MplxRewardsError::StakeFromOthersMustBeZero.into());
        }
        if wrapped_mining.mining.unclaimed_rewards != 0 {
            return Err(MplxRewardsError::RewardsMustBeClaimed.into());
        }""", """        if wrapped_mining
            .mining
            .stake_from_others
            .max(wrapped_mining.mining.unclaimed_rewards)
            > 0
        {
            return Err(if wrapped_mining.mining.stake_from_others > wrapped_mining.mining.share {
                MplxRewardsError::StakeFromOthersMustBeZero.into()
            } else {
                MplxRewardsError::RewardsMustBeClaimed.into()
            });
        }""")]},
 "closing a mining that has nothing to claim and a delegation no larger than its own weight", "the owner is told to claim rewards that do not exist, although others' delegated stake is what stands in the way", """
fn main() {
    for (own, other) in [(0u64, 0u64), (0, 30), (50, 30)] {
        let mut w = World::new(); let (a, _) = w.user(20); let (b, _) = w.user(21);
        if own > 0 { w.deposit(&a, own, LockupPeriod::Flex, &a).unwrap(); }
        if other > 0 { w.deposit(&b, other, LockupPeriod::Flex, &a).unwrap(); }
        let p = w.payer; let r = w.close(&a, &p);
        check(r.is_ok() == (other == 0), "the close was not accepted exactly without delegations");
        check(other == 0 || r == Err(mplx_rewards::error::MplxRewardsError::StakeFromOthersMustBeZero.into()), "a close that delegations prevent was refused for something else");
    }
}""")
seed("past-end-called-empty-fill", "E01", {IX + "fill_vault.rs": [("            return Err(MplxRewardsError::DistributionInThePast.into());", """            return Err(if wrapped_reward_pool.pool.distribution_ends_at < beginning_of_the_curr_day {
                MplxRewardsError::RewardsMustBeGreaterThanZero.into()
            } else {
                MplxRewardsError::DistributionInThePast.into()
            });""")]},
 "a fill with a past end date while the recorded distribution is over", "a fill of a positive amount is refused as an empty one instead of for its end date", """
fn main() {
    let mut w = World::new();
    w.fill(1_000, T0 + 10 * DAY).unwrap();
    use mplx_rewards::error::MplxRewardsError as E;
    for d in [5u64, 15] {
        w.at(T0 + d * DAY);
        check(w.fill(500, T0 + (d - 1) * DAY) == Err(E::DistributionInThePast.into()), "a fill ending in the past was refused for another reason");
        check(w.fill(0, T0 + 30 * DAY) == Err(E::RewardsMustBeGreaterThanZero.into()), "an empty fill was refused for another reason");
    }
}""")
seed("slash-missing-record-overflows", "E01", {RP: [("""            let diff_record = mining
                .weighted_stake_diffs
                .get_mut(&beginning_of_the_stake_expiration_date)
                .ok_or(MplxRewardsError::NoWeightedStakeModifiersAtADate)?;
            *diff_record = diff_record.safe_sub(diff_by_expiration_date)?;
""", """            let recorded = mining
                .weighted_stake_diffs
                .get(&beginning_of_the_stake_expiration_date)
                .copied()
                .unwrap_or_default()
                .safe_sub(diff_by_expiration_date)?;
            *mining
                .weighted_stake_diffs
                .get_mut(&beginning_of_the_stake_expiration_date)
                .ok_or(MplxRewardsError::NoWeightedStakeModifiersAtADate)? = recorded;
""")]},
 "a slash that names a date without a schedule entry and orders more than the native amount off it", "the missing schedule entry is reported as an arithmetic overflow", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20);
    w.deposit(&a, 100, LockupPeriod::ThreeMonths, &a).unwrap();
    let e = Err(mplx_rewards::error::MplxRewardsError::NoWeightedStakeModifiersAtADate.into());
    for mult in [10u64, 20] {
        check(w.slash(&a, 10, mult, Some(T0 + 40 * DAY)) == e, "a slash of a date without an entry was refused for another reason");
    }
}""")
seed("foreign-delegate-called-underivable", "E01", {UT: [("        return Err(MplxRewardsError::InvalidMining.into());", """        return Err(if delegate_mining.lamports() < Rent::default().minimum_balance(0) {
            MplxRewardsError::DerivationError.into()
        } else {
            MplxRewardsError::InvalidMining.into()
        });""")]},
 "a delegate mining of another owner that holds few lamports", "a delegate mining at the wrong address is reported as a failed derivation, which it is not", """
fn main() {
    let mut w = World::new(); let (a, am) = w.user(20); let (b, _) = w.user(21);
    use mplx_rewards::solana_program::pubkey::Pubkey;
    let mut n = 0;
    for x in 30..50 {
        let (_, cm) = w.user(x);
        for l in [9u64, 900_000_000] {
            w.m.get_mut(&cm).unwrap().lamports = l;
            let bump = w.mining_state(&k(x), |m| m.mining.bump);
            let derives = Pubkey::create_program_address(&[b"mining", b.as_ref(), w.pool.as_ref(), &[bump]], &mplx_rewards::ID).is_ok();
            let ix = bld::deposit_mining(&mplx_rewards::ID, &w.pool, &am, &w.auth, &cm, 10, LockupPeriod::Flex, &a, &b);
            let r = w.run(&ix);
            if derives { n += 1; check(r == Err(mplx_rewards::error::MplxRewardsError::InvalidMining.into()), "a foreign delegate mining was refused for another reason"); }
        }
    }
    check(n > 0, "no bump derives");
}""")
seed("year-in-days-leaps", "I07", {UT: [("            LockupPeriod::OneYear => Ok(365),", "            LockupPeriod::OneYear => Ok(366),")]},
 "the length in days of a one-year lockup", "programs that ask for the length of a one-year lockup get a day more than its end date gives", """
fn main() {
    for l in [LockupPeriod::Flex, LockupPeriod::ThreeMonths, LockupPeriod::SixMonths, LockupPeriod::OneYear] {
        check(l.days().unwrap() * DAY == l.end_timestamp(T0).unwrap() - day_of(T0), "a lockup's days and its end date disagree");
    }
}""")
seed("owner-check-takes-system", "I07", {AS: [("    if account.owner == owner {\n        Ok(())\n    } else {\n        msg!(\n            \"Assert {} owner", "    if account.owner == owner || account.data_is_empty() && account.owner == &Pubkey::default() {\n        Ok(())\n    } else {\n        msg!(\n            \"Assert {} owner")]},
 "an empty account still owned by the system program", "the owner check accepts an account the named program does not own", """
fn main() {
    use mplx_rewards::{asserts::assert_owned_by, solana_program::{account_info::AccountInfo, pubkey::Pubkey}};
    for (owner, len) in [(k(3), 4usize), (k(4), 4), (k(4), 0), (Pubkey::default(), 4), (Pubkey::default(), 0)] {
        let (key, mut l, mut d) = (k(1), 0u64, vec![0u8; len]);
        let a = AccountInfo::new(&key, false, false, &mut l, &mut d, &owner, false, 0);
        check(assert_owned_by(&a, &k(3)).is_ok() == (owner == k(3)), "the owner check took another program's account");
    }
}""")
seed("decrease-stops-at-empty", "C15", {MI: [("            if stake_diff >= &mut decreased_weighted_stake_number {", """            if *stake_diff == 0 {
                break;
            }
            if stake_diff >= &mut decreased_weighted_stake_number {""")]},
 "a second reward penalty after one that used up the latest scheduled decay exactly", "the second penalty leaves the earlier decays as they were, so at their expiry more weight is taken off than the mining has left", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20);
    w.deposit(&a, 100, LockupPeriod::ThreeMonths, &a).unwrap();
    w.deposit(&a, 100, LockupPeriod::OneYear, &a).unwrap();
    let d = w.diffs(&a); check(d.len() == 2, "two lockups are scheduled");
    w.decrease(&a, d[1].1).unwrap();
    w.decrease(&a, 30).unwrap();
    let e = w.diffs(&a);
    check(e[1].1 == 0 && e[0].1 == d[0].1 - 30, "the second penalty was not taken out of the earlier decay");
}""")
seed("keys-compared-but-for-one-byte", "A01", {AS: [("    if *account_info.key == *key {", "    if account_info.key.to_bytes()[..31] == key.to_bytes()[..31] {")]},
 "a signer whose address agrees with the recorded authority in all bytes but the last", "an authority's look-alike address may act for it", """
fn main() {
    let mut w = World::new(); let (a, _) = w.user(20);
    w.fill(1_000_000, T0 + 300 * DAY).unwrap();
    w.deposit(&a, 100, LockupPeriod::Flex, &a).unwrap();
    let mut x = w.dist.to_bytes(); x[31] ^= 1;
    let fake = Pubkey::new_from_array(x);
    w.m.insert(fake, Acc::new(0, Pubkey::default(), 1_000_000_000));
    let ix = bld::distribute_rewards(&mplx_rewards::ID, &w.pool, &fake);
    check(w.run(&ix).is_err(), "somebody else than the distribution authority distributed rewards");
}""")
