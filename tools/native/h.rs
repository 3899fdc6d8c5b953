// Native driver: runs mplx_rewards' process_instruction in this process over in-memory accounts.
// The clock, rent, inner calls and return data are stand-ins that only touch these accounts.
use mplx_rewards::solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    program_stubs::{set_syscall_stubs, SyscallStubs}, pubkey::Pubkey, rent::Rent, system_program,
};
use mplx_rewards::{instruction as bld, state::*, utils::LockupPeriod};
use sokoban::node_allocator::NodeAllocatorMap;
use std::{cell::RefCell, collections::HashMap, rc::Rc, str::FromStr};

pub const DAY: u64 = 86_400;
pub const T0: u64 = 1_700_006_400 - 1_700_006_400 % 86_400 + 3_600;

#[derive(Clone)]
pub struct Acc { pub lamports: u64, pub buf: Vec<u128>, pub len: usize, pub owner: Pubkey }
impl Acc {
    pub fn new(len: usize, owner: Pubkey, lamports: u64) -> Acc { Acc { lamports, buf: vec![0u128; len / 16 + 2], len, owner } }
    pub fn bytes(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.buf.as_ptr() as *const u8, self.len) } }
    pub fn bytes_mut(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.buf.as_mut_ptr() as *mut u8, self.len) } }
}
thread_local! {
    pub static NOW: RefCell<i64> = RefCell::new(T0 as i64);
    pub static CPI: RefCell<Vec<Instruction>> = RefCell::new(vec![]);
    pub static CPI_SEEDS: RefCell<Vec<Vec<Pubkey>>> = RefCell::new(vec![]);
    pub static CPI_FAIL: RefCell<bool> = RefCell::new(false);
    pub static RET: RefCell<Option<Vec<u8>>> = RefCell::new(None);
}
struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) { if std::env::var("VERBOSE").is_ok() { println!("log: {m}") } }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = Clock { unix_timestamp: NOW.with(|n| *n.borrow()), ..Clock::default() };
        unsafe { *(p as *mut Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 { unsafe { *(p as *mut Rent) = Rent::default() }; 0 }
    fn sol_set_return_data(&self, d: &[u8]) { RET.with(|r| *r.borrow_mut() = Some(d.to_vec())) }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        CPI.with(|c| c.borrow_mut().push(ix.clone()));
        let signers = seeds.iter().map(|s| Pubkey::create_program_address(s, &mplx_rewards::ID).unwrap()).collect();
        CPI_SEEDS.with(|c| c.borrow_mut().push(signers));
        if CPI_FAIL.with(|f| *f.borrow()) { return Err(mplx_rewards::solana_program::program_error::ProgramError::Custom(77)); }
        if ix.program_id == tok() {
            let get = |k: &Pubkey| infos.iter().find(|i| i.key == k).unwrap().clone();
            match ix.data[0] {
                1 => {
                    let a = get(&ix.accounts[0].pubkey);
                    let mut d = a.data.borrow_mut();
                    if d.len() < 165 { return Ok(()); }
                    d[..32].copy_from_slice(ix.accounts[1].pubkey.as_ref());
                    d[32..64].copy_from_slice(ix.accounts[2].pubkey.as_ref());
                    d[108] = 1;
                }
                3 => {
                    let n = u64::from_le_bytes(ix.data[1..9].try_into().unwrap());
                    let (s, t) = (get(&ix.accounts[0].pubkey), get(&ix.accounts[1].pubkey));
                    let have = u64::from_le_bytes(s.data.borrow()[64..72].try_into().unwrap());
                    if have < n { return Err(mplx_rewards::solana_program::program_error::ProgramError::Custom(1)); }
                    s.data.borrow_mut()[64..72].copy_from_slice(&(have - n).to_le_bytes());
                    let got = u64::from_le_bytes(t.data.borrow()[64..72].try_into().unwrap());
                    t.data.borrow_mut()[64..72].copy_from_slice(&(got + n).to_le_bytes());
                }
                _ => {}
            }
        }
        Ok(())
    }
}
pub fn tok() -> Pubkey { Pubkey::from_str("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA").unwrap() }
pub fn sysvar_rent() -> Pubkey { Pubkey::from_str("SysvarRent111111111111111111111111111111111").unwrap() }
pub fn k(n: u8) -> Pubkey { Pubkey::new_from_array([n; 32]) }

pub struct World { pub m: HashMap<Pubkey, Acc>, pub pool: Pubkey, pub mint: Pubkey, pub vault: Pubkey, pub auth: Pubkey, pub dist: Pubkey, pub fill: Pubkey, pub payer: Pubkey, pub src: Pubkey }
pub const POOL_LEN: usize = 64480;
pub const MINING_LEN: usize = 1776;
impl World {
    pub fn bare() -> World {
        set_syscall_stubs(Box::new(Stubs));
        NOW.with(|n| *n.borrow_mut() = T0 as i64);
        let (pool, mint) = (k(1), k(2));
        let vault = Pubkey::find_program_address(&[b"vault", pool.as_ref(), mint.as_ref()], &mplx_rewards::ID).0;
        let mut w = World { m: HashMap::new(), pool, mint, vault, auth: k(4), dist: k(5), fill: k(6), payer: k(7), src: k(8) };
        let sys = system_program::ID;
        w.m.insert(pool, Acc::new(POOL_LEN, mplx_rewards::ID, 1));
        w.m.insert(mint, Acc::new(82, tok(), 1));
        w.m.insert(vault, Acc::new(0, sys, 0));
        for a in [w.auth, w.dist, w.fill, w.payer, tok(), sys, sysvar_rent()] { w.m.insert(a, Acc::new(0, sys, 1_000_000_000)); }
        let mut s = Acc::new(165, tok(), 1);
        s.bytes_mut()[64..72].copy_from_slice(&(1u64 << 60).to_le_bytes());
        w.m.insert(w.src, s);
        w
    }
    pub fn new() -> World {
        let mut w = World::bare();
        w.init_pool().unwrap();
        let mut v = Acc::new(165, tok(), 1);
        let (m, a) = (w.mint, w.auth);
        v.bytes_mut()[..32].copy_from_slice(m.as_ref());
        v.bytes_mut()[32..64].copy_from_slice(a.as_ref());
        v.bytes_mut()[108] = 1;
        w.m.insert(w.vault, v);
        w
    }
    pub fn run(&mut self, ix: &Instruction) -> ProgramResult { self.run_as(ix, &mplx_rewards::ID) }
    /// runs the instruction; nothing is kept when it fails or panics (a panic is reported as Err)
    pub fn run_as(&mut self, ix: &Instruction, pid: &Pubkey) -> ProgramResult {
        let mut cells: HashMap<Pubkey, (Rc<RefCell<&'static mut u64>>, Rc<RefCell<&'static mut [u8]>>, &'static mut Acc)> = HashMap::new();
        let mut infos: Vec<AccountInfo<'static>> = vec![];
        let mut order = vec![];
        for am in &ix.accounts {
            if !cells.contains_key(&am.pubkey) {
                let a: &'static mut Acc = Box::leak(Box::new(self.m.get(&am.pubkey).unwrap_or_else(|| panic!("no account {}", am.pubkey)).clone()));
                let p = a as *mut Acc;
                let (l, d): (&'static mut u64, &'static mut [u8]) = unsafe { (&mut (*p).lamports, (*p).bytes_mut()) };
                cells.insert(am.pubkey, (Rc::new(RefCell::new(l)), Rc::new(RefCell::new(d)), a));
                order.push(am.pubkey);
            }
            let c = &cells[&am.pubkey];
            let key: &'static Pubkey = Box::leak(Box::new(am.pubkey));
            let owner: &'static Pubkey = Box::leak(Box::new(c.2.owner));
            infos.push(AccountInfo { key, lamports: c.0.clone(), data: c.1.clone(), owner, rent_epoch: 0, is_signer: am.is_signer, is_writable: am.is_writable, executable: false });
        }
        CPI.with(|c| c.borrow_mut().clear());
        CPI_SEEDS.with(|c| c.borrow_mut().clear());
        RET.with(|r| *r.borrow_mut() = None);
        let infos: &'static [AccountInfo<'static>] = Box::leak(infos.into_boxed_slice());
        let pid: &'static Pubkey = Box::leak(Box::new(*pid));
        let data = ix.data.clone();
        if std::env::var("VERBOSE").is_err() { std::panic::set_hook(Box::new(|_| {})); }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| mplx_rewards::instructions::process_instruction(pid, infos, &data)));
        let _ = std::panic::take_hook();
        let r = match r { Ok(r) => r, Err(_) => return Err(mplx_rewards::solana_program::program_error::ProgramError::Custom(4242)) };
        if r.is_ok() { for p in order { let a = cells[&p].2 as *const Acc; self.m.insert(p, unsafe { (*a).clone() }); } }
        r
    }
    pub fn now(&self) -> u64 { NOW.with(|n| *n.borrow() as u64) }
    pub fn at(&self, t: u64) { NOW.with(|n| *n.borrow_mut() = t as i64) }
    pub fn days(&self, d: u64) { NOW.with(|n| *n.borrow_mut() += (d * DAY) as i64) }
    pub fn init_pool(&mut self) -> ProgramResult {
        let ix = bld::initialize_pool(&mplx_rewards::ID, &self.pool, &self.mint, &self.vault, &self.payer, &self.auth, &self.fill, &self.dist);
        self.run(&ix)
    }
    pub fn mining_of(&self, owner: &Pubkey) -> Pubkey { Pubkey::find_program_address(&[b"mining", owner.as_ref(), self.pool.as_ref()], &mplx_rewards::ID).0 }
    /// a user account plus its mining account
    pub fn user(&mut self, n: u8) -> (Pubkey, Pubkey) {
        let o = k(n);
        self.m.insert(o, Acc::new(0, system_program::ID, 5));
        let mi = self.mining_of(&o);
        self.m.insert(mi, Acc::new(MINING_LEN, mplx_rewards::ID, 9));
        let ix = bld::initialize_mining(&mplx_rewards::ID, &self.pool, &mi, &self.payer, &o);
        self.run(&ix).unwrap();
        (o, mi)
    }
    /// wallet token account for rewards
    pub fn wallet(&mut self, owner: &Pubkey) -> Pubkey {
        let mut x = owner.to_bytes(); x[0] ^= 0x55;
        let p = Pubkey::new_from_array(x);
        let mut a = Acc::new(165, tok(), 1);
        let m = self.mint;
        a.bytes_mut()[..32].copy_from_slice(m.as_ref());
        a.bytes_mut()[32..64].copy_from_slice(owner.as_ref());
        a.bytes_mut()[108] = 1;
        self.m.insert(p, a);
        p
    }
    pub fn balance(&self, p: &Pubkey) -> u64 { u64::from_le_bytes(self.m[p].bytes()[64..72].try_into().unwrap()) }
    pub fn fill(&mut self, n: u64, ends: u64) -> ProgramResult {
        let ix = bld::fill_vault(&mplx_rewards::ID, &self.pool, &self.mint, &self.vault, &self.fill, &self.src, n, ends);
        self.run(&ix)
    }
    pub fn distribute(&mut self) -> ProgramResult { let ix = bld::distribute_rewards(&mplx_rewards::ID, &self.pool, &self.dist); self.run(&ix) }
    pub fn deposit(&mut self, o: &Pubkey, n: u64, l: LockupPeriod, d: &Pubkey) -> ProgramResult {
        let ix = bld::deposit_mining(&mplx_rewards::ID, &self.pool, &self.mining_of(o), &self.auth, &self.mining_of(d), n, l, o, d);
        self.run(&ix)
    }
    pub fn withdraw(&mut self, o: &Pubkey, n: u64, d: &Pubkey) -> ProgramResult {
        let ix = bld::withdraw_mining(&mplx_rewards::ID, &self.pool, &self.mining_of(o), &self.auth, &self.mining_of(d), n, o, d);
        self.run(&ix)
    }
    pub fn extend(&mut self, o: &Pubkey, old: LockupPeriod, new: LockupPeriod, start: u64, base: u64, add: u64, d: &Pubkey) -> ProgramResult {
        let ix = bld::extend_stake(&mplx_rewards::ID, &self.pool, &self.mining_of(o), &self.auth, &self.mining_of(d), old, new, start, base, add, o, d);
        self.run(&ix)
    }
    pub fn claim(&mut self, o: &Pubkey) -> Result<u64, mplx_rewards::solana_program::program_error::ProgramError> {
        let w = self.wallet_key(o);
        if !self.m.contains_key(&w) { self.wallet(o); }
        let before = self.balance(&w);
        let ix = bld::claim(&mplx_rewards::ID, &self.pool, &self.mint, &self.vault, &self.mining_of(o), o, &self.auth, &w);
        self.run(&ix)?;
        Ok(self.balance(&w) - before)
    }
    pub fn wallet_key(&self, o: &Pubkey) -> Pubkey { let mut x = o.to_bytes(); x[0] ^= 0x55; Pubkey::new_from_array(x) }
    pub fn change_delegate(&mut self, o: &Pubkey, old: &Pubkey, new: &Pubkey, n: u64) -> ProgramResult {
        let ix = bld::change_delegate(&mplx_rewards::ID, &self.pool, &self.mining_of(o), &self.auth, o, &self.mining_of(old), &self.mining_of(new), new, n);
        self.run(&ix)
    }
    pub fn slash(&mut self, o: &Pubkey, native: u64, mult: u64, exp: Option<u64>) -> ProgramResult {
        let ix = bld::slash(&mplx_rewards::ID, &self.auth, &self.pool, &self.mining_of(o), o, native, mult, exp);
        self.run(&ix)
    }
    pub fn decrease(&mut self, o: &Pubkey, n: u64) -> ProgramResult {
        let ix = bld::decrease_rewards(&mplx_rewards::ID, &self.auth, &self.pool, &self.mining_of(o), o, n);
        self.run(&ix)
    }
    pub fn close(&mut self, o: &Pubkey, target: &Pubkey) -> ProgramResult {
        let ix = bld::close_mining(&mplx_rewards::ID, &self.mining_of(o), o, target, &self.auth, &self.pool);
        self.run(&ix)
    }
    pub fn pool_state<R>(&mut self, f: impl FnOnce(&mut WrappedRewardPool) -> R) -> R {
        let p = self.pool;
        f(&mut WrappedRewardPool::from_bytes_mut(self.m.get_mut(&p).unwrap().bytes_mut()).unwrap())
    }
    pub fn mining_state<R>(&mut self, o: &Pubkey, f: impl FnOnce(&mut WrappedMining) -> R) -> R {
        let p = self.mining_of(o);
        f(&mut WrappedMining::from_bytes_mut(self.m.get_mut(&p).unwrap().bytes_mut()).unwrap())
    }
    pub fn share(&mut self, o: &Pubkey) -> u64 { self.mining_state(o, |m| m.mining.share) }
    pub fn unclaimed(&mut self, o: &Pubkey) -> u64 { self.mining_state(o, |m| m.mining.unclaimed_rewards) }
    pub fn others(&mut self, o: &Pubkey) -> u64 { self.mining_state(o, |m| m.mining.stake_from_others) }
    pub fn total(&mut self) -> u64 { self.pool_state(|p| p.pool.total_share) }
    pub fn pool_diffs(&mut self) -> Vec<(u64, u64)> { self.pool_state(|p| p.weighted_stake_diffs.iter().map(|(k, v)| (*k, *v)).collect()) }
    pub fn diffs(&mut self, o: &Pubkey) -> Vec<(u64, u64)> { self.mining_state(o, |p| p.weighted_stake_diffs.iter().map(|(k, v)| (*k, *v)).collect()) }
}
pub fn day_of(t: u64) -> u64 { t - t % DAY }
pub fn check(c: bool, what: &str) { if !c { println!("PROPERTY BROKEN: {what}"); std::process::exit(1) } }
