//! A tiny Solana runtime: accounts, the SPL-token / system-program CPIs the program uses, clock and
//! rent sysvars, signer/PDA privileges and transactional rollback.  The program under test is the
//! real `phoenix::process_instruction` built from /repo's working tree.
use solana_program::{
    account_info::AccountInfo,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub struct Acct {
    pub owner: Pubkey,
    pub lamports: u64,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cpi {
    Transfer { src: Pubkey, dst: Pubkey, auth: Pubkey, amount: u64 },
    InitAccount { acct: Pubkey, mint: Pubkey, owner: Pubkey },
    Log(Vec<u8>),
    Create { acct: Pubkey, owner: Pubkey, space: u64 },
    SysTransfer { src: Pubkey, dst: Pubkey, amount: u64 },
}

#[derive(Default)]
pub struct Rt {
    pub slot: u64,
    pub ts: i64,
    pub cpis: Vec<Cpi>,
    pub ret: Option<Vec<u8>>,
    pub program: Pubkey,
    pub log_nested: Vec<String>,
    pub clock_fail: bool,
}
/// The instruction a thread is executing, for the watchdog: calls begun and calls done in the case it runs.
#[derive(Default)]
pub struct Watch {
    pub calls: AtomicU64,
    pub done: AtomicU64,
    pub prof: AtomicU64,
    pub seed: AtomicU64,
    pub index: AtomicU64,
}
pub const NEVER_ENDS: u32 = 0xDEAD_10CC;
thread_local! {
    pub static WATCH: RefCell<Arc<Watch>> = RefCell::new(Arc::default());
    /// the call of the case that is known not to end: it is not executed, it counts as failed
    pub static SKIP: std::cell::Cell<u64> = std::cell::Cell::new(0);
}
thread_local! { pub static RT: RefCell<Rt> = RefCell::new(Rt::default()); }

pub const TOKEN: Pubkey = solana_program::pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub const SYS: Pubkey = Pubkey::new_from_array([0; 32]);

struct Stubs;
fn find<'a, 'b>(infos: &'a [AccountInfo<'b>], k: &Pubkey) -> Result<&'a AccountInfo<'b>, ProgramError> {
    infos.iter().find(|i| i.key == k).ok_or(ProgramError::NotEnoughAccountKeys)
}
fn set_len(info: &AccountInfo, n: usize) {
    let mut d = info.data.borrow_mut();
    let p = d.as_mut_ptr();
    let old = d.len();
    unsafe {
        *(p.offset(-8) as *mut u64) = n as u64;
        *d = std::slice::from_raw_parts_mut(p, n);
    }
    if n > old {
        for b in d[old..].iter_mut() {
            *b = 0
        }
    }
}
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_get_clock_sysvar(&self, addr: *mut u8) -> u64 {
        use solana_program::clock::Clock;
        RT.with(|r| {
            let r = r.borrow();
            let c = Clock { slot: r.slot, unix_timestamp: r.ts, ..Clock::default() };
            unsafe { *(addr as *mut Clock) = c };
        });
        0
    }
    fn sol_get_rent_sysvar(&self, addr: *mut u8) -> u64 {
        unsafe { *(addr as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default() };
        0
    }
    fn sol_set_return_data(&self, d: &[u8]) {
        RT.with(|r| r.borrow_mut().ret = Some(d.to_vec()));
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        // a CPI clears return data
        let prog = RT.with(|r| {
            let mut r = r.borrow_mut();
            r.ret = None;
            r.program
        });
        let pdas: Vec<Pubkey> = seeds.iter().filter_map(|s| Pubkey::create_program_address(s, &prog).ok()).collect();
        for m in &ix.accounts {
            let i = find(infos, &m.pubkey)?;
            if m.is_signer && !(i.is_signer || pdas.contains(&m.pubkey)) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if m.is_writable && !i.is_writable {
                return Err(ProgramError::InvalidArgument);
            }
            // accounts must not be borrowed across a CPI
            if i.data.try_borrow_mut().is_err() || i.lamports.try_borrow_mut().is_err() {
                return Err(ProgramError::AccountBorrowFailed);
            }
        }
        let signed = |k: &Pubkey| ix.accounts.iter().any(|m| m.pubkey == *k && m.is_signer);
        if ix.program_id == TOKEN {
            match ix.data.first() {
                Some(3) => {
                    let amount = u64::from_le_bytes(ix.data[1..9].try_into().unwrap());
                    let (s, d, a) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey, ix.accounts[2].pubkey);
                    if !signed(&a) {
                        return Err(ProgramError::MissingRequiredSignature);
                    }
                    let si = find(infos, &s)?;
                    let di = find(infos, &d)?;
                    if *si.owner != TOKEN || *di.owner != TOKEN || si.data_len() != 165 || di.data_len() != 165 {
                        return Err(ProgramError::IncorrectProgramId);
                    }
                    {
                        let sd = si.data.borrow();
                        let dd = di.data.borrow();
                        if sd[0..32] != dd[0..32] {
                            return Err(ProgramError::Custom(3));
                        }
                        if sd[32..64] != a.to_bytes() {
                            return Err(ProgramError::Custom(4));
                        }
                    }
                    let get = |i: &AccountInfo| u64::from_le_bytes(i.data.borrow()[64..72].try_into().unwrap());
                    let sb = get(si);
                    if sb < amount {
                        return Err(ProgramError::Custom(1));
                    }
                    if s != d {
                        let db = get(di);
                        si.data.borrow_mut()[64..72].copy_from_slice(&(sb - amount).to_le_bytes());
                        let nb = db.checked_add(amount).ok_or(ProgramError::Custom(14))?;
                        di.data.borrow_mut()[64..72].copy_from_slice(&nb.to_le_bytes());
                    }
                    RT.with(|r| r.borrow_mut().cpis.push(Cpi::Transfer { src: s, dst: d, auth: a, amount }));
                    Ok(())
                }
                Some(18) => {
                    let owner = Pubkey::new(&ix.data[1..33]);
                    let (acct, mint) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey);
                    let i = find(infos, &acct)?;
                    if *i.owner != TOKEN || i.data_len() != 165 {
                        return Err(ProgramError::IncorrectProgramId);
                    }
                    if i.data.borrow()[108] != 0 {
                        return Err(ProgramError::Custom(6));
                    }
                    let mut d = i.data.borrow_mut();
                    d[0..32].copy_from_slice(mint.as_ref());
                    d[32..64].copy_from_slice(owner.as_ref());
                    d[108] = 1;
                    RT.with(|r| r.borrow_mut().cpis.push(Cpi::InitAccount { acct, mint, owner }));
                    Ok(())
                }
                _ => Err(ProgramError::InvalidInstructionData),
            }
        } else if ix.program_id == SYS {
            let tag = u32::from_le_bytes(ix.data[0..4].try_into().unwrap());
            let u = |o: usize| u64::from_le_bytes(ix.data[o..o + 8].try_into().unwrap());
            match tag {
                0 => {
                    let (p, n) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey);
                    if !signed(&p) || !signed(&n) {
                        return Err(ProgramError::MissingRequiredSignature);
                    }
                    let (lam, space, owner) = (u(4), u(12), Pubkey::new(&ix.data[20..52]));
                    let (pi, ni) = (find(infos, &p)?, find(infos, &n)?);
                    if **ni.lamports.borrow() != 0 || *ni.owner != SYS || ni.data_len() != 0 {
                        return Err(ProgramError::AccountAlreadyInitialized);
                    }
                    if **pi.lamports.borrow() < lam {
                        return Err(ProgramError::InsufficientFunds);
                    }
                    **pi.lamports.borrow_mut() -= lam;
                    **ni.lamports.borrow_mut() += lam;
                    set_len(ni, space as usize);
                    ni.assign(&owner);
                    RT.with(|r| r.borrow_mut().cpis.push(Cpi::Create { acct: n, owner, space }));
                    Ok(())
                }
                1 => {
                    let n = ix.accounts[0].pubkey;
                    if !signed(&n) {
                        return Err(ProgramError::MissingRequiredSignature);
                    }
                    let owner = Pubkey::new(&ix.data[4..36]);
                    let ni = find(infos, &n)?;
                    if *ni.owner != SYS {
                        return Err(ProgramError::IllegalOwner);
                    }
                    ni.assign(&owner);
                    Ok(())
                }
                2 => {
                    let (p, n) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey);
                    if !signed(&p) {
                        return Err(ProgramError::MissingRequiredSignature);
                    }
                    let (pi, ni) = (find(infos, &p)?, find(infos, &n)?);
                    let lam = u(4);
                    if **pi.lamports.borrow() < lam {
                        return Err(ProgramError::InsufficientFunds);
                    }
                    **pi.lamports.borrow_mut() -= lam;
                    **ni.lamports.borrow_mut() += lam;
                    RT.with(|r| r.borrow_mut().cpis.push(Cpi::SysTransfer { src: p, dst: n, amount: lam }));
                    Ok(())
                }
                8 => {
                    let n = ix.accounts[0].pubkey;
                    if !signed(&n) {
                        return Err(ProgramError::MissingRequiredSignature);
                    }
                    let ni = find(infos, &n)?;
                    if ni.data_len() != 0 || *ni.owner != SYS {
                        return Err(ProgramError::AccountAlreadyInitialized);
                    }
                    set_len(ni, u(4) as usize);
                    Ok(())
                }
                _ => Err(ProgramError::InvalidInstructionData),
            }
        } else if ix.program_id == prog {
            // the program must be among the accounts, and the nested call must be accepted
            find(infos, &prog)?;
            let mut nested: Vec<AccountInfo> = Vec::new();
            for m in &ix.accounts {
                let mut i = find(infos, &m.pubkey)?.clone();
                i.is_signer = m.is_signer;
                i.is_writable = m.is_writable;
                nested.push(i);
            }
            phoenix::process_instruction(&prog, &nested, &ix.data)?;
            RT.with(|r| r.borrow_mut().cpis.push(Cpi::Log(ix.data.clone())));
            Ok(())
        } else {
            Err(ProgramError::IncorrectProgramId)
        }
    }
}

pub fn install() {
    set_syscall_stubs(Box::new(Stubs));
}

#[derive(Clone)]
pub struct World {
    pub accts: BTreeMap<Pubkey, Acct>,
    pub slot: u64,
    pub ts: u64,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub res: Result<(), String>,
    pub cpis: Vec<Cpi>,
    pub ret: Option<Vec<u8>>,
}

fn off(n: usize) -> usize {
    88 + n
}
impl World {
    pub fn new() -> World {
        World { accts: BTreeMap::new(), slot: 100, ts: 1000 }
    }
    pub fn get(&self, k: &Pubkey) -> Acct {
        self.accts.get(k).cloned().unwrap_or(Acct { owner: SYS, lamports: 0, data: vec![] })
    }
    pub fn token_balance(&self, k: &Pubkey) -> u64 {
        match self.accts.get(k) {
            Some(a) if a.data.len() == 165 => u64::from_le_bytes(a.data[64..72].try_into().unwrap()),
            _ => 0,
        }
    }
    pub fn add_token(&mut self, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
        let mut d = vec![0u8; 165];
        d[0..32].copy_from_slice(mint.as_ref());
        d[32..64].copy_from_slice(owner.as_ref());
        d[64..72].copy_from_slice(&amount.to_le_bytes());
        d[108] = 1;
        self.accts.insert(k, Acct { owner: TOKEN, lamports: 2_039_280, data: d });
    }
    /// Executes one instruction; state changes only if it succeeds.
    pub fn exec(&mut self, metas: &[AccountMeta], data: &[u8]) -> Outcome {
        self.exec_raw(metas, data)
    }
    pub fn exec_raw(&mut self, metas: &[AccountMeta], data: &[u8]) -> Outcome {
        // one aligned buffer per unique account, laid out as the runtime serialises it
        let mut uniq: Vec<Pubkey> = vec![];
        let mut flags: Vec<(bool, bool)> = vec![];
        for m in metas {
            match uniq.iter().position(|k| *k == m.pubkey) {
                Some(i) => {
                    flags[i].0 |= m.is_signer;
                    flags[i].1 |= m.is_writable;
                }
                None => {
                    uniq.push(m.pubkey);
                    flags.push((m.is_signer, m.is_writable));
                }
            }
        }
        let accts: Vec<Acct> = uniq.iter().map(|k| self.get(k)).collect();
        let mut bufs: Vec<Vec<u64>> = vec![];
        for (k, a) in uniq.iter().zip(&accts) {
            let cap = off(a.data.len()) + 512;
            let mut b = vec![0u64; cap / 8 + 2];
            let p = b.as_mut_ptr() as *mut u8;
            unsafe {
                *(p.add(4) as *mut u32) = a.data.len() as u32;
                std::ptr::copy_nonoverlapping(k.as_ref().as_ptr(), p.add(8), 32);
                std::ptr::copy_nonoverlapping(a.owner.as_ref().as_ptr(), p.add(40), 32);
                *(p.add(72) as *mut u64) = a.lamports;
                *(p.add(80) as *mut u64) = a.data.len() as u64;
                std::ptr::copy_nonoverlapping(a.data.as_ptr(), p.add(88), a.data.len());
            }
            bufs.push(b);
        }
        let mut base: Vec<AccountInfo> = vec![];
        for (i, b) in bufs.iter_mut().enumerate() {
            let p = b.as_mut_ptr() as *mut u8;
            unsafe {
                base.push(AccountInfo {
                    key: &*(p.add(8) as *const Pubkey),
                    owner: &*(p.add(40) as *const Pubkey),
                    lamports: Rc::new(RefCell::new(&mut *(p.add(72) as *mut u64))),
                    data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(p.add(88), accts[i].data.len()))),
                    rent_epoch: 0,
                    is_signer: flags[i].0,
                    is_writable: flags[i].1,
                    executable: false,
                });
            }
        }
        let infos: Vec<AccountInfo> =
            metas.iter().map(|m| base[uniq.iter().position(|k| *k == m.pubkey).unwrap()].clone()).collect();
        RT.with(|r| {
            let mut r = r.borrow_mut();
            r.slot = self.slot;
            r.ts = self.ts as i64;
            r.cpis.clear();
            r.ret = None;
            r.program = phoenix::ID;
        });
        let pid = phoenix::ID;
        let n = WATCH.with(|w| w.borrow().calls.fetch_add(1, SeqCst) + 1);
        let res = if SKIP.with(|k| k.get()) == n {
            Ok(Err(ProgramError::Custom(NEVER_ENDS)))
        } else {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| phoenix::process_instruction(&pid, &infos, data)))
        };
        WATCH.with(|w| w.borrow().done.store(n, SeqCst));
        let (cpis, ret) = RT.with(|r| {
            let mut r = r.borrow_mut();
            (std::mem::take(&mut r.cpis), r.ret.take())
        });
        drop(infos);
        let mut out = Outcome {
            res: match res {
                Ok(Ok(())) => Ok(()),
                Ok(Err(ProgramError::Custom(NEVER_ENDS))) => Err("the instruction never ends".to_string()),
                Ok(Err(e)) => Err(format!("{:?}", e)),
                Err(_) => Err("panic".to_string()),
            },
            cpis,
            ret,
        };
        if out.res.is_ok() {
            // runtime rules: only the owner program may change data; read-only accounts are unchanged;
            // lamports are conserved
            let mut before = 0u128;
            let mut after = 0u128;
            let mut news = vec![];
            for (i, k) in uniq.iter().enumerate() {
                let info = &base[i];
                let owner = unsafe { std::ptr::read_volatile(info.owner as *const Pubkey) };
                let a = Acct { owner, lamports: **info.lamports.borrow(), data: info.data.borrow().to_vec() };
                before += accts[i].lamports as u128;
                after += a.lamports as u128;
                // an account whose size changed must be rent exempt
                if a.data.len() != accts[i].data.len() && a.lamports < solana_program::rent::Rent::default().minimum_balance(a.data.len()) {
                    out.res = Err("an account is left without its rent".into());
                }
                if !flags[i].1 && a != accts[i] {
                    out.res = Err("readonly account modified".into());
                }
                news.push((*k, a));
            }
            if before != after {
                out.res = Err("lamports not conserved".into());
            }
            if out.res.is_ok() {
                for (k, a) in news {
                    self.accts.insert(k, a);
                }
            }
        }
        drop(base);
        drop(bufs);
        out
    }
}
