//! In-memory accounts and an executor that runs the real program's entry point on them,
//! with the runtime services it uses (clock, rent, system, token and associated-token
//! programs) emulated.
use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, program_stubs, pubkey::Pubkey, rent::Rent,
};
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

pub const TOKEN_LEN: usize = 165;

pub fn system_id() -> Pubkey {
    Pubkey::default()
}
pub fn token_id() -> Pubkey {
    Pubkey::from_str("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA").unwrap()
}
pub fn ata_id() -> Pubkey {
    Pubkey::from_str("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL").unwrap()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Acc {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

#[derive(Clone, Debug)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}

#[derive(Clone, Default)]
pub struct Bank {
    pub accs: HashMap<Pubkey, Acc>,
    pub now: i64,
    pub slot: u64,
    /// accounts changed by the last successful instruction
    pub changed: Vec<Pubkey>,
}

pub enum Outcome {
    Ok { ret: Vec<u8>, logs: Vec<Vec<u8>> },
    Err(String),
}

struct Ctx {
    now: i64,
    slot: u64,
    ret: Vec<u8>,
    logs: Vec<Vec<u8>>,
    buf: Vec<u64>,
}

thread_local! {
    static RUNNING: std::cell::Cell<bool> = std::cell::Cell::new(false);
    static CTX: RefCell<Ctx> = RefCell::new(Ctx { now: 0, slot: 0, ret: vec![], logs: vec![], buf: vec![] });
}

struct Stubs;

fn find<'a, 'b>(infos: &'a [AccountInfo<'b>], key: &Pubkey) -> Result<&'a AccountInfo<'b>, ProgramError> {
    infos.iter().find(|i| i.key == key).ok_or(ProgramError::NotEnoughAccountKeys)
}

fn rd_key(d: &[u8], o: usize) -> Pubkey {
    Pubkey::try_from(&d[o..o + 32]).unwrap()
}
fn rd_u64(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}

pub fn token_data(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    let mut d = vec![0u8; TOKEN_LEN];
    d[0..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    d
}

pub fn mint_data(decimals: u8) -> Vec<u8> {
    let mut d = vec![0u8; 82];
    d[36..44].copy_from_slice(&(1u64 << 60).to_le_bytes());
    d[44] = decimals;
    d[45] = 1;
    d
}

fn move_lamports(from: &AccountInfo, to: &AccountInfo, amount: u64) -> ProgramResult {
    if from.key == to.key {
        return Ok(());
    }
    let mut f = from.try_borrow_mut_lamports()?;
    let mut t = to.try_borrow_mut_lamports()?;
    **f = f.checked_sub(amount).ok_or(ProgramError::InsufficientFunds)?;
    **t += amount;
    Ok(())
}

impl Stubs {
    fn invoke(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let program = openbook_v2::ID;
        let pdas: Vec<Pubkey> = seeds
            .iter()
            .filter_map(|s| Pubkey::create_program_address(s, &program).ok())
            .collect();
        for m in &ix.accounts {
            let info = find(infos, &m.pubkey)?;
            if m.is_signer && !info.is_signer && !pdas.contains(info.key) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if m.is_writable && !info.is_writable {
                return Err(ProgramError::Custom(9_000_001));
            }
        }
        let key = |i: usize| -> Result<Pubkey, ProgramError> {
            Ok(ix.accounts.get(i).ok_or(ProgramError::NotEnoughAccountKeys)?.pubkey)
        };
        let signer = |i: usize| ix.accounts.get(i).map(|m| m.is_signer).unwrap_or(false);
        if ix.program_id == system_id() {
            let d = &ix.data;
            let tag = u32::from_le_bytes(d[0..4].try_into().unwrap());
            match tag {
                0 => {
                    // create_account
                    let from = find(infos, &key(0)?)?;
                    let to = find(infos, &key(1)?)?;
                    if !signer(0) || !signer(1) {
                        return Err(ProgramError::MissingRequiredSignature);
                    }
                    let lamports = rd_u64(d, 4);
                    let space = rd_u64(d, 12) as usize;
                    let owner = rd_key(d, 20);
                    if to.lamports() != 0 || to.data_len() != 0 || *to.owner != system_id() {
                        return Err(ProgramError::AccountAlreadyInitialized);
                    }
                    move_lamports(from, to, lamports)?;
                    to.realloc(space, true)?;
                    to.assign(&owner);
                }
                2 => {
                    let from = find(infos, &key(0)?)?;
                    let to = find(infos, &key(1)?)?;
                    if !signer(0) {
                        return Err(ProgramError::MissingRequiredSignature);
                    }
                    if *from.owner != system_id() || from.data_len() != 0 {
                        return Err(ProgramError::InvalidArgument);
                    }
                    move_lamports(from, to, rd_u64(d, 4))?;
                }
                8 => {
                    let a = find(infos, &key(0)?)?;
                    if !signer(0) || *a.owner != system_id() || a.data_len() != 0 {
                        return Err(ProgramError::MissingRequiredSignature);
                    }
                    a.realloc(rd_u64(d, 4) as usize, true)?;
                }
                1 => {
                    let a = find(infos, &key(0)?)?;
                    if !signer(0) || *a.owner != system_id() {
                        return Err(ProgramError::MissingRequiredSignature);
                    }
                    a.assign(&rd_key(d, 4));
                }
                _ => return Err(ProgramError::InvalidInstructionData),
            }
            Ok(())
        } else if ix.program_id == token_id() {
            match ix.data[0] {
                3 => {
                    let from = find(infos, &key(0)?)?;
                    let to = find(infos, &key(1)?)?;
                    let auth = key(2)?;
                    if !signer(2) {
                        return Err(ProgramError::MissingRequiredSignature);
                    }
                    if *from.owner != token_id() || *to.owner != token_id() {
                        return Err(ProgramError::IncorrectProgramId);
                    }
                    let amount = rd_u64(&ix.data, 1);
                    {
                        let f = from.try_borrow_data()?;
                        if f.len() != TOKEN_LEN || f[108] != 1 {
                            return Err(ProgramError::UninitializedAccount);
                        }
                        let t = to.try_borrow_data()?;
                        if t.len() != TOKEN_LEN || t[108] != 1 {
                            return Err(ProgramError::UninitializedAccount);
                        }
                        if rd_key(&f, 0) != rd_key(&t, 0) {
                            return Err(ProgramError::Custom(3));
                        }
                        if rd_key(&f, 32) != auth {
                            return Err(ProgramError::Custom(4));
                        }
                        if rd_u64(&f, 64) < amount {
                            return Err(ProgramError::Custom(1));
                        }
                    }
                    if from.key != to.key {
                        let mut f = from.try_borrow_mut_data()?;
                        let mut t = to.try_borrow_mut_data()?;
                        let fa = rd_u64(&f, 64) - amount;
                        let ta = rd_u64(&t, 64).checked_add(amount).ok_or(ProgramError::Custom(14))?;
                        f[64..72].copy_from_slice(&fa.to_le_bytes());
                        t[64..72].copy_from_slice(&ta.to_le_bytes());
                    }
                    Ok(())
                }
                _ => Err(ProgramError::InvalidInstructionData),
            }
        } else if ix.program_id == ata_id() {
            let payer = find(infos, &key(0)?)?;
            let ata = find(infos, &key(1)?)?;
            let wallet = key(2)?;
            let mint = key(3)?;
            let expect = ata_address(&wallet, &mint);
            if !signer(0) || *ata.key != expect {
                return Err(ProgramError::InvalidSeeds);
            }
            if *ata.owner != system_id() || ata.data_len() != 0 {
                return Err(ProgramError::IllegalOwner);
            }
            move_lamports(payer, ata, Rent::default().minimum_balance(TOKEN_LEN))?;
            ata.realloc(TOKEN_LEN, true)?;
            ata.assign(&token_id());
            ata.try_borrow_mut_data()?.copy_from_slice(&token_data(&mint, &wallet, 0));
            Ok(())
        } else if ix.program_id == program {
            // event emission through a call to the program itself
            Ok(())
        } else {
            Err(ProgramError::IncorrectProgramId)
        }
    }
}

pub fn ata_address(wallet: &Pubkey, mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[wallet.as_ref(), token_id().as_ref(), mint.as_ref()], &ata_id()).0
}

impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _message: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, fields: &[&[u8]]) {
        CTX.with(|c| c.borrow_mut().logs.push(fields.concat()));
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        self.invoke(ix, infos, seeds)
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let (now, slot) = CTX.with(|c| {
            let c = c.borrow();
            (c.now, c.slot)
        });
        unsafe {
            *(var_addr as *mut Clock) = Clock {
                slot,
                unix_timestamp: now,
                ..Clock::default()
            };
        }
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe {
            *(var_addr as *mut Rent) = Rent::default();
        }
        0
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        CTX.with(|c| c.borrow_mut().ret = data.to_vec());
    }
}

pub fn install() {
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !RUNNING.with(|r| r.get()) {
            old(i)
        }
    }));
}

fn align8(x: usize) -> usize {
    (x + 7) / 8 * 8
}

impl Bank {
    pub fn get(&self, key: &Pubkey) -> Option<&Acc> {
        self.accs.get(key)
    }
    pub fn data(&self, key: &Pubkey) -> &[u8] {
        self.accs.get(key).map(|a| a.data.as_slice()).unwrap_or(&[])
    }
    pub fn put(&mut self, key: Pubkey, acc: Acc) {
        self.accs.insert(key, acc);
    }
    pub fn wallet(&mut self, key: Pubkey, lamports: u64) {
        self.put(key, Acc { lamports, data: vec![], owner: system_id(), executable: false });
    }
    pub fn token_amount(&self, key: &Pubkey) -> u64 {
        let d = self.data(key);
        if d.len() == TOKEN_LEN {
            rd_u64(d, 64)
        } else {
            0
        }
    }

    /// Run one instruction of the real program. State changes are kept only if it succeeds.
    pub fn exec(&mut self, metas_in: &[Meta], data: &[u8]) -> Outcome {
        self.changed.clear();
        let program = openbook_v2::ID;
        // flags of the same key are merged, as a transaction does
        let mut metas = metas_in.to_vec();
        for i in 0..metas.len() {
            for m in metas_in {
                if m.key == metas[i].key {
                    metas[i].signer |= m.signer;
                    metas[i].writable |= m.writable;
                }
            }
        }
        let empty = Acc { lamports: 0, data: vec![], owner: system_id(), executable: false };
        let mut first: HashMap<Pubkey, usize> = HashMap::new();
        let mut size = 8;
        for (i, m) in metas.iter().enumerate() {
            if first.contains_key(&m.key) {
                size += 8;
            } else {
                first.insert(m.key, i);
                let len = self.accs.get(&m.key).map(|a| a.data.len()).unwrap_or(0);
                size = align8(size + 88 + len + 10240) + 8;
            }
        }
        size += 8 + data.len() + 32 + 64;
        let mut buf = CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.now = self.now;
            c.slot = self.slot;
            c.ret.clear();
            c.logs.clear();
            std::mem::take(&mut c.buf)
        });
        if buf.len() * 8 < size {
            buf.resize(size / 8 + 1, 0);
        }
        let base = buf.as_mut_ptr() as *mut u8;
        let mut spots: Vec<(usize, usize)> = vec![]; // (meta index, offset of the flags)
        let out = unsafe {
            let mut o = 0usize;
            let put64 = |o: usize, v: u64| std::ptr::write_unaligned(base.add(o) as *mut u64, v);
            put64(o, metas.len() as u64);
            o += 8;
            for (i, m) in metas.iter().enumerate() {
                let f = first[&m.key];
                if f != i {
                    put64(o, 0);
                    *base.add(o) = f as u8;
                    o += 8;
                    continue;
                }
                let acc = self.accs.get(&m.key).unwrap_or(&empty);
                spots.push((i, o));
                put64(o, 0);
                *base.add(o) = 0xff;
                *base.add(o + 1) = m.signer as u8;
                *base.add(o + 2) = m.writable as u8;
                *base.add(o + 3) = acc.executable as u8;
                o += 8;
                std::ptr::copy_nonoverlapping(m.key.as_ref().as_ptr(), base.add(o), 32);
                std::ptr::copy_nonoverlapping(acc.owner.as_ref().as_ptr(), base.add(o + 32), 32);
                put64(o + 64, acc.lamports);
                put64(o + 72, acc.data.len() as u64);
                o += 80;
                std::ptr::copy_nonoverlapping(acc.data.as_ptr(), base.add(o), acc.data.len());
                std::ptr::write_bytes(base.add(o + acc.data.len()), 0, 10240);
                o += acc.data.len() + 10240;
                while (base as usize + o) % 8 != 0 {
                    o += 1;
                }
                put64(o, 0);
                o += 8;
            }
            put64(o, data.len() as u64);
            o += 8;
            std::ptr::copy_nonoverlapping(data.as_ptr(), base.add(o), data.len());
            o += data.len();
            std::ptr::copy_nonoverlapping(program.as_ref().as_ptr(), base.add(o), 32);
            // run
            RUNNING.with(|r| r.set(true));
            let res = catch_unwind(AssertUnwindSafe(|| {
                let (pid, infos, ixd) = solana_program::entrypoint::deserialize(base);
                // the entry point wants the list to live as long as the accounts
                let infos: &'static [AccountInfo<'static>] = Box::leak(infos.into_boxed_slice());
                let r = openbook_v2::entry(pid, infos, ixd);
                drop(Box::from_raw(infos as *const [AccountInfo<'static>] as *mut [AccountInfo<'static>]));
                r
            }));
            RUNNING.with(|r| r.set(false));
            match res {
                Err(p) => {
                    let msg = p
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    Outcome::Err(format!("panic: {msg}"))
                }
                Ok(Err(e)) => Outcome::Err(format!("{e:?}")),
                Ok(Ok(())) => {
                    let mut news: Vec<(usize, Acc)> = vec![];
                    let mut sum_old: u128 = 0;
                    let mut sum_new: u128 = 0;
                    let mut bad: Option<String> = None;
                    for (i, o) in &spots {
                        let m = &metas[*i];
                        let old = self.accs.get(&m.key).unwrap_or(&empty);
                        let owner = Pubkey::try_from(std::slice::from_raw_parts(base.add(o + 40), 32)).unwrap();
                        let lamports = std::ptr::read_unaligned(base.add(o + 72) as *const u64);
                        let len = std::ptr::read_unaligned(base.add(o + 80) as *const u64) as usize;
                        let d = std::slice::from_raw_parts(base.add(o + 88), len);
                        sum_old += old.lamports as u128;
                        sum_new += lamports as u128;
                        let same = owner == old.owner && lamports == old.lamports && d == old.data.as_slice();
                        if same {
                            continue;
                        }
                        if !m.writable {
                            bad = Some(format!("read-only account {} modified", m.key));
                        }
                        news.push((*i, Acc { lamports, data: d.to_vec(), owner, executable: old.executable }));
                    }
                    if sum_old != sum_new {
                        bad = Some("lamports not balanced".into());
                    }
                    if let Some(b) = bad {
                        Outcome::Err(format!("runtime: {b}"))
                    } else {
                        for (i, mut acc) in news {
                            if acc.lamports == 0 {
                                // accounts without lamports are purged
                                acc = empty.clone();
                            }
                            self.changed.push(metas[i].key);
                            self.accs.insert(metas[i].key, acc);
                        }
                        CTX.with(|c| {
                            let mut c = c.borrow_mut();
                            Outcome::Ok { ret: std::mem::take(&mut c.ret), logs: std::mem::take(&mut c.logs) }
                        })
                    }
                }
            }
        };
        CTX.with(|c| c.borrow_mut().buf = buf);
        out
    }
}
