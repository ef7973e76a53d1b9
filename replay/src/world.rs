//! The cast of a case: wallets, mints, token accounts, oracles, and the instructions that set it up.
use crate::bank::{mint_data, system_id, token_data, token_id, Acc, Bank};
use crate::model::*;
use crate::ops::*;
use solana_program::pubkey::Pubkey;
use std::str::FromStr;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn of(parts: &[u64]) -> Rng {
        let mut r = Rng(0x9e37_79b9_7f4a_7c15);
        for p in parts {
            r.0 ^= p.wrapping_mul(0xff51_afd7_ed55_8ccd);
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
}

pub fn named(tag: &str, i: u64) -> Pubkey {
    Pubkey::new_from_array(solana_program::hash::hashv(&[tag.as_bytes(), &i.to_le_bytes()]).to_bytes())
}
pub fn mint_key(i: u8, dec: u8) -> Pubkey {
    let mut k = [7u8; 32];
    k[0] = b'M';
    k[1] = i;
    k[2] = dec;
    Pubkey::new_from_array(k)
}
pub fn decimals(mint: &Pubkey) -> u8 {
    mint.to_bytes()[2]
}
pub fn tok(user: &Pubkey, mint: &Pubkey) -> Pubkey {
    Pubkey::new_from_array(solana_program::hash::hashv(&[b"tok", user.as_ref(), mint.as_ref()]).to_bytes())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Profile {
    Mixed,
    Match,
    Pegged,
    Expiry,
    Full,
    FullPegged,
    Life,
    Auth,
    Extreme,
    Create,
    HeapFull,
    SelfTrade,
    Fees,
}
pub const PROFILES: [Profile; 13] = [
    Profile::Mixed,
    Profile::Match,
    Profile::Pegged,
    Profile::Expiry,
    Profile::Full,
    Profile::FullPegged,
    Profile::Life,
    Profile::Auth,
    Profile::Extreme,
    Profile::Create,
    Profile::HeapFull,
    Profile::SelfTrade,
    Profile::Fees,
];
impl Profile {
    pub fn name(self) -> String {
        format!("{self:?}")
    }
    pub fn parse(s: &str) -> Option<Profile> {
        PROFILES.iter().copied().find(|p| p.name() == s)
    }
    pub fn full(self) -> bool {
        matches!(self, Profile::Full | Profile::FullPegged)
    }
}

pub struct World {
    pub profile: Profile,
    pub users: Vec<Pubkey>,
    pub admins: Vec<Pubkey>,
    pub outsider: Pubkey,
    pub mints: [Pubkey; 3],
    /// oracle lots the case circles around
    pub mid: i64,
    pub setup: Vec<Op>,
    pub len: usize,
    pub adversary: u64,
    pub full_side: Side,
    pub full_count: usize,
}

fn switchboard_v1() -> Pubkey {
    Pubkey::from_str("7azgmy1pFXHikv36q1zZASvFq5vFa39TT9NweVugKKTU").unwrap()
}
fn raydium() -> Pubkey {
    Pubkey::from_str("CAMMCzo5YL8w4VFF8KVHrK22GGUsp5VTaW7grrKgrWqK").unwrap()
}

/// Program that owns an oracle account of this kind.
pub fn oracle_owner(kind: OrcKind) -> Pubkey {
    match kind {
        OrcKind::Switch1 => switchboard_v1(),
        OrcKind::Raydium => raydium(),
        _ => named("oracle program", 0),
    }
}

/// A publication of an oracle: raw account data with the price, deviation and slot it stands for.
pub fn publish(kind: OrcKind, key: Pubkey, want: f64, dev: f64, slot: u64, r: &mut Rng) -> Op {
    let mut raw;
    let (price, dev) = match kind {
        OrcKind::Pyth => {
            let expo = -(r.range(0, 8) as i32);
            let adj: f64 = format!("1e{expo}").parse().unwrap();
            let m = (want / adj).round() as i64;
            let c = (dev / adj).round() as i64;
            raw = vec![0u8; 80];
            raw[0..4].copy_from_slice(&0xa1b2_c3d4u32.to_le_bytes());
            raw[4..8].copy_from_slice(&expo.to_le_bytes());
            let trading = r.chance(3, 4);
            let (at, other) = if trading { (48, 24) } else { (24, 48) };
            raw[at..at + 8].copy_from_slice(&m.to_le_bytes());
            raw[at + 8..at + 16].copy_from_slice(&c.to_le_bytes());
            raw[other..other + 8].copy_from_slice(&(m * 3 + 7).to_le_bytes());
            raw[other + 8..other + 16].copy_from_slice(&(c * 2 + 1).to_le_bytes());
            raw[64] = trading as u8;
            let (s, o) = if trading { (72, 16) } else { (16, 72) };
            raw[s..s + 8].copy_from_slice(&slot.to_le_bytes());
            raw[o..o + 8].copy_from_slice(&(slot / 2 + 1).to_le_bytes());
            (m as f64 * adj, c as f64 * adj)
        }
        OrcKind::Switch2 => {
            let scale = r.range(0, 8) as u32;
            let p = 10f64.powi(scale as i32);
            let m = (want * p).round() as i128;
            let c = (dev * p).round() as i128;
            raw = vec![0u8; 88];
            raw[0..8].copy_from_slice(&[217, 230, 65, 101, 201, 162, 27, 125]);
            raw[8..24].copy_from_slice(&m.to_le_bytes());
            raw[24..28].copy_from_slice(&scale.to_le_bytes());
            raw[40..56].copy_from_slice(&c.to_le_bytes());
            raw[56..60].copy_from_slice(&scale.to_le_bytes());
            raw[72..80].copy_from_slice(&slot.to_le_bytes());
            (m as f64 / p, c as f64 / p)
        }
        OrcKind::Switch1 => {
            raw = vec![0u8; 48];
            let max = want + dev / 2.0;
            let min = want - dev / 2.0;
            raw[8..16].copy_from_slice(&want.to_le_bytes());
            raw[16..24].copy_from_slice(&max.to_le_bytes());
            raw[24..32].copy_from_slice(&min.to_le_bytes());
            raw[32..40].copy_from_slice(&slot.to_le_bytes());
            (want, max - min)
        }
        OrcKind::Raydium => {
            raw = vec![0u8; 1544];
            let k = (want.max(0.0).sqrt() * 16.0).round() as u64;
            let sq = (k as u128) << 60;
            let (d0, d1) = (r.range(4, 9) as i8, r.range(4, 9) as i8);
            raw[233] = d0 as u8;
            raw[234] = d1 as u8;
            raw[253..269].copy_from_slice(&sq.to_le_bytes());
            let adj: f64 = format!("1e{}", d0 - d1).parse().unwrap();
            ((k as f64 / 16.0) * (k as f64 / 16.0) * adj, 0.0)
        }
        OrcKind::Stub => unreachable!(),
    };
    Op::RawOracle { key, kind, price, dev, slot, raw: crate::ops::Raw(raw) }
}

impl World {
    /// Oracle price that comes out at `lots` for this market.
    pub fn price_for(&self, m: &Mkt, lots: f64) -> f64 {
        let d = m.base_decimals as i32 - m.quote_decimals as i32;
        lots * m.qls as f64 / m.bls as f64 * 10f64.powi(d)
    }

    pub fn new(profile: Profile, r: &mut Rng, bank: &mut Bank, model: &mut Model) -> World {
        bank.now = 1_700_000_000;
        bank.slot = 1000;
        model.now = bank.now;
        model.slot = bank.slot;
        let n = match profile {
            Profile::Full | Profile::FullPegged => 23,
            Profile::SelfTrade => 2,
            _ => r.range(3, 5) as usize,
        };
        let users: Vec<Pubkey> = (0..n).map(|i| named("user", i as u64)).collect();
        let admins: Vec<Pubkey> = (0..4).map(|i| named("admin", i)).collect();
        let outsider = named("outsider", 0);
        let mints = [mint_key(0, r.pick(&[9, 6, 0, 8])), mint_key(1, r.pick(&[6, 6, 9, 2])), mint_key(2, 9)];
        for m in mints {
            bank.put(m, Acc { lamports: 1_000_000, data: mint_data(decimals(&m)), owner: token_id(), executable: false });
        }
        for p in [system_id(), token_id(), crate::bank::ata_id(), program()] {
            bank.put(p, Acc { lamports: 1, data: vec![], owner: named("loader", 0), executable: true });
        }
        let extreme = profile == Profile::Extreme;
        for u in users.iter().chain(admins.iter()).chain([outsider].iter()) {
            bank.wallet(*u, 1_000_000_000_000);
            for m in mints {
                let tight = !profile.full() && r.chance(1, 6);
                let amount = if extreme {
                    r.pick(&[u64::MAX / 64, 1 << 50, 1 << 40])
                } else if tight {
                    r.range(0, 200_000) as u64
                } else {
                    1_000_000_000_000
                };
                let k = tok(u, &m);
                bank.put(k, Acc { lamports: 2_039_280, data: token_data(&m, u, amount), owner: token_id(), executable: false });
                model.tokens.insert(k, Token { mint: m, owner: *u, amount: amount as i128 });
            }
        }
        let mut w = World {
            profile,
            users,
            admins,
            outsider,
            mints,
            mid: r.range(6, 40),
            setup: vec![],
            len: match profile {
                Profile::Full | Profile::FullPegged => 680,
                Profile::HeapFull => 700,
                Profile::Create => 25,
                _ => r.range(40, 140) as usize,
            },
            adversary: match profile {
                Profile::Auth => 50,
                Profile::Create => 30,
                Profile::Full | Profile::FullPegged | Profile::HeapFull => 0,
                _ => 4,
            },
            full_side: if r.chance(1, 2) { Side::Bid } else { Side::Ask },
            full_count: r.range(505, 516) as usize,
        };
        let kinds = [OrcKind::Pyth, OrcKind::Switch2, OrcKind::Switch1, OrcKind::Raydium];
        for k in 0..2u64 {
            for (i, kind) in kinds.iter().enumerate() {
                let op = publish(*kind, named("oracle", k * 10 + i as u64), 1.0, 0.0, 1000, r);
                w.setup.push(op);
            }
        }
        for i in 0..2 {
            w.setup.push(Op::StubCreate { owner: w.admins[0], mint: w.mints[i], price: 1.0 });
        }
        for i in 0..2u64 {
            let nm = w.new_market(i, r, true);
            w.setup.push(Op::CreateMarket(Box::new(nm)));
        }
        for (i, u) in w.users.clone().into_iter().enumerate() {
            w.setup.push(Op::CreateIndexer { owner: u });
            w.setup.push(Op::CreateOo { owner: u, m: 0, delegate: if r.chance(1, 3) { Some(w.users[(i + 1) % n]) } else { None }, name: format!("acc{i}") });
            if i < 2 {
                w.setup.push(Op::CreateOo { owner: u, m: 1, delegate: None, name: "b".into() });
            }
            if i == 0 && !profile.full() {
                w.setup.push(Op::CreateOo { owner: u, m: 0, delegate: None, name: "c".into() });
            }
        }
        w
    }

    /// Parameters of a market; `good` ones must be accepted.
    pub fn new_market(&self, i: u64, r: &mut Rng, good: bool) -> NewMarket {
        let full = self.profile.full();
        let lots = [1i64, 1, 2, 10, 100, 1000];
        let (mut qls, mut bls) = (r.pick(&lots), r.pick(&lots));
        if self.profile == Profile::Extreme {
            qls = r.pick(&[1, 1000, 1 << 20, 1 << 32]);
            bls = r.pick(&[1, 1000, 1 << 20, 1 << 32]);
        }
        let taker_fee = r.pick(&[0i64, 400, 1000, 200_000, 1_000_000, 333_333, 1]);
        let maker_fee = match r.below(5) {
            0 => 0,
            1 => -taker_fee,
            2 => -r.range(0, taker_fee),
            3 => r.pick(&[1i64, 200, 123_457, 500_000, 1_000_000]),
            _ => r.range(0, 1000),
        };
        let stubs = (stub_key(&self.admins[0], &self.mints[0]).0, stub_key(&self.admins[0], &self.mints[1]).0);
        let kind = r.below(4) as u64;
        let raws = (named("oracle", kind), named("oracle", 10 + kind));
        let want_oracle = match self.profile {
            Profile::Pegged | Profile::FullPegged => true,
            Profile::Full => r.chance(1, 3),
            _ => r.chance(1, 2),
        };
        let (mut a, mut b) = (None, None);
        if want_oracle {
            let p = if i == 1 || !r.chance(2, 3) { raws } else { stubs };
            a = Some(p.0);
            if r.chance(1, 3) {
                b = Some(p.1);
            }
        }
        let mut n = NewMarket {
            key: named("market", i),
            bids: named("bids", i),
            asks: named("asks", i),
            heap: named("heap", i),
            payer: self.admins[3],
            base_mint: self.mints[0],
            quote_mint: self.mints[1],
            oracle_a: a,
            oracle_b: b,
            fee_admin: self.admins[1],
            oo_admin: if r.chance(1, 6) { Some(self.admins[2]) } else { None },
            consume_admin: if r.chance(1, 6) { Some(self.admins[2]) } else { None },
            close_admin: if r.chance(4, 5) { Some(if i == 1 { self.admins[2] } else { self.admins[0] }) } else { None },
            name: format!("MKT{i}"),
            conf: r.pick(&[0.05f32, 0.1, 0.5, 0.01]),
            staleness: r.pick(&[None, Some(5), Some(0), Some(100)]),
            qls,
            bls,
            maker_fee,
            taker_fee,
            expiry: if full { 0 } else { r.pick(&[0, 0, 0, 1_700_000_000 + 30, 1_700_000_000 + 2000]) },
        };
        if self.profile == Profile::Life {
            n.close_admin = Some(self.admins[0]);
            n.expiry = r.pick(&[0, 1_700_000_000 + 30, 1_700_000_000 + 300]);
        }
        if !good {
            let now = 1_700_000_000i64;
            for _ in 0..r.range(0, 2) {
                match r.below(14) {
                    0 => n.taker_fee = r.pick(&[-1, 1_000_001, 1_000_000, i64::MIN, i64::MAX]),
                    1 => n.maker_fee = r.pick(&[1_000_001, -1_000_001, n.taker_fee.wrapping_neg().wrapping_sub(1), n.taker_fee.wrapping_add(1), i64::MIN, 1_000_000]),
                    2 => n.maker_fee = n.taker_fee.wrapping_abs().wrapping_neg(),
                    3 => n.expiry = r.pick(&[now - 1, now, now + 1, -1, i64::MIN, 1]),
                    4 => n.qls = r.pick(&[0, -1, 1, i64::MIN]),
                    5 => n.bls = r.pick(&[0, -1, 1, i64::MIN]),
                    6 => n.name = r.pick(&["", "0123456789abcdef", "0123456789abcdefg"]).to_string(),
                    7 => {
                        n.oracle_a = Some(stubs.0);
                        n.oracle_b = Some(stubs.0);
                    }
                    8 => {
                        n.oracle_a = Some(stubs.0);
                        n.oracle_b = Some(raws.1);
                    }
                    9 => {
                        n.oracle_a = None;
                        n.oracle_b = Some(stubs.1);
                    }
                    10 => {
                        n.oracle_a = Some(tok(&self.users[0], &self.mints[0]));
                        n.oracle_b = None;
                    }
                    11 => n.quote_mint = n.base_mint,
                    12 => {
                        n.oracle_a = Some(named("oracle", r.below(4) as u64));
                        n.oracle_b = Some(named("oracle", 10 + r.below(4) as u64));
                    }
                    _ => {
                        n.base_mint = self.mints[2];
                    }
                }
            }
        }
        n
    }
}
