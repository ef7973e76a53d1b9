//! Reference model: what each instruction has to do, written over plain vectors and wide
//! integers. It predicts the complete state after an instruction, or that it must fail.
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

/// Why the model refuses an instruction.
pub type Rej = &'static str;
type R<T> = Result<T, Rej>;

pub const SCALE: i128 = 1_000_000;
pub const PENALTY: u64 = 500;
pub const SLOTS: usize = 24;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Side {
    Bid,
    Ask,
}
impl Side {
    pub fn inv(self) -> Side {
        match self {
            Side::Bid => Side::Ask,
            Side::Ask => Side::Bid,
        }
    }
    pub fn better(self, a: i64, b: i64) -> bool {
        match self {
            Side::Bid => a > b,
            Side::Ask => a < b,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Limit,
    Ioc,
    PostOnly,
    Market,
    Slide,
    Fok,
}
impl Kind {
    pub fn code(self) -> u8 {
        self as u8
    }
    pub fn posts(self) -> bool {
        matches!(self, Kind::Limit | Kind::PostOnly | Kind::Slide)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SelfTrade {
    Decrement,
    CancelProvide,
    Abort,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Order {
    pub id: u128,
    pub seq: u64,
    pub pegged: bool,
    /// price of a fixed order, offset of a pegged one
    pub price: i64,
    pub owner: Pubkey,
    pub qty: i64,
    pub ts: u64,
    pub tif: u16,
    pub peg_limit: i64,
    pub client: u64,
}
impl Order {
    pub fn expiry(&self) -> u64 {
        if self.tif == 0 {
            u64::MAX
        } else {
            self.ts + self.tif as u64
        }
    }
    pub fn expired(&self, now: u64) -> bool {
        self.tif > 0 && now >= self.ts + self.tif as u64
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    Fill {
        id: u128,
        side: Side,
        out: bool,
        ts: u64,
        seq: u64,
        maker: Pubkey,
        maker_client: u64,
        maker_ts: u64,
        taker: Pubkey,
        taker_client: u64,
        price: i64,
        peg_limit: i64,
        qty: i64,
    },
    Out {
        id: u128,
        side: Side,
        ts: u64,
        seq: u64,
        owner: Pubkey,
        qty: i64,
    },
}
impl Event {
    pub fn account(&self) -> Pubkey {
        match self {
            Event::Fill { maker, .. } => *maker,
            Event::Out { owner, .. } => *owner,
        }
    }
    pub fn id(&self) -> u128 {
        match self {
            Event::Fill { id, .. } => *id,
            Event::Out { id, .. } => *id,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Mkt {
    pub key: Pubkey,
    pub closed: bool,
    pub authority: Pubkey,
    pub bids_key: Pubkey,
    pub asks_key: Pubkey,
    pub heap_key: Pubkey,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub base_decimals: u8,
    pub quote_decimals: u8,
    pub name: String,
    pub time_expiry: i64,
    pub registration_time: i64,
    pub fee_admin: Pubkey,
    pub oo_admin: Option<Pubkey>,
    pub consume_admin: Option<Pubkey>,
    pub close_admin: Option<Pubkey>,
    pub oracle_a: Option<Pubkey>,
    pub oracle_b: Option<Pubkey>,
    pub conf: f32,
    pub staleness: Option<u32>,
    pub bls: i64,
    pub qls: i64,
    pub maker_fee: i64,
    pub taker_fee: i64,
    // running state
    pub seq: u64,
    pub fees_accrued: i128,
    pub fees_to_referrers: i128,
    pub ref_accrued: i128,
    pub fees_available: i128,
    pub maker_volume: i128,
    pub taker_volume_wo_oo: i128,
    pub base_total: i128,
    pub quote_total: i128,
    pub bids: Vec<Order>,
    pub asks: Vec<Order>,
    /// queue order: place in the queue, event, slot in the trader's account
    pub events: Vec<(Option<u16>, Event, Option<u8>)>,
    pub heap_seq: u64,
}

fn ceil_div(n: i128, d: i128) -> i128 {
    // both code and model only use it for numerators > -d
    (n + d - 1) / d
}

impl Mkt {
    pub fn expired(&self, now: i64) -> bool {
        self.time_expiry != 0 && self.time_expiry < now
    }
    pub fn book(&self, s: Side) -> &Vec<Order> {
        match s {
            Side::Bid => &self.bids,
            Side::Ask => &self.asks,
        }
    }
    pub fn book_mut(&mut self, s: Side) -> &mut Vec<Order> {
        match s {
            Side::Bid => &mut self.bids,
            Side::Ask => &mut self.asks,
        }
    }
    pub fn vault(&self, s: Side) -> Pubkey {
        match s {
            Side::Bid => self.quote_vault,
            Side::Ask => self.base_vault,
        }
    }
    pub fn maker_fee_floor(&self, x: i128) -> i128 {
        if self.maker_fee > 0 {
            x * self.maker_fee as i128 / SCALE
        } else {
            0
        }
    }
    pub fn maker_rebate_floor(&self, x: i128) -> i128 {
        if self.maker_fee > 0 {
            0
        } else {
            x * -(self.maker_fee as i128) / SCALE
        }
    }
    pub fn maker_fee_ceil(&self, x: i128) -> i128 {
        if self.maker_fee > 0 {
            ceil_div(x * self.maker_fee as i128, SCALE)
        } else {
            0
        }
    }
    pub fn taker_fee_ceil(&self, x: i128) -> i128 {
        ceil_div(x * self.taker_fee as i128, SCALE)
    }
    pub fn max_base(&self) -> i128 {
        (i64::MAX / self.bls) as i128
    }
    pub fn max_quote(&self) -> i128 {
        (i64::MAX / self.qls) as i128
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub slot: Option<u8>,
    pub id: u128,
    pub client: u64,
    pub locked: i64,
    pub side: Side,
    pub pegged: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Oo {
    pub key: Pubkey,
    pub closed: bool,
    pub owner: Pubkey,
    pub market: usize,
    pub delegate: Option<Pubkey>,
    pub num: u32,
    pub name: String,
    pub bids_base: i128,
    pub asks_base: i128,
    pub bids_quote: i128,
    pub base_free: i128,
    pub quote_free: i128,
    pub locked_fees: i128,
    pub referrer: i128,
    pub penalty: i128,
    pub maker_volume: i128,
    pub taker_volume: i128,
    pub orders: Vec<Entry>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Indexer {
    pub exists: bool,
    pub counter: u32,
    pub addresses: Vec<Pubkey>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Token {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: i128,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OrcKind {
    Stub,
    Pyth,
    Switch2,
    Switch1,
    Raydium,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Orc {
    pub kind: OrcKind,
    pub price: f64,
    pub dev: f64,
    pub slot: u64,
    pub owner: Pubkey,
    pub mint: Pubkey,
    pub closed: bool,
}

#[derive(Clone, Debug)]
pub struct OrderIn {
    pub side: Side,
    pub kind: Kind,
    /// (offset, limit) for a pegged order
    pub peg: Option<(i64, i64)>,
    pub price: i64,
    pub max_base: i64,
    pub max_quote: i64,
    pub client: u64,
    pub expiry: u64,
    pub stb: SelfTrade,
    pub limit: u8,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Amounts {
    pub id: Option<u128>,
    pub posted_base: i128,
    pub posted_quote: i128,
    pub base: i128,
    pub quote: i128,
    pub referrer: i128,
    pub taker_fees: i128,
    pub maker_fees: i128,
}

#[derive(Clone, Debug, Default)]
pub struct Flags {
    pub self_trade: bool,
    pub pegged: bool,
    pub dropped: bool,
    pub expired_removed: bool,
    pub evicted: bool,
    pub fills: u32,
    pub direct: u32,
    pub outs: u32,
    pub posted: bool,
    pub batch: bool,
    pub cancels: u32,
    pub free_used: bool,
    /// a posted order crosses a matchable opposite one: its price and the other's
    pub crossed: Option<(i64, i64)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    None,
    Id(Option<u128>),
    Ids(Vec<Option<u128>>),
    Qty(i64),
}

#[derive(Clone, Default)]
pub struct Model {
    pub markets: Vec<Mkt>,
    pub oos: Vec<Oo>,
    pub indexers: BTreeMap<Pubkey, Indexer>,
    pub tokens: BTreeMap<Pubkey, Token>,
    pub oracles: BTreeMap<Pubkey, Orc>,
    pub now: i64,
    pub slot: u64,
    pub flags: Flags,
    /// lamports moved by the instruction
    pub lamports: Vec<(Pubkey, Pubkey, u64)>,
    /// answers to the points the behaviour leaves open, and how many answers each has
    pub script: Vec<usize>,
    pub asked: Vec<usize>,
}

pub fn f64_to_fixed_bits(x: f64) -> Option<i128> {
    if !x.is_finite() {
        return None;
    }
    let s = x * (1u64 << 48) as f64; // exact: a power of two (values here are far from overflow)
    if !s.is_finite() || s.abs() >= 1.6e38 {
        return None;
    }
    let f = s.floor();
    let diff = s - f;
    let mut i = f as i128;
    if diff > 0.5 || (diff == 0.5 && i & 1 == 1) {
        i += 1;
    }
    Some(i)
}

impl Model {
    pub fn oo_by_key(&self, k: &Pubkey) -> Option<usize> {
        self.oos.iter().position(|o| o.key == *k && !o.closed)
    }

    /// A point where several results are acceptable.
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.asked.len();
        self.asked.push(n);
        self.script.get(i).copied().unwrap_or(0).min(n - 1)
    }

    pub fn oracle_lots(&self, mi: usize) -> R<Option<i64>> {
        let m = &self.markets[mi];
        let a = match m.oracle_a {
            None => return Ok(None),
            Some(a) => self.oracles.get(&a).filter(|o| !o.closed).ok_or("oracle")?,
        };
        let b = match m.oracle_b {
            None => None,
            Some(b) => Some(self.oracles.get(&b).filter(|o| !o.closed).ok_or("oracle")?),
        };
        let conf = m.conf as f64;
        let stale = |o: &Orc| {
            let last = match o.kind {
                OrcKind::Raydium => u64::MAX,
                OrcKind::Stub if o.slot == 0 => u64::MAX,
                _ => o.slot,
            };
            match m.staleness {
                None => false,
                Some(max) => (last as u128 + max as u128).min(u64::MAX as u128) < self.slot as u128,
            }
        };
        let bad = |o: &Orc| o.kind != OrcKind::Stub && !(o.price >= 0.0);
        if bad(a) || b.map(bad).unwrap_or(false) {
            return Err("oracle");
        }
        let price = match b {
            None => {
                if stale(a) || a.dev > conf * a.price {
                    return Ok(None);
                }
                a.price
            }
            Some(b) => {
                let ra = a.dev / a.price;
                let rb = b.dev / b.price;
                if stale(a) || stale(b) || ra * ra + rb * rb > conf * conf {
                    return Ok(None);
                }
                a.price / b.price
            }
        };
        let d = m.quote_decimals as i32 - m.base_decimals as i32;
        let adj: f64 = format!("1e{d}").parse().unwrap();
        let bits = match f64_to_fixed_bits(price * adj) {
            None => return Ok(None),
            Some(b) => b,
        };
        let p = bits.checked_mul(m.bls as i128).ok_or("oracle")?;
        let q = p / m.qls as i128;
        let v = q >> 48;
        i64::try_from(v).map(Some).map_err(|_| "oracle")
    }

    /// Price of a resting order now and whether it may trade: None if it cannot be represented.
    pub fn effective(side: Side, o: &Order, now: u64, oracle: Option<i64>) -> Option<(i64, bool)> {
        if !o.pegged {
            return Some((o.price, !o.expired(now)));
        }
        let p = oracle? as i128 + o.price as i128;
        if p < 1 || p >= i64::MAX as i128 {
            return None;
        }
        let p = p as i64;
        let beyond = o.peg_limit != -1 && side.better(p, o.peg_limit);
        Some((p, !beyond && !o.expired(now)))
    }

    /// Orders of a side best price first, then in order of placement, with price and validity.
    pub fn walk(&self, mi: usize, side: Side, oracle: Option<i64>) -> Vec<(Order, i64, bool)> {
        let now = self.now as u64;
        let mut v: Vec<(Order, i64, bool)> = self.markets[mi]
            .book(side)
            .iter()
            .filter_map(|o| Self::effective(side, o, now, oracle).map(|(p, ok)| (o.clone(), p, ok)))
            .collect();
        v.sort_by(|a, b| {
            let p = match side {
                Side::Bid => b.1.cmp(&a.1),
                Side::Ask => a.1.cmp(&b.1),
            };
            p.then(a.0.seq.cmp(&b.0.seq))
        });
        v
    }

    fn push_event(&mut self, mi: usize, e: Event) -> R<()> {
        let m = &mut self.markets[mi];
        if m.events.len() >= 600 {
            return Err("heapfull");
        }
        m.events.push((None, e, None));
        m.heap_seq += 1;
        Ok(())
    }

    /// Give back what order `id` of account `oi` still locks for `qty` lots and drop it.
    pub fn release(&mut self, oi: usize, id: u128, qty: i64) -> R<()> {
        let m = &self.markets[self.oos[oi].market];
        let (bls, qls) = (m.bls as i128, m.qls as i128);
        let e = self.oos[oi].orders.iter().find(|e| e.id == id).cloned().ok_or("noentry")?;
        let q = qty as i128;
        let quote = q * e.locked as i128 * qls;
        let fee = self.markets[self.oos[oi].market].maker_fee_ceil(quote);
        let o = &mut self.oos[oi];
        match e.side {
            Side::Bid => {
                o.quote_free += quote + fee;
                o.locked_fees -= fee;
                o.bids_base -= q;
                o.bids_quote -= q * e.locked as i128;
            }
            Side::Ask => {
                o.base_free += q * bls;
                o.asks_base -= q;
            }
        }
        o.orders.retain(|e| e.id != id);
        Ok(())
    }

    pub fn out_event(&mut self, mi: usize, side: Side, o: &Order, oo: Option<usize>, remaining: &[Pubkey]) -> R<()> {
        self.flags.outs += 1;
        if let Some(oi) = oo {
            if self.oos[oi].key == o.owner {
                return self.release(oi, o.id, o.qty);
            }
        }
        if remaining.contains(&o.owner) {
            self.flags.direct += 1;
            let oi = self.oo_by_key(&o.owner).ok_or("noaccount")?;
            return self.release(oi, o.id, o.qty);
        }
        let seq = self.markets[mi].heap_seq;
        let ts = self.now as u64;
        self.push_event(mi, Event::Out { id: o.id, side, ts, seq, owner: o.owner, qty: o.qty })
    }

    pub fn settle_maker(&mut self, mi: usize, e: &Event) -> R<()> {
        if let Event::Fill { id, side, out, maker, taker, price, peg_limit, qty, .. } = e {
            let mside = side.inv();
            let oi = self.oo_by_key(maker).ok_or("noaccount")?;
            let m = &self.markets[mi];
            let q = *qty as i128;
            let quote = q * *price as i128 * m.qls as i128;
            let own = maker == taker;
            self.flags.self_trade |= own;
            let (fee, rebate) = if own { (0, 0) } else { (m.maker_fee_floor(quote), m.maker_rebate_floor(quote)) };
            let locked_price = if *peg_limit != -1 && mside == Side::Bid { *peg_limit } else { *price };
            let locked_quote = q * locked_price as i128 * m.qls as i128;
            let locked_fee = m.maker_fee_floor(locked_quote);
            let bls = m.bls as i128;
            let o = &mut self.oos[oi];
            match mside {
                Side::Bid => {
                    o.base_free += q * bls;
                    o.quote_free += rebate + (locked_quote - quote) + (locked_fee - fee);
                    o.locked_fees -= locked_fee;
                    o.bids_base -= q;
                    o.bids_quote -= q * locked_price as i128;
                }
                Side::Ask => {
                    o.quote_free += quote + rebate - fee;
                    o.asks_base -= q;
                }
            }
            o.maker_volume += quote;
            o.referrer += fee;
            if *out {
                if !o.orders.iter().any(|x| x.id == *id) {
                    return Err("noentry");
                }
                o.orders.retain(|x| x.id != *id);
            }
            let m = &mut self.markets[mi];
            m.ref_accrued += fee;
            m.maker_volume += quote;
            m.fees_accrued += fee;
        }
        Ok(())
    }

    fn full(&mut self, mi: usize, side: Side) -> bool {
        let b = self.markets[mi].book(side);
        let f = b.iter().filter(|o| !o.pegged).count();
        let p = b.iter().filter(|o| o.pegged).count();
        let nodes = |k: usize| if k == 0 { 0 } else { 2 * k - 1 };
        let free = 1024 - (nodes(f) + nodes(p)) as i64;
        if free <= 1 {
            true
        } else if free >= 3 {
            false
        } else {
            self.choose(2) == 0
        }
    }

    pub fn new_order(
        &mut self,
        mi: usize,
        o: &OrderIn,
        tif: u16,
        oracle: Option<i64>,
        oo: Option<usize>,
        owner: Pubkey,
        remaining: &[Pubkey],
    ) -> R<Amounts> {
        let now = self.now as u64;
        let side = o.side;
        let other = side.inv();
        let post_only = matches!(o.kind, Kind::PostOnly | Kind::Slide);
        let mut post = o.kind.posts();
        if o.peg.is_some() {
            self.flags.pegged = true;
        }

        // limit price
        let slide = |m: &Model, p: i64| -> R<i64> {
            if o.kind != Kind::Slide {
                return Ok(p);
            }
            let best = m.walk(mi, other, oracle).into_iter().find(|x| x.2).map(|x| x.1);
            match best {
                None => Ok(p),
                Some(b) => match side {
                    Side::Bid => Ok(p.min(b - 1)),
                    Side::Ask => Ok(p.max(b.checked_add(1).ok_or("range")?)),
                },
            }
        };
        let price = match (o.kind, o.peg) {
            (_, Some((off, _))) => {
                let p = oracle.ok_or("nooracle")?.checked_add(off).ok_or("price")?;
                slide(self, p)?
            }
            (Kind::Market, _) => match side {
                Side::Bid => i64::MAX,
                Side::Ask => 1,
            },
            _ => slide(self, o.price)?,
        };
        if price < 1 {
            return Err("price");
        }
        let stored = match o.peg {
            Some(_) => price.checked_sub(oracle.unwrap()).ok_or("range")?,
            None => price,
        };
        let price_data: u64 = match o.peg {
            Some(_) => (stored as i128 + (1i128 << 63)) as u64,
            None => stored as u64,
        };
        let m = &mut self.markets[mi];
        m.seq += 1;
        let seq = m.seq;
        let low = if side == Side::Bid { !seq } else { seq };
        let id = ((price_data as u128) << 64) | low as u128;

        let max_quote = if side == Side::Bid && !post_only {
            o.max_quote as i128 * SCALE / (SCALE + m.taker_fee as i128)
        } else {
            o.max_quote as i128
        };
        if o.max_base as i128 > m.max_base() || max_quote > m.max_quote() {
            return Err("lots");
        }

        let mut rem_base = o.max_base as i128;
        let mut rem_quote = max_quote;
        let mut own_quote = 0i128;
        let mut rebates = 0i128;
        let mut limit = o.limit;
        let mut dropped = 0;
        let mut processed = 0;
        let mut gone: Vec<u128> = vec![];
        let mut changed: Vec<(u128, i64)> = vec![];
        for (r, rp, ok) in self.walk(mi, other, oracle) {
            if rem_base == 0 {
                break;
            }
            if r.pegged {
                self.flags.pegged = true;
            }
            if !ok {
                if dropped < 5 {
                    dropped += 1;
                    self.flags.dropped = true;
                    self.out_event(mi, other, &r, oo, remaining)?;
                    gone.push(r.id);
                }
                continue;
            }
            if side.better(rp, price) {
                // worse for the taker than their limit (better for a resting order of that side)
                break;
            }
            if post_only || limit == 0 {
                post = false;
                break;
            }
            let by_quote = rem_quote / rp as i128;
            if by_quote == 0 {
                post = false;
                break;
            }
            let qty = rem_base.min(r.qty as i128).min(by_quote);
            let quote = qty * rp as i128;
            let own = oo.is_some() && owner == r.owner;
            if own {
                self.flags.self_trade = true;
                match o.stb {
                    SelfTrade::Decrement => own_quote += quote,
                    SelfTrade::CancelProvide => {
                        self.release(oo.unwrap(), r.id, r.qty)?;
                        gone.push(r.id);
                        continue;
                    }
                    SelfTrade::Abort => return Err("selftrade"),
                }
            } else {
                let m = &self.markets[mi];
                rebates += m.maker_rebate_floor(quote * m.qls as i128);
            }
            rem_base -= qty;
            rem_quote -= quote;
            let left = r.qty as i128 - qty;
            if left == 0 {
                gone.push(r.id);
            } else {
                // nothing may rest beside what is left of the opposite order
                post = false;
                changed.push((r.id, left as i64));
            }
            let e = Event::Fill {
                id: r.id,
                side,
                out: left == 0,
                ts: now,
                seq,
                maker: r.owner,
                maker_client: r.client,
                maker_ts: r.ts,
                taker: owner,
                taker_client: o.client,
                price: rp,
                peg_limit: r.peg_limit,
                qty: qty as i64,
            };
            self.flags.fills += 1;
            if processed < 15 && remaining.contains(&r.owner) {
                if own {
                    return Err("alias");
                }
                self.flags.direct += 1;
                self.settle_maker(mi, &e)?;
                processed += 1;
            } else {
                self.push_event(mi, e)?;
            }
            limit -= 1;
        }

        let quote_lots = max_quote - rem_quote;
        let base_lots = o.max_base as i128 - rem_base;
        let m = &mut self.markets[mi];
        let base = base_lots * m.bls as i128;
        let quote = quote_lots * m.qls as i128;
        let mut taker_fees = 0;
        let mut referrer = 0;
        if quote_lots > 0 || base_lots > 0 {
            let charged = (quote_lots - own_quote) * m.qls as i128;
            if charged > 0 {
                taker_fees = m.taker_fee_ceil(charged);
                referrer = taker_fees - rebates;
                if referrer < 0 {
                    return Err("range");
                }
                m.fees_accrued += referrer;
            }
            match oo {
                Some(oi) => {
                    m.ref_accrued += referrer;
                    let a = &mut self.oos[oi];
                    match side {
                        Side::Bid => a.base_free += base,
                        Side::Ask => a.quote_free += quote - taker_fees,
                    }
                    a.taker_volume += quote;
                    a.referrer += referrer;
                }
                None => m.taker_volume_wo_oo += quote,
            }
            if side == Side::Ask && quote < taker_fees {
                return Err("range");
            }
        }
        let m = &mut self.markets[mi];
        let fee_lots = (taker_fees + m.qls as i128 - 1) / m.qls as i128;
        if taker_fees + m.qls as i128 - 1 > i64::MAX as i128 {
            return Err("range");
        }
        let mut rem_quote = o.max_quote as i128 - quote_lots - fee_lots;
        for (id, q) in changed {
            m.book_mut(other).iter_mut().find(|x| x.id == id).unwrap().qty = q;
        }
        m.book_mut(other).retain(|x| !gone.contains(&x.id));

        let lock_price = match (o.peg, side) {
            (Some((_, lim)), Side::Bid) => lim,
            _ => price,
        };
        rem_quote -= m.maker_fee_ceil(rem_quote);
        let lots = rem_base.min(rem_quote / lock_price as i128);
        if lots <= 0 {
            post = false;
        }
        if let Some((_, lim)) = o.peg {
            if side.better(price, lim) {
                post = false;
            }
        }
        if o.kind == Kind::Fok && rem_base > 0 {
            return Err("fok");
        }
        let mut out = Amounts { base, quote, referrer, taker_fees, ..Default::default() };
        if post {
            if lots * lock_price as i128 > m.max_quote() {
                return Err("lots");
            }
            self.flags.posted = true;
            let oi = oo.ok_or("nooo")?;
            out.id = Some(id);
            out.posted_base = lots * m.bls as i128;
            out.posted_quote = lots * lock_price as i128 * m.qls as i128;
            if side == Side::Bid {
                out.maker_fees = m.maker_fee_ceil(out.posted_quote);
                self.oos[oi].locked_fees += out.maker_fees;
            }
            // make room: one order that has expired, of the same section first
            for sect in [o.peg.is_some(), o.peg.is_none()] {
                let b = self.markets[mi].book(side);
                let first = b.iter().filter(|x| x.pegged == sect).map(|x| x.expiry()).min();
                if let Some(e) = first {
                    if e < now {
                        let cands: Vec<Order> =
                            b.iter().filter(|x| x.pegged == sect && x.expiry() == e).cloned().collect();
                        let c = self.choose(cands.len());
                        let x = cands[c].clone();
                        self.markets[mi].book_mut(side).retain(|y| y.id != x.id);
                        self.flags.expired_removed = true;
                        self.out_event(mi, side, &x, oo, remaining)?;
                        break;
                    }
                }
            }
            if self.full(mi, side) {
                // worst of the worst fixed and the worst pegged order
                let rank = |x: &Order, p: i64| match side {
                    Side::Bid => (-(p as i128), x.seq),
                    Side::Ask => (p as i128, x.seq),
                };
                let b = self.markets[mi].book(side);
                let wf = b.iter().filter(|x| !x.pegged).max_by_key(|x| rank(x, x.price)).cloned();
                let wp = b.iter().filter(|x| x.pegged).max_by_key(|x| rank(x, x.price)).cloned();
                let wp = match (wp, oracle) {
                    (Some(x), Some(l)) => {
                        let p = (l as i128 + x.price as i128).clamp(1, i64::MAX as i128) as i64;
                        Some((x, p))
                    }
                    _ => None,
                };
                let worst = match (wf, wp) {
                    (None, None) => return Err("full"),
                    (Some(f), None) => (f.clone(), f.price),
                    (None, Some(p)) => p,
                    (Some(f), Some(p)) => {
                        if rank(&f, f.price) > rank(&p.0, p.1) {
                            (f.clone(), f.price)
                        } else {
                            p
                        }
                    }
                };
                if !side.better(price, worst.1) {
                    return Err("full");
                }
                self.markets[mi].book_mut(side).retain(|y| y.id != worst.0.id);
                self.flags.evicted = true;
                self.out_event(mi, side, &worst.0, oo, remaining)?;
            }
            // one place can be missing when the evicted order was alone in its section
            let b = self.markets[mi].book(side);
            let (f, p) = (b.iter().filter(|x| !x.pegged).count(), b.iter().filter(|x| x.pegged).count());
            let nodes = |k: usize| if k == 0 { 0 } else { 2 * k - 1 };
            let mine = if o.peg.is_some() { p } else { f };
            if nodes(f) + nodes(p) + if mine == 0 { 1 } else { 2 } > 1024 {
                return Err("room");
            }
            if self.oos[oi].orders.len() >= SLOTS {
                return Err("slots");
            }
            if let Some((_, rp, _)) = self.walk(mi, other, oracle).into_iter().find(|(_, rp, ok)| *ok && !side.better(*rp, price)) {
                self.flags.crossed = Some((price, rp));
            }
            self.markets[mi].book_mut(side).push(Order {
                id,
                seq,
                pegged: o.peg.is_some(),
                price: stored,
                owner,
                qty: lots as i64,
                ts: now,
                tif,
                peg_limit: o.peg.map(|x| x.1).unwrap_or(-1),
                client: o.client,
            });
            let a = &mut self.oos[oi];
            match side {
                Side::Bid => {
                    a.bids_base += lots;
                    a.bids_quote += lots * lock_price as i128;
                }
                Side::Ask => a.asks_base += lots,
            }
            a.orders.push(Entry {
                slot: None,
                id,
                client: o.client,
                locked: lock_price,
                side,
                pegged: o.peg.is_some(),
            });
        }
        Ok(out)
    }

    /// Cancel the account's orders in place order; those already off the book wait for their event.
    pub fn cancel_many(&mut self, oi: usize, side: Option<Side>, client: Option<u64>, mut limit: u8) -> R<i64> {
        let mut total = 0i64;
        let mut es = self.oos[oi].orders.clone();
        es.sort_by_key(|e| e.slot);
        let mi = self.oos[oi].market;
        for e in es {
            if side.map(|s| s != e.side).unwrap_or(false) || client.map(|c| c != e.client).unwrap_or(false) {
                continue;
            }
            if limit == 0 {
                break;
            }
            limit -= 1;
            if let Some(o) = self.markets[mi].book(e.side).iter().find(|o| o.id == e.id).cloned() {
                self.markets[mi].book_mut(e.side).retain(|x| x.id != e.id);
                self.release(oi, e.id, o.qty)?;
                self.flags.cancels += 1;
                total += o.qty;
            }
        }
        Ok(total)
    }

    pub fn transfer(&mut self, from: &Pubkey, to: &Pubkey, auth: &Pubkey, amount: i128) -> R<()> {
        if amount == 0 {
            return Ok(());
        }
        let f = self.tokens.get(from).ok_or("funds")?.clone();
        let t = self.tokens.get(to).ok_or("funds")?.clone();
        if f.owner != *auth || f.mint != t.mint || f.amount < amount || amount < 0 {
            return Err("funds");
        }
        self.tokens.get_mut(from).unwrap().amount -= amount;
        self.tokens.get_mut(to).unwrap().amount += amount;
        Ok(())
    }

    pub fn tif(&self, expiry: u64) -> Option<u16> {
        if expiry == 0 {
            return Some(0);
        }
        let now = self.now as u64;
        if expiry <= now {
            None
        } else {
            Some((expiry - now).min(u16::MAX as u64) as u16)
        }
    }

    /// All amounts must fit what is stored for them.
    pub fn in_range(&self) -> bool {
        let u = |x: i128| x >= 0 && x <= u64::MAX as i128;
        let i = |x: i128| x >= i64::MIN as i128 && x <= i64::MAX as i128;
        self.markets.iter().all(|m| {
            u(m.ref_accrued) && u(m.fees_available) && u(m.base_total) && u(m.quote_total) && m.fees_accrued >= 0
        }) && self.oos.iter().all(|o| {
            u(o.base_free)
                && u(o.quote_free)
                && u(o.locked_fees)
                && u(o.referrer)
                && i(o.bids_base)
                && i(o.asks_base)
                && i(o.bids_quote)
        }) && self.tokens.values().all(|t| u(t.amount))
    }
}
