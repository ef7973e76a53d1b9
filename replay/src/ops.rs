//! The instructions: what the model says they do, and how they are encoded for the program.
use crate::bank::{ata_address, ata_id, system_id, token_id, Meta};
use crate::model::*;
use solana_program::pubkey::Pubkey;

/// Account bytes, printed by their length only.
#[derive(Clone)]
pub struct Raw(pub Vec<u8>);

impl std::fmt::Debug for Raw {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "<{} bytes>", self.0.len())
    }
}

#[derive(Clone, Debug)]
pub struct NewMarket {
    pub key: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub heap: Pubkey,
    pub payer: Pubkey,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub oracle_a: Option<Pubkey>,
    pub oracle_b: Option<Pubkey>,
    pub fee_admin: Pubkey,
    pub oo_admin: Option<Pubkey>,
    pub consume_admin: Option<Pubkey>,
    pub close_admin: Option<Pubkey>,
    pub name: String,
    pub conf: f32,
    pub staleness: Option<u32>,
    pub qls: i64,
    pub bls: i64,
    pub maker_fee: i64,
    pub taker_fee: i64,
    pub expiry: i64,
}

#[derive(Clone, Debug)]
pub enum Op {
    Nop,
    CreateMarket(Box<NewMarket>),
    CloseMarket { m: usize, admin: Pubkey, dest: Pubkey },
    CreateIndexer { owner: Pubkey },
    CloseIndexer { owner: Pubkey, dest: Pubkey },
    CreateOo { owner: Pubkey, m: usize, delegate: Option<Pubkey>, name: String },
    CloseOo { oo: usize, signer: Pubkey, dest: Pubkey },
    Place { oo: usize, signer: Pubkey, token: Pubkey, vault: Pubkey, o: OrderIn, rem: Vec<Pubkey> },
    Edit { oo: usize, signer: Pubkey, token: Pubkey, vault: Pubkey, o: OrderIn, rem: Vec<Pubkey>, client: u64, expected: i64 },
    Many {
        oo: usize,
        signer: Pubkey,
        base_tok: Pubkey,
        quote_tok: Pubkey,
        cancel: bool,
        kind: Kind,
        bids: Vec<(i64, i64, u64)>,
        asks: Vec<(i64, i64, u64)>,
        limit: u8,
        rem: Vec<Pubkey>,
    },
    Take { m: usize, signer: Pubkey, payer: Pubkey, base_tok: Pubkey, quote_tok: Pubkey, o: OrderIn, rem: Vec<Pubkey> },
    Consume { m: usize, limit: usize, slots: Option<Vec<usize>>, rem: Vec<Pubkey> },
    CancelId { oo: usize, signer: Pubkey, id: u128 },
    CancelClient { oo: usize, signer: Pubkey, client: u64 },
    CancelAll { oo: usize, signer: Pubkey, side: Option<Side>, limit: u8 },
    Deposit { oo: usize, signer: Pubkey, base_tok: Pubkey, quote_tok: Pubkey, base: u64, quote: u64, refill: bool },
    Settle { oo: usize, signer: Pubkey, payer: Pubkey, base_tok: Pubkey, quote_tok: Pubkey, referrer: Option<Pubkey>, admin: Option<Pubkey> },
    Sweep { m: usize, admin: Pubkey, to: Pubkey },
    SetDelegate { oo: usize, signer: Pubkey, delegate: Option<Pubkey> },
    SetExpired { m: usize, admin: Pubkey },
    Prune { oo: usize, admin: Pubkey, limit: u8 },
    StubCreate { owner: Pubkey, mint: Pubkey, price: f64 },
    StubSet { oracle: Pubkey, signer: Pubkey, price: f64 },
    StubClose { oracle: Pubkey, signer: Pubkey, dest: Pubkey },
    /// not instructions: time passes, an oracle publishes
    Advance { secs: i64, slots: u64 },
    RawOracle { key: Pubkey, kind: OrcKind, price: f64, dev: f64, slot: u64, raw: Raw },
}

impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Nop => "nop",
            Op::CreateMarket(_) => "create_market",
            Op::CloseMarket { .. } => "close_market",
            Op::CreateIndexer { .. } => "create_indexer",
            Op::CloseIndexer { .. } => "close_indexer",
            Op::CreateOo { .. } => "create_oo",
            Op::CloseOo { .. } => "close_oo",
            Op::Place { .. } => "place",
            Op::Edit { .. } => "edit",
            Op::Many { .. } => "many",
            Op::Take { .. } => "take",
            Op::Consume { .. } => "consume",
            Op::CancelId { .. } => "cancel_id",
            Op::CancelClient { .. } => "cancel_client",
            Op::CancelAll { .. } => "cancel_all",
            Op::Deposit { .. } => "deposit",
            Op::Settle { admin: None, .. } => "settle",
            Op::Settle { .. } => "settle_expired",
            Op::Sweep { .. } => "sweep",
            Op::SetDelegate { .. } => "set_delegate",
            Op::SetExpired { .. } => "set_expired",
            Op::Prune { .. } => "prune",
            Op::StubCreate { .. } => "stub_create",
            Op::StubSet { .. } => "stub_set",
            Op::StubClose { .. } => "stub_close",
            Op::Advance { .. } => "advance",
            Op::RawOracle { .. } => "raw_oracle",
        }
    }
}

pub fn program() -> Pubkey {
    openbook_v2::ID
}
pub fn market_authority(market: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"Market", market.as_ref()], &program())
}
pub fn indexer_key(owner: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"OpenOrdersIndexer", owner.as_ref()], &program())
}
pub fn oo_key(owner: &Pubkey, n: u32) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"OpenOrders", owner.as_ref(), &n.to_le_bytes()], &program())
}
pub fn stub_key(owner: &Pubkey, mint: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"StubOracle", owner.as_ref(), mint.as_ref()], &program())
}

type R<T> = Result<T, Rej>;

impl Model {
    fn mint_of(&self, tok: &Pubkey) -> Option<Pubkey> {
        self.tokens.get(tok).map(|t| t.mint)
    }
    fn need_mint(&self, tok: &Pubkey, mint: &Pubkey) -> R<()> {
        if self.mint_of(tok) == Some(*mint) {
            Ok(())
        } else {
            Err("mint")
        }
    }
    fn open_market(&self, m: usize) -> R<()> {
        if self.markets[m].closed {
            Err("gone")
        } else {
            Ok(())
        }
    }
    fn open_oo(&self, oo: usize) -> R<usize> {
        if self.oos[oo].closed {
            return Err("gone");
        }
        let m = self.oos[oo].market;
        self.open_market(m)?;
        Ok(m)
    }
    fn acts_for(&self, oo: usize, signer: &Pubkey) -> R<()> {
        let o = &self.oos[oo];
        if o.owner == *signer || o.delegate == Some(*signer) {
            Ok(())
        } else {
            Err("auth")
        }
    }
    fn close_admin(&self, m: usize, admin: &Pubkey) -> R<()> {
        if self.markets[m].close_admin == Some(*admin) {
            Ok(())
        } else {
            Err("admin")
        }
    }

    fn place(&mut self, mi: usize, oo: usize, signer: &Pubkey, token: &Pubkey, vault: &Pubkey, o: &OrderIn, tif: u16, rem: &[Pubkey]) -> R<Option<u128>> {
        if o.max_base < 0 || o.max_quote < 0 {
            return Err("input");
        }
        let m = &self.markets[mi];
        if m.vault(o.side) != *vault {
            return Err("vault");
        }
        if m.expired(self.now) {
            return Err("expired");
        }
        let before = m.events.len();
        let oracle = self.oracle_lots(mi)?;
        let owner = self.oos[oo].key;
        let a = self.new_order(mi, o, tif, oracle, Some(oo), owner, rem)?;
        let acc = &mut self.oos[oo];
        let m = &mut self.markets[mi];
        let deposit = match o.side {
            Side::Bid => {
                let cost = a.quote + a.posted_quote + a.taker_fees + a.maker_fees;
                let free = cost.min(acc.quote_free);
                self.flags.free_used |= free > 0;
                acc.quote_free -= free;
                m.quote_total += cost - free;
                cost - free
            }
            Side::Ask => {
                let cost = a.base + a.posted_base;
                let free = cost.min(acc.base_free);
                self.flags.free_used |= free > 0;
                acc.base_free -= free;
                m.base_total += cost - free;
                cost - free
            }
        };
        if m.events.len() > before {
            acc.penalty += 1;
        }
        self.transfer(token, vault, signer, deposit)?;
        Ok(a.id)
    }

    /// Checks an order instruction makes on its accounts, then on price and lifetime.
    /// None: the order has expired already and is silently skipped.
    fn place_checks(&self, oo: usize, signer: &Pubkey, token: &Pubkey, vault: &Pubkey, o: &OrderIn) -> R<(usize, Option<u16>)> {
        let mi = self.open_oo(oo)?;
        self.acts_for(oo, signer)?;
        let m = &self.markets[mi];
        let vm = if *vault == m.base_vault {
            m.base_mint
        } else if *vault == m.quote_vault {
            m.quote_mint
        } else {
            return Err("vault");
        };
        self.need_mint(token, &vm)?;
        match o.peg {
            Some((_, lim)) => {
                if m.oracle_a.is_none() {
                    return Err("nooracle");
                }
                if lim <= 0 {
                    return Err("input");
                }
            }
            None => {
                if o.price < 1 {
                    return Err("input");
                }
            }
        }
        let tif = self.tif(o.expiry);
        if tif.is_some() && o.peg.is_some() && !o.kind.posts() {
            return Err("kind");
        }
        Ok((mi, tif))
    }

    pub fn apply(&mut self, op: &Op) -> R<Ret> {
        self.flags = Flags::default();
        self.lamports.clear();
        self.asked.clear();
        let r = self.apply_inner(op)?;
        if !self.in_range() {
            return Err("range");
        }
        Ok(r)
    }

    fn apply_inner(&mut self, op: &Op) -> R<Ret> {
        match op {
            Op::Nop => {}
            Op::Advance { secs, slots } => {
                self.now += secs;
                self.slot += slots;
            }
            Op::RawOracle { key, kind, price, dev, slot, .. } => {
                let z = Pubkey::default();
                self.oracles.insert(*key, Orc { kind: *kind, price: *price, dev: *dev, slot: *slot, owner: z, mint: z, closed: false });
            }
            Op::CreateMarket(n) => {
                if n.base_mint == n.quote_mint {
                    return Err("params");
                }
                let f = 1_000_000i64;
                if n.taker_fee < 0 || n.taker_fee > f || n.maker_fee > f || n.maker_fee < -n.taker_fee {
                    return Err("params");
                }
                if n.expiry != 0 && n.expiry <= self.now {
                    return Err("params");
                }
                if n.qls <= 0 || n.bls <= 0 || n.name.len() > 16 {
                    return Err("params");
                }
                let orc = |k: &Pubkey| self.oracles.get(k).filter(|o| !o.closed).map(|o| o.kind).ok_or("params");
                match (n.oracle_a, n.oracle_b) {
                    (Some(a), Some(b)) => {
                        if a == b || orc(&a)? != orc(&b)? {
                            return Err("params");
                        }
                    }
                    (Some(a), None) => {
                        orc(&a)?;
                    }
                    (None, Some(_)) => return Err("params"),
                    _ => {}
                }
                let (auth, _) = market_authority(&n.key);
                let bv = ata_address(&auth, &n.base_mint);
                let qv = ata_address(&auth, &n.quote_mint);
                for (k, mint) in [(bv, n.base_mint), (qv, n.quote_mint)] {
                    self.tokens.insert(k, Token { mint, owner: auth, amount: 0 });
                }
                self.markets.push(Mkt {
                    key: n.key,
                    closed: false,
                    authority: auth,
                    bids_key: n.bids,
                    asks_key: n.asks,
                    heap_key: n.heap,
                    base_mint: n.base_mint,
                    quote_mint: n.quote_mint,
                    base_vault: bv,
                    quote_vault: qv,
                    base_decimals: crate::world::decimals(&n.base_mint),
                    quote_decimals: crate::world::decimals(&n.quote_mint),
                    name: n.name.clone(),
                    time_expiry: n.expiry,
                    registration_time: self.now,
                    fee_admin: n.fee_admin,
                    oo_admin: n.oo_admin,
                    consume_admin: n.consume_admin,
                    close_admin: n.close_admin,
                    oracle_a: n.oracle_a,
                    oracle_b: n.oracle_b,
                    conf: n.conf,
                    staleness: n.staleness,
                    bls: n.bls,
                    qls: n.qls,
                    maker_fee: n.maker_fee,
                    taker_fee: n.taker_fee,
                    seq: 0,
                    fees_accrued: 0,
                    fees_to_referrers: 0,
                    ref_accrued: 0,
                    fees_available: 0,
                    maker_volume: 0,
                    taker_volume_wo_oo: 0,
                    base_total: 0,
                    quote_total: 0,
                    bids: vec![],
                    asks: vec![],
                    events: vec![],
                    heap_seq: 0,
                });
            }
            Op::CloseMarket { m, admin, .. } => {
                self.open_market(*m)?;
                self.close_admin(*m, admin)?;
                let k = &mut self.markets[*m];
                if !k.expired(self.now) {
                    return Err("notexpired");
                }
                if k.base_total != 0
                    || k.quote_total != 0
                    || k.fees_available != 0
                    || k.ref_accrued != 0
                    || !k.bids.is_empty()
                    || !k.asks.is_empty()
                    || !k.events.is_empty()
                {
                    return Err("nonempty");
                }
                k.closed = true;
            }
            Op::CreateIndexer { owner } => {
                let i = self.indexers.entry(*owner).or_default();
                if i.exists {
                    return Err("exists");
                }
                *i = Indexer { exists: true, counter: 0, addresses: vec![] };
            }
            Op::CloseIndexer { owner, .. } => {
                let i = self.indexers.entry(*owner).or_default();
                if !i.exists {
                    return Err("gone");
                }
                if !i.addresses.is_empty() {
                    return Err("nonempty");
                }
                *i = Indexer::default();
            }
            Op::CreateOo { owner, m, delegate, name } => {
                self.open_market(*m)?;
                let i = self.indexers.entry(*owner).or_default();
                if !i.exists {
                    return Err("gone");
                }
                if i.addresses.len() >= 256 || name.len() > 32 {
                    return Err("params");
                }
                let n = i.counter + 1;
                let key = oo_key(owner, n).0;
                if self.oos.iter().any(|o| o.key == key && !o.closed) {
                    return Err("exists");
                }
                let i = self.indexers.get_mut(owner).unwrap();
                i.counter = n;
                i.addresses.push(key);
                self.oos.push(Oo {
                    key,
                    closed: false,
                    owner: *owner,
                    market: *m,
                    delegate: *delegate,
                    num: n,
                    name: name.clone(),
                    bids_base: 0,
                    asks_base: 0,
                    bids_quote: 0,
                    base_free: 0,
                    quote_free: 0,
                    locked_fees: 0,
                    referrer: 0,
                    penalty: 0,
                    maker_volume: 0,
                    taker_volume: 0,
                    orders: vec![],
                });
            }
            Op::CloseOo { oo, signer, .. } => {
                let o = &self.oos[*oo];
                if o.closed {
                    return Err("gone");
                }
                if o.owner != *signer {
                    return Err("auth");
                }
                if o.bids_base != 0
                    || o.asks_base != 0
                    || o.bids_quote != 0
                    || o.base_free != 0
                    || o.quote_free != 0
                    || o.locked_fees != 0
                    || o.referrer != 0
                    || o.penalty != 0
                {
                    return Err("nonempty");
                }
                let key = o.key;
                let i = self.indexers.get_mut(signer).ok_or("gone")?;
                if !i.exists || !i.addresses.contains(&key) {
                    return Err("gone");
                }
                i.addresses.retain(|k| *k != key);
                self.oos[*oo].closed = true;
            }
            Op::Place { oo, signer, token, vault, o, rem } => {
                let (mi, tif) = self.place_checks(*oo, signer, token, vault, o)?;
                let id = match tif {
                    None => None,
                    Some(t) => self.place(mi, *oo, signer, token, vault, o, t, rem)?,
                };
                return Ok(Ret::Id(id));
            }
            Op::Edit { oo, signer, token, vault, o, rem, client, expected } => {
                let (mi, tif) = self.place_checks(*oo, signer, token, vault, o)?;
                let tif = match tif {
                    None => return Ok(Ret::Id(None)),
                    Some(t) => t,
                };
                if *expected < 0 {
                    return Err("input");
                }
                let got = self.cancel_many(*oo, None, Some(*client), u8::MAX)?;
                let filled = *expected as i128 - got as i128;
                if filled > 0 && o.max_base as i128 > filled {
                    let mut o = o.clone();
                    o.max_base -= filled as i64;
                    let id = self.place(mi, *oo, signer, token, vault, &o, tif, rem)?;
                    return Ok(Ret::Id(id));
                }
                return Ok(Ret::Id(None));
            }
            Op::Many { oo, signer, base_tok, quote_tok, cancel, kind, bids, asks, limit, rem } => {
                self.flags.batch = true;
                let mi = self.open_oo(*oo)?;
                self.acts_for(*oo, signer)?;
                let (bm, qm) = (self.markets[mi].base_mint, self.markets[mi].quote_mint);
                self.need_mint(base_tok, &bm)?;
                self.need_mint(quote_tok, &qm)?;
                let mut list = vec![];
                for (i, (p, q, e)) in bids.iter().chain(asks.iter()).enumerate() {
                    if *p < 1 {
                        return Err("input");
                    }
                    if let Some(t) = self.tif(*e) {
                        let side = if i < bids.len() { Side::Bid } else { Side::Ask };
                        list.push((side, *p, *q, i as u64, t));
                    }
                }
                if self.markets[mi].expired(self.now) {
                    return Err("expired");
                }
                let before = self.markets[mi].events.len();
                let oracle = self.oracle_lots(mi)?;
                if *cancel {
                    self.cancel_many(*oo, None, None, u8::MAX)?;
                }
                let user_base = self.tokens[base_tok].amount;
                let user_quote = self.tokens[quote_tok].amount;
                let owner = self.oos[*oo].key;
                let mut base = 0i128;
                let mut quote = 0i128;
                let mut ids = vec![];
                for (side, p, q, client, tif) in list {
                    if q < 0 {
                        return Err("input");
                    }
                    let m = &self.markets[mi];
                    let mut max_base = m.max_base();
                    let mut max_quote = q as i128;
                    match side {
                        Side::Ask => {
                            let avail = user_base + self.oos[*oo].base_free - base;
                            if avail < 0 {
                                return Err("range");
                            }
                            max_base = max_base.min(avail / m.bls as i128);
                        }
                        Side::Bid => {
                            let avail = user_quote + self.oos[*oo].quote_free - quote;
                            if avail < 0 {
                                return Err("range");
                            }
                            max_quote = max_quote.min(avail / m.qls as i128);
                        }
                    }
                    let o = OrderIn {
                        side,
                        kind: *kind,
                        peg: None,
                        price: p,
                        max_base: max_base as i64,
                        max_quote: max_quote as i64,
                        client,
                        expiry: 0,
                        stb: SelfTrade::CancelProvide,
                        limit: *limit,
                    };
                    let a = self.new_order(mi, &o, tif, oracle, Some(*oo), owner, rem)?;
                    match side {
                        Side::Bid => quote += a.quote + a.posted_quote + a.taker_fees + a.maker_fees,
                        Side::Ask => base += a.base + a.posted_base,
                    }
                    ids.push(a.id);
                }
                let acc = &mut self.oos[*oo];
                let fb = base.min(acc.base_free);
                let fq = quote.min(acc.quote_free);
                self.flags.free_used |= fb > 0 || fq > 0;
                acc.base_free -= fb;
                acc.quote_free -= fq;
                let m = &mut self.markets[mi];
                m.base_total += base - fb;
                m.quote_total += quote - fq;
                if m.events.len() > before {
                    acc.penalty += 1;
                }
                let (bv, qv) = (m.base_vault, m.quote_vault);
                self.transfer(quote_tok, &qv, signer, quote - fq)?;
                self.transfer(base_tok, &bv, signer, base - fb)?;
                return Ok(Ret::Ids(ids));
            }
            Op::Take { m, signer, payer, base_tok, quote_tok, o, rem } => {
                self.open_market(*m)?;
                let (bm, qm) = (self.markets[*m].base_mint, self.markets[*m].quote_mint);
                self.need_mint(base_tok, &bm)?;
                self.need_mint(quote_tok, &qm)?;
                if o.price < 1 {
                    return Err("input");
                }
                if o.kind.posts() {
                    return Err("kind");
                }
                if o.max_base < 0 || o.max_quote < 0 {
                    return Err("input");
                }
                if self.markets[*m].expired(self.now) {
                    return Err("expired");
                }
                let before = self.markets[*m].events.len();
                let oracle = self.oracle_lots(*m)?;
                let mut o = o.clone();
                o.client = 0;
                o.stb = SelfTrade::Decrement;
                let a = self.new_order(*m, &o, 0, oracle, None, *signer, rem)?;
                let rebates = a.taker_fees - a.referrer;
                let k = &mut self.markets[*m];
                let (bv, qv, auth) = (k.base_vault, k.quote_vault, k.authority);
                if k.events.len() > before {
                    self.lamports.push((*payer, k.key, PENALTY));
                }
                match o.side {
                    Side::Bid => {
                        k.base_total -= a.base;
                        k.quote_total += a.quote + rebates;
                        self.transfer(quote_tok, &qv, signer, a.quote + rebates)?;
                        self.transfer(&bv, base_tok, &auth, a.base)?;
                    }
                    Side::Ask => {
                        k.base_total += a.base;
                        k.quote_total -= a.quote - rebates;
                        self.transfer(base_tok, &bv, signer, a.base)?;
                        self.transfer(&qv, quote_tok, &auth, a.quote - rebates)?;
                    }
                }
            }
            Op::Consume { m, limit, slots, rem } => {
                self.open_market(*m)?;
                let n = (*limit).min(8);
                let mut order: Vec<usize> = vec![];
                if let Some(s) = slots {
                    if s.iter().any(|x| *x >= 600) {
                        return Err("input");
                    }
                    for x in s {
                        if self.markets[*m].events.iter().any(|e| e.0 == Some(*x as u16)) {
                            order.push(*x);
                        }
                    }
                }
                order.extend(self.markets[*m].events.iter().map(|e| e.0.unwrap() as usize));
                let mut uniq: Vec<usize> = vec![];
                for x in order {
                    if !uniq.contains(&x) {
                        uniq.push(x);
                    }
                }
                uniq.truncate(n);
                for s in uniq {
                    let i = self.markets[*m].events.iter().position(|e| e.0 == Some(s as u16)).unwrap();
                    let e = self.markets[*m].events[i].1.clone();
                    if !rem.contains(&e.account()) {
                        continue;
                    }
                    match &e {
                        Event::Fill { .. } => {
                            self.flags.fills += 1;
                            self.settle_maker(*m, &e)?
                        }
                        Event::Out { id, owner, qty, .. } => {
                            self.flags.outs += 1;
                            let oi = self.oo_by_key(owner).ok_or("noaccount")?;
                            self.release(oi, *id, *qty)?
                        }
                    }
                    self.markets[*m].events.remove(i);
                }
            }
            Op::CancelId { oo, signer, id } => {
                let mi = self.open_oo(*oo)?;
                self.acts_for(*oo, signer)?;
                if *id == 0 {
                    return Err("input");
                }
                let e = self.oos[*oo].orders.iter().find(|e| e.id == *id).cloned().ok_or("notfound")?;
                let o = self.markets[mi].book(e.side).iter().find(|o| o.id == *id).cloned().ok_or("notfound")?;
                self.markets[mi].book_mut(e.side).retain(|o| o.id != *id);
                self.flags.cancels += 1;
                self.release(*oo, *id, o.qty)?;
            }
            Op::CancelClient { oo, signer, client } => {
                self.open_oo(*oo)?;
                self.acts_for(*oo, signer)?;
                let q = self.cancel_many(*oo, None, Some(*client), u8::MAX)?;
                return Ok(Ret::Qty(q));
            }
            Op::CancelAll { oo, signer, side, limit } => {
                self.open_oo(*oo)?;
                self.acts_for(*oo, signer)?;
                self.cancel_many(*oo, *side, None, *limit)?;
            }
            Op::Prune { oo, admin, limit } => {
                let m = self.open_oo(*oo)?;
                self.close_admin(m, admin)?;
                if !self.markets[m].expired(self.now) {
                    return Err("notexpired");
                }
                self.cancel_many(*oo, None, None, *limit)?;
            }
            Op::Deposit { oo, signer, base_tok, quote_tok, base, quote, refill } => {
                let mi = self.open_oo(*oo)?;
                let (bm, qm) = (self.markets[mi].base_mint, self.markets[mi].quote_mint);
                self.need_mint(base_tok, &bm)?;
                self.need_mint(quote_tok, &qm)?;
                if self.markets[mi].expired(self.now) {
                    return Err("expired");
                }
                let mut b = *base as i128;
                let mut q = *quote as i128;
                if *refill {
                    b -= b.min(self.oos[*oo].base_free);
                    q -= q.min(self.oos[*oo].quote_free);
                }
                let (bv, qv) = (self.markets[mi].base_vault, self.markets[mi].quote_vault);
                self.transfer(base_tok, &bv, signer, b)?;
                self.transfer(quote_tok, &qv, signer, q)?;
                self.oos[*oo].base_free += b;
                self.oos[*oo].quote_free += q;
                self.markets[mi].base_total += b;
                self.markets[mi].quote_total += q;
            }
            Op::Settle { oo, signer, payer, base_tok, quote_tok, referrer, admin } => {
                let mi = self.open_oo(*oo)?;
                let (bm, qm) = (self.markets[mi].base_mint, self.markets[mi].quote_mint);
                self.need_mint(base_tok, &bm)?;
                self.need_mint(quote_tok, &qm)?;
                if let Some(r) = referrer {
                    self.need_mint(r, &qm)?;
                }
                let own = |t: &Pubkey| self.tokens[t].owner == self.oos[*oo].owner;
                match admin {
                    None => {
                        self.acts_for(*oo, signer)?;
                        if self.oos[*oo].delegate == Some(*signer) && !(own(base_tok) && own(quote_tok)) {
                            return Err("dest");
                        }
                    }
                    Some(a) => {
                        self.close_admin(mi, a)?;
                        if !(own(base_tok) && own(quote_tok)) {
                            return Err("dest");
                        }
                        if !self.markets[mi].expired(self.now) {
                            return Err("notexpired");
                        }
                    }
                }
                let m = &mut self.markets[mi];
                let a = &mut self.oos[*oo];
                let mut rebate = a.referrer;
                if m.maker_fee > 0 && a.bids_base == 0 {
                    rebate += a.locked_fees;
                    a.locked_fees = 0;
                }
                if referrer.is_some() {
                    m.fees_to_referrers += rebate;
                    m.quote_total -= rebate;
                } else {
                    m.fees_available += rebate;
                }
                m.base_total -= a.base_free;
                m.quote_total -= a.quote_free;
                m.ref_accrued -= a.referrer;
                if a.penalty > 0 {
                    self.lamports.push((*payer, m.key, a.penalty as u64 * PENALTY));
                }
                let (b, q) = (a.base_free, a.quote_free);
                a.base_free = 0;
                a.quote_free = 0;
                a.referrer = 0;
                a.penalty = 0;
                let (bv, qv, auth) = (m.base_vault, m.quote_vault, m.authority);
                if let Some(r) = referrer {
                    self.transfer(&qv, r, &auth, rebate)?;
                }
                self.transfer(&bv, base_tok, &auth, b)?;
                self.transfer(&qv, quote_tok, &auth, q)?;
            }
            Op::Sweep { m, admin, to } => {
                self.open_market(*m)?;
                let k = &mut self.markets[*m];
                if k.fee_admin != *admin {
                    return Err("admin");
                }
                let (qm, qv, auth) = (k.quote_mint, k.quote_vault, k.authority);
                let amount = k.fees_available;
                k.fees_available = 0;
                k.quote_total -= amount;
                self.need_mint(to, &qm)?;
                self.transfer(&qv, to, &auth, amount)?;
            }
            Op::SetDelegate { oo, signer, delegate } => {
                if self.oos[*oo].closed {
                    return Err("gone");
                }
                if self.oos[*oo].owner != *signer {
                    return Err("auth");
                }
                self.oos[*oo].delegate = *delegate;
            }
            Op::SetExpired { m, admin } => {
                self.open_market(*m)?;
                self.close_admin(*m, admin)?;
                if self.markets[*m].expired(self.now) {
                    return Err("expired");
                }
                self.markets[*m].time_expiry = -1;
            }
            Op::StubCreate { owner, mint, price } => {
                let k = stub_key(owner, mint).0;
                if self.oracles.get(&k).map(|o| !o.closed).unwrap_or(false) {
                    return Err("exists");
                }
                let (slot, p) = (self.slot, *price);
                self.oracles.insert(k, Orc { kind: OrcKind::Stub, price: p, dev: 0.0, slot, owner: *owner, mint: *mint, closed: false });
            }
            Op::StubSet { oracle, signer, price } => {
                let slot = self.slot;
                let o = self.oracles.get_mut(oracle).filter(|o| !o.closed).ok_or("gone")?;
                if o.owner != *signer {
                    return Err("auth");
                }
                o.price = *price;
                o.slot = slot;
            }
            Op::StubClose { oracle, signer, .. } => {
                let o = self.oracles.get_mut(oracle).filter(|o| !o.closed).ok_or("gone")?;
                if o.owner != *signer {
                    return Err("auth");
                }
                o.closed = true;
            }
        }
        Ok(Ret::None)
    }
}

/// An encoded instruction; every account has the role it plays.
pub struct Ix {
    pub roles: Vec<&'static str>,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

struct B {
    ix: Ix,
}
impl B {
    fn new(name: &str) -> B {
        let h = solana_program::hash::hash(format!("global:{name}").as_bytes());
        B { ix: Ix { roles: vec![], metas: vec![], data: h.as_ref()[..8].to_vec() } }
    }
    fn acc(&mut self, role: &'static str, key: Pubkey, signer: bool, writable: bool) -> &mut B {
        self.ix.roles.push(role);
        self.ix.metas.push(Meta { key, signer, writable });
        self
    }
    fn s(&mut self, role: &'static str, key: Pubkey) -> &mut B {
        self.acc(role, key, true, false)
    }
    fn sw(&mut self, role: &'static str, key: Pubkey) -> &mut B {
        self.acc(role, key, true, true)
    }
    fn w(&mut self, role: &'static str, key: Pubkey) -> &mut B {
        self.acc(role, key, false, true)
    }
    fn r(&mut self, role: &'static str, key: Pubkey) -> &mut B {
        self.acc(role, key, false, false)
    }
    fn opt(&mut self, role: &'static str, key: Option<Pubkey>, signer: bool, writable: bool) -> &mut B {
        match key {
            Some(k) => self.acc(role, k, signer, writable),
            None => self.acc("none", program(), false, false),
        }
    }
    fn b(&mut self, bytes: &[u8]) -> &mut B {
        self.ix.data.extend_from_slice(bytes);
        self
    }
    fn u8(&mut self, v: u8) -> &mut B {
        self.b(&[v])
    }
    fn i64(&mut self, v: i64) -> &mut B {
        self.b(&v.to_le_bytes())
    }
    fn u64(&mut self, v: u64) -> &mut B {
        self.b(&v.to_le_bytes())
    }
    fn str(&mut self, s: &str) -> &mut B {
        self.b(&(s.len() as u32).to_le_bytes()).b(s.as_bytes())
    }
    fn order(&mut self, o: &OrderIn) -> &mut B {
        self.u8(o.side as u8);
        match o.peg {
            None => {
                self.i64(o.price);
            }
            Some((off, lim)) => {
                self.i64(off).i64(lim);
            }
        }
        self.i64(o.max_base).i64(o.max_quote).u64(o.client).u8(o.kind.code()).u64(o.expiry).u8(o.stb as u8).u8(o.limit)
    }
    fn rem(&mut self, rem: &[Pubkey]) -> &mut B {
        for k in rem {
            self.w("remaining", *k);
        }
        self
    }
}

impl Model {
    fn order_accounts(&self, b: &mut B, oo: usize, signer: &Pubkey, token: &Pubkey, vault: &Pubkey) {
        let o = &self.oos[oo];
        let m = &self.markets[o.market];
        b.s("signer", *signer)
            .w("open_orders_account", o.key)
            .opt("open_orders_admin", m.oo_admin, true, false)
            .w("user_token", *token)
            .w("market", m.key)
            .w("bids", m.bids_key)
            .w("asks", m.asks_key)
            .w("event_heap", m.heap_key)
            .w("vault", *vault)
            .opt("oracle_a", m.oracle_a, false, false)
            .opt("oracle_b", m.oracle_b, false, false)
            .r("token_program", token_id());
    }

    pub fn build(&self, op: &Op) -> Option<Ix> {
        let mut b;
        match op {
            Op::Nop | Op::Advance { .. } | Op::RawOracle { .. } => return None,
            Op::CreateMarket(n) => {
                b = B::new("create_market");
                let (auth, _) = market_authority(&n.key);
                b.sw("new_market", n.key)
                    .r("market_authority", auth)
                    .w("new_bids", n.bids)
                    .w("new_asks", n.asks)
                    .w("new_heap", n.heap)
                    .sw("payer", n.payer)
                    .w("new_base_vault", ata_address(&auth, &n.base_mint))
                    .w("new_quote_vault", ata_address(&auth, &n.quote_mint))
                    .r("base_mint", n.base_mint)
                    .r("quote_mint", n.quote_mint)
                    .r("system_program", system_id())
                    .r("token_program", token_id())
                    .r("ata_program", ata_id())
                    .opt("new_oracle_a", n.oracle_a, false, false)
                    .opt("new_oracle_b", n.oracle_b, false, false)
                    .r("any", n.fee_admin)
                    .opt("any", n.oo_admin, false, false)
                    .opt("any", n.consume_admin, false, false)
                    .opt("any", n.close_admin, false, false)
                    .r("event_authority", Pubkey::find_program_address(&[b"__event_authority"], &program()).0)
                    .r("program", program());
                b.str(&n.name).b(&n.conf.to_le_bytes());
                match n.staleness {
                    None => b.u8(0),
                    Some(s) => b.u8(1).b(&s.to_le_bytes()),
                };
                b.i64(n.qls).i64(n.bls).i64(n.maker_fee).i64(n.taker_fee).i64(n.expiry);
            }
            Op::CloseMarket { m, admin, dest } => {
                let k = &self.markets[*m];
                b = B::new("close_market");
                b.s("close_market_admin", *admin)
                    .w("market", k.key)
                    .w("bids", k.bids_key)
                    .w("asks", k.asks_key)
                    .w("event_heap", k.heap_key)
                    .w("any", *dest)
                    .r("token_program", token_id());
            }
            Op::CreateIndexer { owner } => {
                b = B::new("create_open_orders_indexer");
                b.sw("payer", *owner).s("owner", *owner).w("indexer", indexer_key(owner).0).r("system_program", system_id());
            }
            Op::CloseIndexer { owner, dest } => {
                b = B::new("close_open_orders_indexer");
                b.s("owner", *owner).w("indexer", indexer_key(owner).0).w("any", *dest).r("token_program", token_id());
            }
            Op::CreateOo { owner, m, delegate, name } => {
                let n = self.indexers.get(owner).map(|i| i.counter).unwrap_or(0) + 1;
                b = B::new("create_open_orders_account");
                b.sw("payer", *owner)
                    .s("owner", *owner)
                    .opt("any", *delegate, false, false)
                    .w("indexer", indexer_key(owner).0)
                    .w("new_oo", oo_key(owner, n).0)
                    .r("market_any", self.markets[*m].key)
                    .r("system_program", system_id());
                b.str(name);
            }
            Op::CloseOo { oo, signer, dest } => {
                b = B::new("close_open_orders_account");
                b.s("owner", *signer)
                    .w("indexer", indexer_key(signer).0)
                    .w("oo_owned", self.oos[*oo].key)
                    .w("any", *dest)
                    .r("system_program", system_id());
            }
            Op::Place { oo, signer, token, vault, o, rem } => {
                b = B::new(if o.peg.is_some() { "place_order_pegged" } else { "place_order" });
                self.order_accounts(&mut b, *oo, signer, token, vault);
                b.rem(rem).order(o);
            }
            Op::Edit { oo, signer, token, vault, o, rem, client, expected } => {
                b = B::new(if o.peg.is_some() { "edit_order_pegged" } else { "edit_order" });
                self.order_accounts(&mut b, *oo, signer, token, vault);
                b.rem(rem).u64(*client).i64(*expected).order(o);
            }
            Op::Many { oo, signer, base_tok, quote_tok, cancel, kind, bids, asks, limit, rem } => {
                let o = &self.oos[*oo];
                let m = &self.markets[o.market];
                b = B::new(if *cancel { "cancel_all_and_place_orders" } else { "place_orders" });
                b.s("signer", *signer)
                    .w("open_orders_account", o.key)
                    .opt("open_orders_admin", m.oo_admin, true, false)
                    .w("user_quote", *quote_tok)
                    .w("user_base", *base_tok)
                    .w("market", m.key)
                    .w("bids", m.bids_key)
                    .w("asks", m.asks_key)
                    .w("event_heap", m.heap_key)
                    .w("quote_vault", m.quote_vault)
                    .w("base_vault", m.base_vault)
                    .opt("oracle_a", m.oracle_a, false, false)
                    .opt("oracle_b", m.oracle_b, false, false)
                    .r("token_program", token_id())
                    .rem(rem);
                b.u8(kind.code());
                for l in [bids, asks] {
                    b.b(&(l.len() as u32).to_le_bytes());
                    for (p, q, e) in l {
                        b.i64(*p).i64(*q).u64(*e);
                    }
                }
                b.u8(*limit);
            }
            Op::Take { m, signer, payer, base_tok, quote_tok, o, rem } => {
                let m = &self.markets[*m];
                b = B::new("place_take_order");
                b.sw("taker", *signer)
                    .sw("penalty_payer", *payer)
                    .w("market", m.key)
                    .r("market_authority", m.authority)
                    .w("bids", m.bids_key)
                    .w("asks", m.asks_key)
                    .w("base_vault", m.base_vault)
                    .w("quote_vault", m.quote_vault)
                    .w("event_heap", m.heap_key)
                    .w("user_base", *base_tok)
                    .w("user_quote", *quote_tok)
                    .opt("oracle_a", m.oracle_a, false, false)
                    .opt("oracle_b", m.oracle_b, false, false)
                    .r("token_program", token_id())
                    .r("system_program", system_id())
                    .opt("open_orders_admin", m.oo_admin, true, false)
                    .rem(rem);
                b.u8(o.side as u8).i64(o.price).i64(o.max_base).i64(o.max_quote).u8(o.kind.code()).u8(o.limit);
            }
            Op::Consume { m, limit, slots, rem } => {
                let m = &self.markets[*m];
                b = B::new(if slots.is_some() { "consume_given_events" } else { "consume_events" });
                b.opt("consume_events_admin", m.consume_admin, true, false).w("market", m.key).w("event_heap", m.heap_key).rem(rem);
                match slots {
                    None => {
                        b.u64(*limit as u64);
                    }
                    Some(s) => {
                        b.b(&(s.len() as u32).to_le_bytes());
                        for x in s {
                            b.u64(*x as u64);
                        }
                    }
                }
            }
            Op::CancelId { oo, signer, .. } | Op::CancelClient { oo, signer, .. } | Op::CancelAll { oo, signer, .. } => {
                let o = &self.oos[*oo];
                let m = &self.markets[o.market];
                b = B::new(match op {
                    Op::CancelId { .. } => "cancel_order",
                    Op::CancelClient { .. } => "cancel_order_by_client_order_id",
                    _ => "cancel_all_orders",
                });
                b.s("signer", *signer).w("open_orders_account", o.key).r("market", m.key).w("bids", m.bids_key).w("asks", m.asks_key);
                match op {
                    Op::CancelId { id, .. } => {
                        b.b(&id.to_le_bytes());
                    }
                    Op::CancelClient { client, .. } => {
                        b.u64(*client);
                    }
                    Op::CancelAll { side, limit, .. } => {
                        match side {
                            None => b.u8(0),
                            Some(s) => b.u8(1).u8(*s as u8),
                        };
                        b.u8(*limit);
                    }
                    _ => {}
                }
            }
            Op::Prune { oo, admin, limit } => {
                let o = &self.oos[*oo];
                let m = &self.markets[o.market];
                b = B::new("prune_orders");
                b.s("close_market_admin", *admin).w("open_orders_account", o.key).r("market", m.key).w("bids", m.bids_key).w("asks", m.asks_key).u8(*limit);
            }
            Op::Deposit { oo, signer, base_tok, quote_tok, base, quote, refill } => {
                let o = &self.oos[*oo];
                let m = &self.markets[o.market];
                b = B::new(if *refill { "refill" } else { "deposit" });
                b.s("depositor", *signer)
                    .w("user_base", *base_tok)
                    .w("user_quote", *quote_tok)
                    .w("open_orders_account", o.key)
                    .w("market", m.key)
                    .w("base_vault", m.base_vault)
                    .w("quote_vault", m.quote_vault)
                    .r("token_program", token_id());
                b.u64(*base).u64(*quote);
            }
            Op::Settle { oo, signer, payer, base_tok, quote_tok, referrer, admin } => {
                let o = &self.oos[*oo];
                let m = &self.markets[o.market];
                match admin {
                    None => {
                        b = B::new("settle_funds");
                        b.s("signer", *signer);
                    }
                    Some(a) => {
                        b = B::new("settle_funds_expired");
                        b.s("close_market_admin", *a).sw("any_signer", *signer);
                    }
                }
                b.sw("penalty_payer", *payer)
                    .w("open_orders_account", o.key)
                    .w("market", m.key)
                    .r("market_authority", m.authority)
                    .w("base_vault", m.base_vault)
                    .w("quote_vault", m.quote_vault)
                    .w(if admin.is_some() || o.delegate == Some(*signer) { "owner_base" } else { "user_base" }, *base_tok)
                    .w(if admin.is_some() || o.delegate == Some(*signer) { "owner_quote" } else { "user_quote" }, *quote_tok)
                    .opt("referrer", *referrer, false, true)
                    .r("token_program", token_id())
                    .r("system_program", system_id());
            }
            Op::Sweep { m, admin, to } => {
                let m = &self.markets[*m];
                b = B::new("sweep_fees");
                b.s("fee_admin", *admin)
                    .w("market", m.key)
                    .r("market_authority", m.authority)
                    .w("quote_vault", m.quote_vault)
                    .w("user_quote", *to)
                    .r("token_program", token_id());
            }
            Op::SetDelegate { oo, signer, delegate } => {
                b = B::new("set_delegate");
                b.sw("owner", *signer).w("oo_owned", self.oos[*oo].key).opt("any", *delegate, false, false);
            }
            Op::SetExpired { m, admin } => {
                b = B::new("set_market_expired");
                b.s("close_market_admin", *admin).w("market_admin", self.markets[*m].key);
            }
            Op::StubCreate { owner, mint, price } => {
                b = B::new("stub_oracle_create");
                b.sw("payer", *owner).s("owner", *owner).w("new_oracle", stub_key(owner, mint).0).r("mint", *mint).r("system_program", system_id());
                b.b(&price.to_le_bytes());
            }
            Op::StubSet { oracle, signer, price } => {
                b = B::new("stub_oracle_set");
                b.s("oracle_owner", *signer).w("oracle_owned", *oracle).b(&price.to_le_bytes());
            }
            Op::StubClose { oracle, signer, dest } => {
                b = B::new("stub_oracle_close");
                b.s("oracle_owner", *signer).w("oracle_owned", *oracle).w("any", *dest).r("token_program", token_id());
            }
        }
        Some(b.ix)
    }
}
