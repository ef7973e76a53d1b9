//! Comparison of the program's accounts with the model, and invariants of the accounts themselves.
use crate::bank::Bank;
use crate::model::*;
use crate::ops::*;
use crate::wire;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;

pub type Tags = BTreeSet<&'static str>;

#[derive(Clone, Debug)]
pub struct Diff {
    pub class: &'static str,
    pub text: String,
}

fn d(v: &mut Vec<Diff>, class: &'static str, text: String) {
    if v.len() < 40 {
        v.push(Diff { class, text });
    }
}

macro_rules! cmp {
    ($v:expr, $class:expr, $what:expr, $real:expr, $model:expr) => {{
        let (r, m) = ($real, $model);
        if r != m {
            d($v, $class, format!("{}: program has {:?}, expected {:?}", $what, r, m));
        }
    }};
}

fn key(o: Option<Pubkey>) -> Pubkey {
    o.unwrap_or_default()
}
fn text(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

fn side_tree(side: Side, pegged: bool) -> u8 {
    side as u8 + if pegged { 2 } else { 0 }
}

pub struct Compare<'a> {
    pub bank: &'a Bank,
    pub before: &'a Model,
    pub after: &'a mut Model,
}

impl<'a> Compare<'a> {
    fn touched(&self, k: &Pubkey) -> bool {
        self.bank.changed.contains(k)
    }

    pub fn run(&mut self) -> Vec<Diff> {
        let mut v = vec![];
        for i in 0..self.after.oos.len() {
            let a = &self.after.oos[i];
            if self.touched(&a.key) || self.before.oos.get(i) != Some(a) {
                self.oo(i, &mut v);
            }
        }
        for i in 0..self.after.markets.len() {
            let a = &self.after.markets[i];
            let ks = [a.key, a.bids_key, a.asks_key, a.heap_key];
            if ks.iter().any(|k| self.touched(k)) || self.before.markets.get(i) != Some(a) {
                self.market(i, &mut v);
            }
        }
        for (k, t) in &self.after.tokens {
            if self.touched(k) || self.before.tokens.get(k) != Some(t) {
                let real = self.bank.token_amount(k) as i128;
                if real != t.amount {
                    let vault = self.after.markets.iter().any(|m| m.base_vault == *k || m.quote_vault == *k);
                    let was = self.before.tokens.get(k).map(|t| t.amount).unwrap_or(0);
                    d(
                        &mut v,
                        if vault { "vault" } else { "token" },
                        format!("token account {k}: had {was}, program left {real}, expected {}", t.amount),
                    );
                }
            }
        }
        for (o, x) in &self.after.indexers {
            let k = indexer_key(o).0;
            if self.touched(&k) || self.before.indexers.get(o) != Some(x) {
                let data = self.bank.data(&k);
                if !x.exists {
                    cmp!(&mut v, "indexer", "closed owner index", data.len(), 0);
                    continue;
                }
                if data.len() < 17 {
                    d(&mut v, "indexer", "owner index missing".into());
                    continue;
                }
                let n = u32::from_le_bytes(data[13..17].try_into().unwrap()) as usize;
                let counter = u32::from_le_bytes(data[9..13].try_into().unwrap());
                cmp!(&mut v, "indexer", "owner index creation counter", counter, x.counter);
                let have: Vec<Pubkey> = (0..n)
                    .filter_map(|i| data.get(17 + 32 * i..49 + 32 * i))
                    .map(|b| Pubkey::try_from(b).unwrap())
                    .collect();
                cmp!(&mut v, "indexer", "owner index entries", have, x.addresses.clone());
            }
        }
        for (k, o) in &self.after.oracles {
            if o.kind != OrcKind::Stub || !(self.touched(k) || self.before.oracles.get(k) != Some(o)) {
                continue;
            }
            let data = self.bank.data(k);
            if o.closed {
                cmp!(&mut v, "stub", "closed stub oracle", data.len(), 0);
            } else if data.len() != 208 {
                d(&mut v, "stub", "stub oracle missing".into());
            } else {
                let w = |i: usize| u64::from_le_bytes(data[i..i + 8].try_into().unwrap());
                cmp!(&mut v, "stub", "stub oracle price", w(72), o.price.to_bits());
                cmp!(&mut v, "stub", "stub oracle slot", w(88), o.slot);
                cmp!(&mut v, "stub", "stub oracle owner", Pubkey::try_from(&data[8..40]).unwrap(), o.owner);
            }
        }
        v
    }

    fn oo(&mut self, i: usize, v: &mut Vec<Diff>) {
        let mut o = self.after.oos[i].clone();
        let data = self.bank.data(&o.key);
        if o.closed && self.after.oos.iter().any(|x| x.key == o.key && !x.closed) {
            return; // the address is in use again
        }
        if o.closed {
            cmp!(v, "oo_life", "closed trader account", data.len(), 0);
            return;
        }
        if data.len() != wire::OO_LEN {
            d(v, "oo_life", format!("trader account {} missing", o.key));
            return;
        }
        let w = wire::oo(data);
        let n = &o.name;
        cmp!(v, "oo_static", format!("account {n} owner"), w.owner, o.owner);
        cmp!(v, "oo_static", format!("account {n} market"), w.market, self.after.markets[o.market].key);
        cmp!(v, "oo_static", format!("account {n} name"), text(&w.name), o.name.clone());
        cmp!(v, "oo_static", format!("account {n} number"), w.account_num, o.num);
        cmp!(v, "delegate", format!("account {n} delegate"), w.delegate, key(o.delegate));
        cmp!(v, "oo_total", format!("account {n} base lots in bids"), w.bids_base_lots as i128, o.bids_base);
        cmp!(v, "oo_total", format!("account {n} base lots in asks"), w.asks_base_lots as i128, o.asks_base);
        cmp!(v, "oo_total", format!("account {n} quote lots in bids"), w.bids_quote_lots as i128, o.bids_quote);
        cmp!(v, "oo_free", format!("account {n} free base"), w.base_free_native as i128, o.base_free);
        cmp!(v, "oo_free", format!("account {n} free quote"), w.quote_free_native as i128, o.quote_free);
        cmp!(v, "oo_lockfee", format!("account {n} locked maker fees"), w.locked_maker_fees as i128, o.locked_fees);
        cmp!(v, "oo_rebate", format!("account {n} referrer rebates"), w.referrer_rebates_available as i128, o.referrer);
        cmp!(v, "penalty", format!("account {n} penalty count"), w.penalty_heap_count as i128, o.penalty);
        cmp!(v, "volume", format!("account {n} maker volume"), w.maker_volume as i128, o.maker_volume);
        cmp!(v, "volume", format!("account {n} taker volume"), w.taker_volume as i128, o.taker_volume);
        let orders = w.orders;
        let mut seen = vec![];
        for (s, r) in orders.iter().enumerate() {
            if r.is_free != 0 {
                continue;
            }
            let id = r.id;
            match o.orders.iter_mut().find(|e| e.id == id) {
                None => d(v, "oo_slot", format!("account {n}: slot {s} holds order {id:#x} which should be gone")),
                Some(e) => {
                    if seen.contains(&id) {
                        d(v, "oo_slot", format!("account {n}: order {id:#x} recorded twice"));
                    }
                    seen.push(id);
                    match e.slot {
                        None => e.slot = Some(s as u8),
                        Some(x) => cmp!(v, "oo_slot", format!("account {n}: slot of order {id:#x}"), s as u8, x),
                    }
                    cmp!(v, "oo_slot", format!("account {n}: client id of slot {s}"), { r.client_id }, e.client);
                    cmp!(v, "oo_lock", format!("account {n}: locked price of slot {s}"), { r.locked_price }, e.locked);
                    cmp!(v, "oo_slot", format!("account {n}: side of slot {s}"), r.side_and_tree, side_tree(e.side, e.pegged));
                }
            }
        }
        for e in &o.orders {
            if !seen.contains(&e.id) {
                d(v, "oo_slot", format!("account {n}: order {:#x} is not recorded", e.id));
            }
        }
        self.after.oos[i] = o;
    }

    fn market(&mut self, i: usize, v: &mut Vec<Diff>) {
        let m = self.after.markets[i].clone();
        if m.closed {
            for k in [m.key, m.bids_key, m.asks_key, m.heap_key] {
                cmp!(v, "mkt_life", "account of a closed market", self.bank.data(&k).len(), 0);
            }
            return;
        }
        let data = self.bank.data(&m.key);
        if data.len() != wire::MARKET_LEN {
            d(v, "mkt_life", format!("market {} missing", m.key));
            return;
        }
        let w = wire::market(data);
        let (_, bump) = market_authority(&m.key);
        let fixed = [
            ("authority", w.market_authority, m.authority),
            ("fee admin", w.collect_fee_admin, m.fee_admin),
            ("orders admin", w.open_orders_admin, key(m.oo_admin)),
            ("events admin", w.consume_events_admin, key(m.consume_admin)),
            ("close admin", w.close_market_admin, key(m.close_admin)),
            ("bids", w.bids, m.bids_key),
            ("asks", w.asks, m.asks_key),
            ("event queue", w.event_heap, m.heap_key),
            ("oracle a", w.oracle_a, key(m.oracle_a)),
            ("oracle b", w.oracle_b, key(m.oracle_b)),
            ("base mint", w.base_mint, m.base_mint),
            ("quote mint", w.quote_mint, m.quote_mint),
            ("base vault", w.market_base_vault, m.base_vault),
            ("quote vault", w.market_quote_vault, m.quote_vault),
        ];
        for (n, r, x) in fixed {
            cmp!(v, "mkt_static", format!("market {n}"), r, x);
        }
        cmp!(v, "mkt_static", "market bump", w.bump, bump);
        cmp!(v, "mkt_static", "market name", text(&w.name), m.name.clone());
        cmp!(v, "mkt_static", "market lot sizes", ({ w.base_lot_size }, { w.quote_lot_size }), (m.bls, m.qls));
        cmp!(v, "mkt_static", "market decimals", (w.base_decimals, w.quote_decimals), (m.base_decimals, m.quote_decimals));
        cmp!(v, "mkt_static", "market fees", ({ w.maker_fee }, { w.taker_fee }), (m.maker_fee, m.taker_fee));
        cmp!(v, "mkt_static", "registration time", { w.registration_time }, m.registration_time);
        cmp!(v, "mkt_oracle", "oracle filter", { w.conf_filter }, m.conf as f64);
        cmp!(v, "mkt_oracle", "oracle staleness", { w.max_staleness_slots }, m.staleness.map(|x| x as i64).unwrap_or(-1));
        cmp!(v, "mkt_expiry", "market expiry", { w.time_expiry }, m.time_expiry);
        cmp!(v, "mkt_seq", "order sequence number", { w.seq_num }, m.seq);
        cmp!(v, "mkt_fee", "fees accrued", { w.fees_accrued } as i128, m.fees_accrued);
        cmp!(v, "mkt_fee", "fees paid to referrers", { w.fees_to_referrers } as i128, m.fees_to_referrers);
        cmp!(v, "mkt_fee", "referrer rebates accrued", { w.referrer_rebates_accrued } as i128, m.ref_accrued);
        cmp!(v, "mkt_fee", "fees available", { w.fees_available } as i128, m.fees_available);
        cmp!(v, "volume", "maker volume", { w.maker_volume } as i128, m.maker_volume);
        cmp!(v, "volume", "taker volume without account", { w.taker_volume_wo_oo } as i128, m.taker_volume_wo_oo);
        cmp!(v, "mkt_total", "recorded base deposits", { w.base_deposit_total } as i128, m.base_total);
        cmp!(v, "mkt_total", "recorded quote deposits", { w.quote_deposit_total } as i128, m.quote_total);
        self.book(i, Side::Bid, v);
        self.book(i, Side::Ask, v);
        self.heap(i, v);
    }

    fn book(&mut self, i: usize, side: Side, v: &mut Vec<Diff>) {
        let m = &self.after.markets[i];
        let k = if side == Side::Bid { m.bids_key } else { m.asks_key };
        let data = self.bank.data(&k);
        if data.len() != wire::SIDE_LEN {
            d(v, "mkt_life", format!("{side:?} side missing"));
            return;
        }
        let t = wire::Side::new(data);
        if t.tree_type() != side as u8 {
            d(v, "tree", format!("{side:?} side has type {}", t.tree_type()));
        }
        let got = match t.check() {
            Err(e) => {
                d(v, if e.starts_with("expiry:") { "tree_expiry" } else { "tree" }, format!("{side:?} side: {e}"));
                return;
            }
            Ok(g) => g,
        };
        let mut n = 0;
        let book = m.book(side);
        // index: id -> order
        let idx: std::collections::HashMap<u128, &Order> = book.iter().map(|o| (o.id, o)).collect();
        for (sect, leaves) in got.iter().enumerate() {
            for l in leaves {
                let id = l.key;
                match idx.get(&id).filter(|o| o.pegged == (sect == 1)) {
                    None => d(v, "book_extra", format!("{side:?} book holds order {id:#x} (owner {}) that should not be there", { l.owner })),
                    Some(o) => {
                        n += 1;
                        cmp!(v, "book_qty", format!("{side:?} order {id:#x} quantity"), { l.quantity }, o.qty);
                        cmp!(v, "book_field", format!("{side:?} order {id:#x} owner"), { l.owner }, o.owner);
                        cmp!(v, "book_time", format!("{side:?} order {id:#x} time"), ({ l.timestamp }, { l.time_in_force }), (o.ts, o.tif));
                        cmp!(v, "book_field", format!("{side:?} order {id:#x} peg limit"), { l.peg_limit }, o.peg_limit);
                        cmp!(v, "book_field", format!("{side:?} order {id:#x} client id"), { l.client_order_id }, o.client);
                        let slot = self
                            .after
                            .oos
                            .iter()
                            .find(|a| a.key == o.owner && !a.closed)
                            .and_then(|a| a.orders.iter().find(|e| e.id == id))
                            .and_then(|e| e.slot);
                        cmp!(v, "book_slot", format!("{side:?} order {id:#x} owner slot"), Some(l.owner_slot), slot);
                    }
                }
            }
        }
        if n < book.len() {
            for o in book {
                let there = got[o.pegged as usize].iter().any(|l| { l.key } == o.id);
                if !there {
                    d(v, "book_missing", format!("{side:?} order {:#x} (price {}, {} lots, owner {}) is not in the book", o.id, o.price, o.qty, o.owner));
                }
            }
        }
    }

    fn heap(&mut self, i: usize, v: &mut Vec<Diff>) {
        let mut m = self.after.markets[i].clone();
        let data = self.bank.data(&m.heap_key);
        if data.len() != wire::HEAP_LEN {
            d(v, "mkt_life", "event queue missing".into());
            return;
        }
        let h = wire::Heap::new(data);
        let got = match h.check() {
            Err(e) => {
                d(v, "heap", format!("event queue: {e}"));
                return;
            }
            Ok(g) => g,
        };
        cmp!(v, "heap_seq", "event sequence number", h.seq(), m.heap_seq);
        if got.len() != m.events.len() {
            let pending: Vec<String> = m.events.iter().map(|e| format!("{:?}", e.1)).collect();
            d(v, "heap_len", format!("event queue holds {} events, expected {}: {:?}", got.len(), m.events.len(), pending));
            return;
        }
        for ((slot, r), (ms, e, known)) in got.iter().zip(m.events.iter_mut()) {
            match ms {
                None => *ms = Some(*slot),
                Some(x) => cmp!(v, "heap", "place of an event", *slot, *x),
            }
            let real_slot = |owner: &Pubkey, id: u128| {
                let pick = |oos: &Vec<Oo>| {
                    oos.iter()
                        .find(|a| a.key == *owner && !a.closed)
                        .and_then(|a| a.orders.iter().find(|x| x.id == id))
                        .and_then(|x| x.slot)
                };
                pick(&self.after.oos).or_else(|| pick(&self.before.oos))
            };
            let slot_now = match r {
                wire::WEvent::Fill(f) => f.maker_slot,
                wire::WEvent::Out(f) => f.owner_slot,
            };
            if known.is_none() {
                *known = real_slot(&e.account(), e.id());
            }
            cmp!(v, "ev", "event's slot in the trader's account", Some(slot_now), *known);
            match (r, e) {
                (wire::WEvent::Fill(f), Event::Fill { side, out, ts, seq, maker, maker_client, maker_ts, taker, taker_client, price, peg_limit, qty, .. }) => {
                    cmp!(v, "ev", "fill side", f.taker_side, *side as u8);
                    cmp!(v, "ev", "fill completes the order", f.maker_out, *out as u8);
                    cmp!(v, "ev", "fill time", { f.timestamp }, *ts);
                    cmp!(v, "ev", "fill sequence", { f.market_seq_num }, *seq);
                    cmp!(v, "ev", "fill maker", { f.maker }, *maker);
                    cmp!(v, "ev", "fill maker client id", { f.maker_client_order_id }, *maker_client);
                    cmp!(v, "ev", "fill maker time", { f.maker_timestamp }, *maker_ts);
                    cmp!(v, "ev", "fill taker", { f.taker }, *taker);
                    cmp!(v, "ev", "fill taker client id", { f.taker_client_order_id }, *taker_client);
                    cmp!(v, "ev_fill", "fill price", { f.price }, *price);
                    cmp!(v, "ev", "fill peg limit", { f.peg_limit }, *peg_limit);
                    cmp!(v, "ev_fill", "fill quantity", { f.quantity }, *qty);
                }
                (wire::WEvent::Out(f), Event::Out { side, ts, seq, owner, qty, .. }) => {
                    cmp!(v, "ev", "out side", f.side, *side as u8);
                    cmp!(v, "ev", "out time", { f.timestamp }, *ts);
                    cmp!(v, "ev", "out sequence", { f.seq_num }, *seq);
                    cmp!(v, "ev", "out owner", { f.owner }, *owner);
                    cmp!(v, "ev", "out quantity", { f.quantity }, *qty);
                }
                (_, e) => d(v, "ev", format!("event of the wrong kind, expected {e:?}")),
            }
        }
        self.after.markets[i] = m;
    }
}

/// Facts that must hold of the accounts whatever happened before. Used to name which
/// guarantees are broken once a difference has been found.
pub fn invariants(bank: &Bank, model: &Model) -> Vec<(&'static str, String)> {
    let mut out = vec![];
    for m in model.markets.iter().filter(|m| !m.closed) {
        let md = bank.data(&m.key);
        if md.len() != wire::MARKET_LEN {
            continue;
        }
        let w = wire::market(md);
        for (n, vault, total) in [("base", m.base_vault, w.base_deposit_total), ("quote", m.quote_vault, w.quote_deposit_total)] {
            let have = bank.token_amount(&vault);
            if have != total {
                out.push(("C04", format!("{n} vault holds {have}, recorded deposits {total}")));
            }
        }
        let (bd, ad, hd) = (bank.data(&m.bids_key), bank.data(&m.asks_key), bank.data(&m.heap_key));
        if bd.len() != wire::SIDE_LEN || ad.len() != wire::SIDE_LEN || hd.len() != wire::HEAP_LEN {
            continue;
        }
        let books = [wire::Side::new(bd).check(), wire::Side::new(ad).check()];
        for b in &books {
            if let Err(e) = b {
                out.push((if e.starts_with("expiry:") { "B03" } else { "B01" }, e.clone()));
            }
        }
        let heap = wire::Heap::new(hd).check();
        if let Err(e) = &heap {
            out.push(("E01", e.clone()));
        }
        let (bids, asks, events) = match (&books[0], &books[1], &heap) {
            (Ok(b), Ok(a), Ok(e)) => (b, a, e),
            _ => continue,
        };
        let (bls, qls) = ({ w.base_lot_size } as i128, { w.quote_lot_size } as i128);
        let mut base = 0i128;
        let mut quote = { w.fees_available } as i128;
        for o in model.oos.iter().filter(|o| model.markets[o.market].key == m.key && !o.closed) {
            let od = bank.data(&o.key);
            if od.len() != wire::OO_LEN {
                continue;
            }
            let a = wire::oo(od);
            base += a.base_free_native as i128 + a.asks_base_lots as i128 * bls;
            quote += a.quote_free_native as i128 + a.bids_quote_lots as i128 * qls + a.locked_maker_fees as i128 + a.referrer_rebates_available as i128;
            // totals against the book and the queue
            let (mut bb, mut aa, mut bq) = (0i128, 0i128, 0i128);
            let orders = a.orders;
            for (s, x) in orders.iter().enumerate() {
                if x.is_free != 0 {
                    continue;
                }
                let id = x.id;
                let st = x.side_and_tree as usize;
                let leaf = if st < 4 { (if st % 2 == 0 { bids } else { asks })[st / 2].iter().find(|l| { l.key } == id && { l.owner } == o.key) } else { None };
                let waits = events.iter().any(|(_, e)| match e {
                    wire::WEvent::Fill(f) => ({ f.maker }) == o.key && f.maker_slot as usize == s && f.maker_out != 0,
                    wire::WEvent::Out(f) => ({ f.owner }) == o.key && f.owner_slot as usize == s,
                });
                if leaf.is_none() && !waits {
                    out.push(("C03", format!("account {} slot {s}: order {id:#x} is neither in the book nor in the queue", o.name)));
                }
                if let Some(l) = leaf {
                    if st % 2 == 0 {
                        bb += l.quantity as i128;
                        bq += l.quantity as i128 * x.locked_price as i128;
                    } else {
                        aa += l.quantity as i128;
                    }
                }
            }
            for (_, e) in events {
                match e {
                    wire::WEvent::Fill(f) if { f.maker } == o.key => {
                        let q = { f.quantity } as i128;
                        if f.taker_side == 1 {
                            bb += q;
                            let lp = if { f.peg_limit } != -1 { f.peg_limit } else { f.price };
                            bq += q * lp as i128;
                        } else {
                            aa += q;
                        }
                    }
                    wire::WEvent::Out(f) if { f.owner } == o.key => {
                        let q = { f.quantity } as i128;
                        let lp = orders.get(f.owner_slot as usize).map(|x| x.locked_price).unwrap_or(0);
                        if f.side == 0 {
                            bb += q;
                            bq += q * lp as i128;
                        } else {
                            aa += q;
                        }
                    }
                    _ => {}
                }
            }
            let have = (a.bids_base_lots as i128, a.asks_base_lots as i128, a.bids_quote_lots as i128);
            if have != (bb, aa, bq) {
                out.push(("C03", format!("account {} totals {have:?}, its orders add up to {:?}", o.name, (bb, aa, bq))));
            }
        }
        // what the queued fills still have to move: a bid maker gets base and gives the locked
        // quote away, an ask maker the reverse; fees and rebates stay inside
        for (_, e) in events {
            if let wire::WEvent::Fill(f) = e {
                let q = { f.quantity } as i128;
                let p = { f.price } as i128;
                let own = { f.maker } == { f.taker };
                let rebate = if own { 0 } else { m.maker_rebate_floor(q * p * qls) };
                if f.taker_side == 1 {
                    // the sold base is in the market but in nobody's account yet; the locked quote went to the taker
                    base += q * bls;
                    quote -= q * p * qls;
                    quote += rebate;
                } else {
                    base -= q * bls;
                    quote += q * p * qls + rebate;
                }
            }
        }
        let have = ({ w.base_deposit_total } as i128, { w.quote_deposit_total } as i128);
        if have.0 != base {
            out.push(("C01", format!("recorded base deposits {}, owed {}", have.0, base)));
        }
        if have.1 != quote {
            out.push(("C01", format!("recorded quote deposits {}, owed {}", have.1, quote)));
        }
    }
    for (o, x) in &model.indexers {
        if !x.exists {
            continue;
        }
        let data = bank.data(&indexer_key(o).0);
        if data.len() < 17 {
            continue;
        }
        let n = u32::from_le_bytes(data[13..17].try_into().unwrap()) as usize;
        for i in 0..n {
            if let Some(b) = data.get(17 + 32 * i..49 + 32 * i) {
                let k = Pubkey::try_from(b).unwrap();
                if bank.data(&k).len() != wire::OO_LEN {
                    out.push(("I01", "owner index lists an account that does not exist".into()));
                }
            }
        }
    }
    out
}

fn add(t: &mut Tags, l: &[&'static str]) {
    t.extend(l.iter().copied());
}

fn context(t: &mut Tags, f: &Flags) {
    if f.self_trade {
        add(t, &["M04"]);
    }
    if f.pegged {
        add(t, &["M05"]);
    }
    if f.dropped || f.expired_removed {
        add(t, &["B03"]);
    }
    if f.evicted {
        add(t, &["B05"]);
    }
}

/// Properties a difference in the resulting state speaks about.
pub fn tags(diff: &Diff, op: &Op, f: &Flags) -> Tags {
    let mut t = Tags::new();
    let k = op.kind();
    let trade = matches!(k, "place" | "edit" | "many" | "take");
    let cancel = matches!(k, "cancel_id" | "cancel_client" | "cancel_all" | "prune") || f.cancels > 0;
    match diff.class {
        "book_extra" | "book_missing" => {
            add(&mut t, &["B01"]);
            if trade {
                add(&mut t, &["B02", "M01", "M02", "M03", "B04"]);
                context(&mut t, f);
            }
            if cancel {
                add(&mut t, &["C02"]);
            }
        }
        "book_qty" => {
            add(&mut t, &["B01"]);
            if trade {
                add(&mut t, &["B02", "M01", "M02", "M03", "C03"]);
                context(&mut t, f);
            }
            if cancel {
                add(&mut t, &["C02"]);
            }
        }
        "book_field" => {
            add(&mut t, &["B01"]);
            context(&mut t, f);
        }
        "book_time" => {
            add(&mut t, &["B01", "B03"]);
        }
        "book_slot" => add(&mut t, &["B01", "C03", "E02"]),
        "tree" => add(&mut t, &["B01"]),
        "tree_expiry" => add(&mut t, &["B03"]),
        "heap" => add(&mut t, &["E01"]),
        "heap_seq" => add(&mut t, &["E01", "E03"]),
        "heap_len" => {
            add(&mut t, &["E01", "E03"]);
            if k == "consume" {
                add(&mut t, &["E02"]);
            }
            if trade {
                add(&mut t, &["B02", "M02", "M01"]);
                context(&mut t, f);
            }
        }
        "ev" => {
            add(&mut t, &["E03"]);
            if k == "consume" {
                add(&mut t, &["E02", "E01"]);
            }
            if trade {
                add(&mut t, &["B02"]);
            }
            context(&mut t, f);
        }
        "ev_fill" => {
            add(&mut t, &["E03", "M02", "M01", "B02"]);
            context(&mut t, f);
        }
        "oo_free" | "oo_rebate" | "oo_lockfee" => {
            if trade || k == "consume" {
                add(&mut t, &["C01", "F01", "M02", "M01"]);
                context(&mut t, f);
                if f.outs > 0 || cancel {
                    add(&mut t, &["C02"]);
                }
                if k == "consume" || f.direct > 0 {
                    add(&mut t, &["E02"]);
                }
                if diff.class == "oo_lockfee" {
                    add(&mut t, &["C03", "C02"]);
                }
                if f.free_used {
                    add(&mut t, &["C04"]);
                }
            } else if cancel {
                add(&mut t, &["C02", "C01"]);
            } else if k == "deposit" {
                add(&mut t, &["C04"]);
            } else if k == "settle" || k == "settle_expired" {
                add(&mut t, &["C05"]);
            }
        }
        "oo_total" => {
            add(&mut t, &["C03"]);
            if cancel || f.outs > 0 {
                add(&mut t, &["C02"]);
            }
            if k == "consume" {
                add(&mut t, &["E02"]);
            }
            context(&mut t, f);
        }
        "oo_slot" => {
            add(&mut t, &["C03"]);
            if trade {
                add(&mut t, &["B01", "B04"]);
            }
            if cancel {
                add(&mut t, &["C02"]);
            }
            if k == "consume" || f.direct > 0 || f.outs > 0 {
                add(&mut t, &["E02"]);
            }
        }
        "oo_lock" => add(&mut t, &["C02", "C03", "M05"]),
        "oo_life" => add(&mut t, &["L03", "I01"]),
        "oo_static" => add(&mut t, &["I01", "A01"]),
        "delegate" => add(&mut t, &["A01"]),
        "penalty" => {
            if k == "settle" || k == "settle_expired" {
                add(&mut t, &["C05"]);
            }
        }
        "volume" => add(&mut t, &[]),
        "mkt_static" => {
            add(&mut t, &["L02"]);
            if k != "create_market" {
                add(&mut t, &["A02", "A03"]);
            }
        }
        "mkt_oracle" => add(&mut t, &["L02", "O01"]),
        "mkt_expiry" => add(&mut t, &["L01"]),
        "mkt_life" => add(&mut t, &["L03"]),
        "mkt_seq" => add(&mut t, &["B04"]),
        "mkt_fee" => {
            add(&mut t, &["F01"]);
            if trade || k == "consume" {
                add(&mut t, &["C01"]);
                context(&mut t, f);
            }
            if k == "settle" || k == "settle_expired" || k == "sweep" {
                add(&mut t, &["C05"]);
            }
        }
        "mkt_total" | "vault" => {
            add(&mut t, &["C04"]);
            if trade || k == "consume" {
                add(&mut t, &["C01"]);
            }
            if k == "settle" || k == "settle_expired" || k == "sweep" {
                add(&mut t, &["C05"]);
            }
        }
        "token" => {
            add(&mut t, &["C04"]);
            if trade {
                add(&mut t, &["C01", "M01"]);
                if k == "take" {
                    add(&mut t, &["F01"]);
                }
            }
            if k == "settle" || k == "settle_expired" || k == "sweep" {
                add(&mut t, &["C05"]);
            }
        }
        "lamports" => {
            if k.starts_with("settle") {
                add(&mut t, &["C05"]);
            }
        }
        "indexer" => add(&mut t, &["I01"]),
        "stub" => add(&mut t, &["O01"]),
        "ret" => match op {
            Op::CancelClient { .. } => add(&mut t, &["C02"]),
            _ => {
                add(&mut t, &["B04", "B01", "M03"]);
                context(&mut t, f);
            }
        },
        _ => {}
    }
    t
}

/// The program accepted what the model refuses.
pub fn accept_tags(reason: &str, op: &Op, f: &Flags) -> Tags {
    let mut t = Tags::new();
    let pegged = matches!(op, Op::Place { o, .. } | Op::Edit { o, .. } if o.peg.is_some());
    match reason {
        "oracle" => add(&mut t, &["O01"]),
        "nooracle" => add(&mut t, &["O01", "M05"]),
        "price" => add(&mut t, if pegged { &["M05", "B04"] } else { &["M03", "M01", "B04"] }),
        "lots" | "range" => add(&mut t, &["C01", "M01", "C03"]),
        "selftrade" => add(&mut t, &["M04"]),
        "alias" => add(&mut t, &["E02", "C01", "M04"]),
        "fok" => add(&mut t, &["M03"]),
        "full" => add(&mut t, &["B05", "B01"]),
        "slots" => add(&mut t, &["C03", "B01"]),
        "heapfull" => add(&mut t, &["E01"]),
        "noentry" | "noaccount" => add(&mut t, &["E02"]),
        "funds" => add(&mut t, &["C04", "C05"]),
        "nooo" => add(&mut t, &["M03"]),
        "auth" => {
            add(&mut t, &["A01"]);
            if matches!(op, Op::StubSet { .. } | Op::StubClose { .. }) {
                add(&mut t, &["O01", "A02"]);
            }
        }
        "admin" => add(&mut t, &["A02"]),
        "mint" | "vault" => add(&mut t, &["A03"]),
        "dest" => add(&mut t, &["A01", "A03"]),
        "expired" | "notexpired" => {
            add(&mut t, &["L01"]);
            if matches!(op, Op::CloseMarket { .. }) {
                add(&mut t, &["L03"]);
            }
        }
        "params" => add(&mut t, if matches!(op, Op::CreateOo { .. }) { &["I01"] } else { &["L02"] }),
        "nonempty" => {
            add(&mut t, &["L03"]);
            if matches!(op, Op::CloseIndexer { .. }) {
                add(&mut t, &["I01"]);
            }
        }
        "input" => add(&mut t, if pegged { &["M05", "M01"] } else { &["M01", "M03"] }),
        "kind" => add(&mut t, if pegged { &["M05", "M03"] } else { &["M03"] }),
        "gone" | "exists" => add(&mut t, &["I01", "L03", "A03"]),
        "notfound" => add(&mut t, &["C02", "B01", "A01"]),
        _ => {}
    }
    if matches!(reason, "full" | "range" | "lots") {
        context(&mut t, f);
    }
    t
}

/// The program refused what the model says must work.
pub fn reject_tags(op: &Op, f: &Flags, m: &Model) -> Tags {
    let mut t = Tags::new();
    match op {
        Op::Place { oo, signer, .. } | Op::Edit { oo, signer, .. } | Op::Many { oo, signer, .. } => {
            add(&mut t, &["M03", "B01", "M01"]);
            context(&mut t, f);
            if f.posted {
                add(&mut t, &["C03"]);
            }
            if f.fills > 0 || f.outs > 0 {
                add(&mut t, &["E01", "C01", "B02", "M02"]);
            }
            if f.direct > 0 {
                add(&mut t, &["E02"]);
            }
            if f.cancels > 0 {
                add(&mut t, &["C02"]);
            }
            if m.oos[*oo].owner != *signer {
                add(&mut t, &["A01"]);
            }
        }
        Op::Take { .. } => {
            add(&mut t, &["M03", "M01", "C01"]);
            context(&mut t, f);
            if f.fills > 0 || f.outs > 0 {
                add(&mut t, &["E01", "B02", "M02"]);
            }
        }
        Op::CancelId { oo, signer, .. } | Op::CancelClient { oo, signer, .. } | Op::CancelAll { oo, signer, .. } => {
            add(&mut t, &["C02", "B01", "L01"]);
            if m.oos[*oo].owner != *signer {
                add(&mut t, &["A01"]);
            }
        }
        Op::Prune { .. } => add(&mut t, &["C02", "L01", "A02"]),
        Op::Consume { .. } => add(&mut t, &["E02", "L01", "E01"]),
        Op::Deposit { .. } => add(&mut t, &["C04"]),
        Op::Settle { admin, oo, signer, .. } => {
            add(&mut t, &["C05", "L01"]);
            if admin.is_some() {
                add(&mut t, &["A02"]);
            } else if m.oos[*oo].owner != *signer {
                add(&mut t, &["A01"]);
            }
        }
        Op::Sweep { .. } => add(&mut t, &["C05", "A02"]),
        Op::CreateMarket(_) => add(&mut t, &["L02"]),
        Op::CloseMarket { .. } => add(&mut t, &["L03"]),
        Op::SetExpired { .. } => add(&mut t, &["L01", "A02"]),
        Op::SetDelegate { .. } => add(&mut t, &["A01"]),
        Op::CreateIndexer { .. } | Op::CloseIndexer { .. } | Op::CreateOo { .. } => add(&mut t, &["I01"]),
        Op::CloseOo { .. } => add(&mut t, &["I01", "L03"]),
        Op::StubCreate { .. } | Op::StubSet { .. } | Op::StubClose { .. } => add(&mut t, &["O01"]),
        _ => {}
    }
    t
}
