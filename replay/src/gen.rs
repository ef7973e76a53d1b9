//! Random instructions, chosen against the model's current state.
use crate::model::*;
use crate::ops::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;

fn weights(p: Profile) -> [(&'static str, u64); 24] {
    let mut w = [
        ("place", 50u64),
        ("take", 10),
        ("many", 6),
        ("edit", 4),
        ("cancel_id", 6),
        ("cancel_client", 2),
        ("cancel_all", 3),
        ("consume", 14),
        ("deposit", 4),
        ("settle", 6),
        ("sweep", 2),
        ("delegate", 1),
        ("oracle", 5),
        ("advance", 8),
        ("create_oo", 1),
        ("close_oo", 1),
        ("create_indexer", 1),
        ("close_indexer", 1),
        ("create_market", 1),
        ("set_expired", 0),
        ("prune", 0),
        ("settle_expired", 0),
        ("close_market", 0),
        ("stub", 1),
    ];
    let mut set = |n: &str, v: u64| w.iter_mut().find(|x| x.0 == n).unwrap().1 = v;
    match p {
        Profile::Match | Profile::Fees => {
            set("take", 20);
            set("many", 12);
        }
        Profile::Pegged => {
            set("oracle", 14);
        }
        Profile::Expiry => set("advance", 20),
        Profile::Full | Profile::FullPegged => {
            set("consume", 8);
            set("create_market", 0);
            set("take", 4);
            set("close_oo", 0);
        }
        Profile::Life => {
            set("set_expired", 3);
            set("prune", 8);
            set("settle_expired", 8);
            set("close_market", 12);
            set("settle", 14);
            set("sweep", 8);
            set("consume", 25);
            set("cancel_all", 10);
            set("close_oo", 10);
            set("create_oo", 8);
            set("close_indexer", 6);
            set("create_indexer", 8);
            set("place", 35);
        }
        Profile::Auth => {
            for n in ["set_expired", "prune", "settle_expired", "close_market"] {
                set(n, 3);
            }
            set("sweep", 5);
            set("delegate", 5);
            set("create_oo", 4);
            set("close_oo", 4);
            set("close_indexer", 3);
            set("stub", 4);
            set("settle", 12);
        }
        Profile::Create => {
            for x in w.iter_mut() {
                x.1 = 0;
            }
            w.iter_mut().find(|x| x.0 == "create_market").unwrap().1 = 10;
            w.iter_mut().find(|x| x.0 == "advance").unwrap().1 = 1;
            w.iter_mut().find(|x| x.0 == "stub").unwrap().1 = 3;
        }
        Profile::HeapFull => {
            set("consume", 0);
            set("take", 0);
            set("settle", 1);
            set("close_oo", 0);
        }
        Profile::Mixed => {
            set("set_expired", 1);
            set("prune", 1);
            set("settle_expired", 1);
            set("close_market", 1);
        }
        _ => {}
    }
    w
}

pub struct Gen<'a> {
    pub w: &'a World,
    pub m: &'a Model,
    pub r: &'a mut Rng,
    pub index: usize,
}

impl<'a> Gen<'a> {
    fn live_markets(&self) -> Vec<usize> {
        (0..self.m.markets.len()).filter(|i| !self.m.markets[*i].closed).collect()
    }
    fn live_oos(&self) -> Vec<usize> {
        (0..self.m.oos.len()).filter(|i| !self.m.oos[*i].closed).collect()
    }
    fn market(&mut self) -> Option<usize> {
        let l = self.live_markets();
        if l.is_empty() {
            return None;
        }
        if l.contains(&0) && self.r.chance(3, 4) {
            return Some(0);
        }
        Some(self.r.pick(&l))
    }
    fn oo(&mut self) -> Option<usize> {
        let m = self.market()?;
        let l: Vec<usize> = self.live_oos().into_iter().filter(|i| self.m.oos[*i].market == m).collect();
        if l.is_empty() {
            return None;
        }
        Some(self.r.pick(&l))
    }
    fn user(&mut self) -> Pubkey {
        self.r.pick(&self.w.users.clone())
    }
    fn signer(&mut self, oo: usize) -> Pubkey {
        let o = &self.m.oos[oo];
        match self.r.below(20) {
            0 => self.user(),
            1..=6 => o.delegate.unwrap_or(o.owner),
            _ => o.owner,
        }
    }
    fn price(&mut self, m: usize, side: Side) -> i64 {
        let mid = self.w.mid;
        if self.w.profile == Profile::Extreme && self.r.chance(1, 3) {
            return self.r.pick(&[1, 2, i64::MAX, i64::MAX - 1, 1 << 40, 1 << 31, i64::MAX / 2]);
        }
        if self.r.chance(1, 40) {
            return self.r.pick(&[0, -1, i64::MIN, i64::MAX, 1]);
        }
        if self.r.chance(1, 3) {
            // at or next to an existing order's price
            let s = if self.r.chance(3, 4) { side.inv() } else { side };
            let b: Vec<i64> = self.m.markets[m].book(s).iter().filter(|o| !o.pegged).map(|o| o.price).collect();
            if !b.is_empty() {
                return self.r.pick(&b).saturating_add(self.r.range(-1, 1)).max(1);
            }
        }
        let spread = if self.w.profile.full() { 400 } else { self.r.pick(&[3, 8, mid]) };
        let d = self.r.range(-1, spread);
        match side {
            Side::Bid => (mid - d).max(1),
            Side::Ask => mid + d,
        }
    }
    fn order(&mut self, m: usize) -> OrderIn {
        let side = if self.r.chance(1, 2) { Side::Bid } else { Side::Ask };
        let k = &self.m.markets[m];
        let price = self.price(m, side);
        let kind = self.r.pick(&[
            Kind::Limit,
            Kind::Limit,
            Kind::Limit,
            Kind::Limit,
            Kind::Limit,
            Kind::PostOnly,
            Kind::PostOnly,
            Kind::Slide,
            Kind::Slide,
            Kind::Ioc,
            Kind::Market,
            Kind::Fok,
        ]);
        let extreme = self.w.profile == Profile::Extreme;
        let mut max_base = self.r.range(1, 20);
        let mut max_quote = self.r.pick(&[i64::MAX / k.qls, 1_000_000 / k.qls.min(1_000_000), self.r.clone().range(1, 400)]);
        if k.taker_fee == 0 || side == Side::Ask {
            max_quote = max_quote.min(i64::MAX / k.qls);
        }
        if extreme {
            if self.r.chance(1, 2) {
                max_base = self.r.pick(&[i64::MAX / k.bls, i64::MAX, 1 << 30, 1 << 45, (i64::MAX / k.bls).saturating_add(1)]);
            }
            if self.r.chance(1, 2) {
                max_quote = self.r.pick(&[i64::MAX / k.qls, i64::MAX, 1 << 30, 1 << 45]);
            }
        } else if self.r.chance(1, 30) {
            max_base = self.r.pick(&[0, -1, i64::MAX / k.bls, (i64::MAX / k.bls).saturating_add(1), i64::MAX]);
        } else if self.r.chance(1, 30) {
            max_quote = self.r.pick(&[0, -1, 1, i64::MAX]);
        }
        let p_exp = if self.w.profile == Profile::Expiry { 2 } else { 6 };
        let now = self.m.now as u64;
        let expiry = if self.r.chance(1, p_exp) {
            match self.r.below(12) {
                0 => now.saturating_sub(1),
                1 => now,
                2 => now + 100_000,
                3 => u64::MAX,
                _ => now + self.r.range(1, 25) as u64,
            }
        } else {
            0
        };
        let peg_chance = match self.w.profile {
            Profile::Pegged | Profile::FullPegged => 2,
            _ => 5,
        };
        let mut peg = None;
        let mut kind = kind;
        if k.oracle_a.is_some() && self.r.chance(1, peg_chance) || self.r.chance(1, 60) {
            let mid = self.w.mid;
            let off = match self.r.below(10) {
                0 => self.r.range(-2 * mid, 2 * mid),
                1 => self.r.pick(&[i64::MIN, i64::MAX, 0, -mid, -mid + 1, -mid - 1]),
                2 => -mid - self.r.range(-3, 3),
                _ => match side {
                    Side::Bid => self.r.range(-6, 2),
                    Side::Ask => self.r.range(-2, 6),
                },
            };
            let lim = match self.r.below(8) {
                0 => self.r.pick(&[0, -1, 1, i64::MAX, i64::MIN]),
                1 => 1 + self.r.range(0, 3),
                2 => mid * 4,
                _ => (mid + self.r.range(-4, 8)).max(1),
            };
            let lim = if side == Side::Ask && self.r.chance(1, 2) { 1 } else { lim };
            peg = Some((off, lim));
            if !kind.posts() && !self.r.chance(1, 10) {
                kind = Kind::Limit;
            }
        }
        let stb = match self.r.below(7) {
            0 => SelfTrade::Abort,
            1 | 2 => SelfTrade::CancelProvide,
            _ => SelfTrade::Decrement,
        };
        let limit = match self.r.below(8) {
            0 => self.r.below(4) as u8,
            1 => 255,
            _ => 20,
        };
        OrderIn { side, kind, peg, price, max_base, max_quote, client: self.r.below(5) as u64, expiry, stb, limit }
    }
    fn remaining(&mut self, m: usize) -> Vec<Pubkey> {
        if self.r.chance(1, 2) {
            return vec![];
        }
        let l: Vec<Pubkey> = self.live_oos().into_iter().filter(|i| self.m.oos[*i].market == m || self.m.oos.len() < 4).map(|i| self.m.oos[i].key).collect();
        let mut v = vec![];
        for k in l {
            if self.r.chance(1, 2) && v.len() < 12 {
                v.push(k);
            }
        }
        v
    }
    fn token(&mut self, user: &Pubkey, mint: &Pubkey) -> Pubkey {
        match self.r.below(40) {
            0 => {
                let x = self.w.mints[self.r.below(3)];
                tok(user, &x)
            }
            1 => {
                let u = self.user();
                tok(&u, mint)
            }
            _ => tok(user, mint),
        }
    }
    fn place(&mut self) -> Option<Op> {
        let oo = self.oo()?;
        let m = self.m.oos[oo].market;
        let signer = self.signer(oo);
        let mut o = self.order(m);
        let k = &self.m.markets[m];
        if self.w.profile == Profile::HeapFull {
            o.peg = None;
            o.expiry = 0;
            o.max_base = o.max_base.clamp(1, 4);
            o.kind = Kind::Limit;
            o.price = self.w.mid + self.r.range(-1, 1);
            o.stb = SelfTrade::Decrement;
        }
        let vault = if self.r.chance(1, 50) { k.vault(o.side.inv()) } else { k.vault(o.side) };
        let mint = if vault == k.base_vault { k.base_mint } else { k.quote_mint };
        let token = self.token(&signer, &mint);
        let mut rem = self.remaining(m);
        let own = self.m.oos[oo].key;
        if !self.r.chance(1, 8) {
            rem.retain(|x| *x != own);
        }
        if self.w.profile == Profile::HeapFull {
            rem.clear();
        }
        Some(Op::Place { oo, signer, token, vault, o, rem })
    }
    /// Filling one side of the book, one order after the other.
    fn fill(&mut self, n: usize) -> Option<Op> {
        let l: Vec<usize> = self.live_oos().into_iter().filter(|i| self.m.oos[*i].market == 0 && self.m.oos[*i].orders.len() < SLOTS).collect();
        if l.is_empty() {
            return None;
        }
        let oo = l[n % l.len()];
        let signer = self.m.oos[oo].owner;
        let k = &self.m.markets[0];
        let side = self.w.full_side;
        let spread = self.r.pick(&[400, 400, 20]);
        let d = self.r.range(1, spread);
        let price = match side {
            Side::Bid => 500 - d,
            Side::Ask => 500 + d,
        };
        let mut o = OrderIn {
            side,
            kind: Kind::Limit,
            peg: None,
            price,
            max_base: self.r.range(1, 3),
            max_quote: i64::MAX / k.qls,
            client: n as u64,
            expiry: if self.r.chance(1, 30) { self.m.now as u64 + self.r.range(20, 200) as u64 } else { 0 },
            stb: SelfTrade::Decrement,
            limit: 10,
        };
        if k.oracle_a.is_some() && self.r.chance(1, if self.w.profile == Profile::FullPegged { 2 } else { 50 }) {
            o.peg = Some(match side {
                Side::Bid => (-self.r.range(1, 300), 900),
                Side::Ask => (self.r.range(1, 300), 1),
            });
        }
        if k.taker_fee > 0 && side == Side::Bid {
            o.max_quote = 10_000_000 / k.qls.min(1000);
        }
        let vault = k.vault(side);
        let mint = if side == Side::Bid { k.quote_mint } else { k.base_mint };
        Some(Op::Place { oo, signer, token: tok(&signer, &mint), vault, o, rem: vec![] })
    }
    fn oracle(&mut self, mi: usize) -> Option<Op> {
        let k = &self.m.markets[mi];
        let which = if self.r.chance(3, 4) { k.oracle_a } else { k.oracle_b.or(k.oracle_a) };
        let key = which?;
        let o = self.m.oracles.get(&key)?;
        let full = self.w.profile.full();
        let base = if full { 500 } else { self.w.mid };
        let lots = match self.r.below(12) {
            0 => 0.0,
            1 => self.r.range(1, 3) as f64,
            2 => (base * 3) as f64,
            3 => -1.0,
            _ => (base + self.r.range(-5, 5)).max(1) as f64 + if self.r.chance(1, 3) { 0.5 } else { 0.0 },
        };
        let second = Some(key) == k.oracle_b;
        let price = if second {
            self.r.pick(&[1.0, 2.0, 0.5, 0.0, 1.0, 1.0])
        } else {
            let p = self.w.price_for(k, lots);
            match k.oracle_b.and_then(|b| self.m.oracles.get(&b)) {
                Some(b) if b.price > 0.0 && b.price.is_finite() => p * b.price,
                _ => p,
            }
        };
        let price = if self.w.profile == Profile::Extreme && self.r.chance(1, 4) { self.r.pick(&[1e30, 1e12, 1e300, f64::INFINITY]) } else { price };
        if o.kind == OrcKind::Stub {
            let signer = if self.r.chance(1, 20) { self.user() } else { o.owner };
            return Some(Op::StubSet { oracle: key, signer, price });
        }
        if !price.is_finite() || price > 1e9 {
            return None;
        }
        let dev = price.abs() * self.r.pick(&[0.0, 0.0, 0.001, 0.01, 0.0499, 0.05, 0.1, 0.3, 0.7]);
        let slot = match self.r.below(4) {
            0 => self.m.slot.saturating_sub(self.r.range(0, 8) as u64),
            1 => self.m.slot.saturating_sub(self.r.pick(&[4, 5, 6, 99, 100, 101])),
            _ => self.m.slot,
        };
        Some(publish(o.kind, key, price, dev, slot, self.r))
    }
    fn settle(&mut self, expired: bool) -> Option<Op> {
        let oo = self.oo()?;
        let m = self.m.oos[oo].market;
        let k = &self.m.markets[m];
        let (bm, qm) = (k.base_mint, k.quote_mint);
        let owner = self.m.oos[oo].owner;
        let signer = if expired { self.user() } else { self.signer(oo) };
        let dest = if self.r.chance(1, 6) { self.user() } else { owner };
        let base_tok = self.token(&dest, &bm);
        let quote_tok = self.token(&dest, &qm);
        let referrer = if self.r.chance(1, 3) {
            let u = self.user();
            Some(if u == dest && self.r.chance(4, 5) { tok(&self.w.outsider, &qm) } else { self.token(&u, &qm) })
        } else {
            None
        };
        let admin = if expired { Some(self.admin(k.close_admin)) } else { None };
        Some(Op::Settle { oo, signer, payer: self.user(), base_tok, quote_tok, referrer, admin })
    }
    fn admin(&mut self, right: Option<Pubkey>) -> Pubkey {
        match right {
            Some(a) if !self.r.chance(1, 10) => a,
            _ => self.r.pick(&self.w.admins.clone()),
        }
    }

    pub fn op(&mut self) -> Op {
        if self.w.profile.full() {
            let n = self.index;
            if n == 0 {
                if let Some(k) = self.m.markets.first() {
                    if let (Some(a), None) = (k.oracle_a, k.oracle_b) {
                        let p = self.w.price_for(k, 500.0);
                        let o = &self.m.oracles[&a];
                        if o.kind == OrcKind::Stub {
                            return Op::StubSet { oracle: a, signer: o.owner, price: p };
                        }
                        if p <= 1e9 {
                            return publish(o.kind, a, p, 0.0, self.m.slot + 100_000, self.r);
                        }
                    }
                }
                return Op::Nop;
            }
            if n < self.w.full_count || (n < self.w.full_count + 60 && self.r.chance(2, 3)) {
                if let Some(op) = self.fill(n) {
                    return op;
                }
            }
        }
        for _ in 0..20 {
            if let Some(op) = self.try_op() {
                return op;
            }
        }
        Op::Nop
    }

    fn try_op(&mut self) -> Option<Op> {
        let ws = weights(self.w.profile);
        let total: u64 = ws.iter().map(|x| x.1).sum();
        let mut x = self.r.next() % total;
        let mut name = "";
        for (n, v) in ws {
            if x < v {
                name = n;
                break;
            }
            x -= v;
        }
        match name {
            "place" => self.place(),
            "take" => {
                let m = self.market()?;
                let signer = self.user();
                let mut o = self.order(m);
                o.peg = None;
                if !self.r.chance(1, 20) {
                    o.kind = self.r.pick(&[Kind::Market, Kind::Ioc, Kind::Ioc, Kind::Fok]);
                }
                let k = &self.m.markets[m];
                let (bm, qm) = (k.base_mint, k.quote_mint);
                let base_tok = self.token(&signer, &bm);
                let quote_tok = self.token(&signer, &qm);
                Some(Op::Take { m, signer, payer: self.user(), base_tok, quote_tok, o, rem: self.remaining(m) })
            }
            "many" => {
                let oo = self.oo()?;
                let m = self.m.oos[oo].market;
                let signer = self.signer(oo);
                let k = &self.m.markets[m];
                let (bm, qm) = (k.base_mint, k.quote_mint);
                let mut lists = vec![];
                for side in [Side::Bid, Side::Ask] {
                    let n = self.r.below(4);
                    let mut l = vec![];
                    for _ in 0..n {
                        let o = self.order(m);
                        let p = self.price(m, side);
                        l.push((p, if self.r.chance(2, 3) { self.r.range(1, 400) } else { o.max_quote }, o.expiry));
                    }
                    lists.push(l);
                }
                let kind = self.order(m).kind;
                let mut rem = self.remaining(m);
                let own = self.m.oos[oo].key;
                if !self.r.chance(1, 8) {
                    rem.retain(|x| *x != own);
                }
                Some(Op::Many {
                    oo,
                    signer,
                    base_tok: self.token(&signer, &bm),
                    quote_tok: self.token(&signer, &qm),
                    cancel: self.r.chance(1, 2),
                    kind,
                    bids: lists[0].clone(),
                    asks: lists[1].clone(),
                    limit: self.r.pick(&[0, 1, 5, 20]),
                    rem,
                })
            }
            "edit" => {
                if let Op::Place { oo, signer, token, vault, mut o, rem } = self.place()? {
                    let es = &self.m.oos[oo].orders;
                    let mut client = self.r.below(5) as u64;
                    let mut expected = self.r.range(-1, 30);
                    if !es.is_empty() && self.r.chance(3, 4) {
                        client = self.r.pick(es).client;
                        let m = &self.m.markets[self.m.oos[oo].market];
                        let q: i64 = m.bids.iter().chain(m.asks.iter()).filter(|x| x.client == client && x.owner == self.m.oos[oo].key).map(|x| x.qty).sum();
                        expected = q.saturating_add(self.r.range(-1, 6));
                    }
                    o.max_base = o.max_base.saturating_add(4);
                    return Some(Op::Edit { oo, signer, token, vault, o, rem, client, expected });
                }
                None
            }
            "cancel_id" => {
                let oo = self.oo()?;
                let signer = self.signer(oo);
                let own: Vec<u128> = self.m.oos[oo].orders.iter().map(|e| e.id).collect();
                let id = if !own.is_empty() && !self.r.chance(1, 8) {
                    self.r.pick(&own)
                } else {
                    let m = &self.m.markets[self.m.oos[oo].market];
                    let all: Vec<u128> = m.bids.iter().chain(m.asks.iter()).map(|o| o.id).collect();
                    if all.is_empty() {
                        self.r.below(3) as u128
                    } else {
                        self.r.pick(&all)
                    }
                };
                Some(Op::CancelId { oo, signer, id })
            }
            "cancel_client" => {
                let oo = self.oo()?;
                Some(Op::CancelClient { oo, signer: self.signer(oo), client: self.r.below(5) as u64 })
            }
            "cancel_all" => {
                let oo = self.oo()?;
                let side = self.r.pick(&[None, Some(Side::Bid), Some(Side::Ask)]);
                Some(Op::CancelAll { oo, signer: self.signer(oo), side, limit: self.r.pick(&[0, 1, 2, 24, 255]) })
            }
            "consume" => {
                let m = self.market()?;
                let given = self.r.chance(1, 3);
                let k = &self.m.markets[m];
                let slots = if given {
                    let mut v = vec![];
                    for _ in 0..self.r.below(6) {
                        if !k.events.is_empty() && self.r.chance(5, 6) {
                            v.push(self.r.pick(&k.events).0.unwrap() as usize);
                        } else {
                            v.push(self.r.pick(&[0usize, 1, 5, 599, 600, 700]));
                        }
                    }
                    Some(v)
                } else {
                    None
                };
                let mut rem: Vec<Pubkey> = self.live_oos().into_iter().filter(|i| self.m.oos[*i].market == m).map(|i| self.m.oos[i].key).collect();
                if rem.len() > 12 {
                    let mut need: Vec<Pubkey> = k.events.iter().take(12).map(|e| e.1.account()).collect();
                    need.sort();
                    need.dedup();
                    rem = need;
                }
                if self.r.chance(1, 3) {
                    rem.retain(|_| self.r.chance(1, 2));
                }
                let limit = match &slots {
                    Some(s) => s.len(),
                    None => self.r.pick(&[0, 1, 2, 8, 9, 100]),
                };
                Some(Op::Consume { m, limit, slots, rem })
            }
            "deposit" => {
                let oo = self.oo()?;
                let signer = self.user();
                let k = &self.m.markets[self.m.oos[oo].market];
                let (bm, qm) = (k.base_mint, k.quote_mint);
                let mut amt = || self.r.pick(&[0u64, 1, 1000, 55_555, 10_000_000, u64::MAX]);
                let (base, quote) = (amt(), amt());
                Some(Op::Deposit { oo, signer, base_tok: self.token(&signer, &bm), quote_tok: self.token(&signer, &qm), base, quote, refill: self.r.chance(1, 3) })
            }
            "settle" => self.settle(false),
            "settle_expired" => self.settle(true),
            "sweep" => {
                let m = self.market()?;
                let k = &self.m.markets[m];
                let (fa, qm) = (k.fee_admin, k.quote_mint);
                let u = self.user();
                let to = self.token(&u, &qm);
                Some(Op::Sweep { m, admin: self.admin(Some(fa)), to })
            }
            "delegate" => {
                let oo = self.oo()?;
                let d = if self.r.chance(1, 4) { None } else { Some(self.user()) };
                Some(Op::SetDelegate { oo, signer: self.signer(oo), delegate: d })
            }
            "oracle" => {
                let m = self.market()?;
                self.oracle(m)
            }
            "advance" => Some(Op::Advance { secs: self.r.pick(&[0, 1, 1, 2, 5, 20, 100]), slots: self.r.pick(&[0, 1, 2, 5, 6, 50]) }),
            "create_oo" => {
                let m = self.market()?;
                let owner = self.user();
                let d = if self.r.chance(1, 2) { None } else { Some(self.user()) };
                let name = self.r.pick(&["x", "", "0123456789abcdef0123456789abcdef", "0123456789abcdef0123456789abcdef0"]).to_string();
                Some(Op::CreateOo { owner, m, delegate: d, name })
            }
            "close_oo" => {
                let l = self.live_oos();
                if l.is_empty() {
                    return None;
                }
                let oo = self.r.pick(&l);
                let signer = self.signer(oo);
                Some(Op::CloseOo { oo, signer, dest: self.user() })
            }
            "create_indexer" => Some(Op::CreateIndexer { owner: self.user() }),
            "close_indexer" => Some(Op::CloseIndexer { owner: self.user(), dest: self.user() }),
            "create_market" => {
                if self.m.markets.len() > 12 {
                    return None;
                }
                let i = 100 + self.index as u64;
                Some(Op::CreateMarket(Box::new(self.w.new_market(i, self.r, false))))
            }
            "set_expired" => {
                let m = self.market()?;
                let a = self.m.markets[m].close_admin;
                Some(Op::SetExpired { m, admin: self.admin(a) })
            }
            "prune" => {
                let oo = self.oo()?;
                let a = self.m.markets[self.m.oos[oo].market].close_admin;
                Some(Op::Prune { oo, admin: self.admin(a), limit: self.r.pick(&[0, 1, 2, 255]) })
            }
            "close_market" => {
                let m = self.market()?;
                let a = self.m.markets[m].close_admin;
                Some(Op::CloseMarket { m, admin: self.admin(a), dest: self.user() })
            }
            "stub" => {
                let mint = self.w.mints[self.r.below(3)];
                let owner = if self.r.chance(1, 3) { self.w.admins[0] } else { self.user() };
                let key = stub_key(&owner, &mint).0;
                match self.r.below(3) {
                    0 => Some(Op::StubCreate { owner, mint, price: self.r.pick(&[0.0, 1.0, 12.5, 0.001]) }),
                    1 if self.m.oracles.contains_key(&key) => Some(Op::StubSet { oracle: key, signer: if self.r.chance(1, 6) { self.user() } else { owner }, price: 2.0 }),
                    _ if self.m.oracles.contains_key(&key) && self.r.chance(1, 4) => {
                        Some(Op::StubClose { oracle: key, signer: if self.r.chance(1, 6) { self.user() } else { owner }, dest: self.user() })
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
}
