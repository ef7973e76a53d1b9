//! Variations of an instruction that must be refused: missing or wrong signers, and accounts
//! exchanged for ones that do not belong there.
use crate::bank::{Acc, Bank, Meta};
use crate::model::*;
use crate::ops::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;

pub struct Variant {
    pub what: String,
    pub tags: Vec<&'static str>,
    pub metas: Vec<Meta>,
    /// accounts to add for this attempt
    pub extra: Vec<(Pubkey, Acc)>,
}

pub fn variants(m: &Model, w: &World, bank: &Bank, op: &Op, ix: &Ix) -> Vec<Variant> {
    let mut out: Vec<Variant> = vec![];
    let (mi, oo) = match op {
        Op::CloseMarket { m, .. } | Op::CreateOo { m, .. } | Op::Take { m, .. } | Op::Consume { m, .. } | Op::Sweep { m, .. } | Op::SetExpired { m, .. } => (Some(*m), None),
        Op::Place { oo, .. }
        | Op::Edit { oo, .. }
        | Op::Many { oo, .. }
        | Op::CancelId { oo, .. }
        | Op::CancelClient { oo, .. }
        | Op::CancelAll { oo, .. }
        | Op::Deposit { oo, .. }
        | Op::Settle { oo, .. }
        | Op::SetDelegate { oo, .. }
        | Op::Prune { oo, .. }
        | Op::CloseOo { oo, .. } => (Some(m.oos[*oo].market), Some(*oo)),
        _ => (None, None),
    };
    let this = mi.map(|i| &m.markets[i]);
    let other = mi.and_then(|i| m.markets.iter().enumerate().find(|(j, x)| *j != i && !x.closed).map(|x| x.1));
    let acc = oo.map(|i| &m.oos[i]);
    let mut n = 0u64;
    let mut fresh = |k: &Pubkey, owner: Option<Pubkey>| -> (Pubkey, Acc) {
        n += 1;
        let mut a = bank.get(k).cloned().unwrap_or(Acc { lamports: 1, data: vec![], owner: Pubkey::default(), executable: false });
        if let Some(o) = owner {
            a.owner = o;
        }
        (named("clone", n), a)
    };
    // an instruction that can do nothing is of no interest
    let ev_moves = match op {
        Op::Consume { m: mm, .. } => !m.markets[*mm].events.is_empty(),
        _ => true,
    };
    for (i, role) in ix.roles.iter().enumerate() {
        let cur = ix.metas[i].key;
        let role: &'static str = role;
        let mut sub = |what: &str, key: Pubkey, signer: Option<bool>, tags: &[&'static str], extra: Vec<(Pubkey, Acc)>| {
            if key == cur && signer.is_none() {
                return;
            }
            let mut metas = ix.metas.clone();
            metas[i].key = key;
            if let Some(s) = signer {
                metas[i].signer = s;
                if !s && metas.iter().any(|x| x.key == key && x.signer) {
                    return;
                }
            }
            out.push(Variant { what: format!("{role}: {what}"), tags: tags.to_vec(), metas, extra });
        };
        let foreign = named("some program", 0);
        match role {
            "signer" | "owner" | "depositor" | "taker" | "payer" | "penalty_payer" => {
                sub("signature missing", cur, Some(false), &["A01"], vec![])
            }
            "close_market_admin" | "fee_admin" | "open_orders_admin" | "consume_events_admin" => sub("signature missing", cur, Some(false), &["A02"], vec![]),
            "oracle_owner" => sub("signature missing", cur, Some(false), &["A02", "O01"], vec![]),
            _ => {}
        }
        match role {
            "signer" => {
                let a = acc.unwrap();
                for u in w.users.iter().chain([&w.outsider]) {
                    if *u != a.owner && Some(*u) != a.delegate {
                        sub("someone else", *u, None, &["A01"], vec![]);
                    }
                }
                for u in [a.owner].into_iter().chain(a.delegate) {
                    let (k, x) = fresh(&u, None);
                    sub("unrelated wallet", k, None, &["A01"], vec![(k, x)]);
                }
                // a market's administrators have no power over a trader's account
                let t = this.unwrap();
                for u in [Some(t.fee_admin), t.close_admin, t.consume_admin, t.oo_admin].into_iter().flatten() {
                    if u != a.owner && Some(u) != a.delegate {
                        sub("administrator of the market", u, None, &["A01"], vec![]);
                    }
                }
            }
            "owner" => {
                if let Some(a) = acc {
                    if let Some(dl) = a.delegate {
                        if dl != a.owner {
                            sub("delegate instead of owner", dl, None, &["A01"], vec![]);
                        }
                    }
                }
                sub("someone else", w.outsider, None, &["A01", "I01"], vec![]);
            }
            "open_orders_admin" | "consume_events_admin" => {
                if ev_moves {
                    sub("someone else", w.outsider, None, &["A02"], vec![]);
                    sub("left out", program(), Some(false), &["A02"], vec![]);
                }
            }
            "close_market_admin" | "fee_admin" => {
                sub("someone else", w.outsider, None, &["A02"], vec![]);
                let t = this.unwrap();
                for u in [Some(t.fee_admin), t.close_admin, t.consume_admin, t.oo_admin].into_iter().flatten() {
                    if u != cur {
                        sub("another administrator", u, None, &["A02"], vec![]);
                    }
                }
                if let Some(a) = acc {
                    sub("owner of the account", a.owner, None, &["A02"], vec![]);
                }
            }
            "market" => {
                if let Some(o) = other {
                    sub("another market", o.key, None, &["A03"], vec![]);
                }
                let (k, a) = fresh(&cur, Some(foreign));
                sub("copy owned by another program", k, None, &["A03"], vec![(k, a)]);
            }
            "market_admin" => {
                if let Some(o) = other {
                    if o.close_admin != this.unwrap().close_admin {
                        sub("another market", o.key, None, &["A02", "A03"], vec![]);
                    }
                }
            }
            "market_any" => {
                sub("not a market", this.unwrap().bids_key, None, &["A03"], vec![]);
                let (k, a) = fresh(&cur, Some(foreign));
                sub("copy owned by another program", k, None, &["A03"], vec![(k, a)]);
            }
            "bids" | "asks" | "event_heap" => {
                let pick = |x: &Mkt| match role {
                    "bids" => x.bids_key,
                    "asks" => x.asks_key,
                    _ => x.heap_key,
                };
                if let Some(o) = other {
                    sub("of another market", pick(o), None, &["A03"], vec![]);
                }
                let (k, a) = fresh(&cur, None);
                sub("copy under another address", k, None, &["A03"], vec![(k, a)]);
                let (k, a) = fresh(&cur, Some(foreign));
                sub("copy owned by another program", k, None, &["A03"], vec![(k, a)]);
                let t = this.unwrap();
                if role == "bids" {
                    sub("the other side", t.asks_key, None, &["A03"], vec![]);
                }
                if role == "asks" {
                    sub("the other side", t.bids_key, None, &["A03"], vec![]);
                }
            }
            "vault" | "base_vault" | "quote_vault" => {
                let t = this.unwrap();
                let base = cur == t.base_vault;
                if let Some(o) = other {
                    sub("of another market", if base { o.base_vault } else { o.quote_vault }, None, &["A03", "C04"], vec![]);
                }
                let mint = if base { t.base_mint } else { t.quote_mint };
                sub("a user's token account", tok(&w.users[0], &mint), None, &["A03", "C04"], vec![]);
                sub("the other vault", if base { t.quote_vault } else { t.base_vault }, None, &["A03", "C04"], vec![]);
                let (k, a) = fresh(&cur, None);
                sub("copy under another address", k, None, &["A03", "C04"], vec![(k, a)]);
            }
            "oracle_a" | "oracle_b" => {
                let (k, mut a) = fresh(&cur, None);
                sub("copy under another address", k, None, &["A03", "O01"], vec![(k, a.clone())]);
                sub("left out", program(), None, &["A03", "O01"], vec![]);
                if a.data.len() == 208 {
                    a.data[72..80].copy_from_slice(&7.0f64.to_le_bytes());
                    sub("other price under another address", k, None, &["A03", "O01"], vec![(k, a)]);
                }
                let t = this.unwrap();
                if let (Some(x), Some(y)) = (t.oracle_a, t.oracle_b) {
                    sub("the other oracle", if role == "oracle_a" { y } else { x }, None, &["A03", "O01"], vec![]);
                }
            }
            "market_authority" => {
                if let Some(o) = other {
                    sub("of another market", o.authority, None, &["A03"], vec![]);
                }
                sub("a wallet", w.outsider, None, &["A03"], vec![]);
            }
            "open_orders_account" => {
                let a = acc.unwrap();
                for x in m.oos.iter().filter(|x| !x.closed) {
                    if x.market != a.market {
                        sub("account of another market", x.key, None, &["A03"], vec![]);
                    } else if x.owner != a.owner && ix.roles[0] == "signer" && x.owner != ix.metas[0].key && x.delegate != Some(ix.metas[0].key) {
                        sub("account of someone else", x.key, None, &["A01"], vec![]);
                    }
                }
                let (k, c) = fresh(&cur, Some(foreign));
                sub("copy owned by another program", k, None, &["A03", "A01"], vec![(k, c)]);
            }
            "oo_owned" => {
                let a = acc.unwrap();
                for x in m.oos.iter().filter(|x| !x.closed && x.owner != a.owner) {
                    sub("account of someone else", x.key, None, &["A01"], vec![]);
                }
            }
            "user_base" | "user_quote" | "user_token" | "referrer" => {
                let mint = m.tokens.get(&cur).map(|t| t.mint);
                for x in w.mints {
                    if Some(x) != mint {
                        let u = m.tokens[&cur].owner;
                        sub("other mint", tok(&u, &x), None, &["A03"], vec![]);
                    }
                }
                let (k, c) = fresh(&cur, Some(foreign));
                sub("copy owned by another program", k, None, &["A03"], vec![(k, c)]);
            }
            "owner_base" | "owner_quote" => {
                let t = &m.tokens[&cur];
                for u in w.users.iter().chain([&w.outsider]) {
                    if *u != acc.unwrap().owner {
                        sub("someone else's token account", tok(u, &t.mint), None, &["A01", "A03"], vec![]);
                    }
                }
            }
            "token_program" | "system_program" | "ata_program" => {
                let k = named("fake program", 1);
                sub("another program", k, None, &["A03"], vec![(k, Acc { lamports: 1, data: vec![], owner: named("loader", 0), executable: true })]);
            }
            "indexer" => {
                for (o, x) in &m.indexers {
                    let k = indexer_key(o).0;
                    if x.exists {
                        sub("index of someone else", k, None, &["A03", "I01", "A01"], vec![]);
                    }
                }
                let (k, c) = fresh(&cur, None);
                if matches!(op, Op::CreateOo { .. } | Op::CloseOo { .. } | Op::CloseIndexer { .. }) {
                    sub("copy under another address", k, None, &["A03", "I01"], vec![(k, c)]);
                }
            }
            "new_bids" | "new_asks" | "new_heap" => {
                if let Some(o) = m.markets.iter().find(|x| !x.closed) {
                    let k = match role {
                        "new_bids" => o.bids_key,
                        "new_asks" => o.asks_key,
                        _ => o.heap_key,
                    };
                    sub("already in use", k, None, &["L02", "A03"], vec![]);
                }
                let (k, c) = fresh(&cur, Some(foreign));
                sub("owned by another program", k, None, &["L02", "A03"], vec![(k, c)]);
            }
            "new_base_vault" | "new_quote_vault" => {
                let mint = if role == "new_base_vault" { w.mints[0] } else { w.mints[1] };
                sub("a user's token account", tok(&w.users[0], &mint), None, &["L02", "A03"], vec![]);
            }
            "oracle_owned" => {}
            "oracle_owner" => sub("someone else", w.outsider, None, &["A02", "O01"], vec![]),
            _ => {}
        }
    }
    // a vault of a market replaced together with a matching user account must not help either
    if let Op::Place { o, .. } = op {
        if m.tif(o.expiry).is_none() {
            return out;
        }
        let t = this.unwrap();
        let vi = ix.roles.iter().position(|r| *r == "vault").unwrap();
        let ti = ix.roles.iter().position(|r| *r == "user_token").unwrap();
        let si = ix.metas[0].key;
        let mut metas = ix.metas.clone();
        metas[vi].key = t.vault(o.side.inv());
        let mint = if o.side == Side::Bid { t.base_mint } else { t.quote_mint };
        metas[ti].key = tok(&si, &mint);
        out.push(Variant { what: "vault and token account of the other currency".into(), tags: vec!["A03", "C04"], metas, extra: vec![] });
    }
    out
}
