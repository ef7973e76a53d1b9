// ---- walking a side of the book: both sections merged ------------------------------------------------
pub open spec fn peg_offset(l: LeafNode) -> int { key_price(l.key as int) - 0x8000_0000_0000_0000 }
/// the price a pegged order currently stands at
pub open spec fn peg_price(o: int, l: LeafNode) -> int { o + peg_offset(l) }
pub open spec fn peg_skip(o: int, l: LeafNode) -> bool { !(1 <= peg_price(o, l) < i64::MAX) }
pub open spec fn peg_shown(o: int, l: LeafNode) -> int { let p = peg_price(o, l); if p < 1 { 1 } else if p >= i64::MAX { i64::MAX as int } else { p } }
pub open spec fn peg_state(side: Side, o: int, l: LeafNode) -> OrderState {
    if peg_skip(o, l) { OrderState::Skipped }
    else if l.peg_limit != -1 && better(side, peg_price(o, l), l.peg_limit as int) { OrderState::Invalid } else { OrderState::Valid }
}
/// rank of a price and an id: price first, then arrival
pub open spec fn rank_at(price: int, key: int) -> int { price * P64() + key % P64() }
pub open spec fn peg_rank(o: int, l: LeafNode) -> int { rank_at(peg_shown(o, l), l.key as int) }
/// one entry of the walk
pub struct Ent { pub pegged: bool, pub it: It, pub price: int, pub rank: int, pub state: OrderState }
pub open spec fn fixed_ent(it: It, now: int) -> Ent {
    Ent { pegged: false, it, price: key_price(it.leaf.key as int), rank: it.leaf.key as int, state: if leaf_expired(it.leaf, now) { OrderState::Invalid } else { OrderState::Valid } }
}
pub open spec fn peg_ent(side: Side, o: int, it: It, now: int) -> Ent {
    Ent { pegged: true, it, price: peg_shown(o, it.leaf), rank: peg_rank(o, it.leaf), state: if leaf_expired(it.leaf, now) { OrderState::Invalid } else { peg_state(side, o, it.leaf) } }
}
pub open spec fn skipf(o: int, p: Seq<It>) -> Seq<It> decreases p.len() {
    if p.len() > 0 && peg_skip(o, p[0].leaf) { skipf(o, p.drop_first()) } else { p }
}
pub proof fn lemma_skipf(o: int, p: Seq<It>)
    ensures skipf(o, p).len() <= p.len(), skipf(o, skipf(o, p)) == skipf(o, p), skipf(o, p).len() > 0 ==> !peg_skip(o, skipf(o, p)[0].leaf)
    decreases p.len()
{
    if p.len() > 0 && peg_skip(o, p[0].leaf) { lemma_skipf(o, p.drop_first()); }
}
/// the pegged order is the next one of the two
pub open spec fn peg_first(side: Side, o: int, f: Seq<It>, p: Seq<It>) -> bool {
    p.len() > 0 && (f.len() == 0 || !before(side, f[0].leaf.key as int, peg_rank(o, p[0].leaf)))
}
/// the walk over a side of the book
pub open spec fn walk(side: Side, oracle: Option<i64>, now: int, f: Seq<It>, p: Seq<It>) -> Seq<Ent> decreases f.len() + p.len() when true via walk_dec {
    match oracle {
        None => if f.len() == 0 { Seq::empty() } else { seq![fixed_ent(f[0], now)] + walk(side, oracle, now, f.drop_first(), p) },
        Some(o) => {
            let q = skipf(o as int, p);
            if f.len() == 0 && q.len() == 0 { Seq::empty() }
            else if peg_first(side, o as int, f, q) { seq![peg_ent(side, o as int, q[0], now)] + walk(side, oracle, now, f, q.drop_first()) }
            else { seq![fixed_ent(f[0], now)] + walk(side, oracle, now, f.drop_first(), q) }
        }
    }
}
#[via_fn]
proof fn walk_dec(side: Side, oracle: Option<i64>, now: int, f: Seq<It>, p: Seq<It>) { if let Some(o) = oracle { lemma_skipf(o as int, p); } }
/// the real item `r` is the entry `e` of the walk
pub open spec fn is_item(r: BookSideIterItem, e: Ent) -> bool {
    &&& r.handle.node == e.it.h && (r.handle.order_tree == BookSideOrderTree::OraclePegged <==> e.pegged)
    &&& *r.node == e.it.leaf && r.price_lots == e.price && r.state == e.state
}
/// the entries that can be matched now
pub open spec fn valid(w: Seq<Ent>) -> Seq<Ent> decreases w.len() {
    if w.len() == 0 { Seq::empty() } else if w[0].state == OrderState::Valid { seq![w[0]] + valid(w.drop_first()) } else { valid(w.drop_first()) }
}
/// total quantity of the leading entries not worse than the limit
pub open spec fn qty_to(side: Side, w: Seq<Ent>, limit: int) -> int decreases w.len() {
    if w.len() == 0 || better(side, limit, w[0].price) { 0 } else { w[0].it.leaf.quantity + qty_to(side, w.drop_first(), limit) }
}
/// price of the entry at which the running total reaches `q`
pub open spec fn price_at(w: Seq<Ent>, sum: int, q: int) -> Option<int> decreases w.len() {
    if w.len() == 0 { None } else if sum + w[0].it.leaf.quantity >= q { Some(w[0].price) } else { price_at(w.drop_first(), sum + w[0].it.leaf.quantity, q) }
}
