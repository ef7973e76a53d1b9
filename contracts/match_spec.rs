// ---- matching an incoming order: what happens at each entry of the walk -------------------------------------
pub enum Act { Skip, Drop { o: OutEvent }, SelfCancel, Fill { f: FillEvent } }
/// the terms of the incoming order
pub struct Env { pub side: Side, pub plim: i64, pub now: u64, pub owner: Pubkey, pub has: bool, pub stb: SelfTradeBehavior, pub cid: u64, pub post_only: bool,
    pub max_base: int, pub max_quote: int, pub limit: int, pub m: Market }
pub open spec fn act_base(a: Act) -> int { match a { Act::Fill { f } => f.quantity as int, _ => 0 } }
pub open spec fn act_quote(a: Act) -> int { match a { Act::Fill { f } => f.quantity * f.price, _ => 0 } }
pub open spec fn mine(e: Env, k: Pubkey) -> bool { e.has && e.owner == k }
pub open spec fn act_self(e: Env, a: Act) -> int { match a { Act::Fill { f } => if mine(e, f.maker) { f.quantity * f.price } else { 0 }, _ => 0 } }
pub open spec fn act_reb(e: Env, a: Act) -> int { match a { Act::Fill { f } => if mine(e, f.maker) { 0 } else { maker_rebate(e.m, f.quantity * f.price * e.m.quote_lot_size) }, _ => 0 } }
pub open spec fn base_of(s: Seq<Act>) -> int decreases s.len() { if s.len() == 0 { 0 } else { base_of(s.drop_last()) + act_base(s.last()) } }
pub open spec fn quote_of(s: Seq<Act>) -> int decreases s.len() { if s.len() == 0 { 0 } else { quote_of(s.drop_last()) + act_quote(s.last()) } }
pub open spec fn self_of(e: Env, s: Seq<Act>) -> int decreases s.len() { if s.len() == 0 { 0 } else { self_of(e, s.drop_last()) + act_self(e, s.last()) } }
pub open spec fn reb_of(e: Env, s: Seq<Act>) -> int decreases s.len() { if s.len() == 0 { 0 } else { reb_of(e, s.drop_last()) + act_reb(e, s.last()) } }
pub open spec fn fills_of(s: Seq<Act>) -> int decreases s.len() { if s.len() == 0 { 0 } else { fills_of(s.drop_last()) + (if s.last() is Fill { 1int } else { 0 }) } }
pub open spec fn drops_of(s: Seq<Act>) -> int decreases s.len() { if s.len() == 0 { 0 } else { drops_of(s.drop_last()) + (if s.last() is Drop { 1int } else { 0 }) } }
pub open spec fn min2(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn within(e: Env, price: int) -> bool { !better(e.side, price, e.plim as int) }
pub open spec fn act_ok(e: Env, en: Ent, s: Seq<Act>, a: Act) -> bool {
    let l = en.it.leaf; let rb = e.max_base - base_of(s); let rq = e.max_quote - quote_of(s); let own = mine(e, l.owner);
    &&& rb > 0
    &&& match a {
        Act::Skip => en.state != OrderState::Valid && drops_of(s) >= DROP_EXPIRED_ORDER_LIMIT,
        Act::Drop { o } => en.state != OrderState::Valid && is_out(o, inv_side(e.side), l.owner_slot, e.now, o.seq_num, l.owner, l.quantity),
        Act::SelfCancel => en.state == OrderState::Valid && within(e, en.price) && !e.post_only && own && e.stb == SelfTradeBehavior::CancelProvide,
        Act::Fill { f } => en.state == OrderState::Valid && within(e, en.price) && !e.post_only && fills_of(s) < e.limit && (own ==> e.stb == SelfTradeBehavior::DecrementTake)
            && is_fill(f, e.side, f.quantity == l.quantity, l.owner_slot, e.now, e.m.seq_num, l.owner, l.client_order_id, l.timestamp, e.owner, e.cid, f.price, l.peg_limit, f.quantity)
            && f.price == en.price && f.quantity == min2(min2(rb, l.quantity as int), rq / en.price) && f.quantity > 0 && en.price > 0,
    }
}
pub open spec fn acts_ok(e: Env, w: Seq<Ent>, s: Seq<Act>) -> bool decreases s.len() {
    s.len() == 0 || (s.len() <= w.len() && acts_ok(e, w, s.drop_last()) && act_ok(e, w[s.len() - 1], s.drop_last(), s.last()))
}
/// the state that changes while matching
pub struct World { pub h: EventHeap, pub s: Seq<VxAcc<OpenOrdersAccount>>, pub m: Market, pub a: OpenOrdersAccount }
pub open spec fn step(e: Env, en: Ent, a: Act, p: World, q: World) -> bool {
    match a {
        Act::Skip => q == p,
        Act::Drop { o } => q.m == p.m && out_done(o, p.m, p.h, q.h, mine(e, o.owner), p.a, q.a, p.s, q.s),
        Act::SelfCancel => q.h == p.h && q.s == p.s && q.m == p.m && cancel_effect(p.a, p.m, en.it.leaf.owner_slot as int, en.it.leaf.quantity as int, q.a),
        Act::Fill { f } => q.a == p.a && fill_done(f, p.m, q.m, p.h, q.h, p.s, q.s),
    }
}
pub open spec fn step_at(e: Env, w: Seq<Ent>, s: Seq<Act>, st: Seq<World>, i: int) -> bool { step(e, w[i], s[i], st[i], st[i + 1]) }
pub open spec fn run(e: Env, w: Seq<Ent>, s: Seq<Act>, st: Seq<World>) -> bool { st.len() == s.len() + 1 && forall|i: int| 0 <= i < s.len() ==> #[trigger] step_at(e, w, s, st, i) }
pub open spec fn mterms(a: Market, b: Market) -> bool { b == (Market { referrer_rebates_accrued: b.referrer_rebates_accrued, maker_volume: b.maker_volume, fees_accrued: b.fees_accrued, ..a }) }
/// why the walk ended
pub open spec fn stopped(e: Env, w: Seq<Ent>, s: Seq<Act>) -> bool {
    let k = s.len() as int;
    ||| k == w.len()
    ||| base_of(s) == e.max_base
    ||| k < w.len() && w[k].state == OrderState::Valid && (!within(e, w[k].price) || e.post_only || fills_of(s) == e.limit || (e.max_quote - quote_of(s)) / w[k].price == 0)
}
/// nothing that could trade with the order is left on the other side
pub open spec fn clear(e: Env, w: Seq<Ent>, s: Seq<Act>) -> bool {
    &&& nopart(w, s)
    &&& base_of(s) == e.max_base || s.len() == w.len() || (s.len() < w.len() && w[s.len() as int].state == OrderState::Valid && !within(e, w[s.len() as int].price))
}
pub open spec fn partial(w: Seq<Ent>, s: Seq<Act>, i: int) -> bool { match s[i] { Act::Fill { f } => f.quantity != w[i].it.leaf.quantity, _ => false } }
// the book afterwards
pub struct Chg { pub c: BookSideOrderTree, pub h: int, pub k: u128, pub q: i64 }
pub open spec fn tree_of_ent(e: Ent) -> BookSideOrderTree { if e.pegged { BookSideOrderTree::OraclePegged } else { BookSideOrderTree::Fixed } }
pub open spec fn chs_of(w: Seq<Ent>, s: Seq<Act>) -> Seq<Chg> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let p = chs_of(w, s.drop_last()); let en = w[s.len() - 1];
        match s.last() { Act::Fill { f } => if f.quantity != en.it.leaf.quantity { p.push(Chg { c: tree_of_ent(en), h: en.it.h, k: en.it.leaf.key, q: (en.it.leaf.quantity - f.quantity) as i64 }) } else { p }, _ => p }
    }
}
pub open spec fn dels_of(w: Seq<Ent>, s: Seq<Act>) -> Seq<(BookSideOrderTree, u128)> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let p = dels_of(w, s.drop_last()); let en = w[s.len() - 1]; let x = (tree_of_ent(en), en.it.leaf.key);
        match s.last() { Act::Fill { f } => if f.quantity == en.it.leaf.quantity { p.push(x) } else { p }, Act::Skip => p, _ => p.push(x) }
    }
}
pub open spec fn after_ch(m: IMap<u128, LeafNode>, c: BookSideOrderTree, s: Seq<Chg>, n: int) -> IMap<u128, LeafNode> decreases n {
    if n <= 0 { m } else { let p = after_ch(m, c, s, n - 1); if s[n - 1].c == c { p.insert(s[n - 1].k, LeafNode { quantity: s[n - 1].q, ..p[s[n - 1].k] }) } else { p } }
}
pub open spec fn after_del(m: IMap<u128, LeafNode>, c: BookSideOrderTree, s: Seq<(BookSideOrderTree, u128)>, n: int) -> IMap<u128, LeafNode> decreases n {
    if n <= 0 { m } else { let p = after_del(m, c, s, n - 1); if s[n - 1].0 == c { p.remove(s[n - 1].1) } else { p } }
}
/// the other side after matching: reduced orders have their remaining quantity, removed ones are gone, the rest is as it was
pub open spec fn opp_after(b: BookSide, w: Seq<Ent>, s: Seq<Act>, c: BookSideOrderTree) -> IMap<u128, LeafNode> {
    after_del(after_ch(bmap(b, c), c, chs_of(w, s), chs_of(w, s).len() as int), c, dels_of(w, s), dels_of(w, s).len() as int)
}
pub open spec fn opp_is(b: BookSide, b2: BookSide, w: Seq<Ent>, s: Seq<Act>) -> bool { forall|c: BookSideOrderTree| #[trigger] bmap(b2, c) == opp_after(b, w, s, c) }
pub open spec fn ch_match(v: Seq<(BookSideOrderHandle, i64)>, s: Seq<Chg>) -> bool {
    v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> v[i].0.node == (#[trigger] s[i]).h && v[i].1 == s[i].q
}
pub open spec fn chs_in(b: BookSide, s: Seq<Chg>) -> bool { forall|i: int| 0 <= i < s.len() ==> has_slot(b, (#[trigger] s[i]).c, s[i].h, s[i].k) && 0 <= s[i].h < MAX_ORDERTREE_NODES && s[i].q > 0 }

pub proof fn lemma_act_push(e: Env, w: Seq<Ent>, s: Seq<Act>, a: Act)
    ensures s.push(a).drop_last() == s, s.push(a).last() == a,
        base_of(s.push(a)) == base_of(s) + act_base(a), quote_of(s.push(a)) == quote_of(s) + act_quote(a), self_of(e, s.push(a)) == self_of(e, s) + act_self(e, a),
        reb_of(e, s.push(a)) == reb_of(e, s) + act_reb(e, a), fills_of(s.push(a)) == fills_of(s) + (if a is Fill { 1int } else { 0 }), drops_of(s.push(a)) == drops_of(s) + (if a is Drop { 1int } else { 0 })
{ assert(s.push(a).drop_last() =~= s); }
pub proof fn lemma_run_push(e: Env, w: Seq<Ent>, s: Seq<Act>, st: Seq<World>, a: Act, q: World)
    requires run(e, w, s, st), step(e, w[s.len() as int], a, st.last(), q)
    ensures run(e, w, s.push(a), st.push(q))
{
    let s2 = s.push(a); let t2 = st.push(q);
    assert forall|i: int| 0 <= i < s2.len() implies #[trigger] step_at(e, w, s2, t2, i) by { if i < s.len() { assert(step_at(e, w, s, st, i)); } }
}
/// every entry of the walk is an order of the book
pub proof fn lemma_walk_none(side: Side, now: int, f: Seq<It>, p: Seq<It>, i: int)
    requires 0 <= i < walk(side, None, now, f, p).len()
    ensures i < f.len(), walk(side, None, now, f, p)[i] == fixed_ent(f[i], now)
    decreases f.len()
{
    if i > 0 { lemma_walk_none(side, now, f.drop_first(), p, i - 1); }
}
pub proof fn lemma_ent(b: BookSide, now: int, oracle: Option<i64>, i: int)
    requires bwf(b), side_ok(b), 0 <= i < book_walk(b, now, oracle).len()
    ensures ({ let en = book_walk(b, now, oracle)[i]; let c = tree_of_ent(en);
        has_slot(b, c, en.it.h, en.it.leaf.key) && 0 <= en.it.h < MAX_ORDERTREE_NODES && leaf_ok(en.it.leaf, c) && en.price >= 1 && bmap(b, c).contains_key(en.it.leaf.key) && bmap(b, c)[en.it.leaf.key] == en.it.leaf })
{
    let w = book_walk(b, now, oracle); let en = w[i]; let c = tree_of_ent(en); let f = bsect(b, BookSideOrderTree::Fixed); let p = bsect(b, BookSideOrderTree::OraclePegged);
    lemma_section(b.nodes, b.roots[0]); lemma_section(b.nodes, b.roots[1]);
    let s = bsect(b, c);
    let j: int = match oracle {
        None => { lemma_walk_none(side_of(b), now, f, p, i); i }
        Some(o) => {
            lemma_walk_src(side_of(b), o, now, f, p, i);
            if en.pegged { choose|k: int| 0 <= k < p.len() && !peg_skip(o as int, p[k].leaf) && #[trigger] peg_ent(side_of(b), o as int, p[k], now) == en } else { choose|k: int| 0 <= k < f.len() && #[trigger] fixed_ent(f[k], now) == en }
        }
    };
    assert(s[j] == en.it);
    assert(slot_at(b, c, j, en.it.h, en.it.leaf.key));
    assert(slot_ok(b.nodes, s[j]));
    let a = sec(b, c); let x = if is_bids(b.nodes) { a.len() - 1 - j } else { j };
    assert(a[x] == en.it.leaf);
    lemma_sec_sorted(b, c); lemma_kat(a, x);
}
pub open spec fn part_act(en: Ent, a: Act) -> bool { match a { Act::Fill { f } => f.quantity != en.it.leaf.quantity, _ => false } }
pub open spec fn gone_act(en: Ent, a: Act) -> bool { match a { Act::Fill { f } => f.quantity == en.it.leaf.quantity, Act::Skip => false, _ => true } }
pub open spec fn nopart(w: Seq<Ent>, s: Seq<Act>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] partial(w, s, i)) }
/// one more entry of the walk
pub proof fn lemma_step(e: Env, w: Seq<Ent>, s: Seq<Act>, st: Seq<World>, a: Act, q: World, b: BookSide)
    requires acts_ok(e, w, s), run(e, w, s, st), s.len() < w.len(), act_ok(e, w[s.len() as int], s, a), step(e, w[s.len() as int], a, st.last(), q), chs_in(b, chs_of(w, s)),
        has_slot(b, tree_of_ent(w[s.len() as int]), w[s.len() as int].it.h, w[s.len() as int].it.leaf.key), 0 <= w[s.len() as int].it.h < MAX_ORDERTREE_NODES
    ensures ({ let s2 = s.push(a); let en = w[s.len() as int];
        &&& acts_ok(e, w, s2) && run(e, w, s2, st.push(q)) && st.push(q)[0] == st[0] && st.push(q).last() == q
        &&& base_of(s2) == base_of(s) + act_base(a) && quote_of(s2) == quote_of(s) + act_quote(a) && self_of(e, s2) == self_of(e, s) + act_self(e, a) && reb_of(e, s2) == reb_of(e, s) + act_reb(e, a)
        &&& fills_of(s2) == fills_of(s) + (if a is Fill { 1int } else { 0 }) && drops_of(s2) == drops_of(s) + (if a is Drop { 1int } else { 0 })
        &&& nopart(w, s2) == (nopart(w, s) && !part_act(en, a))
        &&& dels_of(w, s2) == (if gone_act(en, a) { dels_of(w, s).push((tree_of_ent(en), en.it.leaf.key)) } else { dels_of(w, s) })
        &&& chs_of(w, s2) == (if part_act(en, a) { chs_of(w, s).push(Chg { c: tree_of_ent(en), h: en.it.h, k: en.it.leaf.key, q: (en.it.leaf.quantity - a->f.quantity) as i64 }) } else { chs_of(w, s) })
        &&& chs_in(b, chs_of(w, s2)) })
{
    lemma_act_push(e, w, s, a); lemma_run_push(e, w, s, st, a, q);
    let s2 = s.push(a); let en = w[s.len() as int];
    assert forall|i: int| 0 <= i < s.len() implies partial(w, s2, i) == #[trigger] partial(w, s, i) by {}
    assert(partial(w, s2, s.len() as int) == part_act(en, a));
    if nopart(w, s2) { assert forall|i: int| 0 <= i < s.len() implies !(#[trigger] partial(w, s, i)) by { assert(!partial(w, s2, i)); } assert(!partial(w, s2, s.len() as int)); }
    if nopart(w, s) && !part_act(en, a) { assert forall|i: int| 0 <= i < s2.len() implies !(#[trigger] partial(w, s2, i)) by { if i < s.len() { assert(!partial(w, s, i)); } } }
    let c2 = chs_of(w, s2); let c = chs_of(w, s);
    assert forall|i: int| 0 <= i < c2.len() implies has_slot(b, (#[trigger] c2[i]).c, c2[i].h, c2[i].k) && 0 <= c2[i].h < MAX_ORDERTREE_NODES && c2[i].q > 0 by { if i < c.len() { assert(c2[i] == c[i]); } }
}
pub proof fn lemma_skip(w: Seq<Ent>, k: int) requires 0 <= k <= w.len() ensures w.skip(k).len() == w.len() - k, k < w.len() ==> w.skip(k)[0] == w[k] && w.skip(k).drop_first() == w.skip(k + 1)
{ if k < w.len() { assert(w.skip(k).drop_first() =~= w.skip(k + 1)); } }
pub proof fn lemma_div(a: int, b: int) requires a >= 0, b >= 1 ensures 0 <= a / b <= a, vx_tdiv(a, b) == a / b { assert(0 <= a / b <= a) by (nonlinear_arith) requires a >= 0, b >= 1; }
pub proof fn lemma_mul0(a: int, b: int) ensures a == 0 ==> a * b == 0 {}
pub proof fn lemma_nn(a: int, b: int) requires a >= 0, b >= 0 ensures a * b >= 0 { assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0; }
// ---- the whole order ---------------------------------------------------------------------------------------
pub open spec fn cur(o: Option<&mut OpenOrdersAccount>) -> OpenOrdersAccount { match o { Some(a) => *a, None => arbitrary() } }
#[verifier::prophetic]
pub open spec fn same_fin(o: Option<&mut OpenOrdersAccount>, p: Option<&mut OpenOrdersAccount>) -> bool { match (o, p) { (Some(a), Some(b)) => *final(a) == *final(b), (None, None) => true, _ => false } }
pub open spec fn numbered(m: Market) -> Market { Market { seq_num: (m.seq_num + 1) as u64, ..m } }
pub open spec fn quote_cap(o: Order, m: Market) -> int { if o.side == Side::Bid && !o_post_only(o.params) { o.max_quote_lots_including_fees * 1_000_000 / (1_000_000 + m.taker_fee) } else { o.max_quote_lots_including_fees as int } }
pub open spec fn env_of(o: Order, m: Market, plim: i64, now: u64, owner: Pubkey, has: bool, limit: u8) -> Env {
    Env { side: o.side, plim, now, owner, has, stb: o.self_trade_behavior, cid: o.client_order_id, post_only: o_post_only(o.params),
        max_base: o.max_base_lots as int, max_quote: quote_cap(o, m), limit: limit as int, m: numbered(m) }
}
/// the taker's side of the trades
pub open spec fn taken(e: Env, p: World, q: World, base: int, quote: int, fees: int, refa: int) -> bool {
    &&& q.h == p.h && q.s == p.s
    &&& q.m == (Market { fees_accrued: q.m.fees_accrued, referrer_rebates_accrued: q.m.referrer_rebates_accrued, taker_volume_wo_oo: q.m.taker_volume_wo_oo, ..p.m })
    &&& q.m.fees_accrued == p.m.fees_accrued + refa
    &&& q.m.referrer_rebates_accrued == p.m.referrer_rebates_accrued + (if e.has { refa } else { 0 })
    &&& q.m.taker_volume_wo_oo == p.m.taker_volume_wo_oo + (if e.has { 0 } else { quote })
    &&& !e.has ==> q.a == p.a
    &&& e.has ==> q.a.open_orders == p.a.open_orders && acct_frame(q.a, p.a) && ({ let a = p.a.position; let b = q.a.position;
        &&& b == (Position { base_free_native: b.base_free_native, quote_free_native: b.quote_free_native, taker_volume: b.taker_volume, referrer_rebates_available: b.referrer_rebates_available, ..a })
        &&& b.base_free_native == a.base_free_native + (if e.side == Side::Bid { base } else { 0 })
        &&& b.quote_free_native == a.quote_free_native + (if e.side == Side::Ask { quote - fees } else { 0 })
        &&& b.taker_volume == a.taker_volume + quote
        &&& b.referrer_rebates_available == a.referrer_rebates_available + refa })
}
pub open spec fn took(b: BookSide, b2: BookSide, c: BookSideOrderTree, l: LeafNode) -> bool { bwf(b2) && side_of(b2) == side_of(b) && one_gone(sec(b, c), l, sec(b2, c)) && sec(b2, other(c)) == sec(b, other(c)) }
pub open spec fn same_secs(b: BookSide, b2: BookSide) -> bool { bwf(b2) && side_of(b2) == side_of(b) && sec(b2, BookSideOrderTree::Fixed) == sec(b, BookSideOrderTree::Fixed) && sec(b2, BookSideOrderTree::OraclePegged) == sec(b, BookSideOrderTree::OraclePegged) }
pub open spec fn none_expired(s: Seq<LeafNode>, now: int) -> bool { forall|i: int| 0 <= i < s.len() ==> leaf_expiry(#[trigger] s[i]) >= now }
/// the market's terms
pub open spec fn same_terms(a: Market, b: Market) -> bool { b.maker_fee == a.maker_fee && b.taker_fee == a.taker_fee && b.quote_lot_size == a.quote_lot_size && b.base_lot_size == a.base_lot_size && b.seq_num == a.seq_num }
pub struct Out { pub c: BookSideOrderTree, pub l: LeafNode, pub price: i64, pub o: OutEvent }
pub struct Post { pub c: BookSideOrderTree, pub price: i64, pub q: i64, pub fee: int, pub wa: World, pub exp: Option<Out>, pub b1: BookSide, pub wb: World, pub wst: Option<Out>, pub b2: BookSide, pub wc: World, pub leaf: LeafNode }
pub open spec fn told(e: Env, x: Out, p: World, q: World) -> bool { is_out(x.o, e.side, x.l.owner_slot, e.now, x.o.seq_num, x.l.owner, x.l.quantity) && q.m == p.m && out_done(x.o, p.m, p.h, q.h, mine(e, x.o.owner), p.a, q.a, p.s, q.s) }
/// an expired order makes room
pub open spec fn exp_step(e: Env, x: Option<Out>, b: BookSide, b1: BookSide, p: World, q: World) -> bool {
    match x {
        None => q == p && same_secs(b, b1) && none_expired(sec(b, BookSideOrderTree::Fixed), e.now as int) && none_expired(sec(b, BookSideOrderTree::OraclePegged), e.now as int),
        Some(o) => took(b, b1, o.c, o.l) && leaf_expiry(o.l) < e.now && told(e, o, p, q),
    }
}
/// on a full side the worst order makes room for a better one
pub open spec fn evict_step(e: Env, oracle: Option<i64>, x: Option<Out>, b: BookSide, b1: BookSide, p: World, q: World) -> bool {
    match x {
        None => q == p && b1 == b && room(b) >= 2,
        Some(o) => room(b) <= 2 && o.c == (if peg_worse(b, oracle) { BookSideOrderTree::OraclePegged } else { BookSideOrderTree::Fixed }) && o.l == worst(b, o.c) && took(b, b1, o.c, o.l)
            && o.price == (if peg_worse(b, oracle) { peg_shown(oracle->0 as int, o.l) } else { key_price(o.l.key as int) }) && better(e.side, e.plim as int, o.price as int) && told(e, o, p, q),
    }
}
pub open spec fn locked_fee(p: World, q: World, fee: int) -> bool {
    q == (World { a: q.a, ..p }) && q.a == (OpenOrdersAccount { position: q.a.position, ..p.a }) && q.a.position == (Position { locked_maker_fees: q.a.position.locked_maker_fees, ..p.a.position }) && q.a.position.locked_maker_fees == p.a.position.locked_maker_fees + fee
}
pub open spec fn oo_is(o: OpenOrder, side: Side, c: BookSideOrderTree, l: LeafNode, cid: u64, price: i64) -> bool { !oo_free(o) && o.id == l.key && o.client_id == cid && o.locked_price == price && o.side_and_tree == st_new(side, c).disc() && oo_side(o) == side }
pub open spec fn recorded(e: Env, x: Post, p: World, q: World) -> bool {
    let s = x.leaf.owner_slot as int;
    &&& q == (World { a: q.a, ..p }) && s < MAX_OPEN_ORDERS && oo_free(p.a.open_orders[s]) && others_same(q.a, p.a, s) && oo_is(q.a.open_orders[s], e.side, x.c, x.leaf, e.cid, x.price)
    &&& pos_minus(q.a.position, e.side, x.q as int, x.price as int, p.a.position)
}
pub open spec fn kseq(side: Side, k: int) -> int { if side == Side::Bid { P64() - 1 - k % P64() } else { k % P64() } }
/// the ids on this side were given out before
pub open spec fn seq_below(s: Seq<LeafNode>, side: Side, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> kseq(side, (#[trigger] s[i]).key as int) <= n }
pub open spec fn ids_old(b: BookSide, side: Side, n: int) -> bool { seq_below(sec(b, BookSideOrderTree::Fixed), side, n) && seq_below(sec(b, BookSideOrderTree::OraclePegged), side, n) }
pub open spec fn two_sides(b: Books, s: Side, x: BookSide, y: BookSide) -> bool { side_book(b, s) == x && side_book(b, inv_side(s)) == y }
pub open spec fn lock_price(o: Order, plim: i64) -> i64 { if o_peg_limit(o.params) != -1 && o.side == Side::Bid { o_peg_limit(o.params) } else { plim } }
pub open spec fn peg_ok(o: Order, plim: i64) -> bool { o_peg_limit(o.params) == -1 || !better(o.side, plim as int, o_peg_limit(o.params) as int) }
pub open spec fn price_data(o: Order, plim: i64, oracle: Option<i64>) -> int { if o.params is OraclePegged { peg_data(plim - oracle->0) } else { plim as int } }
pub open spec fn is_post(e: Env, o: Order, oracle: Option<i64>, x: Post, id: u128) -> bool {
    &&& o_target(o.params) == Some(x.c) && e.has && x.q > 0 && peg_ok(o, e.plim) && x.price == lock_price(o, e.plim) && x.price >= 1
    &&& id == key_of(e.side, price_data(o, e.plim, oracle), e.m.seq_num as int)
    &&& x.leaf.tag == 2 && x.leaf.key == id && x.leaf.owner == e.owner && x.leaf.quantity == x.q && x.leaf.timestamp == e.now && x.leaf.time_in_force == o.time_in_force && x.leaf.peg_limit == o_peg_limit(o.params) && x.leaf.client_order_id == o.client_order_id
    &&& x.fee == (if e.side == Side::Bid { maker_fee_ceil(e.m, x.q * x.price * e.m.quote_lot_size) } else { 0 })
}
pub open spec fn posted(e: Env, o: Order, oracle: Option<i64>, x: Post, id: u128, fin: World, end: World, b0: BookSide, b3: BookSide) -> bool {
    &&& is_post(e, o, oracle, x, id)
    &&& locked_fee(fin, x.wa, x.fee) && exp_step(e, x.exp, b0, x.b1, x.wa, x.wb) && evict_step(e, oracle, x.wst, x.b1, x.b2, x.wb, x.wc) && recorded(e, x, x.wc, end)
    &&& only(x.b2, b3, x.c) && (ids_old(b0, e.side, e.m.seq_num - 1) ==> inserted(sec(x.b2, x.c), x.leaf, sec(b3, x.c)))
}
pub struct Trace { pub plim: i64, pub acts: Seq<Act>, pub st: Seq<World>, pub fin: World, pub post: Post }
pub open spec fn fees_of(e: Env, s: Seq<Act>) -> int { taker_fee_ceil(e.m, (quote_of(s) - self_of(e, s)) * e.m.quote_lot_size) }
pub open spec fn ceil_div(a: int, b: int) -> int { (a + b - 1) / b }
pub open spec fn left_quote(o: Order, e: Env, s: Seq<Act>) -> int { o.max_quote_lots_including_fees - quote_of(s) - ceil_div(fees_of(e, s), e.m.quote_lot_size as int) }
/// how much of the order is left for the book
pub open spec fn left_base(o: Order, e: Env, s: Seq<Act>) -> int { let r = left_quote(o, e, s); min2(e.max_base - base_of(s), vx_tdiv(r - maker_fee_ceil(e.m, r), lock_price(o, e.plim) as int)) }
pub open spec fn amounts(e: Env, t: Trace, r: OrderWithAmounts) -> bool {
    &&& r.total_base_taken_native == base_of(t.acts) * e.m.base_lot_size && r.total_quote_taken_native == quote_of(t.acts) * e.m.quote_lot_size
    &&& r.taker_fees == fees_of(e, t.acts) && r.referrer_amount == r.taker_fees - reb_of(e, t.acts)
    &&& r.order_id is Some ==> r.posted_base_native == t.post.q * e.m.base_lot_size && r.posted_quote_native == t.post.q * t.post.price * e.m.quote_lot_size && r.maker_fees == t.post.fee
    &&& r.order_id is None ==> r.posted_base_native == 0 && r.posted_quote_native == 0 && r.maker_fees == 0
}
/// what the order may spend
pub open spec fn in_budget(o: Order, m: Market, r: OrderWithAmounts) -> bool {
    &&& o.side == Side::Bid ==> r.total_quote_taken_native + r.taker_fees + r.posted_quote_native + r.maker_fees <= o.max_quote_lots_including_fees * m.quote_lot_size
    &&& r.total_base_taken_native + r.posted_base_native <= o.max_base_lots * m.base_lot_size
    &&& r.total_quote_taken_native <= o.max_quote_lots_including_fees * m.quote_lot_size
}
pub open spec fn placed(o: Order, w0: World, w1: World, b0: Books, b1: Books, oracle: Option<i64>, has: bool, owner: Pubkey, now: u64, limit: u8, r: OrderWithAmounts, t: Trace) -> bool {
    let e = env_of(o, w0.m, t.plim, now, owner, has, limit); let opp0 = side_book(b0, inv_side(o.side)); let w = book_walk(opp0, now as int, oracle);
    &&& o_limit(o.side, o.params, oracle, best_of(opp0, now as int, oracle)) == Some(t.plim as int) && t.plim >= 1
    // matching
    &&& acts_ok(e, w, t.acts) && run(e, w, t.acts, t.st) && t.st[0] == (World { m: numbered(w0.m), ..w0 }) && stopped(e, w, t.acts)
    &&& opp_is(opp0, side_book(b1, inv_side(o.side)), w, t.acts)
    &&& taken(e, t.st.last(), t.fin, base_of(t.acts) * e.m.base_lot_size, quote_of(t.acts) * e.m.quote_lot_size, fees_of(e, t.acts), fees_of(e, t.acts) - reb_of(e, t.acts))
    &&& o.params is FillOrKill ==> base_of(t.acts) == e.max_base
    // posting
    &&& amounts(e, t, r) && in_budget(o, w0.m, r)
    &&& match r.order_id {
        None => w1 == t.fin && side_book(b1, o.side) == side_book(b0, o.side)
            && (o_target(o.params) is None || !clear(e, w, t.acts) || !peg_ok(o, t.plim) || (left_quote(o, e, t.acts) >= 0 ==> left_base(o, e, t.acts) <= 0)),
        Some(id) => clear(e, w, t.acts) && posted(e, o, oracle, t.post, id, t.fin, w1, side_book(b0, o.side), side_book(b1, o.side))
            && (left_quote(o, e, t.acts) >= 0 ==> t.post.q == left_base(o, e, t.acts)),
    }
}
pub open spec fn order_done(o: Order, w0: World, w1: World, b0: Books, b1: Books, oracle: Option<i64>, has: bool, owner: Pubkey, now: u64, limit: u8, r: OrderWithAmounts) -> bool {
    exists|t: Trace| #[trigger] placed(o, w0, w1, b0, b1, oracle, has, owner, now, limit, r, t)
}
pub open spec fn order_pre(o: Order, m: Market) -> bool { o.max_base_lots >= 0 && o.max_quote_lots_including_fees >= 0 && 0 <= m.taker_fee && lots_ok(m) && m.taker_fee <= 1_000_000 && o_peg_limit(o.params) >= -1 }
// ---- lemmas for the whole order -----------------------------------------------------------------------------
pub proof fn lemma_totals(e: Env, w: Seq<Ent>, s: Seq<Act>)
    requires acts_ok(e, w, s), e.m.quote_lot_size > 0
    ensures base_of(s) >= 0, 0 <= self_of(e, s) <= quote_of(s), reb_of(e, s) >= 0, quote_of(s) == self_of(e, s) ==> reb_of(e, s) == 0, e.post_only ==> quote_of(s) == 0 && base_of(s) == 0
    decreases s.len()
{
    if s.len() > 0 {
        lemma_totals(e, w, s.drop_last());
        if let Act::Fill { f } = s.last() {
            assert(f.quantity * f.price > 0) by (nonlinear_arith) requires f.quantity > 0, f.price > 0;
            lemma_nn(f.quantity * f.price, e.m.quote_lot_size as int);
            let n = if e.m.maker_fee > 0 { 0 } else { -e.m.maker_fee };
            lemma_nn(f.quantity * f.price * e.m.quote_lot_size, n);
        }
    }
}
pub proof fn lemma_fee_mono(a: int, b: int, t: int) requires 0 <= a <= b, t >= 0 ensures 0 <= fee_ceil(a, t) <= fee_ceil(b, t) {
    assert(0 <= a * t <= b * t) by (nonlinear_arith) requires 0 <= a <= b, t >= 0;
}
/// a fee on `a` lots, in native units, is at most the fee in lots
pub proof fn lemma_fee_lots(a: int, b: int, t: int, q: int) requires 0 <= a <= b, t >= 0, q > 0 ensures 0 <= fee_ceil(a * q, t) <= fee_ceil(b, t) * q {
    let g = fee_ceil(b, t);
    assert(a * q * t == (a * t) * q) by (nonlinear_arith);
    assert(0 <= a * t <= b * t) by (nonlinear_arith) requires 0 <= a <= b, t >= 0;
    assert(b * t <= g * 1_000_000);
    assert((a * t) * q <= (g * 1_000_000) * q) by (nonlinear_arith) requires a * t <= g * 1_000_000, q > 0;
    assert((a * t) * q >= 0) by (nonlinear_arith) requires a * t >= 0, q > 0;
    assert((g * 1_000_000) * q == (g * q) * 1_000_000) by (nonlinear_arith);
}
pub proof fn lemma_ceil_div(a: int, b: int, c: int) requires b > 0, 0 <= a <= c * b ensures 0 <= ceil_div(a, b) <= c, a <= ceil_div(a, b) * b, c >= 0 {
    let x = ceil_div(a, b);
    assert(a <= x * b && x * b < a + b && x >= 0) by (nonlinear_arith) requires x == (a + b - 1) / b, b > 0, a >= 0;
    assert(x <= c) by (nonlinear_arith) requires x * b < a + b, a <= c * b, b > 0;
    assert(c >= 0) by (nonlinear_arith) requires 0 <= c * b, b > 0;
}
pub proof fn lemma_spend(q: int, t: int, x: int, d: int, l: int)
    requires 0 <= t <= 1_000_000, q >= 0, 0 <= d <= x, l > 0, x <= q * 1_000_000 / (1_000_000 + t)
    ensures ({ let fee = fee_ceil((x - d) * l, t); 0 <= fee && fee <= ceil_div(fee, l) * l && x + ceil_div(fee, l) <= q })
{
    lemma_subtract(q, t);
    let r = q * 1_000_000 / (1_000_000 + t);
    lemma_fee_mono(x, r, t); lemma_fee_lots(x - d, x, t, l); lemma_ceil_div(fee_ceil((x - d) * l, t), l, fee_ceil(x, t));
}
pub proof fn lemma_fee_small(a: int, t: int) requires a >= 0, 0 <= t <= 1_000_000 ensures 0 <= fee_ceil(a, t) <= a {
    assert(0 <= a * t <= a * 1_000_000) by (nonlinear_arith) requires a >= 0, 0 <= t <= 1_000_000;
}
pub proof fn lemma_post_spend(m: Market, r: int, price: int, q: int)
    requires r >= 0, price >= 1, q >= 1, q <= vx_tdiv(r - maker_fee_ceil(m, r), price), m.quote_lot_size > 0
    ensures q * price * m.quote_lot_size + maker_fee_ceil(m, q * price * m.quote_lot_size) <= r * m.quote_lot_size, q * price * m.quote_lot_size >= 0
{
    let g = maker_fee_ceil(m, r); let r2 = r - g; let v = q * price; let l = m.quote_lot_size as int;
    if r2 < 0 { assert((-r2) / price >= 0) by (nonlinear_arith) requires r2 < 0, price >= 1; assert(false); }
    assert(v <= r2 && v >= 0) by (nonlinear_arith) requires v == q * price, q <= r2 / price, price >= 1, r2 >= 0, q >= 1;
    if m.maker_fee > 0 { lemma_fee_mono(0, r, m.maker_fee as int); lemma_fee_lots(v, r, m.maker_fee as int, l); }
    assert(v * l + g * l <= r * l && v * l >= 0) by (nonlinear_arith) requires v + g <= r, l > 0, v >= 0;
}
pub open spec fn map_ok(m: IMap<u128, LeafNode>, c: BookSideOrderTree) -> bool { forall|k: u128| #[trigger] m.contains_key(k) ==> leaf_ok(m[k], c) }
pub proof fn lemma_map_ok(b: BookSide, c: BookSideOrderTree) requires bwf(b) ensures leaves_ok(sec(b, c), c) == map_ok(bmap(b, c), c) {
    let s = sec(b, c); lemma_sec_sorted(b, c);
    if leaves_ok(s, c) { assert forall|k: u128| #[trigger] kmap(s).contains_key(k) implies leaf_ok(kmap(s)[k], c) by { let i = choose|i: int| #[trigger] at_key(s, i, k); lemma_kat(s, i); } }
    if map_ok(kmap(s), c) { assert forall|i: int| 0 <= i < s.len() implies leaf_ok(#[trigger] s[i], c) by { lemma_kat(s, i); } }
}
/// one change of a quantity applied
pub proof fn lemma_change(b0: BookSide, b: BookSide, b2: BookSide, s: Seq<Chg>, i: int)
    requires bwf(b), side_ok(b), chs_in(b, s), 0 <= i < s.len(),
        forall|c: BookSideOrderTree| #[trigger] bmap(b, c) == after_ch(bmap(b0, c), c, s, i),
        b2 == (BookSide { nodes: b2.nodes, ..b }), b2.nodes == (OrderTreeNodes { nodes: b2.nodes.nodes, ..b.nodes }), b2.nodes.nodes@ == b.nodes.nodes@.update(s[i].h, b2.nodes.nodes@[s[i].h]),
        b2.nodes.nodes@[s[i].h].tag == 2, any_leaf(b2.nodes.nodes@[s[i].h]) == (LeafNode { quantity: s[i].q, ..any_leaf(b.nodes.nodes@[s[i].h]) })
    ensures bwf(b2), side_ok(b2), side_of(b2) == side_of(b), chs_in(b2, s), forall|c: BookSideOrderTree| #[trigger] bmap(b2, c) == after_ch(bmap(b0, c), c, s, i + 1)
{
    let x = s[i]; let c = x.c;
    lemma_requant(b, b2, c, x.h, x.k, x.q);
    assert forall|j: int| 0 <= j < s.len() implies has_slot(b2, (#[trigger] s[j]).c, s[j].h, s[j].k) && 0 <= s[j].h < MAX_ORDERTREE_NODES && s[j].q > 0 by { assert(has_slot(b, s[j].c, s[j].h, s[j].k)); }
    assert forall|d: BookSideOrderTree| #[trigger] bmap(b2, d) == after_ch(bmap(b0, d), d, s, i + 1) by { assert(bmap(b, d) == after_ch(bmap(b0, d), d, s, i)); if d != c { assert(d == other(c)); } }
    lemma_map_ok(b, c); lemma_map_ok(b2, c);
    assert(leaves_ok(sec(b, c), c));
    assert forall|k: u128| #[trigger] bmap(b2, c).contains_key(k) implies leaf_ok(bmap(b2, c)[k], c) by { assert(bmap(b, c).contains_key(k)); }
    assert(leaves_ok(sec(b2, c), c) && leaves_ok(sec(b2, other(c)), other(c)));
}
/// one removal applied
pub proof fn lemma_removal(m0: IMap<u128, LeafNode>, m1: IMap<u128, LeafNode>, b: BookSide, b2: BookSide, s: Seq<(BookSideOrderTree, u128)>, i: int, l: LeafNode)
    requires bwf(b), side_ok(b), 0 <= i < s.len(), only(b, b2, s[i].0), l.key == s[i].1, one_gone(sec(b, s[i].0), l, sec(b2, s[i].0)),
        bmap(b, BookSideOrderTree::Fixed) == after_del(m0, BookSideOrderTree::Fixed, s, i), bmap(b, BookSideOrderTree::OraclePegged) == after_del(m1, BookSideOrderTree::OraclePegged, s, i)
    ensures bwf(b2), side_ok(b2), side_of(b2) == side_of(b), bmap(b2, BookSideOrderTree::Fixed) == after_del(m0, BookSideOrderTree::Fixed, s, i + 1), bmap(b2, BookSideOrderTree::OraclePegged) == after_del(m1, BookSideOrderTree::OraclePegged, s, i + 1)
{
    let c = s[i].0;
    lemma_sec_sorted(b, c); lemma_sec_sorted(b2, c); lemma_kgone(sec(b, c), l, sec(b2, c)); lemma_gone(sec(b, c), l, sec(b2, c));
    assert(sec(b2, other(c)) == sec(b, other(c)));
    assert(leaves_ok(sec(b2, c), c) && leaves_ok(sec(b2, other(c)), other(c)));
}
pub proof fn lemma_took(b: BookSide, b2: BookSide, c: BookSideOrderTree, l: LeafNode, side: Side, n: int)
    requires took(b, b2, c, l)
    ensures side_ok(b) ==> side_ok(b2), ids_old(b, side, n) ==> ids_old(b2, side, n)
{ lemma_gone(sec(b, c), l, sec(b2, c)); assert(other(c) == BookSideOrderTree::Fixed || c == BookSideOrderTree::Fixed); }
pub proof fn lemma_kseq(side: Side, p: int, s: int) requires 0 <= p < P64(), 0 <= s < P64() ensures kseq(side, key_of(side, p, s)) == s {
    let l = if side == Side::Bid { P64() - 1 - s } else { s };
    assert((p * P64() + l) % P64() == l) by (nonlinear_arith) requires 0 <= l < P64(), 0 <= p;
}
pub proof fn lemma_put(b: BookSide, b2: BookSide, c: BookSideOrderTree, x: LeafNode, o: Option<LeafNode>, side: Side, n: int)
    requires bwf(b), side_ok(b), leaf_ok(x, c), only(b, b2, c), match o { None => inserted(sec(b, c), x, sec(b2, c)), Some(y) => replaced(sec(b, c), y, x, sec(b2, c)) }, kseq(side, x.key as int) == n + 1
    ensures bwf(b2), side_ok(b2), side_of(b2) == side_of(b), ids_old(b, side, n) ==> inserted(sec(b, c), x, sec(b2, c)), ids_old(b, side, n) ==> ids_old(b2, side, n + 1)
{
    let s = sec(b, c); let s2 = sec(b2, c);
    lemma_sec_sorted(b, c); lemma_sec_sorted(b2, c);
    lemma_map_ok(b, c); lemma_map_ok(b2, c);
    match o { None => { lemma_kins(s, x, s2); }, Some(y) => { lemma_krep(s, y, x, s2); } }
    assert(leaves_ok(s, c));
    assert forall|k: u128| #[trigger] bmap(b2, c).contains_key(k) implies leaf_ok(bmap(b2, c)[k], c) by { if k != x.key { assert(bmap(b, c).contains_key(k)); } }
    assert(leaves_ok(sec(b2, c), c) && leaves_ok(sec(b2, other(c)), other(c)));
    if ids_old(b, side, n) {
        assert(seq_below(s, side, n));
        if o is Some { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == o->0 && s2 == s.update(i, x); assert(kseq(side, s[i].key as int) <= n); assert(false); }
        assert forall|i: int| 0 <= i < s2.len() implies kseq(side, (#[trigger] s2[i]).key as int) <= n + 1 by {
            let j = choose|j: int| 0 <= j <= s.len() && #[trigger] s.insert(j, x) == s2;
            if i < j { assert(s2[i] == s[i]); } else if i > j { assert(s2[i] == s[i - 1]); } else { assert(s2[i] == x); }
        }
        assert(seq_below(sec(b2, other(c)), side, n + 1)) by { assert(seq_below(sec(b, other(c)), side, n)); }
    }
}
pub proof fn lemma_budget(o: Order, m: Market, e: Env, w: Seq<Ent>, t: Trace, r: OrderWithAmounts)
    requires order_pre(o, m), e == env_of(o, m, e.plim, e.now, e.owner, e.has, e.limit as u8), acts_ok(e, w, t.acts), amounts(e, t, r), base_of(t.acts) <= e.max_base, quote_of(t.acts) <= e.max_quote,
        r.order_id is Some ==> t.post.q > 0 && t.post.price >= 1 && t.post.price == lock_price(o, e.plim) && t.post.q <= e.max_base - base_of(t.acts) && (left_quote(o, e, t.acts) >= 0 ==> t.post.q == left_base(o, e, t.acts))
            && t.post.fee == (if e.side == Side::Bid { maker_fee_ceil(e.m, t.post.q * t.post.price * e.m.quote_lot_size) } else { 0 })
    ensures in_budget(o, m, r)
{
    let s = t.acts; let l = m.quote_lot_size as int; let bl = m.base_lot_size as int; let q = o.max_quote_lots_including_fees as int; let tf = m.taker_fee as int;
    lemma_totals(e, w, s);
    lemma_subtract(q, tf);
    let x = quote_of(s); let d = self_of(e, s);
    assert(x <= q);
    assert(x * l <= q * l) by (nonlinear_arith) requires x <= q, l > 0;
    let bq = if r.order_id is Some { t.post.q as int } else { 0 };
    let b = base_of(s); let mb = o.max_base_lots as int;
    assert(b * bl + bq * bl <= mb * bl) by (nonlinear_arith) requires b + bq <= mb, bl > 0;
    assert(0 * bl == 0 && 0 * l == 0);
    if o.side == Side::Bid {
        if e.post_only {
            assert(0 * l == 0 && fee_ceil(0, tf) == 0) by { assert(0 * tf == 0); }
            assert(fees_of(e, s) == 0);
            lemma_ceil_div(0, l, 0);
        } else { lemma_spend(q, tf, x, d, l); }
        let f = fees_of(e, s); let c = ceil_div(f, l); let lq = left_quote(o, e, s);
        assert(f <= c * l && lq == q - x - c && lq >= 0);
        if r.order_id is Some { lemma_post_spend(e.m, lq, t.post.price as int, t.post.q as int); }
        assert(x * l + c * l + lq * l == q * l) by (nonlinear_arith) requires lq == q - x - c;
        assert(lq * l >= 0) by (nonlinear_arith) requires lq >= 0, l > 0;
    }
}
pub proof fn lemma_new_key(e: Env, side: Side, c: BookSideOrderTree, pd: u64, n: u64, key: u128, x: LeafNode)
    requires key == key_of(side, pd as int, n as int), x.key == key, x.quantity > 0, x.peg_limit >= -1, c == BookSideOrderTree::Fixed ==> pd >= 1
    ensures leaf_ok(x, c), kseq(side, x.key as int) == n
{ lemma_key_order(side, pd as int, n as int, pd as int, n as int); lemma_kseq(side, pd as int, n as int); }
pub proof fn lemma_sides(b: Books, s: Side)
    ensures book_wf(b) <==> bwf(side_book(b, s)) && bwf(side_book(b, inv_side(s))) && side_of(side_book(b, s)) == s && side_of(side_book(b, inv_side(s))) == inv_side(s),
        book_ok(b) <==> side_ok(side_book(b, s)) && side_ok(side_book(b, inv_side(s)))
{
    let f = BookSideOrderTree::Fixed; let p = BookSideOrderTree::OraclePegged;
    if book_ok(b) {
        assert(leaves_ok(bsec(b, st_new(s, f)), st_tree(st_new(s, f)))); assert(leaves_ok(bsec(b, st_new(s, p)), st_tree(st_new(s, p))));
        assert(leaves_ok(bsec(b, st_new(inv_side(s), f)), st_tree(st_new(inv_side(s), f)))); assert(leaves_ok(bsec(b, st_new(inv_side(s), p)), st_tree(st_new(inv_side(s), p))));
    }
    if side_ok(side_book(b, s)) && side_ok(side_book(b, inv_side(s))) {
        assert forall|k: SideAndOrderTree| leaves_ok(#[trigger] bsec(b, k), st_tree(k)) by { assert(st_side(k) == s || st_side(k) == inv_side(s)); assert(st_tree(k) == f || st_tree(k) == p); }
    }
}
pub proof fn lemma_init(e: Env, w: Seq<Ent>, b: BookSide, st: Seq<World>)
    requires st.len() == 1
    ensures ({ let s = Seq::<Act>::empty(); acts_ok(e, w, s) && run(e, w, s, st) && base_of(s) == 0 && quote_of(s) == 0 && self_of(e, s) == 0 && reb_of(e, s) == 0 && fills_of(s) == 0 && drops_of(s) == 0
        && chs_of(w, s) == Seq::<Chg>::empty() && dels_of(w, s) == Seq::<(BookSideOrderTree, u128)>::empty() && chs_in(b, chs_of(w, s)) && nopart(w, s) && w.skip(0) == w })
{ assert(w.skip(0) =~= w); }
