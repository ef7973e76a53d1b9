//@include prelude.rs
//@include abort.rs
//@uselemmas book_all.rs
//@uselemmas requant.rs
//@uselemmas walk_thm.rs
//@uselemmas market_lem.rs
//@uselemmas match_spec.rs
//@item state/orderbook/book.rs OrderWithAmounts
//@item instructions/consume_events.rs MAX_EVENTS_CONSUME
//@uselemmas consume_spec.rs
// ---- conservation: the value held in accounts and owed by queued events, in quote and base ------------------
/// what settling a fill adds to the maker's account
pub open spec fn fill_dq(m: Market, f: FillEvent) -> int { (if fill_taker_side(f) == Side::Bid { fill_quote(m, f) } else { -fill_quote(m, f) }) + fill_rebate(m, f) }
pub open spec fn fill_db(m: Market, f: FillEvent) -> int { if fill_taker_side(f) == Side::Ask { f.quantity * m.base_lot_size } else { -(f.quantity * m.base_lot_size) } }
/// what a queued event owes
pub open spec fn ev_dq(m: Market, e: AnyEvent) -> int { if e.event_type == 0 { fill_dq(m, as_fill(e)) } else { 0 } }
pub open spec fn ev_db(m: Market, e: AnyEvent) -> int { if e.event_type == 0 { fill_db(m, as_fill(e)) } else { 0 } }
pub open spec fn sum(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() } }
pub proof fn lemma_sum_push(s: Seq<int>, x: int) ensures sum(s.push(x)) == sum(s) + x { assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_sum_update(s: Seq<int>, i: int, x: int)
    requires 0 <= i < s.len()
    ensures sum(s.update(i, x)) == sum(s) - s[i] + x
    decreases s.len()
{
    let t = s.update(i, x);
    if i == s.len() - 1 { assert(t.drop_last() =~= s.drop_last()); } else { lemma_sum_update(s.drop_last(), i, x); assert(t.drop_last() =~= s.drop_last().update(i, x)); }
}
pub proof fn lemma_sum_remove(s: Seq<int>, i: int)
    requires 0 <= i < s.len()
    ensures sum(s.remove(i)) == sum(s) - s[i]
    decreases s.len()
{
    let t = s.remove(i);
    if i == s.len() - 1 { assert(t =~= s.drop_last()); } else { lemma_sum_remove(s.drop_last(), i); assert(t.drop_last() =~= s.drop_last().remove(i)); }
}
pub open spec fn accs_q(m: Market, s: Seq<VxAcc<OpenOrdersAccount>>) -> Seq<int> { s.map_values(|a: VxAcc<OpenOrdersAccount>| quote_value(a.data.position, m)) }
pub open spec fn accs_b(m: Market, s: Seq<VxAcc<OpenOrdersAccount>>) -> Seq<int> { s.map_values(|a: VxAcc<OpenOrdersAccount>| base_value(a.data.position, m)) }
pub open spec fn evs_q(m: Market, s: Seq<AnyEvent>) -> Seq<int> { s.map_values(|e: AnyEvent| ev_dq(m, e)) }
pub open spec fn evs_b(m: Market, s: Seq<AnyEvent>) -> Seq<int> { s.map_values(|e: AnyEvent| ev_db(m, e)) }
/// accounts at hand and queue together
pub open spec fn all_q(m: Market, h: EventHeap, s: Seq<VxAcc<OpenOrdersAccount>>) -> int { sum(accs_q(m, s)) + sum(evs_q(m, h.events())) }
pub open spec fn all_b(m: Market, h: EventHeap, s: Seq<VxAcc<OpenOrdersAccount>>) -> int { sum(accs_b(m, s)) + sum(evs_b(m, h.events())) }
pub open spec fn world_q(e: Env, w: World) -> int { all_q(e.m, w.h, w.s) + (if e.has { quote_value(w.a.position, e.m) } else { 0 }) }
pub open spec fn world_b(e: Env, w: World) -> int { all_b(e.m, w.h, w.s) + (if e.has { base_value(w.a.position, e.m) } else { 0 }) }
pub open spec fn accs_ok(s: Seq<VxAcc<OpenOrdersAccount>>) -> bool { forall|i: int| 0 <= i < s.len() ==> acct_ok((#[trigger] s[i]).data) }
/// a well-formed event
pub open spec fn ev_fine(e: AnyEvent) -> bool { e.event_type <= 1 && (if e.event_type == 0 { fill_ok(as_fill(e)) } else { as_out(e).quantity >= 0 }) }
pub open spec fn evs_fine(s: Seq<AnyEvent>) -> bool { forall|i: int| 0 <= i < s.len() ==> ev_fine(#[trigger] s[i]) }
/// the market's terms that matter here
pub open spec fn terms(a: Market, b: Market) -> bool { b.maker_fee == a.maker_fee && b.quote_lot_size == a.quote_lot_size && b.base_lot_size == a.base_lot_size }

pub proof fn lemma_acc_change(m: Market, s: Seq<VxAcc<OpenOrdersAccount>>, t: Seq<VxAcc<OpenOrdersAccount>>, i: int)
    requires acc_at(s, t, i)
    ensures sum(accs_q(m, t)) == sum(accs_q(m, s)) - quote_value(s[i].data.position, m) + quote_value(t[i].data.position, m),
        sum(accs_b(m, t)) == sum(accs_b(m, s)) - base_value(s[i].data.position, m) + base_value(t[i].data.position, m)
{
    lemma_sum_update(accs_q(m, s), i, quote_value(t[i].data.position, m)); lemma_sum_update(accs_b(m, s), i, base_value(t[i].data.position, m));
    assert(accs_q(m, t) =~= accs_q(m, s).update(i, quote_value(t[i].data.position, m)));
    assert(accs_b(m, t) =~= accs_b(m, s).update(i, base_value(t[i].data.position, m)));
}
pub proof fn lemma_ev_push(m: Market, s: Seq<AnyEvent>, x: AnyEvent)
    ensures sum(evs_q(m, s.push(x))) == sum(evs_q(m, s)) + ev_dq(m, x), sum(evs_b(m, s.push(x))) == sum(evs_b(m, s)) + ev_db(m, x), evs_fine(s) && ev_fine(x) ==> evs_fine(s.push(x))
{
    lemma_sum_push(evs_q(m, s), ev_dq(m, x)); lemma_sum_push(evs_b(m, s), ev_db(m, x));
    assert(evs_q(m, s.push(x)) =~= evs_q(m, s).push(ev_dq(m, x))); assert(evs_b(m, s.push(x)) =~= evs_b(m, s).push(ev_db(m, x)));
}
pub proof fn lemma_ev_remove(m: Market, s: Seq<AnyEvent>, i: int)
    requires 0 <= i < s.len()
    ensures sum(evs_q(m, s.remove(i))) == sum(evs_q(m, s)) - ev_dq(m, s[i]), sum(evs_b(m, s.remove(i))) == sum(evs_b(m, s)) - ev_db(m, s[i]), evs_fine(s) ==> evs_fine(s.remove(i))
{
    lemma_sum_remove(evs_q(m, s), i); lemma_sum_remove(evs_b(m, s), i);
    assert(evs_q(m, s.remove(i)) =~= evs_q(m, s).remove(i)); assert(evs_b(m, s.remove(i)) =~= evs_b(m, s).remove(i));
}
/// a cancellation neither adds nor takes anything
pub proof fn lemma_cancel(m: Market, n: Market, a: OpenOrdersAccount, slot: int, qty: int, b: OpenOrdersAccount)
    requires cancel_effect(a, n, slot, qty, b), acct_ok(a), lots_ok(m), qty >= 0, terms(m, n)
    ensures acct_ok(b), quote_value(b.position, m) == quote_value(a.position, m), base_value(b.position, m) == base_value(a.position, m)
{
    assert(a.open_orders[slot].locked_price >= 0);
    assert forall|i: int| 0 <= i < MAX_OPEN_ORDERS implies (#[trigger] b.open_orders[i]).locked_price >= 0 by { if i != slot { assert(b.open_orders[i] == a.open_orders[i]); } }
}
pub proof fn lemma_fill(m: Market, p: Market, a: OpenOrdersAccount, f: FillEvent, b: OpenOrdersAccount, n: Market)
    requires fill_effect(a, p, f, b, n), acct_ok(a), lots_ok(m), fill_ok(f), slot_side_ok(a, f), terms(m, p)
    ensures acct_ok(b), terms(m, n), quote_value(b.position, m) == quote_value(a.position, m) + fill_dq(m, f), base_value(b.position, m) == base_value(a.position, m) + fill_db(m, f)
{
    assert forall|i: int| 0 <= i < MAX_OPEN_ORDERS implies (#[trigger] b.open_orders[i]).locked_price >= 0 by { if f.maker_out == 1 && i != f.maker_slot { assert(b.open_orders[i] == a.open_orders[i]); } else { assert(a.open_orders[i].locked_price >= 0); } }
}
/// whoever's order was removed: it is worth the same in their account, or queued and worth nothing
pub proof fn lemma_out(m: Market, n: Market, o: OutEvent, h0: EventHeap, h1: EventHeap, own: bool, a0: OpenOrdersAccount, a1: OpenOrdersAccount, s0: Seq<VxAcc<OpenOrdersAccount>>, s1: Seq<VxAcc<OpenOrdersAccount>>)
    requires out_done(o, n, h0, h1, own, a0, a1, s0, s1), o.event_type == 1, o.quantity >= 0, own ==> acct_ok(a0), accs_ok(s0), evs_fine(h0.events()), lots_ok(m), terms(m, n)
    ensures all_q(m, h1, s1) == all_q(m, h0, s0), all_b(m, h1, s1) == all_b(m, h0, s0), accs_ok(s1), evs_fine(h1.events()),
        !own ==> a1 == a0, own ==> acct_ok(a1) && quote_value(a1.position, m) == quote_value(a0.position, m) && base_value(a1.position, m) == base_value(a0.position, m)
{
    if own { lemma_cancel(m, n, a0, o.owner_slot as int, o.quantity as int, a1); }
    else if h1 == h0 && exists|i: int| #[trigger] key_at(s0, i, o.owner) && s0[i].typed && acc_at(s0, s1, i) && cancel_effect(s0[i].data, n, o.owner_slot as int, o.quantity as int, s1[i].data) {
        let i = choose|i: int| #[trigger] key_at(s0, i, o.owner) && s0[i].typed && acc_at(s0, s1, i) && cancel_effect(s0[i].data, n, o.owner_slot as int, o.quantity as int, s1[i].data);
        assert(acct_ok(s0[i].data));
        lemma_cancel(m, n, s0[i].data, o.owner_slot as int, o.quantity as int, s1[i].data); lemma_acc_change(m, s0, s1, i);
        assert forall|j: int| 0 <= j < s1.len() implies acct_ok((#[trigger] s1[j]).data) by { if j != i { assert(s1[j] == s0[j]); } }
    } else { axiom_out_entry(o); lemma_ev_push(m, h0.events(), any_out(o)); }
}
/// the order that a fill settled at once empties is recorded on the side that was filled
pub open spec fn sides_ok(s: Seq<VxAcc<OpenOrdersAccount>>, f: FillEvent) -> bool { forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key == f.maker ==> slot_side_ok(s[i].data, f) }
pub proof fn lemma_filled(m: Market, f: FillEvent, m0: Market, m1: Market, h0: EventHeap, h1: EventHeap, s0: Seq<VxAcc<OpenOrdersAccount>>, s1: Seq<VxAcc<OpenOrdersAccount>>)
    requires fill_done(f, m0, m1, h0, h1, s0, s1), f.event_type == 0, fill_ok(f), accs_ok(s0), evs_fine(h0.events()), lots_ok(m), terms(m, m0), sides_ok(s0, f)
    ensures all_q(m, h1, s1) == all_q(m, h0, s0) + fill_dq(m, f), all_b(m, h1, s1) == all_b(m, h0, s0) + fill_db(m, f), accs_ok(s1), evs_fine(h1.events()), terms(m, m1)
{
    if h1 == h0 && exists|i: int| #[trigger] key_at(s0, i, f.maker) && s0[i].typed && acc_at(s0, s1, i) && fill_effect(s0[i].data, m0, f, s1[i].data, m1) {
        let i = choose|i: int| #[trigger] key_at(s0, i, f.maker) && s0[i].typed && acc_at(s0, s1, i) && fill_effect(s0[i].data, m0, f, s1[i].data, m1);
        assert(acct_ok(s0[i].data)); assert(slot_side_ok(s0[i].data, f));
        lemma_fill(m, m0, s0[i].data, f, s1[i].data, m1); lemma_acc_change(m, s0, s1, i);
        assert forall|j: int| 0 <= j < s1.len() implies acct_ok((#[trigger] s1[j]).data) by { if j != i { assert(s1[j] == s0[j]); } }
    } else { axiom_fill_entry(f); lemma_ev_push(m, h0.events(), any_fill(f)); }
}
pub open spec fn ent_fine(en: Ent) -> bool { en.it.leaf.quantity >= 0 && en.it.leaf.peg_limit >= -1 }
pub open spec fn ents_fine(w: Seq<Ent>) -> bool { forall|i: int| 0 <= i < w.len() ==> ent_fine(#[trigger] w[i]) }
/// assumed of each entry met: a fill settled at once finds the order on its side; a trader without an account is not a maker
pub open spec fn fits(e: Env, a: Act, p: World) -> bool { match a { Act::Fill { f } => sides_ok(p.s, f) && (e.has || f.maker != e.owner), _ => true } }
pub open spec fn act_fits_at(e: Env, s: Seq<Act>, st: Seq<World>, i: int) -> bool { fits(e, s[i], st[i]) }
pub open spec fn all_fit(e: Env, s: Seq<Act>, st: Seq<World>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] act_fits_at(e, s, st, i) }
pub open spec fn good(e: Env, w: World) -> bool { terms(e.m, w.m) && accs_ok(w.s) && evs_fine(w.h.events()) && (e.has ==> acct_ok(w.a)) }
pub open spec fn sgn(s: Side, x: int) -> int { if s == Side::Bid { x } else { -x } }
pub open spec fn act_dq(e: Env, a: Act) -> int { sgn(e.side, act_quote(a) * e.m.quote_lot_size) + act_reb(e, a) }
pub open spec fn act_db(e: Env, a: Act) -> int { -sgn(e.side, act_base(a) * e.m.base_lot_size) }
pub proof fn lemma_step_value(e: Env, en: Ent, s: Seq<Act>, a: Act, p: World, q: World)
    requires act_ok(e, en, s, a), step(e, en, a, p, q), good(e, p), lots_ok(e.m), ent_fine(en), fits(e, a, p)
    ensures good(e, q), world_q(e, q) == world_q(e, p) + act_dq(e, a), world_b(e, q) == world_b(e, p) + act_db(e, a)
{
    match a {
        Act::Skip => { lemma_mul0(0, e.m.quote_lot_size as int); lemma_mul0(0, e.m.base_lot_size as int); }
        Act::Drop { o } => { lemma_out(e.m, p.m, o, p.h, q.h, mine(e, o.owner), p.a, q.a, p.s, q.s); lemma_mul0(0, e.m.quote_lot_size as int); lemma_mul0(0, e.m.base_lot_size as int); }
        Act::SelfCancel => { lemma_cancel(e.m, p.m, p.a, en.it.leaf.owner_slot as int, en.it.leaf.quantity as int, q.a); lemma_mul0(0, e.m.quote_lot_size as int); lemma_mul0(0, e.m.base_lot_size as int); }
        Act::Fill { f } => { lemma_filled(e.m, f, p.m, q.m, p.h, q.h, p.s, q.s); assert(fill_self(f) == mine(e, f.maker)); }
    }
}
pub proof fn lemma_run_value(e: Env, w: Seq<Ent>, s: Seq<Act>, st: Seq<World>)
    requires acts_ok(e, w, s), run(e, w, s, st), s.len() <= w.len(), good(e, st[0]), lots_ok(e.m), ents_fine(w), all_fit(e, s, st)
    ensures good(e, st.last()), world_q(e, st.last()) == world_q(e, st[0]) + sgn(e.side, quote_of(s) * e.m.quote_lot_size) + reb_of(e, s),
        world_b(e, st.last()) == world_b(e, st[0]) - sgn(e.side, base_of(s) * e.m.base_lot_size)
    decreases s.len()
{
    if s.len() == 0 { lemma_mul0(0, e.m.quote_lot_size as int); lemma_mul0(0, e.m.base_lot_size as int); }
    else {
        let s0 = s.drop_last(); let t0 = st.drop_last(); let n = s0.len() as int;
        assert forall|i: int| 0 <= i < s0.len() implies #[trigger] step_at(e, w, s0, t0, i) by { assert(step_at(e, w, s, st, i)); }
        assert forall|i: int| 0 <= i < s0.len() implies #[trigger] act_fits_at(e, s0, t0, i) by { assert(act_fits_at(e, s, st, i)); }
        lemma_run_value(e, w, s0, t0);
        assert(step_at(e, w, s, st, n)); assert(act_fits_at(e, s, st, n)); assert(ent_fine(w[n]));
        lemma_step_value(e, w[n], s0, s[n], st[n], st[n + 1]);
        let ql = e.m.quote_lot_size as int; let bl = e.m.base_lot_size as int; let a = s.last();
        assert((quote_of(s0) + act_quote(a)) * ql == quote_of(s0) * ql + act_quote(a) * ql) by (nonlinear_arith);
        assert((base_of(s0) + act_base(a)) * bl == base_of(s0) * bl + act_base(a) * bl) by (nonlinear_arith);
    }
}
/// what the trader still owes, or is owed, when the order has been matched and posted: collected by the caller
pub open spec fn due_q(o: Order, r: OrderWithAmounts) -> int { if o.side == Side::Bid { r.total_quote_taken_native + r.posted_quote_native + r.taker_fees + r.maker_fees } else { 0 } }
pub open spec fn due_b(o: Order, r: OrderWithAmounts) -> int { if o.side == Side::Ask { r.total_base_taken_native + r.posted_base_native } else { 0 } }
pub open spec fn pre_ok(o: Order, w0: World, b0: Books, has: bool) -> bool {
    order_pre(o, w0.m) && book_wf(b0) && book_ok(b0) && accs_ok(w0.s) && evs_fine(w0.h.events()) && (has ==> acct_ok(w0.a))
}
pub proof fn lemma_walk_fine(o: Order, b0: Books, now: int, oracle: Option<i64>)
    requires book_wf(b0), book_ok(b0)
    ensures ents_fine(book_walk(side_book(b0, inv_side(o.side)), now, oracle))
{
    let b = side_book(b0, inv_side(o.side)); let w = book_walk(b, now, oracle);
    lemma_sides(b0, o.side);
    assert forall|i: int| 0 <= i < w.len() implies ent_fine(#[trigger] w[i]) by { lemma_ent(b, now, oracle, i); }
}
/// posting moves nothing between accounts: the new order is worth what will be collected for it
pub proof fn lemma_post_value(e: Env, o: Order, oracle: Option<i64>, x: Post, id: u128, fin: World, end: World, b0: BookSide, b3: BookSide)
    requires posted(e, o, oracle, x, id, fin, end, b0, b3), good(e, fin), lots_ok(e.m), leaves_pos(b0)
    ensures good(e, end), world_q(e, end) == world_q(e, fin) + (if e.side == Side::Bid { x.q * x.price * e.m.quote_lot_size + x.fee } else { 0 }),
        world_b(e, end) == world_b(e, fin) + (if e.side == Side::Ask { x.q * e.m.base_lot_size } else { 0 })
{
    let m = e.m; let ql = m.quote_lot_size as int; let bl = m.base_lot_size as int;
    assert(good(e, x.wa));
    match x.exp { None => {} Some(t) => { lemma_gone_pos(b0, t.c, t.l, x.b1); lemma_out(m, x.wa.m, t.o, x.wa.h, x.wb.h, mine(e, t.o.owner), x.wa.a, x.wb.a, x.wa.s, x.wb.s); } }
    assert(good(e, x.wb)); assert(leaves_pos(x.b1));
    match x.wst { None => {} Some(t) => { lemma_gone_pos(x.b1, t.c, t.l, x.b2); lemma_out(m, x.wb.m, t.o, x.wb.h, x.wc.h, mine(e, t.o.owner), x.wb.a, x.wc.a, x.wb.s, x.wc.s); } }
    assert(good(e, x.wc));
    let a = x.wc.a; let b = end.a; let sl = x.leaf.owner_slot as int;
    assert forall|i: int| 0 <= i < MAX_OPEN_ORDERS implies (#[trigger] b.open_orders[i]).locked_price >= 0 by { if i != sl { assert(b.open_orders[i] == a.open_orders[i]); assert(a.open_orders[i].locked_price >= 0); } }
    let p = a.position; let q = b.position;
    assert((p.bids_quote_lots + x.q * x.price) * ql == p.bids_quote_lots * ql + x.q * x.price * ql) by (nonlinear_arith);
    assert((p.asks_base_lots + x.q) * bl == p.asks_base_lots * bl + x.q * bl) by (nonlinear_arith);
}
pub open spec fn pos_leaves(s: Seq<LeafNode>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).quantity >= 0 }
pub open spec fn leaves_pos(b: BookSide) -> bool { pos_leaves(sec(b, BookSideOrderTree::Fixed)) && pos_leaves(sec(b, BookSideOrderTree::OraclePegged)) }
pub proof fn lemma_gone_pos(b: BookSide, c: BookSideOrderTree, l: LeafNode, b2: BookSide)
    requires took(b, b2, c, l), leaves_pos(b)
    ensures leaves_pos(b2), l.quantity >= 0
{
    let s = sec(b, c); let s2 = sec(b2, c);
    lemma_gone(s, l, s2);
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == l && s2 == s.remove(i);
    assert(pos_leaves(s)); assert(s[i].quantity >= 0);
    assert forall|j: int| 0 <= j < s2.len() implies (#[trigger] s2[j]).quantity >= 0 by { assert(s.contains(s2[j])); let k = s.index_of(s2[j]); assert(s[k].quantity >= 0); }
}
/// An order placed from an account: makers, taker, queue and fees together change by exactly what the caller collects.
pub proof fn thm_placed(o: Order, w0: World, w1: World, b0: Books, b1: Books, oracle: Option<i64>, owner: Pubkey, now: u64, limit: u8, r: OrderWithAmounts, t: Trace)
    requires placed(o, w0, w1, b0, b1, oracle, true, owner, now, limit, r, t), pre_ok(o, w0, b0, true), all_fit(env_of(o, w0.m, t.plim, now, owner, true, limit), t.acts, t.st)
    ensures ({ let e = env_of(o, w0.m, t.plim, now, owner, true, limit); good(e, w1) && world_q(e, w1) == world_q(e, w0) + due_q(o, r) && world_b(e, w1) == world_b(e, w0) + due_b(o, r) })
{
    let e = env_of(o, w0.m, t.plim, now, owner, true, limit); let w = book_walk(side_book(b0, inv_side(o.side)), now as int, oracle);
    lemma_walk_fine(o, b0, now as int, oracle);
    assert(good(e, t.st[0]));
    lemma_acts_len(e, w, t.acts);
    lemma_run_value(e, w, t.acts, t.st);
    assert(good(e, t.fin)) by { assert forall|i: int| 0 <= i < MAX_OPEN_ORDERS implies (#[trigger] t.fin.a.open_orders[i]).locked_price >= 0 by { assert(t.st.last().a.open_orders[i].locked_price >= 0); } }
    let base = base_of(t.acts) * e.m.base_lot_size; let quote = quote_of(t.acts) * e.m.quote_lot_size; let fees = fees_of(e, t.acts); let reb = reb_of(e, t.acts);
    assert(world_q(e, t.fin) == world_q(e, w0) + (if e.side == Side::Bid { quote + fees } else { 0 }));
    assert(world_b(e, t.fin) == world_b(e, w0) + (if e.side == Side::Bid { 0 } else { base }));
    if let Some(id) = r.order_id {
        lemma_sides(b0, o.side);
        lemma_pos(side_book(b0, o.side));
        lemma_post_value(e, o, oracle, t.post, id, t.fin, w1, side_book(b0, o.side), side_book(b1, o.side));
    }
}
pub proof fn lemma_pos(b: BookSide) requires side_ok(b) ensures leaves_pos(b) {
    let f = sec(b, BookSideOrderTree::Fixed); let p = sec(b, BookSideOrderTree::OraclePegged);
    assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).quantity >= 0 by { assert(leaf_ok(f[i], BookSideOrderTree::Fixed)); }
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).quantity >= 0 by { assert(leaf_ok(p[i], BookSideOrderTree::OraclePegged)); }
}
pub proof fn lemma_acts_len(e: Env, w: Seq<Ent>, s: Seq<Act>) requires acts_ok(e, w, s) ensures s.len() <= w.len() {}
/// An order taken without an account: makers and queue change by exactly what the trader pays or receives, rebates included.
pub proof fn thm_taken(o: Order, w0: World, w1: World, b0: Books, b1: Books, oracle: Option<i64>, owner: Pubkey, now: u64, limit: u8, r: OrderWithAmounts, t: Trace)
    requires placed(o, w0, w1, b0, b1, oracle, false, owner, now, limit, r, t), pre_ok(o, w0, b0, false), all_fit(env_of(o, w0.m, t.plim, now, owner, false, limit), t.acts, t.st)
    ensures ({ let e = env_of(o, w0.m, t.plim, now, owner, false, limit); let reb = r.taker_fees - r.referrer_amount;
        &&& r.order_id is None && good(e, w1)
        &&& world_q(e, w1) == world_q(e, w0) + (if o.side == Side::Bid { r.total_quote_taken_native + reb } else { reb - r.total_quote_taken_native })
        &&& world_b(e, w1) == world_b(e, w0) + (if o.side == Side::Bid { -r.total_base_taken_native } else { r.total_base_taken_native as int }) })
{
    let e = env_of(o, w0.m, t.plim, now, owner, false, limit); let w = book_walk(side_book(b0, inv_side(o.side)), now as int, oracle);
    lemma_walk_fine(o, b0, now as int, oracle);
    assert(good(e, t.st[0]));
    lemma_acts_len(e, w, t.acts);
    lemma_run_value(e, w, t.acts, t.st);
}
// ---- settling from the queue
pub open spec fn ev_sides(s: Seq<VxAcc<OpenOrdersAccount>>, e: AnyEvent) -> bool { e.event_type == 0 ==> sides_ok(s, as_fill(e)) }
pub open spec fn ev_fits_at(s: Seq<int>, st: Seq<EvW>, i: int) -> bool { ev_sides(st[i].s, st[i].h.nodes[s[i]].event) }
pub open spec fn ev_good(m: Market, w: EvW) -> bool { terms(m, w.m) && accs_ok(w.s) && evs_fine(w.h.events()) }
pub proof fn lemma_ev_value(m: Market, slot: int, p: EvW, q: EvW)
    requires ev_step(slot, p, q), ev_good(m, p), lots_ok(m), ev_sides(p.s, p.h.nodes[slot].event)
    ensures ev_good(m, q), all_q(m, q.h, q.s) == all_q(m, p.h, p.s), all_b(m, q.h, q.s) == all_b(m, p.h, p.s)
{
    let e = p.h.nodes[slot].event;
    if !no_key(p.s, ev_owner(e)) {
        let i = choose|i: int| #[trigger] ev_on(e, p, q, i);
        let k = p.h.used().index_of(slot);
        assert(p.h.used()[k] == slot); assert(p.h.events()[k] == e); assert(ev_fine(p.h.events()[k]));
        lemma_ev_remove(m, p.h.events(), k);
        assert(acct_ok(p.s[i].data));
        if e.event_type == 0 { assert(slot_side_ok(p.s[i].data, as_fill(e))); lemma_fill(m, p.m, p.s[i].data, as_fill(e), q.s[i].data, q.m); }
        else { lemma_cancel(m, p.m, p.s[i].data, as_out(e).owner_slot as int, as_out(e).quantity as int, q.s[i].data); }
        assert(acc_at(p.s, q.s, i));
        lemma_acc_change(m, p.s, q.s, i);
        assert forall|j: int| 0 <= j < q.s.len() implies acct_ok((#[trigger] q.s[j]).data) by { if j != i { assert(q.s[j] == p.s[j]); } }
    }
}
/// Settling queued events moves what the queue owed into the makers' accounts, to the last unit.
pub proof fn thm_settled(m: Market, s: Seq<int>, st: Seq<EvW>, k: int)
    requires settled_by(s, st, k), 0 <= k <= s.len(), ev_good(m, st[0]), lots_ok(m), forall|i: int| 0 <= i < k ==> #[trigger] ev_fits_at(s, st, i)
    ensures ev_good(m, st.last()), all_q(m, st.last().h, st.last().s) == all_q(m, st[0].h, st[0].s), all_b(m, st.last().h, st.last().s) == all_b(m, st[0].h, st[0].s)
    decreases k
{
    if k > 0 {
        let t = st.drop_last();
        assert forall|i: int| 0 <= i < k - 1 implies #[trigger] ev_at(s, t, i) by { assert(ev_at(s, st, i)); }
        assert forall|i: int| 0 <= i < k - 1 implies #[trigger] ev_fits_at(s, t, i) by { assert(ev_fits_at(s, st, i)); }
        thm_settled(m, s, t, k - 1);
        assert(ev_at(s, st, k - 1)); assert(ev_fits_at(s, st, k - 1));
        lemma_ev_value(m, s[k - 1], st[k - 1], st[k]);
    }
}
}
fn main() {}
