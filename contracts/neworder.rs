//@include prelude.rs
//@include abort.rs
//@uselemmas book_all.rs
//@uselemmas requant.rs
//@uselemmas walk_thm.rs
//@uselemmas market_lem.rs
//@include match_spec.rs
//@item state/orderbook/book.rs OrderWithAmounts
//@usefn book.rs process_out_event
//@usefn book.rs process_fill_event
impl Side {
//@usefn keys.rs Side::invert_side
//@usefn keys.rs Side::is_price_better
//@usefn keys.rs Side::is_price_within_limit
}
impl FillEvent {
//@usefn events.rs FillEvent::new
}
impl OutEvent {
//@usefn events.rs OutEvent::new
}
impl LeafNode {
//@usefn keys.rs LeafNode::new
}
impl AnyNode {
//@usefn nodes.rs AnyNode::as_leaf_mut
}
impl Market {
//@usefn keys.rs Market::gen_order_id
//@usefn market.rs Market::subtract_taker_fees
//@usefn market.rs Market::maker_rebate_floor
//@usefn market.rs Market::taker_fees_ceil
//@usefn market.rs Market::maker_fees_ceil
//@usefn mkt.rs Market::max_base_lots
//@usefn mkt.rs Market::max_quote_lots
}
impl Order {
//@usefn order.rs Order::is_post_only
//@usefn order.rs Order::is_fill_or_kill
//@usefn order.rs Order::post_target
//@usefn order.rs Order::peg_limit
//@usefn order.rs Order::price
}
impl<'a> BookSideIter<'a> {
    pub open spec fn wf(self) -> bool { self.fixed_iter.wf() && self.oracle_pegged_iter.wf() && self.fixed_iter.left == self.oracle_pegged_iter.left }
    pub open spec fn sd(self) -> Side { if self.fixed_iter.left == 1 { Side::Bid } else { Side::Ask } }
    pub open spec fn todo(self) -> Seq<Ent> { walk(self.sd(), self.oracle_price_lots, self.now_ts as int, self.fixed_iter.todo(), self.oracle_pegged_iter.todo()) }
//@usefn bookiter.rs Iterator@BookSideIter::next
}
impl<'a> BookSideIterItem<'a> {
//@usefn bookside.rs BookSideIterItem::is_valid
}
impl BookSide {
//@usefn bookside.rs BookSide::iter_all_including_invalid
//@usefn bookside.rs BookSide::is_full
//@usefn bookside.rs BookSide::insert_leaf
//@usefn bookside.rs BookSide::remove_by_key
//@usefn bookside.rs BookSide::remove_one_expired
//@usefn bookside.rs BookSide::remove_worst
//@usefn bookside.rs BookSide::node_mut
}
impl OpenOrdersAccount {
//@usefn accounts.rs OpenOrdersAccount::cancel_order
//@usefn accounts.rs OpenOrdersAccount::execute_taker
//@usefn accounts.rs OpenOrdersAccount::next_order_slot
//@usefn accounts.rs OpenOrdersAccount::add_order
}
//@rw $x.as_deref_mut() => (match $x.as_mut() { Some(vx_a) => Some(&mut **vx_a), None => None })
impl<'a> Orderbook<'a> {
//@usefn book.rs Orderbook::bookside_mut
//@fn state/orderbook/book.rs Orderbook::new_order mode=abort rlimit=80
    requires book_wf(books(*old(self))), book_ok(books(*old(self))), old(event_heap).wf(), order_pre(*order, *old(open_book_market))
    ensures r is Ok ==> same_books(*old(self), *final(self)), r is Ok ==> book_wf(books(*final(self))) && book_ok(books(*final(self))) && final(event_heap).wf(), r is Ok ==> match open_orders_account {
        None => order_done(*order, World { h: *old(event_heap), s: old(remaining_accs)@, m: *old(open_book_market), a: arbitrary() }, World { h: *final(event_heap), s: final(remaining_accs)@, m: *final(open_book_market), a: arbitrary() },
            books(*old(self)), books(*final(self)), oracle_price_lots, false, *owner, now_ts, limit, r->Ok_0),
        Some(a) => order_done(*order, World { h: *old(event_heap), s: old(remaining_accs)@, m: *old(open_book_market), a: *a }, World { h: *final(event_heap), s: final(remaining_accs)@, m: *final(open_book_market), a: *final(a) },
            books(*old(self)), books(*final(self)), oracle_price_lots, true, *owner, now_ts, limit, r->Ok_0),
    }
//@rw &mut open_orders_account => open_orders_account.as_mut()
//@start
    let ghost o0 = open_orders_account; let ghost m0 = *open_book_market; let ghost has = open_orders_account is Some; let ghost lim0 = limit;
    let ghost w0 = World { h: *event_heap, s: remaining_accs@, m: m0, a: cur(open_orders_account) };
    let ghost opp0 = side_book(books(*self), inv_side(order.side)); let ghost own0 = side_book(books(*self), order.side);
    let ghost mut acts: Seq<Act> = Seq::empty(); let ghost mut st: Seq<World> = Seq::empty();
    let ghost w = book_walk(opp0, now_ts as int, oracle_price_lots);
    let ghost mut post: Post = arbitrary(); let ghost mut exp: Option<Out> = None; let ghost mut wst: Option<Out> = None;
    proof { lemma_sides(books(*self), order.side); }
//@after @let opposing_bookside
    let ghost e = env_of(*order, m0, price_lots, now_ts, *owner, has, lim0);
    proof { st = st.push(World { h: *event_heap, s: remaining_accs@, m: *market, a: cur(open_orders_account) }); lemma_init(e, w, opp0, st); }
//@inv 0
    invariant_except_break
        vx_it0.todo() == w.skip(acts.len() as int), post_target == (if nopart(w, acts) { o_target(order.params) } else { None }),
    invariant
        vx_it0.wf(), w == book_walk(opp0, now_ts as int, oracle_price_lots), bwf(opp0), side_ok(opp0), *opposing_bookside == opp0, event_heap.wf(),
        e == env_of(*order, m0, price_lots, now_ts, *owner, has, lim0), order_pre(*order, m0), side == order.side, other_side == inv_side(side), post_only == e.post_only,
        acts.len() <= w.len(), acts_ok(e, w, acts), run(e, w, acts, st), st[0] == (World { m: numbered(m0), ..w0 }), st.last() == (World { h: *event_heap, s: remaining_accs@, m: *market, a: cur(open_orders_account) }),
        remaining_base_lots == e.max_base - base_of(acts), remaining_base_lots >= 0, remaining_quote_lots == e.max_quote - quote_of(acts), remaining_quote_lots >= 0,
        decremented_quote_lots == self_of(e, acts), maker_rebates_acc == reb_of(e, acts), limit == e.limit - fills_of(acts), number_of_dropped_expired_orders == drops_of(acts),
        matched_order_deletes@ == dels_of(w, acts), ch_match(matched_order_changes@, chs_of(w, acts)), chs_in(opp0, chs_of(w, acts)),
        mterms(numbered(m0), *market), same_fin(open_orders_account, o0), has == (open_orders_account is Some),
    ensures
        stopped(e, w, acts), post_target == (if clear(e, w, acts) { o_target(order.params) } else { None }),
    decreases vx_it0.todo().len()
//@loopstart 0
    let ghost k = acts.len() as int; let ghost en = w[k]; let ghost old_heap = *event_heap;
    proof { lemma_skip(w, k); if k < w.len() { lemma_ent(opp0, now_ts as int, oracle_price_lots, k); lemma_div(remaining_quote_lots as int, en.price); } }
//@after 0|@call process_out_event
    proof { let a = Act::Drop { o: event }; let q = World { h: *event_heap, s: remaining_accs@, m: *market, a: cur(open_orders_account) };
        lemma_step(e, w, acts, st, a, q, opp0); acts = acts.push(a); st = st.push(q); }
//@before *|@continue
    proof { if acts.len() == k { let a = if en.state == OrderState::Valid { Act::SelfCancel } else { Act::Skip }; let q = World { h: *event_heap, s: remaining_accs@, m: *market, a: cur(open_orders_account) };
        lemma_step(e, w, acts, st, a, q, opp0); acts = acts.push(a); st = st.push(q); } }
//@after @let match_quote_lots
    proof { lemma_nn(match_base_lots as int, best_opposing_price as int); lemma_nn(match_quote_lots as int, market.quote_lot_size as int); }
//@after @call process_fill_event
    proof { let a = Act::Fill { f: fill }; let q = World { h: *event_heap, s: remaining_accs@, m: *market, a: cur(open_orders_account) };
        lemma_step(e, w, acts, st, a, q, opp0); acts = acts.push(a); st = st.push(q); }
//@before @if total_quote_lots_taken
    proof {
        lemma_totals(e, w, acts);
        lemma_nn(base_of(acts), e.m.base_lot_size as int); lemma_nn(quote_of(acts), e.m.quote_lot_size as int);
    }
    loop
        invariant_except_break
            e == env_of(*order, m0, price_lots, now_ts, *owner, has, lim0), order_pre(*order, m0), side == order.side, acts_ok(e, w, acts), mterms(numbered(m0), *market),
            st.last() == (World { h: *event_heap, s: remaining_accs@, m: *market, a: cur(open_orders_account) }), total_quote_lots_taken == quote_of(acts), total_base_lots_taken == base_of(acts),
            total_base_taken_native == base_of(acts) * e.m.base_lot_size, total_quote_taken_native == quote_of(acts) * e.m.quote_lot_size,
            taker_fees_native == 0, referrer_amount == 0, maker_rebates_acc == reb_of(e, acts), decremented_quote_lots == self_of(e, acts),
        invariant has == (open_orders_account is Some), same_fin(open_orders_account, o0),
        ensures
            taker_fees_native == fees_of(e, acts), referrer_amount == fees_of(e, acts) - reb_of(e, acts),
            taken(e, st.last(), World { h: *event_heap, s: remaining_accs@, m: *market, a: cur(open_orders_account) }, base_of(acts) * e.m.base_lot_size, quote_of(acts) * e.m.quote_lot_size, fees_of(e, acts), fees_of(e, acts) - reb_of(e, acts)),
        decreases 0int
    {
    proof {
        lemma_totals(e, w, acts); lemma_nn(quote_of(acts) - self_of(e, acts), e.m.quote_lot_size as int); lemma_mul0(quote_of(acts), e.m.quote_lot_size as int); lemma_mul0(base_of(acts), e.m.base_lot_size as int); lemma_mul0(quote_of(acts) - self_of(e, acts), e.m.quote_lot_size as int);
        lemma_fee_small((quote_of(acts) - self_of(e, acts)) * e.m.quote_lot_size, e.m.taker_fee as int);
        if quote_of(acts) > self_of(e, acts) { assert((quote_of(acts) - self_of(e, acts)) * e.m.quote_lot_size > 0) by (nonlinear_arith) requires quote_of(acts) > self_of(e, acts), e.m.quote_lot_size > 0; }
    }
//@after @if total_quote_lots_taken
    break; }
    let ghost fin = World { h: *event_heap, s: remaining_accs@, m: *market, a: cur(open_orders_account) };
    proof { lemma_fee_small((quote_of(acts) - self_of(e, acts)) * e.m.quote_lot_size, e.m.taker_fee as int); lemma_nn(quote_of(acts) - self_of(e, acts), e.m.quote_lot_size as int);
        lemma_totals(e, w, acts); assert(same_terms(e.m, fin.m));
        assert((quote_of(acts) - self_of(e, acts)) * e.m.quote_lot_size <= quote_of(acts) * e.m.quote_lot_size) by (nonlinear_arith) requires self_of(e, acts) >= 0, e.m.quote_lot_size > 0;
        assert(taker_fees_native <= quote_of(acts) * e.m.quote_lot_size); }
//@inv 1
    invariant
        vx_i1 <= matched_order_changes.len(), ch_match(matched_order_changes@, chs_of(w, acts)), chs_in(*opposing_bookside, chs_of(w, acts)), bwf(*opposing_bookside), side_ok(*opposing_bookside), side_of(*opposing_bookside) == side_of(opp0),
        forall|c: BookSideOrderTree| #[trigger] bmap(*opposing_bookside, c) == after_ch(bmap(opp0, c), c, chs_of(w, acts), vx_i1 as int),
    decreases matched_order_changes.len() - vx_i1
//@loopstart 1
    let ghost b = *opposing_bookside; let ghost i = vx_i1 as int; let ghost ch = chs_of(w, acts)[i];
//@loopend 1
    proof { lemma_change(opp0, b, *opposing_bookside, chs_of(w, acts), i); }
//@inv 2
    invariant
        vx_i2 <= matched_order_deletes.len(), matched_order_deletes@ == dels_of(w, acts), bwf(*opposing_bookside), side_ok(*opposing_bookside), side_of(*opposing_bookside) == side_of(opp0),
        forall|c: BookSideOrderTree| #[trigger] bmap(*opposing_bookside, c) == after_del(after_ch(bmap(opp0, c), c, chs_of(w, acts), chs_of(w, acts).len() as int), c, dels_of(w, acts), vx_i2 as int),
    decreases matched_order_deletes.len() - vx_i2
//@loopstart 2
    let ghost b = *opposing_bookside; let ghost i = vx_i2 as int;
//@loopend 2
    proof {
        let f = BookSideOrderTree::Fixed; let p = BookSideOrderTree::OraclePegged; let n = chs_of(w, acts).len() as int;
        lemma_removal(after_ch(bmap(opp0, f), f, chs_of(w, acts), n), after_ch(bmap(opp0, p), p, chs_of(w, acts), n), b, *opposing_bookside, dels_of(w, acts), i, _removed_leaf);
        assert forall|c: BookSideOrderTree| #[trigger] bmap(*opposing_bookside, c) == after_del(after_ch(bmap(opp0, c), c, chs_of(w, acts), n), c, dels_of(w, acts), i + 1) by { assert(c == f || c == p); }
    }
//@before @let is_oracle_peg
    let ghost opp1 = *opposing_bookside; let ghost pt = post_target; let ghost rq = remaining_quote_lots;
    proof { assert(fees_of(e, acts) == taker_fees_native); assert(taker_fees_lots == ceil_div(taker_fees_native as int, e.m.quote_lot_size as int)); assert(rq == left_quote(*order, e, acts)); }
    proof { assert(opp_is(opp0, opp1, w, acts)); }
//@before 0|@if post_target
    loop
        invariant_except_break
            e == env_of(*order, m0, price_lots, now_ts, *owner, has, lim0), order_pre(*order, m0), same_terms(e.m, fin.m), fin == (World { h: *event_heap, s: remaining_accs@, m: *market, a: cur(open_orders_account) }),
            two_sides(books(*self), side, own0, opp1), bwf(own0), side_ok(own0), side_of(own0) == side, price_lots >= 1, price == lock_price(*order, price_lots), price_data == crate::price_data(*order, price_lots, oracle_price_lots),
            order_id == key_of(side, price_data as int, e.m.seq_num as int), post_target is Some ==> post_target == o_target(order.params) && book_base_quantity_lots > 0 && peg_ok(*order, price_lots),
            maker_fees_native == 0, posted_base_native == 0, posted_quote_native == 0, exp is None, wst is None, event_heap.wf(),
        invariant has == (open_orders_account is Some), same_fin(open_orders_account, o0), side == order.side, same_books(*old(self), *self),
        ensures
            event_heap.wf(),
            post_target is None ==> fin == (World { h: *event_heap, s: remaining_accs@, m: *market, a: cur(open_orders_account) }) && two_sides(books(*self), side, own0, opp1) && maker_fees_native == 0 && posted_base_native == 0 && posted_quote_native == 0,
            post_target is Some ==> posted(e, *order, oracle_price_lots, post, order_id, fin, World { h: *event_heap, s: remaining_accs@, m: *market, a: cur(open_orders_account) }, own0, side_book(books(*self), side))
                && two_sides(books(*self), side, side_book(books(*self), side), opp1) && side_ok(side_book(books(*self), side)) && side_of(side_book(books(*self), side)) == side
                && post.q == book_base_quantity_lots && posted_base_native == post.q * e.m.base_lot_size && posted_quote_native == post.q * post.price * e.m.quote_lot_size && posted_base_native >= 0 && posted_quote_native >= 0 && maker_fees_native == post.fee,
        decreases 0int
    {
//@after 0|@if post_target
    break; }
//@after @let open_orders
    proof { lemma_nn(book_base_quantity_lots as int, market.base_lot_size as int); lemma_nn(book_base_quantity_lots as int, price as int); lemma_nn(book_base_quantity_lots * price, market.quote_lot_size as int); }
//@before @let bookside
    let ghost wa = World { h: *event_heap, s: remaining_accs@, m: *market, a: **open_orders };
//@after @let bookside
    let ghost bb0 = *bookside;
//@after 1|@call process_out_event
    proof { let c = if one_gone(sec(bb0, order_tree_target), expired_order, sec(*bookside, order_tree_target)) { order_tree_target } else { other(order_tree_target) };
        exp = Some(Out { c, l: expired_order, price: 0, o: event }); lemma_took(bb0, *bookside, c, expired_order, side, e.m.seq_num - 1); }
//@after @call remove_one_expired
    let ghost b1 = *bookside; let ghost wb = World { h: *event_heap, s: remaining_accs@, m: *market, a: **open_orders };
    proof { assert(exp_step(e, exp, bb0, b1, wa, wb)); }
//@after 2|@call process_out_event
    proof { let c = if peg_worse(b1, oracle_price_lots) { BookSideOrderTree::OraclePegged } else { BookSideOrderTree::Fixed };
        wst = Some(Out { c, l: worst_order, price: worst_price, o: event }); lemma_took(b1, *bookside, c, worst_order, side, e.m.seq_num - 1); }
//@before @let owner_slot
    let ghost b2 = *bookside; let ghost wc = World { h: *event_heap, s: remaining_accs@, m: *market, a: **open_orders };
    proof { assert(evict_step(e, oracle_price_lots, wst, b1, b2, wb, wc)); }
//@after @let _result
    proof {
        lemma_new_key(e, side, order_tree_target, price_data, market.seq_num, order_id, new_order);
        lemma_put(b2, *bookside, order_tree_target, new_order, _result.1, side, e.m.seq_num - 1);
    }
//@after @call add_order
    proof {
        post = Post { c: order_tree_target, price, q: book_base_quantity_lots, fee: maker_fees_native as int, wa, exp, b1, wb, wst, b2, wc, leaf: new_order };
        let end = World { h: *event_heap, s: remaining_accs@, m: *market, a: **open_orders };
        assert(is_post(e, *order, oracle_price_lots, post, order_id));
        assert(recorded(e, post, wc, end));
        assert(locked_fee(fin, wa, post.fee));
        assert(posted(e, *order, oracle_price_lots, post, order_id, fin, end, bb0, *bookside));
    }
//@before @let placed_order_id
    let ghost wz = World { h: *event_heap, s: remaining_accs@, m: *market, a: cur(open_orders_account) };
    proof {
        let t = Trace { plim: price_lots, acts, st, fin, post };
        let rr = OrderWithAmounts { order_id: if post_target is Some { Some(order_id) } else { None }, posted_base_native: posted_base_native as u64, posted_quote_native: posted_quote_native as u64, total_base_taken_native, total_quote_taken_native, referrer_amount, taker_fees: taker_fees_native, maker_fees: maker_fees_native };
        assert(amounts(e, t, rr));
        assert(same_terms(e.m, fin.m));
        assert(pt is Some ==> remaining_base_lots == e.max_base - base_of(acts));
        assert(rr.order_id is Some ==> post.q <= e.max_base - base_of(acts));
        assert(rr.order_id is Some ==> post.price == lock_price(*order, e.plim));
        assert(rr.order_id is Some ==> (left_quote(*order, e, acts) >= 0 ==> post.q == left_base(*order, e, acts)));
        lemma_budget(*order, m0, e, w, t, rr);
        lemma_sides(books(*self), order.side);
        assert(placed(*order, w0, wz, books(*old(self)), books(*self), oracle_price_lots, has, *owner, now_ts, lim0, rr, t));
        assert(order_done(*order, w0, wz, books(*old(self)), books(*self), oracle_price_lots, has, *owner, now_ts, lim0, rr));
    }
//@endfn
}
fn main() {}
}
