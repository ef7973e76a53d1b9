//@include prelude.rs
//@include abort.rs
//@include types.rs
//@include market_spec.rs
//@include accounts_spec.rs
//@include optkey.rs
impl Market {
//@usefn market.rs Market::maker_fees_floor
//@usefn market.rs Market::maker_rebate_floor
//@usefn market.rs Market::maker_fees_ceil
//@usefn market.rs Market::taker_fees_ceil
}
impl Side {
//@usefn keys_side.rs Side::invert_side
}
impl FillEvent {
//@fn state/orderbook/heap.rs FillEvent::taker_side mode=abort
    ensures self.taker_side <= 1, r == fill_taker_side(*self)
//@endfn
//@fn state/orderbook/heap.rs FillEvent::maker_out
    ensures r == (self.maker_out == 1)
//@endfn
}
impl SideAndOrderTree {
//@fn state/orderbook/order_type.rs SideAndOrderTree::new
    ensures r == st_new(side, order_tree)
//@endfn
//@fn state/orderbook/order_type.rs SideAndOrderTree::side
    ensures r == st_side(*self)
//@endfn
//@fn state/orderbook/order_type.rs SideAndOrderTree::order_tree
    ensures r == st_tree(*self)
//@endfn
}
impl OpenOrder {
//@fn state/open_orders_account.rs Default@OpenOrder::default
    ensures oo_empty(r)
//@endfn
//@fn state/open_orders_account.rs OpenOrder::is_free
    ensures r == oo_free(*self)
//@endfn
//@fn state/open_orders_account.rs OpenOrder::side_and_tree mode=abort
    ensures r.disc() == self.side_and_tree, st_side(r) == oo_side(*self)
//@endfn
}
impl Position {
//@fn state/open_orders_account.rs Position::is_empty
    ensures r == (self.bids_base_lots == 0 && self.asks_base_lots == 0 && self.base_free_native == 0 && self.quote_free_native == 0
        && self.locked_maker_fees == 0 && self.referrer_rebates_available == 0 && self.penalty_heap_count == 0
        && (version == 0 || self.bids_quote_lots == 0))
//@endfn
}
impl OpenOrdersAccount {
//@fn state/open_orders_account.rs OpenOrdersAccount::is_owner_or_delegate
    ensures r == (ix_signer == self.owner || opt_key(self.delegate) == Some(ix_signer))
//@endfn
//@fn state/open_orders_account.rs OpenOrdersAccount::is_settle_destination_allowed
    ensures r == (if opt_key(self.delegate) == Some(ix_signer) { self.owner == account_owner } else { ix_signer == self.owner })
//@endfn
//@fn state/open_orders_account.rs OpenOrdersAccount::next_order_slot
    ensures
        r is Ok ==> r->Ok_0 < MAX_OPEN_ORDERS && oo_free(self.open_orders[r->Ok_0 as int]),
        r is Err ==> forall|i: int| 0 <= i < MAX_OPEN_ORDERS ==> !oo_free(#[trigger] self.open_orders[i]),
//@inv 0
    invariant
        vx_c0 <= self.open_orders.len(),
        vx_r is None ==> forall|i: int| 0 <= i < vx_c0 ==> !oo_free(#[trigger] self.open_orders[i]),
        vx_r is Some ==> vx_r->0 < MAX_OPEN_ORDERS && oo_free(self.open_orders[vx_r->0 as int]),
    ensures vx_r is None ==> vx_c0 == self.open_orders.len(),
    decreases self.open_orders.len() - vx_c0
//@endfn
//@fn state/open_orders_account.rs OpenOrdersAccount::find_order_with_client_order_id
    ensures
        r is Some ==> exists|i: int| 0 <= i < MAX_OPEN_ORDERS && #[trigger] oo_by_client(*self, i, client_order_id) && *r->0 == self.open_orders[i],
        r is None ==> forall|i: int| 0 <= i < MAX_OPEN_ORDERS ==> !#[trigger] oo_by_client(*self, i, client_order_id),
//@inv 0
    invariant
        vx_c0 <= self.open_orders.len(),
        vx_r is None ==> forall|i: int| 0 <= i < vx_c0 ==> !#[trigger] oo_by_client(*self, i, client_order_id),
        vx_r is Some ==> exists|i: int| 0 <= i < MAX_OPEN_ORDERS && #[trigger] oo_by_client(*self, i, client_order_id) && vx_r == Some(&self.open_orders[i]),
    ensures vx_r is None ==> vx_c0 == self.open_orders.len(),
    decreases self.open_orders.len() - vx_c0
//@loopstart 0
    assert(oo_by_client(*self, vx_c0 as int, client_order_id) == (!oo_free(self.open_orders[vx_c0 as int]) && self.open_orders[vx_c0 as int].client_id == client_order_id));
//@endfn
//@fn state/open_orders_account.rs OpenOrdersAccount::find_order_with_order_id
    ensures
        r is Some ==> exists|i: int| 0 <= i < MAX_OPEN_ORDERS && #[trigger] oo_by_id(*self, i, order_id) && *r->0 == self.open_orders[i],
        r is None ==> forall|i: int| 0 <= i < MAX_OPEN_ORDERS ==> !#[trigger] oo_by_id(*self, i, order_id),
//@inv 0
    invariant
        vx_c0 <= self.open_orders.len(),
        vx_r is None ==> forall|i: int| 0 <= i < vx_c0 ==> !#[trigger] oo_by_id(*self, i, order_id),
        vx_r is Some ==> exists|i: int| 0 <= i < MAX_OPEN_ORDERS && #[trigger] oo_by_id(*self, i, order_id) && vx_r == Some(&self.open_orders[i]),
    ensures vx_r is None ==> vx_c0 == self.open_orders.len(),
    decreases self.open_orders.len() - vx_c0
//@loopstart 0
    assert(oo_by_id(*self, vx_c0 as int, order_id) == (!oo_free(self.open_orders[vx_c0 as int]) && self.open_orders[vx_c0 as int].id == order_id));
//@endfn
//@fn state/open_orders_account.rs OpenOrdersAccount::open_order_by_raw_index mode=abort
    ensures raw_index < MAX_OPEN_ORDERS, *r == self.open_orders[raw_index as int]
//@endfn
//@fn state/open_orders_account.rs OpenOrdersAccount::open_order_mut_by_raw_index mode=abort
    ensures raw_index < MAX_OPEN_ORDERS, *r == old(self).open_orders[raw_index as int], final(self).open_orders[raw_index as int] == *final(r),
        others_same(*final(self), *old(self), raw_index as int), final(self).position == old(self).position
//@endfn
//@fn state/open_orders_account.rs OpenOrdersAccount::add_order mode=abort
    ensures
        order.owner_slot < MAX_OPEN_ORDERS,
        others_same(*final(self), *old(self), order.owner_slot as int),
        pos_minus(final(self).position, side, order.quantity as int, locked_price as int, old(self).position),
        ({ let o = final(self).open_orders[order.owner_slot as int];
           !oo_free(o) && o.id == order.key && o.client_id == client_order_id && o.locked_price == locked_price
           && o.side_and_tree == st_new(side, order_tree).disc() && oo_side(o) == side })
//@endfn
//@fn state/open_orders_account.rs OpenOrdersAccount::remove_order mode=abort
    ensures
        slot < MAX_OPEN_ORDERS, !oo_free(old(self).open_orders[slot as int]),
        others_same(*final(self), *old(self), slot as int), oo_empty(final(self).open_orders[slot as int]),
        pos_minus(old(self).position, oo_side(old(self).open_orders[slot as int]), base_quantity as int, locked_price as int, final(self).position)
//@endfn
//@fn state/open_orders_account.rs OpenOrdersAccount::cancel_order mode=abort
    ensures cancel_effect(*old(self), market, slot as int, base_quantity as int, *final(self))
//@start
    proof {
        let pr = if slot < MAX_OPEN_ORDERS { self.open_orders[slot as int].locked_price as int } else { 0 };
        lemma_quote(market, base_quantity as int, pr);
        lemma_dist(self.position.bids_quote_lots as int, base_quantity * pr, market.quote_lot_size as int);
        lemma_dist(self.position.asks_base_lots as int, base_quantity as int, market.base_lot_size as int);
        lemma_nonneg(base_quantity as int, market.base_lot_size as int);
    }
//@endfn
//@fn state/open_orders_account.rs OpenOrdersAccount::execute_taker mode=abort
    ensures
        final(self).open_orders == old(self).open_orders, acct_frame(*final(self), *old(self)),
        ({ let p = old(self).position; let q = final(self).position;
           &&& q == (Position { base_free_native: q.base_free_native, quote_free_native: q.quote_free_native, taker_volume: q.taker_volume, referrer_rebates_available: q.referrer_rebates_available, ..p })
           &&& q.base_free_native == p.base_free_native + (if taker_side == Side::Bid { base_native as int } else { 0 })
           &&& q.quote_free_native == p.quote_free_native + (if taker_side == Side::Ask { quote_native - taker_fees } else { 0 })
           &&& q.taker_volume == p.taker_volume + quote_native
           &&& q.referrer_rebates_available == p.referrer_rebates_available + referrer_amount
        }),
        *final(market) == (Market { referrer_rebates_accrued: final(market).referrer_rebates_accrued, ..*old(market) }),
        final(market).referrer_rebates_accrued == old(market).referrer_rebates_accrued + referrer_amount
//@endfn
//@fn state/open_orders_account.rs OpenOrdersAccount::execute_maker mode=abort
    ensures fill_effect(*old(self), *old(market), *fill, *final(self), *final(market))
//@start
    proof {
        let m = *market; let f = *fill;
        lemma_quote(m, f.quantity as int, f.price as int);
        lemma_quote(m, f.quantity as int, fill_lock_price(f));
        lemma_dist(self.position.bids_quote_lots as int, f.quantity * fill_lock_price(f), m.quote_lot_size as int);
        lemma_dist(self.position.asks_base_lots as int, f.quantity as int, m.base_lot_size as int);
        lemma_nonneg(f.quantity as int, m.base_lot_size as int);
    }
//@endfn
}
pub proof fn lemma_nonneg(a: int, b: int) ensures a >= 0 && b >= 0 ==> a * b >= 0 {
    if a >= 0 && b >= 0 { assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0; }
}
pub proof fn lemma_dist(a: int, b: int, c: int) ensures (a - b) * c == a * c - b * c {
    assert((a - b) * c == a * c - b * c) by (nonlinear_arith);
}
pub proof fn lemma_quote(m: Market, lots: int, price: int)
    ensures lots >= 0 && price >= 0 && m.quote_lot_size >= 0 ==> native_quote(m, lots, price) >= 0 && lots * price >= 0
{
    lemma_nonneg(lots, price);
    lemma_nonneg(lots * price, m.quote_lot_size as int);
}
fn main() {}
}
