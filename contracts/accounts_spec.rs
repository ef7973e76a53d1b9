//@item state/orderbook/order_type.rs SideAndOrderTree copy eq
//@item state/orderbook/bookside.rs BookSideOrderTree copy eq
//@item state/orderbook/nodes.rs NODE_SIZE
//@item state/orderbook/nodes.rs LeafNode
//@item state/orderbook/heap.rs FillEvent
//@item state/open_orders_account.rs MAX_OPEN_ORDERS
//@item state/open_orders_account.rs Position
//@item state/open_orders_account.rs OpenOrder
//@item state/open_orders_account.rs OpenOrdersAccount
//@rw false.into() => 0u8
//@rw true.into() => 1u8
//@rw u8::from(true) => 1u8
//@rw u8::from(false) => 0u8

// ---- trader accounts ------------------------------------------------------------------------------
pub open spec fn zero_key() -> Pubkey { Pubkey { hi: 0, lo: 0 } }
pub open spec fn opt_key(o: NonZeroPubkeyOption) -> Option<Pubkey> { if o.key == zero_key() { None } else { Some(o.key) } }
pub open spec fn st_side(x: SideAndOrderTree) -> Side { if x == SideAndOrderTree::BidFixed || x == SideAndOrderTree::BidOraclePegged { Side::Bid } else { Side::Ask } }
pub open spec fn st_tree(x: SideAndOrderTree) -> BookSideOrderTree { if x == SideAndOrderTree::BidFixed || x == SideAndOrderTree::AskFixed { BookSideOrderTree::Fixed } else { BookSideOrderTree::OraclePegged } }
pub open spec fn st_new(s: Side, t: BookSideOrderTree) -> SideAndOrderTree {
    if s == Side::Bid { if t == BookSideOrderTree::Fixed { SideAndOrderTree::BidFixed } else { SideAndOrderTree::BidOraclePegged } }
    else { if t == BookSideOrderTree::Fixed { SideAndOrderTree::AskFixed } else { SideAndOrderTree::AskOraclePegged } }
}
pub open spec fn oo_free(o: OpenOrder) -> bool { o.is_free == 1 }
pub open spec fn oo_side(o: OpenOrder) -> Side { if o.side_and_tree == 0 || o.side_and_tree == 2 { Side::Bid } else { Side::Ask } }
pub open spec fn oo_empty(o: OpenOrder) -> bool { o.is_free == 1 && o.id == 0 && o.client_id == 0 && o.locked_price == 0 && o.side_and_tree == 0 }

/// what the account is owed or has locked, in native quote and base
pub open spec fn quote_value(p: Position, m: Market) -> int {
    p.quote_free_native + p.bids_quote_lots * m.quote_lot_size + p.locked_maker_fees + p.referrer_rebates_available
}
pub open spec fn base_value(p: Position, m: Market) -> int { p.base_free_native + p.asks_base_lots * m.base_lot_size }

/// native quote for `lots` at `price`
pub open spec fn native_quote(m: Market, lots: int, price: int) -> int { lots * price * m.quote_lot_size }
pub open spec fn lots_ok(m: Market) -> bool { m.quote_lot_size > 0 && m.base_lot_size > 0 }

/// the amounts by which removing `lots` at `price` from the account's totals changes them
pub open spec fn pos_minus(p: Position, side: Side, lots: int, price: int, q: Position) -> bool {
    if side == Side::Bid {
        q == (Position { bids_base_lots: q.bids_base_lots, bids_quote_lots: q.bids_quote_lots, ..p })
        && q.bids_base_lots == p.bids_base_lots - lots && q.bids_quote_lots == p.bids_quote_lots - lots * price
    } else {
        q == (Position { asks_base_lots: q.asks_base_lots, ..p }) && q.asks_base_lots == p.asks_base_lots - lots
    }
}
pub open spec fn others_same(a: OpenOrdersAccount, b: OpenOrdersAccount, slot: int) -> bool {
    &&& forall|i: int| 0 <= i < MAX_OPEN_ORDERS && i != slot ==> a.open_orders[i] == b.open_orders[i]
    &&& acct_frame(a, b)
}
/// everything but the order slots and the position is unchanged
pub open spec fn acct_frame(a: OpenOrdersAccount, b: OpenOrdersAccount) -> bool {
    a == (OpenOrdersAccount { open_orders: a.open_orders, position: a.position, ..b })
}

// fill events
pub open spec fn fill_taker_side(f: FillEvent) -> Side { if f.taker_side == 0 { Side::Bid } else { Side::Ask } }
pub open spec fn opp(s: Side) -> Side { if s == Side::Bid { Side::Ask } else { Side::Bid } }
pub open spec fn fill_ok(f: FillEvent) -> bool { f.quantity >= 0 && f.price >= 0 && (f.peg_limit >= -1) && f.taker_side <= 1 }
pub open spec fn fill_self(f: FillEvent) -> bool { f.maker == f.taker }
pub open spec fn fill_quote(m: Market, f: FillEvent) -> int { native_quote(m, f.quantity as int, f.price as int) }
/// price at which the maker's funds were locked
pub open spec fn fill_lock_price(f: FillEvent) -> int { if f.peg_limit != -1 && fill_taker_side(f) == Side::Ask { f.peg_limit as int } else { f.price as int } }
pub open spec fn fill_fee(m: Market, f: FillEvent) -> int { if fill_self(f) { 0 } else { maker_fee_floor(m, fill_quote(m, f)) } }
pub open spec fn fill_rebate(m: Market, f: FillEvent) -> int { if fill_self(f) { 0 } else { maker_rebate(m, fill_quote(m, f)) } }
/// the maker fee that was locked for this quantity
pub open spec fn fill_locked_fee(m: Market, f: FillEvent) -> int { maker_fee_floor(m, native_quote(m, f.quantity as int, fill_lock_price(f))) }
/// the position after the maker side of the fill, except for the lots leaving the totals
pub open spec fn fill_money(p: Position, m: Market, f: FillEvent, q: Position) -> bool {
    let quote = fill_quote(m, f);
    &&& q == (Position { base_free_native: q.base_free_native, quote_free_native: q.quote_free_native, locked_maker_fees: q.locked_maker_fees,
            referrer_rebates_available: q.referrer_rebates_available, maker_volume: q.maker_volume,
            bids_base_lots: q.bids_base_lots, bids_quote_lots: q.bids_quote_lots, asks_base_lots: q.asks_base_lots, ..p })
    &&& q.referrer_rebates_available == p.referrer_rebates_available + fill_fee(m, f)
    &&& q.maker_volume == p.maker_volume + quote
    &&& fill_taker_side(f) == Side::Ask ==> {
        // a bid was filled: base arrives; what was locked above the price and fee actually paid is released
        &&& q.base_free_native == p.base_free_native + f.quantity * m.base_lot_size
        &&& q.locked_maker_fees == p.locked_maker_fees - fill_locked_fee(m, f)
        &&& q.quote_free_native == p.quote_free_native + fill_rebate(m, f)
            + (native_quote(m, f.quantity as int, fill_lock_price(f)) - quote) + (fill_locked_fee(m, f) - fill_fee(m, f))
    }
    &&& fill_taker_side(f) == Side::Bid ==> {
        &&& q.base_free_native == p.base_free_native
        &&& q.locked_maker_fees == p.locked_maker_fees
        &&& q.quote_free_native == p.quote_free_native + quote + fill_rebate(m, f) - fill_fee(m, f)
    }
}
pub open spec fn market_after_fill(m: Market, f: FillEvent, n: Market) -> bool {
    &&& n == (Market { referrer_rebates_accrued: n.referrer_rebates_accrued, maker_volume: n.maker_volume, fees_accrued: n.fees_accrued, ..m })
    &&& n.referrer_rebates_accrued == m.referrer_rebates_accrued + fill_fee(m, f)
    &&& n.maker_volume == m.maker_volume + fill_quote(m, f)
    &&& n.fees_accrued == m.fees_accrued + fill_fee(m, f)
}
pub open spec fn oo_by_id(a: OpenOrdersAccount, i: int, id: u128) -> bool { !oo_free(a.open_orders[i]) && a.open_orders[i].id == id }
pub open spec fn oo_by_client(a: OpenOrdersAccount, i: int, id: u64) -> bool { !oo_free(a.open_orders[i]) && a.open_orders[i].client_id == id }

/// the money returned by cancelling `qty` lots of the order recorded as `o`
pub open spec fn cancel_money(p: Position, m: Market, o: OpenOrder, qty: int, q: Position) -> bool {
    let quote = native_quote(m, qty, o.locked_price as int);
    &&& oo_side(o) == Side::Bid ==> {
        &&& q == (Position { bids_base_lots: q.bids_base_lots, bids_quote_lots: q.bids_quote_lots, quote_free_native: q.quote_free_native, locked_maker_fees: q.locked_maker_fees, ..p })
        &&& q.bids_base_lots == p.bids_base_lots - qty
        &&& q.bids_quote_lots == p.bids_quote_lots - qty * o.locked_price
        &&& q.quote_free_native == p.quote_free_native + quote + maker_fee_ceil(m, quote)
        &&& q.locked_maker_fees == p.locked_maker_fees - maker_fee_ceil(m, quote)
    }
    &&& oo_side(o) == Side::Ask ==> {
        &&& q == (Position { asks_base_lots: q.asks_base_lots, base_free_native: q.base_free_native, ..p })
        &&& q.asks_base_lots == p.asks_base_lots - qty
        &&& q.base_free_native == p.base_free_native + qty * m.base_lot_size
    }
    // the account neither gains nor loses
    &&& quote_value(q, m) == quote_value(p, m)
    &&& base_value(q, m) == base_value(p, m)
}
/// the place `slot` is freed and what the order locked is returned
pub open spec fn cancel_effect(a: OpenOrdersAccount, m: Market, slot: int, qty: int, b: OpenOrdersAccount) -> bool {
    &&& 0 <= slot < MAX_OPEN_ORDERS && !oo_free(a.open_orders[slot]) && oo_empty(b.open_orders[slot]) && others_same(b, a, slot)
    &&& lots_ok(m) && qty >= 0 && a.open_orders[slot].locked_price >= 0 ==> cancel_money(a.position, m, a.open_orders[slot], qty, b.position)
}
pub open spec fn fill_lots(p: Position, m: Market, f: FillEvent, q: Position) -> bool {
    &&& fill_taker_side(f) == Side::Ask ==> q.asks_base_lots == p.asks_base_lots && q.bids_base_lots == p.bids_base_lots - f.quantity
         && q.bids_quote_lots == p.bids_quote_lots - f.quantity * fill_lock_price(f)
    &&& fill_taker_side(f) == Side::Bid ==> q.asks_base_lots == p.asks_base_lots - f.quantity && q.bids_base_lots == p.bids_base_lots
         && q.bids_quote_lots == p.bids_quote_lots
    // the maker pays or receives exactly the quote of the fill, plus the rebate
    &&& quote_value(q, m) == quote_value(p, m) + (if fill_taker_side(f) == Side::Bid { fill_quote(m, f) } else { -fill_quote(m, f) }) + fill_rebate(m, f)
    &&& base_value(q, m) == base_value(p, m) + (if fill_taker_side(f) == Side::Ask { f.quantity * m.base_lot_size } else { -(f.quantity * m.base_lot_size) })
}
/// the order in the maker's place is on the side that was filled
pub open spec fn slot_side_ok(a: OpenOrdersAccount, f: FillEvent) -> bool { f.maker_out == 1 ==> f.maker_slot < MAX_OPEN_ORDERS && oo_side(a.open_orders[f.maker_slot as int]) == opp(fill_taker_side(f)) }
/// the maker's side of the fill
pub open spec fn fill_effect(a: OpenOrdersAccount, m: Market, f: FillEvent, b: OpenOrdersAccount, n: Market) -> bool {
    &&& acct_frame(b, a) && f.taker_side <= 1
    &&& f.maker_out != 1 ==> b.open_orders == a.open_orders
    &&& f.maker_out == 1 ==> f.maker_slot < MAX_OPEN_ORDERS && others_same(b, a, f.maker_slot as int) && oo_empty(b.open_orders[f.maker_slot as int]) && !oo_free(a.open_orders[f.maker_slot as int])
    &&& lots_ok(m) && fill_ok(f) ==> market_after_fill(m, f, n)
    &&& lots_ok(m) && fill_ok(f) && slot_side_ok(a, f) ==> fill_money(a.position, m, f, b.position) && fill_lots(a.position, m, f, b.position)
    &&& n == (Market { referrer_rebates_accrued: n.referrer_rebates_accrued, maker_volume: n.maker_volume, fees_accrued: n.fees_accrued, ..m })
}
/// locked prices recorded in the account are never negative
pub open spec fn acct_ok(a: OpenOrdersAccount) -> bool { forall|i: int| 0 <= i < MAX_OPEN_ORDERS ==> (#[trigger] a.open_orders[i]).locked_price >= 0 }
