//@include prelude.rs
//@include abort.rs
//@include ixmodel.rs
//@include book_types.rs
//@include book_spec.rs
//@include order_spec.rs
//@usefn keys.rs oracle_pegged_price_data
//@usefn keys.rs fixed_price_data
pub fn vx_sat_sub(a: u64, b: u64) -> (r: u64) ensures r == (if a >= b { a - b } else { 0 }) { if a >= b { a - b } else { 0 } }
impl Side {
//@usefn keys.rs Side::invert_side
}
impl BookSide {
//@usefn bookside.rs BookSide::best_price
}
impl<'a> Orderbook<'a> {
//@fn state/orderbook/book.rs Orderbook::bookside
    requires book_wf(books(*self))
    ensures *r == side_book(books(*self), side)
//@endfn
}
impl PlaceOrderType {
//@fn state/orderbook/order_type.rs PlaceOrderType::to_post_order_type
    ensures match *self {
        PlaceOrderType::Limit => r == Ok::<PostOrderType, Error>(PostOrderType::Limit),
        PlaceOrderType::PostOnly => r == Ok::<PostOrderType, Error>(PostOrderType::PostOnly),
        PlaceOrderType::PostOnlySlide => r == Ok::<PostOrderType, Error>(PostOrderType::PostOnlySlide),
        _ => r is Err,
    }
//@endfn
}
impl Order {
//@fn state/orderbook/order.rs Order::tif_from_expiry mode=abort
    ensures ({ let now = the_clock().unix_timestamp as int;
        now >= 0 && if expiry_timestamp == 0 { r == Some(0u16) } else if expiry_timestamp <= now { r is None } else { r is Some && r->0 == (if expiry_timestamp - now > 65535 { 65535 } else { expiry_timestamp - now }) } })
//@rw $x.saturating_sub($y) => vx_sat_sub($x, $y)
//@rw u16::MAX.into() => 65535u64
//@endfn
//@fn state/orderbook/order.rs Order::is_post_only
    ensures r == o_post_only(self.params)
//@endfn
//@fn state/orderbook/order.rs Order::is_fill_or_kill
    ensures r == (self.params is FillOrKill)
//@endfn
//@fn state/orderbook/order.rs Order::post_target
    ensures r == o_target(self.params)
//@endfn
//@fn state/orderbook/order.rs Order::peg_limit
    ensures r == o_peg_limit(self.params)
//@endfn
//@fn state/orderbook/order.rs Order::price_for_order_type mode=abort
    requires book_wf(books(*order_book))
    ensures r == (if order_type == PostOrderType::PostOnlySlide { slid(self.side, best_of(side_book(books(*order_book), inv_side(self.side)), now_ts as int, oracle_price_lots), price_lots as int) } else { price_lots as int })
//@endfn
//@fn state/orderbook/order.rs Order::price mode=abort
    requires book_wf(books(*order_book))
    ensures ({ let best = best_of(side_book(books(*order_book), inv_side(self.side)), now_ts as int, oracle_price_lots); let l = o_limit(self.side, self.params, oracle_price_lots, best);
        match r {
            Ok(x) => l == Some(x.0 as int) && x.0 >= 1 && x.1 == (if self.params is OraclePegged { peg_data(x.0 - oracle_price_lots->0) } else { x.0 as int }),
            Err(_) => l is None || l->0 < 1,
        } })
//@endfn
}
//@fn state/orderbook/order.rs market_order_limit_for_side
    ensures r == (if side == Side::Bid { i64::MAX } else { 1 })
//@endfn
//@fn state/orderbook/order.rs post_only_slide_limit mode=abort
    ensures r == slid(side, Some(best_other_side as int), limit as int)
//@endfn
fn main() {}
}
