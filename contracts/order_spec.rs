//@item state/orderbook/order_type.rs PlaceOrderType copy eq
//@item state/orderbook/order_type.rs PostOrderType copy eq
//@item state/orderbook/order_type.rs SelfTradeBehavior copy eq
//@item state/orderbook/order.rs OrderParams copy
//@item state/orderbook/order.rs Order
pub open spec fn o_type(p: OrderParams) -> Option<PostOrderType> {
    match p { OrderParams::Fixed { order_type, .. } => Some(order_type), OrderParams::OraclePegged { order_type, .. } => Some(order_type), _ => None }
}
pub open spec fn o_post_only(p: OrderParams) -> bool { o_type(p) == Some(PostOrderType::PostOnly) || o_type(p) == Some(PostOrderType::PostOnlySlide) }
pub open spec fn o_target(p: OrderParams) -> Option<BookSideOrderTree> {
    match p { OrderParams::Fixed { .. } => Some(BookSideOrderTree::Fixed), OrderParams::OraclePegged { .. } => Some(BookSideOrderTree::OraclePegged), _ => None }
}
pub open spec fn o_peg_limit(p: OrderParams) -> i64 { match p { OrderParams::OraclePegged { peg_limit, .. } => peg_limit, _ => (-1int) as i64 } }
/// the price the trader asks for
pub open spec fn o_asked(side: Side, p: OrderParams, oracle: Option<i64>) -> Option<int> {
    match p {
        OrderParams::Market => Some(if side == Side::Bid { i64::MAX as int } else { 1 }),
        OrderParams::ImmediateOrCancel { price_lots } => Some(price_lots as int),
        OrderParams::FillOrKill { price_lots } => Some(price_lots as int),
        OrderParams::Fixed { price_lots, .. } => Some(price_lots as int),
        OrderParams::OraclePegged { price_offset_lots, .. } => match oracle { None => None, Some(o) => if i64::MIN <= o + price_offset_lots <= i64::MAX { Some(o + price_offset_lots) } else { None } },
    }
}
pub open spec fn slid(side: Side, best: Option<int>, p: int) -> int {
    match best { None => p, Some(b) => if side == Side::Bid { if p <= b - 1 { p } else { b - 1 } } else { if p >= b + 1 { p } else { b + 1 } } }
}
pub open spec fn best_of(b: BookSide, now: int, oracle: Option<i64>) -> Option<int> { let w = valid(book_walk(b, now, oracle)); if w.len() == 0 { None } else { Some(w[0].price) } }
/// the limit price the order ends up with: a sliding order stays just short of the best opposite price
pub open spec fn o_limit(side: Side, p: OrderParams, oracle: Option<i64>, best: Option<int>) -> Option<int> {
    match o_asked(side, p, oracle) { None => None, Some(a) => Some(if o_type(p) == Some(PostOrderType::PostOnlySlide) { slid(side, best, a) } else { a }) }
}
pub open spec fn book_walk(b: BookSide, now: int, oracle: Option<i64>) -> Seq<Ent> { walk(side_of(b), oracle, now, section(b.nodes, b.roots[0]), section(b.nodes, b.roots[1])) }
