//@include prelude.rs
//@include abort.rs
//@include types.rs
//@include accts.rs
//@include optkey.rs
//@include nzkey.rs
//@uselemmas book_all.rs
//@include mkt_spec.rs
//@item accounts_ix/cancel_order.rs CancelOrder
//@item accounts_ix/prune_orders.rs PruneOrders
impl OpenOrder {
//@usefn accounts.rs OpenOrder::side_and_tree
}
impl OpenOrdersAccount {
//@usefn accounts.rs OpenOrdersAccount::find_order_with_order_id
}
impl Market {
//@usefn mkt.rs Market::is_expired
}
impl<'a> Orderbook<'a> {
//@usefn book.rs Orderbook::cancel_order
//@usefn book.rs Orderbook::cancel_all_orders
}
pub open spec fn now() -> int { the_clock().unix_timestamp as int }
/// only the account, the two sides of the book change
pub open spec fn cx_frame(a: CancelOrder, b: CancelOrder) -> bool {
    b == (CancelOrder { open_orders_account: b.open_orders_account, bids: b.bids, asks: b.asks, ..a })
    && b.open_orders_account == (VxAcc { data: b.open_orders_account.data, ..a.open_orders_account }) && b.bids == (VxAcc { data: b.bids.data, ..a.bids }) && b.asks == (VxAcc { data: b.asks.data, ..a.asks })
}
pub open spec fn cx_books(a: CancelOrder) -> Books { Books { bids: a.bids.data, asks: a.asks.data } }
pub open spec fn px_frame(a: PruneOrders, b: PruneOrders) -> bool {
    b == (PruneOrders { open_orders_account: b.open_orders_account, bids: b.bids, asks: b.asks, ..a })
    && b.open_orders_account == (VxAcc { data: b.open_orders_account.data, ..a.open_orders_account }) && b.bids == (VxAcc { data: b.bids.data, ..a.bids }) && b.asks == (VxAcc { data: b.asks.data, ..a.asks })
}
pub open spec fn px_books(a: PruneOrders) -> Books { Books { bids: a.bids.data, asks: a.asks.data } }
/// what was recorded under the id, and only that, is out of the book and back with the account
pub open spec fn one_cancelled(x: OpenOrdersAccount, y: OpenOrdersAccount, key: Pubkey, m: Market, b0: Books, b1: Books, id: u128, i: int, leaf: LeafNode) -> bool {
    &&& 0 <= i < MAX_OPEN_ORDERS && oo_by_id(x, i, id) && leaf.key == id && leaf.owner == key
    &&& one_gone(bsec(b0, oo_kind(x.open_orders[i])), leaf, bsec(b1, oo_kind(x.open_orders[i])))
    &&& side_book(b1, inv_side(oo_side(x.open_orders[i]))) == side_book(b0, inv_side(oo_side(x.open_orders[i])))
    &&& only(side_book(b0, oo_side(x.open_orders[i])), side_book(b1, oo_side(x.open_orders[i])), st_tree(oo_kind(x.open_orders[i])))
    &&& cancel_effect(x, m, leaf.owner_slot as int, leaf.quantity as int, y)
}
//@rw &mut open_orders_account => &mut *open_orders_account
//@rw &mut account => &mut *account
//@fn instructions/cancel_order.rs cancel_order mode=abort
    requires book_wf(cx_books(old(ctx).accounts))
    ensures r is Ok ==> order_id > 0 && cx_frame(old(ctx).accounts, final(ctx).accounts) && book_wf(cx_books(final(ctx).accounts)) && ({
        let a = old(ctx).accounts; let b = final(ctx).accounts;
        exists|i: int, leaf: LeafNode| #[trigger] one_cancelled(a.open_orders_account.data, b.open_orders_account.data, a.open_orders_account.key, a.market.data, cx_books(a), cx_books(b), order_id, i, leaf)
    })
//@start
    let ghost x = ctx.accounts.open_orders_account.data; let ghost m = ctx.accounts.market.data; let ghost b0 = cx_books(ctx.accounts); let ghost key = ctx.accounts.open_orders_account.key; let ghost id0 = order_id;
//@end
    proof {
        let b = ctx.accounts; let y = b.open_orders_account.data; let b1 = cx_books(b); let st = order_side_and_tree;
        let i = choose|i: int| 0 <= i < MAX_OPEN_ORDERS && #[trigger] oo_by_id(x, i, id0) && x.open_orders[i].side_and_tree == st.disc();
        assert(st == oo_kind(x.open_orders[i]));
        let s = bsec(b0, st); let s2 = bsec(b1, st);
        assert(exists|leaf: LeafNode| #[trigger] one_gone(s, leaf, s2) && leaf.key == id0 && leaf.owner == key && cancel_effect(x, m, leaf.owner_slot as int, leaf.quantity as int, y));
        let leaf = choose|leaf: LeafNode| #[trigger] one_gone(s, leaf, s2) && leaf.key == id0 && leaf.owner == key && cancel_effect(x, m, leaf.owner_slot as int, leaf.quantity as int, y);
        assert(one_cancelled(x, y, key, m, b0, b1, id0, i, leaf));
    }
//@endfn
//@fn instructions/cancel_order_by_client_order_id.rs cancel_order_by_client_order_id mode=abort
    requires book_wf(cx_books(old(ctx).accounts)), book_ok(cx_books(old(ctx).accounts)), linked(cx_books(old(ctx).accounts), old(ctx).accounts.open_orders_account.data)
    ensures r is Ok ==> ({
        let a = old(ctx).accounts; let b = final(ctx).accounts;
        &&& cx_frame(a, b) && book_wf(cx_books(b)) && book_ok(cx_books(b)) && fewer(cx_books(a), cx_books(b)) && linked(cx_books(b), b.open_orders_account.data)
        &&& mass_done(a.open_orders_account.data, a.market.data, b.open_orders_account.data, cx_books(b), None, Some(client_order_id), 255)
    })
//@endfn
//@fn instructions/cancel_all_orders.rs cancel_all_orders mode=abort
    requires book_wf(cx_books(old(ctx).accounts)), book_ok(cx_books(old(ctx).accounts)), linked(cx_books(old(ctx).accounts), old(ctx).accounts.open_orders_account.data)
    ensures r is Ok ==> ({
        let a = old(ctx).accounts; let b = final(ctx).accounts;
        &&& cx_frame(a, b) && book_wf(cx_books(b)) && book_ok(cx_books(b)) && fewer(cx_books(a), cx_books(b)) && linked(cx_books(b), b.open_orders_account.data)
        &&& mass_done(a.open_orders_account.data, a.market.data, b.open_orders_account.data, cx_books(b), side_option, None, limit as int)
    })
//@endfn
//@fn instructions/prune_orders.rs prune_orders mode=abort
    requires book_wf(px_books(old(ctx).accounts)), book_ok(px_books(old(ctx).accounts)), linked(px_books(old(ctx).accounts), old(ctx).accounts.open_orders_account.data)
    ensures r is Ok ==> ({
        let a = old(ctx).accounts; let b = final(ctx).accounts;
        &&& mkt_expired(a.market.data, now())
        &&& px_frame(a, b) && book_wf(px_books(b)) && book_ok(px_books(b)) && fewer(px_books(a), px_books(b)) && linked(px_books(b), b.open_orders_account.data)
        &&& mass_done(a.open_orders_account.data, a.market.data, b.open_orders_account.data, px_books(b), None, None, limit as int)
    })
//@endfn
}
fn main() {}
