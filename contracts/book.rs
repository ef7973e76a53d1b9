//@include prelude.rs
//@include abort.rs
//@include book_all.rs
impl EventHeap {
//@usefn heapx.rs EventHeap::push_back
}
impl BookSide {
//@usefn bookside.rs BookSide::remove_by_key
//@usefn bookside.rs BookSide::is_empty
}
impl SideAndOrderTree {
//@usefn accounts.rs SideAndOrderTree::side
//@usefn accounts.rs SideAndOrderTree::order_tree
}
impl OpenOrder {
//@usefn accounts.rs OpenOrder::is_free
//@usefn accounts.rs OpenOrder::side_and_tree
}
impl OpenOrdersAccount {
//@usefn accounts.rs OpenOrdersAccount::cancel_order
//@usefn accounts.rs OpenOrdersAccount::execute_maker
}
//@fn state/orderbook/book.rs process_out_event mode=abort
    requires old(event_heap).wf()
    ensures final(event_heap).wf(), final(remaining_accs).len() == old(remaining_accs).len(),
        r is Ok ==> match open_orders_account {
            None => out_done(event, *market, *old(event_heap), *final(event_heap), false, arbitrary(), arbitrary(), old(remaining_accs)@, final(remaining_accs)@),
            Some(a) => out_done(event, *market, *old(event_heap), *final(event_heap), *owner == event.owner, *a, *final(a), old(remaining_accs)@, final(remaining_accs)@),
        }
//@endfn
//@fn state/orderbook/book.rs process_fill_event mode=abort
    requires old(event_heap).wf()
    ensures final(event_heap).wf(), final(remaining_accs).len() == old(remaining_accs).len(), *final(number_of_processed_fill_events) <= *old(number_of_processed_fill_events) + 1,
        r is Ok ==> fill_done(event, *old(market), *final(market), *old(event_heap), *final(event_heap), old(remaining_accs)@, final(remaining_accs)@)
//@endfn
impl<'a> Orderbook<'a> {
//@fn state/orderbook/book.rs Orderbook::bookside_mut
    ensures same_books(*old(self), *final(self)), *r == side_book(books(*old(self)), side), side_book(books(*final(self)), side) == *final(r), side_book(books(*final(self)), inv_side(side)) == side_book(books(*old(self)), inv_side(side))
//@endfn
//@fn state/orderbook/book.rs Orderbook::is_empty
    requires book_wf(books(*self))
    ensures r == (bsec(books(*self), SideAndOrderTree::BidFixed).len() == 0 && bsec(books(*self), SideAndOrderTree::BidOraclePegged).len() == 0
        && bsec(books(*self), SideAndOrderTree::AskFixed).len() == 0 && bsec(books(*self), SideAndOrderTree::AskOraclePegged).len() == 0)
//@endfn
//@fn state/orderbook/book.rs Orderbook::init
    ensures same_books(*old(self), *final(self)), side_book(books(*final(self)), Side::Bid) == typed_side(side_book(books(*old(self)), Side::Bid), 0), side_book(books(*final(self)), Side::Ask) == typed_side(side_book(books(*old(self)), Side::Ask), 1)
//@endfn
//@fn state/orderbook/book.rs Orderbook::cancel_order mode=abort
    requires book_wf(books(*old(self)))
    ensures same_books(*old(self), *final(self)), book_wf(books(*final(self))), fewer(books(*old(self)), books(*final(self))),
        side_book(books(*final(self)), inv_side(st_side(side_and_tree))) == side_book(books(*old(self)), inv_side(st_side(side_and_tree))),
        only(side_book(books(*old(self)), st_side(side_and_tree)), side_book(books(*final(self)), st_side(side_and_tree)), st_tree(side_and_tree)),
        ({ let s = bsec(books(*old(self)), side_and_tree); let s2 = bsec(books(*final(self)), side_and_tree);
           match r {
               Ok(leaf) => leaf.key == order_id && one_gone(s, leaf, s2) && (expected_owner is Some ==> leaf.owner == expected_owner->0)
                   && cancel_effect(*old(open_orders_account), market, leaf.owner_slot as int, leaf.quantity as int, *final(open_orders_account)),
               Err(e) => *final(open_orders_account) == *old(open_orders_account) && (expected_owner is None ==> s2 == s && e.code == errcode(OpenBookError::OrderIdNotFound) && no_id(s, order_id)),
           } })
//@start
    proof { assert forall|s: Seq<LeafNode>| (forall|i: int| 0 <= i < s.len() ==> #[trigger] notin(s, i, order_id)) implies #[trigger] no_id(s, order_id) by { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).key != order_id by { assert(notin(s, i, order_id)); } } }
//@endfn
//@fn state/orderbook/book.rs Orderbook::cancel_all_orders mode=abort
    requires book_wf(books(*old(self))), linked(books(*old(self)), *old(open_orders_account)), book_ok(books(*old(self)))
    ensures same_books(*old(self), *final(self)), book_wf(books(*final(self))), fewer(books(*old(self)), books(*final(self))), book_ok(books(*final(self))), linked(books(*final(self)), *final(open_orders_account)),
        r is Ok ==> mass_done(*old(open_orders_account), market, *final(open_orders_account), books(*final(self)), side_to_cancel_option, client_id_option, limit as int)
//@start
    let ghost a0 = *open_orders_account; let ghost b0 = books(*self); let ghost lim = limit as int;
    proof { assert(fewer(b0, b0)) by { assert forall|k: SideAndOrderTree| sub(bsec(b0, k), #[trigger] bsec(b0, k)) by {} } }
//@inv 0
    invariant_except_break
        vx_i0 <= vx_n0, limit == lim - n_asked(a0, side_to_cancel_option, client_id_option, vx_i0 as int),
        mass(a0, market, *open_orders_account, books(*self), side_to_cancel_option, client_id_option, vx_i0 as int),
    invariant
        vx_n0 == MAX_OPEN_ORDERS, same_books(*old(self), *self), book_wf(books(*self)), fewer(b0, books(*self)), book_ok(books(*self)), linked(books(*self), *open_orders_account),
    ensures mass_done(a0, market, *open_orders_account, books(*self), side_to_cancel_option, client_id_option, lim)
    decreases vx_n0 - vx_i0
//@loopstart 0
    let ghost pa = *open_orders_account; let ghost pb = books(*self); let ghost k = vx_i0 as int;
    proof { reveal_with_fuel(n_asked, 2); assert(pa.open_orders[k] == a0.open_orders[k]); }
//@after @call cancel_order
    proof {
        lemma_fewer(pb, books(*self), pa); lemma_fewer_trans(b0, pb, books(*self));
        assert(slot_is(bsec(pb, oo_kind(pa.open_orders[k])), pa.open_orders[k].id, k));
        if cancel_result is Ok { lemma_mass_step(a0, market, pa, pb, *open_orders_account, books(*self), side_to_cancel_option, client_id_option, k, cancel_result->Ok_0); }
    }
//@endfn
}
fn main() {}
}
