//@include ixmodel.rs
//@include book_types.rs
//@include book_spec.rs
//@include order_spec.rs
//@include market_spec.rs
//@item state/orderbook/heap.rs EventType copy eq
//@item state/orderbook/heap.rs EVENT_SIZE
//@item state/orderbook/heap.rs OutEvent
//@include accounts_spec.rs
//@include heap_ghost.rs
//@include ev_spec.rs
//@include accts.rs
//@include remain.rs
//@include castev.rs
//@item state/orderbook/book.rs DROP_EXPIRED_ORDER_LIMIT
//@item state/orderbook/book.rs FILL_EVENT_REMAINING_LIMIT
//@include book_ghost.rs
