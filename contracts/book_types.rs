//@include types.rs
//@include keys_spec.rs
//@include tree_spec.rs
//@include leaf_spec.rs
//@include tree_ghost.rs
//@include iter_spec.rs
//@include iter_it.rs
//@item state/orderbook/bookside.rs BookSideOrderTree copy eq
//@item state/orderbook/bookside.rs BookSideOrderHandle
//@item state/orderbook/bookside.rs BookSide
//@item state/orderbook/bookside_iterator.rs OrderState copy eq
//@item state/orderbook/bookside_iterator.rs BookSideIterItem
//@item state/orderbook/bookside_iterator.rs BookSideIter
//@include walk_spec.rs
//@include side_spec.rs
