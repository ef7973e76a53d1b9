//@fn state/orderbook/order_type.rs Side::invert_side
    ensures r == (if *self == Side::Bid { Side::Ask } else { Side::Bid })
//@endfn
