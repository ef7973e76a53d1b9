//@include prelude.rs
//@include abort.rs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Pubkey { pub hi: u128, pub lo: u128 }
//@item state/orderbook/order_type.rs Side copy eq
//@item state/orderbook/heap.rs EventType copy eq
//@item state/orderbook/heap.rs EVENT_SIZE
//@item state/orderbook/heap.rs FillEvent
//@item state/orderbook/heap.rs OutEvent
//@include ev_spec.rs
//@rw Default::default() => vx_default()
impl FillEvent {
//@fn state/orderbook/heap.rs FillEvent::new
    ensures is_fill(r, taker_side, maker_out, maker_slot, timestamp, market_seq_num, maker, maker_client_order_id, maker_timestamp, taker, taker_client_order_id, price, peg_limit, quantity)
//@rw maker_out.into() => vx_u8(maker_out)
//@rw EventType::Fill as u8 => EventType::Fill.into()
//@endfn
//@fn state/orderbook/heap.rs FillEvent::taker_side mode=abort
    ensures self.taker_side <= 1, r.disc() == self.taker_side
//@endfn
//@fn state/orderbook/heap.rs FillEvent::maker_out
    ensures r == (self.maker_out == 1)
//@endfn
}
impl OutEvent {
//@fn state/orderbook/heap.rs OutEvent::new
    ensures is_out(r, side, owner_slot, timestamp, seq_num, owner, quantity)
//@endfn
//@fn state/orderbook/heap.rs OutEvent::side mode=abort
    ensures self.side <= 1, r.disc() == self.side
//@endfn
}
}
fn main() {}
