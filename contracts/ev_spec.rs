pub fn vx_u8(b: bool) -> (r: u8) ensures r == (if b { 1u8 } else { 0u8 }) { if b { 1 } else { 0 } }
pub open spec fn is_fill(f: FillEvent, taker_side: Side, maker_out: bool, maker_slot: u8, timestamp: u64, seq: u64, maker: Pubkey, maker_client_order_id: u64,
    maker_timestamp: u64, taker: Pubkey, taker_client_order_id: u64, price: i64, peg_limit: i64, quantity: i64) -> bool {
    &&& f.event_type == 0 && f.taker_side == taker_side.disc() && f.maker_out == (if maker_out { 1u8 } else { 0u8 }) && f.maker_slot == maker_slot
    &&& f.timestamp == timestamp && f.market_seq_num == seq && f.maker == maker && f.maker_client_order_id == maker_client_order_id
    &&& f.maker_timestamp == maker_timestamp && f.taker == taker && f.taker_client_order_id == taker_client_order_id
    &&& f.price == price && f.peg_limit == peg_limit && f.quantity == quantity
}
pub open spec fn is_out(o: OutEvent, side: Side, slot: u8, timestamp: u64, seq: u64, owner: Pubkey, quantity: i64) -> bool {
    &&& o.event_type == 1 && o.side == side.disc() && o.owner_slot == slot && o.timestamp == timestamp && o.seq_num == seq && o.owner == owner && o.quantity == quantity
}
