//@include prelude.rs
//@include abort.rs
//@include types.rs
//@include keys_spec.rs
//@item state/orderbook/nodes.rs NodeTag
//@item state/orderbook/nodes.rs NODE_SIZE
//@item state/orderbook/nodes.rs LeafNode
//@rw NodeTag::LeafNode.into() => vx_tag(NodeTag::LeafNode)
pub fn vx_tag(t: NodeTag) -> (r: u8) ensures r == t.disc() { t.into() }

pub open spec fn leaf_expiry(l: LeafNode) -> int { if l.time_in_force == 0 { u64::MAX as int } else { l.timestamp + l.time_in_force } }
pub open spec fn leaf_expired(l: LeafNode, now: int) -> bool { l.time_in_force > 0 && now >= l.timestamp + l.time_in_force }

//@fn state/orderbook/nodes.rs new_node_key
    ensures r == key_of(side, price_data as int, seq_num as int)
//@start
    proof {
        let a: u64 = price_data; let s: u64 = seq_num;
        let n: u64 = if side == Side::Bid { !s } else { s };
        assert(!s == 0xffff_ffff_ffff_ffffu64 - s) by (bit_vector);
        assert(((a as u128) << 64u128) == (a as u128) * 0x1_0000_0000_0000_0000u128) by (bit_vector);
        assert((((a as u128) << 64u128) | (n as u128)) == ((a as u128) << 64u128) + (n as u128)) by (bit_vector);
    }
//@endfn

//@fn state/orderbook/nodes.rs oracle_pegged_price_data
    ensures r == peg_data(price_offset_lots as int)
//@start
    proof { let x = price_offset_lots; assert(x >= 0 ==> x as u64 == x) by (bit_vector); assert(x < 0 ==> x as u64 == x + 0x1_0000_0000_0000_0000) by (bit_vector); }
//@endfn

//@fn state/orderbook/nodes.rs oracle_pegged_price_offset
    ensures peg_data(r as int) == price_data
//@start
    proof {
        let y = if price_data >= 0x8000_0000_0000_0000u64 { sub(price_data, 0x8000_0000_0000_0000u64) } else { add(price_data, 0x8000_0000_0000_0000u64) };
        assert(y < 0x8000_0000_0000_0000u64 ==> y as i64 == y) by (bit_vector);
        assert(y >= 0x8000_0000_0000_0000u64 ==> y as i64 == y - 0x1_0000_0000_0000_0000) by (bit_vector);
    }
//@endfn

//@fn state/orderbook/nodes.rs fixed_price_data
    ensures
        price_lots >= 1 ==> r is Ok && r->Ok_0 == price_lots,
        price_lots < 1 ==> r is Err,
//@endfn

//@fn state/orderbook/nodes.rs fixed_price_lots mode=abort
    ensures price_data <= i64::MAX, r == price_data
//@endfn

impl LeafNode {
//@fn state/orderbook/nodes.rs LeafNode::new
    ensures r.tag == 2, r.owner_slot == owner_slot, r.key == key, r.owner == owner, r.quantity == quantity,
        r.timestamp == timestamp, r.time_in_force == time_in_force, r.peg_limit == peg_limit, r.client_order_id == client_order_id
//@endfn
//@fn state/orderbook/nodes.rs LeafNode::price_data
    ensures r == key_price(self.key as int)
//@start
    proof { let k = self.key; assert((k >> 64u128) as u64 == k / 0x1_0000_0000_0000_0000u128) by (bit_vector); }
//@endfn
//@fn state/orderbook/nodes.rs LeafNode::expiry mode=abort
    ensures r == leaf_expiry(*self)
//@endfn
//@fn state/orderbook/nodes.rs LeafNode::is_expired mode=abort
    ensures r == leaf_expired(*self, now_ts as int)
//@endfn
}
impl Side {
//@fn state/orderbook/order_type.rs Side::invert_side
    ensures r == (if *self == Side::Bid { Side::Ask } else { Side::Bid })
//@endfn
//@fn state/orderbook/order_type.rs Side::is_price_better
    ensures r == better(*self, lhs as int, rhs as int)
//@endfn
//@fn state/orderbook/order_type.rs Side::is_price_data_better
    ensures r == better(*self, lhs as int, rhs as int)
//@endfn
//@fn state/orderbook/order_type.rs Side::is_price_within_limit
    ensures r == !better(*self, price as int, limit as int)
//@endfn
}
impl Market {
//@fn state/market.rs Market::gen_order_id mode=abort
    ensures final(self).seq_num == old(self).seq_num + 1,
        r == key_of(side, price_data as int, final(self).seq_num as int),
        *final(self) == (Market { seq_num: final(self).seq_num, ..*old(self) })
//@rw orderbook::new_node_key($a, $b, $c) => new_node_key($a, $b, $c)
//@endfn
}
fn main() {}
}
