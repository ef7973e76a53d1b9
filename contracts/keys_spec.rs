
// ---- order ids ------------------------------------------------------------------------------------
pub open spec fn P64() -> int { 0x1_0000_0000_0000_0000 }
/// the id of an order: price in the upper half, placement number in the lower half
pub open spec fn key_of(side: Side, price_data: int, seq: int) -> int {
    price_data * P64() + (if side == Side::Bid { P64() - 1 - seq } else { seq })
}
pub open spec fn key_price(key: int) -> int { key / P64() }
pub open spec fn peg_data(offset: int) -> int { offset + 0x8000_0000_0000_0000 }
/// does the order with key `a` come before the one with key `b` on this side of the book?
pub open spec fn before(side: Side, a: int, b: int) -> bool { if side == Side::Bid { a > b } else { a < b } }
pub open spec fn better(side: Side, a: int, b: int) -> bool { if side == Side::Bid { a > b } else { a < b } }

// consequences: the id encodes price first, then arrival; ids of different placements differ
pub proof fn lemma_key_order(side: Side, p1: int, s1: int, p2: int, s2: int)
    requires 0 <= p1 < P64(), 0 <= p2 < P64(), 0 <= s1 < P64(), 0 <= s2 < P64()
    ensures
        better(side, p1, p2) ==> before(side, key_of(side, p1, s1), key_of(side, p2, s2)),
        p1 == p2 && s1 < s2 ==> before(side, key_of(side, p1, s1), key_of(side, p2, s2)),
        s1 != s2 ==> key_of(side, p1, s1) != key_of(side, p2, s2),
        key_price(key_of(side, p1, s1)) == p1,
{
    assert(key_price(key_of(side, p1, s1)) == p1) by (nonlinear_arith)
        requires 0 <= s1 < P64(), 0 <= p1;
}
