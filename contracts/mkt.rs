//@include prelude.rs
//@include abort.rs
//@include types.rs
//@include mkt_spec.rs
impl Market {
//@fn state/market.rs Market::is_expired
    ensures r == mkt_expired(*self, timestamp as int)
//@endfn
//@fn state/market.rs Market::is_empty
    ensures r == mkt_empty(*self)
//@endfn
//@fn state/market.rs Market::is_market_vault
    ensures r == (pubkey == self.market_quote_vault || pubkey == self.market_base_vault)
//@endfn
//@fn state/market.rs Market::get_vault_by_side
    ensures r == (if side == Side::Bid { self.market_quote_vault } else { self.market_base_vault })
//@endfn
//@fn state/market.rs Market::max_base_lots mode=abort
    ensures self.base_lot_size > 0 ==> r == i64::MAX as int / self.base_lot_size as int && r >= 0
//@endfn
//@fn state/market.rs Market::max_quote_lots mode=abort
    ensures self.quote_lot_size > 0 ==> r == i64::MAX as int / self.quote_lot_size as int && r >= 0
//@endfn
//@fn state/market.rs Market::max_base_lots_from_lamports mode=abort
    ensures self.base_lot_size > 0 ==> r >= 0 && r * self.base_lot_size <= lamports && r * self.base_lot_size <= i64::MAX
//@after @let base_lots
    proof { if self.base_lot_size > 0 { lemma_lots(lamports as int, self.base_lot_size as int); lemma_lots(i64::MAX as int, self.base_lot_size as int); lemma_le(self.base_lot_size as int); } }
//@endfn
//@fn state/market.rs Market::max_quote_lots_from_lamports mode=abort
    ensures self.quote_lot_size > 0 ==> r >= 0 && r * self.quote_lot_size <= lamports && r * self.quote_lot_size <= i64::MAX
//@after @let quote_lots
    proof { if self.quote_lot_size > 0 { lemma_lots(lamports as int, self.quote_lot_size as int); lemma_lots(i64::MAX as int, self.quote_lot_size as int); lemma_le(self.quote_lot_size as int); } }
//@endfn
}
pub proof fn lemma_lots(n: int, s: int) requires n >= 0, s > 0 ensures n / s >= 0, (n / s) * s <= n, n / s <= n {
    assert(n / s >= 0 && (n / s) * s <= n && n / s <= n) by (nonlinear_arith) requires n >= 0, s > 0;
}
pub proof fn lemma_le(s: int) requires s > 0 ensures forall|a: int, b: int| a <= b ==> #[trigger] (a * s) <= #[trigger] (b * s) {
    assert forall|a: int, b: int| a <= b implies #[trigger] (a * s) <= #[trigger] (b * s) by { assert(a * s <= b * s) by (nonlinear_arith) requires a <= b, s > 0; }
}
}
fn main() {}
