//@include prelude.rs
//@include abort.rs
//@include types.rs
//@include market_spec.rs

impl Market {
//@fn state/market.rs Market::ceil_fee_division mode=abort
    ensures numerator >= 0 ==> r == (numerator + 999_999) / 1_000_000
//@endfn
//@fn state/market.rs Market::unsigned_maker_fees_floor mode=abort
    ensures r == fee_floor(amount as int, if self.maker_fee < 0 { -self.maker_fee } else { self.maker_fee as int })
//@start
    proof { lemma_mul_nonneg(amount as int, if self.maker_fee < 0 { -self.maker_fee } else { self.maker_fee as int }); }
//@endfn
//@fn state/market.rs Market::maker_fees_floor mode=abort
    ensures r == maker_fee_floor(self, amount as int)
//@endfn
//@fn state/market.rs Market::maker_rebate_floor mode=abort
    ensures r == maker_rebate(self, amount as int)
//@endfn
//@fn state/market.rs Market::maker_fees_ceil mode=abort generics=T:VxInt
    ensures amount.v() >= 0 ==> r.v() == maker_fee_ceil(self, amount.v()), T::fits(r.v())
//@rw amount.into() => vx_conv::<_, i128>(amount)
//@rw T::from(0) => vx_conv::<u8, T>(0)
//@start
    proof { lemma_mul_nonneg(amount.v(), self.maker_fee as int); }
//@endfn
//@fn state/market.rs Market::taker_fees_ceil mode=abort generics=T:VxInt
    ensures amount.v() >= 0 && self.taker_fee >= 0 ==> r.v() == taker_fee_ceil(self, amount.v()), T::fits(r.v())
//@rw amount.into() => vx_conv::<_, i128>(amount)
//@start
    proof { lemma_mul_nonneg(amount.v(), self.taker_fee as int); }
//@endfn
//@fn state/market.rs Market::subtract_taker_fees mode=abort
    ensures quote >= 0 && self.taker_fee >= 0 ==> 0 <= r <= quote && r + taker_fee_ceil(*self, r as int) <= quote
        && r == quote * 1_000_000 / (1_000_000 + self.taker_fee)
//@start
    proof { if quote >= 0 && self.taker_fee >= 0 { lemma_subtract(quote as int, self.taker_fee as int); } }
//@endfn
}
pub proof fn lemma_mul_nonneg(a: int, b: int) ensures a >= 0 && b >= 0 ==> a * b >= 0 {
    if a >= 0 && b >= 0 { assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0; }
}
//@include market_lem.rs
fn main() {}
}
