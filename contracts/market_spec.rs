
// ---- fees ---------------------------------------------------------------------------------------
pub open spec fn fee_floor(amount: int, rate: int) -> int { amount * rate / 1_000_000 }
pub open spec fn fee_ceil(amount: int, rate: int) -> int { (amount * rate + 999_999) / 1_000_000 }
pub open spec fn maker_fee_floor(m: Market, amount: int) -> int { if m.maker_fee > 0 { fee_floor(amount, m.maker_fee as int) } else { 0 } }
pub open spec fn maker_rebate(m: Market, amount: int) -> int { if m.maker_fee > 0 { 0 } else { fee_floor(amount, -m.maker_fee) } }
pub open spec fn maker_fee_ceil(m: Market, amount: int) -> int { if m.maker_fee > 0 { fee_ceil(amount, m.maker_fee as int) } else { 0 } }
pub open spec fn taker_fee_ceil(m: Market, amount: int) -> int { fee_ceil(amount, m.taker_fee as int) }
