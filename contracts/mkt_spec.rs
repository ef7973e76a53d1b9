pub open spec fn mkt_expired(m: Market, now: int) -> bool { m.time_expiry != 0 && m.time_expiry < now }
pub open spec fn mkt_empty(m: Market) -> bool { m.base_deposit_total == 0 && m.quote_deposit_total == 0 && m.fees_available == 0 && m.referrer_rebates_accrued == 0 }
