//@include prelude.rs
//@include abort.rs
//@include types.rs
//@include market_spec.rs
//@include mkt_spec.rs
//@include accounts_spec.rs
//@include accts.rs
//@include optkey.rs
//@include nzkey.rs
//@include ixmodel.rs
//@include ledger.rs
//@usefn tokens.rs token_transfer
//@usefn tokens.rs token_transfer_signed
//@usefn tokens.rs system_program_transfer
//@rw token_transfer($a, $p, $f, $t, $s) => vx_token_transfer($a, $p, $f, $t, $s, led)
//@rw token_transfer_signed($a, $p, $f, $t, $s, $d) => vx_token_transfer_signed($a, $p, $f, $t, $s, $d, led)
//@rw system_program_transfer($a, $p, $f, $t) => vx_system_transfer($a, $p, $f, $t, led)
//@item accounts_ix/deposit.rs Deposit
//@item accounts_ix/set_delegate.rs SetDelegate
//@item accounts_ix/set_market_expired.rs SetMarketExpired
//@item accounts_ix/settle_funds.rs SettleFunds
//@item accounts_ix/settle_funds_expired.rs SettleFundsExpired
//@item accounts_ix/sweep_fees.rs SweepFees
impl Market {
//@usefn mkt.rs Market::is_expired
}
pub open spec fn now() -> int { the_clock().unix_timestamp as int }

//@fn instructions/deposit.rs deposit mode=abort addparam=led:~&mut~VxLedger
    ensures r is Ok ==> ({
        let a = old(ctx).accounts; let b = final(ctx).accounts; let m = a.market.data; let p = a.open_orders_account.data.position;
        &&& !mkt_expired(m, now())
        &&& final(led).tok@ == paid(paid(old(led).tok@, a.user_base_account.key, a.market_base_vault.key, base_amount as int, a.owner.key, None),
                a.user_quote_account.key, a.market_quote_vault.key, quote_amount as int, a.owner.key, None)
        &&& b.market.data == (Market { base_deposit_total: b.market.data.base_deposit_total, quote_deposit_total: b.market.data.quote_deposit_total, ..m })
        &&& b.market.data.base_deposit_total == m.base_deposit_total + base_amount
        &&& b.market.data.quote_deposit_total == m.quote_deposit_total + quote_amount
        &&& b.open_orders_account.data == (OpenOrdersAccount { position: b.open_orders_account.data.position, ..a.open_orders_account.data })
        &&& b.open_orders_account.data.position == (Position { base_free_native: (p.base_free_native + base_amount) as u64, quote_free_native: (p.quote_free_native + quote_amount) as u64, ..p })
    })
//@endfn

/// what is left of the locked maker fees is released only when no bids are open
pub open spec fn roundoff(m: Market, p: Position) -> int { if m.maker_fee > 0 && p.bids_base_lots == 0 { p.locked_maker_fees as int } else { 0 } }
pub open spec fn signed_by(a: SettleFunds) -> Option<(Pubkey, u8)> { Some((a.market.key, a.market.data.bump)) }
pub open spec fn settled(a: SettleFunds, b: SettleFunds, l0: VxLedger, l1: VxLedger) -> bool {
    let m = a.market.data; let n = b.market.data; let p = a.open_orders_account.data.position; let q = b.open_orders_account.data.position;
    let rebate = p.referrer_rebates_available + roundoff(m, p);
    let auth = a.market_authority.key;
    // the payments: rebates to the referrer if one is given, then the free base and quote
    let l_ref = match a.referrer_account { Some(x) => paid(l0.tok@, a.market_quote_vault.key, x.key, rebate, auth, signed_by(a)), None => l0.tok@ };
    let l_base = paid(l_ref, a.market_base_vault.key, a.user_base_account.key, p.base_free_native as int, auth, signed_by(a));
    &&& l1.tok@ == paid(l_base, a.market_quote_vault.key, a.user_quote_account.key, p.quote_free_native as int, auth, signed_by(a))
    // the account is emptied
    &&& q == (Position { base_free_native: 0, quote_free_native: 0, referrer_rebates_available: 0, penalty_heap_count: 0, locked_maker_fees: (p.locked_maker_fees - roundoff(m, p)) as u64, ..p })
    &&& b.open_orders_account.data == (OpenOrdersAccount { position: q, ..a.open_orders_account.data })
    // the market's totals
    &&& n == (Market { base_deposit_total: n.base_deposit_total, quote_deposit_total: n.quote_deposit_total, fees_to_referrers: n.fees_to_referrers, fees_available: n.fees_available,
            referrer_rebates_accrued: n.referrer_rebates_accrued, ..m })
    &&& n.base_deposit_total == m.base_deposit_total - p.base_free_native
    &&& n.quote_deposit_total == m.quote_deposit_total - p.quote_free_native - (if a.referrer_account is Some { rebate } else { 0 })
    &&& n.fees_available == m.fees_available + (if a.referrer_account is Some { 0 } else { rebate })
    &&& n.fees_to_referrers == m.fees_to_referrers + (if a.referrer_account is Some { rebate } else { 0 })
    &&& n.referrer_rebates_accrued == m.referrer_rebates_accrued - p.referrer_rebates_available
}
//@fn instructions/settle_funds.rs settle_funds mode=abort addparam=led:~&mut~VxLedger
    ensures r is Ok ==> settled(old(ctx).accounts, final(ctx).accounts, *old(led), *final(led))
//@endfn
pub open spec fn as_settle(x: SettleFundsExpired) -> SettleFunds {
    SettleFunds { owner: x.owner, penalty_payer: x.penalty_payer, open_orders_account: x.open_orders_account, market: x.market, market_authority: x.market_authority,
        market_base_vault: x.market_base_vault, market_quote_vault: x.market_quote_vault, user_base_account: x.user_base_account, user_quote_account: x.user_quote_account,
        referrer_account: x.referrer_account, token_program: x.token_program, system_program: x.system_program }
}
impl SettleFundsExpired {
//@fn accounts_ix/settle_funds_expired.rs SettleFundsExpired::to_settle_funds
    ensures r == as_settle(*self)
//@rw $x.clone() => vx_copy(&$x)
//@type SettleFunds<'info> => SettleFunds
//@endfn
}
// the copied handles refer to the same accounts: what the call writes is what the caller sees
pub fn vx_settle(ctx: &mut VxCtx<SettleFundsExpired>, led: &mut VxLedger) -> (r: Result<()>)
    ensures r is Ok ==> settled(as_settle(old(ctx).accounts), as_settle(final(ctx).accounts), *old(led), *final(led))
{
    let mut c = VxCtx { accounts: ctx.accounts.to_settle_funds() };
    let r = settle_funds(&mut c, led);
    ctx.accounts.market = c.accounts.market;
    ctx.accounts.open_orders_account = c.accounts.open_orders_account;
    r
}
//@fn instructions/settle_funds_expired.rs settle_funds_expired mode=abort addparam=led:~&mut~VxLedger
    ensures r is Ok ==> mkt_expired(old(ctx).accounts.market.data, now())
        && settled(as_settle(old(ctx).accounts), as_settle(final(ctx).accounts), *old(led), *final(led))
//@rw crate::instructions::settle_funds(Context::new($a, &mut ctx.accounts.to_settle_funds(), $b, $c)) => vx_settle(ctx, led)
//@endfn
//@fn instructions/sweep_fees.rs sweep_fees mode=abort addparam=led:~&mut~VxLedger
    ensures r is Ok ==> ({
        let a = old(ctx).accounts; let m = a.market.data; let n = final(ctx).accounts.market.data;
        &&& n == (Market { fees_available: 0, quote_deposit_total: (m.quote_deposit_total - m.fees_available) as u64, ..m })
        &&& m.quote_deposit_total >= m.fees_available
        &&& final(led).tok@ == paid(old(led).tok@, a.market_quote_vault.key, a.token_receiver_account.key, m.fees_available as int, a.market_authority.key, Some((a.market.key, m.bump)))
    })
//@endfn
//@fn instructions/set_market_expired.rs set_market_expired mode=abort
    ensures r is Ok ==> !mkt_expired(old(ctx).accounts.market.data, now())
        && final(ctx).accounts.market.data == (Market { time_expiry: (-1int) as i64, ..old(ctx).accounts.market.data })
        && (now() >= 0 ==> mkt_expired(final(ctx).accounts.market.data, now()))
//@endfn
//@fn instructions/set_delegate.rs set_delegate mode=abort
    ensures r is Ok ==> ({
        let a = old(ctx).accounts.open_orders_account.data; let b = final(ctx).accounts.open_orders_account.data;
        b == (OpenOrdersAccount { delegate: b.delegate, ..a }) && opt_key(b.delegate) == nzk(old(ctx).accounts.delegate_account)
    })
//@rw $x.into() => vx_key_opt($x)
//@endfn
}
fn main() {}
