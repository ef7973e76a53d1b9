//@include floats.rs
//@type f32 => VxF32
//@item state/oracle.rs OracleConfigParams
//@item state/oracle.rs OracleType copy eq
//@item state/oracle.rs OracleState
/// an oracle account, and what its contents decode to
pub struct VxOracle { pub key: Pubkey, pub state: Option<OracleState> }
pub uninterp spec fn p10(d: int) -> VxF64;
//@type &impl KeyedAccountReader => &VxOracle
//@type Option<&impl KeyedAccountReader> => Option<&VxOracle>
#[verifier::external_body]
pub fn vx_oracle_state(a: &VxOracle) -> (r: Result<OracleState>) ensures r is Ok ==> a.state == Some(r->Ok_0) { unimplemented!() }
#[verifier::external_body]
pub fn vx_p10(d: i8) -> (r: VxF64) ensures -12 <= d ==> d <= 12 && r == p10(d as int) { unimplemented!() }
//@noinline oracle_state_unchecked
//@noinline power_of_ten_float
//@rw oracle::oracle_state_unchecked($x) => vx_oracle_state($x)
//@rw oracle::power_of_ten_float($x) => vx_p10($x)
/// recent enough: updated at most the configured number of slots ago (no bound if negative)
pub open spec fn stale(o: OracleState, c: OracleConfig, now: u64) -> bool { c.max_staleness_slots >= 0 && o.last_update_slot + c.max_staleness_slots < now }
/// certain enough: the deviation is not above the configured share of the price
pub open spec fn sure(o: OracleState, c: OracleConfig) -> bool { !fgt(o.deviation, fmul(c.conf_filter, o.price)) }
pub open spec fn rel2(o: OracleState) -> VxF64 { fpow(fdiv(o.deviation, o.price), 2) }
pub open spec fn sure2(o: OracleState, p: OracleState, c: OracleConfig) -> bool { !fgt(fadd(rel2(o), rel2(p)), fpow(c.conf_filter, 2)) }
pub open spec fn adj(m: Market) -> VxF64 { p10(m.quote_decimals - m.base_decimals) }
/// the price of one oracle
pub open spec fn price1(m: Market, o: OracleState, now: u64) -> Option<I80F48> { if stale(o, m.oracle_config, now) || !sure(o, m.oracle_config) { None } else { fix_float(fmul(o.price, adj(m))) } }
/// the price of the first in terms of the second
pub open spec fn price2(m: Market, o: OracleState, p: OracleState, now: u64) -> Option<I80F48> {
    if stale(o, m.oracle_config, now) || stale(p, m.oracle_config, now) || !sure2(o, p, m.oracle_config) { None } else { fix_float(fmul(fdiv(o.price, p.price), adj(m))) }
}
pub open spec fn reads(m: Market, a: Option<&VxOracle>, b: Option<&VxOracle>, now: u64, r: Option<I80F48>) -> bool {
    if opt_key(m.oracle_a) is None { r is None }
    else if opt_key(m.oracle_b) is None { a is Some && opt_key(m.oracle_a) == Some((a->0).key) && (a->0).state is Some && r == price1(m, (a->0).state->0, now) }
    else { a is Some && b is Some && opt_key(m.oracle_a) == Some((a->0).key) && opt_key(m.oracle_b) == Some((b->0).key) && (a->0).state is Some && (b->0).state is Some
        && r == price2(m, (a->0).state->0, (b->0).state->0, now) }
}
pub open spec fn small(m: Market) -> bool { m.quote_decimals <= 127 && m.base_decimals <= 127 && m.quote_decimals - m.base_decimals >= -12 }
pub open spec fn in_lots(m: Market, p: I80F48) -> Option<i64> {
    match fix_mul(p, fix_num(m.base_lot_size as int)) { None => None, Some(x) => match fix_div(x, fix_num(m.quote_lot_size as int)) { None => None, Some(y) => fix_int(y) } }
}
