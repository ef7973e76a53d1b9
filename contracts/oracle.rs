//@include prelude.rs
//@include abort.rs
//@include types.rs
//@include market_spec.rs
//@include accounts_spec.rs
//@include optkey.rs
//@include oracle_spec.rs
//@rw $x.key() => &$x.key
impl OracleConfigParams {
//@fn state/oracle.rs OracleConfigParams::to_oracle_config
    ensures r.conf_filter == fwide(self.conf_filter), r.max_staleness_slots == (match self.max_staleness_slots { Some(v) => v as i64, None => -1i64 })
//@rw $x as f64 => vf_num($x)
//@endfn
}
impl OracleState {
//@fn state/oracle.rs OracleState::is_stale
    ensures r == stale(*self, *config, now_slot)
//@endfn
//@fn state/oracle.rs OracleState::has_valid_confidence
    ensures r == sure(*self, *config)
//@rw $a * $b => vf_mul($a, $b)
//@rw $a / $b => vf_div($a, $b)
//@rw $a > $b => vf_gt($a, $b)
//@rw $a < $b => vf_lt($a, $b)
//@rw $a >= $b => vf_ge($a, $b)
//@rw $a <= $b => vf_le($a, $b)
//@endfn
//@fn state/oracle.rs OracleState::has_valid_combined_confidence
    ensures r == sure2(*self, *other, *config)
//@rw $a * $b => vf_mul($a, $b)
//@rw $a / $b => vf_div($a, $b)
//@rw $a + $b => vf_add($a, $b)
//@rw $a > $b => vf_gt($a, $b)
//@rw $a < $b => vf_lt($a, $b)
//@rw $a >= $b => vf_ge($a, $b)
//@rw $a <= $b => vf_le($a, $b)
//@endfn
}
impl Market {
//@fn state/market.rs Market::native_price_to_lot
    ensures r is Ok ==> in_lots(*self, price) == Some(r->Ok_0), r is Err ==> in_lots(*self, price) is None
//@endfn
//@fn state/market.rs Market::oracle_price_from_a mode=abort
    ensures r is Ok && small(*self) ==> opt_key(self.oracle_a) == Some(oracle_acc.key) && oracle_acc.state is Some && r->Ok_0 == price1(*self, oracle_acc.state->0, now_slot)
//@rw $a == $b => $a.vx_eq_key(&$b)
//@rw $a * $b => vf_mul($a, $b)
//@rw $a / $b => vf_div($a, $b)
//@endfn
//@fn state/market.rs Market::oracle_price_from_a_and_b mode=abort
    ensures r is Ok && small(*self) ==> opt_key(self.oracle_a) == Some(oracle_a_acc.key) && opt_key(self.oracle_b) == Some(oracle_b_acc.key) && oracle_a_acc.state is Some && oracle_b_acc.state is Some
        && r->Ok_0 == price2(*self, oracle_a_acc.state->0, oracle_b_acc.state->0, now_slot)
//@rw $a == $b => $a.vx_eq_key(&$b)
//@rw $a * $b => vf_mul($a, $b)
//@rw $a / $b => vf_div($a, $b)
//@endfn
//@fn state/market.rs Market::oracle_price mode=abort
    ensures r is Ok && small(*self) ==> reads(*self, oracle_a_acc, oracle_b_acc, slot, r->Ok_0)
//@endfn
//@fn state/market.rs Market::oracle_price_lots mode=abort
    ensures r is Ok && small(*self) ==> exists|p: Option<I80F48>| #[trigger] reads(*self, oracle_a_acc, oracle_b_acc, slot, p) && match r->Ok_0 { None => p is None, Some(l) => p is Some && in_lots(*self, p->0) == Some(l) }
//@endfn
}
fn main() {}
}
