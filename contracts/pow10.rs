//@include prelude.rs
//@include abort.rs
//@item state/oracle.rs DECIMAL_CONSTANT_ZERO_INDEX
//@item state/oracle.rs DECIMAL_CONSTANTS_F64
pub open spec fn p10(d: int) -> f64 {
    if d == -12 { 1e-12 } else if d == -11 { 1e-11 } else if d == -10 { 1e-10 } else if d == -9 { 1e-9 } else if d == -8 { 1e-8 } else if d == -7 { 1e-7 } else if d == -6 { 1e-6 }
    else if d == -5 { 1e-5 } else if d == -4 { 1e-4 } else if d == -3 { 1e-3 } else if d == -2 { 1e-2 } else if d == -1 { 1e-1 } else if d == 0 { 1e0 } else if d == 1 { 1e1 }
    else if d == 2 { 1e2 } else if d == 3 { 1e3 } else if d == 4 { 1e4 } else if d == 5 { 1e5 } else if d == 6 { 1e6 } else if d == 7 { 1e7 } else if d == 8 { 1e8 } else if d == 9 { 1e9 }
    else if d == 10 { 1e10 } else if d == 11 { 1e11 } else { 1e12 }
}
//@fn state/oracle.rs power_of_ten_float mode=abort
    ensures -12 <= decimals ==> decimals <= 12 && r == p10(decimals as int)
//@endfn
fn main() {}
}
