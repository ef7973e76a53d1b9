
// ---- addresses: 256 bits, compared as a whole --------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Pubkey { pub hi: u128, pub lo: u128 }
#[derive(Clone, Copy)]
pub struct VxF64 { pub bits: u64 }
//@type f64 => VxF64
//@item pubkey_option.rs NonZeroPubkeyOption
//@item state/oracle.rs OracleConfig
//@item state/orderbook/order_type.rs Side copy eq
//@item state/market.rs FEES_SCALE_FACTOR
//@item state/market.rs PENALTY_EVENT_HEAP
//@item state/market.rs Market
