//! Stand-in for the crate `solana-security-txt`, which is not available offline.
#[macro_export]
macro_rules! security_txt {
    ($($t:tt)*) => {};
}
