//! Stand-in for the crate `default-env`, which is not available offline.
#[macro_export]
macro_rules! default_env {
    ($name:expr, $default:expr) => {
        $default
    };
}
