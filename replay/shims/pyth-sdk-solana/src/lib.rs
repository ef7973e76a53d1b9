//! Stand-in for the crate `pyth-sdk-solana`, which is not available offline.
//! Holds only the names the program mentions, with a layout of its own.
pub struct Price {
    pub conf: u64,
    pub expo: i32,
    pub price: i64,
    pub publish_time: i64,
}
pub mod state {
    pub const MAGIC: u32 = 0xa1b2c3d4;
    #[derive(PartialEq, Clone, Copy)]
    #[repr(u64)]
    pub enum PriceStatus {
        Unknown = 0,
        Trading = 1,
    }
    #[repr(C)]
    pub struct PriceInfo {
        pub price: i64,
        pub conf: u64,
        pub status: PriceStatus,
        pub pub_slot: u64,
    }
    #[repr(C)]
    pub struct SolanaPriceAccount {
        pub magic: u32,
        pub expo: i32,
        pub timestamp: i64,
        pub prev_slot: u64,
        pub prev_price: i64,
        pub prev_conf: u64,
        pub prev_timestamp: i64,
        pub agg: PriceInfo,
    }
    pub const STATUS_OFFSET: usize = 64;
    pub fn load_price_account(data: &[u8]) -> Result<&SolanaPriceAccount, String> {
        if data.len() < std::mem::size_of::<SolanaPriceAccount>() || data.as_ptr() as usize % 8 != 0 {
            return Err("bad price account".to_string());
        }
        let mut status = [0u8; 8];
        status.copy_from_slice(&data[STATUS_OFFSET..STATUS_OFFSET + 8]);
        if u64::from_le_bytes(status) > 1 {
            return Err("bad status".to_string());
        }
        Ok(unsafe { &*(data.as_ptr() as *const SolanaPriceAccount) })
    }
}
