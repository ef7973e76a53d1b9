//! Stand-in for the crate `switchboard-program`, which is not available offline.
//! Holds only the names the program mentions, with a layout of its own.
pub struct FastRoundResult {
    pub result: f64,
    pub max_response: f64,
    pub min_response: f64,
    pub round_open_slot: u64,
}
pub struct FastRoundResultAccountData {
    pub result: FastRoundResult,
}
impl FastRoundResultAccountData {
    pub fn deserialize(data: &[u8]) -> Result<Self, String> {
        if data.len() < 40 {
            return Err("bad account".to_string());
        }
        let w = |i: usize| {
            let mut b = [0u8; 8];
            b.copy_from_slice(&data[8 + 8 * i..16 + 8 * i]);
            u64::from_le_bytes(b)
        };
        Ok(Self {
            result: FastRoundResult {
                result: f64::from_bits(w(0)),
                max_response: f64::from_bits(w(1)),
                min_response: f64::from_bits(w(2)),
                round_open_slot: w(3),
            },
        })
    }
}
