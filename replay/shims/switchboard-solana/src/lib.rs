//! Stand-in for the crate `switchboard-solana`, which is not available offline.
//! Holds only the names the program mentions; the layout is not the real one.
#[derive(Clone, Copy)]
#[repr(C)]
pub struct SwitchboardDecimal {
    pub mantissa: i128,
    pub scale: u32,
    pub pad: [u32; 3],
}
unsafe impl bytemuck::Zeroable for SwitchboardDecimal {}
unsafe impl bytemuck::Pod for SwitchboardDecimal {}
impl TryFrom<SwitchboardDecimal> for f64 {
    type Error = String;
    fn try_from(d: SwitchboardDecimal) -> Result<f64, String> {
        Ok(d.mantissa as f64 / 10f64.powi(d.scale as i32))
    }
}
#[derive(Clone, Copy)]
#[repr(C)]
pub struct AggregatorRound {
    pub std_deviation: SwitchboardDecimal,
    pub round_open_slot: u64,
    pub pad: u64,
}
unsafe impl bytemuck::Zeroable for AggregatorRound {}
unsafe impl bytemuck::Pod for AggregatorRound {}
#[derive(Clone, Copy)]
#[repr(C)]
pub struct AggregatorAccountData {
    pub result: SwitchboardDecimal,
    pub latest_confirmed_round: AggregatorRound,
}
unsafe impl bytemuck::Zeroable for AggregatorAccountData {}
unsafe impl bytemuck::Pod for AggregatorAccountData {}
impl AggregatorAccountData {
    pub fn get_result(&self) -> Result<SwitchboardDecimal, String> {
        Ok(self.result)
    }
}
