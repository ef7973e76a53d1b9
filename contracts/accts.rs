// ---- accounts as Anchor hands them to an instruction ---------------------------------------------
#[derive(Clone, Copy)]
pub struct VxInfo { pub key: Pubkey, pub is_signer: bool, pub program_ok: bool }
// `typed`: owned by the expected program and carrying the discriminator of T; `fresh`: just created
pub struct VxAcc<T> { pub key: Pubkey, pub typed: bool, pub fresh: bool, pub data: T }
pub struct VxCtx<X> { pub accounts: X }
pub struct TokenAccount { pub mint: Pubkey, pub owner: Pubkey, pub amount: u64 }
pub struct Mint { pub decimals: u8 }

// program derived addresses: a function of the seeds
pub enum VxSeed { Lit(Pubkey), Key(Pubkey), Num(u64) }
pub uninterp spec fn pda(s: Seq<VxSeed>) -> Pubkey;
#[verifier::external_body]
pub fn vx_pda2(a: VxSeed, b: VxSeed) -> (r: Pubkey) ensures r == pda(seq![a, b]) { unimplemented!() }
#[verifier::external_body]
pub fn vx_pda3(a: VxSeed, b: VxSeed, c: VxSeed) -> (r: Pubkey) ensures r == pda(seq![a, b, c]) { unimplemented!() }
pub fn vx_u64(x: u32) -> (r: u64) ensures r == x { x as u64 }
