// ---- token movements: recorded in a ghost ledger by the calls into the token program -------------
pub struct Xfer { pub from: Pubkey, pub to: Pubkey, pub amount: int, pub authority: Pubkey, pub signed: Option<(Pubkey, u8)> }
pub struct VxLedger { pub tok: Ghost<Seq<Xfer>>, pub sol: Ghost<Seq<Xfer>> }
#[derive(Clone, Copy)]
pub struct VxSeeds { pub key: Pubkey, pub bump: u8 }
pub fn vx_seeds(key: Pubkey, bump: u8) -> (r: VxSeeds) ensures r.key == key, r.bump == bump { VxSeeds { key, bump } }
//@rw &[b"Market".as_ref(), &$k.to_bytes(), &[$b]] => vx_seeds($k, $b)
pub trait VxKeyed { spec fn k(&self) -> Pubkey; fn vx_key(&self) -> (r: Pubkey) ensures r == self.k(); }
impl VxKeyed for VxInfo { open spec fn k(&self) -> Pubkey { self.key } fn vx_key(&self) -> (r: Pubkey) { self.key } }
impl<T> VxKeyed for VxAcc<T> { open spec fn k(&self) -> Pubkey { self.key } fn vx_key(&self) -> (r: Pubkey) { self.key } }
pub struct VxCpi { pub prog: Pubkey, pub from: Pubkey, pub to: Pubkey, pub authority: Pubkey, pub signed: Option<VxSeeds> }
pub open spec fn cpi_xfer(c: VxCpi, amount: int) -> Xfer { Xfer { from: c.from, to: c.to, amount, authority: c.authority, signed: match c.signed { Some(s) => Some((s.key, s.bump)), None => None } } }
// a successful call moves exactly `amount`
#[verifier::external_body]
pub fn vx_token_cpi(c: VxCpi, amount: u64, led: &mut VxLedger) -> (r: Result<()>)
    ensures final(led).sol == old(led).sol, r is Ok ==> final(led).tok@ == old(led).tok@.push(cpi_xfer(c, amount as int))
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_system_cpi(c: VxCpi, amount: u64, led: &mut VxLedger) -> (r: Result<()>)
    ensures final(led).tok == old(led).tok, r is Ok ==> final(led).sol@ == old(led).sol@.push(cpi_xfer(c, amount as int))
{ unimplemented!() }
/// moving nothing leaves no trace
pub open spec fn paid(log: Seq<Xfer>, from: Pubkey, to: Pubkey, amount: int, authority: Pubkey, signed: Option<(Pubkey, u8)>) -> Seq<Xfer> {
    if amount == 0 { log } else { log.push(Xfer { from, to, amount, authority, signed }) }
}
//@rw $x.to_account_info() => $x.vx_key()
//@rw CpiContext::new($p, token::Transfer { from: $f, to: $t, authority: $a }) => VxCpi { prog: $p, from: $f, to: $t, authority: $a, signed: None }
//@rw CpiContext::new($p, token::Transfer { from: $f, to: $t, authority: $a, }) => VxCpi { prog: $p, from: $f, to: $t, authority: $a, signed: None }
//@rw CpiContext::new_with_signer($p, token::Transfer { from: $f, to: $t, authority: $a, }, &[$s]) => VxCpi { prog: $p, from: $f, to: $t, authority: $a, signed: Some($s) }
//@rw CpiContext::new($p, system_program::Transfer { from: $f, to: $t, }) => VxCpi { prog: $p, from: $f, to: $t, authority: $f, signed: None }
//@rw token::transfer($c, $a) => vx_token_cpi($c, $a, led)
//@rw system_program::transfer($c, $a) => vx_system_cpi($c, $a, led)
