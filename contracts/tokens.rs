//@include prelude.rs
//@include abort.rs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Pubkey { pub hi: u128, pub lo: u128 }
//@include accts.rs
//@include ledger.rs
//@fn token_utils.rs token_transfer as=vx_token_transfer generics=P:~VxKeyed,~A:~VxKeyed,~S:~VxKeyed addparam=led:~&mut~VxLedger
    ensures final(led).sol == old(led).sol, r is Ok ==> final(led).tok@ == paid(old(led).tok@, from.k(), to.k(), amount as int, authority.k(), None)
//@endfn
//@fn token_utils.rs token_transfer_signed as=vx_token_transfer_signed generics=P:~VxKeyed,~A:~VxKeyed,~L:~VxKeyed addparam=led:~&mut~VxLedger
    ensures final(led).sol == old(led).sol, r is Ok ==> final(led).tok@ == paid(old(led).tok@, from.k(), to.k(), amount as int, authority.k(), Some((seeds.key, seeds.bump)))
//@type &[&[u8]] => VxSeeds
//@endfn
//@fn token_utils.rs system_program_transfer as=vx_system_transfer generics=S:~VxKeyed,~A:~VxKeyed,~L:~VxKeyed addparam=led:~&mut~VxLedger
    ensures final(led).tok == old(led).tok, r is Ok ==> final(led).sol@ == paid(old(led).sol@, from.k(), to.k(), amount as int, from.k(), None)
//@endfn
}
fn main() {}
