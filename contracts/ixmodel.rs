// ---- how handlers reach their accounts (R13): a loaded account is a borrow of its contents ------
//@rw $x.load_mut()? => &mut $x.data
//@rw $x.load_init()? => &mut $x.data
//@rw $x.load()? => &$x.data
//@rw drop($x) => ()
//@rw ctx.bumps.$f => vx_bump()
#[verifier::external_body]
pub fn vx_bump() -> (r: u8) { unimplemented!() }
pub struct Clock { pub slot: u64, pub unix_timestamp: i64 }
// the clock does not move during a transaction
pub uninterp spec fn the_clock() -> Clock;
pub fn vx_clock() -> (r: Result<Clock>) ensures r is Ok ==> r->Ok_0 == the_clock() { vx_clock0() }
#[verifier::external_body]
pub fn vx_clock0() -> (r: Result<Clock>) ensures r is Ok ==> r->Ok_0 == the_clock() { unimplemented!() }
//@rw Clock::get() => vx_clock()
// names
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn vx_bytes<'a>(s: &'a str) -> (r: &'a [u8]) ensures r@ == utf8(s@) { unimplemented!() }
