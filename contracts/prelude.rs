#![allow(unused, dead_code, non_snake_case, unused_parens, unused_braces, unreachable_code, path_statements)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
verus! {

// ---- prelude: error values, aborts, and the arithmetic of a build with overflow checks ----------
//@item error.rs OpenBookError copy eq
pub struct VxTryErr {}
impl core::fmt::Debug for VxTryErr {
    #[verifier::external_body]
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() }
}
pub struct Error { pub code: u32 }
impl core::fmt::Debug for Error {
    #[verifier::external_body]
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;

pub open spec fn errcode(e: OpenBookError) -> u32 { (6000 + e.disc()) as u32 }
#[verifier::external_body]
pub fn vx_err(e: OpenBookError) -> (r: Error) ensures r.code == errcode(e) { unimplemented!() }
#[verifier::external_body]
pub fn vx_err_unspecified() -> (r: Error) { unimplemented!() }
impl From<OpenBookError> for Error {
    fn from(e: OpenBookError) -> (r: Error) { vx_err(e) }
}
impl FromSpecImpl<OpenBookError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: OpenBookError) -> Error { Error { code: errcode(e) } }
}

// An assertion or panic aborts the transaction: nothing after it is reached.
#[verifier::external_body]
pub fn vx_assert(c: bool) ensures c { unimplemented!() }
#[verifier::external_body]
pub fn vx_abort<T>() -> (r: T) ensures false { unimplemented!() }
// In prove mode it is an obligation.
pub fn vx_require(c: bool) requires c { }
#[verifier::external_body]
pub fn vx_unreachable<T>() -> (r: T) requires false { unimplemented!() }

// `Default::default()` of padding fields: an arbitrary value of the type.
#[verifier::external_body]
pub fn vx_default<T>() -> (r: T) { unimplemented!() }
//@rw Default::default() => vx_default()
// A by-value copy out of a collection that is not read again.
#[verifier::external_body]
pub fn vx_copy<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }


// `x.try_into().unwrap()`: the value of the other type, or an abort
pub trait VxConvTo<T>: Sized {
    spec fn conv_ok(self, r: T) -> bool;
    fn vconv(self) -> (r: T) ensures self.conv_ok(r);
}
