// ---- abort-mode arithmetic: an overflow aborts the transaction ------------------------------
pub trait VxInt: Sized {
    spec fn v(self) -> int;
    spec fn fits(i: int) -> bool;
    proof fn fits_v(self) ensures Self::fits(self.v());
    fn vadd(self, o: Self) -> (r: Self) ensures r.v() == self.v() + o.v(), Self::fits(r.v());
    fn vsub(self, o: Self) -> (r: Self) ensures r.v() == self.v() - o.v(), Self::fits(r.v());
    fn vmul(self, o: Self) -> (r: Self) ensures r.v() == self.v() * o.v(), Self::fits(r.v());
    fn vdiv(self, o: Self) -> (r: Self) ensures o.v() != 0, r.v() == vx_tdiv(self.v(), o.v()), Self::fits(r.v());
    fn vrem(self, o: Self) -> (r: Self) ensures o.v() != 0, r.v() == vx_trem(self.v(), o.v()), Self::fits(r.v());
}
// truncating division, as in Rust
pub open spec fn vx_tdiv(a: int, b: int) -> int {
    if b > 0 { if a >= 0 { a / b } else { -((-a) / b) } } else { if a >= 0 { -(a / (-b)) } else { (-a) / (-b) } }
}
pub open spec fn vx_trem(a: int, b: int) -> int { a - b * vx_tdiv(a, b) }

macro_rules! vxint { ($($t:ty),*) => { $( verus!{
impl VxInt for $t {
    open spec fn v(self) -> int { self as int }
    open spec fn fits(i: int) -> bool { <$t>::MIN <= i <= <$t>::MAX }
    proof fn fits_v(self) {}
    #[verifier::external_body]
    fn vadd(self, o: Self) -> (r: Self) { self + o }
    #[verifier::external_body]
    fn vsub(self, o: Self) -> (r: Self) { self - o }
    #[verifier::external_body]
    fn vmul(self, o: Self) -> (r: Self) { self * o }
    #[verifier::external_body]
    fn vdiv(self, o: Self) -> (r: Self) { self / o }
    #[verifier::external_body]
    fn vrem(self, o: Self) -> (r: Self) { self % o }
}
})* } }
vxint!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128);

pub fn vx_add<T: VxInt>(a: T, b: T) -> (r: T) ensures r.v() == a.v() + b.v(), T::fits(r.v()) { a.vadd(b) }
pub fn vx_sub<T: VxInt>(a: T, b: T) -> (r: T) ensures r.v() == a.v() - b.v(), T::fits(r.v()) { a.vsub(b) }
pub fn vx_mul<T: VxInt>(a: T, b: T) -> (r: T) ensures r.v() == a.v() * b.v(), T::fits(r.v()) { a.vmul(b) }
pub fn vx_div<T: VxInt>(a: T, b: T) -> (r: T) ensures b.v() != 0, r.v() == vx_tdiv(a.v(), b.v()), T::fits(r.v()) { a.vdiv(b) }
pub fn vx_rem<T: VxInt>(a: T, b: T) -> (r: T) ensures b.v() != 0, r.v() == vx_trem(a.v(), b.v()), T::fits(r.v()) { a.vrem(b) }

// `x as T` : exact when the value fits, otherwise unspecified (so nothing is concluded from a wrap).
pub trait VxCast { spec fn cv(self) -> int; }
macro_rules! vxcast { ($($t:ty),*) => { $( verus!{
impl VxCast for $t { open spec fn cv(self) -> int { self as int } }
})* } }
vxcast!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128);
impl VxCast for bool { open spec fn cv(self) -> int { if self { 1 } else { 0 } } }
#[verifier::external_body]
pub fn vx_as<S: VxCast, T: VxInt>(x: S) -> (r: T) ensures T::fits(x.cv()) ==> r.v() == x.cv() { unimplemented!() }

pub trait VxUnwrap { type Out; spec fn some_v(self) -> bool; spec fn un_v(self) -> Self::Out;
    fn vx_unwrap(self) -> (r: Self::Out) ensures self.some_v(), r == self.un_v(); }
impl<T> VxUnwrap for Option<T> { type Out = T;
    open spec fn some_v(self) -> bool { self is Some }
    open spec fn un_v(self) -> T { self->0 }
    #[verifier::external_body]
    fn vx_unwrap(self) -> (r: T) { unimplemented!() } }
impl<T, E> VxUnwrap for core::result::Result<T, E> { type Out = T;
    open spec fn some_v(self) -> bool { self is Ok }
    open spec fn un_v(self) -> T { self->Ok_0 }
    #[verifier::external_body]
    fn vx_unwrap(self) -> (r: T) { unimplemented!() } }


// integer conversions that abort when the value does not fit
impl<S: VxInt, T: VxInt> VxConvTo<T> for S {
    open spec fn conv_ok(self, r: T) -> bool { r.v() == self.v() && T::fits(r.v()) }
    #[verifier::external_body]
    fn vconv(self) -> (r: T) { unimplemented!() }
}
pub fn vx_conv<S: VxConvTo<T>, T>(x: S) -> (r: T) ensures x.conv_ok(r) { x.vconv() }
//@rw $x.try_into().unwrap() => vx_conv($x)
//@rw i128::from($x) => vx_conv::<_, i128>($x)
//@rw u128::from($x) => vx_conv::<_, u128>($x)
#[verifier::external_body]
pub fn vx_abs<T: VxInt>(x: T) -> (r: T) ensures r.v() == (if x.v() < 0 { -x.v() } else { x.v() }), T::fits(r.v()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_neg<T: VxInt>(x: T) -> (r: T) ensures r.v() == -x.v(), T::fits(r.v()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_positive<T: VxInt>(x: T) -> (r: bool) ensures r == (x.v() > 0) { unimplemented!() }
#[verifier::external_body]
pub fn vx_negative<T: VxInt>(x: T) -> (r: bool) ensures r == (x.v() < 0) { unimplemented!() }
#[verifier::external_body]
pub fn vx_min<T: VxInt>(a: T, b: T) -> (r: T) ensures r == (if a.v() <= b.v() { a } else { b }), T::fits(r.v()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_max<T: VxInt>(a: T, b: T) -> (r: T) ensures r == (if b.v() >= a.v() { b } else { a }), T::fits(r.v()) { unimplemented!() }
//@rw $x.abs() => vx_abs($x)
//@rw $x.is_positive() => vx_positive($x)
//@rw $x.is_negative() => vx_negative($x)
//@rw std::cmp::min($a, $b) => vx_min($a, $b)
//@rw std::cmp::max($a, $b) => vx_max($a, $b)
//@rw cmp::min($a, $b) => vx_min($a, $b)
//@rw $a.min($b) => vx_min($a, $b)
//@rw $a.max($b) => vx_max($a, $b)
// an index out of bounds aborts
#[verifier::external_body]
pub fn vx_ix(i: usize, n: usize) -> (r: usize) ensures r == i, i < n { unimplemented!() }
