// ---- floating point and fixed point numbers: the operations are functions of their operands, nothing more is assumed ----
pub uninterp spec fn fadd(a: VxF64, b: VxF64) -> VxF64;
pub uninterp spec fn fsub(a: VxF64, b: VxF64) -> VxF64;
pub uninterp spec fn fmul(a: VxF64, b: VxF64) -> VxF64;
pub uninterp spec fn fdiv(a: VxF64, b: VxF64) -> VxF64;
pub uninterp spec fn fpow(a: VxF64, n: int) -> VxF64;
pub uninterp spec fn fgt(a: VxF64, b: VxF64) -> bool;
pub uninterp spec fn fge(a: VxF64, b: VxF64) -> bool;
pub uninterp spec fn fnum(i: int) -> VxF64;
pub uninterp spec fn fwide(a: VxF32) -> VxF64;
#[verifier::external_body]
pub fn vf_add(a: VxF64, b: VxF64) -> (r: VxF64) ensures r == fadd(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn vf_sub(a: VxF64, b: VxF64) -> (r: VxF64) ensures r == fsub(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn vf_mul(a: VxF64, b: VxF64) -> (r: VxF64) ensures r == fmul(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn vf_div(a: VxF64, b: VxF64) -> (r: VxF64) ensures r == fdiv(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn vf_pow(a: VxF64, n: i32) -> (r: VxF64) ensures r == fpow(a, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vf_gt(a: VxF64, b: VxF64) -> (r: bool) ensures r == fgt(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn vf_ge(a: VxF64, b: VxF64) -> (r: bool) ensures r == fge(a, b) { unimplemented!() }
pub fn vf_lt(a: VxF64, b: VxF64) -> (r: bool) ensures r == fgt(b, a) { vf_gt(b, a) }
pub fn vf_le(a: VxF64, b: VxF64) -> (r: bool) ensures r == fge(b, a) { vf_ge(b, a) }
#[derive(Clone, Copy)]
pub struct VxF32 { pub bits: u32 }
#[verifier::external_body]
pub fn vf_wide(a: VxF32) -> (r: VxF64) ensures r == fwide(a) { unimplemented!() }
pub trait VxFNum { spec fn fv(self) -> VxF64; }
impl VxFNum for i64 { open spec fn fv(self) -> VxF64 { fnum(self as int) } }
impl VxFNum for u64 { open spec fn fv(self) -> VxF64 { fnum(self as int) } }
impl VxFNum for VxF32 { open spec fn fv(self) -> VxF64 { fwide(self) } }
#[verifier::external_body]
pub fn vf_num<T: VxFNum>(x: T) -> (r: VxF64) ensures r == x.fv() { unimplemented!() }
// fixed point
#[derive(Clone, Copy)]
pub struct I80F48 { pub bits: i128 }
pub uninterp spec fn fix_num(i: int) -> I80F48;
pub uninterp spec fn fix_float(x: VxF64) -> Option<I80F48>;
pub uninterp spec fn fix_mul(a: I80F48, b: I80F48) -> Option<I80F48>;
pub uninterp spec fn fix_div(a: I80F48, b: I80F48) -> Option<I80F48>;
pub uninterp spec fn fix_int(a: I80F48) -> Option<i64>;
#[verifier::external_body]
pub fn vq_num(i: i64) -> (r: I80F48) ensures r == fix_num(i as int) { unimplemented!() }
#[verifier::external_body]
pub fn vq_float(x: VxF64) -> (r: Option<I80F48>) ensures r == fix_float(x) { unimplemented!() }
#[verifier::external_body]
pub fn vq_mul(a: I80F48, b: I80F48) -> (r: Option<I80F48>) ensures r == fix_mul(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn vq_div(a: I80F48, b: I80F48) -> (r: Option<I80F48>) ensures r == fix_div(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn vq_int(a: I80F48) -> (r: Option<i64>) ensures r == fix_int(a) { unimplemented!() }
//@rw I80F48::from_num($x) => vq_num($x)
//@rw I80F48::checked_from_num($x) => vq_float($x)
//@rw $a.checked_mul($b) => vq_mul($a, $b)
//@rw $a.checked_div($b) => vq_div($a, $b)
//@rw $a.checked_to_num() => vq_int($a)
//@rw $a.powi($n) => vf_pow($a, $n)
