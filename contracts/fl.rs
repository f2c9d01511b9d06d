// -------------------------------------- floating point numbers, as reals
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
/// f32 and f64: the value is a real number, the operations are exact.
#[verifier::external_body]
pub struct Fl { v: f64 }
impl Clone for Fl { #[verifier::external_body] fn clone(&self) -> (r: Fl) ensures r == *self { *self } }
impl Copy for Fl {}
impl Fl { pub uninterp spec fn view(self) -> real; }
pub uninterp spec fn from_real(r: real) -> Fl;
pub broadcast axiom fn ax_fr(r: real) ensures #[trigger] from_real(r)@ == r;
pub broadcast axiom fn ax_ext(a: Fl) ensures from_real(#[trigger] a@) == a;
pub broadcast group fl { ax_fr, ax_ext }
impl AddSpecImpl<Fl> for Fl {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Fl) -> bool { true }
    open spec fn add_spec(self, o: Fl) -> Fl { from_real(self@ + o@) }
}
impl core::ops::Add for Fl { type Output = Fl; #[verifier::external_body] fn add(self, o: Fl) -> Fl { Fl { v: self.v + o.v } } }
impl SubSpecImpl<Fl> for Fl {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Fl) -> bool { true }
    open spec fn sub_spec(self, o: Fl) -> Fl { from_real(self@ - o@) }
}
impl core::ops::Sub for Fl { type Output = Fl; #[verifier::external_body] fn sub(self, o: Fl) -> Fl { Fl { v: self.v - o.v } } }
impl MulSpecImpl<Fl> for Fl {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Fl) -> bool { true }
    open spec fn mul_spec(self, o: Fl) -> Fl { from_real(self@ * o@) }
}
impl core::ops::Mul for Fl { type Output = Fl; #[verifier::external_body] fn mul(self, o: Fl) -> Fl { Fl { v: self.v * o.v } } }
impl DivSpecImpl<Fl> for Fl {
    open spec fn obeys_div_spec() -> bool { true }
    /// no division by zero
    open spec fn div_req(self, o: Fl) -> bool { o@ != 0real }
    open spec fn div_spec(self, o: Fl) -> Fl { from_real(self@ / o@) }
}
impl core::ops::Div for Fl { type Output = Fl; #[verifier::external_body] fn div(self, o: Fl) -> Fl { Fl { v: self.v / o.v } } }
impl NegSpecImpl for Fl {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Fl { from_real(-self@) }
}
impl core::ops::Neg for Fl { type Output = Fl; #[verifier::external_body] fn neg(self) -> Fl { Fl { v: -self.v } } }
impl AddAssignSpecImpl<Fl> for Fl {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: Fl) -> bool { true }
    open spec fn add_assign_spec(&self, o: Fl) -> &Fl { &from_real(self@ + o@) }
}
impl core::ops::AddAssign for Fl { #[verifier::external_body] fn add_assign(&mut self, o: Fl) { self.v += o.v } }
impl SubAssignSpecImpl<Fl> for Fl {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, o: Fl) -> bool { true }
    open spec fn sub_assign_spec(&self, o: Fl) -> &Fl { &from_real(self@ - o@) }
}
impl core::ops::SubAssign for Fl { #[verifier::external_body] fn sub_assign(&mut self, o: Fl) { self.v -= o.v } }
impl MulAssignSpecImpl<Fl> for Fl {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, o: Fl) -> bool { true }
    open spec fn mul_assign_spec(&self, o: Fl) -> &Fl { &from_real(self@ * o@) }
}
impl core::ops::MulAssign for Fl { #[verifier::external_body] fn mul_assign(&mut self, o: Fl) { self.v *= o.v } }
impl DivAssignSpecImpl<Fl> for Fl {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, o: Fl) -> bool { o@ != 0real }
    open spec fn div_assign_spec(&self, o: Fl) -> &Fl { &from_real(self@ / o@) }
}
impl core::ops::DivAssign for Fl { #[verifier::external_body] fn div_assign(&mut self, o: Fl) { self.v /= o.v } }
pub open spec fn cmp_real(a: real, b: real) -> Option<Ordering> {
    if a < b { Some(Ordering::Less) } else if a > b { Some(Ordering::Greater) } else { Some(Ordering::Equal) }
}
impl PartialEqSpecImpl<Fl> for Fl {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Fl) -> bool { self@ == o@ }
}
impl PartialEq for Fl { #[verifier::external_body] fn eq(&self, o: &Fl) -> bool { self.v == o.v } }
impl PartialOrdSpecImpl<Fl> for Fl {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Fl) -> Option<Ordering> { cmp_real(self@, o@) }
}
impl PartialOrd for Fl { #[verifier::external_body] fn partial_cmp(&self, o: &Fl) -> Option<Ordering> { self.v.partial_cmp(&o.v) } }

pub open spec fn rmin(a: real, b: real) -> real { if a <= b { a } else { b } }
pub open spec fn rmax(a: real, b: real) -> real { if a >= b { a } else { b } }
pub uninterp spec fn r_log10(x: real) -> real;
/// the largest integer that is not above x
pub uninterp spec fn r_floor(x: real) -> int;
pub axiom fn ax_floor(x: real) ensures r_floor(x) as real <= x, x < r_floor(x) as real + 1real;
pub uninterp spec fn r_log(x: real, b: real) -> real;
pub uninterp spec fn r_sqrt(x: real) -> real;
pub uninterp spec fn r_pow(x: real, y: real) -> real;
pub uninterp spec fn r_sin(x: real) -> real;
pub uninterp spec fn r_cos(x: real) -> real;
pub uninterp spec fn r_atan2(y: real, x: real) -> real;
pub uninterp spec fn r_pi() -> real;
pub uninterp spec fn r_e() -> real;
pub axiom fn ax_pi() ensures 3.14159real < r_pi() < 3.1416real;
pub axiom fn ax_e() ensures 2.71828real < r_e() < 2.71829real;
pub broadcast axiom fn ax_log_mul(a: real, b: real) requires a > 0real, b > 0real ensures #[trigger] r_log10(a * b) == r_log10(a) + r_log10(b);
pub broadcast axiom fn ax_log_div(a: real, b: real) requires a > 0real, b > 0real ensures #[trigger] r_log10(a / b) == r_log10(a) - r_log10(b);
/// stands for the logarithm of 0
pub uninterp spec fn minus_infinity() -> real;
pub axiom fn ax_sqrt(x: real) requires x >= 0real ensures r_sqrt(x) >= 0real, r_sqrt(x) * r_sqrt(x) == x;
/// powers of e
pub axiom fn ax_exp(x: real, y: real) ensures r_pow(r_e(), x) > 0real, x <= y ==> r_pow(r_e(), x) <= r_pow(r_e(), y), r_pow(r_e(), 0real) == 1real;
/// logarithms to the base e
pub axiom fn ax_ln(x: real) requires x > 0real ensures x <= 1real ==> r_log(x, r_e()) <= 0real, x >= 1real ==> r_log(x, r_e()) >= 0real;
pub open spec fn r_powi(x: real, n: int) -> real decreases n { if n <= 0 { 1real } else { x * r_powi(x, n - 1) } }
#[verifier::external_body]
pub fn fl_pi() -> (r: Fl) ensures r@ == r_pi() { Fl { v: core::f64::consts::PI } }
#[verifier::external_body]
pub fn fl_e() -> (r: Fl) ensures r@ == r_e() { Fl { v: core::f64::consts::E } }
/// 2^-52
#[verifier::external_body]
pub fn fl_f64_epsilon() -> (r: Fl) ensures r@ == 1real / 4503599627370496real { Fl { v: f64::EPSILON } }
impl Fl {
    #[verifier::external_body]
    pub fn log10(self) -> (r: Fl) requires self@ > 0real ensures r@ == r_log10(self@) { Fl { v: self.v.log10() } }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: Fl) requires self@ >= 0real ensures r@ == r_sqrt(self@) { Fl { v: self.v.sqrt() } }
    #[verifier::external_body]
    pub fn powf(self, o: Fl) -> (r: Fl) requires self@ >= 0real ensures r@ == r_pow(self@, o@) { Fl { v: self.v.powf(o.v) } }
    #[verifier::external_body]
    pub fn powi(self, n: i32) -> (r: Fl) requires n >= 0 ensures r@ == r_powi(self@, n as int) { Fl { v: self.v.powi(n) } }
    #[verifier::external_body]
    pub fn sin(self) -> (r: Fl) ensures r@ == r_sin(self@) { Fl { v: self.v.sin() } }
    #[verifier::external_body]
    pub fn cos(self) -> (r: Fl) ensures r@ == r_cos(self@) { Fl { v: self.v.cos() } }
    #[verifier::external_body]
    pub fn exp(self) -> (r: Fl) ensures r@ == r_pow(r_e(), self@) { Fl { v: self.v.exp() } }
    #[verifier::external_body]
    pub fn atan2(self, o: Fl) -> (r: Fl) ensures r@ == r_atan2(self@, o@) { Fl { v: self.v.atan2(o.v) } }
    #[verifier::external_body]
    pub fn floor(self) -> (r: Fl) ensures r@ == r_floor(self@) as real { Fl { v: self.v.floor() } }
    #[verifier::external_body]
    pub fn ln(self) -> (r: Fl) requires self@ > 0real ensures r@ == r_log(self@, r_e()) { Fl { v: self.v.ln() } }
    // the twins for functions in which infinities and NaN are expected (%specials)
    #[verifier::external_body]
    pub fn log10_any(self) -> (r: Fl) ensures self@ > 0real ==> r@ == r_log10(self@), self@ == 0real ==> r@ == minus_infinity() { Fl { v: self.v.log10() } }
    #[verifier::external_body]
    pub fn sqrt_any(self) -> (r: Fl) ensures self@ >= 0real ==> r@ == r_sqrt(self@) { Fl { v: self.v.sqrt() } }
    #[verifier::external_body]
    pub fn log_any(self, b: Fl) -> (r: Fl) ensures self@ > 0real && b@ > 1real ==> r@ == r_log(self@, b@) { Fl { v: self.v.log(b.v) } }
    #[verifier::external_body]
    pub fn ln_any(self) -> (r: Fl) ensures self@ > 0real ==> r@ == r_log(self@, r_e()) { Fl { v: self.v.ln() } }
    #[verifier::external_body]
    pub fn powf_any(self, o: Fl) -> (r: Fl) ensures r@ == r_pow(self@, o@) { Fl { v: self.v.powf(o.v) } }
    /// the logarithm of a positive number
    #[verifier::external_body]
    pub fn log(self, b: Fl) -> (r: Fl) requires self@ > 0real, b@ > 1real ensures r@ == r_log(self@, b@) { Fl { v: self.v.log(b.v) } }
    #[verifier::external_body]
    pub fn abs(self) -> (r: Fl) ensures r@ == (if self@ < 0real { -self@ } else { self@ }) { Fl { v: self.v.abs() } }
    #[verifier::external_body]
    pub fn min(self, o: Fl) -> (r: Fl) ensures r@ == rmin(self@, o@) { Fl { v: self.v.min(o.v) } }
    #[verifier::external_body]
    pub fn max(self, o: Fl) -> (r: Fl) ensures r@ == rmax(self@, o@) { Fl { v: self.v.max(o.v) } }
}
/// `x as f64` and `x as f32`
pub trait ToFl { spec fn fl_spec(self) -> real; fn fl_exec(self) -> (r: Fl) ensures r@ == self.fl_spec(); }
impl ToFl for usize { open spec fn fl_spec(self) -> real { self as real } #[verifier::external_body] fn fl_exec(self) -> (r: Fl) { Fl { v: self as f64 } } }
impl ToFl for u64 { open spec fn fl_spec(self) -> real { self as real } #[verifier::external_body] fn fl_exec(self) -> (r: Fl) { Fl { v: self as f64 } } }
impl ToFl for u32 { open spec fn fl_spec(self) -> real { self as real } #[verifier::external_body] fn fl_exec(self) -> (r: Fl) { Fl { v: self as f64 } } }
impl ToFl for u16 { open spec fn fl_spec(self) -> real { self as real } #[verifier::external_body] fn fl_exec(self) -> (r: Fl) { Fl { v: self as f64 } } }
impl ToFl for u8 { open spec fn fl_spec(self) -> real { self as real } #[verifier::external_body] fn fl_exec(self) -> (r: Fl) { Fl { v: self as f64 } } }
impl ToFl for i32 { open spec fn fl_spec(self) -> real { self as real } #[verifier::external_body] fn fl_exec(self) -> (r: Fl) { Fl { v: self as f64 } } }
impl ToFl for i64 { open spec fn fl_spec(self) -> real { self as real } #[verifier::external_body] fn fl_exec(self) -> (r: Fl) { Fl { v: self as f64 } } }
impl ToFl for i16 { open spec fn fl_spec(self) -> real { self as real } #[verifier::external_body] fn fl_exec(self) -> (r: Fl) { Fl { v: self as f64 } } }
impl ToFl for Fl { open spec fn fl_spec(self) -> real { self@ } #[verifier::external_body] fn fl_exec(self) -> (r: Fl) { self } }
pub fn to_fl<T: ToFl>(x: T) -> (r: Fl) ensures r@ == x.fl_spec() { x.fl_exec() }
/// a quotient that may be infinite or not a number
#[verifier::external_body]
pub fn fl_div_any(a: Fl, b: Fl) -> (r: Fl) ensures b@ != 0real ==> r@ == a@ / b@ { Fl { v: a.v / b.v } }
/// `x as usize`: cut off to the range, rounded towards 0
#[verifier::external_body]
pub fn fl_to_usize(x: Fl) -> (r: usize)
    ensures 0real <= x@ && x@ < 18446744073709551616real ==> r == r_floor(x@), x@ < 0real ==> r == 0, x@ >= 18446744073709551616real ==> r == usize::MAX
{ x.v as usize }
/// `x as i64`
#[verifier::external_body]
pub fn fl_to_i64(x: Fl) -> (r: i64)
    ensures 0real <= x@ && x@ < 9223372036854775808real ==> r == r_floor(x@), -9223372036854775808real < x@ && x@ < 0real ==> r == -r_floor(-x@)
{ x.v as i64 }
