// ------------------------------------- vectors of AVX2, lane by lane (assumed)
/// Eight numbers of single precision. A lane has a value and bits; the lanes of results of arithmetic have the bits of their value.
#[allow(non_camel_case_types)]
#[verifier::external_body]
pub struct __m256 { v: [f32; 8] }
impl Clone for __m256 { #[verifier::external_body] fn clone(&self) -> (r: __m256) ensures r == *self { *self } }
impl Copy for __m256 {}
impl __m256 {
    pub uninterp spec fn f(self, i: int) -> real;
    pub uninterp spec fn b(self, i: int) -> u32;
    /// the bits are those of the values
    pub open spec fn plain(self) -> bool { forall|i: int| 0 <= i < 8 ==> #[trigger] self.b(i) == u_bits(self.f(i)) }
}
/// eight integers
#[allow(non_camel_case_types)]
#[verifier::external_body]
pub struct __m256i { v: [u32; 8] }
impl Clone for __m256i { #[verifier::external_body] fn clone(&self) -> (r: __m256i) ensures r == *self { *self } }
impl Copy for __m256i {}
impl __m256i { pub uninterp spec fn i(self, i: int) -> u32; }
/// sixteen bytes
#[allow(non_camel_case_types)]
#[verifier::external_body]
pub struct __m128i { v: [u8; 16] }
impl Clone for __m128i { #[verifier::external_body] fn clone(&self) -> (r: __m128i) ensures r == *self { *self } }
impl Copy for __m128i {}
impl __m128i {
    pub uninterp spec fn at(self, i: int) -> u8;
    pub open spec fn at16(self, i: int) -> int { self.at(2 * i) + 256 * self.at(2 * i + 1) }
}
/// a pointer to the first of these bytes
#[verifier::external_body]
pub struct VxPtr { v: u8 }
impl VxPtr { pub uninterp spec fn bytes(self) -> Seq<u8>; }
pub trait VxBytes { spec fn bytes_of(&self) -> Seq<u8>; fn vx_bytes(&self) -> (r: VxPtr) ensures r.bytes() == self.bytes_of(); }
pub open spec fn bytes_u8(s: Seq<u8>) -> Seq<u8> { s }
pub open spec fn bytes_u16(s: Seq<u16>) -> Seq<u8> { Seq::new(2 * s.len(), |i: int| if i % 2 == 0 { (s[i / 2] % 256) as u8 } else { (s[i / 2] / 256) as u8 }) }
impl VxBytes for [u8] { open spec fn bytes_of(&self) -> Seq<u8> { bytes_u8(self@) } #[verifier::external_body] fn vx_bytes(&self) -> (r: VxPtr) { unimplemented!() } }
impl VxBytes for [u16] { open spec fn bytes_of(&self) -> Seq<u8> { bytes_u16(self@) } #[verifier::external_body] fn vx_bytes(&self) -> (r: VxPtr) { unimplemented!() } }
/// byte i of an i32 in memory
pub uninterp spec fn i32_byte(x: i32, i: int) -> u8;
/// reads only what is there
#[verifier::external_body]
pub fn vx_read_i32(p: VxPtr) -> (r: i32)
    requires p.bytes().len() >= 4
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] i32_byte(r, i) == p.bytes()[i]
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_loadl_epi64(p: VxPtr) -> (r: __m128i)
    requires p.bytes().len() >= 8
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] r.at(i) == (if i < 8 { p.bytes()[i] } else { 0 })
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_loadu_si128(p: VxPtr) -> (r: __m128i)
    requires p.bytes().len() >= 16
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] r.at(i) == p.bytes()[i]
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_cvtsi32_si128(x: i32) -> (r: __m128i)
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] r.at(i) == (if i < 4 { i32_byte(x, i) } else { 0 })
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_unpacklo_epi8(a: __m128i, b: __m128i) -> (r: __m128i)
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] r.at(i) == (if i % 2 == 0 { a.at(i / 2) } else { b.at(i / 2) })
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_unpacklo_epi16(a: __m128i, b: __m128i) -> (r: __m128i)
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] r.at(i) == (if (i / 2) % 2 == 0 { a.at(2 * (i / 4) + i % 2) } else { b.at(2 * (i / 4) + i % 2) })
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_cvtepu8_epi32(a: __m128i) -> (r: __m256i) ensures forall|i: int| 0 <= i < 8 ==> (#[trigger] r.i(i)) as int == a.at(i) as int { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_cvtepu16_epi32(a: __m128i) -> (r: __m256i) ensures forall|i: int| 0 <= i < 8 ==> (#[trigger] r.i(i)) as int == a.at16(i) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_cvtepi32_ps(a: __m256i) -> (r: __m256) ensures r.plain(), forall|i: int| 0 <= i < 8 && a.i(i) <= 0x7fffffff ==> #[trigger] r.f(i) == a.i(i) as real { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_set1_ps(x: Fl) -> (r: __m256) ensures r.plain(), forall|i: int| 0 <= i < 8 ==> #[trigger] r.f(i) == x@ { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_setr_ps(a: Fl, b: Fl, c: Fl, d: Fl, e: Fl, f: Fl, g: Fl, h: Fl) -> (r: __m256)
    ensures r.plain(), r.f(0) == a@, r.f(1) == b@, r.f(2) == c@, r.f(3) == d@, r.f(4) == e@, r.f(5) == f@, r.f(6) == g@, r.f(7) == h@
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_set1_epi32(x: i32) -> (r: __m256i) ensures forall|i: int| 0 <= i < 8 ==> #[trigger] r.i(i) == x as u32 { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_add_ps(a: __m256, b: __m256) -> (r: __m256) ensures r.plain(), forall|i: int| 0 <= i < 8 ==> #[trigger] r.f(i) == a.f(i) + b.f(i) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_sub_ps(a: __m256, b: __m256) -> (r: __m256) ensures r.plain(), forall|i: int| 0 <= i < 8 ==> #[trigger] r.f(i) == a.f(i) - b.f(i) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_mul_ps(a: __m256, b: __m256) -> (r: __m256) ensures r.plain(), forall|i: int| 0 <= i < 8 ==> #[trigger] r.f(i) == a.f(i) * b.f(i) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_and_ps(a: __m256, b: __m256) -> (r: __m256) ensures forall|i: int| 0 <= i < 8 ==> #[trigger] r.b(i) == a.b(i) & b.b(i) && r.f(i) == u_val(r.b(i)) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_or_ps(a: __m256, b: __m256) -> (r: __m256) ensures forall|i: int| #![trigger r.b(i)] #![trigger r.f(i)] 0 <= i < 8 ==> r.b(i) == a.b(i) | b.b(i) && r.f(i) == u_val(r.b(i)) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_castps_si256(a: __m256) -> (r: __m256i) ensures forall|i: int| 0 <= i < 8 ==> #[trigger] r.i(i) == a.b(i) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_castsi256_ps(a: __m256i) -> (r: __m256) ensures forall|i: int| 0 <= i < 8 ==> #[trigger] r.b(i) == a.i(i) && r.f(i) == u_val(r.b(i)) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_srli_epi32(a: __m256i, n: i32) -> (r: __m256i) requires 0 <= n < 32 ensures forall|i: int| 0 <= i < 8 ==> #[trigger] r.i(i) == a.i(i) >> (n as u32) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_slli_epi32(a: __m256i, n: i32) -> (r: __m256i) requires 0 <= n < 32 ensures forall|i: int| 0 <= i < 8 ==> #[trigger] r.i(i) == a.i(i) << (n as u32) { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_add_epi32(a: __m256i, b: __m256i) -> (r: __m256i) ensures forall|i: int| 0 <= i < 8 ==> (#[trigger] r.i(i)) as int == (a.i(i) + b.i(i)) % 0x1_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn _mm256_permutevar8x32_ps(a: __m256, n: __m256i) -> (r: __m256)
    ensures forall|i: int| #![trigger r.b(i)] #![trigger r.f(i)] 0 <= i < 8 ==> r.b(i) == a.b(n.i(i) as int % 8) && r.f(i) == a.f(n.i(i) as int % 8)
{ unimplemented!() }
/// the sign of the mask selects
#[verifier::external_body]
pub fn _mm256_blendv_ps(a: __m256, b: __m256, m: __m256) -> (r: __m256)
    ensures forall|i: int| #![trigger r.b(i)] #![trigger r.f(i)] 0 <= i < 8 ==> r.b(i) == (if m.b(i) >= 0x80000000 { b.b(i) } else { a.b(i) }) && r.f(i) == (if m.b(i) >= 0x80000000 { b.f(i) } else { a.f(i) })
{ unimplemented!() }
pub const _CMP_EQ_OQ: i32 = 0;
pub const _CMP_LT_OS: i32 = 1;
pub const _CMP_LE_OS: i32 = 2;
pub const _CMP_GE_OS: i32 = 13;
pub const _CMP_GT_OS: i32 = 14;
pub open spec fn cmp_is(op: i32, x: real, y: real) -> bool {
    (op == 0 && x == y) || (op == 1 && x < y) || (op == 2 && x <= y) || (op == 13 && x >= y) || (op == 14 && x > y)
}
#[verifier::external_body]
pub fn _mm256_cmp_ps(a: __m256, b: __m256, op: i32) -> (r: __m256)
    requires op == 0 || op == 1 || op == 2 || op == 13 || op == 14
    ensures forall|i: int| 0 <= i < 8 ==> #[trigger] r.b(i) == (if cmp_is(op, a.f(i), b.f(i)) { 0xffffffffu32 } else { 0u32 })
{ unimplemented!() }
/// the lanes as an array
#[verifier::external_body]
pub fn vx_transmute(a: __m256) -> (r: [Fl; 8]) ensures forall|i: int| 0 <= i < 8 ==> (#[trigger] r@[i])@ == a.f(i) { unimplemented!() }
// ----------------------------------------------------- lanes of the powers
/// the entries of the tables that belong to a number
pub proof fn lane_bits(b: u32, lo: int, hi: int, k: i32)
    requires bits_normal(b), lo <= bits_exp(b) < hi, -10 <= lo <= 0 <= hi <= 10, k as int == -127 - lo
    ensures
        ((b >> 23) + k as u32) as int % 0x1_0000_0000 == bits_exp(b) - lo,
        (b >> 20) as int % 8 == frac3(b),
        u_val((b & 0x807fffffu32) | 0x3f800000u32) == 1real + bits_man(b),
{
    bits_parts(b); around_bits(b); ax_val((b & 0x807fffffu32) | 0x3f800000u32);
    assert((b >> 20) & 7 == (b >> 20) % 8) by(bit_vector);
    assert(k as u32 as int == 0x1_0000_0000 + k) by { assert(k < 0 ==> k as u32 as int == 0x1_0000_0000 + k) by(bit_vector); }
}
pub proof fn masks() ensures 0x807fffffu32 as i32 as u32 == 0x807fffffu32, 0x3f800000i32 as u32 == 0x3f800000u32
{ assert(0x807fffffu32 as i32 as u32 == 0x807fffffu32) by(bit_vector); }
/// the sign of the index times 2^28
pub proof fn high_half(n: u32) requires n < 16 ensures ((n << 28) >= 0x80000000) == (n >= 8)
{ assert(((n << 28) >= 0x80000000) == (n >= 8)) by(bit_vector) requires n < 16; }
pub open spec fn table(t: __m256, f: spec_fn(int) -> real) -> bool { forall|j: int| 0 <= j < 8 ==> #[trigger] t.f(j) == f(j) }
/// the series as the lanes compute them
pub proof fn series_lanes(t: real)
    ensures
        est24(t) == 7real / 125real + t * (-36real / 125real) + t * t * (126real / 125real) + t * t * t * (28real / 125real),
        est13(t) == 40real / 81real + t * (60real / 81real) + t * t * (-24real / 81real) + t * t * t * (5real / 81real),
{
    series(t);
    assert(t * (-36real / 125real) == -(36real / 125real) * t) by(nonlinear_arith);
    assert(t * t * (126real / 125real) == (126real / 125real) * (t * t)) by(nonlinear_arith);
    assert(t * t * t * (28real / 125real) == (28real / 125real) * (t * t * t)) by(nonlinear_arith);
    assert(t * (60real / 81real) == (60real / 81real) * t) by(nonlinear_arith);
    assert(t * t * (-24real / 81real) == -(24real / 81real) * (t * t)) by(nonlinear_arith);
    assert(t * t * t * (5real / 81real) == (5real / 81real) * (t * t * t)) by(nonlinear_arith);
    assert(est24(t) == 7real / 125real - (36real / 125real) * t + (126real / 125real) * (t * t) + (28real / 125real) * (t * t * t));
    assert(-(36real / 125real) * t == -((36real / 125real) * t)) by(nonlinear_arith);
    assert(-(24real / 81real) * (t * t) == -((24real / 81real) * (t * t))) by(nonlinear_arith);
}
