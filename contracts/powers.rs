// ------------------------------------------- powers, and the bits of an f32
pub open spec fn two_pow(k: int) -> real
    decreases (if k < 0 { -k } else { k })
{ if k == 0 { 1real } else if k > 0 { 2real * two_pow(k - 1) } else { two_pow(k + 1) / 2real } }
/// exponent and fraction of a positive normal number
pub open spec fn bits_exp(b: u32) -> int { b as int / 8388608 - 127 }
pub open spec fn bits_man(b: u32) -> real { (b as int % 8388608) as real / 8388608real }
pub open spec fn bits_normal(b: u32) -> bool { 8388608 <= b < 2139095040 }
pub open spec fn bits_val(b: u32) -> real { two_pow(bits_exp(b)) * (1real + bits_man(b)) }
/// b is x, cut off to single precision
pub open spec fn bits_of(x: real, b: u32) -> bool {
    bits_normal(b) && bits_val(b) <= x < two_pow(bits_exp(b)) * (1real + bits_man(b) + 1real / 8388608real)
}
pub open spec fn normal_range(x: real) -> bool { two_pow(-126) <= x < two_pow(127) }
/// the bits of a single precision number
pub uninterp spec fn u_bits(x: real) -> u32;
pub axiom fn ax_bits(x: real) requires normal_range(x) ensures bits_of(x, u_bits(x));
/// the number with these bits
pub uninterp spec fn u_val(b: u32) -> real;
pub axiom fn ax_val(b: u32) requires bits_normal(b) ensures u_val(b) == bits_val(b);
impl Fl {
    #[verifier::external_body]
    pub fn to_bits(self) -> (r: u32) ensures r == u_bits(self@) { (self.v as f32).to_bits() }
}
#[verifier::external_body]
pub fn fl_from_bits(b: u32) -> (r: Fl) ensures r@ == u_val(b) { Fl { v: f32::from_bits(b) as f64 } }

// facts about real powers
pub axiom fn ax_pow_pos(x: real, p: real) requires x > 0real ensures r_pow(x, p) > 0real;
pub axiom fn ax_pow_mul(x: real, y: real, p: real) requires x > 0real, y > 0real ensures r_pow(x * y, p) == r_pow(x, p) * r_pow(y, p);
pub axiom fn ax_pow_neg(x: real, p: real) requires x > 0real ensures r_pow(x, -p) == 1real / r_pow(x, p);
/// the n-th power of x^(m/n) is x^m
pub axiom fn ax_pow_root(x: real, m: int, n: int) requires x > 0real, m >= 0, n > 0 ensures r_powi(r_pow(x, m as real / n as real), n) == r_powi(x, m);

pub proof fn lemma_two_pow(k: int) ensures two_pow(k) > 0real, two_pow(k + 1) == 2real * two_pow(k)
    decreases (if k < 0 { -k } else { k })
{ if k > 0 { lemma_two_pow(k - 1); } else if k < 0 { lemma_two_pow(k + 1); } }
pub proof fn lemma_two_pow_mono(j: int, k: int) requires j <= k ensures two_pow(j) <= two_pow(k)
    decreases k - j
{ if j < k { lemma_two_pow_mono(j, k - 1); lemma_two_pow(k - 1); lemma_two_pow(k); } }
pub proof fn two_pow_values() ensures
    two_pow(-7) == 1real / 128real, two_pow(-4) == 1real / 16real, two_pow(0) == 1real, two_pow(4) == 16real, two_pow(9) == 512real,
{
    lemma_two_pow(0); lemma_two_pow(1); lemma_two_pow(2); lemma_two_pow(3); lemma_two_pow(4); lemma_two_pow(5); lemma_two_pow(6); lemma_two_pow(7); lemma_two_pow(8);
    lemma_two_pow(-1); lemma_two_pow(-2); lemma_two_pow(-3); lemma_two_pow(-4); lemma_two_pow(-5); lemma_two_pow(-6); lemma_two_pow(-7);
}
/// numbers between powers of two have exponents between
pub proof fn exp_range(x: real, b: u32, lo: int, hi: int)
    requires bits_of(x, b), two_pow(lo) <= x < two_pow(hi)
    ensures lo <= bits_exp(b) < hi
{
    let e = bits_exp(b);
    lemma_two_pow(e);
    let m = bits_man(b);
    let i = b as int % 8388608;
    assert(0 <= i <= 8388607);
    assert(0real <= m) by(nonlinear_arith) requires m == i as real / 8388608real, i >= 0;
    assert(m + 1real / 8388608real <= 1real) by(nonlinear_arith) requires m == i as real / 8388608real, i <= 8388607;
    let q = two_pow(e);
    assert(q * (1real + m + 1real / 8388608real) <= q * 2real) by(nonlinear_arith) requires q > 0real, m + 1real / 8388608real <= 1real;
    assert(q * (1real + m) >= q) by(nonlinear_arith) requires q > 0real, m >= 0real;
    if e < lo { lemma_two_pow_mono(e + 1, lo); }
    if e >= hi { lemma_two_pow_mono(hi, e); }
}
pub proof fn bits_parts(b: u32)
    requires bits_normal(b)
    ensures
        (b >> 23) as int == b as int / 8388608,
        (b >> 23) <= 254,
        ((b & 0x807fffffu32) | 0x3f800000u32) as int == 127 * 8388608 + b as int % 8388608,
        ((b >> 20) & 7) as int == (b as int % 8388608) / 1048576,
{
    assert(b >> 23 == b / 8388608) by(bit_vector);
    assert(b >> 23 <= 254) by(bit_vector) requires b < 2139095040;
    assert((b & 0x807fffffu32) | 0x3f800000u32 == 1065353216 + b % 8388608) by(bit_vector) requires b < 2139095040;
    assert((b >> 20) & 7 == (b % 8388608) / 1048576) by(bit_vector);
}
pub proof fn entry_bits(k: int, w: u32)
    requires -126 <= k <= 127, w as int == (k + 127) * 8388608
    ensures bits_normal(w), bits_val(w) == two_pow(k)
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(w as int, 8388608, k + 127, 0);
    assert(bits_man(w) == 0real);
    assert(two_pow(k) * 1real == two_pow(k));
}
pub proof fn shift_23(k: i32)
    requires 0 <= k <= 254
    ensures ((k << 23) as u32) as int == k * 8388608
{ assert(0 <= (k << 23) && (k << 23) == k * 8388608) by(bit_vector) requires 0 <= k <= 254; }

// ------------------------------------------------------------ accuracy
/// single precision, and the approximations of powers
pub open spec fn tol() -> real { 0.00001real }
pub open spec fn close(r: real, v: real) -> bool { v - tol() * v <= r <= v + tol() * v }
/// x without its exponent
pub proof fn around_bits(b: u32)
    requires bits_normal(b)
    ensures ({
        let w = (b & 0x807fffffu32) | 0x3f800000u32;
        bits_normal(w) && bits_val(w) == 1real + bits_man(b)
    })
{
    bits_parts(b);
    let w = (b & 0x807fffffu32) | 0x3f800000u32;
    let i = b as int % 8388608;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(w as int, 8388608, 127, i);
    assert(two_pow(0) * (1real + bits_man(b)) == 1real + bits_man(b)) by { lemma_two_pow(0); assert(two_pow(0) == 1real); }
}
