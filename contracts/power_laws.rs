// --------------------- the approximations of powers, for single numbers
pub open spec fn five(x: real) -> real { x * x * (x * x) * x }
pub open spec fn cube(x: real) -> real { x * x * x }
pub proof fn mul_le(a: real, b: real, c: real, d: real) requires 0real <= a <= b, 0real <= c <= d ensures 0real <= a * c <= b * d
{ assert(a * c <= b * c) by(nonlinear_arith) requires a <= b, c >= 0real; assert(b * c <= b * d) by(nonlinear_arith) requires c <= d, b >= 0real;
  assert(0real <= a * c) by(nonlinear_arith) requires a >= 0real, c >= 0real; }
pub proof fn mul_lt(a: real, b: real, c: real, d: real) requires 0real < a < b, 0real < c < d ensures 0real < a * c < b * d
{ assert(a * c < b * c) by(nonlinear_arith) requires a < b, c > 0real; assert(b * c < b * d) by(nonlinear_arith) requires c < d, b > 0real;
  assert(0real < a * c) by(nonlinear_arith) requires a > 0real, c > 0real; }
pub proof fn five_lt(a: real, b: real) requires 0real < a < b ensures 0real < five(a) < five(b)
{ mul_lt(a, b, a, b); mul_lt(a * a, b * b, a * a, b * b); mul_lt(a * a * (a * a), b * b * (b * b), a, b); }
pub proof fn cube_lt(a: real, b: real) requires 0real < a < b ensures 0real < cube(a) < cube(b)
{ mul_lt(a, b, a, b); mul_lt(a * a, b * b, a, b); }
pub proof fn five_scale(c: real, x: real) ensures five(c * x) == five(c) * five(x)
{ assert((c * x) * (c * x) * ((c * x) * (c * x)) * (c * x) == (c * c * (c * c) * c) * (x * x * (x * x) * x)) by(nonlinear_arith); }
pub proof fn cube_scale(c: real, x: real) ensures cube(c * x) == cube(c) * cube(x)
{ assert((c * x) * (c * x) * (c * x) == (c * c * c) * (x * x * x)) by(nonlinear_arith); }
/// a relative bound of the fifth powers is one of the numbers
pub proof fn root5(e: real, v: real)
    requires v > 0real, e > 0real, 0.99996real * five(v) <= five(e) <= 1.00004real * five(v)
    ensures close(e, v)
{
    let (lo, hi) = (1real - tol(), 1real + tol());
    five_scale(lo, v); five_scale(hi, v);
    assert(five(0.99999real) <= 0.99996real) by(compute);
    assert(five(1.00001real) >= 1.00004real) by(compute);
    if v * 1real > 0real { if v < 2real * v { five_lt(v, 2real * v); } }
    assert(five(lo) * five(v) <= 0.99996real * five(v)) by(nonlinear_arith) requires five(lo) <= 0.99996real, five(v) >= 0real;
    assert(five(hi) * five(v) >= 1.00004real * five(v)) by(nonlinear_arith) requires five(hi) >= 1.00004real, five(v) >= 0real;
    assert(lo * v > 0real) by(nonlinear_arith) requires lo > 0real, v > 0real;
    assert(hi * v > 0real) by(nonlinear_arith) requires hi > 0real, v > 0real;
    if e < lo * v { five_lt(e, lo * v); }
    if e > hi * v { five_lt(hi * v, e); }
    assert(lo * v == v - tol() * v) by(nonlinear_arith) requires lo == 1real - tol();
    assert(hi * v == v + tol() * v) by(nonlinear_arith) requires hi == 1real + tol();
}
pub proof fn root3(e: real, v: real)
    requires v > 0real, e > 0real, 0.99998real * cube(v) <= cube(e) <= 1.00002real * cube(v)
    ensures close(e, v)
{
    let (lo, hi) = (1real - tol(), 1real + tol());
    cube_scale(lo, v); cube_scale(hi, v);
    assert(cube(0.99999real) <= 0.99998real) by(compute);
    assert(cube(1.00001real) >= 1.00002real) by(compute);
    if v < 2real * v { cube_lt(v, 2real * v); }
    assert(cube(lo) * cube(v) <= 0.99998real * cube(v)) by(nonlinear_arith) requires cube(lo) <= 0.99998real, cube(v) >= 0real;
    assert(cube(hi) * cube(v) >= 1.00002real * cube(v)) by(nonlinear_arith) requires cube(hi) >= 1.00002real, cube(v) >= 0real;
    assert(lo * v > 0real) by(nonlinear_arith) requires lo > 0real, v > 0real;
    assert(hi * v > 0real) by(nonlinear_arith) requires hi > 0real, v > 0real;
    if e < lo * v { cube_lt(e, lo * v); }
    if e > hi * v { cube_lt(hi * v, e); }
    assert(lo * v == v - tol() * v) by(nonlinear_arith) requires lo == 1real - tol();
    assert(hi * v == v + tol() * v) by(nonlinear_arith) requires hi == 1real + tol();
}
/// the fraction, the reciprocal of its upper bits, and their product
pub open spec fn inv_entry(k: int) -> real { 1real / (1real + (k as real + 0.5real) / 8real) }
pub proof fn around_one(b: u32, k: int, g: real)
    requires bits_normal(b), k == (b as int % 8388608) / 1048576, 1real + bits_man(b) <= g < 1real + bits_man(b) + 1real / 8388608real
    ensures
        inv_entry(k) > 0real, 0 <= k <= 7,
        -1real / 16real <= (1real + bits_man(b)) * inv_entry(k) - 1real <= 1real / 16real,
        (1real + bits_man(b)) * inv_entry(k) <= g * inv_entry(k) <= (1real + bits_man(b)) * inv_entry(k) * (1real + 1real / 8388608real),
{
    let i = b as int % 8388608;
    let m = bits_man(b);
    assert(k * 1048576 <= i < (k + 1) * 1048576);
    assert(8real * m >= k as real && 8real * m <= k as real + 1real && 0real <= m) by(nonlinear_arith)
        requires m == i as real / 8388608real, k as real * 1048576real <= i as real, i as real <= (k as real + 1real) * 1048576real, k >= 0;
    let d = 1real + (k as real + 0.5real) / 8real;
    let inv = inv_entry(k);
    assert(inv * d == 1real && inv > 0real) by(nonlinear_arith) requires inv == 1real / d, d >= 1real;
    // (1 + m) within 1/16 of d, and d >= 17/16
    let f = 1real + m;
    assert(d - f <= 1real / 16real && f - d <= 1real / 16real);
    assert((f - d) * inv <= 1real / 16real && (f - d) * inv >= -1real / 16real) by(nonlinear_arith)
        requires d - f <= 1real / 16real, f - d <= 1real / 16real, inv * d == 1real, d >= 1real, inv > 0real;
    assert((f - d) * inv == f * inv - d * inv) by(nonlinear_arith);
    assert(f * inv <= g * inv) by(nonlinear_arith) requires f <= g, inv > 0real;
    let h = f * (1real + 1real / 8388608real);
    assert(h == f + f * (1real / 8388608real)) by(nonlinear_arith) requires h == f * (1real + 1real / 8388608real);
    assert(f * (1real / 8388608real) >= 1real / 8388608real) by(nonlinear_arith) requires f >= 1real;
    assert(g * inv <= h * inv) by(nonlinear_arith) requires g <= h, inv > 0real;
    assert(h * inv == f * inv * (1real + 1real / 8388608real)) by(nonlinear_arith) requires h == f * (1real + 1real / 8388608real);
}
pub open spec fn est24(t: real) -> real { 7real / 125real - 36real * t / 125real + 126real * (t * t) / 125real + 28real * (t * t * t) / 125real }
pub open spec fn est13(t: real) -> real { 40real / 81real + 60real * t / 81real - 24real * (t * t) / 81real + 5real * (t * t * t) / 81real }
pub proof fn spows3(s: real) ensures spows(s, 1) == s, spows(s, 2) == s * s, spows(s, 3) == s * s * s
{
    reveal_with_fuel(spows, 4);
    assert(s * (s * (s * 1real)) == s * s * s) by(nonlinear_arith);
    assert(s * (s * 1real) == s * s) by(nonlinear_arith);
}
pub proof fn expand_at_one(s: real, t: real) requires t == 1real + s
    ensures t * t == 1real + 2real * s + s * s, t * t * t == 1real + 3real * s + 3real * (s * s) + s * s * s
{
    assert(t * t == 1real + 2real * s + s * s) by(nonlinear_arith) requires t == 1real + s;
    assert((1real + s) * (1real + s) * (1real + s) == 1real + 3real * s + 3real * (s * s) + s * s * s) by(nonlinear_arith);
}
pub proof fn twelve(t: real, u: real)
    requires 15real / 16real <= t, t <= u <= t * (1real + 1real / 8388608real)
    ensures r_powi(t, 12) <= r_powi(u, 12) <= 1.000002real * r_powi(t, 12), r_powi(t, 12) >= 0.43real
{
    powi_chain_12(t); powi_chain_12(u);
    let w = t * (1real + 1real / 8388608real);
    let q = 1real + 1real / 8388608real;
    powi_chain_12(w); powi_chain_12(q); powi_chain_12(15real / 16real);
    pow12_mono(15real / 16real, t); pow12_mono(t, u); pow12_mono(u, w);
    pow12_scale(t, q);
    twelve_q(q); twelve_lo();
    assert(pow12(t) * pow12(q) <= 1.000002real * pow12(t)) by(nonlinear_arith) requires pow12(q) <= 1.000002real, pow12(t) >= 0real;
}
pub proof fn twelve_q(q: real) requires q == 1real + 1real / 8388608real ensures pow12(q) <= 1.000002real, q >= 0real
{
    let a = 1.00000012real;
    assert(q <= a);
    pow12_mono(q, a);
    let b = 1.00000024001real; let c = 1.0000003601real; let d = 1.0000007203real; let e = 1.000002real;
    assert(a * a <= b) by(nonlinear_arith) requires a == 1.00000012real, b == 1.00000024001real;
    mul_le(a * a, b, a, a);
    assert(b * a <= c) by(nonlinear_arith) requires a == 1.00000012real, b == 1.00000024001real, c == 1.0000003601real;
    let f = (a * a) * a;
    assert(0real <= f <= c) by(nonlinear_arith) requires f == (a * a) * a, a == 1.00000012real, c == 1.0000003601real;
    mul_le(f, c, f, c);
    assert(c * c <= d) by(nonlinear_arith) requires c == 1.0000003601real, d == 1.0000007203real;
    mul_le(f * f, d, f * f, d);
    assert(d * d <= e) by(nonlinear_arith) requires d == 1.0000007203real, e == 1.000002real;
}
pub proof fn twelve_lo() ensures pow12(15real / 16real) >= 0.43real
{
    let a = 15real / 16real;
    let f = (a * a) * a;
    assert(f >= 0.82real) by(nonlinear_arith) requires f == (a * a) * a, a == 15real / 16real;
    mul_le(0.82real, f, 0.82real, f);
    assert(0.82real * 0.82real >= 0.67real) by(nonlinear_arith);
    mul_le(0.67real, f * f, 0.67real, f * f);
    assert(0.67real * 0.67real >= 0.44real) by(nonlinear_arith);
}
pub open spec fn pow12(x: real) -> real { (((x * x) * x) * ((x * x) * x)) * (((x * x) * x) * ((x * x) * x)) }
pub proof fn pow12_mono(a: real, b: real) requires 0real <= a <= b ensures 0real <= pow12(a) <= pow12(b)
{ mul_le(a, b, a, b); mul_le(a * a, b * b, a, b); mul_le((a * a) * a, (b * b) * b, (a * a) * a, (b * b) * b);
  mul_le(((a * a) * a) * ((a * a) * a), ((b * b) * b) * ((b * b) * b), ((a * a) * a) * ((a * a) * a), ((b * b) * b) * ((b * b) * b)); }
pub proof fn pow12_scale(a: real, b: real) ensures pow12(a * b) == pow12(a) * pow12(b)
{
    let (p, q) = (cube(a), cube(b));
    cube_scale(a, b);
    assert((p * q) * (p * q) * ((p * q) * (p * q)) == (p * p * (p * p)) * (q * q * (q * q))) by(nonlinear_arith);
}
/// t is u cut off, so the polynomial at t is the power of u
pub proof fn est24_close(t: real, u: real)
    requires -1real / 16real <= t - 1real <= 1real / 16real, t <= u <= t * (1real + 1real / 8388608real)
    ensures close(est24(t), r_pow(u, 2.4real)), est24(t) > 0real
{
    let s = t - 1real;
    let e = est24(t);
    spows3(s); expand_at_one(s, t);
    pow24_accuracy(s, e, t);
    powi_chain_5(e);
    let v = r_pow(u, 2.4real);
    ax_pow_pos(u, 2.4real);
    ax_pow_root(u, 12, 5);
    assert(2.4real == 12real / 5real);
    powi_chain_5(v);
    twelve(t, u);
    let (t12, u12) = (r_powi(t, 12), r_powi(u, 12));
    assert(five(v) == u12);
    assert(five(e) == r_powi(e, 5));
    assert(s * s >= 0real) by(nonlinear_arith);
    assert(s * s * s <= 1real / 256real && s * s * s >= -1real / 256real && s * s <= 1real / 16real) by {
        spows_bound(s, 3); spows_bound(s, 2); reveal_with_fuel(spow_bound, 4); }
    assert(e > 0real);
    root5(e, v);
}
pub proof fn est13_close(t: real, u: real)
    requires -1real / 16real <= t - 1real <= 1real / 16real, t <= u <= t * (1real + 1real / 8388608real)
    ensures close(est13(t), r_pow(u, 1real / 3real)), est13(t) > 0real
{
    let s = t - 1real;
    let e = est13(t);
    spows3(s); expand_at_one(s, t);
    cbrt_accuracy(s, e, t);
    powi_chain_3(e);
    let v = r_pow(u, 1real / 3real);
    ax_pow_pos(u, 1real / 3real);
    ax_pow_root(u, 1, 3);
    powi_chain_3(v);
    reveal_with_fuel(r_powi, 2);
    assert(cube(v) == u);
    assert(cube(e) == r_powi(e, 3));
    assert(u <= 1.000001real * t) by(nonlinear_arith) requires u <= t * (1real + 1real / 8388608real), t > 0real;
    assert(s * s >= 0real) by(nonlinear_arith);
    assert(s * s * s <= 1real / 256real && s * s * s >= -1real / 256real && s * s <= 1real / 16real) by {
        spows_bound(s, 3); spows_bound(s, 2); reveal_with_fuel(spow_bound, 4); }
    assert(e > 0real);
    root3(e, v);
}
pub proof fn close_scale(r: real, v: real, c: real) requires close(r, v), c > 0real ensures close(r * c, v * c)
{
    assert((v - tol() * v) * c == v * c - tol() * (v * c)) by(nonlinear_arith);
    assert((v + tol() * v) * c == v * c + tol() * (v * c)) by(nonlinear_arith);
    assert((v - tol() * v) * c <= r * c) by(nonlinear_arith) requires v - tol() * v <= r, c > 0real;
    assert(r * c <= (v + tol() * v) * c) by(nonlinear_arith) requires r <= v + tol() * v, c > 0real;
}
/// x = 2^e g and u = g inv: the power of x from that of u
pub proof fn assemble(x: real, q: real, g: real, inv: real, u: real, p: real, est: real, tp: real, ep: real)
    requires x == q * g, u == g * inv, q > 0real, g > 0real, inv > 0real, u > 0real, tp == 1real / r_pow(inv, p), ep == r_pow(q, p), close(est, r_pow(u, p))
    ensures close(est * (tp * ep), r_pow(x, p))
{
    ax_pow_pos(q, p); ax_pow_pos(g, p); ax_pow_pos(inv, p); ax_pow_pos(u, p);
    ax_pow_mul(q, g, p); ax_pow_mul(g, inv, p);
    let (a, b, c) = (r_pow(q, p), r_pow(g, p), r_pow(inv, p));
    assert(tp > 0real && tp * c == 1real) by(nonlinear_arith) requires tp == 1real / c, c > 0real;
    assert(tp * ep > 0real) by(nonlinear_arith) requires tp > 0real, ep > 0real;
    close_scale(est, r_pow(u, p), tp * ep);
    assert((b * c) * (tp * a) == (tp * c) * (a * b)) by(nonlinear_arith);
}
pub proof fn split_number(x: real, b: u32) -> (g: real)
    requires bits_of(x, b)
    ensures x == two_pow(bits_exp(b)) * g, 1real + bits_man(b) <= g < 1real + bits_man(b) + 1real / 8388608real, g > 0real, two_pow(bits_exp(b)) > 0real
{
    let q = two_pow(bits_exp(b));
    lemma_two_pow(bits_exp(b));
    let g = x / q;
    let m = 1real + bits_man(b);
    assert(x == q * g) by(nonlinear_arith) requires g == x / q, q > 0real;
    assert(m <= g) by(nonlinear_arith) requires q * m <= q * g, q > 0real;
    assert(g < m + 1real / 8388608real) by(nonlinear_arith) requires q * g < q * (m + 1real / 8388608real), q > 0real;
    let i = b as int % 8388608;
    assert(bits_man(b) >= 0real) by(nonlinear_arith) requires bits_man(b) == i as real / 8388608real, i >= 0;
    g
}
pub proof fn pow24_close(x: real, b: u32, k: int, est: real, tp: real, ep: real)
    requires bits_of(x, b), k == (b as int % 8388608) / 1048576, est == est24((1real + bits_man(b)) * inv_entry(k)),
        tp == r_pow(inv_entry(k), -2.4real), ep == r_pow(two_pow(bits_exp(b)), 2.4real)
    ensures close(est * (tp * ep), r_pow(x, 2.4real))
{
    let g = split_number(x, b);
    around_one(b, k, g);
    let (inv, t) = (inv_entry(k), (1real + bits_man(b)) * inv_entry(k));
    est24_close(t, g * inv);
    ax_pow_neg(inv, 2.4real);
    assemble(x, two_pow(bits_exp(b)), g, inv, g * inv, 2.4real, est, tp, ep);
}
pub proof fn cbrt_close(x: real, b: u32, k: int, est: real, tp: real, ep: real)
    requires bits_of(x, b), k == (b as int % 8388608) / 1048576, est == est13((1real + bits_man(b)) * inv_entry(k)),
        tp == r_pow(inv_entry(k), -1real / 3real), ep == r_pow(two_pow(bits_exp(b)), 1real / 3real)
    ensures close(est * (tp * ep), r_pow(x, 1real / 3real))
{
    let g = split_number(x, b);
    around_one(b, k, g);
    let (inv, t) = (inv_entry(k), (1real + bits_man(b)) * inv_entry(k));
    est13_close(t, g * inv);
    ax_pow_neg(inv, 1real / 3real);
    assert(-(1real / 3real) == -1real / 3real);
    assemble(x, two_pow(bits_exp(b)), g, inv, g * inv, 1real / 3real, est, tp, ep);
}
