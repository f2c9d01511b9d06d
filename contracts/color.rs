// ------------------------------------------------ RGB to L*a*b*, CIEDE2000
/// a color; the type of the crate lab
pub struct Lab { pub l: Fl, pub a: Fl, pub b: Fl }
impl Clone for Lab { fn clone(&self) -> (r: Lab) ensures r == *self { Lab { l: self.l, a: self.a, b: self.b } } }
impl Copy for Lab {}
/// facts about sines and cosines
pub axiom fn ax_cos(x: real) ensures -1real <= r_cos(x) <= 1real;
pub axiom fn ax_sin(x: real) ensures -1real <= r_sin(x) <= 1real, r_sin(-x) == -r_sin(x);

/// the approximations of powers as they are computed
pub open spec fn frac3(b: u32) -> int { (b as int % 8388608) / 1048576 }
pub open spec fn m_pow24(x: real) -> real {
    let b = u_bits(x);
    est24((1real + bits_man(b)) * inv_entry(frac3(b))) * (r_pow(inv_entry(frac3(b)), -2.4real) * r_pow(two_pow(bits_exp(b)), 2.4real))
}
pub open spec fn m_cbrt(x: real) -> real {
    let b = u_bits(x);
    est13((1real + bits_man(b)) * inv_entry(frac3(b))) * (r_pow(inv_entry(frac3(b)), -1real / 3real) * r_pow(two_pow(bits_exp(b)), 1real / 3real))
}
pub open spec fn in_pow24(x: real) -> bool { 1real / 16real <= x < 16real }
pub open spec fn in_cbrt(x: real) -> bool { 1real / 128real <= x < 512real }
pub proof fn normal(x: real) requires 1real / 128real <= x < 512real ensures normal_range(x)
{
    two_pow_values(); lemma_two_pow_mono(-126, -7); lemma_two_pow_mono(9, 127);
}
/// they are close to the powers
pub proof fn m_pow24_close(x: real) requires in_pow24(x) ensures close(m_pow24(x), r_pow(x, 2.4real))
{
    normal(x); ax_bits(x);
    let b = u_bits(x);
    pow24_close(x, b, frac3(b), est24((1real + bits_man(b)) * inv_entry(frac3(b))), r_pow(inv_entry(frac3(b)), -2.4real), r_pow(two_pow(bits_exp(b)), 2.4real));
}
pub proof fn m_cbrt_close(x: real) requires in_cbrt(x) ensures close(m_cbrt(x), r_pow(x, 1real / 3real))
{
    normal(x); ax_bits(x);
    let b = u_bits(x);
    cbrt_close(x, b, frac3(b), est13((1real + bits_man(b)) * inv_entry(frac3(b))), r_pow(inv_entry(frac3(b)), -1real / 3real), r_pow(two_pow(bits_exp(b)), 1real / 3real));
}

/// sRGB to linear light
pub open spec fn lin(c: real) -> real { if c > 10real / 255real { m_pow24((c + 0.055real) / 1.055real) } else { c / 12.92real } }
pub open spec fn xyz_of(r: real, g: real, b: real) -> (real, real, real) {
    (
        r * 0.4124564390896921real + g * 0.357576077643909real + b * 0.18043748326639894real,
        r * 0.21267285140562248real + g * 0.715152155287818real + b * 0.07217499330655958real,
        r * 0.019333895582329317real + g * 0.119192025881303real + b * 0.9503040785363677real,
    )
}
pub open spec fn lab_f(t: real) -> real { if t > 216real / 24389real { m_cbrt(t) } else { (24389real / 27real * t + 16real) / 116real } }
pub struct LabS { pub l: real, pub a: real, pub b: real }
pub open spec fn lab_of_xyz(p: (real, real, real)) -> LabS {
    let x = lab_f(p.0 / 0.95047real);
    let y = lab_f(p.1);
    let z = lab_f(p.2 / 1.08883real);
    LabS { l: 116real * y - 16real, a: 500real * (x - y), b: 200real * (y - z) }
}
pub open spec fn lab_of(r: real, g: real, b: real) -> LabS { lab_of_xyz(xyz_of(lin(r), lin(g), lin(b))) }
impl Lab { pub open spec fn view(self) -> LabS { LabS { l: self.l@, a: self.a@, b: self.b@ } } }

/// the colors that video samples give
pub open spec fn rgb_ok(c: real) -> bool { -2real <= c <= 3real }
/// x^2.4 < 16 for x < 3
pub proof fn pow24_bound(x: real) requires 0real < x <= 3real ensures 0real < r_pow(x, 2.4real) < 16real
{
    let v = r_pow(x, 2.4real);
    ax_pow_pos(x, 2.4real);
    ax_pow_root(x, 12, 5);
    assert(2.4real == 12real / 5real);
    powi_chain_12(x); powi_chain_12(3real); powi_chain_5(v); powi_chain_5(16real);
    pow12_mono(x, 3real);
    assert(27real * 27real == 729real && 729real * 729real == 531441real && 3real * 3real * 3real == 27real) by(nonlinear_arith);
    assert(pow12(3real) == 531441real);
    if v >= 16real {
        if v > 16real { five_lt(16real, v); }
        assert(five(v) >= five(16real));
        assert(five(16real) == 1048576real);
    }
}
pub proof fn lin_bound(c: real) requires rgb_ok(c) ensures -1real <= lin(c) <= 17real, c > 10real / 255real ==> in_pow24((c + 0.055real) / 1.055real) && lin(c) > 0real
{
    if c > 10real / 255real {
        let x = (c + 0.055real) / 1.055real;
        pow24_bound(x);
        m_pow24_close(x);
    }
}
pub proof fn xyz_bound(r: real, g: real, b: real)
    requires rgb_ok(r), rgb_ok(g), rgb_ok(b)
    ensures ({
        let p = xyz_of(lin(r), lin(g), lin(b));
        &&& -2real <= p.0 < 20real && -2real <= p.1 < 20real && -2real <= p.2 < 20real
    })
{ lin_bound(r); lin_bound(g); lin_bound(b); }

// the difference of two colors (CIEDE2000)
pub open spec fn hue_angle(b: real, a: real) -> real {
    if b == 0real && a == 0real { 0real } else if r_atan2(b, a) < 0real { r_atan2(b, a) + 2real * r_pi() } else { r_atan2(b, a) }
}
pub open spec fn r_abs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn hue_diff(c1: real, c2: real, h1: real, h2: real) -> real {
    if c1 == 0real || c2 == 0real { 0real }
    else if r_abs(h1 - h2) <= r_pi() { h2 - h1 }
    else if h2 <= h1 { h2 - h1 + 2real * r_pi() }
    else { h2 - h1 - 2real * r_pi() }
}
pub open spec fn hue_mean(h1: real, h2: real) -> real {
    if r_abs(h1 - h2) > r_pi() { (h1 + h2 + 2real * r_pi()) / 2real } else { (h1 + h2) / 2real }
}
pub open spec fn hue_t(h: real) -> real {
    1real - 0.17real * r_cos(h - r_pi() / 6real) + 0.24real * r_cos(2real * h) + 0.32real * r_cos(3real * h + r_pi() / 30real) - 0.2real * r_cos(4real * h - 7real * r_pi() / 20real)
}
/// sqrt(c^7 / (c^7 + 25^7))
pub open spec fn chroma_7(c: real) -> real { r_sqrt(r_powi(c, 7) / (r_powi(c, 7) + r_powi(25real, 7))) }
pub open spec fn rotation(c: real, h: real) -> real {
    let d = (h * (180real / r_pi()) - 275real) / 25real;
    -2real * chroma_7(c) * r_sin(60real * r_pow(r_e(), -r_powi(d, 2)) * (r_pi() / 180real))
}
pub open spec fn norm2(a: real, b: real) -> real { r_sqrt(r_powi(a, 2) + r_powi(b, 2)) }
pub struct Terms { pub l: real, pub c: real, pub h: real, pub rt: real }
pub open spec fn de_terms(p: LabS, q: LabS, kl: real, kc: real, kh: real) -> Terms {
    let lm = (p.l + q.l) / 2real;
    let (c1, c2) = (norm2(p.a, p.b), norm2(q.a, q.b));
    let g = 1real - chroma_7((c1 + c2) / 2real);
    let (a1, a2) = (p.a + p.a / 2real * g, q.a + q.a / 2real * g);
    let (d1, d2) = (norm2(a1, p.b), norm2(a2, q.b));
    let cm = (d1 + d2) / 2real;
    let sl = 1real + (0.015real * r_powi(lm - 50real, 2)) / r_sqrt(20real + r_powi(lm - 50real, 2));
    let sc = 1real + 0.045real * cm;
    let (h1, h2) = (hue_angle(p.b, a1), hue_angle(q.b, a2));
    let hm = hue_mean(h1, h2);
    let dh = 2real * r_sqrt(d1 * d2) * r_sin(hue_diff(c1, c2, h1, h2) / 2real);
    let sh = 1real + 0.015real * cm * hue_t(hm);
    Terms { l: (q.l - p.l) / (kl * sl), c: (d2 - d1) / (kc * sc), h: dh / (kh * sh), rt: rotation(cm, hm) }
}
pub open spec fn combine(t: Terms) -> real { r_sqrt(r_powi(t.l, 2) + r_powi(t.c, 2) + r_powi(t.h, 2) + t.rt * t.c * t.h) }
pub open spec fn de00(p: LabS, q: LabS, kl: real, kc: real, kh: real) -> real { combine(de_terms(p, q, kl, kc, kh)) }

pub proof fn square(x: real) ensures r_powi(x, 2) == x * x, x * x >= 0real
{ reveal_with_fuel(r_powi, 3); assert(x * (x * 1real) == x * x) by(nonlinear_arith); assert(x * x >= 0real) by(nonlinear_arith); }
pub proof fn powi_pos(x: real, n: int) requires x >= 0real ensures r_powi(x, n) >= 0real decreases n
{ if n > 0 { powi_pos(x, n - 1); let y = r_powi(x, n - 1); assert(x * y >= 0real) by(nonlinear_arith) requires x >= 0real, y >= 0real; } }
pub proof fn p25() ensures r_powi(25real, 7) == 6103515625real
{ reveal_with_fuel(r_powi, 8); }
pub proof fn norm2_ok(a: real, b: real) ensures r_powi(a, 2) + r_powi(b, 2) >= 0real, norm2(a, b) >= 0real
{ square(a); square(b); ax_sqrt(r_powi(a, 2) + r_powi(b, 2)); }
pub proof fn chroma_7_ok(c: real) requires c >= 0real
    ensures r_powi(c, 7) + r_powi(25real, 7) > 0real, r_powi(c, 7) / (r_powi(c, 7) + r_powi(25real, 7)) >= 0real, 0real <= chroma_7(c) <= 1real
{
    powi_pos(c, 7); p25();
    let n = r_powi(c, 7); let d = n + r_powi(25real, 7);
    let q = n / d;
    assert(0real <= q <= 1real) by(nonlinear_arith) requires q == n / d, n >= 0real, d > 0real, n <= d;
    ax_sqrt(q);
    let s = chroma_7(c);
    if s > 1real { assert(s * s > 1real) by(nonlinear_arith) requires s > 1real; }
}
pub proof fn hue_t_ok(h: real) ensures 0.07real <= hue_t(h) <= 1.93real
{ ax_cos(h - r_pi() / 6real); ax_cos(2real * h); ax_cos(3real * h + r_pi() / 30real); ax_cos(4real * h - 7real * r_pi() / 20real); }
pub proof fn rotation_ok(c: real, h: real) requires c >= 0real ensures -2real <= rotation(c, h) <= 2real
{
    let d = (h * (180real / r_pi()) - 275real) / 25real;
    let x = 60real * r_pow(r_e(), -r_powi(d, 2)) * (r_pi() / 180real);
    ax_sin(x);
    chroma_7_ok(c);
    let (s, v) = (chroma_7(c), r_sin(x));
    assert(-2real <= -2real * s * v <= 2real) by(nonlinear_arith) requires 0real <= s <= 1real, -1real <= v <= 1real;
}
pub proof fn combine_ok(t: Terms) requires -2real <= t.rt <= 2real ensures r_powi(t.l, 2) + r_powi(t.c, 2) + r_powi(t.h, 2) + t.rt * t.c * t.h >= 0real, combine(t) >= 0real
{
    square(t.l); square(t.c); square(t.h);
    let (r, c, h) = (t.rt, t.c, t.h);
    let m = c * h;
    assert(r * c * h == r * m) by(nonlinear_arith) requires m == c * h;
    assert((c - h) * (c - h) == c * c - 2real * m + h * h) by(nonlinear_arith) requires m == c * h;
    assert((c + h) * (c + h) == c * c + 2real * m + h * h) by(nonlinear_arith) requires m == c * h;
    assert((c - h) * (c - h) >= 0real && (c + h) * (c + h) >= 0real) by(nonlinear_arith);
    assert(r * m >= -2real * r_abs(m)) by(nonlinear_arith) requires -2real <= r <= 2real;
    ax_sqrt(r_powi(t.l, 2) + r_powi(t.c, 2) + r_powi(t.h, 2) + t.rt * t.c * t.h);
}
/// the series as the code writes them
pub proof fn series(t: real)
    ensures
        r_powi(t, 2) == t * t, r_powi(t, 3) == t * t * t,
        est24(t) == 7real / 125real - (36real / 125real) * t + (126real / 125real) * (t * t) + (28real / 125real) * (t * t * t),
        est13(t) == 40real / 81real + (60real / 81real) * t - (24real / 81real) * (t * t) + (5real / 81real) * (t * t * t),
{
    reveal_with_fuel(r_powi, 4);
    assert(t * (t * (t * 1real)) == t * t * t) by(nonlinear_arith);
    assert(t * (t * 1real) == t * t) by(nonlinear_arith);
}
pub proof fn inv_entry_pos(k: int) requires 0 <= k <= 7 ensures 1real + (k as real + 0.5real) / 8real > 0real, inv_entry(k) > 0real
{
    let d = 1real + (k as real + 0.5real) / 8real;
    assert(d > 0real);
    assert(1real / d > 0real) by(nonlinear_arith) requires d > 0real;
}
/// as the code normalizes the numbers
pub proof fn white(x: real, z: real) ensures x * (1real / 0.95047real) == x / 0.95047real, z * (1real / 1.08883real) == z / 1.08883real, -2real <= z < 20real ==> -3real <= z / 1.08883real < 22real, -2real <= x < 20real ==> -3real <= x / 0.95047real < 22real
{
    assert(z * (1real / 1.08883real) == z / 1.08883real) by(nonlinear_arith);
    assert(x * (1real / 0.95047real) == x / 0.95047real) by(nonlinear_arith);
}
pub open spec fn s_l(lm: real) -> real { 1real + (0.015real * r_powi(lm - 50real, 2)) / r_sqrt(20real + r_powi(lm - 50real, 2)) }
pub proof fn s_l_ok(lm: real) ensures s_l(lm) >= 1real, 20real + r_powi(lm - 50real, 2) > 0real, r_sqrt(20real + r_powi(lm - 50real, 2)) > 0real
{
    let x = lm - 50real;
    square(x);
    let m = 20real + r_powi(x, 2);
    ax_sqrt(m);
    let s = r_sqrt(m);
    assert(s > 0real) by { if s == 0real { assert(s * s == 0real) by(nonlinear_arith) requires s == 0real; } }
    let n = 0.015real * r_powi(x, 2);
    assert(n / s >= 0real) by(nonlinear_arith) requires n >= 0real, s > 0real;
}
pub proof fn de_ok(p: LabS, q: LabS, kl: real, kc: real, kh: real)
    requires kl > 0real, kc > 0real, kh > 0real
    ensures ({
        let lm = (p.l + q.l) / 2real;
        let (c1, c2) = (norm2(p.a, p.b), norm2(q.a, q.b));
        let g = 1real - chroma_7((c1 + c2) / 2real);
        let (a1, a2) = (p.a + p.a / 2real * g, q.a + q.a / 2real * g);
        let (d1, d2) = (norm2(a1, p.b), norm2(a2, q.b));
        let cm = (d1 + d2) / 2real;
        let sl = 1real + (0.015real * r_powi(lm - 50real, 2)) / r_sqrt(20real + r_powi(lm - 50real, 2));
        let sc = 1real + 0.045real * cm;
        let hm = hue_mean(hue_angle(p.b, a1), hue_angle(q.b, a2));
        let sh = 1real + 0.015real * cm * hue_t(hm);
        let t = de_terms(p, q, kl, kc, kh);
        let cb = (c1 + c2) / 2real;
        &&& r_powi(p.a, 2) + r_powi(p.b, 2) >= 0real && r_powi(q.a, 2) + r_powi(q.b, 2) >= 0real
        &&& r_powi(cb, 7) + r_powi(25real, 7) > 0real && r_powi(cb, 7) / (r_powi(cb, 7) + r_powi(25real, 7)) >= 0real
        &&& r_powi(a1, 2) + r_powi(p.b, 2) >= 0real && r_powi(a2, 2) + r_powi(q.b, 2) >= 0real
        &&& d1 * d2 >= 0real && cm >= 0real
        &&& 20real + r_powi(lm - 50real, 2) >= 0real && r_sqrt(20real + r_powi(lm - 50real, 2)) > 0real
        &&& kl * sl > 0real && kc * sc > 0real && kh * sh > 0real
        &&& r_powi(t.l, 2) + r_powi(t.c, 2) + r_powi(t.h, 2) + t.rt * t.c * t.h >= 0real
    })
{
    let lm = (p.l + q.l) / 2real;
    let (c1, c2) = (norm2(p.a, p.b), norm2(q.a, q.b));
    norm2_ok(p.a, p.b); norm2_ok(q.a, q.b);
    let cb = (c1 + c2) / 2real;
    chroma_7_ok(cb);
    let g = 1real - chroma_7(cb);
    let (a1, a2) = (p.a + p.a / 2real * g, q.a + q.a / 2real * g);
    norm2_ok(a1, p.b); norm2_ok(a2, q.b);
    let (d1, d2) = (norm2(a1, p.b), norm2(a2, q.b));
    assert(d1 * d2 >= 0real) by(nonlinear_arith) requires d1 >= 0real, d2 >= 0real;
    let cm = (d1 + d2) / 2real;
    s_l_ok(lm);
    let hm = hue_mean(hue_angle(p.b, a1), hue_angle(q.b, a2));
    hue_t_ok(hm);
    let (sl, sc, sh, ht) = (s_l(lm), 1real + 0.045real * cm, 1real + 0.015real * cm * hue_t(hm), hue_t(hm));
    assert(0.015real * cm * ht >= 0real) by(nonlinear_arith) requires cm >= 0real, ht >= 0.07real;
    assert(kl * sl > 0real) by(nonlinear_arith) requires kl > 0real, sl >= 1real;
    assert(kc * sc > 0real) by(nonlinear_arith) requires kc > 0real, sc >= 1real;
    assert(kh * sh > 0real) by(nonlinear_arith) requires kh > 0real, sh >= 1real;
    rotation_ok(cm, hm);
    combine_ok(de_terms(p, q, kl, kc, kh));
}

pub proof fn over_116(x: real) ensures x * (1real / 116real) == x / 116real { assert(x * (1real / 116real) == x / 116real) by(nonlinear_arith); }
