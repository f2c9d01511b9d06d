// generated by tools/polys.py
pub open spec fn spows(s: real, k: int) -> real decreases k { if k <= 0 { 1real } else { s * spows(s, k - 1) } }
pub proof fn lin_step(s: real, c: real, p: real, y: real) ensures (s + c * p) * y == s * y + c * (p * y)
{ assert((s + c * p) * y == s * y + c * (p * y)) by(nonlinear_arith); }
pub proof fn commutes(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
pub proof fn spows_add(s: real, i: int, j: int) requires i >= 0, j >= 0 ensures spows(s, i) * spows(s, j) == spows(s, i + j) decreases i
{ if i > 0 { spows_add(s, i - 1, j); let (a, b) = (spows(s, i - 1), spows(s, j));
    assert(s * a * b == s * (a * b)) by(nonlinear_arith); } }
pub open spec fn spow_bound(k: int) -> real decreases k { if k <= 0 { 1real } else { spow_bound(k - 1) / 15real } }
pub proof fn spows_bound(s: real, k: int) requires -1real / 15real <= s <= 1real / 15real, k >= 0
    ensures -spow_bound(k) <= spows(s, k) <= spow_bound(k), spow_bound(k) >= 0real decreases k
{ if k > 0 { spows_bound(s, k - 1); let (a, b) = (spows(s, k - 1), spow_bound(k - 1));
    let r = 1real / 15real;
    commutes(s, a);
    mul_nonneg(r - s, b + a); mul_nonneg(r + s, b - a); mul_nonneg(r - s, b - a); mul_nonneg(r + s, b + a);
    by_parts(r, s, b, a); } }
/// r and b bound the sizes of s and a
pub proof fn by_parts(r: real, s: real, b: real, a: real)
    requires (r - s) * (b + a) >= 0real, (r + s) * (b - a) >= 0real, (r - s) * (b - a) >= 0real, (r + s) * (b + a) >= 0real
    ensures -(r * b) <= s * a <= r * b
{
    assert((r - s) * (b + a) == r * b + r * a - s * b - s * a) by(nonlinear_arith);
    assert((r + s) * (b - a) == r * b - r * a + s * b - s * a) by(nonlinear_arith);
    assert((r - s) * (b - a) == r * b - r * a - s * b + s * a) by(nonlinear_arith);
    assert((r + s) * (b + a) == r * b + r * a + s * b + s * a) by(nonlinear_arith);
}
pub proof fn mul_nonneg(x: real, y: real) requires x >= 0real, y >= 0real ensures x * y >= 0real { assert(x * y >= 0real) by(nonlinear_arith) requires x >= 0real, y >= 0real; }
pub proof fn powi_chain_3(x: real) ensures r_powi(x, 3) == ((x * x) * x)
{
    reveal_with_fuel(r_powi, 4);
    assert(x * (x * (x * 1real)) == ((x * x) * x)) by(nonlinear_arith);
}
pub proof fn powi_chain_5(x: real) ensures r_powi(x, 5) == (((x * x) * (x * x)) * x)
{
    reveal_with_fuel(r_powi, 6);
    assert(x * (x * (x * (x * (x * 1real)))) == (((x * x) * (x * x)) * x)) by(nonlinear_arith);
}
pub proof fn powi_chain_12(x: real) ensures r_powi(x, 12) == ((((x * x) * x) * ((x * x) * x)) * (((x * x) * x) * ((x * x) * x)))
{
    reveal_with_fuel(r_powi, 13);
    assert(x * (x * (x * (x * (x * (x * (x * (x * (x * (x * (x * (x * 1real))))))))))) == ((((x * x) * x) * ((x * x) * x)) * (((x * x) * x) * ((x * x) * x)))) by(nonlinear_arith);
}
pub proof fn pow24_e1_sq(s: real, x: real, y: real)
    requires x == (125real) + (300real) * spows(s, 1) + (210real) * spows(s, 2) + (28real) * spows(s, 3), y == (125real) + (300real) * spows(s, 1) + (210real) * spows(s, 2) + (28real) * spows(s, 3)
    ensures x * y == (15625real) + (75000real) * spows(s, 1) + (142500real) * spows(s, 2) + (133000real) * spows(s, 3) + (60900real) * spows(s, 4) + (11760real) * spows(s, 5) + (784real) * spows(s, 6)
{
    spows_add(s, 1, 1);
    spows_add(s, 1, 2);
    spows_add(s, 1, 3);
    spows_add(s, 2, 1);
    spows_add(s, 2, 2);
    spows_add(s, 2, 3);
    spows_add(s, 3, 1);
    spows_add(s, 3, 2);
    spows_add(s, 3, 3);
    let p1 = spows(s, 1);
    let p2 = spows(s, 2);
    let p3 = spows(s, 3);
    let p4 = spows(s, 4);
    let p5 = spows(s, 5);
    let p6 = spows(s, 6);
    let r0 = (125real) * y;
    let r1 = (300real) * (p1 * y);
    let t1_0 = (125real);
    let t1_1 = t1_0 + (300real) * p1;
    lin_step(t1_0, (300real), p1, p1);
    let t1_2 = t1_1 + (210real) * p2;
    lin_step(t1_1, (210real), p2, p1);
    let t1_3 = t1_2 + (28real) * p3;
    lin_step(t1_2, (28real), p3, p1);
    assert(p1 * p1 == p2) by { commutes(p1, p1); }
    assert(p2 * p1 == p3) by { commutes(p2, p1); }
    assert(p3 * p1 == p4) by { commutes(p3, p1); }
    assert(y == t1_3);
    assert(p1 * y == (125real) * p1 + (300real) * p2 + (210real) * p3 + (28real) * p4) by { commutes(p1, y); }
    let r2 = (210real) * (p2 * y);
    let t2_0 = (125real);
    let t2_1 = t2_0 + (300real) * p1;
    lin_step(t2_0, (300real), p1, p2);
    let t2_2 = t2_1 + (210real) * p2;
    lin_step(t2_1, (210real), p2, p2);
    let t2_3 = t2_2 + (28real) * p3;
    lin_step(t2_2, (28real), p3, p2);
    assert(p1 * p2 == p3) by { commutes(p1, p2); }
    assert(p2 * p2 == p4) by { commutes(p2, p2); }
    assert(p3 * p2 == p5) by { commutes(p3, p2); }
    assert(y == t2_3);
    assert(p2 * y == (125real) * p2 + (300real) * p3 + (210real) * p4 + (28real) * p5) by { commutes(p2, y); }
    let r3 = (28real) * (p3 * y);
    let t3_0 = (125real);
    let t3_1 = t3_0 + (300real) * p1;
    lin_step(t3_0, (300real), p1, p3);
    let t3_2 = t3_1 + (210real) * p2;
    lin_step(t3_1, (210real), p2, p3);
    let t3_3 = t3_2 + (28real) * p3;
    lin_step(t3_2, (28real), p3, p3);
    assert(p1 * p3 == p4) by { commutes(p1, p3); }
    assert(p2 * p3 == p5) by { commutes(p2, p3); }
    assert(p3 * p3 == p6) by { commutes(p3, p3); }
    assert(y == t3_3);
    assert(p3 * y == (125real) * p3 + (300real) * p4 + (210real) * p5 + (28real) * p6) by { commutes(p3, y); }
    let s_0 = (125real);
    let s_1 = s_0 + (300real) * p1;
    lin_step(s_0, (300real), p1, y);
    let s_2 = s_1 + (210real) * p2;
    lin_step(s_1, (210real), p2, y);
    let s_3 = s_2 + (28real) * p3;
    lin_step(s_2, (28real), p3, y);
    assert(x == s_3);
    assert(x * y == r0 + r1 + r2 + r3);
}
pub proof fn pow24_e2_sq(s: real, x: real, y: real)
    requires x == (15625real) + (75000real) * spows(s, 1) + (142500real) * spows(s, 2) + (133000real) * spows(s, 3) + (60900real) * spows(s, 4) + (11760real) * spows(s, 5) + (784real) * spows(s, 6), y == (15625real) + (75000real) * spows(s, 1) + (142500real) * spows(s, 2) + (133000real) * spows(s, 3) + (60900real) * spows(s, 4) + (11760real) * spows(s, 5) + (784real) * spows(s, 6)
    ensures x * y == (244140625real) + (2343750000real) * spows(s, 1) + (10078125000real) * spows(s, 2) + (25531250000real) * spows(s, 3) + (42159375000real) * spows(s, 4) + (47407500000real) * spows(s, 5) + (36834000000real) * spows(s, 6) + (19668600000real) * spows(s, 7) + (7060410000real) * spows(s, 8) + (1640912000real) * spows(s, 9) + (233788800real) * spows(s, 10) + (18439680real) * spows(s, 11) + (614656real) * spows(s, 12)
{
    spows_add(s, 1, 1);
    spows_add(s, 1, 2);
    spows_add(s, 1, 3);
    spows_add(s, 1, 4);
    spows_add(s, 1, 5);
    spows_add(s, 1, 6);
    spows_add(s, 2, 1);
    spows_add(s, 2, 2);
    spows_add(s, 2, 3);
    spows_add(s, 2, 4);
    spows_add(s, 2, 5);
    spows_add(s, 2, 6);
    spows_add(s, 3, 1);
    spows_add(s, 3, 2);
    spows_add(s, 3, 3);
    spows_add(s, 3, 4);
    spows_add(s, 3, 5);
    spows_add(s, 3, 6);
    spows_add(s, 4, 1);
    spows_add(s, 4, 2);
    spows_add(s, 4, 3);
    spows_add(s, 4, 4);
    spows_add(s, 4, 5);
    spows_add(s, 4, 6);
    spows_add(s, 5, 1);
    spows_add(s, 5, 2);
    spows_add(s, 5, 3);
    spows_add(s, 5, 4);
    spows_add(s, 5, 5);
    spows_add(s, 5, 6);
    spows_add(s, 6, 1);
    spows_add(s, 6, 2);
    spows_add(s, 6, 3);
    spows_add(s, 6, 4);
    spows_add(s, 6, 5);
    spows_add(s, 6, 6);
    let p1 = spows(s, 1);
    let p2 = spows(s, 2);
    let p3 = spows(s, 3);
    let p4 = spows(s, 4);
    let p5 = spows(s, 5);
    let p6 = spows(s, 6);
    let p7 = spows(s, 7);
    let p8 = spows(s, 8);
    let p9 = spows(s, 9);
    let p10 = spows(s, 10);
    let p11 = spows(s, 11);
    let p12 = spows(s, 12);
    let r0 = (15625real) * y;
    let r1 = (75000real) * (p1 * y);
    let t1_0 = (15625real);
    let t1_1 = t1_0 + (75000real) * p1;
    lin_step(t1_0, (75000real), p1, p1);
    let t1_2 = t1_1 + (142500real) * p2;
    lin_step(t1_1, (142500real), p2, p1);
    let t1_3 = t1_2 + (133000real) * p3;
    lin_step(t1_2, (133000real), p3, p1);
    let t1_4 = t1_3 + (60900real) * p4;
    lin_step(t1_3, (60900real), p4, p1);
    let t1_5 = t1_4 + (11760real) * p5;
    lin_step(t1_4, (11760real), p5, p1);
    let t1_6 = t1_5 + (784real) * p6;
    lin_step(t1_5, (784real), p6, p1);
    assert(p1 * p1 == p2) by { commutes(p1, p1); }
    assert(p2 * p1 == p3) by { commutes(p2, p1); }
    assert(p3 * p1 == p4) by { commutes(p3, p1); }
    assert(p4 * p1 == p5) by { commutes(p4, p1); }
    assert(p5 * p1 == p6) by { commutes(p5, p1); }
    assert(p6 * p1 == p7) by { commutes(p6, p1); }
    assert(y == t1_6);
    assert(p1 * y == (15625real) * p1 + (75000real) * p2 + (142500real) * p3 + (133000real) * p4 + (60900real) * p5 + (11760real) * p6 + (784real) * p7) by { commutes(p1, y); }
    let r2 = (142500real) * (p2 * y);
    let t2_0 = (15625real);
    let t2_1 = t2_0 + (75000real) * p1;
    lin_step(t2_0, (75000real), p1, p2);
    let t2_2 = t2_1 + (142500real) * p2;
    lin_step(t2_1, (142500real), p2, p2);
    let t2_3 = t2_2 + (133000real) * p3;
    lin_step(t2_2, (133000real), p3, p2);
    let t2_4 = t2_3 + (60900real) * p4;
    lin_step(t2_3, (60900real), p4, p2);
    let t2_5 = t2_4 + (11760real) * p5;
    lin_step(t2_4, (11760real), p5, p2);
    let t2_6 = t2_5 + (784real) * p6;
    lin_step(t2_5, (784real), p6, p2);
    assert(p1 * p2 == p3) by { commutes(p1, p2); }
    assert(p2 * p2 == p4) by { commutes(p2, p2); }
    assert(p3 * p2 == p5) by { commutes(p3, p2); }
    assert(p4 * p2 == p6) by { commutes(p4, p2); }
    assert(p5 * p2 == p7) by { commutes(p5, p2); }
    assert(p6 * p2 == p8) by { commutes(p6, p2); }
    assert(y == t2_6);
    assert(p2 * y == (15625real) * p2 + (75000real) * p3 + (142500real) * p4 + (133000real) * p5 + (60900real) * p6 + (11760real) * p7 + (784real) * p8) by { commutes(p2, y); }
    let r3 = (133000real) * (p3 * y);
    let t3_0 = (15625real);
    let t3_1 = t3_0 + (75000real) * p1;
    lin_step(t3_0, (75000real), p1, p3);
    let t3_2 = t3_1 + (142500real) * p2;
    lin_step(t3_1, (142500real), p2, p3);
    let t3_3 = t3_2 + (133000real) * p3;
    lin_step(t3_2, (133000real), p3, p3);
    let t3_4 = t3_3 + (60900real) * p4;
    lin_step(t3_3, (60900real), p4, p3);
    let t3_5 = t3_4 + (11760real) * p5;
    lin_step(t3_4, (11760real), p5, p3);
    let t3_6 = t3_5 + (784real) * p6;
    lin_step(t3_5, (784real), p6, p3);
    assert(p1 * p3 == p4) by { commutes(p1, p3); }
    assert(p2 * p3 == p5) by { commutes(p2, p3); }
    assert(p3 * p3 == p6) by { commutes(p3, p3); }
    assert(p4 * p3 == p7) by { commutes(p4, p3); }
    assert(p5 * p3 == p8) by { commutes(p5, p3); }
    assert(p6 * p3 == p9) by { commutes(p6, p3); }
    assert(y == t3_6);
    assert(p3 * y == (15625real) * p3 + (75000real) * p4 + (142500real) * p5 + (133000real) * p6 + (60900real) * p7 + (11760real) * p8 + (784real) * p9) by { commutes(p3, y); }
    let r4 = (60900real) * (p4 * y);
    let t4_0 = (15625real);
    let t4_1 = t4_0 + (75000real) * p1;
    lin_step(t4_0, (75000real), p1, p4);
    let t4_2 = t4_1 + (142500real) * p2;
    lin_step(t4_1, (142500real), p2, p4);
    let t4_3 = t4_2 + (133000real) * p3;
    lin_step(t4_2, (133000real), p3, p4);
    let t4_4 = t4_3 + (60900real) * p4;
    lin_step(t4_3, (60900real), p4, p4);
    let t4_5 = t4_4 + (11760real) * p5;
    lin_step(t4_4, (11760real), p5, p4);
    let t4_6 = t4_5 + (784real) * p6;
    lin_step(t4_5, (784real), p6, p4);
    assert(p1 * p4 == p5) by { commutes(p1, p4); }
    assert(p2 * p4 == p6) by { commutes(p2, p4); }
    assert(p3 * p4 == p7) by { commutes(p3, p4); }
    assert(p4 * p4 == p8) by { commutes(p4, p4); }
    assert(p5 * p4 == p9) by { commutes(p5, p4); }
    assert(p6 * p4 == p10) by { commutes(p6, p4); }
    assert(y == t4_6);
    assert(p4 * y == (15625real) * p4 + (75000real) * p5 + (142500real) * p6 + (133000real) * p7 + (60900real) * p8 + (11760real) * p9 + (784real) * p10) by { commutes(p4, y); }
    let r5 = (11760real) * (p5 * y);
    let t5_0 = (15625real);
    let t5_1 = t5_0 + (75000real) * p1;
    lin_step(t5_0, (75000real), p1, p5);
    let t5_2 = t5_1 + (142500real) * p2;
    lin_step(t5_1, (142500real), p2, p5);
    let t5_3 = t5_2 + (133000real) * p3;
    lin_step(t5_2, (133000real), p3, p5);
    let t5_4 = t5_3 + (60900real) * p4;
    lin_step(t5_3, (60900real), p4, p5);
    let t5_5 = t5_4 + (11760real) * p5;
    lin_step(t5_4, (11760real), p5, p5);
    let t5_6 = t5_5 + (784real) * p6;
    lin_step(t5_5, (784real), p6, p5);
    assert(p1 * p5 == p6) by { commutes(p1, p5); }
    assert(p2 * p5 == p7) by { commutes(p2, p5); }
    assert(p3 * p5 == p8) by { commutes(p3, p5); }
    assert(p4 * p5 == p9) by { commutes(p4, p5); }
    assert(p5 * p5 == p10) by { commutes(p5, p5); }
    assert(p6 * p5 == p11) by { commutes(p6, p5); }
    assert(y == t5_6);
    assert(p5 * y == (15625real) * p5 + (75000real) * p6 + (142500real) * p7 + (133000real) * p8 + (60900real) * p9 + (11760real) * p10 + (784real) * p11) by { commutes(p5, y); }
    let r6 = (784real) * (p6 * y);
    let t6_0 = (15625real);
    let t6_1 = t6_0 + (75000real) * p1;
    lin_step(t6_0, (75000real), p1, p6);
    let t6_2 = t6_1 + (142500real) * p2;
    lin_step(t6_1, (142500real), p2, p6);
    let t6_3 = t6_2 + (133000real) * p3;
    lin_step(t6_2, (133000real), p3, p6);
    let t6_4 = t6_3 + (60900real) * p4;
    lin_step(t6_3, (60900real), p4, p6);
    let t6_5 = t6_4 + (11760real) * p5;
    lin_step(t6_4, (11760real), p5, p6);
    let t6_6 = t6_5 + (784real) * p6;
    lin_step(t6_5, (784real), p6, p6);
    assert(p1 * p6 == p7) by { commutes(p1, p6); }
    assert(p2 * p6 == p8) by { commutes(p2, p6); }
    assert(p3 * p6 == p9) by { commutes(p3, p6); }
    assert(p4 * p6 == p10) by { commutes(p4, p6); }
    assert(p5 * p6 == p11) by { commutes(p5, p6); }
    assert(p6 * p6 == p12) by { commutes(p6, p6); }
    assert(y == t6_6);
    assert(p6 * y == (15625real) * p6 + (75000real) * p7 + (142500real) * p8 + (133000real) * p9 + (60900real) * p10 + (11760real) * p11 + (784real) * p12) by { commutes(p6, y); }
    let s_0 = (15625real);
    let s_1 = s_0 + (75000real) * p1;
    lin_step(s_0, (75000real), p1, y);
    let s_2 = s_1 + (142500real) * p2;
    lin_step(s_1, (142500real), p2, y);
    let s_3 = s_2 + (133000real) * p3;
    lin_step(s_2, (133000real), p3, y);
    let s_4 = s_3 + (60900real) * p4;
    lin_step(s_3, (60900real), p4, y);
    let s_5 = s_4 + (11760real) * p5;
    lin_step(s_4, (11760real), p5, y);
    let s_6 = s_5 + (784real) * p6;
    lin_step(s_5, (784real), p6, y);
    assert(x == s_6);
    assert(x * y == r0 + r1 + r2 + r3 + r4 + r5 + r6);
}
pub proof fn pow24_e4_times(s: real, x: real, y: real)
    requires x == (244140625real) + (2343750000real) * spows(s, 1) + (10078125000real) * spows(s, 2) + (25531250000real) * spows(s, 3) + (42159375000real) * spows(s, 4) + (47407500000real) * spows(s, 5) + (36834000000real) * spows(s, 6) + (19668600000real) * spows(s, 7) + (7060410000real) * spows(s, 8) + (1640912000real) * spows(s, 9) + (233788800real) * spows(s, 10) + (18439680real) * spows(s, 11) + (614656real) * spows(s, 12), y == (125real) + (300real) * spows(s, 1) + (210real) * spows(s, 2) + (28real) * spows(s, 3)
    ensures x * y == (30517578125real) + (366210937500real) * spows(s, 1) + (2014160156250real) * spows(s, 2) + (6713867187500real) * spows(s, 3) + (15111328125000real) * spows(s, 4) + (24217500000000real) * spows(s, 5) + (28394843750000real) * spows(s, 6) + (24644812500000real) * spows(s, 7) + (15845681250000real) * spows(s, 8) + (7484995000000real) * spows(s, 9) + (2554904100000real) * spows(s, 10) + (614724600000real) * spows(s, 11) + (100649920000real) * spows(s, 12) + (10602816000real) * spows(s, 13) + (645388800real) * spows(s, 14) + (17210368real) * spows(s, 15)
{
    spows_add(s, 1, 1);
    spows_add(s, 1, 2);
    spows_add(s, 1, 3);
    spows_add(s, 2, 1);
    spows_add(s, 2, 2);
    spows_add(s, 2, 3);
    spows_add(s, 3, 1);
    spows_add(s, 3, 2);
    spows_add(s, 3, 3);
    spows_add(s, 4, 1);
    spows_add(s, 4, 2);
    spows_add(s, 4, 3);
    spows_add(s, 5, 1);
    spows_add(s, 5, 2);
    spows_add(s, 5, 3);
    spows_add(s, 6, 1);
    spows_add(s, 6, 2);
    spows_add(s, 6, 3);
    spows_add(s, 7, 1);
    spows_add(s, 7, 2);
    spows_add(s, 7, 3);
    spows_add(s, 8, 1);
    spows_add(s, 8, 2);
    spows_add(s, 8, 3);
    spows_add(s, 9, 1);
    spows_add(s, 9, 2);
    spows_add(s, 9, 3);
    spows_add(s, 10, 1);
    spows_add(s, 10, 2);
    spows_add(s, 10, 3);
    spows_add(s, 11, 1);
    spows_add(s, 11, 2);
    spows_add(s, 11, 3);
    spows_add(s, 12, 1);
    spows_add(s, 12, 2);
    spows_add(s, 12, 3);
    let p1 = spows(s, 1);
    let p2 = spows(s, 2);
    let p3 = spows(s, 3);
    let p4 = spows(s, 4);
    let p5 = spows(s, 5);
    let p6 = spows(s, 6);
    let p7 = spows(s, 7);
    let p8 = spows(s, 8);
    let p9 = spows(s, 9);
    let p10 = spows(s, 10);
    let p11 = spows(s, 11);
    let p12 = spows(s, 12);
    let p13 = spows(s, 13);
    let p14 = spows(s, 14);
    let p15 = spows(s, 15);
    let r0 = (244140625real) * y;
    let r1 = (2343750000real) * (p1 * y);
    let t1_0 = (125real);
    let t1_1 = t1_0 + (300real) * p1;
    lin_step(t1_0, (300real), p1, p1);
    let t1_2 = t1_1 + (210real) * p2;
    lin_step(t1_1, (210real), p2, p1);
    let t1_3 = t1_2 + (28real) * p3;
    lin_step(t1_2, (28real), p3, p1);
    assert(p1 * p1 == p2) by { commutes(p1, p1); }
    assert(p2 * p1 == p3) by { commutes(p2, p1); }
    assert(p3 * p1 == p4) by { commutes(p3, p1); }
    assert(y == t1_3);
    assert(p1 * y == (125real) * p1 + (300real) * p2 + (210real) * p3 + (28real) * p4) by { commutes(p1, y); }
    let r2 = (10078125000real) * (p2 * y);
    let t2_0 = (125real);
    let t2_1 = t2_0 + (300real) * p1;
    lin_step(t2_0, (300real), p1, p2);
    let t2_2 = t2_1 + (210real) * p2;
    lin_step(t2_1, (210real), p2, p2);
    let t2_3 = t2_2 + (28real) * p3;
    lin_step(t2_2, (28real), p3, p2);
    assert(p1 * p2 == p3) by { commutes(p1, p2); }
    assert(p2 * p2 == p4) by { commutes(p2, p2); }
    assert(p3 * p2 == p5) by { commutes(p3, p2); }
    assert(y == t2_3);
    assert(p2 * y == (125real) * p2 + (300real) * p3 + (210real) * p4 + (28real) * p5) by { commutes(p2, y); }
    let r3 = (25531250000real) * (p3 * y);
    let t3_0 = (125real);
    let t3_1 = t3_0 + (300real) * p1;
    lin_step(t3_0, (300real), p1, p3);
    let t3_2 = t3_1 + (210real) * p2;
    lin_step(t3_1, (210real), p2, p3);
    let t3_3 = t3_2 + (28real) * p3;
    lin_step(t3_2, (28real), p3, p3);
    assert(p1 * p3 == p4) by { commutes(p1, p3); }
    assert(p2 * p3 == p5) by { commutes(p2, p3); }
    assert(p3 * p3 == p6) by { commutes(p3, p3); }
    assert(y == t3_3);
    assert(p3 * y == (125real) * p3 + (300real) * p4 + (210real) * p5 + (28real) * p6) by { commutes(p3, y); }
    let r4 = (42159375000real) * (p4 * y);
    let t4_0 = (125real);
    let t4_1 = t4_0 + (300real) * p1;
    lin_step(t4_0, (300real), p1, p4);
    let t4_2 = t4_1 + (210real) * p2;
    lin_step(t4_1, (210real), p2, p4);
    let t4_3 = t4_2 + (28real) * p3;
    lin_step(t4_2, (28real), p3, p4);
    assert(p1 * p4 == p5) by { commutes(p1, p4); }
    assert(p2 * p4 == p6) by { commutes(p2, p4); }
    assert(p3 * p4 == p7) by { commutes(p3, p4); }
    assert(y == t4_3);
    assert(p4 * y == (125real) * p4 + (300real) * p5 + (210real) * p6 + (28real) * p7) by { commutes(p4, y); }
    let r5 = (47407500000real) * (p5 * y);
    let t5_0 = (125real);
    let t5_1 = t5_0 + (300real) * p1;
    lin_step(t5_0, (300real), p1, p5);
    let t5_2 = t5_1 + (210real) * p2;
    lin_step(t5_1, (210real), p2, p5);
    let t5_3 = t5_2 + (28real) * p3;
    lin_step(t5_2, (28real), p3, p5);
    assert(p1 * p5 == p6) by { commutes(p1, p5); }
    assert(p2 * p5 == p7) by { commutes(p2, p5); }
    assert(p3 * p5 == p8) by { commutes(p3, p5); }
    assert(y == t5_3);
    assert(p5 * y == (125real) * p5 + (300real) * p6 + (210real) * p7 + (28real) * p8) by { commutes(p5, y); }
    let r6 = (36834000000real) * (p6 * y);
    let t6_0 = (125real);
    let t6_1 = t6_0 + (300real) * p1;
    lin_step(t6_0, (300real), p1, p6);
    let t6_2 = t6_1 + (210real) * p2;
    lin_step(t6_1, (210real), p2, p6);
    let t6_3 = t6_2 + (28real) * p3;
    lin_step(t6_2, (28real), p3, p6);
    assert(p1 * p6 == p7) by { commutes(p1, p6); }
    assert(p2 * p6 == p8) by { commutes(p2, p6); }
    assert(p3 * p6 == p9) by { commutes(p3, p6); }
    assert(y == t6_3);
    assert(p6 * y == (125real) * p6 + (300real) * p7 + (210real) * p8 + (28real) * p9) by { commutes(p6, y); }
    let r7 = (19668600000real) * (p7 * y);
    let t7_0 = (125real);
    let t7_1 = t7_0 + (300real) * p1;
    lin_step(t7_0, (300real), p1, p7);
    let t7_2 = t7_1 + (210real) * p2;
    lin_step(t7_1, (210real), p2, p7);
    let t7_3 = t7_2 + (28real) * p3;
    lin_step(t7_2, (28real), p3, p7);
    assert(p1 * p7 == p8) by { commutes(p1, p7); }
    assert(p2 * p7 == p9) by { commutes(p2, p7); }
    assert(p3 * p7 == p10) by { commutes(p3, p7); }
    assert(y == t7_3);
    assert(p7 * y == (125real) * p7 + (300real) * p8 + (210real) * p9 + (28real) * p10) by { commutes(p7, y); }
    let r8 = (7060410000real) * (p8 * y);
    let t8_0 = (125real);
    let t8_1 = t8_0 + (300real) * p1;
    lin_step(t8_0, (300real), p1, p8);
    let t8_2 = t8_1 + (210real) * p2;
    lin_step(t8_1, (210real), p2, p8);
    let t8_3 = t8_2 + (28real) * p3;
    lin_step(t8_2, (28real), p3, p8);
    assert(p1 * p8 == p9) by { commutes(p1, p8); }
    assert(p2 * p8 == p10) by { commutes(p2, p8); }
    assert(p3 * p8 == p11) by { commutes(p3, p8); }
    assert(y == t8_3);
    assert(p8 * y == (125real) * p8 + (300real) * p9 + (210real) * p10 + (28real) * p11) by { commutes(p8, y); }
    let r9 = (1640912000real) * (p9 * y);
    let t9_0 = (125real);
    let t9_1 = t9_0 + (300real) * p1;
    lin_step(t9_0, (300real), p1, p9);
    let t9_2 = t9_1 + (210real) * p2;
    lin_step(t9_1, (210real), p2, p9);
    let t9_3 = t9_2 + (28real) * p3;
    lin_step(t9_2, (28real), p3, p9);
    assert(p1 * p9 == p10) by { commutes(p1, p9); }
    assert(p2 * p9 == p11) by { commutes(p2, p9); }
    assert(p3 * p9 == p12) by { commutes(p3, p9); }
    assert(y == t9_3);
    assert(p9 * y == (125real) * p9 + (300real) * p10 + (210real) * p11 + (28real) * p12) by { commutes(p9, y); }
    let r10 = (233788800real) * (p10 * y);
    let t10_0 = (125real);
    let t10_1 = t10_0 + (300real) * p1;
    lin_step(t10_0, (300real), p1, p10);
    let t10_2 = t10_1 + (210real) * p2;
    lin_step(t10_1, (210real), p2, p10);
    let t10_3 = t10_2 + (28real) * p3;
    lin_step(t10_2, (28real), p3, p10);
    assert(p1 * p10 == p11) by { commutes(p1, p10); }
    assert(p2 * p10 == p12) by { commutes(p2, p10); }
    assert(p3 * p10 == p13) by { commutes(p3, p10); }
    assert(y == t10_3);
    assert(p10 * y == (125real) * p10 + (300real) * p11 + (210real) * p12 + (28real) * p13) by { commutes(p10, y); }
    let r11 = (18439680real) * (p11 * y);
    let t11_0 = (125real);
    let t11_1 = t11_0 + (300real) * p1;
    lin_step(t11_0, (300real), p1, p11);
    let t11_2 = t11_1 + (210real) * p2;
    lin_step(t11_1, (210real), p2, p11);
    let t11_3 = t11_2 + (28real) * p3;
    lin_step(t11_2, (28real), p3, p11);
    assert(p1 * p11 == p12) by { commutes(p1, p11); }
    assert(p2 * p11 == p13) by { commutes(p2, p11); }
    assert(p3 * p11 == p14) by { commutes(p3, p11); }
    assert(y == t11_3);
    assert(p11 * y == (125real) * p11 + (300real) * p12 + (210real) * p13 + (28real) * p14) by { commutes(p11, y); }
    let r12 = (614656real) * (p12 * y);
    let t12_0 = (125real);
    let t12_1 = t12_0 + (300real) * p1;
    lin_step(t12_0, (300real), p1, p12);
    let t12_2 = t12_1 + (210real) * p2;
    lin_step(t12_1, (210real), p2, p12);
    let t12_3 = t12_2 + (28real) * p3;
    lin_step(t12_2, (28real), p3, p12);
    assert(p1 * p12 == p13) by { commutes(p1, p12); }
    assert(p2 * p12 == p14) by { commutes(p2, p12); }
    assert(p3 * p12 == p15) by { commutes(p3, p12); }
    assert(y == t12_3);
    assert(p12 * y == (125real) * p12 + (300real) * p13 + (210real) * p14 + (28real) * p15) by { commutes(p12, y); }
    let s_0 = (244140625real);
    let s_1 = s_0 + (2343750000real) * p1;
    lin_step(s_0, (2343750000real), p1, y);
    let s_2 = s_1 + (10078125000real) * p2;
    lin_step(s_1, (10078125000real), p2, y);
    let s_3 = s_2 + (25531250000real) * p3;
    lin_step(s_2, (25531250000real), p3, y);
    let s_4 = s_3 + (42159375000real) * p4;
    lin_step(s_3, (42159375000real), p4, y);
    let s_5 = s_4 + (47407500000real) * p5;
    lin_step(s_4, (47407500000real), p5, y);
    let s_6 = s_5 + (36834000000real) * p6;
    lin_step(s_5, (36834000000real), p6, y);
    let s_7 = s_6 + (19668600000real) * p7;
    lin_step(s_6, (19668600000real), p7, y);
    let s_8 = s_7 + (7060410000real) * p8;
    lin_step(s_7, (7060410000real), p8, y);
    let s_9 = s_8 + (1640912000real) * p9;
    lin_step(s_8, (1640912000real), p9, y);
    let s_10 = s_9 + (233788800real) * p10;
    lin_step(s_9, (233788800real), p10, y);
    let s_11 = s_10 + (18439680real) * p11;
    lin_step(s_10, (18439680real), p11, y);
    let s_12 = s_11 + (614656real) * p12;
    lin_step(s_11, (614656real), p12, y);
    assert(x == s_12);
    assert(x * y == r0 + r1 + r2 + r3 + r4 + r5 + r6 + r7 + r8 + r9 + r10 + r11 + r12);
}
pub proof fn pow24_t1_sq(s: real, x: real, y: real)
    requires x == (1real) + (1real) * spows(s, 1), y == (1real) + (1real) * spows(s, 1)
    ensures x * y == (1real) + (2real) * spows(s, 1) + (1real) * spows(s, 2)
{
    spows_add(s, 1, 1);
    let p1 = spows(s, 1);
    let p2 = spows(s, 2);
    let r0 = (1real) * y;
    let r1 = (1real) * (p1 * y);
    let t1_0 = (1real);
    let t1_1 = t1_0 + (1real) * p1;
    lin_step(t1_0, (1real), p1, p1);
    assert(p1 * p1 == p2) by { commutes(p1, p1); }
    assert(y == t1_1);
    assert(p1 * y == (1real) * p1 + (1real) * p2) by { commutes(p1, y); }
    let s_0 = (1real);
    let s_1 = s_0 + (1real) * p1;
    lin_step(s_0, (1real), p1, y);
    assert(x == s_1);
    assert(x * y == r0 + r1);
}
pub proof fn pow24_t2_times(s: real, x: real, y: real)
    requires x == (1real) + (2real) * spows(s, 1) + (1real) * spows(s, 2), y == (1real) + (1real) * spows(s, 1)
    ensures x * y == (1real) + (3real) * spows(s, 1) + (3real) * spows(s, 2) + (1real) * spows(s, 3)
{
    spows_add(s, 1, 1);
    spows_add(s, 2, 1);
    let p1 = spows(s, 1);
    let p2 = spows(s, 2);
    let p3 = spows(s, 3);
    let r0 = (1real) * y;
    let r1 = (2real) * (p1 * y);
    let t1_0 = (1real);
    let t1_1 = t1_0 + (1real) * p1;
    lin_step(t1_0, (1real), p1, p1);
    assert(p1 * p1 == p2) by { commutes(p1, p1); }
    assert(y == t1_1);
    assert(p1 * y == (1real) * p1 + (1real) * p2) by { commutes(p1, y); }
    let r2 = (1real) * (p2 * y);
    let t2_0 = (1real);
    let t2_1 = t2_0 + (1real) * p1;
    lin_step(t2_0, (1real), p1, p2);
    assert(p1 * p2 == p3) by { commutes(p1, p2); }
    assert(y == t2_1);
    assert(p2 * y == (1real) * p2 + (1real) * p3) by { commutes(p2, y); }
    let s_0 = (1real);
    let s_1 = s_0 + (2real) * p1;
    lin_step(s_0, (2real), p1, y);
    let s_2 = s_1 + (1real) * p2;
    lin_step(s_1, (1real), p2, y);
    assert(x == s_2);
    assert(x * y == r0 + r1 + r2);
}
pub proof fn pow24_t3_sq(s: real, x: real, y: real)
    requires x == (1real) + (3real) * spows(s, 1) + (3real) * spows(s, 2) + (1real) * spows(s, 3), y == (1real) + (3real) * spows(s, 1) + (3real) * spows(s, 2) + (1real) * spows(s, 3)
    ensures x * y == (1real) + (6real) * spows(s, 1) + (15real) * spows(s, 2) + (20real) * spows(s, 3) + (15real) * spows(s, 4) + (6real) * spows(s, 5) + (1real) * spows(s, 6)
{
    spows_add(s, 1, 1);
    spows_add(s, 1, 2);
    spows_add(s, 1, 3);
    spows_add(s, 2, 1);
    spows_add(s, 2, 2);
    spows_add(s, 2, 3);
    spows_add(s, 3, 1);
    spows_add(s, 3, 2);
    spows_add(s, 3, 3);
    let p1 = spows(s, 1);
    let p2 = spows(s, 2);
    let p3 = spows(s, 3);
    let p4 = spows(s, 4);
    let p5 = spows(s, 5);
    let p6 = spows(s, 6);
    let r0 = (1real) * y;
    let r1 = (3real) * (p1 * y);
    let t1_0 = (1real);
    let t1_1 = t1_0 + (3real) * p1;
    lin_step(t1_0, (3real), p1, p1);
    let t1_2 = t1_1 + (3real) * p2;
    lin_step(t1_1, (3real), p2, p1);
    let t1_3 = t1_2 + (1real) * p3;
    lin_step(t1_2, (1real), p3, p1);
    assert(p1 * p1 == p2) by { commutes(p1, p1); }
    assert(p2 * p1 == p3) by { commutes(p2, p1); }
    assert(p3 * p1 == p4) by { commutes(p3, p1); }
    assert(y == t1_3);
    assert(p1 * y == (1real) * p1 + (3real) * p2 + (3real) * p3 + (1real) * p4) by { commutes(p1, y); }
    let r2 = (3real) * (p2 * y);
    let t2_0 = (1real);
    let t2_1 = t2_0 + (3real) * p1;
    lin_step(t2_0, (3real), p1, p2);
    let t2_2 = t2_1 + (3real) * p2;
    lin_step(t2_1, (3real), p2, p2);
    let t2_3 = t2_2 + (1real) * p3;
    lin_step(t2_2, (1real), p3, p2);
    assert(p1 * p2 == p3) by { commutes(p1, p2); }
    assert(p2 * p2 == p4) by { commutes(p2, p2); }
    assert(p3 * p2 == p5) by { commutes(p3, p2); }
    assert(y == t2_3);
    assert(p2 * y == (1real) * p2 + (3real) * p3 + (3real) * p4 + (1real) * p5) by { commutes(p2, y); }
    let r3 = (1real) * (p3 * y);
    let t3_0 = (1real);
    let t3_1 = t3_0 + (3real) * p1;
    lin_step(t3_0, (3real), p1, p3);
    let t3_2 = t3_1 + (3real) * p2;
    lin_step(t3_1, (3real), p2, p3);
    let t3_3 = t3_2 + (1real) * p3;
    lin_step(t3_2, (1real), p3, p3);
    assert(p1 * p3 == p4) by { commutes(p1, p3); }
    assert(p2 * p3 == p5) by { commutes(p2, p3); }
    assert(p3 * p3 == p6) by { commutes(p3, p3); }
    assert(y == t3_3);
    assert(p3 * y == (1real) * p3 + (3real) * p4 + (3real) * p5 + (1real) * p6) by { commutes(p3, y); }
    let s_0 = (1real);
    let s_1 = s_0 + (3real) * p1;
    lin_step(s_0, (3real), p1, y);
    let s_2 = s_1 + (3real) * p2;
    lin_step(s_1, (3real), p2, y);
    let s_3 = s_2 + (1real) * p3;
    lin_step(s_2, (1real), p3, y);
    assert(x == s_3);
    assert(x * y == r0 + r1 + r2 + r3);
}
pub proof fn pow24_t6_sq(s: real, x: real, y: real)
    requires x == (1real) + (6real) * spows(s, 1) + (15real) * spows(s, 2) + (20real) * spows(s, 3) + (15real) * spows(s, 4) + (6real) * spows(s, 5) + (1real) * spows(s, 6), y == (1real) + (6real) * spows(s, 1) + (15real) * spows(s, 2) + (20real) * spows(s, 3) + (15real) * spows(s, 4) + (6real) * spows(s, 5) + (1real) * spows(s, 6)
    ensures x * y == (1real) + (12real) * spows(s, 1) + (66real) * spows(s, 2) + (220real) * spows(s, 3) + (495real) * spows(s, 4) + (792real) * spows(s, 5) + (924real) * spows(s, 6) + (792real) * spows(s, 7) + (495real) * spows(s, 8) + (220real) * spows(s, 9) + (66real) * spows(s, 10) + (12real) * spows(s, 11) + (1real) * spows(s, 12)
{
    spows_add(s, 1, 1);
    spows_add(s, 1, 2);
    spows_add(s, 1, 3);
    spows_add(s, 1, 4);
    spows_add(s, 1, 5);
    spows_add(s, 1, 6);
    spows_add(s, 2, 1);
    spows_add(s, 2, 2);
    spows_add(s, 2, 3);
    spows_add(s, 2, 4);
    spows_add(s, 2, 5);
    spows_add(s, 2, 6);
    spows_add(s, 3, 1);
    spows_add(s, 3, 2);
    spows_add(s, 3, 3);
    spows_add(s, 3, 4);
    spows_add(s, 3, 5);
    spows_add(s, 3, 6);
    spows_add(s, 4, 1);
    spows_add(s, 4, 2);
    spows_add(s, 4, 3);
    spows_add(s, 4, 4);
    spows_add(s, 4, 5);
    spows_add(s, 4, 6);
    spows_add(s, 5, 1);
    spows_add(s, 5, 2);
    spows_add(s, 5, 3);
    spows_add(s, 5, 4);
    spows_add(s, 5, 5);
    spows_add(s, 5, 6);
    spows_add(s, 6, 1);
    spows_add(s, 6, 2);
    spows_add(s, 6, 3);
    spows_add(s, 6, 4);
    spows_add(s, 6, 5);
    spows_add(s, 6, 6);
    let p1 = spows(s, 1);
    let p2 = spows(s, 2);
    let p3 = spows(s, 3);
    let p4 = spows(s, 4);
    let p5 = spows(s, 5);
    let p6 = spows(s, 6);
    let p7 = spows(s, 7);
    let p8 = spows(s, 8);
    let p9 = spows(s, 9);
    let p10 = spows(s, 10);
    let p11 = spows(s, 11);
    let p12 = spows(s, 12);
    let r0 = (1real) * y;
    let r1 = (6real) * (p1 * y);
    let t1_0 = (1real);
    let t1_1 = t1_0 + (6real) * p1;
    lin_step(t1_0, (6real), p1, p1);
    let t1_2 = t1_1 + (15real) * p2;
    lin_step(t1_1, (15real), p2, p1);
    let t1_3 = t1_2 + (20real) * p3;
    lin_step(t1_2, (20real), p3, p1);
    let t1_4 = t1_3 + (15real) * p4;
    lin_step(t1_3, (15real), p4, p1);
    let t1_5 = t1_4 + (6real) * p5;
    lin_step(t1_4, (6real), p5, p1);
    let t1_6 = t1_5 + (1real) * p6;
    lin_step(t1_5, (1real), p6, p1);
    assert(p1 * p1 == p2) by { commutes(p1, p1); }
    assert(p2 * p1 == p3) by { commutes(p2, p1); }
    assert(p3 * p1 == p4) by { commutes(p3, p1); }
    assert(p4 * p1 == p5) by { commutes(p4, p1); }
    assert(p5 * p1 == p6) by { commutes(p5, p1); }
    assert(p6 * p1 == p7) by { commutes(p6, p1); }
    assert(y == t1_6);
    assert(p1 * y == (1real) * p1 + (6real) * p2 + (15real) * p3 + (20real) * p4 + (15real) * p5 + (6real) * p6 + (1real) * p7) by { commutes(p1, y); }
    let r2 = (15real) * (p2 * y);
    let t2_0 = (1real);
    let t2_1 = t2_0 + (6real) * p1;
    lin_step(t2_0, (6real), p1, p2);
    let t2_2 = t2_1 + (15real) * p2;
    lin_step(t2_1, (15real), p2, p2);
    let t2_3 = t2_2 + (20real) * p3;
    lin_step(t2_2, (20real), p3, p2);
    let t2_4 = t2_3 + (15real) * p4;
    lin_step(t2_3, (15real), p4, p2);
    let t2_5 = t2_4 + (6real) * p5;
    lin_step(t2_4, (6real), p5, p2);
    let t2_6 = t2_5 + (1real) * p6;
    lin_step(t2_5, (1real), p6, p2);
    assert(p1 * p2 == p3) by { commutes(p1, p2); }
    assert(p2 * p2 == p4) by { commutes(p2, p2); }
    assert(p3 * p2 == p5) by { commutes(p3, p2); }
    assert(p4 * p2 == p6) by { commutes(p4, p2); }
    assert(p5 * p2 == p7) by { commutes(p5, p2); }
    assert(p6 * p2 == p8) by { commutes(p6, p2); }
    assert(y == t2_6);
    assert(p2 * y == (1real) * p2 + (6real) * p3 + (15real) * p4 + (20real) * p5 + (15real) * p6 + (6real) * p7 + (1real) * p8) by { commutes(p2, y); }
    let r3 = (20real) * (p3 * y);
    let t3_0 = (1real);
    let t3_1 = t3_0 + (6real) * p1;
    lin_step(t3_0, (6real), p1, p3);
    let t3_2 = t3_1 + (15real) * p2;
    lin_step(t3_1, (15real), p2, p3);
    let t3_3 = t3_2 + (20real) * p3;
    lin_step(t3_2, (20real), p3, p3);
    let t3_4 = t3_3 + (15real) * p4;
    lin_step(t3_3, (15real), p4, p3);
    let t3_5 = t3_4 + (6real) * p5;
    lin_step(t3_4, (6real), p5, p3);
    let t3_6 = t3_5 + (1real) * p6;
    lin_step(t3_5, (1real), p6, p3);
    assert(p1 * p3 == p4) by { commutes(p1, p3); }
    assert(p2 * p3 == p5) by { commutes(p2, p3); }
    assert(p3 * p3 == p6) by { commutes(p3, p3); }
    assert(p4 * p3 == p7) by { commutes(p4, p3); }
    assert(p5 * p3 == p8) by { commutes(p5, p3); }
    assert(p6 * p3 == p9) by { commutes(p6, p3); }
    assert(y == t3_6);
    assert(p3 * y == (1real) * p3 + (6real) * p4 + (15real) * p5 + (20real) * p6 + (15real) * p7 + (6real) * p8 + (1real) * p9) by { commutes(p3, y); }
    let r4 = (15real) * (p4 * y);
    let t4_0 = (1real);
    let t4_1 = t4_0 + (6real) * p1;
    lin_step(t4_0, (6real), p1, p4);
    let t4_2 = t4_1 + (15real) * p2;
    lin_step(t4_1, (15real), p2, p4);
    let t4_3 = t4_2 + (20real) * p3;
    lin_step(t4_2, (20real), p3, p4);
    let t4_4 = t4_3 + (15real) * p4;
    lin_step(t4_3, (15real), p4, p4);
    let t4_5 = t4_4 + (6real) * p5;
    lin_step(t4_4, (6real), p5, p4);
    let t4_6 = t4_5 + (1real) * p6;
    lin_step(t4_5, (1real), p6, p4);
    assert(p1 * p4 == p5) by { commutes(p1, p4); }
    assert(p2 * p4 == p6) by { commutes(p2, p4); }
    assert(p3 * p4 == p7) by { commutes(p3, p4); }
    assert(p4 * p4 == p8) by { commutes(p4, p4); }
    assert(p5 * p4 == p9) by { commutes(p5, p4); }
    assert(p6 * p4 == p10) by { commutes(p6, p4); }
    assert(y == t4_6);
    assert(p4 * y == (1real) * p4 + (6real) * p5 + (15real) * p6 + (20real) * p7 + (15real) * p8 + (6real) * p9 + (1real) * p10) by { commutes(p4, y); }
    let r5 = (6real) * (p5 * y);
    let t5_0 = (1real);
    let t5_1 = t5_0 + (6real) * p1;
    lin_step(t5_0, (6real), p1, p5);
    let t5_2 = t5_1 + (15real) * p2;
    lin_step(t5_1, (15real), p2, p5);
    let t5_3 = t5_2 + (20real) * p3;
    lin_step(t5_2, (20real), p3, p5);
    let t5_4 = t5_3 + (15real) * p4;
    lin_step(t5_3, (15real), p4, p5);
    let t5_5 = t5_4 + (6real) * p5;
    lin_step(t5_4, (6real), p5, p5);
    let t5_6 = t5_5 + (1real) * p6;
    lin_step(t5_5, (1real), p6, p5);
    assert(p1 * p5 == p6) by { commutes(p1, p5); }
    assert(p2 * p5 == p7) by { commutes(p2, p5); }
    assert(p3 * p5 == p8) by { commutes(p3, p5); }
    assert(p4 * p5 == p9) by { commutes(p4, p5); }
    assert(p5 * p5 == p10) by { commutes(p5, p5); }
    assert(p6 * p5 == p11) by { commutes(p6, p5); }
    assert(y == t5_6);
    assert(p5 * y == (1real) * p5 + (6real) * p6 + (15real) * p7 + (20real) * p8 + (15real) * p9 + (6real) * p10 + (1real) * p11) by { commutes(p5, y); }
    let r6 = (1real) * (p6 * y);
    let t6_0 = (1real);
    let t6_1 = t6_0 + (6real) * p1;
    lin_step(t6_0, (6real), p1, p6);
    let t6_2 = t6_1 + (15real) * p2;
    lin_step(t6_1, (15real), p2, p6);
    let t6_3 = t6_2 + (20real) * p3;
    lin_step(t6_2, (20real), p3, p6);
    let t6_4 = t6_3 + (15real) * p4;
    lin_step(t6_3, (15real), p4, p6);
    let t6_5 = t6_4 + (6real) * p5;
    lin_step(t6_4, (6real), p5, p6);
    let t6_6 = t6_5 + (1real) * p6;
    lin_step(t6_5, (1real), p6, p6);
    assert(p1 * p6 == p7) by { commutes(p1, p6); }
    assert(p2 * p6 == p8) by { commutes(p2, p6); }
    assert(p3 * p6 == p9) by { commutes(p3, p6); }
    assert(p4 * p6 == p10) by { commutes(p4, p6); }
    assert(p5 * p6 == p11) by { commutes(p5, p6); }
    assert(p6 * p6 == p12) by { commutes(p6, p6); }
    assert(y == t6_6);
    assert(p6 * y == (1real) * p6 + (6real) * p7 + (15real) * p8 + (20real) * p9 + (15real) * p10 + (6real) * p11 + (1real) * p12) by { commutes(p6, y); }
    let s_0 = (1real);
    let s_1 = s_0 + (6real) * p1;
    lin_step(s_0, (6real), p1, y);
    let s_2 = s_1 + (15real) * p2;
    lin_step(s_1, (15real), p2, y);
    let s_3 = s_2 + (20real) * p3;
    lin_step(s_2, (20real), p3, y);
    let s_4 = s_3 + (15real) * p4;
    lin_step(s_3, (15real), p4, y);
    let s_5 = s_4 + (6real) * p5;
    lin_step(s_4, (6real), p5, y);
    let s_6 = s_5 + (1real) * p6;
    lin_step(s_5, (1real), p6, y);
    assert(x == s_6);
    assert(x * y == r0 + r1 + r2 + r3 + r4 + r5 + r6);
}
pub proof fn pow24_scale(q1: real, q2: real, q3: real, e: real) requires e == (1real) + (12real * q1 / 5real) + (42real * q2 / 25real) + (28real * q3 / 125real) ensures 125real * e == (125real) + (300real * q1) + (210real * q2) + (28real * q3) { }
/// est^5 and t^12, where t = 1 + s
pub proof fn pow24_accuracy(s: real, e: real, t: real)
    requires -1real / 15real <= s <= 1real / 15real, t == 1real + s, e == (1real) + (12real * spows(s, 1) / 5real) + (42real * spows(s, 2) / 25real) + (28real * spows(s, 3) / 125real)
    ensures -(151real / 25000000real) <= r_powi(e, 5) - r_powi(t, 12) <= (151real / 25000000real)
{
    reveal_with_fuel(r_powi, 13);
    reveal_with_fuel(spows, 2);
    let e_ = e;
    let e = 125real * e_;
    pow24_scale(spows(s, 1), spows(s, 2), spows(s, 3), e_);
    assert(t == (1real) + (1real) * spows(s, 1));
    let e2 = e * e;
    pow24_e1_sq(s, e, e);
    let e4 = e2 * e2;
    pow24_e2_sq(s, e2, e2);
    let e5 = e4 * e;
    pow24_e4_times(s, e4, e);
    let t2 = t * t;
    pow24_t1_sq(s, t, t);
    let t3 = t2 * t;
    pow24_t2_times(s, t2, t);
    let t6 = t3 * t3;
    pow24_t3_sq(s, t3, t3);
    let t12 = t6 * t6;
    pow24_t6_sq(s, t6, t6);
    assert(e5 == r_powi(e, 5)) by { powi_chain_5(e); }
    assert(r_powi(e, 5) == 30517578125real * r_powi(e_, 5)) by { powi_chain_5(e); powi_chain_5(e_); assert(((((125real * e_) * (125real * e_)) * ((125real * e_) * (125real * e_))) * (125real * e_)) == 30517578125real * (((e_ * e_) * (e_ * e_)) * e_)) by(nonlinear_arith); }
    assert(t12 == r_powi(t, 12)) by { powi_chain_12(t); }
    spows_bound(s, 4);
    spows_bound(s, 5);
    spows_bound(s, 6);
    spows_bound(s, 7);
    spows_bound(s, 8);
    spows_bound(s, 9);
    spows_bound(s, 10);
    spows_bound(s, 11);
    spows_bound(s, 12);
    spows_bound(s, 13);
    spows_bound(s, 14);
    spows_bound(s, 15);
    reveal_with_fuel(spow_bound, 17);
}
pub proof fn cbrt_e1_sq(s: real, x: real, y: real)
    requires x == (81real) + (27real) * spows(s, 1) + (-9real) * spows(s, 2) + (5real) * spows(s, 3), y == (81real) + (27real) * spows(s, 1) + (-9real) * spows(s, 2) + (5real) * spows(s, 3)
    ensures x * y == (6561real) + (4374real) * spows(s, 1) + (-729real) * spows(s, 2) + (324real) * spows(s, 3) + (351real) * spows(s, 4) + (-90real) * spows(s, 5) + (25real) * spows(s, 6)
{
    spows_add(s, 1, 1);
    spows_add(s, 1, 2);
    spows_add(s, 1, 3);
    spows_add(s, 2, 1);
    spows_add(s, 2, 2);
    spows_add(s, 2, 3);
    spows_add(s, 3, 1);
    spows_add(s, 3, 2);
    spows_add(s, 3, 3);
    let p1 = spows(s, 1);
    let p2 = spows(s, 2);
    let p3 = spows(s, 3);
    let p4 = spows(s, 4);
    let p5 = spows(s, 5);
    let p6 = spows(s, 6);
    let r0 = (81real) * y;
    let r1 = (27real) * (p1 * y);
    let t1_0 = (81real);
    let t1_1 = t1_0 + (27real) * p1;
    lin_step(t1_0, (27real), p1, p1);
    let t1_2 = t1_1 + (-9real) * p2;
    lin_step(t1_1, (-9real), p2, p1);
    let t1_3 = t1_2 + (5real) * p3;
    lin_step(t1_2, (5real), p3, p1);
    assert(p1 * p1 == p2) by { commutes(p1, p1); }
    assert(p2 * p1 == p3) by { commutes(p2, p1); }
    assert(p3 * p1 == p4) by { commutes(p3, p1); }
    assert(y == t1_3);
    assert(p1 * y == (81real) * p1 + (27real) * p2 + (-9real) * p3 + (5real) * p4) by { commutes(p1, y); }
    let r2 = (-9real) * (p2 * y);
    let t2_0 = (81real);
    let t2_1 = t2_0 + (27real) * p1;
    lin_step(t2_0, (27real), p1, p2);
    let t2_2 = t2_1 + (-9real) * p2;
    lin_step(t2_1, (-9real), p2, p2);
    let t2_3 = t2_2 + (5real) * p3;
    lin_step(t2_2, (5real), p3, p2);
    assert(p1 * p2 == p3) by { commutes(p1, p2); }
    assert(p2 * p2 == p4) by { commutes(p2, p2); }
    assert(p3 * p2 == p5) by { commutes(p3, p2); }
    assert(y == t2_3);
    assert(p2 * y == (81real) * p2 + (27real) * p3 + (-9real) * p4 + (5real) * p5) by { commutes(p2, y); }
    let r3 = (5real) * (p3 * y);
    let t3_0 = (81real);
    let t3_1 = t3_0 + (27real) * p1;
    lin_step(t3_0, (27real), p1, p3);
    let t3_2 = t3_1 + (-9real) * p2;
    lin_step(t3_1, (-9real), p2, p3);
    let t3_3 = t3_2 + (5real) * p3;
    lin_step(t3_2, (5real), p3, p3);
    assert(p1 * p3 == p4) by { commutes(p1, p3); }
    assert(p2 * p3 == p5) by { commutes(p2, p3); }
    assert(p3 * p3 == p6) by { commutes(p3, p3); }
    assert(y == t3_3);
    assert(p3 * y == (81real) * p3 + (27real) * p4 + (-9real) * p5 + (5real) * p6) by { commutes(p3, y); }
    let s_0 = (81real);
    let s_1 = s_0 + (27real) * p1;
    lin_step(s_0, (27real), p1, y);
    let s_2 = s_1 + (-9real) * p2;
    lin_step(s_1, (-9real), p2, y);
    let s_3 = s_2 + (5real) * p3;
    lin_step(s_2, (5real), p3, y);
    assert(x == s_3);
    assert(x * y == r0 + r1 + r2 + r3);
}
pub proof fn cbrt_e2_times(s: real, x: real, y: real)
    requires x == (6561real) + (4374real) * spows(s, 1) + (-729real) * spows(s, 2) + (324real) * spows(s, 3) + (351real) * spows(s, 4) + (-90real) * spows(s, 5) + (25real) * spows(s, 6), y == (81real) + (27real) * spows(s, 1) + (-9real) * spows(s, 2) + (5real) * spows(s, 3)
    ensures x * y == (531441real) + (531441real) * spows(s, 1) + (65610real) * spows(s, 4) + (-4374real) * spows(s, 5) + (-1944real) * spows(s, 6) + (3240real) * spows(s, 7) + (-675real) * spows(s, 8) + (125real) * spows(s, 9)
{
    spows_add(s, 1, 1);
    spows_add(s, 1, 2);
    spows_add(s, 1, 3);
    spows_add(s, 2, 1);
    spows_add(s, 2, 2);
    spows_add(s, 2, 3);
    spows_add(s, 3, 1);
    spows_add(s, 3, 2);
    spows_add(s, 3, 3);
    spows_add(s, 4, 1);
    spows_add(s, 4, 2);
    spows_add(s, 4, 3);
    spows_add(s, 5, 1);
    spows_add(s, 5, 2);
    spows_add(s, 5, 3);
    spows_add(s, 6, 1);
    spows_add(s, 6, 2);
    spows_add(s, 6, 3);
    let p1 = spows(s, 1);
    let p2 = spows(s, 2);
    let p3 = spows(s, 3);
    let p4 = spows(s, 4);
    let p5 = spows(s, 5);
    let p6 = spows(s, 6);
    let p7 = spows(s, 7);
    let p8 = spows(s, 8);
    let p9 = spows(s, 9);
    let r0 = (6561real) * y;
    let r1 = (4374real) * (p1 * y);
    let t1_0 = (81real);
    let t1_1 = t1_0 + (27real) * p1;
    lin_step(t1_0, (27real), p1, p1);
    let t1_2 = t1_1 + (-9real) * p2;
    lin_step(t1_1, (-9real), p2, p1);
    let t1_3 = t1_2 + (5real) * p3;
    lin_step(t1_2, (5real), p3, p1);
    assert(p1 * p1 == p2) by { commutes(p1, p1); }
    assert(p2 * p1 == p3) by { commutes(p2, p1); }
    assert(p3 * p1 == p4) by { commutes(p3, p1); }
    assert(y == t1_3);
    assert(p1 * y == (81real) * p1 + (27real) * p2 + (-9real) * p3 + (5real) * p4) by { commutes(p1, y); }
    let r2 = (-729real) * (p2 * y);
    let t2_0 = (81real);
    let t2_1 = t2_0 + (27real) * p1;
    lin_step(t2_0, (27real), p1, p2);
    let t2_2 = t2_1 + (-9real) * p2;
    lin_step(t2_1, (-9real), p2, p2);
    let t2_3 = t2_2 + (5real) * p3;
    lin_step(t2_2, (5real), p3, p2);
    assert(p1 * p2 == p3) by { commutes(p1, p2); }
    assert(p2 * p2 == p4) by { commutes(p2, p2); }
    assert(p3 * p2 == p5) by { commutes(p3, p2); }
    assert(y == t2_3);
    assert(p2 * y == (81real) * p2 + (27real) * p3 + (-9real) * p4 + (5real) * p5) by { commutes(p2, y); }
    let r3 = (324real) * (p3 * y);
    let t3_0 = (81real);
    let t3_1 = t3_0 + (27real) * p1;
    lin_step(t3_0, (27real), p1, p3);
    let t3_2 = t3_1 + (-9real) * p2;
    lin_step(t3_1, (-9real), p2, p3);
    let t3_3 = t3_2 + (5real) * p3;
    lin_step(t3_2, (5real), p3, p3);
    assert(p1 * p3 == p4) by { commutes(p1, p3); }
    assert(p2 * p3 == p5) by { commutes(p2, p3); }
    assert(p3 * p3 == p6) by { commutes(p3, p3); }
    assert(y == t3_3);
    assert(p3 * y == (81real) * p3 + (27real) * p4 + (-9real) * p5 + (5real) * p6) by { commutes(p3, y); }
    let r4 = (351real) * (p4 * y);
    let t4_0 = (81real);
    let t4_1 = t4_0 + (27real) * p1;
    lin_step(t4_0, (27real), p1, p4);
    let t4_2 = t4_1 + (-9real) * p2;
    lin_step(t4_1, (-9real), p2, p4);
    let t4_3 = t4_2 + (5real) * p3;
    lin_step(t4_2, (5real), p3, p4);
    assert(p1 * p4 == p5) by { commutes(p1, p4); }
    assert(p2 * p4 == p6) by { commutes(p2, p4); }
    assert(p3 * p4 == p7) by { commutes(p3, p4); }
    assert(y == t4_3);
    assert(p4 * y == (81real) * p4 + (27real) * p5 + (-9real) * p6 + (5real) * p7) by { commutes(p4, y); }
    let r5 = (-90real) * (p5 * y);
    let t5_0 = (81real);
    let t5_1 = t5_0 + (27real) * p1;
    lin_step(t5_0, (27real), p1, p5);
    let t5_2 = t5_1 + (-9real) * p2;
    lin_step(t5_1, (-9real), p2, p5);
    let t5_3 = t5_2 + (5real) * p3;
    lin_step(t5_2, (5real), p3, p5);
    assert(p1 * p5 == p6) by { commutes(p1, p5); }
    assert(p2 * p5 == p7) by { commutes(p2, p5); }
    assert(p3 * p5 == p8) by { commutes(p3, p5); }
    assert(y == t5_3);
    assert(p5 * y == (81real) * p5 + (27real) * p6 + (-9real) * p7 + (5real) * p8) by { commutes(p5, y); }
    let r6 = (25real) * (p6 * y);
    let t6_0 = (81real);
    let t6_1 = t6_0 + (27real) * p1;
    lin_step(t6_0, (27real), p1, p6);
    let t6_2 = t6_1 + (-9real) * p2;
    lin_step(t6_1, (-9real), p2, p6);
    let t6_3 = t6_2 + (5real) * p3;
    lin_step(t6_2, (5real), p3, p6);
    assert(p1 * p6 == p7) by { commutes(p1, p6); }
    assert(p2 * p6 == p8) by { commutes(p2, p6); }
    assert(p3 * p6 == p9) by { commutes(p3, p6); }
    assert(y == t6_3);
    assert(p6 * y == (81real) * p6 + (27real) * p7 + (-9real) * p8 + (5real) * p9) by { commutes(p6, y); }
    let s_0 = (6561real);
    let s_1 = s_0 + (4374real) * p1;
    lin_step(s_0, (4374real), p1, y);
    let s_2 = s_1 + (-729real) * p2;
    lin_step(s_1, (-729real), p2, y);
    let s_3 = s_2 + (324real) * p3;
    lin_step(s_2, (324real), p3, y);
    let s_4 = s_3 + (351real) * p4;
    lin_step(s_3, (351real), p4, y);
    let s_5 = s_4 + (-90real) * p5;
    lin_step(s_4, (-90real), p5, y);
    let s_6 = s_5 + (25real) * p6;
    lin_step(s_5, (25real), p6, y);
    assert(x == s_6);
    assert(x * y == r0 + r1 + r2 + r3 + r4 + r5 + r6);
}
pub proof fn cbrt_scale(q1: real, q2: real, q3: real, e: real) requires e == (1real) + (1real * q1 / 3real) + (-(1real * q2 / 9real)) + (5real * q3 / 81real) ensures 81real * e == (81real) + (27real * q1) + (-(9real * q2)) + (5real * q3) { }
/// est^3 and t^1, where t = 1 + s
pub proof fn cbrt_accuracy(s: real, e: real, t: real)
    requires -1real / 15real <= s <= 1real / 15real, t == 1real + s, e == (1real) + (1real * spows(s, 1) / 3real) + (-(1real * spows(s, 2) / 9real)) + (5real * spows(s, 3) / 81real)
    ensures -(49real / 20000000real) <= r_powi(e, 3) - r_powi(t, 1) <= (49real / 20000000real)
{
    reveal_with_fuel(r_powi, 4);
    reveal_with_fuel(spows, 2);
    let e_ = e;
    let e = 81real * e_;
    cbrt_scale(spows(s, 1), spows(s, 2), spows(s, 3), e_);
    assert(t == (1real) + (1real) * spows(s, 1));
    let e2 = e * e;
    cbrt_e1_sq(s, e, e);
    let e3 = e2 * e;
    cbrt_e2_times(s, e2, e);
    assert(e3 == r_powi(e, 3)) by { powi_chain_3(e); }
    assert(r_powi(e, 3) == 531441real * r_powi(e_, 3)) by { powi_chain_3(e); powi_chain_3(e_); assert((((81real * e_) * (81real * e_)) * (81real * e_)) == 531441real * ((e_ * e_) * e_)) by(nonlinear_arith); }
    spows_bound(s, 4);
    spows_bound(s, 5);
    spows_bound(s, 6);
    spows_bound(s, 7);
    spows_bound(s, 8);
    spows_bound(s, 9);
    reveal_with_fuel(spow_bound, 11);
}
