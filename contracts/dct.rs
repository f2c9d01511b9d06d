// ------------------- the transform of eight numbers, step by step (generated by tools/dct.py)
#[verifier::opaque]
pub open spec fn half(a: int) -> int { if a < 0 { -((-a) / 2) } else { a / 2 } }
#[verifier::opaque]
pub open spec fn sh(a: int, one: int) -> int { a / one }
pub open spec fn rs(a: int, k: int, one: int) -> int { sh(a * k + one / 2, one) }
/// all of the values of the lifting scheme
pub struct Lift { pub t1a: int, pub th1: int, pub t0a: int, pub t4a: int, pub th4: int, pub t5a: int, pub t3a: int, pub h3: int, pub t2a: int, pub t6a: int, pub th6: int, pub t7a: int, pub t0b: int, pub t6b: int, pub t2b: int, pub t4b: int, pub r1: int, pub t0c: int, pub r2: int, pub t4c: int, pub r3: int, pub t0d: int, pub r4: int, pub t6c: int, pub r5: int, pub t2c: int, pub r6: int, pub t6d: int, pub r7: int, pub t3b: int, pub r8: int, pub t5b: int, pub r9: int, pub t3c: int, pub h5: int, pub t7b: int, pub t5c: int, pub t3d: int, pub t1b: int, pub r10: int, pub t7c: int, pub r11: int, pub t1c: int, pub r12: int, pub t7d: int, pub r13: int, pub t5d: int, pub r14: int, pub t3e: int, pub r15: int, pub t5e: int }
#[verifier::opaque]
pub open spec fn lift(x: Seq<int>) -> Lift {
    let (x0, x1, x2, x3, x4, x5, x6, x7) = (x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]);
    let t1a = x0 - x7;
    let th1 = half(t1a);
    let t0a = x0 - th1;
    let t4a = x1 + x6;
    let th4 = half(t4a);
    let t5a = x6 - th4;
    let t3a = x2 - x5;
    let h3 = half(t3a);
    let t2a = x2 - h3;
    let t6a = x3 + x4;
    let th6 = half(t6a);
    let t7a = th6 - x4;
    let t0b = t0a + th6;
    let t6b = t0b - t6a;
    let t2b = th4 - t2a;
    let t4b = t2b - t4a;
    let r1 = rs(t4b, 13573, 32768);
    let t0c = t0b - r1;
    let r2 = rs(t0c, 11585, 16384);
    let t4c = t4b + r2;
    let r3 = rs(t4c, 13573, 32768);
    let t0d = t0c - r3;
    let r4 = rs(t2b, 21895, 32768);
    let t6c = t6b - r4;
    let r5 = rs(t6c, 15137, 16384);
    let t2c = t2b + r5;
    let r6 = rs(t2c, 21895, 32768);
    let t6d = t6c - r6;
    let r7 = rs(t5a, 19195, 32768);
    let t3b = t3a + r7;
    let r8 = rs(t3b, 11585, 16384);
    let t5b = t5a + r8;
    let r9 = rs(t5b, 7489, 8192);
    let t3c = t3b - r9;
    let h5 = half(t5b);
    let t7b = h5 - t7a;
    let t5c = t5b - t7b;
    let t3d = th1 - t3c;
    let t1b = t1a - t3d;
    let r10 = rs(t1b, 3227, 32768);
    let t7c = t7b + r10;
    let r11 = rs(t7c, 6393, 32768);
    let t1c = t1b - r11;
    let r12 = rs(t1c, 3227, 32768);
    let t7d = t7c + r12;
    let r13 = rs(t3d, 2485, 8192);
    let t5d = t5c + r13;
    let r14 = rs(t5d, 18205, 32768);
    let t3e = t3d - r14;
    let r15 = rs(t3e, 2485, 8192);
    let t5e = t5d + r15;
    Lift { t1a, th1, t0a, t4a, th4, t5a, t3a, h3, t2a, t6a, th6, t7a, t0b, t6b, t2b, t4b, r1, t0c, r2, t4c, r3, t0d, r4, t6c, r5, t2c, r6, t6d, r7, t3b, r8, t5b, r9, t3c, h5, t7b, t5c, t3d, t1b, r10, t7c, r11, t1c, r12, t7d, r13, t5d, r14, t3e, r15, t5e }
}
/// the integer transform
pub open spec fn fd8(x: Seq<int>) -> Seq<int> { let l = lift(x); seq![l.t0d, l.t1c, l.t2c, l.t3e, l.t4c, l.t5e, l.t6d, l.t7d] }
/// cos(n pi / 16) / 2, to 12 digits
pub open spec fn c16(n: int) -> real {
    if n == 0 { 0.5real } else if n == 1 { 0.490392640202real } else if n == 2 { 0.461939766256real } else if n == 3 { 0.415734806151real }
    else if n == 4 { 0.353553390593real } else if n == 5 { 0.277785116510real } else if n == 6 { 0.191341716183real } else if n == 7 { 0.097545161008real } else { 0real }
}
pub open spec fn cos16(m: int) -> real { if m <= 8 { c16(m) } else if m <= 16 { -c16(16 - m) } else if m <= 24 { -c16(m - 16) } else { c16(32 - m) } }
/// the orthonormal type-II DCT of eight points: weight of input j in output k
#[verifier::opaque]
pub open spec fn dct_w(k: int, j: int) -> real { if k == 0 { c16(4) } else { cos16(((2 * j + 1) * k) % 32) } }
#[verifier::opaque]
pub open spec fn dct8(x: Seq<real>, k: int) -> real {
    dct_w(k, 0) * x[0] + dct_w(k, 1) * x[1] + dct_w(k, 2) * x[2] + dct_w(k, 3) * x[3] + dct_w(k, 4) * x[4] + dct_w(k, 5) * x[5] + dct_w(k, 6) * x[6] + dct_w(k, 7) * x[7]
}
#[verifier::opaque]
pub open spec fn near(a: real, b: real, e: real) -> bool { a <= b + e && b <= a + e }
pub proof fn near_tri(a: real, b: real, c: real, e: real, f: real)
    requires near(b, c, e), near(a - b, 0real, f)
    ensures near(a, c, e + f)
{ reveal(near); }
#[verifier::opaque]
spec fn is_sub(a: real, b: real, c: real) -> bool { a == b - c }
#[verifier::opaque]
spec fn is_add(a: real, b: real, c: real) -> bool { a == b + c }
#[verifier::opaque]
spec fn is_mul(a: real, b: real, k: real, one: real) -> bool { one * a == k * b }
proof fn d_sub(l: int, a: int, b: int, il: real, ia: real, ib: real)
    requires l == a - b, is_sub(il, ia, ib)
    ensures is_sub(l as real - il, a as real - ia, b as real - ib)
{ reveal(is_sub); }
proof fn d_add(l: int, a: int, b: int, il: real, ia: real, ib: real)
    requires l == a + b, is_add(il, ia, ib)
    ensures is_add(l as real - il, a as real - ia, b as real - ib)
{ reveal(is_add); }
proof fn d_half(l: int, a: int, il: real, ia: real)
    requires l == half(a), is_mul(il, ia, 1real, 2real)
    ensures near(2real * (l as real - il), 1real * (a as real - ia), 1real)
{ reveal(is_mul); reveal(half); reveal(near); }
proof fn d_rs(l: int, a: int, il: real, ia: real, k: int, one: int)
    requires l == rs(a, k, one), is_mul(il, ia, k as real, one as real), one == 8192 || one == 16384 || one == 32768
    ensures near(one as real * (l as real - il), k as real * (a as real - ia), (one / 2) as real)
{
    reveal(sh); reveal(is_mul); reveal(near);
    let n = a * k + one / 2;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, one);
    let (lo, p) = (one * l, a * k);
    assert(lo as real == one as real * l as real) by(nonlinear_arith) requires lo == one * l;
    assert(p as real == k as real * a as real) by(nonlinear_arith) requires p == a * k;
    assert(lo <= p + one / 2 && p + one / 2 <= lo + one);
    let (rone, rk, rl, ra) = (one as real, k as real, l as real, a as real);
    assert(rone * (rl - il) == rone * rl - rone * il) by(nonlinear_arith);
    assert(rk * (ra - ia) == rk * ra - rk * ia) by(nonlinear_arith);
}
/// the rounding errors of the even outputs; those of the inputs are 0
proof fn round_even(e_x0: real, e_x1: real, e_x2: real, e_x3: real, e_x4: real, e_x5: real, e_x6: real, e_x7: real, e_t1a: real, e_th1: real, e_t0a: real, e_t4a: real, e_th4: real, e_t3a: real, e_h3: real, e_t2a: real, e_t6a: real, e_th6: real, e_t0b: real, e_t6b: real, e_t2b: real, e_t4b: real, e_r1: real, e_t0c: real, e_r2: real, e_t4c: real, e_r3: real, e_t0d: real, e_r4: real, e_t6c: real, e_r5: real, e_t2c: real, e_r6: real, e_t6d: real)
    requires e_x0 == 0real, e_x1 == 0real, e_x2 == 0real, e_x3 == 0real, e_x4 == 0real, e_x5 == 0real, e_x6 == 0real, e_x7 == 0real, is_sub(e_t1a, e_x0, e_x7), near(2real * e_th1, 1real * e_t1a, 1real), is_sub(e_t0a, e_x0, e_th1), is_add(e_t4a, e_x1, e_x6), near(2real * e_th4, 1real * e_t4a, 1real), is_sub(e_t3a, e_x2, e_x5), near(2real * e_h3, 1real * e_t3a, 1real), is_sub(e_t2a, e_x2, e_h3), is_add(e_t6a, e_x3, e_x4), near(2real * e_th6, 1real * e_t6a, 1real), is_add(e_t0b, e_t0a, e_th6), is_sub(e_t6b, e_t0b, e_t6a), is_sub(e_t2b, e_th4, e_t2a), is_sub(e_t4b, e_t2b, e_t4a), near(32768real * e_r1, 13573real * e_t4b, 16384real), is_sub(e_t0c, e_t0b, e_r1), near(16384real * e_r2, 11585real * e_t0c, 8192real), is_add(e_t4c, e_t4b, e_r2), near(32768real * e_r3, 13573real * e_t4c, 16384real), is_sub(e_t0d, e_t0c, e_r3), near(32768real * e_r4, 21895real * e_t2b, 16384real), is_sub(e_t6c, e_t6b, e_r4), near(16384real * e_r5, 15137real * e_t6c, 8192real), is_add(e_t2c, e_t2b, e_r5), near(32768real * e_r6, 21895real * e_t2c, 16384real), is_sub(e_t6d, e_t6c, e_r6),
    ensures near(e_t1a, 0real, 4real), near(e_th1, 0real, 4real), near(e_t0a, 0real, 4real), near(e_t4a, 0real, 4real), near(e_th4, 0real, 4real), near(e_t3a, 0real, 4real), near(e_h3, 0real, 4real), near(e_t2a, 0real, 4real), near(e_t6a, 0real, 4real), near(e_th6, 0real, 4real), near(e_t0b, 0real, 4real), near(e_t6b, 0real, 4real), near(e_t2b, 0real, 4real), near(e_t4b, 0real, 4real), near(e_t0c, 0real, 4real), near(e_t4c, 0real, 3.46real), near(e_t0d, 0real, 3.46real), near(e_t6c, 0real, 4real), near(e_t2c, 0real, 3.46real), near(e_t6d, 0real, 3.46real),
{ reveal(near); reveal(is_sub); reveal(is_add); }
proof fn bound_even_t1a(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(1real * x0 + (-1real) * x7, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_even_th1(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x0 + (-0.5real) * x7, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_even_t0a(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x0 + 0.5real * x7, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_even_t4a(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(1real * x1 + 1real * x6, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_even_th4(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x1 + 0.5real * x6, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_even_t3a(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(1real * x2 + (-1real) * x5, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_even_h3(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x2 + (-0.5real) * x5, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_even_t2a(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x2 + 0.5real * x5, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_even_t6a(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(1real * x3 + 1real * x4, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_even_th6(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x3 + 0.5real * x4, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_even_t0b(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x0 + 0.5real * x3 + 0.5real * x4 + 0.5real * x7, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_even_t6b(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x0 + (-0.5real) * x3 + (-0.5real) * x4 + 0.5real * x7, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_even_t2b(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x1 + (-0.5real) * x2 + (-0.5real) * x5 + 0.5real * x6, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_even_t4b(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near((-0.5real) * x1 + (-0.5real) * x2 + (-0.5real) * x5 + (-0.5real) * x6, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_even_t0c(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x0 + 0.2071075439453125real * x1 + 0.2071075439453125real * x2 + 0.5real * x3 + 0.5real * x4 + 0.2071075439453125real * x5 + 0.2071075439453125real * x6 + 0.5real * x7, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_even_t4c(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.353546142578125real * x0 + (-0.353555853478610515594482421875real) * x1 + (-0.353555853478610515594482421875real) * x2 + 0.353546142578125real * x3 + 0.353546142578125real * x4 + (-0.353555853478610515594482421875real) * x5 + (-0.353555853478610515594482421875real) * x6 + 0.353546142578125real * x7, 0real, 3.5real * m), near(0.353546142578125real * x0 + (-0.353555853478610515594482421875real) * x1 + (-0.353555853478610515594482421875real) * x2 + 0.353546142578125real * x3 + 0.353546142578125real * x4 + (-0.353555853478610515594482421875real) * x5 + (-0.353555853478610515594482421875real) * x6 + 0.353546142578125real * x7, 0real, 2.8286real * m), near(0.353546142578125real * x0 + (-0.353555853478610515594482421875real) * x1 + (-0.353555853478610515594482421875real) * x2 + 0.353546142578125real * x3 + 0.353546142578125real * x4 + (-0.353555853478610515594482421875real) * x5 + (-0.353555853478610515594482421875real) * x6 + 0.353546142578125real * x7, (0.353553390593real) * x0 + (-0.353553390593real) * x1 + (-0.353553390593real) * x2 + (0.353553390593real) * x3 + (0.353553390593real) * x4 + (-0.353553390593real) * x5 + (-0.353553390593real) * x6 + (0.353553390593real) * x7, 0.000116real * m)
{ reveal(near); }
proof fn bound_even_t0d(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.353555853478610515594482421875real * x0 + 0.353555712868200089360470883548259735107421875real * x1 + 0.353555712868200089360470883548259735107421875real * x2 + 0.353555853478610515594482421875real * x3 + 0.353555853478610515594482421875real * x4 + 0.353555712868200089360470883548259735107421875real * x5 + 0.353555712868200089360470883548259735107421875real * x6 + 0.353555853478610515594482421875real * x7, 0real, 3.5real * m), near(0.353555853478610515594482421875real * x0 + 0.353555712868200089360470883548259735107421875real * x1 + 0.353555712868200089360470883548259735107421875real * x2 + 0.353555853478610515594482421875real * x3 + 0.353555853478610515594482421875real * x4 + 0.353555712868200089360470883548259735107421875real * x5 + 0.353555712868200089360470883548259735107421875real * x6 + 0.353555853478610515594482421875real * x7, 0real, 2.8286real * m), near(0.353555853478610515594482421875real * x0 + 0.353555712868200089360470883548259735107421875real * x1 + 0.353555712868200089360470883548259735107421875real * x2 + 0.353555853478610515594482421875real * x3 + 0.353555853478610515594482421875real * x4 + 0.353555712868200089360470883548259735107421875real * x5 + 0.353555712868200089360470883548259735107421875real * x6 + 0.353555853478610515594482421875real * x7, (0.353553390593real) * x0 + (0.353553390593real) * x1 + (0.353553390593real) * x2 + (0.353553390593real) * x3 + (0.353553390593real) * x4 + (0.353553390593real) * x5 + (0.353553390593real) * x6 + (0.353553390593real) * x7, 0.000116real * m)
{ reveal(near); }
proof fn bound_even_t6c(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x0 + (-0.3340911865234375real) * x1 + 0.3340911865234375real * x2 + (-0.5real) * x3 + (-0.5real) * x4 + 0.3340911865234375real * x5 + (-0.3340911865234375real) * x6 + 0.5real * x7, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_even_t2c(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.461944580078125real * x0 + 0.191336774267256259918212890625real * x1 + (-0.191336774267256259918212890625real) * x2 + (-0.461944580078125real) * x3 + (-0.461944580078125real) * x4 + (-0.191336774267256259918212890625real) * x5 + 0.191336774267256259918212890625real * x6 + 0.461944580078125real * x7, 0real, 3.5real * m), near(0.461944580078125real * x0 + 0.191336774267256259918212890625real * x1 + (-0.191336774267256259918212890625real) * x2 + (-0.461944580078125real) * x3 + (-0.461944580078125real) * x4 + (-0.191336774267256259918212890625real) * x5 + 0.191336774267256259918212890625real * x6 + 0.461944580078125real * x7, 0real, 2.8286real * m), near(0.461944580078125real * x0 + 0.191336774267256259918212890625real * x1 + (-0.191336774267256259918212890625real) * x2 + (-0.461944580078125real) * x3 + (-0.461944580078125real) * x4 + (-0.191336774267256259918212890625real) * x5 + 0.191336774267256259918212890625real * x6 + 0.461944580078125real * x7, (0.461939766256real) * x0 + (0.191341716183real) * x1 + (-0.191341716183real) * x2 + (-0.461939766256real) * x3 + (-0.461939766256real) * x4 + (-0.191341716183real) * x5 + (0.191341716183real) * x6 + (0.461939766256real) * x7, 0.000116real * m)
{ reveal(near); }
proof fn bound_even_t6d(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.191336774267256259918212890625real * x0 + (-0.461939046404467035245033912360668182373046875real) * x1 + 0.461939046404467035245033912360668182373046875real * x2 + (-0.191336774267256259918212890625real) * x3 + (-0.191336774267256259918212890625real) * x4 + 0.461939046404467035245033912360668182373046875real * x5 + (-0.461939046404467035245033912360668182373046875real) * x6 + 0.191336774267256259918212890625real * x7, 0real, 3.5real * m), near(0.191336774267256259918212890625real * x0 + (-0.461939046404467035245033912360668182373046875real) * x1 + 0.461939046404467035245033912360668182373046875real * x2 + (-0.191336774267256259918212890625real) * x3 + (-0.191336774267256259918212890625real) * x4 + 0.461939046404467035245033912360668182373046875real * x5 + (-0.461939046404467035245033912360668182373046875real) * x6 + 0.191336774267256259918212890625real * x7, 0real, 2.8286real * m), near(0.191336774267256259918212890625real * x0 + (-0.461939046404467035245033912360668182373046875real) * x1 + 0.461939046404467035245033912360668182373046875real * x2 + (-0.191336774267256259918212890625real) * x3 + (-0.191336774267256259918212890625real) * x4 + 0.461939046404467035245033912360668182373046875real * x5 + (-0.461939046404467035245033912360668182373046875real) * x6 + 0.191336774267256259918212890625real * x7, (0.191341716183real) * x0 + (-0.461939766256real) * x1 + (0.461939766256real) * x2 + (-0.191341716183real) * x3 + (-0.191341716183real) * x4 + (0.461939766256real) * x5 + (-0.461939766256real) * x6 + (0.191341716183real) * x7, 0.000116real * m)
{ reveal(near); }
/// the even outputs without rounding
proof fn ideal_even(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, i_t1a: real, i_th1: real, i_t0a: real, i_t4a: real, i_th4: real, i_t3a: real, i_h3: real, i_t2a: real, i_t6a: real, i_th6: real, i_t0b: real, i_t6b: real, i_t2b: real, i_t4b: real, i_r1: real, i_t0c: real, i_r2: real, i_t4c: real, i_r3: real, i_t0d: real, i_r4: real, i_t6c: real, i_r5: real, i_t2c: real, i_r6: real, i_t6d: real, m: real)
    requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m), is_sub(i_t1a, x0, x7), is_mul(i_th1, i_t1a, 1real, 2real), is_sub(i_t0a, x0, i_th1), is_add(i_t4a, x1, x6), is_mul(i_th4, i_t4a, 1real, 2real), is_sub(i_t3a, x2, x5), is_mul(i_h3, i_t3a, 1real, 2real), is_sub(i_t2a, x2, i_h3), is_add(i_t6a, x3, x4), is_mul(i_th6, i_t6a, 1real, 2real), is_add(i_t0b, i_t0a, i_th6), is_sub(i_t6b, i_t0b, i_t6a), is_sub(i_t2b, i_th4, i_t2a), is_sub(i_t4b, i_t2b, i_t4a), is_mul(i_r1, i_t4b, 13573real, 32768real), is_sub(i_t0c, i_t0b, i_r1), is_mul(i_r2, i_t0c, 11585real, 16384real), is_add(i_t4c, i_t4b, i_r2), is_mul(i_r3, i_t4c, 13573real, 32768real), is_sub(i_t0d, i_t0c, i_r3), is_mul(i_r4, i_t2b, 21895real, 32768real), is_sub(i_t6c, i_t6b, i_r4), is_mul(i_r5, i_t6c, 15137real, 16384real), is_add(i_t2c, i_t2b, i_r5), is_mul(i_r6, i_t2c, 21895real, 32768real), is_sub(i_t6d, i_t6c, i_r6),
    ensures near(i_t1a, 0real, 3.5real * m), near(i_th1, 0real, 3.5real * m), near(i_t0a, 0real, 3.5real * m), near(i_t4a, 0real, 3.5real * m), near(i_th4, 0real, 3.5real * m), near(i_t3a, 0real, 3.5real * m), near(i_h3, 0real, 3.5real * m), near(i_t2a, 0real, 3.5real * m), near(i_t6a, 0real, 3.5real * m), near(i_th6, 0real, 3.5real * m), near(i_t0b, 0real, 3.5real * m), near(i_t6b, 0real, 3.5real * m), near(i_t2b, 0real, 3.5real * m), near(i_t4b, 0real, 3.5real * m), near(i_t0c, 0real, 3.5real * m), near(i_t4c, 0real, 3.5real * m), near(i_t0d, 0real, 3.5real * m), near(i_t6c, 0real, 3.5real * m), near(i_t2c, 0real, 3.5real * m), near(i_t6d, 0real, 3.5real * m),
        near(i_t0d, (0.353553390593real) * x0 + (0.353553390593real) * x1 + (0.353553390593real) * x2 + (0.353553390593real) * x3 + (0.353553390593real) * x4 + (0.353553390593real) * x5 + (0.353553390593real) * x6 + (0.353553390593real) * x7, 0.000116real * m), near(i_t0d, 0real, 2.8286real * m),
        near(i_t2c, (0.461939766256real) * x0 + (0.191341716183real) * x1 + (-0.191341716183real) * x2 + (-0.461939766256real) * x3 + (-0.461939766256real) * x4 + (-0.191341716183real) * x5 + (0.191341716183real) * x6 + (0.461939766256real) * x7, 0.000116real * m), near(i_t2c, 0real, 2.8286real * m),
        near(i_t4c, (0.353553390593real) * x0 + (-0.353553390593real) * x1 + (-0.353553390593real) * x2 + (0.353553390593real) * x3 + (0.353553390593real) * x4 + (-0.353553390593real) * x5 + (-0.353553390593real) * x6 + (0.353553390593real) * x7, 0.000116real * m), near(i_t4c, 0real, 2.8286real * m),
        near(i_t6d, (0.191341716183real) * x0 + (-0.461939766256real) * x1 + (0.461939766256real) * x2 + (-0.191341716183real) * x3 + (-0.191341716183real) * x4 + (0.461939766256real) * x5 + (-0.461939766256real) * x6 + (0.191341716183real) * x7, 0.000116real * m), near(i_t6d, 0real, 2.8286real * m),
{
    reveal(is_sub); reveal(is_add); reveal(is_mul);
    assert(i_t1a == 1real * x0 + (-1real) * x7);
    bound_even_t1a(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_th1 == 0.5real * x0 + (-0.5real) * x7);
    bound_even_th1(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t0a == 0.5real * x0 + 0.5real * x7);
    bound_even_t0a(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t4a == 1real * x1 + 1real * x6);
    bound_even_t4a(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_th4 == 0.5real * x1 + 0.5real * x6);
    bound_even_th4(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t3a == 1real * x2 + (-1real) * x5);
    bound_even_t3a(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_h3 == 0.5real * x2 + (-0.5real) * x5);
    bound_even_h3(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t2a == 0.5real * x2 + 0.5real * x5);
    bound_even_t2a(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t6a == 1real * x3 + 1real * x4);
    bound_even_t6a(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_th6 == 0.5real * x3 + 0.5real * x4);
    bound_even_th6(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t0b == 0.5real * x0 + 0.5real * x3 + 0.5real * x4 + 0.5real * x7);
    bound_even_t0b(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t6b == 0.5real * x0 + (-0.5real) * x3 + (-0.5real) * x4 + 0.5real * x7);
    bound_even_t6b(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t2b == 0.5real * x1 + (-0.5real) * x2 + (-0.5real) * x5 + 0.5real * x6);
    bound_even_t2b(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t4b == (-0.5real) * x1 + (-0.5real) * x2 + (-0.5real) * x5 + (-0.5real) * x6);
    bound_even_t4b(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_r1 == (-0.2071075439453125real) * x1 + (-0.2071075439453125real) * x2 + (-0.2071075439453125real) * x5 + (-0.2071075439453125real) * x6);
    assert(i_t0c == 0.5real * x0 + 0.2071075439453125real * x1 + 0.2071075439453125real * x2 + 0.5real * x3 + 0.5real * x4 + 0.2071075439453125real * x5 + 0.2071075439453125real * x6 + 0.5real * x7);
    bound_even_t0c(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_r2 == 0.353546142578125real * x0 + 0.146444146521389484405517578125real * x1 + 0.146444146521389484405517578125real * x2 + 0.353546142578125real * x3 + 0.353546142578125real * x4 + 0.146444146521389484405517578125real * x5 + 0.146444146521389484405517578125real * x6 + 0.353546142578125real * x7);
    assert(i_t4c == 0.353546142578125real * x0 + (-0.353555853478610515594482421875real) * x1 + (-0.353555853478610515594482421875real) * x2 + 0.353546142578125real * x3 + 0.353546142578125real * x4 + (-0.353555853478610515594482421875real) * x5 + (-0.353555853478610515594482421875real) * x6 + 0.353546142578125real * x7);
    bound_even_t4c(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_r3 == 0.146444146521389484405517578125real * x0 + (-0.146448168922887589360470883548259735107421875real) * x1 + (-0.146448168922887589360470883548259735107421875real) * x2 + 0.146444146521389484405517578125real * x3 + 0.146444146521389484405517578125real * x4 + (-0.146448168922887589360470883548259735107421875real) * x5 + (-0.146448168922887589360470883548259735107421875real) * x6 + 0.146444146521389484405517578125real * x7);
    assert(i_t0d == 0.353555853478610515594482421875real * x0 + 0.353555712868200089360470883548259735107421875real * x1 + 0.353555712868200089360470883548259735107421875real * x2 + 0.353555853478610515594482421875real * x3 + 0.353555853478610515594482421875real * x4 + 0.353555712868200089360470883548259735107421875real * x5 + 0.353555712868200089360470883548259735107421875real * x6 + 0.353555853478610515594482421875real * x7);
    bound_even_t0d(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_r4 == 0.3340911865234375real * x1 + (-0.3340911865234375real) * x2 + (-0.3340911865234375real) * x5 + 0.3340911865234375real * x6);
    assert(i_t6c == 0.5real * x0 + (-0.3340911865234375real) * x1 + 0.3340911865234375real * x2 + (-0.5real) * x3 + (-0.5real) * x4 + 0.3340911865234375real * x5 + (-0.3340911865234375real) * x6 + 0.5real * x7);
    bound_even_t6c(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_r5 == 0.461944580078125real * x0 + (-0.308663225732743740081787109375real) * x1 + 0.308663225732743740081787109375real * x2 + (-0.461944580078125real) * x3 + (-0.461944580078125real) * x4 + 0.308663225732743740081787109375real * x5 + (-0.308663225732743740081787109375real) * x6 + 0.461944580078125real * x7);
    assert(i_t2c == 0.461944580078125real * x0 + 0.191336774267256259918212890625real * x1 + (-0.191336774267256259918212890625real) * x2 + (-0.461944580078125real) * x3 + (-0.461944580078125real) * x4 + (-0.191336774267256259918212890625real) * x5 + 0.191336774267256259918212890625real * x6 + 0.461944580078125real * x7);
    bound_even_t2c(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_r6 == 0.308663225732743740081787109375real * x0 + 0.127847859881029535245033912360668182373046875real * x1 + (-0.127847859881029535245033912360668182373046875real) * x2 + (-0.308663225732743740081787109375real) * x3 + (-0.308663225732743740081787109375real) * x4 + (-0.127847859881029535245033912360668182373046875real) * x5 + 0.127847859881029535245033912360668182373046875real * x6 + 0.308663225732743740081787109375real * x7);
    assert(i_t6d == 0.191336774267256259918212890625real * x0 + (-0.461939046404467035245033912360668182373046875real) * x1 + 0.461939046404467035245033912360668182373046875real * x2 + (-0.191336774267256259918212890625real) * x3 + (-0.191336774267256259918212890625real) * x4 + 0.461939046404467035245033912360668182373046875real * x5 + (-0.461939046404467035245033912360668182373046875real) * x6 + 0.191336774267256259918212890625real * x7);
    bound_even_t6d(x0, x1, x2, x3, x4, x5, x6, x7, m);
}
proof fn parts_even(x0: int, x1: int, x2: int, x3: int, x4: int, x5: int, x6: int, x7: int, l: Lift, i_t1a: real, i_th1: real, i_t0a: real, i_t4a: real, i_th4: real, i_t3a: real, i_h3: real, i_t2a: real, i_t6a: real, i_th6: real, i_t0b: real, i_t6b: real, i_t2b: real, i_t4b: real, i_r1: real, i_t0c: real, i_r2: real, i_t4c: real, i_r3: real, i_t0d: real, i_r4: real, i_t6c: real, i_r5: real, i_t2c: real, i_r6: real, i_t6d: real, m: real)
    requires near((x0 as real), 0real, m), near((x1 as real), 0real, m), near((x2 as real), 0real, m), near((x3 as real), 0real, m), near((x4 as real), 0real, m), near((x5 as real), 0real, m), near((x6 as real), 0real, m), near((x7 as real), 0real, m), l.t1a == x0 - x7, l.th1 == half(l.t1a), l.t0a == x0 - l.th1, l.t4a == x1 + x6, l.th4 == half(l.t4a), l.t3a == x2 - x5, l.h3 == half(l.t3a), l.t2a == x2 - l.h3, l.t6a == x3 + x4, l.th6 == half(l.t6a), l.t0b == l.t0a + l.th6, l.t6b == l.t0b - l.t6a, l.t2b == l.th4 - l.t2a, l.t4b == l.t2b - l.t4a, l.r1 == rs(l.t4b, 13573, 32768), l.t0c == l.t0b - l.r1, l.r2 == rs(l.t0c, 11585, 16384), l.t4c == l.t4b + l.r2, l.r3 == rs(l.t4c, 13573, 32768), l.t0d == l.t0c - l.r3, l.r4 == rs(l.t2b, 21895, 32768), l.t6c == l.t6b - l.r4, l.r5 == rs(l.t6c, 15137, 16384), l.t2c == l.t2b + l.r5, l.r6 == rs(l.t2c, 21895, 32768), l.t6d == l.t6c - l.r6, is_sub(i_t1a, (x0 as real), (x7 as real)), is_mul(i_th1, i_t1a, 1real, 2real), is_sub(i_t0a, (x0 as real), i_th1), is_add(i_t4a, (x1 as real), (x6 as real)), is_mul(i_th4, i_t4a, 1real, 2real), is_sub(i_t3a, (x2 as real), (x5 as real)), is_mul(i_h3, i_t3a, 1real, 2real), is_sub(i_t2a, (x2 as real), i_h3), is_add(i_t6a, (x3 as real), (x4 as real)), is_mul(i_th6, i_t6a, 1real, 2real), is_add(i_t0b, i_t0a, i_th6), is_sub(i_t6b, i_t0b, i_t6a), is_sub(i_t2b, i_th4, i_t2a), is_sub(i_t4b, i_t2b, i_t4a), is_mul(i_r1, i_t4b, 13573real, 32768real), is_sub(i_t0c, i_t0b, i_r1), is_mul(i_r2, i_t0c, 11585real, 16384real), is_add(i_t4c, i_t4b, i_r2), is_mul(i_r3, i_t4c, 13573real, 32768real), is_sub(i_t0d, i_t0c, i_r3), is_mul(i_r4, i_t2b, 21895real, 32768real), is_sub(i_t6c, i_t6b, i_r4), is_mul(i_r5, i_t6c, 15137real, 16384real), is_add(i_t2c, i_t2b, i_r5), is_mul(i_r6, i_t2c, 21895real, 32768real), is_sub(i_t6d, i_t6c, i_r6),
    ensures near(l.t1a as real, 0real, 3.5real * m + 4real), near(l.th1 as real, 0real, 3.5real * m + 4real), near(l.t0a as real, 0real, 3.5real * m + 4real), near(l.t4a as real, 0real, 3.5real * m + 4real), near(l.th4 as real, 0real, 3.5real * m + 4real), near(l.t3a as real, 0real, 3.5real * m + 4real), near(l.h3 as real, 0real, 3.5real * m + 4real), near(l.t2a as real, 0real, 3.5real * m + 4real), near(l.t6a as real, 0real, 3.5real * m + 4real), near(l.th6 as real, 0real, 3.5real * m + 4real), near(l.t0b as real, 0real, 3.5real * m + 4real), near(l.t6b as real, 0real, 3.5real * m + 4real), near(l.t2b as real, 0real, 3.5real * m + 4real), near(l.t4b as real, 0real, 3.5real * m + 4real), near(l.t0c as real, 0real, 3.5real * m + 4real), near(l.t4c as real, 0real, 3.5real * m + 4real), near(l.t0d as real, 0real, 3.5real * m + 4real), near(l.t6c as real, 0real, 3.5real * m + 4real), near(l.t2c as real, 0real, 3.5real * m + 4real), near(l.t6d as real, 0real, 3.5real * m + 4real),
        near(l.t0d as real, (0.353553390593real) * (x0 as real) + (0.353553390593real) * (x1 as real) + (0.353553390593real) * (x2 as real) + (0.353553390593real) * (x3 as real) + (0.353553390593real) * (x4 as real) + (0.353553390593real) * (x5 as real) + (0.353553390593real) * (x6 as real) + (0.353553390593real) * (x7 as real), 0.000116real * m + 3.46real), near(l.t0d as real, 0real, 2.8286real * m + 3.46real),
        near(l.t2c as real, (0.461939766256real) * (x0 as real) + (0.191341716183real) * (x1 as real) + (-0.191341716183real) * (x2 as real) + (-0.461939766256real) * (x3 as real) + (-0.461939766256real) * (x4 as real) + (-0.191341716183real) * (x5 as real) + (0.191341716183real) * (x6 as real) + (0.461939766256real) * (x7 as real), 0.000116real * m + 3.46real), near(l.t2c as real, 0real, 2.8286real * m + 3.46real),
        near(l.t4c as real, (0.353553390593real) * (x0 as real) + (-0.353553390593real) * (x1 as real) + (-0.353553390593real) * (x2 as real) + (0.353553390593real) * (x3 as real) + (0.353553390593real) * (x4 as real) + (-0.353553390593real) * (x5 as real) + (-0.353553390593real) * (x6 as real) + (0.353553390593real) * (x7 as real), 0.000116real * m + 3.46real), near(l.t4c as real, 0real, 2.8286real * m + 3.46real),
        near(l.t6d as real, (0.191341716183real) * (x0 as real) + (-0.461939766256real) * (x1 as real) + (0.461939766256real) * (x2 as real) + (-0.191341716183real) * (x3 as real) + (-0.191341716183real) * (x4 as real) + (0.461939766256real) * (x5 as real) + (-0.461939766256real) * (x6 as real) + (0.191341716183real) * (x7 as real), 0.000116real * m + 3.46real), near(l.t6d as real, 0real, 2.8286real * m + 3.46real),
{
    d_sub(l.t1a, x0, x7, i_t1a, x0 as real, x7 as real);
    d_half(l.th1, l.t1a, i_th1, i_t1a);
    d_sub(l.t0a, x0, l.th1, i_t0a, x0 as real, i_th1);
    d_add(l.t4a, x1, x6, i_t4a, x1 as real, x6 as real);
    d_half(l.th4, l.t4a, i_th4, i_t4a);
    d_sub(l.t3a, x2, x5, i_t3a, x2 as real, x5 as real);
    d_half(l.h3, l.t3a, i_h3, i_t3a);
    d_sub(l.t2a, x2, l.h3, i_t2a, x2 as real, i_h3);
    d_add(l.t6a, x3, x4, i_t6a, x3 as real, x4 as real);
    d_half(l.th6, l.t6a, i_th6, i_t6a);
    d_add(l.t0b, l.t0a, l.th6, i_t0b, i_t0a, i_th6);
    d_sub(l.t6b, l.t0b, l.t6a, i_t6b, i_t0b, i_t6a);
    d_sub(l.t2b, l.th4, l.t2a, i_t2b, i_th4, i_t2a);
    d_sub(l.t4b, l.t2b, l.t4a, i_t4b, i_t2b, i_t4a);
    d_rs(l.r1, l.t4b, i_r1, i_t4b, 13573, 32768);
    d_sub(l.t0c, l.t0b, l.r1, i_t0c, i_t0b, i_r1);
    d_rs(l.r2, l.t0c, i_r2, i_t0c, 11585, 16384);
    d_add(l.t4c, l.t4b, l.r2, i_t4c, i_t4b, i_r2);
    d_rs(l.r3, l.t4c, i_r3, i_t4c, 13573, 32768);
    d_sub(l.t0d, l.t0c, l.r3, i_t0d, i_t0c, i_r3);
    d_rs(l.r4, l.t2b, i_r4, i_t2b, 21895, 32768);
    d_sub(l.t6c, l.t6b, l.r4, i_t6c, i_t6b, i_r4);
    d_rs(l.r5, l.t6c, i_r5, i_t6c, 15137, 16384);
    d_add(l.t2c, l.t2b, l.r5, i_t2c, i_t2b, i_r5);
    d_rs(l.r6, l.t2c, i_r6, i_t2c, 21895, 32768);
    d_sub(l.t6d, l.t6c, l.r6, i_t6d, i_t6c, i_r6);
    ideal_even(x0 as real, x1 as real, x2 as real, x3 as real, x4 as real, x5 as real, x6 as real, x7 as real, i_t1a, i_th1, i_t0a, i_t4a, i_th4, i_t3a, i_h3, i_t2a, i_t6a, i_th6, i_t0b, i_t6b, i_t2b, i_t4b, i_r1, i_t0c, i_r2, i_t4c, i_r3, i_t0d, i_r4, i_t6c, i_r5, i_t2c, i_r6, i_t6d, m);
    round_even(x0 as real - x0 as real, x1 as real - x1 as real, x2 as real - x2 as real, x3 as real - x3 as real, x4 as real - x4 as real, x5 as real - x5 as real, x6 as real - x6 as real, x7 as real - x7 as real, l.t1a as real - i_t1a, l.th1 as real - i_th1, l.t0a as real - i_t0a, l.t4a as real - i_t4a, l.th4 as real - i_th4, l.t3a as real - i_t3a, l.h3 as real - i_h3, l.t2a as real - i_t2a, l.t6a as real - i_t6a, l.th6 as real - i_th6, l.t0b as real - i_t0b, l.t6b as real - i_t6b, l.t2b as real - i_t2b, l.t4b as real - i_t4b, l.r1 as real - i_r1, l.t0c as real - i_t0c, l.r2 as real - i_r2, l.t4c as real - i_t4c, l.r3 as real - i_r3, l.t0d as real - i_t0d, l.r4 as real - i_r4, l.t6c as real - i_t6c, l.r5 as real - i_r5, l.t2c as real - i_t2c, l.r6 as real - i_r6, l.t6d as real - i_t6d);
    near_tri(l.t1a as real, i_t1a, 0real, 3.5real * m, 4real);
    near_tri(l.th1 as real, i_th1, 0real, 3.5real * m, 4real);
    near_tri(l.t0a as real, i_t0a, 0real, 3.5real * m, 4real);
    near_tri(l.t4a as real, i_t4a, 0real, 3.5real * m, 4real);
    near_tri(l.th4 as real, i_th4, 0real, 3.5real * m, 4real);
    near_tri(l.t3a as real, i_t3a, 0real, 3.5real * m, 4real);
    near_tri(l.h3 as real, i_h3, 0real, 3.5real * m, 4real);
    near_tri(l.t2a as real, i_t2a, 0real, 3.5real * m, 4real);
    near_tri(l.t6a as real, i_t6a, 0real, 3.5real * m, 4real);
    near_tri(l.th6 as real, i_th6, 0real, 3.5real * m, 4real);
    near_tri(l.t0b as real, i_t0b, 0real, 3.5real * m, 4real);
    near_tri(l.t6b as real, i_t6b, 0real, 3.5real * m, 4real);
    near_tri(l.t2b as real, i_t2b, 0real, 3.5real * m, 4real);
    near_tri(l.t4b as real, i_t4b, 0real, 3.5real * m, 4real);
    near_tri(l.t0c as real, i_t0c, 0real, 3.5real * m, 4real);
    near_tri(l.t4c as real, i_t4c, 0real, 3.5real * m, 3.46real); near_tri(l.t4c as real, i_t4c, 0real, 2.8286real * m, 3.46real); near_tri(l.t4c as real, i_t4c, (0.353553390593real) * (x0 as real) + (-0.353553390593real) * (x1 as real) + (-0.353553390593real) * (x2 as real) + (0.353553390593real) * (x3 as real) + (0.353553390593real) * (x4 as real) + (-0.353553390593real) * (x5 as real) + (-0.353553390593real) * (x6 as real) + (0.353553390593real) * (x7 as real), 0.000116real * m, 3.46real);
    near_more(l.t4c as real, 0real, 3.5real * m + 3.46real, 3.5real * m + 4real);
    near_tri(l.t0d as real, i_t0d, 0real, 3.5real * m, 3.46real); near_tri(l.t0d as real, i_t0d, 0real, 2.8286real * m, 3.46real); near_tri(l.t0d as real, i_t0d, (0.353553390593real) * (x0 as real) + (0.353553390593real) * (x1 as real) + (0.353553390593real) * (x2 as real) + (0.353553390593real) * (x3 as real) + (0.353553390593real) * (x4 as real) + (0.353553390593real) * (x5 as real) + (0.353553390593real) * (x6 as real) + (0.353553390593real) * (x7 as real), 0.000116real * m, 3.46real);
    near_more(l.t0d as real, 0real, 3.5real * m + 3.46real, 3.5real * m + 4real);
    near_tri(l.t6c as real, i_t6c, 0real, 3.5real * m, 4real);
    near_tri(l.t2c as real, i_t2c, 0real, 3.5real * m, 3.46real); near_tri(l.t2c as real, i_t2c, 0real, 2.8286real * m, 3.46real); near_tri(l.t2c as real, i_t2c, (0.461939766256real) * (x0 as real) + (0.191341716183real) * (x1 as real) + (-0.191341716183real) * (x2 as real) + (-0.461939766256real) * (x3 as real) + (-0.461939766256real) * (x4 as real) + (-0.191341716183real) * (x5 as real) + (0.191341716183real) * (x6 as real) + (0.461939766256real) * (x7 as real), 0.000116real * m, 3.46real);
    near_more(l.t2c as real, 0real, 3.5real * m + 3.46real, 3.5real * m + 4real);
    near_tri(l.t6d as real, i_t6d, 0real, 3.5real * m, 3.46real); near_tri(l.t6d as real, i_t6d, 0real, 2.8286real * m, 3.46real); near_tri(l.t6d as real, i_t6d, (0.191341716183real) * (x0 as real) + (-0.461939766256real) * (x1 as real) + (0.461939766256real) * (x2 as real) + (-0.191341716183real) * (x3 as real) + (-0.191341716183real) * (x4 as real) + (0.461939766256real) * (x5 as real) + (-0.461939766256real) * (x6 as real) + (0.191341716183real) * (x7 as real), 0.000116real * m, 3.46real);
    near_more(l.t6d as real, 0real, 3.5real * m + 3.46real, 3.5real * m + 4real);
}
/// the rounding errors of the odd outputs; those of the inputs are 0
proof fn round_odd(e_x0: real, e_x1: real, e_x2: real, e_x3: real, e_x4: real, e_x5: real, e_x6: real, e_x7: real, e_t1a: real, e_th1: real, e_t4a: real, e_th4: real, e_t5a: real, e_t3a: real, e_t6a: real, e_th6: real, e_t7a: real, e_r7: real, e_t3b: real, e_r8: real, e_t5b: real, e_r9: real, e_t3c: real, e_h5: real, e_t7b: real, e_t5c: real, e_t3d: real, e_t1b: real, e_r10: real, e_t7c: real, e_r11: real, e_t1c: real, e_r12: real, e_t7d: real, e_r13: real, e_t5d: real, e_r14: real, e_t3e: real, e_r15: real, e_t5e: real)
    requires e_x0 == 0real, e_x1 == 0real, e_x2 == 0real, e_x3 == 0real, e_x4 == 0real, e_x5 == 0real, e_x6 == 0real, e_x7 == 0real, is_sub(e_t1a, e_x0, e_x7), near(2real * e_th1, 1real * e_t1a, 1real), is_add(e_t4a, e_x1, e_x6), near(2real * e_th4, 1real * e_t4a, 1real), is_sub(e_t5a, e_x6, e_th4), is_sub(e_t3a, e_x2, e_x5), is_add(e_t6a, e_x3, e_x4), near(2real * e_th6, 1real * e_t6a, 1real), is_sub(e_t7a, e_th6, e_x4), near(32768real * e_r7, 19195real * e_t5a, 16384real), is_add(e_t3b, e_t3a, e_r7), near(16384real * e_r8, 11585real * e_t3b, 8192real), is_add(e_t5b, e_t5a, e_r8), near(8192real * e_r9, 7489real * e_t5b, 4096real), is_sub(e_t3c, e_t3b, e_r9), near(2real * e_h5, 1real * e_t5b, 1real), is_sub(e_t7b, e_h5, e_t7a), is_sub(e_t5c, e_t5b, e_t7b), is_sub(e_t3d, e_th1, e_t3c), is_sub(e_t1b, e_t1a, e_t3d), near(32768real * e_r10, 3227real * e_t1b, 16384real), is_add(e_t7c, e_t7b, e_r10), near(32768real * e_r11, 6393real * e_t7c, 16384real), is_sub(e_t1c, e_t1b, e_r11), near(32768real * e_r12, 3227real * e_t1c, 16384real), is_add(e_t7d, e_t7c, e_r12), near(8192real * e_r13, 2485real * e_t3d, 4096real), is_add(e_t5d, e_t5c, e_r13), near(32768real * e_r14, 18205real * e_t5d, 16384real), is_sub(e_t3e, e_t3d, e_r14), near(8192real * e_r15, 2485real * e_t3e, 4096real), is_add(e_t5e, e_t5d, e_r15),
    ensures near(e_t1a, 0real, 4real), near(e_th1, 0real, 4real), near(e_t4a, 0real, 4real), near(e_th4, 0real, 4real), near(e_t5a, 0real, 4real), near(e_t3a, 0real, 4real), near(e_t6a, 0real, 4real), near(e_th6, 0real, 4real), near(e_t7a, 0real, 4real), near(e_t3b, 0real, 4real), near(e_t5b, 0real, 4real), near(e_t3c, 0real, 4real), near(e_h5, 0real, 4real), near(e_t7b, 0real, 4real), near(e_t5c, 0real, 4real), near(e_t3d, 0real, 4real), near(e_t1b, 0real, 4real), near(e_t7c, 0real, 4real), near(e_t1c, 0real, 3.46real), near(e_t7d, 0real, 3.46real), near(e_t5d, 0real, 4real), near(e_t3e, 0real, 3.46real), near(e_t5e, 0real, 3.46real),
{ reveal(near); reveal(is_sub); reveal(is_add); }
proof fn bound_odd_t1a(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(1real * x0 + (-1real) * x7, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_th1(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x0 + (-0.5real) * x7, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_t4a(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(1real * x1 + 1real * x6, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_th4(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x1 + 0.5real * x6, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_t5a(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near((-0.5real) * x1 + 0.5real * x6, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_t3a(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(1real * x2 + (-1real) * x5, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_t6a(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(1real * x3 + 1real * x4, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_th6(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x3 + 0.5real * x4, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_t7a(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x3 + (-0.5real) * x4, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_t3b(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near((-0.2928924560546875real) * x1 + 1real * x2 + (-1real) * x5 + 0.2928924560546875real * x6, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_t5b(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near((-0.707101996056735515594482421875real) * x1 + 0.70709228515625real * x2 + (-0.70709228515625real) * x5 + 0.707101996056735515594482421875real * x6, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_t3c(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.3535292783775503266952000558376312255859375real * x1 + 0.353587143123149871826171875real * x2 + (-0.353587143123149871826171875real) * x5 + (-0.3535292783775503266952000558376312255859375real) * x6, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_h5(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near((-0.3535509980283677577972412109375real) * x1 + 0.353546142578125real * x2 + (-0.353546142578125real) * x5 + 0.3535509980283677577972412109375real * x6, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_t7b(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near((-0.3535509980283677577972412109375real) * x1 + 0.353546142578125real * x2 + (-0.5real) * x3 + 0.5real * x4 + (-0.353546142578125real) * x5 + 0.3535509980283677577972412109375real * x6, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_t5c(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near((-0.3535509980283677577972412109375real) * x1 + 0.353546142578125real * x2 + 0.5real * x3 + (-0.5real) * x4 + (-0.353546142578125real) * x5 + 0.3535509980283677577972412109375real * x6, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_t3d(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x0 + (-0.3535292783775503266952000558376312255859375real) * x1 + (-0.353587143123149871826171875real) * x2 + 0.353587143123149871826171875real * x5 + 0.3535292783775503266952000558376312255859375real * x6 + (-0.5real) * x7, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_t1b(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.5real * x0 + 0.3535292783775503266952000558376312255859375real * x1 + 0.353587143123149871826171875real * x2 + (-0.353587143123149871826171875real) * x5 + (-0.3535292783775503266952000558376312255859375real) * x6 + (-0.5real) * x7, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_t7c(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.0492401123046875real * x0 + (-0.3187353552877563410417049993839100352488458156585693359375real) * x1 + 0.388367483851880024303682148456573486328125real * x2 + (-0.5real) * x3 + 0.5real * x4 + (-0.388367483851880024303682148456573486328125real) * x5 + 0.3187353552877563410417049993839100352488458156585693359375real * x6 + (-0.0492401123046875real) * x7, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_t1c(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.4903933093883097171783447265625real * x0 + 0.4157141882394468809029521328963878434858969512788462452590465545654296875real * x1 + 0.277817083178537170551347657010410330258309841156005859375real * x2 + 0.0975494384765625real * x3 + (-0.0975494384765625real) * x4 + (-0.277817083178537170551347657010410330258309841156005859375real) * x5 + (-0.4157141882394468809029521328963878434858969512788462452590465545654296875real) * x6 + (-0.4903933093883097171783447265625real) * x7, 0real, 3.5real * m), near(0.4903933093883097171783447265625real * x0 + 0.4157141882394468809029521328963878434858969512788462452590465545654296875real * x1 + 0.277817083178537170551347657010410330258309841156005859375real * x2 + 0.0975494384765625real * x3 + (-0.0975494384765625real) * x4 + (-0.277817083178537170551347657010410330258309841156005859375real) * x5 + (-0.4157141882394468809029521328963878434858969512788462452590465545654296875real) * x6 + (-0.4903933093883097171783447265625real) * x7, 0real, 2.8286real * m), near(0.4903933093883097171783447265625real * x0 + 0.4157141882394468809029521328963878434858969512788462452590465545654296875real * x1 + 0.277817083178537170551347657010410330258309841156005859375real * x2 + 0.0975494384765625real * x3 + (-0.0975494384765625real) * x4 + (-0.277817083178537170551347657010410330258309841156005859375real) * x5 + (-0.4157141882394468809029521328963878434858969512788462452590465545654296875real) * x6 + (-0.4903933093883097171783447265625real) * x7, (0.490392640202real) * x0 + (0.415734806151real) * x1 + (0.27778511651real) * x2 + (0.097545161008real) * x3 + (-0.097545161008real) * x4 + (-0.27778511651real) * x5 + (-0.415734806151real) * x6 + (-0.490392640202real) * x7, 0.000116real * m)
{ reveal(near); }
proof fn bound_odd_t7d(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.0975341555601829668376012705266475677490234375real * x0 + (-0.2777957286566316131158680080247595356477414009314930165572832265752367675304412841796875real) * x1 + 0.415726972603623781913826157525561344474596126019605435431003570556640625real * x2 + (-0.4903933093883097171783447265625real) * x3 + 0.4903933093883097171783447265625real * x4 + (-0.415726972603623781913826157525561344474596126019605435431003570556640625real) * x5 + 0.2777957286566316131158680080247595356477414009314930165572832265752367675304412841796875real * x6 + (-0.0975341555601829668376012705266475677490234375real) * x7, 0real, 3.5real * m), near(0.0975341555601829668376012705266475677490234375real * x0 + (-0.2777957286566316131158680080247595356477414009314930165572832265752367675304412841796875real) * x1 + 0.415726972603623781913826157525561344474596126019605435431003570556640625real * x2 + (-0.4903933093883097171783447265625real) * x3 + 0.4903933093883097171783447265625real * x4 + (-0.415726972603623781913826157525561344474596126019605435431003570556640625real) * x5 + 0.2777957286566316131158680080247595356477414009314930165572832265752367675304412841796875real * x6 + (-0.0975341555601829668376012705266475677490234375real) * x7, 0real, 2.8286real * m), near(0.0975341555601829668376012705266475677490234375real * x0 + (-0.2777957286566316131158680080247595356477414009314930165572832265752367675304412841796875real) * x1 + 0.415726972603623781913826157525561344474596126019605435431003570556640625real * x2 + (-0.4903933093883097171783447265625real) * x3 + 0.4903933093883097171783447265625real * x4 + (-0.415726972603623781913826157525561344474596126019605435431003570556640625real) * x5 + 0.2777957286566316131158680080247595356477414009314930165572832265752367675304412841796875real * x6 + (-0.0975341555601829668376012705266475677490234375real) * x7, (0.097545161008real) * x0 + (-0.27778511651real) * x1 + (0.415734806151real) * x2 + (-0.490392640202real) * x3 + (0.490392640202real) * x4 + (-0.415734806151real) * x5 + (0.27778511651real) * x6 + (-0.097545161008real) * x7, 0.000116real * m)
{ reveal(near); }
proof fn bound_odd_t5d(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.15167236328125real * x0 + (-0.46079224030964370528717921615680097602307796478271484375real) * x1 + 0.2462873473314175498671829700469970703125real * x2 + 0.5real * x3 + (-0.5real) * x4 + (-0.2462873473314175498671829700469970703125real) * x5 + 0.46079224030964370528717921615680097602307796478271484375real * x6 + (-0.15167236328125real) * x7, 0real, 3.5real * m)
{ reveal(near); }
proof fn bound_odd_t3e(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.41573500446975231170654296875real * x0 + (-0.09752577694819657746567437132424738255309648593538440763950347900390625real) * x1 + (-0.4904176228035837248331318960481439717113971710205078125real) * x2 + (-0.2777862548828125real) * x3 + 0.2777862548828125real * x4 + 0.4904176228035837248331318960481439717113971710205078125real * x5 + 0.09752577694819657746567437132424738255309648593538440763950347900390625real * x6 + (-0.41573500446975231170654296875real) * x7, 0real, 3.5real * m), near(0.41573500446975231170654296875real * x0 + (-0.09752577694819657746567437132424738255309648593538440763950347900390625real) * x1 + (-0.4904176228035837248331318960481439717113971710205078125real) * x2 + (-0.2777862548828125real) * x3 + 0.2777862548828125real * x4 + 0.4904176228035837248331318960481439717113971710205078125real * x5 + 0.09752577694819657746567437132424738255309648593538440763950347900390625real * x6 + (-0.41573500446975231170654296875real) * x7, 0real, 2.8286real * m), near(0.41573500446975231170654296875real * x0 + (-0.09752577694819657746567437132424738255309648593538440763950347900390625real) * x1 + (-0.4904176228035837248331318960481439717113971710205078125real) * x2 + (-0.2777862548828125real) * x3 + 0.2777862548828125real * x4 + 0.4904176228035837248331318960481439717113971710205078125real * x5 + 0.09752577694819657746567437132424738255309648593538440763950347900390625real * x6 + (-0.41573500446975231170654296875real) * x7, (0.415734806151real) * x0 + (-0.097545161008real) * x1 + (-0.490392640202real) * x2 + (-0.27778511651real) * x3 + (0.27778511651real) * x4 + (0.490392640202real) * x5 + (0.097545161008real) * x6 + (-0.415734806151real) * x7, 0.000116real * m)
{ reveal(near); }
proof fn bound_odd_t5e(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, m: real) requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m)
    ensures near(0.277783384534586730296723544597625732421875real * x0 + (-0.490376170450789761806002557555818889309753351446463653928731218911707401275634765625real) * x1 + 0.09752174764063318021260133409977566287807348999194800853729248046875real * x2 + 0.41573500446975231170654296875real * x3 + (-0.41573500446975231170654296875real) * x4 + (-0.09752174764063318021260133409977566287807348999194800853729248046875real) * x5 + 0.490376170450789761806002557555818889309753351446463653928731218911707401275634765625real * x6 + (-0.277783384534586730296723544597625732421875real) * x7, 0real, 3.5real * m), near(0.277783384534586730296723544597625732421875real * x0 + (-0.490376170450789761806002557555818889309753351446463653928731218911707401275634765625real) * x1 + 0.09752174764063318021260133409977566287807348999194800853729248046875real * x2 + 0.41573500446975231170654296875real * x3 + (-0.41573500446975231170654296875real) * x4 + (-0.09752174764063318021260133409977566287807348999194800853729248046875real) * x5 + 0.490376170450789761806002557555818889309753351446463653928731218911707401275634765625real * x6 + (-0.277783384534586730296723544597625732421875real) * x7, 0real, 2.8286real * m), near(0.277783384534586730296723544597625732421875real * x0 + (-0.490376170450789761806002557555818889309753351446463653928731218911707401275634765625real) * x1 + 0.09752174764063318021260133409977566287807348999194800853729248046875real * x2 + 0.41573500446975231170654296875real * x3 + (-0.41573500446975231170654296875real) * x4 + (-0.09752174764063318021260133409977566287807348999194800853729248046875real) * x5 + 0.490376170450789761806002557555818889309753351446463653928731218911707401275634765625real * x6 + (-0.277783384534586730296723544597625732421875real) * x7, (0.27778511651real) * x0 + (-0.490392640202real) * x1 + (0.097545161008real) * x2 + (0.415734806151real) * x3 + (-0.415734806151real) * x4 + (-0.097545161008real) * x5 + (0.490392640202real) * x6 + (-0.27778511651real) * x7, 0.000116real * m)
{ reveal(near); }
/// the odd outputs without rounding
proof fn ideal_odd(x0: real, x1: real, x2: real, x3: real, x4: real, x5: real, x6: real, x7: real, i_t1a: real, i_th1: real, i_t4a: real, i_th4: real, i_t5a: real, i_t3a: real, i_t6a: real, i_th6: real, i_t7a: real, i_r7: real, i_t3b: real, i_r8: real, i_t5b: real, i_r9: real, i_t3c: real, i_h5: real, i_t7b: real, i_t5c: real, i_t3d: real, i_t1b: real, i_r10: real, i_t7c: real, i_r11: real, i_t1c: real, i_r12: real, i_t7d: real, i_r13: real, i_t5d: real, i_r14: real, i_t3e: real, i_r15: real, i_t5e: real, m: real)
    requires near(x0, 0real, m), near(x1, 0real, m), near(x2, 0real, m), near(x3, 0real, m), near(x4, 0real, m), near(x5, 0real, m), near(x6, 0real, m), near(x7, 0real, m), is_sub(i_t1a, x0, x7), is_mul(i_th1, i_t1a, 1real, 2real), is_add(i_t4a, x1, x6), is_mul(i_th4, i_t4a, 1real, 2real), is_sub(i_t5a, x6, i_th4), is_sub(i_t3a, x2, x5), is_add(i_t6a, x3, x4), is_mul(i_th6, i_t6a, 1real, 2real), is_sub(i_t7a, i_th6, x4), is_mul(i_r7, i_t5a, 19195real, 32768real), is_add(i_t3b, i_t3a, i_r7), is_mul(i_r8, i_t3b, 11585real, 16384real), is_add(i_t5b, i_t5a, i_r8), is_mul(i_r9, i_t5b, 7489real, 8192real), is_sub(i_t3c, i_t3b, i_r9), is_mul(i_h5, i_t5b, 1real, 2real), is_sub(i_t7b, i_h5, i_t7a), is_sub(i_t5c, i_t5b, i_t7b), is_sub(i_t3d, i_th1, i_t3c), is_sub(i_t1b, i_t1a, i_t3d), is_mul(i_r10, i_t1b, 3227real, 32768real), is_add(i_t7c, i_t7b, i_r10), is_mul(i_r11, i_t7c, 6393real, 32768real), is_sub(i_t1c, i_t1b, i_r11), is_mul(i_r12, i_t1c, 3227real, 32768real), is_add(i_t7d, i_t7c, i_r12), is_mul(i_r13, i_t3d, 2485real, 8192real), is_add(i_t5d, i_t5c, i_r13), is_mul(i_r14, i_t5d, 18205real, 32768real), is_sub(i_t3e, i_t3d, i_r14), is_mul(i_r15, i_t3e, 2485real, 8192real), is_add(i_t5e, i_t5d, i_r15),
    ensures near(i_t1a, 0real, 3.5real * m), near(i_th1, 0real, 3.5real * m), near(i_t4a, 0real, 3.5real * m), near(i_th4, 0real, 3.5real * m), near(i_t5a, 0real, 3.5real * m), near(i_t3a, 0real, 3.5real * m), near(i_t6a, 0real, 3.5real * m), near(i_th6, 0real, 3.5real * m), near(i_t7a, 0real, 3.5real * m), near(i_t3b, 0real, 3.5real * m), near(i_t5b, 0real, 3.5real * m), near(i_t3c, 0real, 3.5real * m), near(i_h5, 0real, 3.5real * m), near(i_t7b, 0real, 3.5real * m), near(i_t5c, 0real, 3.5real * m), near(i_t3d, 0real, 3.5real * m), near(i_t1b, 0real, 3.5real * m), near(i_t7c, 0real, 3.5real * m), near(i_t1c, 0real, 3.5real * m), near(i_t7d, 0real, 3.5real * m), near(i_t5d, 0real, 3.5real * m), near(i_t3e, 0real, 3.5real * m), near(i_t5e, 0real, 3.5real * m),
        near(i_t1c, (0.490392640202real) * x0 + (0.415734806151real) * x1 + (0.27778511651real) * x2 + (0.097545161008real) * x3 + (-0.097545161008real) * x4 + (-0.27778511651real) * x5 + (-0.415734806151real) * x6 + (-0.490392640202real) * x7, 0.000116real * m), near(i_t1c, 0real, 2.8286real * m),
        near(i_t3e, (0.415734806151real) * x0 + (-0.097545161008real) * x1 + (-0.490392640202real) * x2 + (-0.27778511651real) * x3 + (0.27778511651real) * x4 + (0.490392640202real) * x5 + (0.097545161008real) * x6 + (-0.415734806151real) * x7, 0.000116real * m), near(i_t3e, 0real, 2.8286real * m),
        near(i_t5e, (0.27778511651real) * x0 + (-0.490392640202real) * x1 + (0.097545161008real) * x2 + (0.415734806151real) * x3 + (-0.415734806151real) * x4 + (-0.097545161008real) * x5 + (0.490392640202real) * x6 + (-0.27778511651real) * x7, 0.000116real * m), near(i_t5e, 0real, 2.8286real * m),
        near(i_t7d, (0.097545161008real) * x0 + (-0.27778511651real) * x1 + (0.415734806151real) * x2 + (-0.490392640202real) * x3 + (0.490392640202real) * x4 + (-0.415734806151real) * x5 + (0.27778511651real) * x6 + (-0.097545161008real) * x7, 0.000116real * m), near(i_t7d, 0real, 2.8286real * m),
{
    reveal(is_sub); reveal(is_add); reveal(is_mul);
    assert(i_t1a == 1real * x0 + (-1real) * x7);
    bound_odd_t1a(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_th1 == 0.5real * x0 + (-0.5real) * x7);
    bound_odd_th1(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t4a == 1real * x1 + 1real * x6);
    bound_odd_t4a(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_th4 == 0.5real * x1 + 0.5real * x6);
    bound_odd_th4(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t5a == (-0.5real) * x1 + 0.5real * x6);
    bound_odd_t5a(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t3a == 1real * x2 + (-1real) * x5);
    bound_odd_t3a(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t6a == 1real * x3 + 1real * x4);
    bound_odd_t6a(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_th6 == 0.5real * x3 + 0.5real * x4);
    bound_odd_th6(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t7a == 0.5real * x3 + (-0.5real) * x4);
    bound_odd_t7a(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_r7 == (-0.2928924560546875real) * x1 + 0.2928924560546875real * x6);
    assert(i_t3b == (-0.2928924560546875real) * x1 + 1real * x2 + (-1real) * x5 + 0.2928924560546875real * x6);
    bound_odd_t3b(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_r8 == (-0.207101996056735515594482421875real) * x1 + 0.70709228515625real * x2 + (-0.70709228515625real) * x5 + 0.207101996056735515594482421875real * x6);
    assert(i_t5b == (-0.707101996056735515594482421875real) * x1 + 0.70709228515625real * x2 + (-0.70709228515625real) * x5 + 0.707101996056735515594482421875real * x6);
    bound_odd_t5b(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_r9 == (-0.6464217344322378266952000558376312255859375real) * x1 + 0.646412856876850128173828125real * x2 + (-0.646412856876850128173828125real) * x5 + 0.6464217344322378266952000558376312255859375real * x6);
    assert(i_t3c == 0.3535292783775503266952000558376312255859375real * x1 + 0.353587143123149871826171875real * x2 + (-0.353587143123149871826171875real) * x5 + (-0.3535292783775503266952000558376312255859375real) * x6);
    bound_odd_t3c(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_h5 == (-0.3535509980283677577972412109375real) * x1 + 0.353546142578125real * x2 + (-0.353546142578125real) * x5 + 0.3535509980283677577972412109375real * x6);
    bound_odd_h5(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t7b == (-0.3535509980283677577972412109375real) * x1 + 0.353546142578125real * x2 + (-0.5real) * x3 + 0.5real * x4 + (-0.353546142578125real) * x5 + 0.3535509980283677577972412109375real * x6);
    bound_odd_t7b(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t5c == (-0.3535509980283677577972412109375real) * x1 + 0.353546142578125real * x2 + 0.5real * x3 + (-0.5real) * x4 + (-0.353546142578125real) * x5 + 0.3535509980283677577972412109375real * x6);
    bound_odd_t5c(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t3d == 0.5real * x0 + (-0.3535292783775503266952000558376312255859375real) * x1 + (-0.353587143123149871826171875real) * x2 + 0.353587143123149871826171875real * x5 + 0.3535292783775503266952000558376312255859375real * x6 + (-0.5real) * x7);
    bound_odd_t3d(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_t1b == 0.5real * x0 + 0.3535292783775503266952000558376312255859375real * x1 + 0.353587143123149871826171875real * x2 + (-0.353587143123149871826171875real) * x5 + (-0.3535292783775503266952000558376312255859375real) * x6 + (-0.5real) * x7);
    bound_odd_t1b(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_r10 == 0.0492401123046875real * x0 + 0.0348156427406114167555362115535899647511541843414306640625real * x1 + 0.034821341273755024303682148456573486328125real * x2 + (-0.034821341273755024303682148456573486328125real) * x5 + (-0.0348156427406114167555362115535899647511541843414306640625real) * x6 + (-0.0492401123046875real) * x7);
    assert(i_t7c == 0.0492401123046875real * x0 + (-0.3187353552877563410417049993839100352488458156585693359375real) * x1 + 0.388367483851880024303682148456573486328125real * x2 + (-0.5real) * x3 + 0.5real * x4 + (-0.388367483851880024303682148456573486328125real) * x5 + 0.3187353552877563410417049993839100352488458156585693359375real * x6 + (-0.0492401123046875real) * x7);
    bound_odd_t7c(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_r11 == 0.0096066906116902828216552734375real * x0 + (-0.0621849098618965542077520770587566178999594512788462452590465545654296875real) * x1 + 0.075770059944612701274824217989589669741690158843994140625real * x2 + (-0.0975494384765625real) * x3 + 0.0975494384765625real * x4 + (-0.075770059944612701274824217989589669741690158843994140625real) * x5 + 0.0621849098618965542077520770587566178999594512788462452590465545654296875real * x6 + (-0.0096066906116902828216552734375real) * x7);
    assert(i_t1c == 0.4903933093883097171783447265625real * x0 + 0.4157141882394468809029521328963878434858969512788462452590465545654296875real * x1 + 0.277817083178537170551347657010410330258309841156005859375real * x2 + 0.0975494384765625real * x3 + (-0.0975494384765625real) * x4 + (-0.277817083178537170551347657010410330258309841156005859375real) * x5 + (-0.4157141882394468809029521328963878434858969512788462452590465545654296875real) * x6 + (-0.4903933093883097171783447265625real) * x7);
    bound_odd_t1c(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_r12 == 0.0482940432554954668376012705266475677490234375real * x0 + 0.0409396266311247279258369913591504996011044147270763193802167734247632324695587158203125real * x1 + 0.027359488751743757610144009068987858146471126019605435431003570556640625real * x2 + 0.0096066906116902828216552734375real * x3 + (-0.0096066906116902828216552734375real) * x4 + (-0.027359488751743757610144009068987858146471126019605435431003570556640625real) * x5 + (-0.0409396266311247279258369913591504996011044147270763193802167734247632324695587158203125real) * x6 + (-0.0482940432554954668376012705266475677490234375real) * x7);
    assert(i_t7d == 0.0975341555601829668376012705266475677490234375real * x0 + (-0.2777957286566316131158680080247595356477414009314930165572832265752367675304412841796875real) * x1 + 0.415726972603623781913826157525561344474596126019605435431003570556640625real * x2 + (-0.4903933093883097171783447265625real) * x3 + 0.4903933093883097171783447265625real * x4 + (-0.415726972603623781913826157525561344474596126019605435431003570556640625real) * x5 + 0.2777957286566316131158680080247595356477414009314930165572832265752367675304412841796875real * x6 + (-0.0975341555601829668376012705266475677490234375real) * x7);
    bound_odd_t7d(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_r13 == 0.15167236328125real * x0 + (-0.10724124228127594748993800521930097602307796478271484375real) * x1 + (-0.1072587952467074501328170299530029296875real) * x2 + 0.1072587952467074501328170299530029296875real * x5 + 0.10724124228127594748993800521930097602307796478271484375real * x6 + (-0.15167236328125real) * x7);
    assert(i_t5d == 0.15167236328125real * x0 + (-0.46079224030964370528717921615680097602307796478271484375real) * x1 + 0.2462873473314175498671829700469970703125real * x2 + 0.5real * x3 + (-0.5real) * x4 + (-0.2462873473314175498671829700469970703125real) * x5 + 0.46079224030964370528717921615680097602307796478271484375real * x6 + (-0.15167236328125real) * x7);
    bound_odd_t5d(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_r14 == 0.08426499553024768829345703125real * x0 + (-0.25600350142935374922952568451338384303284101406461559236049652099609375real) * x1 + 0.1368304796804338530069600210481439717113971710205078125real * x2 + 0.2777862548828125real * x3 + (-0.2777862548828125real) * x4 + (-0.1368304796804338530069600210481439717113971710205078125real) * x5 + 0.25600350142935374922952568451338384303284101406461559236049652099609375real * x6 + (-0.08426499553024768829345703125real) * x7);
    assert(i_t3e == 0.41573500446975231170654296875real * x0 + (-0.09752577694819657746567437132424738255309648593538440763950347900390625real) * x1 + (-0.4904176228035837248331318960481439717113971710205078125real) * x2 + (-0.2777862548828125real) * x3 + 0.2777862548828125real * x4 + 0.4904176228035837248331318960481439717113971710205078125real * x5 + 0.09752577694819657746567437132424738255309648593538440763950347900390625real * x6 + (-0.41573500446975231170654296875real) * x7);
    bound_odd_t3e(x0, x1, x2, x3, x4, x5, x6, x7, m);
    assert(i_r15 == 0.126111021253336730296723544597625732421875real * x0 + (-0.029583930141146056518823341399017913286675386663748810178731218911707401275634765625real) * x1 + (-0.14876559969078436965458163594722140743442651000805199146270751953125real) * x2 + (-0.08426499553024768829345703125real) * x3 + 0.08426499553024768829345703125real * x4 + 0.14876559969078436965458163594722140743442651000805199146270751953125real * x5 + 0.029583930141146056518823341399017913286675386663748810178731218911707401275634765625real * x6 + (-0.126111021253336730296723544597625732421875real) * x7);
    assert(i_t5e == 0.277783384534586730296723544597625732421875real * x0 + (-0.490376170450789761806002557555818889309753351446463653928731218911707401275634765625real) * x1 + 0.09752174764063318021260133409977566287807348999194800853729248046875real * x2 + 0.41573500446975231170654296875real * x3 + (-0.41573500446975231170654296875real) * x4 + (-0.09752174764063318021260133409977566287807348999194800853729248046875real) * x5 + 0.490376170450789761806002557555818889309753351446463653928731218911707401275634765625real * x6 + (-0.277783384534586730296723544597625732421875real) * x7);
    bound_odd_t5e(x0, x1, x2, x3, x4, x5, x6, x7, m);
}
proof fn parts_odd(x0: int, x1: int, x2: int, x3: int, x4: int, x5: int, x6: int, x7: int, l: Lift, i_t1a: real, i_th1: real, i_t4a: real, i_th4: real, i_t5a: real, i_t3a: real, i_t6a: real, i_th6: real, i_t7a: real, i_r7: real, i_t3b: real, i_r8: real, i_t5b: real, i_r9: real, i_t3c: real, i_h5: real, i_t7b: real, i_t5c: real, i_t3d: real, i_t1b: real, i_r10: real, i_t7c: real, i_r11: real, i_t1c: real, i_r12: real, i_t7d: real, i_r13: real, i_t5d: real, i_r14: real, i_t3e: real, i_r15: real, i_t5e: real, m: real)
    requires near((x0 as real), 0real, m), near((x1 as real), 0real, m), near((x2 as real), 0real, m), near((x3 as real), 0real, m), near((x4 as real), 0real, m), near((x5 as real), 0real, m), near((x6 as real), 0real, m), near((x7 as real), 0real, m), l.t1a == x0 - x7, l.th1 == half(l.t1a), l.t4a == x1 + x6, l.th4 == half(l.t4a), l.t5a == x6 - l.th4, l.t3a == x2 - x5, l.t6a == x3 + x4, l.th6 == half(l.t6a), l.t7a == l.th6 - x4, l.r7 == rs(l.t5a, 19195, 32768), l.t3b == l.t3a + l.r7, l.r8 == rs(l.t3b, 11585, 16384), l.t5b == l.t5a + l.r8, l.r9 == rs(l.t5b, 7489, 8192), l.t3c == l.t3b - l.r9, l.h5 == half(l.t5b), l.t7b == l.h5 - l.t7a, l.t5c == l.t5b - l.t7b, l.t3d == l.th1 - l.t3c, l.t1b == l.t1a - l.t3d, l.r10 == rs(l.t1b, 3227, 32768), l.t7c == l.t7b + l.r10, l.r11 == rs(l.t7c, 6393, 32768), l.t1c == l.t1b - l.r11, l.r12 == rs(l.t1c, 3227, 32768), l.t7d == l.t7c + l.r12, l.r13 == rs(l.t3d, 2485, 8192), l.t5d == l.t5c + l.r13, l.r14 == rs(l.t5d, 18205, 32768), l.t3e == l.t3d - l.r14, l.r15 == rs(l.t3e, 2485, 8192), l.t5e == l.t5d + l.r15, is_sub(i_t1a, (x0 as real), (x7 as real)), is_mul(i_th1, i_t1a, 1real, 2real), is_add(i_t4a, (x1 as real), (x6 as real)), is_mul(i_th4, i_t4a, 1real, 2real), is_sub(i_t5a, (x6 as real), i_th4), is_sub(i_t3a, (x2 as real), (x5 as real)), is_add(i_t6a, (x3 as real), (x4 as real)), is_mul(i_th6, i_t6a, 1real, 2real), is_sub(i_t7a, i_th6, (x4 as real)), is_mul(i_r7, i_t5a, 19195real, 32768real), is_add(i_t3b, i_t3a, i_r7), is_mul(i_r8, i_t3b, 11585real, 16384real), is_add(i_t5b, i_t5a, i_r8), is_mul(i_r9, i_t5b, 7489real, 8192real), is_sub(i_t3c, i_t3b, i_r9), is_mul(i_h5, i_t5b, 1real, 2real), is_sub(i_t7b, i_h5, i_t7a), is_sub(i_t5c, i_t5b, i_t7b), is_sub(i_t3d, i_th1, i_t3c), is_sub(i_t1b, i_t1a, i_t3d), is_mul(i_r10, i_t1b, 3227real, 32768real), is_add(i_t7c, i_t7b, i_r10), is_mul(i_r11, i_t7c, 6393real, 32768real), is_sub(i_t1c, i_t1b, i_r11), is_mul(i_r12, i_t1c, 3227real, 32768real), is_add(i_t7d, i_t7c, i_r12), is_mul(i_r13, i_t3d, 2485real, 8192real), is_add(i_t5d, i_t5c, i_r13), is_mul(i_r14, i_t5d, 18205real, 32768real), is_sub(i_t3e, i_t3d, i_r14), is_mul(i_r15, i_t3e, 2485real, 8192real), is_add(i_t5e, i_t5d, i_r15),
    ensures near(l.t1a as real, 0real, 3.5real * m + 4real), near(l.th1 as real, 0real, 3.5real * m + 4real), near(l.t4a as real, 0real, 3.5real * m + 4real), near(l.th4 as real, 0real, 3.5real * m + 4real), near(l.t5a as real, 0real, 3.5real * m + 4real), near(l.t3a as real, 0real, 3.5real * m + 4real), near(l.t6a as real, 0real, 3.5real * m + 4real), near(l.th6 as real, 0real, 3.5real * m + 4real), near(l.t7a as real, 0real, 3.5real * m + 4real), near(l.t3b as real, 0real, 3.5real * m + 4real), near(l.t5b as real, 0real, 3.5real * m + 4real), near(l.t3c as real, 0real, 3.5real * m + 4real), near(l.h5 as real, 0real, 3.5real * m + 4real), near(l.t7b as real, 0real, 3.5real * m + 4real), near(l.t5c as real, 0real, 3.5real * m + 4real), near(l.t3d as real, 0real, 3.5real * m + 4real), near(l.t1b as real, 0real, 3.5real * m + 4real), near(l.t7c as real, 0real, 3.5real * m + 4real), near(l.t1c as real, 0real, 3.5real * m + 4real), near(l.t7d as real, 0real, 3.5real * m + 4real), near(l.t5d as real, 0real, 3.5real * m + 4real), near(l.t3e as real, 0real, 3.5real * m + 4real), near(l.t5e as real, 0real, 3.5real * m + 4real),
        near(l.t1c as real, (0.490392640202real) * (x0 as real) + (0.415734806151real) * (x1 as real) + (0.27778511651real) * (x2 as real) + (0.097545161008real) * (x3 as real) + (-0.097545161008real) * (x4 as real) + (-0.27778511651real) * (x5 as real) + (-0.415734806151real) * (x6 as real) + (-0.490392640202real) * (x7 as real), 0.000116real * m + 3.46real), near(l.t1c as real, 0real, 2.8286real * m + 3.46real),
        near(l.t3e as real, (0.415734806151real) * (x0 as real) + (-0.097545161008real) * (x1 as real) + (-0.490392640202real) * (x2 as real) + (-0.27778511651real) * (x3 as real) + (0.27778511651real) * (x4 as real) + (0.490392640202real) * (x5 as real) + (0.097545161008real) * (x6 as real) + (-0.415734806151real) * (x7 as real), 0.000116real * m + 3.46real), near(l.t3e as real, 0real, 2.8286real * m + 3.46real),
        near(l.t5e as real, (0.27778511651real) * (x0 as real) + (-0.490392640202real) * (x1 as real) + (0.097545161008real) * (x2 as real) + (0.415734806151real) * (x3 as real) + (-0.415734806151real) * (x4 as real) + (-0.097545161008real) * (x5 as real) + (0.490392640202real) * (x6 as real) + (-0.27778511651real) * (x7 as real), 0.000116real * m + 3.46real), near(l.t5e as real, 0real, 2.8286real * m + 3.46real),
        near(l.t7d as real, (0.097545161008real) * (x0 as real) + (-0.27778511651real) * (x1 as real) + (0.415734806151real) * (x2 as real) + (-0.490392640202real) * (x3 as real) + (0.490392640202real) * (x4 as real) + (-0.415734806151real) * (x5 as real) + (0.27778511651real) * (x6 as real) + (-0.097545161008real) * (x7 as real), 0.000116real * m + 3.46real), near(l.t7d as real, 0real, 2.8286real * m + 3.46real),
{
    d_sub(l.t1a, x0, x7, i_t1a, x0 as real, x7 as real);
    d_half(l.th1, l.t1a, i_th1, i_t1a);
    d_add(l.t4a, x1, x6, i_t4a, x1 as real, x6 as real);
    d_half(l.th4, l.t4a, i_th4, i_t4a);
    d_sub(l.t5a, x6, l.th4, i_t5a, x6 as real, i_th4);
    d_sub(l.t3a, x2, x5, i_t3a, x2 as real, x5 as real);
    d_add(l.t6a, x3, x4, i_t6a, x3 as real, x4 as real);
    d_half(l.th6, l.t6a, i_th6, i_t6a);
    d_sub(l.t7a, l.th6, x4, i_t7a, i_th6, x4 as real);
    d_rs(l.r7, l.t5a, i_r7, i_t5a, 19195, 32768);
    d_add(l.t3b, l.t3a, l.r7, i_t3b, i_t3a, i_r7);
    d_rs(l.r8, l.t3b, i_r8, i_t3b, 11585, 16384);
    d_add(l.t5b, l.t5a, l.r8, i_t5b, i_t5a, i_r8);
    d_rs(l.r9, l.t5b, i_r9, i_t5b, 7489, 8192);
    d_sub(l.t3c, l.t3b, l.r9, i_t3c, i_t3b, i_r9);
    d_half(l.h5, l.t5b, i_h5, i_t5b);
    d_sub(l.t7b, l.h5, l.t7a, i_t7b, i_h5, i_t7a);
    d_sub(l.t5c, l.t5b, l.t7b, i_t5c, i_t5b, i_t7b);
    d_sub(l.t3d, l.th1, l.t3c, i_t3d, i_th1, i_t3c);
    d_sub(l.t1b, l.t1a, l.t3d, i_t1b, i_t1a, i_t3d);
    d_rs(l.r10, l.t1b, i_r10, i_t1b, 3227, 32768);
    d_add(l.t7c, l.t7b, l.r10, i_t7c, i_t7b, i_r10);
    d_rs(l.r11, l.t7c, i_r11, i_t7c, 6393, 32768);
    d_sub(l.t1c, l.t1b, l.r11, i_t1c, i_t1b, i_r11);
    d_rs(l.r12, l.t1c, i_r12, i_t1c, 3227, 32768);
    d_add(l.t7d, l.t7c, l.r12, i_t7d, i_t7c, i_r12);
    d_rs(l.r13, l.t3d, i_r13, i_t3d, 2485, 8192);
    d_add(l.t5d, l.t5c, l.r13, i_t5d, i_t5c, i_r13);
    d_rs(l.r14, l.t5d, i_r14, i_t5d, 18205, 32768);
    d_sub(l.t3e, l.t3d, l.r14, i_t3e, i_t3d, i_r14);
    d_rs(l.r15, l.t3e, i_r15, i_t3e, 2485, 8192);
    d_add(l.t5e, l.t5d, l.r15, i_t5e, i_t5d, i_r15);
    ideal_odd(x0 as real, x1 as real, x2 as real, x3 as real, x4 as real, x5 as real, x6 as real, x7 as real, i_t1a, i_th1, i_t4a, i_th4, i_t5a, i_t3a, i_t6a, i_th6, i_t7a, i_r7, i_t3b, i_r8, i_t5b, i_r9, i_t3c, i_h5, i_t7b, i_t5c, i_t3d, i_t1b, i_r10, i_t7c, i_r11, i_t1c, i_r12, i_t7d, i_r13, i_t5d, i_r14, i_t3e, i_r15, i_t5e, m);
    round_odd(x0 as real - x0 as real, x1 as real - x1 as real, x2 as real - x2 as real, x3 as real - x3 as real, x4 as real - x4 as real, x5 as real - x5 as real, x6 as real - x6 as real, x7 as real - x7 as real, l.t1a as real - i_t1a, l.th1 as real - i_th1, l.t4a as real - i_t4a, l.th4 as real - i_th4, l.t5a as real - i_t5a, l.t3a as real - i_t3a, l.t6a as real - i_t6a, l.th6 as real - i_th6, l.t7a as real - i_t7a, l.r7 as real - i_r7, l.t3b as real - i_t3b, l.r8 as real - i_r8, l.t5b as real - i_t5b, l.r9 as real - i_r9, l.t3c as real - i_t3c, l.h5 as real - i_h5, l.t7b as real - i_t7b, l.t5c as real - i_t5c, l.t3d as real - i_t3d, l.t1b as real - i_t1b, l.r10 as real - i_r10, l.t7c as real - i_t7c, l.r11 as real - i_r11, l.t1c as real - i_t1c, l.r12 as real - i_r12, l.t7d as real - i_t7d, l.r13 as real - i_r13, l.t5d as real - i_t5d, l.r14 as real - i_r14, l.t3e as real - i_t3e, l.r15 as real - i_r15, l.t5e as real - i_t5e);
    near_tri(l.t1a as real, i_t1a, 0real, 3.5real * m, 4real);
    near_tri(l.th1 as real, i_th1, 0real, 3.5real * m, 4real);
    near_tri(l.t4a as real, i_t4a, 0real, 3.5real * m, 4real);
    near_tri(l.th4 as real, i_th4, 0real, 3.5real * m, 4real);
    near_tri(l.t5a as real, i_t5a, 0real, 3.5real * m, 4real);
    near_tri(l.t3a as real, i_t3a, 0real, 3.5real * m, 4real);
    near_tri(l.t6a as real, i_t6a, 0real, 3.5real * m, 4real);
    near_tri(l.th6 as real, i_th6, 0real, 3.5real * m, 4real);
    near_tri(l.t7a as real, i_t7a, 0real, 3.5real * m, 4real);
    near_tri(l.t3b as real, i_t3b, 0real, 3.5real * m, 4real);
    near_tri(l.t5b as real, i_t5b, 0real, 3.5real * m, 4real);
    near_tri(l.t3c as real, i_t3c, 0real, 3.5real * m, 4real);
    near_tri(l.h5 as real, i_h5, 0real, 3.5real * m, 4real);
    near_tri(l.t7b as real, i_t7b, 0real, 3.5real * m, 4real);
    near_tri(l.t5c as real, i_t5c, 0real, 3.5real * m, 4real);
    near_tri(l.t3d as real, i_t3d, 0real, 3.5real * m, 4real);
    near_tri(l.t1b as real, i_t1b, 0real, 3.5real * m, 4real);
    near_tri(l.t7c as real, i_t7c, 0real, 3.5real * m, 4real);
    near_tri(l.t1c as real, i_t1c, 0real, 3.5real * m, 3.46real); near_tri(l.t1c as real, i_t1c, 0real, 2.8286real * m, 3.46real); near_tri(l.t1c as real, i_t1c, (0.490392640202real) * (x0 as real) + (0.415734806151real) * (x1 as real) + (0.27778511651real) * (x2 as real) + (0.097545161008real) * (x3 as real) + (-0.097545161008real) * (x4 as real) + (-0.27778511651real) * (x5 as real) + (-0.415734806151real) * (x6 as real) + (-0.490392640202real) * (x7 as real), 0.000116real * m, 3.46real);
    near_more(l.t1c as real, 0real, 3.5real * m + 3.46real, 3.5real * m + 4real);
    near_tri(l.t7d as real, i_t7d, 0real, 3.5real * m, 3.46real); near_tri(l.t7d as real, i_t7d, 0real, 2.8286real * m, 3.46real); near_tri(l.t7d as real, i_t7d, (0.097545161008real) * (x0 as real) + (-0.27778511651real) * (x1 as real) + (0.415734806151real) * (x2 as real) + (-0.490392640202real) * (x3 as real) + (0.490392640202real) * (x4 as real) + (-0.415734806151real) * (x5 as real) + (0.27778511651real) * (x6 as real) + (-0.097545161008real) * (x7 as real), 0.000116real * m, 3.46real);
    near_more(l.t7d as real, 0real, 3.5real * m + 3.46real, 3.5real * m + 4real);
    near_tri(l.t5d as real, i_t5d, 0real, 3.5real * m, 4real);
    near_tri(l.t3e as real, i_t3e, 0real, 3.5real * m, 3.46real); near_tri(l.t3e as real, i_t3e, 0real, 2.8286real * m, 3.46real); near_tri(l.t3e as real, i_t3e, (0.415734806151real) * (x0 as real) + (-0.097545161008real) * (x1 as real) + (-0.490392640202real) * (x2 as real) + (-0.27778511651real) * (x3 as real) + (0.27778511651real) * (x4 as real) + (0.490392640202real) * (x5 as real) + (0.097545161008real) * (x6 as real) + (-0.415734806151real) * (x7 as real), 0.000116real * m, 3.46real);
    near_more(l.t3e as real, 0real, 3.5real * m + 3.46real, 3.5real * m + 4real);
    near_tri(l.t5e as real, i_t5e, 0real, 3.5real * m, 3.46real); near_tri(l.t5e as real, i_t5e, 0real, 2.8286real * m, 3.46real); near_tri(l.t5e as real, i_t5e, (0.27778511651real) * (x0 as real) + (-0.490392640202real) * (x1 as real) + (0.097545161008real) * (x2 as real) + (0.415734806151real) * (x3 as real) + (-0.415734806151real) * (x4 as real) + (-0.097545161008real) * (x5 as real) + (0.490392640202real) * (x6 as real) + (-0.27778511651real) * (x7 as real), 0.000116real * m, 3.46real);
    near_more(l.t5e as real, 0real, 3.5real * m + 3.46real, 3.5real * m + 4real);
}
proof fn near_more(a: real, b: real, e: real, f: real) requires near(a, b, e), e <= f ensures near(a, b, f) { reveal(near); }
proof fn dct_w_0() ensures dct_w(0, 0) == 0.353553390593real, dct_w(0, 1) == 0.353553390593real, dct_w(0, 2) == 0.353553390593real, dct_w(0, 3) == 0.353553390593real, dct_w(0, 4) == 0.353553390593real, dct_w(0, 5) == 0.353553390593real, dct_w(0, 6) == 0.353553390593real, dct_w(0, 7) == 0.353553390593real
{ reveal(dct_w); }
proof fn dct_w_1() ensures dct_w(1, 0) == 0.490392640202real, dct_w(1, 1) == 0.415734806151real, dct_w(1, 2) == 0.27778511651real, dct_w(1, 3) == 0.097545161008real, dct_w(1, 4) == -0.097545161008real, dct_w(1, 5) == -0.27778511651real, dct_w(1, 6) == -0.415734806151real, dct_w(1, 7) == -0.490392640202real
{ reveal(dct_w); }
proof fn dct_w_2() ensures dct_w(2, 0) == 0.461939766256real, dct_w(2, 1) == 0.191341716183real, dct_w(2, 2) == -0.191341716183real, dct_w(2, 3) == -0.461939766256real, dct_w(2, 4) == -0.461939766256real, dct_w(2, 5) == -0.191341716183real, dct_w(2, 6) == 0.191341716183real, dct_w(2, 7) == 0.461939766256real
{ reveal(dct_w); }
proof fn dct_w_3() ensures dct_w(3, 0) == 0.415734806151real, dct_w(3, 1) == -0.097545161008real, dct_w(3, 2) == -0.490392640202real, dct_w(3, 3) == -0.27778511651real, dct_w(3, 4) == 0.27778511651real, dct_w(3, 5) == 0.490392640202real, dct_w(3, 6) == 0.097545161008real, dct_w(3, 7) == -0.415734806151real
{ reveal(dct_w); }
proof fn dct_w_4() ensures dct_w(4, 0) == 0.353553390593real, dct_w(4, 1) == -0.353553390593real, dct_w(4, 2) == -0.353553390593real, dct_w(4, 3) == 0.353553390593real, dct_w(4, 4) == 0.353553390593real, dct_w(4, 5) == -0.353553390593real, dct_w(4, 6) == -0.353553390593real, dct_w(4, 7) == 0.353553390593real
{ reveal(dct_w); }
proof fn dct_w_5() ensures dct_w(5, 0) == 0.27778511651real, dct_w(5, 1) == -0.490392640202real, dct_w(5, 2) == 0.097545161008real, dct_w(5, 3) == 0.415734806151real, dct_w(5, 4) == -0.415734806151real, dct_w(5, 5) == -0.097545161008real, dct_w(5, 6) == 0.490392640202real, dct_w(5, 7) == -0.27778511651real
{ reveal(dct_w); }
proof fn dct_w_6() ensures dct_w(6, 0) == 0.191341716183real, dct_w(6, 1) == -0.461939766256real, dct_w(6, 2) == 0.461939766256real, dct_w(6, 3) == -0.191341716183real, dct_w(6, 4) == -0.191341716183real, dct_w(6, 5) == 0.461939766256real, dct_w(6, 6) == -0.461939766256real, dct_w(6, 7) == 0.191341716183real
{ reveal(dct_w); }
proof fn dct_w_7() ensures dct_w(7, 0) == 0.097545161008real, dct_w(7, 1) == -0.27778511651real, dct_w(7, 2) == 0.415734806151real, dct_w(7, 3) == -0.490392640202real, dct_w(7, 4) == 0.490392640202real, dct_w(7, 5) == -0.415734806151real, dct_w(7, 6) == 0.27778511651real, dct_w(7, 7) == -0.097545161008real
{ reveal(dct_w); }
proof fn dct8_lin(x: Seq<real>)
    ensures dct8(x, 0) == (0.353553390593real) * x[0] + (0.353553390593real) * x[1] + (0.353553390593real) * x[2] + (0.353553390593real) * x[3] + (0.353553390593real) * x[4] + (0.353553390593real) * x[5] + (0.353553390593real) * x[6] + (0.353553390593real) * x[7],
        dct8(x, 1) == (0.490392640202real) * x[0] + (0.415734806151real) * x[1] + (0.27778511651real) * x[2] + (0.097545161008real) * x[3] + (-0.097545161008real) * x[4] + (-0.27778511651real) * x[5] + (-0.415734806151real) * x[6] + (-0.490392640202real) * x[7],
        dct8(x, 2) == (0.461939766256real) * x[0] + (0.191341716183real) * x[1] + (-0.191341716183real) * x[2] + (-0.461939766256real) * x[3] + (-0.461939766256real) * x[4] + (-0.191341716183real) * x[5] + (0.191341716183real) * x[6] + (0.461939766256real) * x[7],
        dct8(x, 3) == (0.415734806151real) * x[0] + (-0.097545161008real) * x[1] + (-0.490392640202real) * x[2] + (-0.27778511651real) * x[3] + (0.27778511651real) * x[4] + (0.490392640202real) * x[5] + (0.097545161008real) * x[6] + (-0.415734806151real) * x[7],
        dct8(x, 4) == (0.353553390593real) * x[0] + (-0.353553390593real) * x[1] + (-0.353553390593real) * x[2] + (0.353553390593real) * x[3] + (0.353553390593real) * x[4] + (-0.353553390593real) * x[5] + (-0.353553390593real) * x[6] + (0.353553390593real) * x[7],
        dct8(x, 5) == (0.27778511651real) * x[0] + (-0.490392640202real) * x[1] + (0.097545161008real) * x[2] + (0.415734806151real) * x[3] + (-0.415734806151real) * x[4] + (-0.097545161008real) * x[5] + (0.490392640202real) * x[6] + (-0.27778511651real) * x[7],
        dct8(x, 6) == (0.191341716183real) * x[0] + (-0.461939766256real) * x[1] + (0.461939766256real) * x[2] + (-0.191341716183real) * x[3] + (-0.191341716183real) * x[4] + (0.461939766256real) * x[5] + (-0.461939766256real) * x[6] + (0.191341716183real) * x[7],
        dct8(x, 7) == (0.097545161008real) * x[0] + (-0.27778511651real) * x[1] + (0.415734806151real) * x[2] + (-0.490392640202real) * x[3] + (0.490392640202real) * x[4] + (-0.415734806151real) * x[5] + (0.27778511651real) * x[6] + (-0.097545161008real) * x[7]
{ reveal(dct8); dct_w_0(); dct_w_1(); dct_w_2(); dct_w_3(); dct_w_4(); dct_w_5(); dct_w_6(); dct_w_7(); }
/// the ideal values of the scheme
proof fn ideals(x: Seq<int>, l: Lift, m: real)
    requires l == lift(x), near(x[0] as real, 0real, m), near(x[1] as real, 0real, m), near(x[2] as real, 0real, m), near(x[3] as real, 0real, m), near(x[4] as real, 0real, m), near(x[5] as real, 0real, m), near(x[6] as real, 0real, m), near(x[7] as real, 0real, m)
    ensures near(l.t1a as real, 0real, 3.5real * m + 4real), near(l.th1 as real, 0real, 3.5real * m + 4real), near(l.t0a as real, 0real, 3.5real * m + 4real), near(l.t4a as real, 0real, 3.5real * m + 4real), near(l.th4 as real, 0real, 3.5real * m + 4real), near(l.t5a as real, 0real, 3.5real * m + 4real), near(l.t3a as real, 0real, 3.5real * m + 4real), near(l.h3 as real, 0real, 3.5real * m + 4real), near(l.t2a as real, 0real, 3.5real * m + 4real), near(l.t6a as real, 0real, 3.5real * m + 4real), near(l.th6 as real, 0real, 3.5real * m + 4real), near(l.t7a as real, 0real, 3.5real * m + 4real), near(l.t0b as real, 0real, 3.5real * m + 4real), near(l.t6b as real, 0real, 3.5real * m + 4real), near(l.t2b as real, 0real, 3.5real * m + 4real), near(l.t4b as real, 0real, 3.5real * m + 4real), near(l.t0c as real, 0real, 3.5real * m + 4real), near(l.t4c as real, 0real, 3.5real * m + 4real), near(l.t0d as real, 0real, 3.5real * m + 4real), near(l.t6c as real, 0real, 3.5real * m + 4real), near(l.t2c as real, 0real, 3.5real * m + 4real), near(l.t6d as real, 0real, 3.5real * m + 4real), near(l.t3b as real, 0real, 3.5real * m + 4real), near(l.t5b as real, 0real, 3.5real * m + 4real), near(l.t3c as real, 0real, 3.5real * m + 4real), near(l.h5 as real, 0real, 3.5real * m + 4real), near(l.t7b as real, 0real, 3.5real * m + 4real), near(l.t5c as real, 0real, 3.5real * m + 4real), near(l.t3d as real, 0real, 3.5real * m + 4real), near(l.t1b as real, 0real, 3.5real * m + 4real), near(l.t7c as real, 0real, 3.5real * m + 4real), near(l.t1c as real, 0real, 3.5real * m + 4real), near(l.t7d as real, 0real, 3.5real * m + 4real), near(l.t5d as real, 0real, 3.5real * m + 4real), near(l.t3e as real, 0real, 3.5real * m + 4real), near(l.t5e as real, 0real, 3.5real * m + 4real),
        near(l.t0d as real, (0.353553390593real) * (x[0] as real) + (0.353553390593real) * (x[1] as real) + (0.353553390593real) * (x[2] as real) + (0.353553390593real) * (x[3] as real) + (0.353553390593real) * (x[4] as real) + (0.353553390593real) * (x[5] as real) + (0.353553390593real) * (x[6] as real) + (0.353553390593real) * (x[7] as real), 0.000116real * m + 3.46real), near(l.t0d as real, 0real, 2.8286real * m + 3.46real),
        near(l.t1c as real, (0.490392640202real) * (x[0] as real) + (0.415734806151real) * (x[1] as real) + (0.27778511651real) * (x[2] as real) + (0.097545161008real) * (x[3] as real) + (-0.097545161008real) * (x[4] as real) + (-0.27778511651real) * (x[5] as real) + (-0.415734806151real) * (x[6] as real) + (-0.490392640202real) * (x[7] as real), 0.000116real * m + 3.46real), near(l.t1c as real, 0real, 2.8286real * m + 3.46real),
        near(l.t2c as real, (0.461939766256real) * (x[0] as real) + (0.191341716183real) * (x[1] as real) + (-0.191341716183real) * (x[2] as real) + (-0.461939766256real) * (x[3] as real) + (-0.461939766256real) * (x[4] as real) + (-0.191341716183real) * (x[5] as real) + (0.191341716183real) * (x[6] as real) + (0.461939766256real) * (x[7] as real), 0.000116real * m + 3.46real), near(l.t2c as real, 0real, 2.8286real * m + 3.46real),
        near(l.t3e as real, (0.415734806151real) * (x[0] as real) + (-0.097545161008real) * (x[1] as real) + (-0.490392640202real) * (x[2] as real) + (-0.27778511651real) * (x[3] as real) + (0.27778511651real) * (x[4] as real) + (0.490392640202real) * (x[5] as real) + (0.097545161008real) * (x[6] as real) + (-0.415734806151real) * (x[7] as real), 0.000116real * m + 3.46real), near(l.t3e as real, 0real, 2.8286real * m + 3.46real),
        near(l.t4c as real, (0.353553390593real) * (x[0] as real) + (-0.353553390593real) * (x[1] as real) + (-0.353553390593real) * (x[2] as real) + (0.353553390593real) * (x[3] as real) + (0.353553390593real) * (x[4] as real) + (-0.353553390593real) * (x[5] as real) + (-0.353553390593real) * (x[6] as real) + (0.353553390593real) * (x[7] as real), 0.000116real * m + 3.46real), near(l.t4c as real, 0real, 2.8286real * m + 3.46real),
        near(l.t5e as real, (0.27778511651real) * (x[0] as real) + (-0.490392640202real) * (x[1] as real) + (0.097545161008real) * (x[2] as real) + (0.415734806151real) * (x[3] as real) + (-0.415734806151real) * (x[4] as real) + (-0.097545161008real) * (x[5] as real) + (0.490392640202real) * (x[6] as real) + (-0.27778511651real) * (x[7] as real), 0.000116real * m + 3.46real), near(l.t5e as real, 0real, 2.8286real * m + 3.46real),
        near(l.t6d as real, (0.191341716183real) * (x[0] as real) + (-0.461939766256real) * (x[1] as real) + (0.461939766256real) * (x[2] as real) + (-0.191341716183real) * (x[3] as real) + (-0.191341716183real) * (x[4] as real) + (0.461939766256real) * (x[5] as real) + (-0.461939766256real) * (x[6] as real) + (0.191341716183real) * (x[7] as real), 0.000116real * m + 3.46real), near(l.t6d as real, 0real, 2.8286real * m + 3.46real),
        near(l.t7d as real, (0.097545161008real) * (x[0] as real) + (-0.27778511651real) * (x[1] as real) + (0.415734806151real) * (x[2] as real) + (-0.490392640202real) * (x[3] as real) + (0.490392640202real) * (x[4] as real) + (-0.415734806151real) * (x[5] as real) + (0.27778511651real) * (x[6] as real) + (-0.097545161008real) * (x[7] as real), 0.000116real * m + 3.46real), near(l.t7d as real, 0real, 2.8286real * m + 3.46real),
{ reveal(lift);
    let i_t1a = ideal_sub(x[0] as real, x[7] as real);
    let i_th1 = ideal_mul(i_t1a, 1real, 2real);
    let i_t0a = ideal_sub(x[0] as real, i_th1);
    let i_t4a = ideal_add(x[1] as real, x[6] as real);
    let i_th4 = ideal_mul(i_t4a, 1real, 2real);
    let i_t5a = ideal_sub(x[6] as real, i_th4);
    let i_t3a = ideal_sub(x[2] as real, x[5] as real);
    let i_h3 = ideal_mul(i_t3a, 1real, 2real);
    let i_t2a = ideal_sub(x[2] as real, i_h3);
    let i_t6a = ideal_add(x[3] as real, x[4] as real);
    let i_th6 = ideal_mul(i_t6a, 1real, 2real);
    let i_t7a = ideal_sub(i_th6, x[4] as real);
    let i_t0b = ideal_add(i_t0a, i_th6);
    let i_t6b = ideal_sub(i_t0b, i_t6a);
    let i_t2b = ideal_sub(i_th4, i_t2a);
    let i_t4b = ideal_sub(i_t2b, i_t4a);
    let i_r1 = ideal_mul(i_t4b, 13573real, 32768real);
    let i_t0c = ideal_sub(i_t0b, i_r1);
    let i_r2 = ideal_mul(i_t0c, 11585real, 16384real);
    let i_t4c = ideal_add(i_t4b, i_r2);
    let i_r3 = ideal_mul(i_t4c, 13573real, 32768real);
    let i_t0d = ideal_sub(i_t0c, i_r3);
    let i_r4 = ideal_mul(i_t2b, 21895real, 32768real);
    let i_t6c = ideal_sub(i_t6b, i_r4);
    let i_r5 = ideal_mul(i_t6c, 15137real, 16384real);
    let i_t2c = ideal_add(i_t2b, i_r5);
    let i_r6 = ideal_mul(i_t2c, 21895real, 32768real);
    let i_t6d = ideal_sub(i_t6c, i_r6);
    let i_r7 = ideal_mul(i_t5a, 19195real, 32768real);
    let i_t3b = ideal_add(i_t3a, i_r7);
    let i_r8 = ideal_mul(i_t3b, 11585real, 16384real);
    let i_t5b = ideal_add(i_t5a, i_r8);
    let i_r9 = ideal_mul(i_t5b, 7489real, 8192real);
    let i_t3c = ideal_sub(i_t3b, i_r9);
    let i_h5 = ideal_mul(i_t5b, 1real, 2real);
    let i_t7b = ideal_sub(i_h5, i_t7a);
    let i_t5c = ideal_sub(i_t5b, i_t7b);
    let i_t3d = ideal_sub(i_th1, i_t3c);
    let i_t1b = ideal_sub(i_t1a, i_t3d);
    let i_r10 = ideal_mul(i_t1b, 3227real, 32768real);
    let i_t7c = ideal_add(i_t7b, i_r10);
    let i_r11 = ideal_mul(i_t7c, 6393real, 32768real);
    let i_t1c = ideal_sub(i_t1b, i_r11);
    let i_r12 = ideal_mul(i_t1c, 3227real, 32768real);
    let i_t7d = ideal_add(i_t7c, i_r12);
    let i_r13 = ideal_mul(i_t3d, 2485real, 8192real);
    let i_t5d = ideal_add(i_t5c, i_r13);
    let i_r14 = ideal_mul(i_t5d, 18205real, 32768real);
    let i_t3e = ideal_sub(i_t3d, i_r14);
    let i_r15 = ideal_mul(i_t3e, 2485real, 8192real);
    let i_t5e = ideal_add(i_t5d, i_r15);
    parts_even(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], l, i_t1a, i_th1, i_t0a, i_t4a, i_th4, i_t3a, i_h3, i_t2a, i_t6a, i_th6, i_t0b, i_t6b, i_t2b, i_t4b, i_r1, i_t0c, i_r2, i_t4c, i_r3, i_t0d, i_r4, i_t6c, i_r5, i_t2c, i_r6, i_t6d, m);
    parts_odd(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], l, i_t1a, i_th1, i_t4a, i_th4, i_t5a, i_t3a, i_t6a, i_th6, i_t7a, i_r7, i_t3b, i_r8, i_t5b, i_r9, i_t3c, i_h5, i_t7b, i_t5c, i_t3d, i_t1b, i_r10, i_t7c, i_r11, i_t1c, i_r12, i_t7d, i_r13, i_t5d, i_r14, i_t3e, i_r15, i_t5e, m);
}
proof fn ideal_sub(a: real, b: real) -> (r: real) ensures is_sub(r, a, b) { reveal(is_sub); a - b }
proof fn ideal_add(a: real, b: real) -> (r: real) ensures is_add(r, a, b) { reveal(is_add); a + b }
proof fn ideal_mul(a: real, k: real, one: real) -> (r: real) requires one > 0real ensures is_mul(r, a, k, one)
{ reveal(is_mul); assert(one * (k * a / one) == k * a) by(nonlinear_arith) requires one > 0real; k * a / one }
/// C08: the transform is the DCT up to rounding, and its values are bounded
pub proof fn fd8_accuracy(x: Seq<int>, m: int)
    requires x.len() == 8, m >= 0, forall|j: int| 0 <= j < 8 ==> -m <= #[trigger] x[j] <= m
    ensures
        forall|k: int| 0 <= k < 8 ==> near(#[trigger] fd8(x)[k] as real, dct8(Seq::new(8, |j: int| x[j] as real), k), 0.000116real * m as real + 3.46real),
        forall|k: int| 0 <= k < 8 ==> near(#[trigger] fd8(x)[k] as real, 0real, 2.8286real * m as real + 3.46real),
        ({ let l = lift(x); let b = 3.5real * m as real + 4real;
           near(l.t1a as real, 0real, b) && near(l.th1 as real, 0real, b) && near(l.t0a as real, 0real, b) && near(l.t4a as real, 0real, b) && near(l.th4 as real, 0real, b) && near(l.t5a as real, 0real, b) && near(l.t3a as real, 0real, b) && near(l.h3 as real, 0real, b) && near(l.t2a as real, 0real, b) && near(l.t6a as real, 0real, b) && near(l.th6 as real, 0real, b) && near(l.t7a as real, 0real, b) && near(l.t0b as real, 0real, b) && near(l.t6b as real, 0real, b) && near(l.t2b as real, 0real, b) && near(l.t4b as real, 0real, b) && near(l.t0c as real, 0real, b) && near(l.t4c as real, 0real, b) && near(l.t0d as real, 0real, b) && near(l.t6c as real, 0real, b) && near(l.t2c as real, 0real, b) && near(l.t6d as real, 0real, b) && near(l.t3b as real, 0real, b) && near(l.t5b as real, 0real, b) && near(l.t3c as real, 0real, b) && near(l.h5 as real, 0real, b) && near(l.t7b as real, 0real, b) && near(l.t5c as real, 0real, b) && near(l.t3d as real, 0real, b) && near(l.t1b as real, 0real, b) && near(l.t7c as real, 0real, b) && near(l.t1c as real, 0real, b) && near(l.t7d as real, 0real, b) && near(l.t5d as real, 0real, b) && near(l.t3e as real, 0real, b) && near(l.t5e as real, 0real, b) }),
{
    let l = lift(x);
    assert forall|j: int| 0 <= j < 8 implies near(#[trigger] x[j] as real, 0real, m as real) by { reveal(near); }
    let y = Seq::new(8, |j: int| x[j] as real);
    ideals_dct(x, y, l, m as real);
    let f = fd8(x);
    assert forall|k: int| 0 <= k < 8 implies near(#[trigger] f[k] as real, dct8(y, k), 0.000116real * m as real + 3.46real) && near(f[k] as real, 0real, 2.8286real * m as real + 3.46real) by {
        if k == 0 {} else if k == 1 {} else if k == 2 {} else if k == 3 {} else if k == 4 {} else if k == 5 {} else if k == 6 {} else { assert(k == 7); }
    }
}
proof fn ideals_dct(x: Seq<int>, y: Seq<real>, l: Lift, m: real)
    requires l == lift(x), y == Seq::new(8, |j: int| x[j] as real), near(x[0] as real, 0real, m), near(x[1] as real, 0real, m), near(x[2] as real, 0real, m), near(x[3] as real, 0real, m), near(x[4] as real, 0real, m), near(x[5] as real, 0real, m), near(x[6] as real, 0real, m), near(x[7] as real, 0real, m)
    ensures near(l.t1a as real, 0real, 3.5real * m + 4real), near(l.th1 as real, 0real, 3.5real * m + 4real), near(l.t0a as real, 0real, 3.5real * m + 4real), near(l.t4a as real, 0real, 3.5real * m + 4real), near(l.th4 as real, 0real, 3.5real * m + 4real), near(l.t5a as real, 0real, 3.5real * m + 4real), near(l.t3a as real, 0real, 3.5real * m + 4real), near(l.h3 as real, 0real, 3.5real * m + 4real), near(l.t2a as real, 0real, 3.5real * m + 4real), near(l.t6a as real, 0real, 3.5real * m + 4real), near(l.th6 as real, 0real, 3.5real * m + 4real), near(l.t7a as real, 0real, 3.5real * m + 4real), near(l.t0b as real, 0real, 3.5real * m + 4real), near(l.t6b as real, 0real, 3.5real * m + 4real), near(l.t2b as real, 0real, 3.5real * m + 4real), near(l.t4b as real, 0real, 3.5real * m + 4real), near(l.t0c as real, 0real, 3.5real * m + 4real), near(l.t4c as real, 0real, 3.5real * m + 4real), near(l.t0d as real, 0real, 3.5real * m + 4real), near(l.t6c as real, 0real, 3.5real * m + 4real), near(l.t2c as real, 0real, 3.5real * m + 4real), near(l.t6d as real, 0real, 3.5real * m + 4real), near(l.t3b as real, 0real, 3.5real * m + 4real), near(l.t5b as real, 0real, 3.5real * m + 4real), near(l.t3c as real, 0real, 3.5real * m + 4real), near(l.h5 as real, 0real, 3.5real * m + 4real), near(l.t7b as real, 0real, 3.5real * m + 4real), near(l.t5c as real, 0real, 3.5real * m + 4real), near(l.t3d as real, 0real, 3.5real * m + 4real), near(l.t1b as real, 0real, 3.5real * m + 4real), near(l.t7c as real, 0real, 3.5real * m + 4real), near(l.t1c as real, 0real, 3.5real * m + 4real), near(l.t7d as real, 0real, 3.5real * m + 4real), near(l.t5d as real, 0real, 3.5real * m + 4real), near(l.t3e as real, 0real, 3.5real * m + 4real), near(l.t5e as real, 0real, 3.5real * m + 4real),
        near(l.t0d as real, dct8(y, 0), 0.000116real * m + 3.46real), near(l.t0d as real, 0real, 2.8286real * m + 3.46real),
        near(l.t1c as real, dct8(y, 1), 0.000116real * m + 3.46real), near(l.t1c as real, 0real, 2.8286real * m + 3.46real),
        near(l.t2c as real, dct8(y, 2), 0.000116real * m + 3.46real), near(l.t2c as real, 0real, 2.8286real * m + 3.46real),
        near(l.t3e as real, dct8(y, 3), 0.000116real * m + 3.46real), near(l.t3e as real, 0real, 2.8286real * m + 3.46real),
        near(l.t4c as real, dct8(y, 4), 0.000116real * m + 3.46real), near(l.t4c as real, 0real, 2.8286real * m + 3.46real),
        near(l.t5e as real, dct8(y, 5), 0.000116real * m + 3.46real), near(l.t5e as real, 0real, 2.8286real * m + 3.46real),
        near(l.t6d as real, dct8(y, 6), 0.000116real * m + 3.46real), near(l.t6d as real, 0real, 2.8286real * m + 3.46real),
        near(l.t7d as real, dct8(y, 7), 0.000116real * m + 3.46real), near(l.t7d as real, 0real, 2.8286real * m + 3.46real),
{
    ideals(x, l, m);
    out_0(x, y);
    out_1(x, y);
    out_2(x, y);
    out_3(x, y);
    out_4(x, y);
    out_5(x, y);
    out_6(x, y);
    out_7(x, y);
}
proof fn out_0(x: Seq<int>, y: Seq<real>) requires y == Seq::new(8, |j: int| x[j] as real) ensures dct8(y, 0) == (0.353553390593real) * (x[0] as real) + (0.353553390593real) * (x[1] as real) + (0.353553390593real) * (x[2] as real) + (0.353553390593real) * (x[3] as real) + (0.353553390593real) * (x[4] as real) + (0.353553390593real) * (x[5] as real) + (0.353553390593real) * (x[6] as real) + (0.353553390593real) * (x[7] as real)
{ dct8_lin(y); }
proof fn out_1(x: Seq<int>, y: Seq<real>) requires y == Seq::new(8, |j: int| x[j] as real) ensures dct8(y, 1) == (0.490392640202real) * (x[0] as real) + (0.415734806151real) * (x[1] as real) + (0.27778511651real) * (x[2] as real) + (0.097545161008real) * (x[3] as real) + (-0.097545161008real) * (x[4] as real) + (-0.27778511651real) * (x[5] as real) + (-0.415734806151real) * (x[6] as real) + (-0.490392640202real) * (x[7] as real)
{ dct8_lin(y); }
proof fn out_2(x: Seq<int>, y: Seq<real>) requires y == Seq::new(8, |j: int| x[j] as real) ensures dct8(y, 2) == (0.461939766256real) * (x[0] as real) + (0.191341716183real) * (x[1] as real) + (-0.191341716183real) * (x[2] as real) + (-0.461939766256real) * (x[3] as real) + (-0.461939766256real) * (x[4] as real) + (-0.191341716183real) * (x[5] as real) + (0.191341716183real) * (x[6] as real) + (0.461939766256real) * (x[7] as real)
{ dct8_lin(y); }
proof fn out_3(x: Seq<int>, y: Seq<real>) requires y == Seq::new(8, |j: int| x[j] as real) ensures dct8(y, 3) == (0.415734806151real) * (x[0] as real) + (-0.097545161008real) * (x[1] as real) + (-0.490392640202real) * (x[2] as real) + (-0.27778511651real) * (x[3] as real) + (0.27778511651real) * (x[4] as real) + (0.490392640202real) * (x[5] as real) + (0.097545161008real) * (x[6] as real) + (-0.415734806151real) * (x[7] as real)
{ dct8_lin(y); }
proof fn out_4(x: Seq<int>, y: Seq<real>) requires y == Seq::new(8, |j: int| x[j] as real) ensures dct8(y, 4) == (0.353553390593real) * (x[0] as real) + (-0.353553390593real) * (x[1] as real) + (-0.353553390593real) * (x[2] as real) + (0.353553390593real) * (x[3] as real) + (0.353553390593real) * (x[4] as real) + (-0.353553390593real) * (x[5] as real) + (-0.353553390593real) * (x[6] as real) + (0.353553390593real) * (x[7] as real)
{ dct8_lin(y); }
proof fn out_5(x: Seq<int>, y: Seq<real>) requires y == Seq::new(8, |j: int| x[j] as real) ensures dct8(y, 5) == (0.27778511651real) * (x[0] as real) + (-0.490392640202real) * (x[1] as real) + (0.097545161008real) * (x[2] as real) + (0.415734806151real) * (x[3] as real) + (-0.415734806151real) * (x[4] as real) + (-0.097545161008real) * (x[5] as real) + (0.490392640202real) * (x[6] as real) + (-0.27778511651real) * (x[7] as real)
{ dct8_lin(y); }
proof fn out_6(x: Seq<int>, y: Seq<real>) requires y == Seq::new(8, |j: int| x[j] as real) ensures dct8(y, 6) == (0.191341716183real) * (x[0] as real) + (-0.461939766256real) * (x[1] as real) + (0.461939766256real) * (x[2] as real) + (-0.191341716183real) * (x[3] as real) + (-0.191341716183real) * (x[4] as real) + (0.461939766256real) * (x[5] as real) + (-0.461939766256real) * (x[6] as real) + (0.191341716183real) * (x[7] as real)
{ dct8_lin(y); }
proof fn out_7(x: Seq<int>, y: Seq<real>) requires y == Seq::new(8, |j: int| x[j] as real) ensures dct8(y, 7) == (0.097545161008real) * (x[0] as real) + (-0.27778511651real) * (x[1] as real) + (0.415734806151real) * (x[2] as real) + (-0.490392640202real) * (x[3] as real) + (0.490392640202real) * (x[4] as real) + (-0.415734806151real) * (x[5] as real) + (0.27778511651real) * (x[6] as real) + (-0.097545161008real) * (x[7] as real)
{ dct8_lin(y); }
/// the steps of the scheme, and that nothing overflows
pub proof fn lift_steps(x: Seq<int>)
    requires x.len() == 8, forall|j: int| 0 <= j < 8 ==> -12000 <= #[trigger] x[j] <= 12000
    ensures ({ let l = lift(x);
        &&& l.t1a == x[0] - x[7]
        &&& l.th1 == half(l.t1a)
        &&& l.t0a == x[0] - l.th1
        &&& l.t4a == x[1] + x[6]
        &&& l.th4 == half(l.t4a)
        &&& l.t5a == x[6] - l.th4
        &&& l.t3a == x[2] - x[5]
        &&& l.h3 == half(l.t3a)
        &&& l.t2a == x[2] - l.h3
        &&& l.t6a == x[3] + x[4]
        &&& l.th6 == half(l.t6a)
        &&& l.t7a == l.th6 - x[4]
        &&& l.t0b == l.t0a + l.th6
        &&& l.t6b == l.t0b - l.t6a
        &&& l.t2b == l.th4 - l.t2a
        &&& l.t4b == l.t2b - l.t4a
        &&& l.r1 == sh(l.t4b * 13573 + 16384, 32768)
        &&& l.t0c == l.t0b - l.r1
        &&& l.r2 == sh(l.t0c * 11585 + 8192, 16384)
        &&& l.t4c == l.t4b + l.r2
        &&& l.r3 == sh(l.t4c * 13573 + 16384, 32768)
        &&& l.t0d == l.t0c - l.r3
        &&& l.r4 == sh(l.t2b * 21895 + 16384, 32768)
        &&& l.t6c == l.t6b - l.r4
        &&& l.r5 == sh(l.t6c * 15137 + 8192, 16384)
        &&& l.t2c == l.t2b + l.r5
        &&& l.r6 == sh(l.t2c * 21895 + 16384, 32768)
        &&& l.t6d == l.t6c - l.r6
        &&& l.r7 == sh(l.t5a * 19195 + 16384, 32768)
        &&& l.t3b == l.t3a + l.r7
        &&& l.r8 == sh(l.t3b * 11585 + 8192, 16384)
        &&& l.t5b == l.t5a + l.r8
        &&& l.r9 == sh(l.t5b * 7489 + 4096, 8192)
        &&& l.t3c == l.t3b - l.r9
        &&& l.h5 == half(l.t5b)
        &&& l.t7b == l.h5 - l.t7a
        &&& l.t5c == l.t5b - l.t7b
        &&& l.t3d == l.th1 - l.t3c
        &&& l.t1b == l.t1a - l.t3d
        &&& l.r10 == sh(l.t1b * 3227 + 16384, 32768)
        &&& l.t7c == l.t7b + l.r10
        &&& l.r11 == sh(l.t7c * 6393 + 16384, 32768)
        &&& l.t1c == l.t1b - l.r11
        &&& l.r12 == sh(l.t1c * 3227 + 16384, 32768)
        &&& l.t7d == l.t7c + l.r12
        &&& l.r13 == sh(l.t3d * 2485 + 4096, 8192)
        &&& l.t5d == l.t5c + l.r13
        &&& l.r14 == sh(l.t5d * 18205 + 16384, 32768)
        &&& l.t3e == l.t3d - l.r14
        &&& l.r15 == sh(l.t3e * 2485 + 4096, 8192)
        &&& l.t5e == l.t5d + l.r15
        &&& -46004 <= l.t1a <= 46004
        &&& -46004 <= l.th1 <= 46004
        &&& -46004 <= l.t0a <= 46004
        &&& -46004 <= l.t4a <= 46004
        &&& -46004 <= l.th4 <= 46004
        &&& -46004 <= l.t5a <= 46004
        &&& -46004 <= l.t3a <= 46004
        &&& -46004 <= l.h3 <= 46004
        &&& -46004 <= l.t2a <= 46004
        &&& -46004 <= l.t6a <= 46004
        &&& -46004 <= l.th6 <= 46004
        &&& -46004 <= l.t7a <= 46004
        &&& -46004 <= l.t0b <= 46004
        &&& -46004 <= l.t6b <= 46004
        &&& -46004 <= l.t2b <= 46004
        &&& -46004 <= l.t4b <= 46004
        &&& -46004 <= l.t0c <= 46004
        &&& -46004 <= l.t4c <= 46004
        &&& -46004 <= l.t0d <= 46004
        &&& -46004 <= l.t6c <= 46004
        &&& -46004 <= l.t2c <= 46004
        &&& -46004 <= l.t6d <= 46004
        &&& -46004 <= l.t3b <= 46004
        &&& -46004 <= l.t5b <= 46004
        &&& -46004 <= l.t3c <= 46004
        &&& -46004 <= l.h5 <= 46004
        &&& -46004 <= l.t7b <= 46004
        &&& -46004 <= l.t5c <= 46004
        &&& -46004 <= l.t3d <= 46004
        &&& -46004 <= l.t1b <= 46004
        &&& -46004 <= l.t7c <= 46004
        &&& -46004 <= l.t1c <= 46004
        &&& -46004 <= l.t7d <= 46004
        &&& -46004 <= l.t5d <= 46004
        &&& -46004 <= l.t3e <= 46004
        &&& -46004 <= l.t5e <= 46004
    }),
{
    fd8_accuracy(x, 12000); reveal(lift); let l = lift(x); let b = 3.5real * 12000real + 4real;
    near_int(l.t1a, b, 46004);
    near_int(l.th1, b, 46004);
    near_int(l.t0a, b, 46004);
    near_int(l.t4a, b, 46004);
    near_int(l.th4, b, 46004);
    near_int(l.t5a, b, 46004);
    near_int(l.t3a, b, 46004);
    near_int(l.h3, b, 46004);
    near_int(l.t2a, b, 46004);
    near_int(l.t6a, b, 46004);
    near_int(l.th6, b, 46004);
    near_int(l.t7a, b, 46004);
    near_int(l.t0b, b, 46004);
    near_int(l.t6b, b, 46004);
    near_int(l.t2b, b, 46004);
    near_int(l.t4b, b, 46004);
    near_int(l.t0c, b, 46004);
    near_int(l.t4c, b, 46004);
    near_int(l.t0d, b, 46004);
    near_int(l.t6c, b, 46004);
    near_int(l.t2c, b, 46004);
    near_int(l.t6d, b, 46004);
    near_int(l.t3b, b, 46004);
    near_int(l.t5b, b, 46004);
    near_int(l.t3c, b, 46004);
    near_int(l.h5, b, 46004);
    near_int(l.t7b, b, 46004);
    near_int(l.t5c, b, 46004);
    near_int(l.t3d, b, 46004);
    near_int(l.t1b, b, 46004);
    near_int(l.t7c, b, 46004);
    near_int(l.t1c, b, 46004);
    near_int(l.t7d, b, 46004);
    near_int(l.t5d, b, 46004);
    near_int(l.t3e, b, 46004);
    near_int(l.t5e, b, 46004);
}
pub proof fn near_int(v: int, b: real, e: int) requires near(v as real, 0real, b), b < (e + 1) as real ensures -e <= v <= e { reveal(near); }
