// ------------------------------------------------------------- the 8x8 transform
pub broadcast proof fn shr15(x: i32) ensures #[trigger] (x >> 15) == sh(x as int, 32768)
{ reveal(sh); assert((x >> 15) as i64 * 32768 <= x as i64 && x as i64 <= (x >> 15) as i64 * 32768 + 32767 && (x >> 15) as i64 >= -65536 && (x >> 15) as i64 <= 65536) by(bit_vector); }
pub broadcast proof fn shr14(x: i32) ensures #[trigger] (x >> 14) == sh(x as int, 16384)
{ reveal(sh); assert((x >> 14) as i64 * 16384 <= x as i64 && x as i64 <= (x >> 14) as i64 * 16384 + 16383 && (x >> 14) as i64 >= -131072 && (x >> 14) as i64 <= 131072) by(bit_vector); }
pub broadcast proof fn shr13(x: i32) ensures #[trigger] (x >> 13) == sh(x as int, 8192)
{ reveal(sh); assert((x >> 13) as i64 * 8192 <= x as i64 && x as i64 <= (x >> 13) as i64 * 8192 + 8191 && (x >> 13) as i64 >= -262144 && (x >> 13) as i64 <= 262144) by(bit_vector); }
pub broadcast group shr { shr13, shr14, shr15 }
pub proof fn half_def(a: int) ensures half(a) == (if a < 0 { -((-a) / 2) } else { a / 2 }) { reveal(half); }
/// every eighth number
pub open spec fn col(d: Seq<int>, j: int) -> Seq<int> { Seq::new(8, |m: int| d[8 * m + j]) }
pub open spec fn rcol(d: Seq<real>, j: int) -> Seq<real> { Seq::new(8, |m: int| d[8 * m + j]) }
/// the transforms of the columns, as rows
pub open spec fn pass(d: Seq<int>) -> Seq<int> { Seq::new(64, |n: int| fd8(col(d, n / 8))[n % 8]) }
pub open spec fn fd64(d: Seq<int>) -> Seq<int> { pass(pass(d)) }
pub open spec fn rpass(d: Seq<real>) -> Seq<real> { Seq::new(64, |n: int| dct8(rcol(d, n / 8), n % 8)) }
/// the exact 8x8 DCT
pub open spec fn dct64(d: Seq<real>) -> Seq<real> { rpass(rpass(d)) }
pub open spec fn reals(d: Seq<int>) -> Seq<real> { Seq::new(d.len(), |i: int| d[i] as real) }
pub open spec fn within(d: Seq<int>, m: int) -> bool { forall|i: int| 0 <= i < d.len() ==> -m <= #[trigger] d[i] <= m }
pub open spec fn ints(d: Seq<i32>) -> Seq<int> { Seq::new(d.len(), |i: int| d[i] as int) }
pub proof fn pass_within(d: Seq<int>, m: int, e: int)
    requires d.len() == 64, m >= 0, within(d, m), 2.8286real * m as real + 3.46real < (e + 1) as real
    ensures pass(d).len() == 64, within(pass(d), e)
{ pass_ok(d, m, e); }
pub proof fn pass_ok(d: Seq<int>, m: int, e: int)
    requires d.len() == 64, m >= 0, within(d, m), 2.8286real * m as real + 3.46real < (e + 1) as real
    ensures pass(d).len() == 64, within(pass(d), e),
        forall|n: int| 0 <= n < 64 ==> near(#[trigger] pass(d)[n] as real, rpass(reals(d))[n], 0.000116real * m as real + 3.46real),
{
    assert forall|n: int| 0 <= n < 64 implies -e <= #[trigger] pass(d)[n] <= e && near(pass(d)[n] as real, rpass(reals(d))[n], 0.000116real * m as real + 3.46real) by {
        let x = col(d, n / 8);
        assert forall|j: int| 0 <= j < 8 implies -m <= #[trigger] x[j] <= m by { assert(x[j] == d[8 * j + n / 8]); }
        fd8_accuracy(x, m);
        assert(Seq::new(8, |j: int| x[j] as real) =~= rcol(reals(d), n / 8));
        let v = fd8(x)[n % 8];
        assert(near(v as real, 0real, 2.8286real * m as real + 3.46real));
        near_int(v, 2.8286real * m as real + 3.46real, e);
    }
}
/// C08: the transform of the code is the 8x8 DCT up to 16, for samples of up to 12 bits
pub proof fn fd64_accuracy(d: Seq<int>)
    requires d.len() == 64, within(d, 4095)
    ensures
        fd64(d).len() == 64, within(pass(d), 11586), within(fd64(d), 32775),
        forall|n: int| 0 <= n < 64 ==> near(#[trigger] fd64(d)[n] as real, dct64(reals(d))[n], 16real),
{
    pass_ok(d, 4095, 11586);
    let z = pass(d);
    pass_ok(z, 11586, 32775);
    let w = rpass(reals(d));
    assert forall|n: int| 0 <= n < 64 implies near(#[trigger] fd64(d)[n] as real, dct64(reals(d))[n], 16real) by {
        let (a, b) = (rcol(reals(z), n / 8), rcol(w, n / 8));
        assert forall|j: int| 0 <= j < 8 implies near(#[trigger] a[j], b[j], 3.94real) by {
            assert(a[j] == z[8 * j + n / 8] as real);
            near_more(z[8 * j + n / 8] as real, w[8 * j + n / 8], 0.000116real * 4095real + 3.46real, 3.94real);
        }
        dct8_near(a, b, n % 8);
        near_trans(fd64(d)[n] as real, rpass(reals(z))[n], dct64(reals(d))[n], 0.000116real * 11586real + 3.46real, 11.15real);
        near_more(fd64(d)[n] as real, dct64(reals(d))[n], 0.000116real * 11586real + 3.46real + 11.15real, 16real);
    }
}
proof fn near_trans(a: real, b: real, c: real, e: real, f: real) requires near(a, b, e), near(b, c, f) ensures near(a, c, e + f) { reveal(near); }
proof fn near_lin_0(d0: real, d1: real, d2: real, d3: real, d4: real, d5: real, d6: real, d7: real) requires near(d0, 0real, 3.94real), near(d1, 0real, 3.94real), near(d2, 0real, 3.94real), near(d3, 0real, 3.94real), near(d4, 0real, 3.94real), near(d5, 0real, 3.94real), near(d6, 0real, 3.94real), near(d7, 0real, 3.94real) ensures near((0.353553390593real) * d0 + (0.353553390593real) * d1 + (0.353553390593real) * d2 + (0.353553390593real) * d3 + (0.353553390593real) * d4 + (0.353553390593real) * d5 + (0.353553390593real) * d6 + (0.353553390593real) * d7, 0real, 11.15real) { reveal(near); }
proof fn near_lin_1(d0: real, d1: real, d2: real, d3: real, d4: real, d5: real, d6: real, d7: real) requires near(d0, 0real, 3.94real), near(d1, 0real, 3.94real), near(d2, 0real, 3.94real), near(d3, 0real, 3.94real), near(d4, 0real, 3.94real), near(d5, 0real, 3.94real), near(d6, 0real, 3.94real), near(d7, 0real, 3.94real) ensures near((0.490392640202real) * d0 + (0.415734806151real) * d1 + (0.27778511651real) * d2 + (0.097545161008real) * d3 + (-0.097545161008real) * d4 + (-0.27778511651real) * d5 + (-0.415734806151real) * d6 + (-0.490392640202real) * d7, 0real, 11.15real) { reveal(near); }
proof fn near_lin_2(d0: real, d1: real, d2: real, d3: real, d4: real, d5: real, d6: real, d7: real) requires near(d0, 0real, 3.94real), near(d1, 0real, 3.94real), near(d2, 0real, 3.94real), near(d3, 0real, 3.94real), near(d4, 0real, 3.94real), near(d5, 0real, 3.94real), near(d6, 0real, 3.94real), near(d7, 0real, 3.94real) ensures near((0.461939766256real) * d0 + (0.191341716183real) * d1 + (-0.191341716183real) * d2 + (-0.461939766256real) * d3 + (-0.461939766256real) * d4 + (-0.191341716183real) * d5 + (0.191341716183real) * d6 + (0.461939766256real) * d7, 0real, 11.15real) { reveal(near); }
proof fn near_lin_3(d0: real, d1: real, d2: real, d3: real, d4: real, d5: real, d6: real, d7: real) requires near(d0, 0real, 3.94real), near(d1, 0real, 3.94real), near(d2, 0real, 3.94real), near(d3, 0real, 3.94real), near(d4, 0real, 3.94real), near(d5, 0real, 3.94real), near(d6, 0real, 3.94real), near(d7, 0real, 3.94real) ensures near((0.415734806151real) * d0 + (-0.097545161008real) * d1 + (-0.490392640202real) * d2 + (-0.27778511651real) * d3 + (0.27778511651real) * d4 + (0.490392640202real) * d5 + (0.097545161008real) * d6 + (-0.415734806151real) * d7, 0real, 11.15real) { reveal(near); }
proof fn near_lin_4(d0: real, d1: real, d2: real, d3: real, d4: real, d5: real, d6: real, d7: real) requires near(d0, 0real, 3.94real), near(d1, 0real, 3.94real), near(d2, 0real, 3.94real), near(d3, 0real, 3.94real), near(d4, 0real, 3.94real), near(d5, 0real, 3.94real), near(d6, 0real, 3.94real), near(d7, 0real, 3.94real) ensures near((0.353553390593real) * d0 + (-0.353553390593real) * d1 + (-0.353553390593real) * d2 + (0.353553390593real) * d3 + (0.353553390593real) * d4 + (-0.353553390593real) * d5 + (-0.353553390593real) * d6 + (0.353553390593real) * d7, 0real, 11.15real) { reveal(near); }
proof fn near_lin_5(d0: real, d1: real, d2: real, d3: real, d4: real, d5: real, d6: real, d7: real) requires near(d0, 0real, 3.94real), near(d1, 0real, 3.94real), near(d2, 0real, 3.94real), near(d3, 0real, 3.94real), near(d4, 0real, 3.94real), near(d5, 0real, 3.94real), near(d6, 0real, 3.94real), near(d7, 0real, 3.94real) ensures near((0.27778511651real) * d0 + (-0.490392640202real) * d1 + (0.097545161008real) * d2 + (0.415734806151real) * d3 + (-0.415734806151real) * d4 + (-0.097545161008real) * d5 + (0.490392640202real) * d6 + (-0.27778511651real) * d7, 0real, 11.15real) { reveal(near); }
proof fn near_lin_6(d0: real, d1: real, d2: real, d3: real, d4: real, d5: real, d6: real, d7: real) requires near(d0, 0real, 3.94real), near(d1, 0real, 3.94real), near(d2, 0real, 3.94real), near(d3, 0real, 3.94real), near(d4, 0real, 3.94real), near(d5, 0real, 3.94real), near(d6, 0real, 3.94real), near(d7, 0real, 3.94real) ensures near((0.191341716183real) * d0 + (-0.461939766256real) * d1 + (0.461939766256real) * d2 + (-0.191341716183real) * d3 + (-0.191341716183real) * d4 + (0.461939766256real) * d5 + (-0.461939766256real) * d6 + (0.191341716183real) * d7, 0real, 11.15real) { reveal(near); }
proof fn near_lin_7(d0: real, d1: real, d2: real, d3: real, d4: real, d5: real, d6: real, d7: real) requires near(d0, 0real, 3.94real), near(d1, 0real, 3.94real), near(d2, 0real, 3.94real), near(d3, 0real, 3.94real), near(d4, 0real, 3.94real), near(d5, 0real, 3.94real), near(d6, 0real, 3.94real), near(d7, 0real, 3.94real) ensures near((0.097545161008real) * d0 + (-0.27778511651real) * d1 + (0.415734806151real) * d2 + (-0.490392640202real) * d3 + (0.490392640202real) * d4 + (-0.415734806151real) * d5 + (0.27778511651real) * d6 + (-0.097545161008real) * d7, 0real, 11.15real) { reveal(near); }
/// inputs that are near have transforms that are near
proof fn dct8_near_0(a: Seq<real>, b: Seq<real>) requires forall|j: int| 0 <= j < 8 ==> near(#[trigger] a[j], b[j], 3.94real) ensures near(dct8(a, 0), dct8(b, 0), 11.15real)
{
    dct8_lin(a); dct8_lin(b);
    assert(near(a[0] - b[0], 0real, 3.94real)) by { reveal(near); assert(near(a[0], b[0], 3.94real)); }
    assert(near(a[1] - b[1], 0real, 3.94real)) by { reveal(near); assert(near(a[1], b[1], 3.94real)); }
    assert(near(a[2] - b[2], 0real, 3.94real)) by { reveal(near); assert(near(a[2], b[2], 3.94real)); }
    assert(near(a[3] - b[3], 0real, 3.94real)) by { reveal(near); assert(near(a[3], b[3], 3.94real)); }
    assert(near(a[4] - b[4], 0real, 3.94real)) by { reveal(near); assert(near(a[4], b[4], 3.94real)); }
    assert(near(a[5] - b[5], 0real, 3.94real)) by { reveal(near); assert(near(a[5], b[5], 3.94real)); }
    assert(near(a[6] - b[6], 0real, 3.94real)) by { reveal(near); assert(near(a[6], b[6], 3.94real)); }
    assert(near(a[7] - b[7], 0real, 3.94real)) by { reveal(near); assert(near(a[7], b[7], 3.94real)); }
    near_lin_0(a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4], a[5] - b[5], a[6] - b[6], a[7] - b[7]);
    near_shift(dct8(a, 0), dct8(b, 0), (0.353553390593real) * (a[0] - b[0]) + (0.353553390593real) * (a[1] - b[1]) + (0.353553390593real) * (a[2] - b[2]) + (0.353553390593real) * (a[3] - b[3]) + (0.353553390593real) * (a[4] - b[4]) + (0.353553390593real) * (a[5] - b[5]) + (0.353553390593real) * (a[6] - b[6]) + (0.353553390593real) * (a[7] - b[7]), 11.15real);
}
proof fn dct8_near_1(a: Seq<real>, b: Seq<real>) requires forall|j: int| 0 <= j < 8 ==> near(#[trigger] a[j], b[j], 3.94real) ensures near(dct8(a, 1), dct8(b, 1), 11.15real)
{
    dct8_lin(a); dct8_lin(b);
    assert(near(a[0] - b[0], 0real, 3.94real)) by { reveal(near); assert(near(a[0], b[0], 3.94real)); }
    assert(near(a[1] - b[1], 0real, 3.94real)) by { reveal(near); assert(near(a[1], b[1], 3.94real)); }
    assert(near(a[2] - b[2], 0real, 3.94real)) by { reveal(near); assert(near(a[2], b[2], 3.94real)); }
    assert(near(a[3] - b[3], 0real, 3.94real)) by { reveal(near); assert(near(a[3], b[3], 3.94real)); }
    assert(near(a[4] - b[4], 0real, 3.94real)) by { reveal(near); assert(near(a[4], b[4], 3.94real)); }
    assert(near(a[5] - b[5], 0real, 3.94real)) by { reveal(near); assert(near(a[5], b[5], 3.94real)); }
    assert(near(a[6] - b[6], 0real, 3.94real)) by { reveal(near); assert(near(a[6], b[6], 3.94real)); }
    assert(near(a[7] - b[7], 0real, 3.94real)) by { reveal(near); assert(near(a[7], b[7], 3.94real)); }
    near_lin_1(a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4], a[5] - b[5], a[6] - b[6], a[7] - b[7]);
    near_shift(dct8(a, 1), dct8(b, 1), (0.490392640202real) * (a[0] - b[0]) + (0.415734806151real) * (a[1] - b[1]) + (0.27778511651real) * (a[2] - b[2]) + (0.097545161008real) * (a[3] - b[3]) + (-0.097545161008real) * (a[4] - b[4]) + (-0.27778511651real) * (a[5] - b[5]) + (-0.415734806151real) * (a[6] - b[6]) + (-0.490392640202real) * (a[7] - b[7]), 11.15real);
}
proof fn dct8_near_2(a: Seq<real>, b: Seq<real>) requires forall|j: int| 0 <= j < 8 ==> near(#[trigger] a[j], b[j], 3.94real) ensures near(dct8(a, 2), dct8(b, 2), 11.15real)
{
    dct8_lin(a); dct8_lin(b);
    assert(near(a[0] - b[0], 0real, 3.94real)) by { reveal(near); assert(near(a[0], b[0], 3.94real)); }
    assert(near(a[1] - b[1], 0real, 3.94real)) by { reveal(near); assert(near(a[1], b[1], 3.94real)); }
    assert(near(a[2] - b[2], 0real, 3.94real)) by { reveal(near); assert(near(a[2], b[2], 3.94real)); }
    assert(near(a[3] - b[3], 0real, 3.94real)) by { reveal(near); assert(near(a[3], b[3], 3.94real)); }
    assert(near(a[4] - b[4], 0real, 3.94real)) by { reveal(near); assert(near(a[4], b[4], 3.94real)); }
    assert(near(a[5] - b[5], 0real, 3.94real)) by { reveal(near); assert(near(a[5], b[5], 3.94real)); }
    assert(near(a[6] - b[6], 0real, 3.94real)) by { reveal(near); assert(near(a[6], b[6], 3.94real)); }
    assert(near(a[7] - b[7], 0real, 3.94real)) by { reveal(near); assert(near(a[7], b[7], 3.94real)); }
    near_lin_2(a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4], a[5] - b[5], a[6] - b[6], a[7] - b[7]);
    near_shift(dct8(a, 2), dct8(b, 2), (0.461939766256real) * (a[0] - b[0]) + (0.191341716183real) * (a[1] - b[1]) + (-0.191341716183real) * (a[2] - b[2]) + (-0.461939766256real) * (a[3] - b[3]) + (-0.461939766256real) * (a[4] - b[4]) + (-0.191341716183real) * (a[5] - b[5]) + (0.191341716183real) * (a[6] - b[6]) + (0.461939766256real) * (a[7] - b[7]), 11.15real);
}
proof fn dct8_near_3(a: Seq<real>, b: Seq<real>) requires forall|j: int| 0 <= j < 8 ==> near(#[trigger] a[j], b[j], 3.94real) ensures near(dct8(a, 3), dct8(b, 3), 11.15real)
{
    dct8_lin(a); dct8_lin(b);
    assert(near(a[0] - b[0], 0real, 3.94real)) by { reveal(near); assert(near(a[0], b[0], 3.94real)); }
    assert(near(a[1] - b[1], 0real, 3.94real)) by { reveal(near); assert(near(a[1], b[1], 3.94real)); }
    assert(near(a[2] - b[2], 0real, 3.94real)) by { reveal(near); assert(near(a[2], b[2], 3.94real)); }
    assert(near(a[3] - b[3], 0real, 3.94real)) by { reveal(near); assert(near(a[3], b[3], 3.94real)); }
    assert(near(a[4] - b[4], 0real, 3.94real)) by { reveal(near); assert(near(a[4], b[4], 3.94real)); }
    assert(near(a[5] - b[5], 0real, 3.94real)) by { reveal(near); assert(near(a[5], b[5], 3.94real)); }
    assert(near(a[6] - b[6], 0real, 3.94real)) by { reveal(near); assert(near(a[6], b[6], 3.94real)); }
    assert(near(a[7] - b[7], 0real, 3.94real)) by { reveal(near); assert(near(a[7], b[7], 3.94real)); }
    near_lin_3(a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4], a[5] - b[5], a[6] - b[6], a[7] - b[7]);
    near_shift(dct8(a, 3), dct8(b, 3), (0.415734806151real) * (a[0] - b[0]) + (-0.097545161008real) * (a[1] - b[1]) + (-0.490392640202real) * (a[2] - b[2]) + (-0.27778511651real) * (a[3] - b[3]) + (0.27778511651real) * (a[4] - b[4]) + (0.490392640202real) * (a[5] - b[5]) + (0.097545161008real) * (a[6] - b[6]) + (-0.415734806151real) * (a[7] - b[7]), 11.15real);
}
proof fn dct8_near_4(a: Seq<real>, b: Seq<real>) requires forall|j: int| 0 <= j < 8 ==> near(#[trigger] a[j], b[j], 3.94real) ensures near(dct8(a, 4), dct8(b, 4), 11.15real)
{
    dct8_lin(a); dct8_lin(b);
    assert(near(a[0] - b[0], 0real, 3.94real)) by { reveal(near); assert(near(a[0], b[0], 3.94real)); }
    assert(near(a[1] - b[1], 0real, 3.94real)) by { reveal(near); assert(near(a[1], b[1], 3.94real)); }
    assert(near(a[2] - b[2], 0real, 3.94real)) by { reveal(near); assert(near(a[2], b[2], 3.94real)); }
    assert(near(a[3] - b[3], 0real, 3.94real)) by { reveal(near); assert(near(a[3], b[3], 3.94real)); }
    assert(near(a[4] - b[4], 0real, 3.94real)) by { reveal(near); assert(near(a[4], b[4], 3.94real)); }
    assert(near(a[5] - b[5], 0real, 3.94real)) by { reveal(near); assert(near(a[5], b[5], 3.94real)); }
    assert(near(a[6] - b[6], 0real, 3.94real)) by { reveal(near); assert(near(a[6], b[6], 3.94real)); }
    assert(near(a[7] - b[7], 0real, 3.94real)) by { reveal(near); assert(near(a[7], b[7], 3.94real)); }
    near_lin_4(a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4], a[5] - b[5], a[6] - b[6], a[7] - b[7]);
    near_shift(dct8(a, 4), dct8(b, 4), (0.353553390593real) * (a[0] - b[0]) + (-0.353553390593real) * (a[1] - b[1]) + (-0.353553390593real) * (a[2] - b[2]) + (0.353553390593real) * (a[3] - b[3]) + (0.353553390593real) * (a[4] - b[4]) + (-0.353553390593real) * (a[5] - b[5]) + (-0.353553390593real) * (a[6] - b[6]) + (0.353553390593real) * (a[7] - b[7]), 11.15real);
}
proof fn dct8_near_5(a: Seq<real>, b: Seq<real>) requires forall|j: int| 0 <= j < 8 ==> near(#[trigger] a[j], b[j], 3.94real) ensures near(dct8(a, 5), dct8(b, 5), 11.15real)
{
    dct8_lin(a); dct8_lin(b);
    assert(near(a[0] - b[0], 0real, 3.94real)) by { reveal(near); assert(near(a[0], b[0], 3.94real)); }
    assert(near(a[1] - b[1], 0real, 3.94real)) by { reveal(near); assert(near(a[1], b[1], 3.94real)); }
    assert(near(a[2] - b[2], 0real, 3.94real)) by { reveal(near); assert(near(a[2], b[2], 3.94real)); }
    assert(near(a[3] - b[3], 0real, 3.94real)) by { reveal(near); assert(near(a[3], b[3], 3.94real)); }
    assert(near(a[4] - b[4], 0real, 3.94real)) by { reveal(near); assert(near(a[4], b[4], 3.94real)); }
    assert(near(a[5] - b[5], 0real, 3.94real)) by { reveal(near); assert(near(a[5], b[5], 3.94real)); }
    assert(near(a[6] - b[6], 0real, 3.94real)) by { reveal(near); assert(near(a[6], b[6], 3.94real)); }
    assert(near(a[7] - b[7], 0real, 3.94real)) by { reveal(near); assert(near(a[7], b[7], 3.94real)); }
    near_lin_5(a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4], a[5] - b[5], a[6] - b[6], a[7] - b[7]);
    near_shift(dct8(a, 5), dct8(b, 5), (0.27778511651real) * (a[0] - b[0]) + (-0.490392640202real) * (a[1] - b[1]) + (0.097545161008real) * (a[2] - b[2]) + (0.415734806151real) * (a[3] - b[3]) + (-0.415734806151real) * (a[4] - b[4]) + (-0.097545161008real) * (a[5] - b[5]) + (0.490392640202real) * (a[6] - b[6]) + (-0.27778511651real) * (a[7] - b[7]), 11.15real);
}
proof fn dct8_near_6(a: Seq<real>, b: Seq<real>) requires forall|j: int| 0 <= j < 8 ==> near(#[trigger] a[j], b[j], 3.94real) ensures near(dct8(a, 6), dct8(b, 6), 11.15real)
{
    dct8_lin(a); dct8_lin(b);
    assert(near(a[0] - b[0], 0real, 3.94real)) by { reveal(near); assert(near(a[0], b[0], 3.94real)); }
    assert(near(a[1] - b[1], 0real, 3.94real)) by { reveal(near); assert(near(a[1], b[1], 3.94real)); }
    assert(near(a[2] - b[2], 0real, 3.94real)) by { reveal(near); assert(near(a[2], b[2], 3.94real)); }
    assert(near(a[3] - b[3], 0real, 3.94real)) by { reveal(near); assert(near(a[3], b[3], 3.94real)); }
    assert(near(a[4] - b[4], 0real, 3.94real)) by { reveal(near); assert(near(a[4], b[4], 3.94real)); }
    assert(near(a[5] - b[5], 0real, 3.94real)) by { reveal(near); assert(near(a[5], b[5], 3.94real)); }
    assert(near(a[6] - b[6], 0real, 3.94real)) by { reveal(near); assert(near(a[6], b[6], 3.94real)); }
    assert(near(a[7] - b[7], 0real, 3.94real)) by { reveal(near); assert(near(a[7], b[7], 3.94real)); }
    near_lin_6(a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4], a[5] - b[5], a[6] - b[6], a[7] - b[7]);
    near_shift(dct8(a, 6), dct8(b, 6), (0.191341716183real) * (a[0] - b[0]) + (-0.461939766256real) * (a[1] - b[1]) + (0.461939766256real) * (a[2] - b[2]) + (-0.191341716183real) * (a[3] - b[3]) + (-0.191341716183real) * (a[4] - b[4]) + (0.461939766256real) * (a[5] - b[5]) + (-0.461939766256real) * (a[6] - b[6]) + (0.191341716183real) * (a[7] - b[7]), 11.15real);
}
proof fn dct8_near_7(a: Seq<real>, b: Seq<real>) requires forall|j: int| 0 <= j < 8 ==> near(#[trigger] a[j], b[j], 3.94real) ensures near(dct8(a, 7), dct8(b, 7), 11.15real)
{
    dct8_lin(a); dct8_lin(b);
    assert(near(a[0] - b[0], 0real, 3.94real)) by { reveal(near); assert(near(a[0], b[0], 3.94real)); }
    assert(near(a[1] - b[1], 0real, 3.94real)) by { reveal(near); assert(near(a[1], b[1], 3.94real)); }
    assert(near(a[2] - b[2], 0real, 3.94real)) by { reveal(near); assert(near(a[2], b[2], 3.94real)); }
    assert(near(a[3] - b[3], 0real, 3.94real)) by { reveal(near); assert(near(a[3], b[3], 3.94real)); }
    assert(near(a[4] - b[4], 0real, 3.94real)) by { reveal(near); assert(near(a[4], b[4], 3.94real)); }
    assert(near(a[5] - b[5], 0real, 3.94real)) by { reveal(near); assert(near(a[5], b[5], 3.94real)); }
    assert(near(a[6] - b[6], 0real, 3.94real)) by { reveal(near); assert(near(a[6], b[6], 3.94real)); }
    assert(near(a[7] - b[7], 0real, 3.94real)) by { reveal(near); assert(near(a[7], b[7], 3.94real)); }
    near_lin_7(a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4], a[5] - b[5], a[6] - b[6], a[7] - b[7]);
    near_shift(dct8(a, 7), dct8(b, 7), (0.097545161008real) * (a[0] - b[0]) + (-0.27778511651real) * (a[1] - b[1]) + (0.415734806151real) * (a[2] - b[2]) + (-0.490392640202real) * (a[3] - b[3]) + (0.490392640202real) * (a[4] - b[4]) + (-0.415734806151real) * (a[5] - b[5]) + (0.27778511651real) * (a[6] - b[6]) + (-0.097545161008real) * (a[7] - b[7]), 11.15real);
}
proof fn near_shift(a: real, b: real, c: real, e: real) requires near(c, 0real, e), a - b == c ensures near(a, b, e) { reveal(near); }
proof fn dct8_near(a: Seq<real>, b: Seq<real>, k: int)
    requires 0 <= k < 8, forall|j: int| 0 <= j < 8 ==> near(#[trigger] a[j], b[j], 3.94real)
    ensures near(dct8(a, k), dct8(b, k), 11.15real)
{
    if k == 0 { dct8_near_0(a, b); } else if k == 1 { dct8_near_1(a, b); } else if k == 2 { dct8_near_2(a, b); } else if k == 3 { dct8_near_3(a, b); }
    else if k == 4 { dct8_near_4(a, b); } else if k == 5 { dct8_near_5(a, b); } else if k == 6 { dct8_near_6(a, b); } else { dct8_near_7(a, b); }
}
