// ------------------------------------------- CIEDE2000 of pixels, rows, frames
pub open spec fn scale_of(depth: int) -> real { if depth == 8 { 1real } else if depth == 10 { 4real } else { 16real } }
pub open spec fn known_depth(depth: int) -> bool { depth == 8 || depth == 10 || depth == 12 }
/// limited range samples as numbers
pub open spec fn luma_r(y: real, s: real) -> real { (y - 16real * s) / (219real * s) }
pub open spec fn chroma_r(c: real, s: real) -> real { (c - 128real * s) / (224real * s) }
pub open spec fn luma_of(y: int, s: real) -> real { luma_r(y as real, s) }
pub open spec fn chroma_of(c: int, s: real) -> real { chroma_r(c as real, s) }
/// R, G and B of BT.709
pub open spec fn red(y: real, u: real, v: real) -> real { y + 1.28033real * v }
pub open spec fn green(y: real, u: real, v: real) -> real { y - 0.21482real * u - 0.38059real * v }
pub open spec fn blue(y: real, u: real, v: real) -> real { y + 2.12798real * u }
pub open spec fn lab_of_yuv(y: real, u: real, v: real) -> LabS { lab_of(red(y, u, v), green(y, u, v), blue(y, u, v)) }
pub open spec fn lab_of_px(y: int, u: int, v: int, depth: int) -> LabS {
    let s = scale_of(depth);
    lab_of_yuv(luma_of(y, s), chroma_of(u, s), chroma_of(v, s))
}
/// the difference of two pixels
pub open spec fn px_de(y1: int, u1: int, v1: int, y2: int, u2: int, v2: int, depth: int) -> real {
    de00(lab_of_px(y1, u1, v1, depth), lab_of_px(y2, u2, v2, depth), 0.65real, 1real, 4real)
}
pub open spec fn in_depth(x: int, depth: int) -> bool { 0 <= x && (x as real) < 256real * scale_of(depth) }
pub open spec fn in_depth_r(x: real, depth: int) -> bool { 0real <= x < 256real * scale_of(depth) }
pub proof fn rgb_in_range_r(y: real, u: real, v: real, depth: int)
    requires known_depth(depth), in_depth_r(y, depth), in_depth_r(u, depth), in_depth_r(v, depth)
    ensures ({
        let s = scale_of(depth);
        let (a, b, c) = (luma_r(y, s), chroma_r(u, s), chroma_r(v, s));
        rgb_ok(red(a, b, c)) && rgb_ok(green(a, b, c)) && rgb_ok(blue(a, b, c))
    })
{
    let s = scale_of(depth);
    let (a, b, c) = (luma_r(y, s), chroma_r(u, s), chroma_r(v, s));
    ratio(y - 16real * s, 219real * s, -0.08real, 1.1real); ratio(u - 128real * s, 224real * s, -0.58real, 0.58real); ratio(v - 128real * s, 224real * s, -0.58real, 0.58real);
    assert(-0.08real <= a <= 1.1real && -0.58real <= b <= 0.58real && -0.58real <= c <= 0.58real);
}
pub proof fn rgb_in_range(y: int, u: int, v: int, depth: int)
    requires known_depth(depth), in_depth(y, depth), in_depth(u, depth), in_depth(v, depth)
    ensures ({
        let s = scale_of(depth);
        let (a, b, c) = (luma_of(y, s), chroma_of(u, s), chroma_of(v, s));
        rgb_ok(red(a, b, c)) && rgb_ok(green(a, b, c)) && rgb_ok(blue(a, b, c))
    })
{ rgb_in_range_r(y as real, u as real, v as real, depth); }
pub proof fn ratio(n: real, d: real, lo: real, hi: real) requires d > 0real, lo * d <= n <= hi * d ensures lo <= n / d <= hi
{ let q = n / d; assert(q * d == n) by(nonlinear_arith) requires q == n / d, d > 0real; assert(lo <= q <= hi) by(nonlinear_arith) requires lo * d <= q * d <= hi * d, d > 0real; }
/// as the code scales the samples
pub proof fn scaled(x: real, s: real)
    requires s == 1real || s == 4real || s == 16real
    ensures
        (x - 16real * s) * (1real / (219real * s)) == (x - 16real * s) / (219real * s),
        (x - 128real * s) * (1real / (224real * s)) == (x - 128real * s) / (224real * s),
{
    let (p, q) = (x - 16real * s, x - 128real * s);
    let (c, d) = (219real * s, 224real * s);
    assert(p * (1real / c) == p / c) by(nonlinear_arith) requires c > 0real;
    assert(q * (1real / d) == q / d) by(nonlinear_arith) requires d > 0real;
}
pub proof fn shl_depth(depth: u32) requires known_depth(depth as int)
    ensures (1i32 << ((depth - 8) as u32)) as real == scale_of(depth as int), (1u32 << ((depth - 8) as u32)) as real == scale_of(depth as int)
{
    assert(1i32 << 0u32 == 1 && 1i32 << 2u32 == 4 && 1i32 << 4u32 == 16) by(bit_vector);
    assert(1u32 << 0u32 == 1 && 1u32 << 2u32 == 4 && 1u32 << 4u32 == 16) by(bit_vector);
}
/// the samples of a row of two frames
pub open spec fn row_fits<T: Pixel>(s: Seq<T>, n: int, depth: int) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> in_depth((#[trigger] s[i]).val(), depth) }
pub open spec fn rows_ok<T: Pixel>(r: FrameRow<T>, n: int, xdec: int, depth: int) -> bool {
    let m = if xdec == 1 { (n + 1) / 2 } else { n };
    row_fits(r.y@, n, depth) && row_fits(r.u@, m, depth) && row_fits(r.v@, m, depth)
}
/// the difference of the pixels in column i
pub open spec fn row_de<T: Pixel>(p: FrameRow<T>, q: FrameRow<T>, i: int, xdec: int, depth: int) -> real {
    let j = if xdec == 1 { i / 2 } else { i };
    px_de(p.y@[i].val(), p.u@[j].val(), p.v@[j].val(), q.y@[i].val(), q.u@[j].val(), q.v@[j].val(), depth)
}
