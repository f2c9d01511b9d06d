// ------------------------------------------------------------ five scales
/// sum of a block of 2x2 samples
pub open spec fn block4(s: Seq<u32>, w: int, x: int, y: int) -> int {
    s[2 * y * w + 2 * x] + s[2 * y * w + 2 * x + 1] + s[(2 * y + 1) * w + 2 * x] + s[(2 * y + 1) * w + 2 * x + 1]
}
/// the next coarser scale
pub open spec fn down(s: Seq<u32>, w: int, h: int) -> Seq<u32> {
    Seq::new(((w / 2) * (h / 2)) as nat, |i: int| block4(s, w, i % (w / 2), i / (w / 2)) as u32)
}
pub open spec fn half(x: int, k: int) -> int decreases k { if k <= 0 { x } else { half(x, k - 1) / 2 } }
pub open spec fn four(k: int) -> int decreases k { if k <= 0 { 1 } else { 4 * four(k - 1) } }
pub open spec fn scale(s: Seq<u32>, w: int, h: int, k: int) -> Seq<u32>
    decreases k
{ if k <= 0 { s } else { down(scale(s, w, h, k - 1), half(w, k - 1), half(h, k - 1)) } }
/// the two planes at scale k
pub open spec fn scale_pic(a: Seq<u32>, b: Seq<u32>, w: int, h: int, k: int) -> Pic {
    let g = gauss(1.5real, 5, 1024);
    Pic { a: scale(a, w, h, k), b: scale(b, w, h, k), w: half(w, k), h: half(h, k), vk: g, hk: g }
}
pub open spec fn ms_con(a: Seq<u32>, b: Seq<u32>, w: int, h: int, smax: int, k: int) -> real { mean_con(scale_pic(a, b, w, h, k), smax * four(k)) }
pub open spec fn ms_sim(a: Seq<u32>, b: Seq<u32>, w: int, h: int, smax: int, k: int) -> real { mean_ssim(scale_pic(a, b, w, h, k), smax * four(k)) }
/// C10: the product of the powers
pub open spec fn msssim_of(a: Seq<u32>, b: Seq<u32>, w: int, h: int, smax: int) -> real {
    ms_part(a, b, w, h, smax, 4) * r_pow(ms_sim(a, b, w, h, smax, 4), ms_weight(4))
}
pub open spec fn ms_score<T: Pixel>(p: &Plane<T>, q: &Plane<T>, smax: int) -> real {
    if p.w() == 0 || p.h() == 0 { 1real } else { msssim_of(vals(p), vals(q), p.w(), p.h(), smax) }
}
pub open spec fn below(s: Seq<u32>, m: int) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] <= m }
proof fn mul_le_i(a: int, b: int, c: int) requires 0 <= a, b <= c ensures a * b <= a * c { assert(a * b <= a * c) by(nonlinear_arith) requires 0 <= a, b <= c; }
/// positions of a block
pub proof fn block_at(s: Seq<u32>, w: int, h: int, m: int, x: int, y: int)
    requires 0 < w, 0 < h, s.len() == w * h, below(s, m), 0 <= x < w / 2, 0 <= y < h / 2
    ensures
        0 <= 2 * y * w, 0 <= 2 * y * w + 2 * x, 2 * y * w + 2 * x + 1 < s.len(), 0 <= (2 * y + 1) * w, (2 * y + 1) * w + 2 * x + 1 < s.len(),
        0 <= block4(s, w, x, y) <= 4 * m,
        s[2 * y * w + 2 * x] + s[2 * y * w + 2 * x + 1] <= 4 * m,
        s[2 * y * w + 2 * x] + s[2 * y * w + 2 * x + 1] + s[(2 * y + 1) * w + 2 * x] <= 4 * m,
{
    assert((2 * y + 1) * w == 2 * y * w + w) by(nonlinear_arith);
    assert(0 <= 2 * y * w) by(nonlinear_arith) requires y >= 0, w > 0;
    assert((2 * y + 2) * w <= h * w) by(nonlinear_arith) requires 2 * y + 2 <= h, w > 0;
    assert((2 * y + 2) * w == 2 * y * w + 2 * w) by(nonlinear_arith);
    assert(h * w == w * h) by(nonlinear_arith);
    assert(s[2 * y * w + 2 * x] <= m && s[2 * y * w + 2 * x + 1] <= m && s[(2 * y + 1) * w + 2 * x] <= m && s[(2 * y + 1) * w + 2 * x + 1] <= m);
}
pub proof fn down_at(s: Seq<u32>, w: int, h: int, x: int, y: int)
    requires 0 <= x < w / 2, 0 <= y < h / 2
    ensures
        0 <= y * (w / 2) + x < (w / 2) * (h / 2), down(s, w, h)[y * (w / 2) + x] == block4(s, w, x, y) as u32, 0 <= y * (w / 2),
{
    let ow = w / 2;
    assert(0 <= y * ow && y * ow + ow <= ow * (h / 2)) by(nonlinear_arith) requires 0 <= y, y + 1 <= h / 2, ow > 0;
    assert(y * ow == ow * y) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * ow + x, ow, y, x);
}
pub proof fn down_ok(s: Seq<u32>, w: int, h: int, m: int)
    requires 0 < w, 0 < h, s.len() == w * h, below(s, m), 0 <= m, 4 * m <= u32::MAX, w * h <= 4294967296
    ensures down(s, w, h).len() == (w / 2) * (h / 2), (w / 2) * (h / 2) <= w * h, below(down(s, w, h), 4 * m),
{
    let (ow, oh) = (w / 2, h / 2);
    assert(0 <= ow * oh <= w * h) by(nonlinear_arith) requires 0 <= ow <= w, 0 <= oh <= h;
    assert forall|i: int| 0 <= i < ow * oh implies 0 <= #[trigger] down(s, w, h)[i] <= 4 * m by {
        assert(ow > 0) by(nonlinear_arith) requires 0 <= i < ow * oh, ow >= 0;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, ow);
        let (q, r) = (i / ow, i % ow);
        assert(q < oh) by(nonlinear_arith) requires i < ow * oh, i == ow * q + r, r >= 0, ow > 0;
        assert(q >= 0) by(nonlinear_arith) requires i >= 0, i == ow * q + r, r < ow, ow > 0;
        block_at(s, w, h, m, r, q);
    }
}
pub open spec fn ms_window_ok(k: Seq<i64>) -> bool { k == gauss(1.5real, 5, 1024) && window_shape(k, 5, 1024) && ker_ok(k) }
pub proof fn ms_window(k: Seq<i64>)
    requires is_gauss(k, 1.5real, 5, 1024)
    ensures ms_window_ok(k)
{
    gauss_shape(k, 1.5real, 5, 1024);
    window_ker(k, 5, 1024);
    is_gauss_eq(k, 1.5real, 5, 1024);
}
/// what the scale loop maintains
#[verifier::opaque]
pub open spec fn scale_ok(s: Seq<u32>, w: int, h: int, m: int, s0: Seq<u32>, w0: int, h0: int, k: int) -> bool {
    s == scale(s0, w0, h0, k) && w == half(w0, k) && h == half(h0, k) && s.len() == w * h && w * h <= 4294967296 && below(s, m) && w <= 4294967296 && h <= 4294967296
}
pub proof fn scale_start(s: Seq<u32>, w: int, h: int, m: int)
    requires s.len() == w * h, w * h <= 4294967296, below(s, m), w <= 4294967296, h <= 4294967296
    ensures scale_ok(s, w, h, m, s, w, h, 0)
{ reveal(scale_ok); }
pub proof fn scale_step(s: Seq<u32>, w: int, h: int, m: int, s0: Seq<u32>, w0: int, h0: int, k: int)
    requires scale_ok(s, w, h, m, s0, w0, h0, k - 1), k >= 1, w > 0, h > 0, 0 <= m, 4 * m <= u32::MAX
    ensures scale_ok(down(s, w, h), w / 2, h / 2, 4 * m, s0, w0, h0, k)
{ reveal(scale_ok); down_ok(s, w, h, m); }
pub proof fn scale_pic_ok(a: Seq<u32>, b: Seq<u32>, w: int, h: int, m: int, a0: Seq<u32>, b0: Seq<u32>, w0: int, h0: int, k: int)
    requires scale_ok(a, w, h, m, a0, w0, h0, k), scale_ok(b, w, h, m, b0, w0, h0, k), w > 0, h > 0, smax_ok(m), ker_ok(gauss(1.5real, 5, 1024))
    ensures
        pic_ok(Pic { a, b, w, h, vk: gauss(1.5real, 5, 1024), hk: gauss(1.5real, 5, 1024) }, m),
        (Pic { a, b, w, h, vk: gauss(1.5real, 5, 1024), hk: gauss(1.5real, 5, 1024) }) == scale_pic(a0, b0, w0, h0, k),
{
    reveal(scale_ok); reveal(pic_ok);
    assert(w * h > 0) by(nonlinear_arith) requires w > 0, h > 0;
}
pub proof fn half_pos(x: int, k: int)
    requires x >= 16, 0 <= k <= 4
    ensures half(x, k) >= 1, k < 4 ==> half(x, k) >= 2
{ reveal_with_fuel(half, 6); }
/// no plane is too small for five scales
pub open spec fn size_ok<T: Pixel>(f: &Frame<T>) -> bool {
    forall|c: int| 0 <= c < 3 ==> plane_size_ok(&#[trigger] f.planes[c])
}
pub open spec fn plane_size_ok<T: Pixel>(p: &Plane<T>) -> bool { !(1 <= p.w() < 16) && !(1 <= p.h() < 16) }
pub open spec fn frame_msssim_is<T: Pixel>(r: PlanarMetrics, f: &Frame<T>, g: &Frame<T>, b: int, c: ChromaSampling) -> bool {
    frame_db(r, ms_score(&f.planes[0], &g.planes[0], depth_max(b)), ms_score(&f.planes[1], &g.planes[1], depth_max(b)), ms_score(&f.planes[2], &g.planes[2], depth_max(b)), weight_of(c))
}
pub open spec fn ms_weight(k: int) -> real { if k == 0 { 0.0448real } else if k == 1 { 0.2856real } else if k == 2 { 0.3001real } else if k == 3 { 0.2363real } else { 0.1333real } }
pub open spec fn ms_part(a: Seq<u32>, b: Seq<u32>, w: int, h: int, smax: int, k: int) -> real
    decreases k
{ if k <= 0 { 1real } else { ms_part(a, b, w, h, smax, k - 1) * r_pow(ms_con(a, b, w, h, smax, k - 1), ms_weight(k - 1)) } }
