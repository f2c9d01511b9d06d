// ------------------------------------------------------ planes and frames
/// the values of the visible samples
pub open spec fn vals<T: Pixel>(p: &Plane<T>) -> Seq<u32> { Seq::new((p.w() * p.h()) as nat, |i: int| p.samples()[i].val() as u32) }
/// the mean SSIM of two planes, with the given windows
pub open spec fn plane_ssim<T: Pixel>(p: &Plane<T>, q: &Plane<T>, smax: int, vk: Seq<i64>, hk: Seq<i64>) -> real {
    if p.w() == 0 || p.h() == 0 { 1real } else { mean_ssim(Pic { a: vals(p), b: vals(q), w: p.w(), h: p.h(), vk, hk }, smax) }
}
pub proof fn pic_of<T: Pixel>(p: &Plane<T>, q: &Plane<T>, smax: int, vk: Seq<i64>, hk: Seq<i64>)
    requires
        p.w() > 0, p.h() > 0, small(p), p.w() == q.w(), p.h() == q.h(), smax_ok(smax), fits_max(p, smax), fits_max(q, smax), ker_ok(vk), ker_ok(hk),
    ensures pic_ok(Pic { a: vals(p), b: vals(q), w: p.w(), h: p.h(), vk, hk }, smax)
{
    reveal(pic_ok);
    assert(p.w() * p.h() > 0) by(nonlinear_arith) requires p.w() > 0, p.h() > 0;
    assert forall|i: int| 0 <= i < p.w() * p.h() implies 0 <= #[trigger] vals(p)[i] <= smax by { p.samples()[i].val_range(); assert(p.samples()[i].val() <= smax); }
    assert forall|i: int| 0 <= i < p.w() * p.h() implies 0 <= #[trigger] vals(q)[i] <= smax by { q.samples()[i].val_range(); assert(q.samples()[i].val() <= smax); }
}
/// the window of the Gaussian
pub open spec fn gauss(sigma: real, max_len: int, kw: int) -> Seq<i64> {
    let n = g_len(sigma, max_len, kw);
    Seq::new((2 * n + 1) as nat, |i: int| g_at(sigma, kw, n, i) as i64)
}
pub proof fn is_gauss_eq(k: Seq<i64>, sigma: real, max_len: int, kw: int)
    requires is_gauss(k, sigma, max_len, kw)
    ensures k == gauss(sigma, max_len, kw)
{ reveal(is_gauss); assert(k =~= gauss(sigma, max_len, kw)); }
/// the window of SSIM for a plane of w columns and h rows (C11)
pub open spec fn ssim_window(w: int, h: int) -> Seq<i64> { gauss(gauss_sigma(h), imin(w, h), 256) }
/// C09: the linear score of a plane
pub open spec fn ssim_score<T: Pixel>(p: &Plane<T>, q: &Plane<T>, smax: int) -> real {
    plane_ssim(p, q, smax, ssim_window(p.w(), p.h()), ssim_window(p.w(), p.h()))
}
pub proof fn window_ker(k: Seq<i64>, max_len: int, kw: int)
    requires window_shape(k, max_len, kw), kw <= 1024, max_len <= 0x1000_0000
    ensures ker_ok(k)
{ reveal(ker_ok); }
/// the window of a plane can be used
pub proof fn ssim_window_ok<T: Pixel>(k: Seq<i64>, p: &Plane<T>)
    requires small(p), p.w() > 0, p.h() > 0, is_gauss(k, gauss_sigma(p.h()), imin(p.w(), p.h()), 256)
    ensures k == ssim_window(p.w(), p.h()), window_shape(k, imin(p.w(), p.h()), 256), ker_ok(k)
{
    let h = p.h();
    gauss_sigma_ok(h);
    assert(gauss_used(gauss_sigma(h), 256));
    gauss_shape(k, gauss_sigma(h), imin(p.w(), p.h()), 256);
    let m = imin(p.w(), p.h());
    assert(m <= 65536) by(nonlinear_arith) requires p.w() * p.h() <= 4294967296, m <= p.w(), m <= p.h(), m >= 0;
    window_ker(k, m, 256);
    is_gauss_eq(k, gauss_sigma(h), m, 256);
}
pub proof fn gauss_sigma_ok(h: int)
    ensures h >= 1 ==> sigma_ok(gauss_sigma(h)), gauss_sigma(h) == h as real * 1.5real / 256real
{}
/// the decibel value of a score with its best value
pub open spec fn db(score: real, best: real) -> real {
    let loss = rmax(best - score, 0real);
    10real * (r_log10(best) - (if loss == 0real { minus_infinity() } else { r_log10(loss) }))
}
/// C07: the decibel value of a sum over n is the one of the mean
pub proof fn db_mean(s: real, n: real)
    requires n > 0real, s < n
    ensures db(s, n) == db(s / n, 1real)
{
    assert(s / n < 1real) by(nonlinear_arith) requires s < n, n > 0real;
    assert(1real - s / n == (n - s) / n) by(nonlinear_arith) requires n > 0real;
    ax_log_div(n - s, n);
    ax_log_mul(1real, 1real);
}
/// what a frame metric returns
pub open spec fn frame_db(r: PlanarMetrics, y: real, u: real, v: real, cw: real) -> bool {
    &&& r.y@ == db(y, 1real) && r.u@ == db(u, 1real) && r.v@ == db(v, 1real)
    &&& r.avg@ == db(y + cw * (u + v), 1real + 2real * cw)
}
/// what a video metric returns (C07)
pub open spec fn video_db(r: PlanarMetrics, ms: Seq<PlanarMetrics>, cw: real) -> bool {
    let n = ms.len() as int;
    let (y, u, v) = (sum_of(ms, 0, n), sum_of(ms, 1, n), sum_of(ms, 2, n));
    &&& r.y@ == db(y, n as real) && r.u@ == db(u, n as real) && r.v@ == db(v, n as real)
    &&& r.avg@ == db(y + cw * (u + v), (1real + 2real * cw) * n as real)
}
/// C07: a video of one frame has the scores of that frame
pub proof fn one_frame(r: PlanarMetrics, f: PlanarMetrics, ms: Seq<PlanarMetrics>, cw: real)
    requires ms.len() == 1, video_db(r, ms, cw), frame_db(f, ms[0].y@, ms[0].u@, ms[0].v@, cw)
    ensures r.y@ == f.y@, r.u@ == f.u@, r.v@ == f.v@, r.avg@ == f.avg@
{
    reveal_with_fuel(sum_of, 3);
    assert(ms.len() as int as real == 1real);
    assert((1real + 2real * cw) * 1real == 1real + 2real * cw);
}
pub open spec fn frame_ssim_is<T: Pixel>(r: PlanarMetrics, f: &Frame<T>, g: &Frame<T>, b: int, c: ChromaSampling) -> bool {
    frame_db(r, ssim_score(&f.planes[0], &g.planes[0], depth_max(b)), ssim_score(&f.planes[1], &g.planes[1], depth_max(b)), ssim_score(&f.planes[2], &g.planes[2], depth_max(b)), weight_of(c))
}
pub proof fn depth_ok(b: int) requires 1 <= b <= 16 ensures smax_ok(depth_max(b)), depth_max(b) <= 65535, b <= 12 ==> depth_max(b) <= 4095
{
    vstd::arithmetic::power2::lemma2_to64();
    if b < 16 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(b as nat, 16); }
    if b < 12 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(b as nat, 12); }
    if b > 1 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(1, b as nat); }
}
