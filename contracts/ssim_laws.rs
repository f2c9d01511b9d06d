// ------------------------------------------------ consequences (C18, C19)
pub open spec fn m_swap(m: Mo) -> Mo { Mo { mux: m.muy, muy: m.mux, x2: m.y2, xy: m.xy, y2: m.x2, w: m.w } }
pub open spec fn p_swap(p: Pic) -> Pic { Pic { a: p.b, b: p.a, w: p.w, h: p.h, vk: p.vk, hk: p.hk } }
proof fn hsum_swap(p: Pic, x: int, y: int, k: int)
    ensures hsum(p_swap(p), x, y, k) == m_swap(hsum(p, x, y, k))
    decreases k
{
    if k > 0 {
        hsum_swap(p, x, y, k - 1);
        let c = x + (k - 1) - p.hk.len() as int / 2;
        let (a, b) = (p.a[y * p.w + c] as int, p.b[y * p.w + c] as int);
        assert(a * b == b * a) by(nonlinear_arith);
        assert(hterm(p_swap(p), x, y, k - 1) == m_swap(hterm(p, x, y, k - 1)));
    }
}
proof fn vsum_swap(p: Pic, x: int, y: int, k: int)
    ensures vsum(p_swap(p), x, y, k) == m_swap(vsum(p, x, y, k))
    decreases k
{
    if k > 0 {
        vsum_swap(p, x, y, k - 1);
        hsum_swap(p, x, y + (k - 1) - p.vk.len() as int / 2, p.hk.len() as int);
        assert(vterm(p_swap(p), x, y, k - 1) == m_swap(vterm(p, x, y, k - 1)));
    }
}
proof fn con_swap(m: Mo, s: int)
    ensures con_of(m_swap(m), s) == con_of(m, s), sim_of(m_swap(m), s) == sim_of(m, s)
{
    let (a, b) = (m.mux as real, m.muy as real);
    assert(a * b == b * a) by(nonlinear_arith);
    let w = m.w as real;
    let c2 = (s * s) as real * 0.0009real * (w * w);
    assert(m.x2 as real * w - a * a + m.y2 as real * w - b * b + c2 == m.y2 as real * w - b * b + m.x2 as real * w - a * a + c2);
    let c1 = (s * s) as real * 0.0001real * (w * w);
    assert(a * a + b * b + c1 == b * b + a * a + c1);
}
proof fn tot_swap(p: Pic, s: int, q: int, x: int, y: int)
    ensures tot(p_swap(p), s, q, x, y) == tot(p, s, q, x, y)
    decreases y, x
{
    if y < 0 {} else if x > 0 {
        tot_swap(p, s, q, x - 1, y);
        vsum_swap(p, x - 1, y, p.vk.len() as int);
        con_swap(window(p, x - 1, y), s);
    } else if y > 0 && p.w > 0 { tot_swap(p, s, q, p.w, y - 1); }
}
pub proof fn mean_swap(p: Pic, s: int)
    ensures mean_ssim(p_swap(p), s) == mean_ssim(p, s), mean_con(p_swap(p), s) == mean_con(p, s)
{ tot_swap(p, s, 0, 0, p.h); tot_swap(p, s, 1, 0, p.h); tot_swap(p, s, 2, 0, p.h); }
/// C19: the order of the planes does not matter
pub proof fn ssim_score_swap<T: Pixel>(p: &Plane<T>, q: &Plane<T>, s: int)
    requires p.cfg == q.cfg
    ensures ssim_score(p, q, s) == ssim_score(q, p, s)
{
    let k = ssim_window(p.w(), p.h());
    mean_swap(Pic { a: vals(p), b: vals(q), w: p.w(), h: p.h(), vk: k, hk: k }, s);
}
pub proof fn ms_score_swap<T: Pixel>(p: &Plane<T>, q: &Plane<T>, s: int)
    requires p.cfg == q.cfg
    ensures ms_score(p, q, s) == ms_score(q, p, s)
{ ms_part_swap(vals(p), vals(q), p.w(), p.h(), s, 4); mean_swap(scale_pic(vals(p), vals(q), p.w(), p.h(), 4), s * four(4)); }
proof fn ms_part_swap(a: Seq<u32>, b: Seq<u32>, w: int, h: int, s: int, k: int)
    ensures ms_part(a, b, w, h, s, k) == ms_part(b, a, w, h, s, k)
    decreases k
{ if k > 0 { ms_part_swap(a, b, w, h, s, k - 1); mean_swap(scale_pic(a, b, w, h, k - 1), s * four(k - 1)); } }
// equal planes
pub open spec fn m_same(m: Mo) -> bool { m.mux == m.muy && m.x2 == m.xy && m.y2 == m.xy }
proof fn hsum_same(p: Pic, x: int, y: int, k: int)
    requires p.a == p.b
    ensures m_same(hsum(p, x, y, k))
    decreases k
{ if k > 0 { hsum_same(p, x, y, k - 1); } }
proof fn vsum_same(p: Pic, x: int, y: int, k: int)
    requires p.a == p.b
    ensures m_same(vsum(p, x, y, k))
    decreases k
{ if k > 0 { vsum_same(p, x, y, k - 1); hsum_same(p, x, y + (k - 1) - p.vk.len() as int / 2, p.hk.len() as int); } }
proof fn frac(w: real, d: real) requires d > 0real ensures w * d / d == w { assert(w * d / d == w) by(nonlinear_arith) requires d > 0real; }
proof fn con_same(m: Mo, s: int, smax: int)
    requires m_same(m), mok(m, s), m.w >= 1, smax >= 1
    ensures con_of(m, smax) == m.w as real, sim_of(m, smax) == m.w as real
{
    denominators(m, s, smax);
    let (w, a) = (m.w as real, m.mux as real);
    let c2 = (smax * smax) as real * 0.0009real * (w * w);
    let c1 = (smax * smax) as real * 0.0001real * (w * w);
    let d = m.x2 as real * w - a * a + m.y2 as real * w - a * a + c2;
    frac(w, d);
    assert(c2 + 2real * (m.xy as real * w - a * a) == d);
    assert(con_of(m, smax) == w * d / d);
    let e = a * a + a * a + c1;
    frac(w, e);
    assert(2real * (a * a) + c1 == e);
    assert(sim_of(m, smax) == w * e / e);
}
proof fn tot_same(p: Pic, s: int, q: int, x: int, y: int)
    requires p.a == p.b, pic_ok(p, s), 0 <= x <= p.w, 0 <= y <= p.h, y == p.h ==> x == 0
    ensures tot(p, s, q, x, y) == tot(p, s, 2, x, y)
    decreases y, x
{
    reveal(pic_ok);
    if x > 0 {
        tot_same(p, s, q, x - 1, y);
        vsum_same(p, x - 1, y, p.vk.len() as int);
        window_ok(p, s, x - 1, y);
        con_same(window(p, x - 1, y), s, s);
    } else if y > 0 { tot_same(p, s, q, p.w, y - 1); }
}
pub proof fn mean_same(p: Pic, s: int)
    requires p.a == p.b, pic_ok(p, s)
    ensures mean_ssim(p, s) == 1real, mean_con(p, s) == 1real
{
    assert(p.h > 0 && p.w > 0) by { reveal(pic_ok); }
    tot_same(p, s, 0, 0, p.h); tot_same(p, s, 1, 0, p.h);
    tot_weight(p, s, 0, p.h);
    let t = tot(p, s, 2, 0, p.h);
    assert(t / t == 1real) by(nonlinear_arith) requires t > 0real;
}
/// a window for the size exists
proof fn window_exists(sigma: real, max_len: int, kw: int)
    requires sigma_ok(sigma), 1 <= kw <= 1024, gauss_used(sigma, kw), 0 <= max_len <= 4294967296
    ensures is_gauss(gauss(sigma, max_len, kw), sigma, max_len, kw)
{
    reveal(is_gauss);
    let n = g_len(sigma, max_len, kw);
    gauss_reach(sigma, kw);
    g_sum_ok(sigma, kw, n);
    assert forall|i: int| 0 <= i < 2 * n + 1 implies #[trigger] gauss(sigma, max_len, kw)[i] == g_at(sigma, kw, n, i) by { g_coef_ok(sigma, kw, iabs(i - n)); }
}
/// C19: equal planes have the best score
pub proof fn ssim_score_same<T: Pixel>(p: &Plane<T>, q: &Plane<T>, s: int)
    requires p.cfg == q.cfg, p.samples() == q.samples(), small(p), smax_ok(s), fits_max(p, s), fits_max(q, s)
    ensures ssim_score(p, q, s) == 1real
{
    if p.w() > 0 && p.h() > 0 {
        let k = ssim_window(p.w(), p.h());
        gauss_sigma_ok(p.h());
        assert(gauss_used(gauss_sigma(p.h()), 256));
        window_exists(gauss_sigma(p.h()), imin(p.w(), p.h()), 256);
        ssim_window_ok(k, p);
        pic_of(p, q, s, k, k);
        assert(vals(p) =~= vals(q));
        mean_same(Pic { a: vals(p), b: vals(q), w: p.w(), h: p.h(), vk: k, hk: k }, s);
    }
}
pub axiom fn ax_pow_one(y: real) ensures r_pow(1real, y) == 1real;
pub proof fn ms_score_same<T: Pixel>(p: &Plane<T>, q: &Plane<T>, s: int)
    requires p.cfg == q.cfg, p.samples() == q.samples(), small(p), 1 <= s <= 4095, fits_max(p, s), fits_max(q, s), plane_size_ok(p)
    ensures ms_score(p, q, s) == 1real
{
    if p.w() > 0 && p.h() > 0 {
        let (a, w, h) = (vals(p), p.w(), p.h());
        assert(vals(p) =~= vals(q));
        assert(sigma_ok(1.5real) && gauss_used(1.5real, 1024));
        window_exists(1.5real, 5, 1024);
        ms_window(gauss(1.5real, 5, 1024));
        assert(0 <= w * h) by(nonlinear_arith) requires w > 0, h > 0;
        assert(below(a, s)) by { assert forall|i: int| 0 <= i < w * h implies 0 <= #[trigger] a[i] <= s by { p.samples()[i].val_range(); assert(p.samples()[i].val() <= s); } }
        ms_scales_same(a, w, h, s, 4);
        assert(ms_part(a, a, w, h, s, 4) == 1real && ms_sim(a, a, w, h, s, 4) == 1real);
        ax_pow_one(0.1333real);
    }
}
proof fn ms_scales_same(a: Seq<u32>, w: int, h: int, s: int, k: int)
    requires w >= 16, h >= 16, a.len() == w * h, w * h <= 4294967296, w <= 4294967296, h <= 4294967296, below(a, s), 1 <= s <= 4095, ker_ok(gauss(1.5real, 5, 1024)), 0 <= k <= 4
    ensures
        scale_ok(scale(a, w, h, k), half(w, k), half(h, k), s * four(k), a, w, h, k),
        ms_con(a, a, w, h, s, k) == 1real, ms_sim(a, a, w, h, s, k) == 1real, ms_part(a, a, w, h, s, k) == 1real,
    decreases k
{
    reveal_with_fuel(four, 6);
    assert(1 <= four(k) <= 256);
    assert(1 <= s * four(k) <= 1048320) by(nonlinear_arith) requires 1 <= s <= 4095, 1 <= four(k) <= 256;
    half_pos(w, k); half_pos(h, k);
    if k == 0 {
        scale_start(a, w, h, s);
    } else {
        ms_scales_same(a, w, h, s, k - 1);
        half_pos(w, k - 1); half_pos(h, k - 1);
        assert(4 * (s * four(k - 1)) == s * (4 * four(k - 1))) by(nonlinear_arith);
        assert(s * four(k - 1) >= 0) by(nonlinear_arith) requires s >= 0, four(k - 1) >= 0;
        scale_step(scale(a, w, h, k - 1), half(w, k - 1), half(h, k - 1), s * four(k - 1), a, w, h, k);
        ax_pow_one(ms_weight(k - 1));
    }
    scale_pic_ok(scale(a, w, h, k), scale(a, w, h, k), half(w, k), half(h, k), s * four(k), a, a, w, h, k);
    mean_same(scale_pic(a, a, w, h, k), s * four(k));
}
/// C18: the layout of the planes does not matter
pub proof fn ssim_layout<T: Pixel>(m: PlanarMetrics, n: PlanarMetrics, f: &Frame<T>, g: &Frame<T>, f2: &Frame<T>, g2: &Frame<T>, b: int, c: ChromaSampling)
    requires same_samples(f, f2), same_samples(g, g2),
    ensures
        frame_ssim_is(m, f, g, b, c) && frame_ssim_is(n, f2, g2, b, c) || frame_msssim_is(m, f, g, b, c) && frame_msssim_is(n, f2, g2, b, c)
            ==> m.y@ == n.y@ && m.u@ == n.u@ && m.v@ == n.v@ && m.avg@ == n.avg@
{
    assert(same_plane(&f.planes[0], &f2.planes[0]) && same_plane(&f.planes[1], &f2.planes[1]) && same_plane(&f.planes[2], &f2.planes[2]));
    assert(same_plane(&g.planes[0], &g2.planes[0]) && same_plane(&g.planes[1], &g2.planes[1]) && same_plane(&g.planes[2], &g2.planes[2]));
    assert forall|i: int| 0 <= i < 3 implies vals(#[trigger] &f.planes[i]) == vals(&f2.planes[i]) && vals(&g.planes[i]) == vals(&g2.planes[i]) by {
        assert(same_plane(&f.planes[i], &f2.planes[i]));
        assert(same_plane(&g.planes[i], &g2.planes[i]));
        assert(vals(&f.planes[i]) =~= vals(&f2.planes[i]));
        assert(vals(&g.planes[i]) =~= vals(&g2.planes[i]));
    }
}
/// C19: the order of the frames does not matter
pub proof fn ssim_symmetric<T: Pixel>(m: PlanarMetrics, n: PlanarMetrics, f: &Frame<T>, g: &Frame<T>, b: int, c: ChromaSampling)
    requires f.fits(g),
    ensures
        frame_ssim_is(m, f, g, b, c) && frame_ssim_is(n, g, f, b, c) || frame_msssim_is(m, f, g, b, c) && frame_msssim_is(n, g, f, b, c)
            ==> m.y@ == n.y@ && m.u@ == n.u@ && m.v@ == n.v@ && m.avg@ == n.avg@
{
    let s = depth_max(b);
    ssim_score_swap(&f.planes[0], &g.planes[0], s); ssim_score_swap(&f.planes[1], &g.planes[1], s); ssim_score_swap(&f.planes[2], &g.planes[2], s);
    ms_score_swap(&f.planes[0], &g.planes[0], s); ms_score_swap(&f.planes[1], &g.planes[1], s); ms_score_swap(&f.planes[2], &g.planes[2], s);
}
/// the score of identical content: no loss at all
pub open spec fn best_db(best: real) -> real { 10real * (r_log10(best) - minus_infinity()) }
/// C19: identical frames
pub proof fn ssim_identical<T: Pixel>(m: PlanarMetrics, f: &Frame<T>, g: &Frame<T>, b: int, c: ChromaSampling)
    requires f.fits(g), same_samples(f, g), frame_small(f), 1 <= b <= 16, frame_fits(f, depth_max(b)), frame_fits(g, depth_max(b)),
    ensures
        frame_ssim_is(m, f, g, b, c) || (b <= 12 && size_ok(f) && frame_msssim_is(m, f, g, b, c))
            ==> m.y@ == best_db(1real) && m.u@ == best_db(1real) && m.v@ == best_db(1real) && m.avg@ == best_db(1real + 2real * weight_of(c))
{
    let s = depth_max(b);
    depth_ok(b);
    assert(same_plane(&f.planes[0], &g.planes[0]) && same_plane(&f.planes[1], &g.planes[1]) && same_plane(&f.planes[2], &g.planes[2]));
    ssim_score_same(&f.planes[0], &g.planes[0], s); ssim_score_same(&f.planes[1], &g.planes[1], s); ssim_score_same(&f.planes[2], &g.planes[2], s);
    if b <= 12 && size_ok(f) {
        assert(plane_size_ok(&f.planes[0]) && plane_size_ok(&f.planes[1]) && plane_size_ok(&f.planes[2]));
        ms_score_same(&f.planes[0], &g.planes[0], s); ms_score_same(&f.planes[1], &g.planes[1], s); ms_score_same(&f.planes[2], &g.planes[2], s);
    }
    let w = weight_of(c);
    assert(w * (1real + 1real) == 2real * w) by(nonlinear_arith);
}
/// C03: the result of a pair of frames
pub open spec fn ssim_scored<T: Pixel>(f: &Frame<T>, g: &Frame<T>, b: int, r: Result<PlanarMetrics, MetricsError>) -> bool {
    &&& !width_ok::<T>(b) || !f.fits(g) ==> is_mismatch(r)
    &&& width_ok::<T>(b) && f.fits(g) ==> r is Ok
            && forall|c: int| #![trigger plane_of(r->Ok_0, c)] 0 <= c < 3 ==> plane_of(r->Ok_0, c) == ssim_score(&f.planes[c], &g.planes[c], depth_max(b))
}
/// C03: the result of a pair of frames
pub open spec fn ms_scored<T: Pixel>(f: &Frame<T>, g: &Frame<T>, b: int, r: Result<PlanarMetrics, MetricsError>) -> bool {
    &&& !width_ok::<T>(b) || !f.fits(g) ==> is_mismatch(r)
    &&& width_ok::<T>(b) && f.fits(g) && !size_ok(f) ==> r is Err
    &&& width_ok::<T>(b) && f.fits(g) && size_ok(f) ==> r is Ok
            && forall|c: int| #![trigger plane_of(r->Ok_0, c)] 0 <= c < 3 ==> plane_of(r->Ok_0, c) == ms_score(&f.planes[c], &g.planes[c], depth_max(b))
}
