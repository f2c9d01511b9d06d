// ------------------------------------------------------ PSNR-HVS of frames
/// planes with a side of 1 to 7 samples have no block
pub open spec fn hvs_size_ok<T: Pixel>(p: &Plane<T>) -> bool { !(1 <= p.w() < 8 || 1 <= p.h() < 8) }
pub open spec fn hvs_sizes_ok<T: Pixel>(f: &Frame<T>) -> bool { forall|c: int| 0 <= c < 3 ==> hvs_size_ok(&#[trigger] f.planes[c]) }
/// C03, C08: the result of a pair of frames
pub open spec fn hvs_scored<T: Pixel>(f: &Frame<T>, g: &Frame<T>, b: int, r: Result<PlanarMetrics, MetricsError>) -> bool {
    &&& !width_ok::<T>(b) || !f.fits(g) ==> is_mismatch(r)
    &&& width_ok::<T>(b) && f.fits(g) && !hvs_sizes_ok(f) ==> r is Err
    &&& width_ok::<T>(b) && f.fits(g) && hvs_sizes_ok(f) ==> r is Ok
            && forall|c: int| #![trigger plane_of(r->Ok_0, c)] 0 <= c < 3 ==> plane_of(r->Ok_0, c) == hvs_score(&f.planes[c], &g.planes[c], c, b)
}
/// the decibel value of a weighted mean error
pub open spec fn hdb(e: real) -> real { 10real * (-1real * (if e == 0real { minus_infinity() } else { r_log10(e) })) }
/// C07: what a frame metric returns.  The weight of the average multiplies where it should divide (known finding).
pub open spec fn hvs_db(r: PlanarMetrics, y: real, u: real, v: real, n: real, cw: real) -> bool {
    &&& r.y@ == hdb(y / n) && r.u@ == hdb(u / n) && r.v@ == hdb(v / n)
    &&& hvs_avg_right(r.avg@, y, u, v, n, cw) || hvs_avg_known(r.avg@, y, u, v, n, cw)
}
/// the weighted mean
pub open spec fn hvs_avg_right(avg: real, y: real, u: real, v: real, n: real, cw: real) -> bool { avg == hdb((y + cw * (u + v)) / (n * (1real + 2real * cw))) }
pub open spec fn hvs_avg_known(avg: real, y: real, u: real, v: real, n: real, cw: real) -> bool { avg == hdb((1real + 2real * cw) * (y + cw * (u + v)) / n) }
pub open spec fn frame_hvs_is<T: Pixel>(r: PlanarMetrics, f: &Frame<T>, g: &Frame<T>, b: int, c: ChromaSampling) -> bool {
    hvs_db(r, hvs_score(&f.planes[0], &g.planes[0], 0, b), hvs_score(&f.planes[1], &g.planes[1], 1, b), hvs_score(&f.planes[2], &g.planes[2], 2, b), 1real, weight_of(c))
}
pub open spec fn video_hvs_is(r: PlanarMetrics, ms: Seq<PlanarMetrics>, cw: real) -> bool {
    let n = ms.len() as int;
    hvs_db(r, sum_of(ms, 0, n), sum_of(ms, 1, n), sum_of(ms, 2, n), n as real, cw)
}
pub open spec fn no_negative(ms: Seq<PlanarMetrics>) -> bool { forall|i: int| #![trigger ms[i]] 0 <= i < ms.len() ==> ms[i].y@ >= 0real && ms[i].u@ >= 0real && ms[i].v@ >= 0real }
pub proof fn sum_pos(ms: Seq<PlanarMetrics>, c: int, k: int) requires no_negative(ms), k <= ms.len() ensures sum_of(ms, c, k) >= 0real decreases k
{ if k > 0 { sum_pos(ms, c, k - 1); assert(ms[k - 1].y@ >= 0real); } }
// the forms of a quotient
pub proof fn by_one(a: real) ensures a / 1real == a, 1real * a == a { assert(a / 1real == a) by(nonlinear_arith); }
pub proof fn mul_ge(a: real, b: real) requires a >= 0real, b >= 0real ensures a * b >= 0real { assert(a * b >= 0real) by(nonlinear_arith) requires a >= 0real, b >= 0real; }
pub proof fn recip(a: real, n: real) requires n > 0real ensures (1real / n) * a == a / n, 1real / n > 0real
{
    assert((1real / n) * a == a / n) by(nonlinear_arith) requires n > 0real;
    assert(1real / n > 0real) by(nonlinear_arith) requires n > 0real;
}
/// the forms of the weighted sum
pub proof fn weighted(y: real, u: real, v: real, n: real, cw: real)
    requires y >= 0real, u >= 0real, v >= 0real, n > 0real, cw >= 0real
    ensures
        y + cw * (u + v) >= 0real, ((1real + 2real * cw) * 1real) / n > 0real,
        (((1real + 2real * cw) * 1real) / n) * (y + cw * (u + v)) == (1real + 2real * cw) * (y + cw * (u + v)) / n,
{
    mul_ge(cw, u + v);
    let (k, s) = (1real + 2real * cw, y + cw * (u + v));
    assert(k * 1real == k) by(nonlinear_arith);
    assert(k / n > 0real) by(nonlinear_arith) requires k > 0real, n > 0real;
    assert((k / n) * s == k * s / n) by(nonlinear_arith) requires n > 0real;
}
// ------------------------------------------------- consequences (C18, C19, C05)
proof fn errsum_pos(da: Seq<int>, db: Seq<int>, thr: real, idx: int, n: int) ensures errsum(da, db, thr, idx, n) >= 0real decreases n
{
    if n > 0 {
        errsum_pos(da, db, thr, idx, n - 1);
        let x = seen(da, db, thr, idx, n - 1) * csf_at(idx, n - 1);
        powi2(x);
        assert(x * x >= 0real) by(nonlinear_arith);
    }
}
proof fn row_pos<T: Pixel>(p: &Plane<T>, q: &Plane<T>, idx: int, y: int, n: int) ensures row_err(p, q, idx, y, n) >= 0real decreases n
{
    if n > 0 {
        row_pos(p, q, idx, y, n - 1);
        let (a, b) = (blk(p, 7 * (n - 1), y), blk(q, 7 * (n - 1), y));
        errsum_pos(fd64(a), fd64(b), rmax(masking(a, idx), masking(b, idx)), idx, 64);
    }
}
proof fn rows_pos<T: Pixel>(p: &Plane<T>, q: &Plane<T>, idx: int, m: int) ensures rows_err(p, q, idx, m) >= 0real decreases m
{ if m > 0 { rows_pos(p, q, idx, m - 1); row_pos(p, q, idx, 7 * (m - 1), nblocks(p.w())); } }
/// an error is never negative
pub proof fn hvs_pos<T: Pixel>(p: &Plane<T>, q: &Plane<T>, idx: int, b: int)
    requires 1 <= b <= 12, small(p), hvs_size_ok(p), p.w() >= 0, p.h() >= 0
    ensures hvs_score(p, q, idx, b) >= 0real
{
    if p.w() > 0 && p.h() > 0 {
        rows_pos(p, q, idx, nblocks(p.h()));
        hvs_end(p.w(), p.h(), b as usize);
        quot_pos(rows_err(p, q, idx, nblocks(p.h())), 64 * (nblocks(p.w()) * nblocks(p.h())));
        quot_pos(rows_err(p, q, idx, nblocks(p.h())) / (64 * (nblocks(p.w()) * nblocks(p.h()))) as real, depth_max(b) * depth_max(b));
    }
}
proof fn quot_pos(a: real, n: int) requires a >= 0real, n > 0 ensures a / n as real >= 0real { let m = n as real; assert(m > 0real); assert(a / m >= 0real) by(nonlinear_arith) requires a >= 0real, m > 0real; }
/// C19: the order of the planes does not matter
proof fn errsum_swap(da: Seq<int>, db: Seq<int>, thr: real, idx: int, n: int) ensures errsum(da, db, thr, idx, n) == errsum(db, da, thr, idx, n) decreases n
{ if n > 0 { errsum_swap(da, db, thr, idx, n - 1); } }
proof fn row_swap<T: Pixel>(p: &Plane<T>, q: &Plane<T>, idx: int, y: int, n: int) ensures row_err(p, q, idx, y, n) == row_err(q, p, idx, y, n) decreases n
{
    if n > 0 {
        row_swap(p, q, idx, y, n - 1);
        let (a, b) = (blk(p, 7 * (n - 1), y), blk(q, 7 * (n - 1), y));
        errsum_swap(fd64(a), fd64(b), rmax(masking(a, idx), masking(b, idx)), idx, 64);
    }
}
proof fn rows_swap<T: Pixel>(p: &Plane<T>, q: &Plane<T>, idx: int, m: int) requires p.w() == q.w() ensures rows_err(p, q, idx, m) == rows_err(q, p, idx, m) decreases m
{ if m > 0 { rows_swap(p, q, idx, m - 1); row_swap(p, q, idx, 7 * (m - 1), nblocks(p.w())); } }
pub proof fn hvs_swap<T: Pixel>(p: &Plane<T>, q: &Plane<T>, idx: int, b: int)
    requires p.cfg == q.cfg
    ensures hvs_score(p, q, idx, b) == hvs_score(q, p, idx, b)
{ rows_swap(p, q, idx, nblocks(p.h())); }
/// C19: equal planes have no error
proof fn errsum_same(d: Seq<int>, thr: real, idx: int, n: int) requires thr >= 0real ensures errsum(d, d, thr, idx, n) == 0real decreases n
{
    if n > 0 {
        errsum_same(d, thr, idx, n - 1);
        mask_pos(idx, n - 1);
        let m = mask_at(idx, n - 1);
        assert(thr / m >= 0real) by(nonlinear_arith) requires thr >= 0real, m > 0real;
        let x = seen(d, d, thr, idx, n - 1) * csf_at(idx, n - 1);
        assert(seen(d, d, thr, idx, n - 1) == 0real);
        let c = csf_at(idx, n - 1);
        assert(0real * c == 0real) by(nonlinear_arith);
        powi2(x);
    }
}
proof fn blk_same<T: Pixel>(p: &Plane<T>, q: &Plane<T>, x: int, y: int)
    requires same_px(p, q), 0 <= x, x + 8 <= p.w(), 0 <= y, y + 8 <= p.h()
    ensures blk(p, x, y) == blk(q, x, y)
{
    assert forall|n: int| 0 <= n < 64 implies #[trigger] blk(p, x, y)[n] == blk(q, x, y)[n] by { assert(p.px(x + n % 8, y + n / 8) == q.px(x + n % 8, y + n / 8)); }
    assert(blk(p, x, y) =~= blk(q, x, y));
}
proof fn row_same<T: Pixel>(p: &Plane<T>, q: &Plane<T>, idx: int, y: int, n: int)
    requires same_px(p, q), 0 <= y, y + 8 <= p.h(), n <= nblocks(p.w())
    ensures row_err(p, q, idx, y, n) == 0real decreases n
{
    if n > 0 {
        row_same(p, q, idx, y, n - 1);
        let x = 7 * (n - 1);
        blk_same(p, q, x, y);
        let a = blk(p, x, y);
        masking_arg(a, idx);
        ax_sqrt(energy(fd64(a), idx, 64) * spread(a));
        errsum_same(fd64(a), masking(a, idx), idx, 64);
    }
}
proof fn rows_same<T: Pixel>(p: &Plane<T>, q: &Plane<T>, idx: int, m: int)
    requires same_px(p, q), m <= nblocks(p.h())
    ensures rows_err(p, q, idx, m) == 0real decreases m
{ if m > 0 { rows_same(p, q, idx, m - 1); row_same(p, q, idx, 7 * (m - 1), nblocks(p.w())); } }
pub proof fn hvs_same<T: Pixel>(p: &Plane<T>, q: &Plane<T>, idx: int, b: int)
    requires same_plane(p, q), 1 <= b <= 12, small(p), hvs_size_ok(p)
    ensures hvs_score(p, q, idx, b) == 0real
{
    samples_px(p, q);
    rows_same(p, q, idx, nblocks(p.h()));
    let (n, m) = ((64 * (nblocks(p.w()) * nblocks(p.h()))) as real, (depth_max(b) * depth_max(b)) as real);
    if p.w() > 0 && p.h() > 0 { hvs_end(p.w(), p.h(), b as usize); zero_over(n); zero_over(m); }
}
proof fn zero_over(n: real) ensures n != 0real ==> 0real / n == 0real { if n != 0real { assert(0real / n == 0real) by(nonlinear_arith) requires n != 0real; } }
/// C18: only the visible samples count
proof fn row_layout<T: Pixel>(p: &Plane<T>, q: &Plane<T>, p2: &Plane<T>, q2: &Plane<T>, idx: int, y: int, n: int)
    requires same_px(p, p2), same_px(q, q2), p.w() == q.w(), p.h() == q.h(), 0 <= y, y + 8 <= p.h(), n <= nblocks(p.w())
    ensures row_err(p, q, idx, y, n) == row_err(p2, q2, idx, y, n) decreases n
{
    if n > 0 { row_layout(p, q, p2, q2, idx, y, n - 1); blk_same(p, p2, 7 * (n - 1), y); blk_same(q, q2, 7 * (n - 1), y); }
}
proof fn rows_layout<T: Pixel>(p: &Plane<T>, q: &Plane<T>, p2: &Plane<T>, q2: &Plane<T>, idx: int, m: int)
    requires same_px(p, p2), same_px(q, q2), p.w() == q.w(), p.h() == q.h(), p.w() == p2.w(), m <= nblocks(p.h())
    ensures rows_err(p, q, idx, m) == rows_err(p2, q2, idx, m) decreases m
{ if m > 0 { rows_layout(p, q, p2, q2, idx, m - 1); row_layout(p, q, p2, q2, idx, 7 * (m - 1), nblocks(p.w())); } }
pub proof fn hvs_layout<T: Pixel>(p: &Plane<T>, q: &Plane<T>, p2: &Plane<T>, q2: &Plane<T>, idx: int, b: int)
    requires same_plane(p, p2), same_plane(q, q2), p.w() == q.w(), p.h() == q.h()
    ensures hvs_score(p, q, idx, b) == hvs_score(p2, q2, idx, b)
{ samples_px(p, p2); samples_px(q, q2); rows_layout(p, q, p2, q2, idx, nblocks(p.h())); }
/// C07: a video of one frame has the scores of that frame
pub proof fn hvs_one_frame(r: PlanarMetrics, ms: Seq<PlanarMetrics>, cw: real)
    requires ms.len() == 1, video_hvs_is(r, ms, cw)
    ensures hvs_db(r, ms[0].y@, ms[0].u@, ms[0].v@, 1real, cw)
{ reveal_with_fuel(sum_of, 3); assert(ms.len() as int as real == 1real); }
pub proof fn hvs_scored_pos<T: Pixel>(f: &Frame<T>, g: &Frame<T>, b: int, m: PlanarMetrics)
    requires hvs_scored(f, g, b, Ok(m)), 1 <= b <= 12, frame_small(f)
    ensures m.y@ >= 0real, m.u@ >= 0real, m.v@ >= 0real
{
    let r = Ok::<PlanarMetrics, MetricsError>(m);
    assert(!is_mismatch(r));
    assert(hvs_size_ok(&f.planes[0]) && hvs_size_ok(&f.planes[1]) && hvs_size_ok(&f.planes[2]));
    hvs_pos(&f.planes[0], &g.planes[0], 0, b); hvs_pos(&f.planes[1], &g.planes[1], 1, b); hvs_pos(&f.planes[2], &g.planes[2], 2, b);
    assert(plane_of(r->Ok_0, 0) == m.y@ && plane_of(r->Ok_0, 1) == m.u@ && plane_of(r->Ok_0, 2) == m.v@);
}
/// C18: only the visible samples of the frames count
pub proof fn hvs_frame_layout<T: Pixel>(f: &Frame<T>, g: &Frame<T>, f2: &Frame<T>, g2: &Frame<T>, b: int, c: ChromaSampling)
    requires f.fits(g), same_samples(f, f2), same_samples(g, g2)
    ensures
        forall|m: PlanarMetrics| frame_hvs_is(m, f, g, b, c) == #[trigger] frame_hvs_is(m, f2, g2, b, c),
        forall|r: Result<PlanarMetrics, MetricsError>| hvs_scored(f, g, b, r) && r is Ok && width_ok::<T>(b) && f2.fits(g2) ==> #[trigger] hvs_scored(f2, g2, b, r),
{
    assert forall|k: int| 0 <= k < 3 implies hvs_score(#[trigger] &f.planes[k], &g.planes[k], k, b) == hvs_score(&f2.planes[k], &g2.planes[k], k, b)
        && hvs_size_ok(&f.planes[k]) == hvs_size_ok(&f2.planes[k]) by {
        assert(same_plane(&f.planes[k], &f2.planes[k]) && same_plane(&g.planes[k], &g2.planes[k]));
        hvs_layout(&f.planes[k], &g.planes[k], &f2.planes[k], &g2.planes[k], k, b);
    }
    assert(hvs_score(&f.planes[0], &g.planes[0], 0, b) == hvs_score(&f2.planes[0], &g2.planes[0], 0, b));
    assert(hvs_score(&f.planes[1], &g.planes[1], 1, b) == hvs_score(&f2.planes[1], &g2.planes[1], 1, b));
    assert(hvs_score(&f.planes[2], &g.planes[2], 2, b) == hvs_score(&f2.planes[2], &g2.planes[2], 2, b));
    assert(hvs_sizes_ok(f) == hvs_sizes_ok(f2)) by {
        if hvs_sizes_ok(f) { assert forall|k: int| 0 <= k < 3 implies hvs_size_ok(&#[trigger] f2.planes[k]) by { assert(hvs_size_ok(&f.planes[k])); } }
        if hvs_sizes_ok(f2) { assert forall|k: int| 0 <= k < 3 implies hvs_size_ok(&#[trigger] f.planes[k]) by { assert(hvs_size_ok(&f2.planes[k])); } }
    }
}
/// C19: the order of the frames does not matter
pub proof fn hvs_frame_symmetric<T: Pixel>(f: &Frame<T>, g: &Frame<T>, b: int, c: ChromaSampling)
    requires f.fits(g)
    ensures forall|m: PlanarMetrics| frame_hvs_is(m, f, g, b, c) == #[trigger] frame_hvs_is(m, g, f, b, c)
{ hvs_swap(&f.planes[0], &g.planes[0], 0, b); hvs_swap(&f.planes[1], &g.planes[1], 1, b); hvs_swap(&f.planes[2], &g.planes[2], 2, b); }
/// C19: identical frames have no error
pub proof fn hvs_identical<T: Pixel>(m: PlanarMetrics, f: &Frame<T>, g: &Frame<T>, b: int, c: ChromaSampling)
    requires f.fits(g), same_samples(f, g), 1 <= b <= 12, frame_small(f), hvs_sizes_ok(f), frame_hvs_is(m, f, g, b, c)
    ensures m.y@ == -10real * minus_infinity(), m.u@ == -10real * minus_infinity(), m.v@ == -10real * minus_infinity(), m.avg@ == -10real * minus_infinity()
{
    assert(same_plane(&f.planes[0], &g.planes[0]) && same_plane(&f.planes[1], &g.planes[1]) && same_plane(&f.planes[2], &g.planes[2]));
    assert(hvs_size_ok(&f.planes[0]) && hvs_size_ok(&f.planes[1]) && hvs_size_ok(&f.planes[2]));
    hvs_same(&f.planes[0], &g.planes[0], 0, b); hvs_same(&f.planes[1], &g.planes[1], 1, b); hvs_same(&f.planes[2], &g.planes[2], 2, b);
    let w = weight_of(c);
    let k = 1real + 2real * w;
    assert(w * 0real == 0real && k * 0real == 0real) by(nonlinear_arith);
    zero_over(1real); zero_over(k); zero_over(1real * k);
    by_one(0real); by_one(k);
    assert(w * (0real + 0real) == 0real);
    assert(k * (0real + w * (0real + 0real)) == 0real) by(nonlinear_arith) requires w * (0real + 0real) == 0real;
}
