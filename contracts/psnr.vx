%include num.rs
%include fl.rs
%include plane.vx
%include compare.vx
%include decoder.rs
%include pipeline.rs
%include process.rs
%source av_metrics/src/video/psnr.rs
%struct PsnrMetrics
%struct PsnrResults
%struct Psnr

%raw
pub open spec fn sq(x: int) -> int { x * x }
/// sum of the squared differences of the first n samples
pub open spec fn sse<T: Pixel>(a: Seq<T>, b: Seq<T>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { sse(a, b, n - 1) + sq(a[n - 1].val() - b[n - 1].val()) } }
pub open spec fn plane_sse<T: Pixel>(p: &Plane<T>, q: &Plane<T>) -> int { sse(p.samples(), q.samples(), p.w() * p.h()) }
/// the definition of PSNR with its cap
#[verifier::opaque]
pub open spec fn psnr_of(err: real, n: int, max: int) -> real {
    if err <= 0real { 100real } else { rmin(100real, 10real * r_log10((max * max) as real * (n as real) / err)) }
}
pub open spec fn ok_metrics(m: PsnrMetrics) -> bool {
    m.sq_err@ == 0real || (m.sq_err@ >= 1real && m.n_pixels > 0 && 1 <= m.sample_max <= 65535)
}
pub open spec fn sum_err(s: Seq<PsnrMetrics>, k: int) -> real decreases k { if k <= 0 { 0real } else { sum_err(s, k - 1) + s[k - 1].sq_err@ } }
pub open spec fn sum_n(s: Seq<PsnrMetrics>, k: int) -> int decreases k { if k <= 0 { 0 } else { sum_n(s, k - 1) + s[k - 1].n_pixels } }
pub proof fn sum_n_mono(s: Seq<PsnrMetrics>, i: int, k: int)
    requires 0 <= i <= k
    ensures 0 <= sum_n(s, i) <= sum_n(s, k)
    decreases k
{ if i < k { sum_n_mono(s, i, k - 1); } else if k > 0 { sum_n_mono(s, k - 1, k - 1); } }
pub proof fn sum_ok(s: Seq<PsnrMetrics>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> ok_metrics(#[trigger] s[i])
    ensures sum_err(s, k) == 0real || (sum_err(s, k) >= 1real && sum_n(s, k) > 0)
    decreases k
{ if k > 0 { sum_ok(s, k - 1); sum_n_mono(s, k - 1, k); assert(ok_metrics(s[k - 1])); } }

/// sums of one plane over the frames
pub open spec fn col(ms: Seq<[PsnrMetrics; 3]>, c: int) -> Seq<PsnrMetrics> { Seq::new(ms.len(), |i: int| ms[i][c]) }
/// sums of the three planes of all frames
pub open spec fn all_err(ms: Seq<[PsnrMetrics; 3]>) -> real { sum_err(col(ms, 0), ms.len() as int) + sum_err(col(ms, 1), ms.len() as int) + sum_err(col(ms, 2), ms.len() as int) }
pub open spec fn all_n(ms: Seq<[PsnrMetrics; 3]>) -> int { sum_n(col(ms, 0), ms.len() as int) + sum_n(col(ms, 1), ms.len() as int) + sum_n(col(ms, 2), ms.len() as int) }
/// all of the planes one after the other
pub open spec fn flat(ms: Seq<[PsnrMetrics; 3]>) -> Seq<PsnrMetrics> { Seq::new(3 * ms.len(), |i: int| ms[i / 3][i % 3]) }
pub proof fn flat_sums(ms: Seq<[PsnrMetrics; 3]>, k: int)
    requires 0 <= k <= ms.len()
    ensures
        sum_err(flat(ms), 3 * k) == sum_err(col(ms, 0), k) + sum_err(col(ms, 1), k) + sum_err(col(ms, 2), k),
        sum_n(flat(ms), 3 * k) == sum_n(col(ms, 0), k) + sum_n(col(ms, 1), k) + sum_n(col(ms, 2), k),
    decreases k
{
    if k > 0 {
        flat_sums(ms, k - 1);
        let f = flat(ms);
        assert(f[3 * k - 3] == ms[k - 1][0] && f[3 * k - 2] == ms[k - 1][1] && f[3 * k - 1] == ms[k - 1][2]);
        assert(sum_err(f, 3 * k) == sum_err(f, 3 * k - 1) + ms[k - 1][2].sq_err@);
        assert(sum_err(f, 3 * k - 1) == sum_err(f, 3 * k - 2) + ms[k - 1][1].sq_err@);
        assert(sum_err(f, 3 * k - 2) == sum_err(f, 3 * k - 3) + ms[k - 1][0].sq_err@);
        assert(sum_n(f, 3 * k) == sum_n(f, 3 * k - 1) + ms[k - 1][2].n_pixels);
        assert(sum_n(f, 3 * k - 1) == sum_n(f, 3 * k - 2) + ms[k - 1][1].n_pixels);
        assert(sum_n(f, 3 * k - 2) == sum_n(f, 3 * k - 3) + ms[k - 1][0].n_pixels);
    }
}
/// PSNR of one plane of a frame
pub open spec fn psnr_m(m: PsnrMetrics) -> real { psnr_of(m.sq_err@, m.n_pixels as int, m.sample_max as int) }
/// PSNR of the three planes of a frame together
pub open spec fn psnr_f(m: [PsnrMetrics; 3]) -> real {
    psnr_of(m[0].sq_err@ + m[1].sq_err@ + m[2].sq_err@, m[0].n_pixels + m[1].n_pixels + m[2].n_pixels, m[2].sample_max as int)
}
pub open spec fn sum_psnr(ms: Seq<[PsnrMetrics; 3]>, c: int, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { sum_psnr(ms, c, k - 1) + (if c < 3 { psnr_m(ms[k - 1][c]) } else { psnr_f(ms[k - 1]) }) } }
/// one frame: its sums, and that they fit
pub proof fn frame_sums(ms: Seq<[PsnrMetrics; 3]>, i: int)
    requires 0 <= i < ms.len()
    ensures ({
        let r = ms[i]@;
        &&& sum_err(r, 3) == ms[i][0].sq_err@ + ms[i][1].sq_err@ + ms[i][2].sq_err@
        &&& sum_n(r, 3) == ms[i][0].n_pixels + ms[i][1].n_pixels + ms[i][2].n_pixels
        &&& sum_n(r, 3) <= all_n(ms)
    })
{
    let r = ms[i]@;
    reveal_with_fuel(sum_err, 4); reveal_with_fuel(sum_n, 4);
    let n = ms.len() as int;
    assert forall|c: int| 0 <= c < 3 implies sum_n(#[trigger] col(ms, c), n) >= ms[i][c].n_pixels by {
        sum_n_mono(col(ms, c), i + 1, n); sum_n_mono(col(ms, c), 0, i);
    }
    let (a, b, c) = (col(ms, 0), col(ms, 1), col(ms, 2));
}
pub open spec fn mean_psnr(ms: Seq<[PsnrMetrics; 3]>, c: int) -> real { sum_psnr(ms, c, ms.len() as int) / (ms.len() as real) }

pub proof fn sse_bounds<T: Pixel>(a: Seq<T>, b: Seq<T>, i: int, n: int)
    requires 0 <= i <= n
    ensures 0 <= sse(a, b, i) <= sse(a, b, n), sse(a, b, n) <= n * 4294836225
    decreases n
{
    if n > 0 {
        a[n - 1].val_range(); b[n - 1].val_range();
        let d = a[n - 1].val() - b[n - 1].val();
        assert(0 <= sq(d) <= 4294836225) by(nonlinear_arith) requires -65535 <= d <= 65535;
        if i < n { sse_bounds(a, b, i, n - 1); } else { sse_bounds(a, b, n - 1, n - 1); }
    }
}
pub proof fn sse_same<T: Pixel>(a: Seq<T>, n: int) ensures sse(a, a, n) == 0 decreases n { if n > 0 { sse_same(a, n - 1); } }
pub proof fn sse_sym<T: Pixel>(a: Seq<T>, b: Seq<T>, n: int) ensures sse(a, b, n) == sse(b, a, n) decreases n {
    if n > 0 {
        sse_sym(a, b, n - 1);
        let (x, y) = (a[n - 1].val(), b[n - 1].val());
        assert(sq(x - y) == sq(y - x)) by(nonlinear_arith);
    }
}
pub proof fn shl_one(b: usize) requires b <= 16 ensures (1usize << b) == vstd::arithmetic::power2::pow2(b as nat), 1 <= (1usize << b) <= 65536
{
    vstd::arithmetic::power2::lemma2_to64();
    if b < 16 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(b as nat, 16); }
    vstd::bits::lemma_usize_shl_is_mul(1, b);
    assert(1usize << b <= 65536 && 1usize << b >= 1) by(bit_vector) requires b <= 16;
}
/// planes small enough for the sums
pub open spec fn small<T: Pixel>(p: &Plane<T>) -> bool { p.w() * p.h() <= 4294967296 }
pub open spec fn frame_ok<T: Pixel>(f: &Frame<T>) -> bool {
    f.wf() && small(&f.planes[0]) && small(&f.planes[1]) && small(&f.planes[2])
}
/// what process_frame computes of a pair of planes
pub open spec fn plane_result<T: Pixel>(m: PsnrMetrics, p: &Plane<T>, q: &Plane<T>, b: int) -> bool {
    m.sq_err@ == plane_sse(p, q) as real && m.n_pixels == p.w() * p.h() && m.sample_max == depth_max(b) && ok_metrics(m)
}
/// C03: the result of a pair of frames
pub open spec fn psnr_scored<T: Pixel>(f: &Frame<T>, g: &Frame<T>, b: int, r: Result<[PsnrMetrics; 3], MetricsError>) -> bool {
    &&& !width_ok::<T>(b) || !f.fits(g) ==> is_mismatch(r)
    &&& width_ok::<T>(b) && f.fits(g) ==> r is Ok && forall|c: int| 0 <= c < 3 ==> plane_result(#[trigger] r->Ok_0[c], &f.planes[c], &g.planes[c], b)
}
/// the PSNR of a pair of planes
pub open spec fn plane_psnr<T: Pixel>(p: &Plane<T>, q: &Plane<T>, b: int) -> real { psnr_of(plane_sse(p, q) as real, p.w() * p.h(), depth_max(b)) }
%end

%fn calculate_plane_total_squared_error
%spec
    requires
        plane1.wf(), plane2.wf(), plane1.cfg == plane2.cfg, small(plane1),
    ensures
        ret@ == plane_sse(plane1, plane2) as real,
        plane_sse(plane1, plane2) >= 0,
        plane_sse(plane1, plane2) > 0 ==> plane1.w() * plane1.h() > 0,
%at start
    broadcast use px_range, fl;
    let ghost (a, b, n) = (plane1.samples(), plane2.samples(), plane1.w() * plane1.h());
    proof {
        sse_bounds(a, b, 0, n);
        assert(n >= 0) by(nonlinear_arith) requires n == plane1.w() * plane1.h(), plane1.w() >= 0, plane1.h() >= 0;
    }
%loop 1
    invariant
        acc__1 == sse(a, b, i__4 as int),
%at loop 1 start
    proof {
        sse_bounds(a, b, i__4 as int, i__4 as int);
        sse_bounds(a, b, i__4 + 1, i__4 + 1);
        let d = a[i__4 as int].val() - b[i__4 as int].val();
        let e = if d < 0 { -d } else { d };
        assert(sq(d) == e * e) by(nonlinear_arith) requires e == d || e == -d;
        a[i__4 as int].val_range(); b[i__4 as int].val_range();
        assert(0 <= e * e <= 4294836225) by(nonlinear_arith) requires 0 <= e <= 65535;
    }
%endfn

%fn calculate_psnr
%spec
    requires ok_metrics(metrics),
    ensures ret@ == psnr_m(metrics), ret@ <= 100real,
%at start
    broadcast use fl, ax_log_mul, ax_log_div;
    proof {
        reveal(psnr_of);
        let (m, n, e) = (metrics.sample_max, metrics.n_pixels, metrics.sq_err@);
        if e > 0real {
            assert(0 < m * m <= 4294836225) by(nonlinear_arith) requires 1 <= m <= 65535;
            assert((m * m) as real * (n as real) > 0real) by(nonlinear_arith) requires m * m >= 1, n >= 1;
            ax_log_mul((m * m) as real, n as real);
            ax_log_div((m * m) as real * (n as real), e);
            assert(r_log10((m * m) as real * (n as real) / e) == r_log10((m * m) as real) + r_log10(n as real) - r_log10(e));
        }
    }
%endfn

%fn calculate_summed_psnr
%spec
    requires
        forall|i: int| 0 <= i < metrics@.len() ==> ok_metrics(#[trigger] metrics@[i]),
        forall|i: int| 0 <= i < metrics@.len() ==> (#[trigger] metrics@[i]).sample_max == metrics@[0].sample_max,
        sum_n(metrics@, metrics@.len() as int) <= usize::MAX,
    ensures
        metrics@.len() > 0 ==> ret@ == psnr_of(sum_err(metrics@, metrics@.len() as int), sum_n(metrics@, metrics@.len() as int), metrics@[0].sample_max as int),
        ret@ <= 100real,
%at start
    broadcast use fl;
    proof { sum_ok(metrics@, metrics@.len() as int); }
%loop 1
    invariant
        acc__1.sq_err@ == sum_err(metrics@, i__2 as int),
        acc__1.n_pixels == sum_n(metrics@, i__2 as int),
        i__2 > 0 ==> acc__1.sample_max == metrics@[0].sample_max,
        i__2 == 0 ==> acc__1.sample_max == 0,
        ok_metrics(acc__1),
%at loop 1 start
    proof {
        sum_n_mono(metrics@, i__2 + 1, metrics@.len() as int);
        sum_ok(metrics@, i__2 as int);
        sum_ok(metrics@, i__2 + 1);
        assert(ok_metrics(metrics@[i__2 as int]));
    }
%endfn

%fn calculate_plane_psnr_metrics
%spec
    requires
        plane1.wf(), plane2.wf(), plane1.cfg == plane2.cfg, small(plane1), 1 <= bit_depth <= 16,
    ensures plane_result(ret, plane1, plane2, bit_depth as int),
%at start
    proof {
        shl_one(bit_depth);
        assert(0 <= plane1.w() * plane1.h()) by(nonlinear_arith) requires plane1.w() >= 0, plane1.h() >= 0;
        assert(plane1.cfg.width * plane1.cfg.height == plane1.w() * plane1.h());
        assert(plane1.w() * plane1.h() <= 4294967296);
        assert(bit_depth >= 1 ==> (1usize << bit_depth) >= 2) by(bit_vector) requires bit_depth <= 16;
    }
%endfn

%fn Psnr::process_frame
%spec
    requires
        frame_ok(frame1), frame_ok(frame2), 1 <= bit_depth <= 16,
    ensures
        psnr_scored(frame1, frame2, bit_depth as int, ret),
%endfn

%raw
/// what the aggregation needs of the results of the frames
#[verifier::opaque]
pub open spec fn agg_ok(ms: Seq<[PsnrMetrics; 3]>) -> bool {
    &&& ms.len() > 0
    &&& forall|i: int, c: int| 0 <= i < ms.len() && 0 <= c < 3 ==> ok_metrics(#[trigger] ms[i][c]) && ms[i][c].sample_max == ms[0][0].sample_max
    &&& all_n(ms) <= usize::MAX
    &&& 3 * ms.len() <= usize::MAX
}
/// the sequences that are summed up are fine
pub open spec fn seq_ok(s: Seq<PsnrMetrics>, k: int) -> bool {
    &&& s.len() > 0
    &&& forall|i: int| 0 <= i < s.len() ==> ok_metrics(#[trigger] s[i])
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).sample_max == k
    &&& sum_n(s, s.len() as int) <= usize::MAX
}
pub proof fn agg_cols(ms: Seq<[PsnrMetrics; 3]>)
    requires agg_ok(ms)
    ensures
        ms.len() > 0, 3 * ms.len() <= usize::MAX,
        forall|c: int| 0 <= c < 3 ==> seq_ok(#[trigger] col(ms, c), ms[0][0].sample_max as int) && col(ms, c).len() == ms.len(),
        seq_ok(flat(ms), ms[0][0].sample_max as int), flat(ms).len() == 3 * ms.len(),
        sum_err(flat(ms), (3 * ms.len()) as int) == all_err(ms), sum_n(flat(ms), (3 * ms.len()) as int) == all_n(ms),
{
    reveal(agg_ok);
    let n = ms.len() as int;
    flat_sums(ms, n);
    sum_n_mono(col(ms, 0), 0, n); sum_n_mono(col(ms, 1), 0, n); sum_n_mono(col(ms, 2), 0, n);
    assert forall|c: int| 0 <= c < 3 implies seq_ok(#[trigger] col(ms, c), ms[0][0].sample_max as int) by {
        assert forall|i: int| 0 <= i < n implies ok_metrics(#[trigger] col(ms, c)[i]) && col(ms, c)[i].sample_max == ms[0][0].sample_max by { assert(ok_metrics(ms[i][c])); }
    }
    assert forall|i: int| 0 <= i < 3 * n implies ok_metrics(#[trigger] flat(ms)[i]) && flat(ms)[i].sample_max == ms[0][0].sample_max by { assert(ok_metrics(ms[i / 3][i % 3])); }
}
pub proof fn agg_frame(ms: Seq<[PsnrMetrics; 3]>, i: int)
    requires agg_ok(ms), 0 <= i < ms.len()
    ensures
        seq_ok(ms[i]@, ms[0][0].sample_max as int),
        ok_metrics(ms[i][0]), ok_metrics(ms[i][1]), ok_metrics(ms[i][2]),
        psnr_of(sum_err(ms[i]@, 3), sum_n(ms[i]@, 3), ms[i][0].sample_max as int) == psnr_f(ms[i]),
{
    reveal(agg_ok);
    frame_sums(ms, i);
    assert(ok_metrics(ms[i][0]) && ok_metrics(ms[i][1]) && ok_metrics(ms[i][2]));
}
/// pooled PSNR and mean of the PSNR of the frames (C06)
pub open spec fn video_psnr_is(r: PsnrResults, ms: Seq<[PsnrMetrics; 3]>) -> bool {
    let n = ms.len() as int;
    let max = ms[0][0].sample_max as int;
    &&& forall|c: int| #![trigger col(ms, c)] 0 <= c < 3 ==> plane_of(r.psnr, c) == psnr_of(sum_err(col(ms, c), n), sum_n(col(ms, c), n), max)
    &&& r.psnr.avg@ == psnr_of(all_err(ms), all_n(ms), max)
    &&& forall|c: int| #![trigger mean_psnr(ms, c)] 0 <= c < 3 ==> plane_of(r.apsnr, c) == mean_psnr(ms, c)
    &&& r.apsnr.avg@ == mean_psnr(ms, 3)
}
%end
%fn Psnr::aggregate_frame_results
%spec
    requires agg_ok(metrics@),
    ensures ret is Ok, video_psnr_is(ret->Ok_0, metrics@),
%at start
    broadcast use fl;
    let ghost ms = metrics@;
    proof { agg_cols(ms); }
%loop 1 isolated
    invariant ms == metrics@, len__3 == ms.len(), acc__1@ == col(ms, 0).take(i__2 as int),
%at loop 1 end
    proof { assert(acc__1@ =~= col(ms, 0).take(i__2 + 1)); }
%at loop 1 after
    proof { assert(acc__1@ =~= col(ms, 0)); assert(seq_ok(col(ms, 0), ms[0][0].sample_max as int)); }
%loop 2 isolated
    invariant ms == metrics@, len__6 == ms.len(), acc__4@ == col(ms, 1).take(i__5 as int),
%at loop 2 end
    proof { assert(acc__4@ =~= col(ms, 1).take(i__5 + 1)); }
%at loop 2 after
    proof { assert(acc__4@ =~= col(ms, 1)); assert(seq_ok(col(ms, 1), ms[0][0].sample_max as int)); }
%loop 3 isolated
    invariant ms == metrics@, len__9 == ms.len(), acc__7@ == col(ms, 2).take(i__8 as int),
%at loop 3 end
    proof { assert(acc__7@ =~= col(ms, 2).take(i__8 + 1)); }
%at loop 3 after
    proof { assert(acc__7@ =~= col(ms, 2)); assert(seq_ok(col(ms, 2), ms[0][0].sample_max as int)); }
%loop 4 isolated
    invariant ms == metrics@, len__15 == ms.len(), acc__10@ == flat(ms).take(3 * i__11), 3 * ms.len() <= usize::MAX,
%at loop 4 end
    proof { assert(acc__10@ =~= flat(ms).take(3 * (i__11 + 1))); }
%at loop 4 after
    proof { assert(acc__10@ =~= flat(ms)); }
%loop 5 isolated
    invariant ms == metrics@, len__14 == 3, 0 <= i__11 < ms.len(), inner__12 == metrics[i__11 as int], acc__10@ == flat(ms).take(3 * i__11 + i__13),
%at loop 5 end
    proof { assert(acc__10@ =~= flat(ms).take(3 * i__11 + i__13 + 1)); }
%loop 6 isolated
    invariant ms == metrics@, len__18 == ms.len(), agg_ok(ms), acc__16@ == sum_psnr(ms, 0, i__17 as int),
%at loop 6 start
    broadcast use fl;
    proof { agg_frame(ms, i__17 as int); }
%loop 7 isolated
    invariant ms == metrics@, len__21 == ms.len(), agg_ok(ms), acc__19@ == sum_psnr(ms, 1, i__20 as int),
%at loop 7 start
    broadcast use fl;
    proof { agg_frame(ms, i__20 as int); }
%loop 8 isolated
    invariant ms == metrics@, len__24 == ms.len(), agg_ok(ms), acc__22@ == sum_psnr(ms, 2, i__23 as int),
%at loop 8 start
    broadcast use fl;
    proof { agg_frame(ms, i__23 as int); }
%loop 9 isolated
    invariant ms == metrics@, len__27 == ms.len(), agg_ok(ms), acc__25@ == sum_psnr(ms, 3, i__26 as int),
%at loop 9 start
    broadcast use fl;
    proof { agg_frame(ms, i__26 as int); }
%endfn

%raw
pub open spec fn frame_sse<T: Pixel>(f: &Frame<T>, g: &Frame<T>) -> int {
    plane_sse(&f.planes[0], &g.planes[0]) + plane_sse(&f.planes[1], &g.planes[1]) + plane_sse(&f.planes[2], &g.planes[2])
}
pub open spec fn frame_area<T: Pixel>(f: &Frame<T>) -> int {
    f.planes[0].w() * f.planes[0].h() + f.planes[1].w() * f.planes[1].h() + f.planes[2].w() * f.planes[2].h()
}
/// the PSNR of a pair of frames (C05, and the pooled value of C06)
pub open spec fn frame_psnr_is<T: Pixel>(m: PlanarMetrics, f: &Frame<T>, g: &Frame<T>, b: int) -> bool {
    &&& m.y@ == plane_psnr(&f.planes[0], &g.planes[0], b)
    &&& m.u@ == plane_psnr(&f.planes[1], &g.planes[1], b)
    &&& m.v@ == plane_psnr(&f.planes[2], &g.planes[2], b)
    &&& m.avg@ == psnr_of(frame_sse(f, g) as real, frame_area(f), depth_max(b))
}
%end
%fn calculate_frame_psnr
%spec
    requires
        frame_ok(frame1), frame_ok(frame2), 1 <= bit_depth <= 16, frame_area(frame1) <= usize::MAX,
    ensures
        !width_ok::<T>(bit_depth as int) || !frame1.fits(frame2) ==> is_mismatch(ret),
        width_ok::<T>(bit_depth as int) && frame1.fits(frame2) ==> ret is Ok && frame_psnr_is(ret->Ok_0, frame1, frame2, bit_depth as int)
            && ret->Ok_0.y@ <= 100real && ret->Ok_0.u@ <= 100real && ret->Ok_0.v@ <= 100real && ret->Ok_0.avg@ <= 100real,
%at start
    broadcast use fl;
    proof { reveal_with_fuel(sum_err, 4); reveal_with_fuel(sum_n, 4); }
%at let metrics
    proof {
        let m = metrics@;
        assert(ok_metrics(m[0]) && ok_metrics(m[1]) && ok_metrics(m[2]));
    }
%endfn

%raw
// ---- consequences of the contracts
proof fn div_one(x: real, d: real) requires d == 1real ensures x / d == x { assert(x / d == x) by(nonlinear_arith) requires d == 1real; }
/// C05: equal samples give 100
pub proof fn psnr_identical<T: Pixel>(m: PlanarMetrics, f: &Frame<T>, g: &Frame<T>, b: int)
    requires f.fits(g), same_samples(f, g), frame_psnr_is(m, f, g, b)
    ensures m.y@ == 100real, m.u@ == 100real, m.v@ == 100real, m.avg@ == 100real
{
    reveal(psnr_of);
    sse_same(f.planes[0].samples(), f.planes[0].w() * f.planes[0].h());
    sse_same(f.planes[1].samples(), f.planes[1].w() * f.planes[1].h());
    sse_same(f.planes[2].samples(), f.planes[2].w() * f.planes[2].h());
}
/// C19: the order of the frames does not matter
pub proof fn psnr_symmetric<T: Pixel>(m: PlanarMetrics, n: PlanarMetrics, f: &Frame<T>, g: &Frame<T>, b: int)
    requires f.fits(g), frame_psnr_is(m, f, g, b), frame_psnr_is(n, g, f, b)
    ensures m.y@ == n.y@, m.u@ == n.u@, m.v@ == n.v@, m.avg@ == n.avg@
{
    sse_sym(f.planes[0].samples(), g.planes[0].samples(), f.planes[0].w() * f.planes[0].h());
    sse_sym(f.planes[1].samples(), g.planes[1].samples(), f.planes[1].w() * f.planes[1].h());
    sse_sym(f.planes[2].samples(), g.planes[2].samples(), f.planes[2].w() * f.planes[2].h());
}
/// C18: the layout of the planes does not matter
pub proof fn psnr_layout<T: Pixel>(m: PlanarMetrics, n: PlanarMetrics, f: &Frame<T>, g: &Frame<T>, f2: &Frame<T>, g2: &Frame<T>, b: int)
    requires frame_psnr_is(m, f, g, b), frame_psnr_is(n, f2, g2, b), same_samples(f, f2), same_samples(g, g2)
    ensures m.y@ == n.y@, m.u@ == n.u@, m.v@ == n.v@, m.avg@ == n.avg@
{}
/// C06: a video of one frame
pub proof fn psnr_one_frame<T: Pixel>(r: PsnrResults, ms: Seq<[PsnrMetrics; 3]>, m: PlanarMetrics, f: &Frame<T>, g: &Frame<T>, b: int)
    requires
        ms.len() == 1,
        forall|c: int| 0 <= c < 3 ==> plane_result(#[trigger] ms[0][c], &f.planes[c], &g.planes[c], b),
        frame_psnr_is(m, f, g, b), video_psnr_is(r, ms),
    ensures
        r.psnr.y@ == m.y@, r.psnr.u@ == m.u@, r.psnr.v@ == m.v@, r.psnr.avg@ == m.avg@,
        r.apsnr.y@ == m.y@, r.apsnr.u@ == m.u@, r.apsnr.v@ == m.v@, r.apsnr.avg@ == m.avg@,
{
    reveal_with_fuel(sum_err, 4); reveal_with_fuel(sum_n, 4); reveal_with_fuel(sum_psnr, 4);
    assert(plane_result(ms[0][0], &f.planes[0], &g.planes[0], b));
    assert(plane_result(ms[0][1], &f.planes[1], &g.planes[1], b));
    assert(plane_result(ms[0][2], &f.planes[2], &g.planes[2], b));
    assert forall|c: int| 0 <= c < 3 implies plane_of(r.psnr, c) == plane_of(m, c) && plane_of(r.apsnr, c) == plane_of(m, c) by {
        div_one(sum_psnr(ms, c, 1), ms.len() as real);
        assert(sum_psnr(ms, c, 1) == psnr_m(ms[0][c]));
        assert(col(ms, c)[0] == ms[0][c]);
        assert(sum_err(col(ms, c), 1) == ms[0][c].sq_err@);
        assert(sum_n(col(ms, c), 1) == ms[0][c].n_pixels);
        assert(plane_result(ms[0][c], &f.planes[c], &g.planes[c], b));
        assert(mean_psnr(ms, c) == sum_psnr(ms, c, 1));
        assert(plane_of(r.psnr, c) == plane_of(m, c));
    }
    div_one(sum_psnr(ms, 3, 1), ms.len() as real);
    assert(plane_of(r.psnr, 0) == plane_of(m, 0) && plane_of(r.psnr, 1) == plane_of(m, 1) && plane_of(r.psnr, 2) == plane_of(m, 2));
    assert(plane_of(r.apsnr, 0) == plane_of(m, 0));
}
/// C06: the results of the frames can be aggregated
pub proof fn psnr_can_aggregate(ms: Seq<[PsnrMetrics; 3]>, b: int)
    requires
        ms.len() > 0, 3 * ms.len() <= usize::MAX, all_n(ms) <= usize::MAX,
        forall|i: int, c: int| 0 <= i < ms.len() && 0 <= c < 3 ==> ok_metrics(#[trigger] ms[i][c]) && ms[i][c].sample_max == depth_max(b),
    ensures agg_ok(ms)
{
    reveal(agg_ok);
    assert(ok_metrics(ms[0][0]));
}
%end

%raw
proof fn sum_n_small(s: Seq<PsnrMetrics>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).n_pixels <= 4294967296
    ensures sum_n(s, k) <= k * 4294967296
    decreases k
{ if k > 0 { sum_n_small(s, k - 1); } }
impl VideoMetric for Psnr {
    type FrameResult = [PsnrMetrics; 3];
    type VideoResult = PsnrResults;
    open spec fn ready(&self, c: ChromaSampling) -> bool { true }
    open spec fn input_ok<T: Pixel>(&self, p: (Frame<T>, Frame<T>), b: int) -> bool { frame_ok(&p.0) && frame_ok(&p.1) && 1 <= b <= 16 }
    open spec fn scored<T: Pixel>(&self, p: (Frame<T>, Frame<T>), b: int, c: ChromaSampling, r: Result<[PsnrMetrics; 3], MetricsError>) -> bool { psnr_scored(&p.0, &p.1, b, r) }
    open spec fn count_ok(&self, n: int) -> bool { n <= 0x4000_0000 }
    open spec fn agg_req(&self, ms: Seq<[PsnrMetrics; 3]>) -> bool { agg_ok(ms) }
    open spec fn pooled(&self, ms: Seq<[PsnrMetrics; 3]>, r: Result<PsnrResults, MetricsError>) -> bool { r is Ok && video_psnr_is(r->Ok_0, ms) }
    proof fn can_pool<T: Pixel>(&self, ps: Seq<(Frame<T>, Frame<T>)>, b: int, c: ChromaSampling, ms: Seq<[PsnrMetrics; 3]>)
    {
        let n = ms.len() as int;
        assert forall|i: int, k: int| 0 <= i < n && 0 <= k < 3 implies ok_metrics(#[trigger] ms[i][k]) && ms[i][k].sample_max == depth_max(b) && ms[i][k].n_pixels <= 4294967296 by {
            assert(self.input_ok(ps[i], b) && self.scored(ps[i], b, c, Ok(ms[i])));
            psnr_scored_planes(&ps[i].0, &ps[i].1, b, ms[i]);
            assert(plane_result(ms[i][k], &ps[i].0.planes[k], &ps[i].1.planes[k], b));
        }
        assert forall|k: int| 0 <= k < 3 implies sum_n(#[trigger] col(ms, k), n) <= n * 4294967296 by {
            assert forall|i: int| 0 <= i < col(ms, k).len() implies (#[trigger] col(ms, k)[i]).n_pixels <= 4294967296 by { assert(ok_metrics(ms[i][k])); }
            sum_n_small(col(ms, k), n);
        }
        psnr_can_aggregate(ms, b);
    }
    fn process_frame<T: Pixel>(&self, frame1: &Frame<T>, frame2: &Frame<T>, bit_depth: usize, chroma_sampling: ChromaSampling) -> (ret: Result<[PsnrMetrics; 3], MetricsError>)
    { Psnr::process_frame(self, frame1, frame2, bit_depth, chroma_sampling) }
    fn aggregate_frame_results(&self, metrics: &Vec<[PsnrMetrics; 3]>) -> (ret: Result<PsnrResults, MetricsError>)
    { Psnr::aggregate_frame_results(self, metrics.as_slice()) }
}
proof fn psnr_scored_planes<T: Pixel>(f: &Frame<T>, g: &Frame<T>, b: int, m: [PsnrMetrics; 3])
    requires psnr_scored(f, g, b, Ok(m))
    ensures forall|c: int| 0 <= c < 3 ==> plane_result(#[trigger] m[c], &f.planes[c], &g.planes[c], b)
{
    let r = Ok::<[PsnrMetrics; 3], MetricsError>(m);
    assert(!is_mismatch(r));
    assert forall|c: int| 0 <= c < 3 implies plane_result(#[trigger] m[c], &f.planes[c], &g.planes[c], b) by { assert(r->Ok_0[c] == m[c]); }
}
%end

%fn calculate_video_psnr
%sig fn calculate_video_psnr<D: VideoDecoder, F: Progress>(decoder1: &mut D, decoder2: &mut D, frame_limit: Option<usize>, progress_callback: F) -> (ret: Result<PlanarMetrics, MetricsError>)
%spec
    requires process_req(&Psnr, *old(decoder1), *old(decoder2), frame_limit),
    ensures
        exists|r: Result<PsnrResults, MetricsError>| #[trigger] process_is(&Psnr, *old(decoder1), *old(decoder2), frame_limit, progress_callback, r)
            && ret == (match r { Ok(q) => Ok(q.psnr), Err(e) => Err(e) }),
%endfn

%fn calculate_video_apsnr
%sig fn calculate_video_apsnr<D: VideoDecoder, F: Progress>(decoder1: &mut D, decoder2: &mut D, frame_limit: Option<usize>, progress_callback: F) -> (ret: Result<PlanarMetrics, MetricsError>)
%spec
    requires process_req(&Psnr, *old(decoder1), *old(decoder2), frame_limit),
    ensures
        exists|r: Result<PsnrResults, MetricsError>| #[trigger] process_is(&Psnr, *old(decoder1), *old(decoder2), frame_limit, progress_callback, r)
            && ret == (match r { Ok(q) => Ok(q.apsnr), Err(e) => Err(e) }),
%endfn
