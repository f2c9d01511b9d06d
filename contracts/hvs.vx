%include num.rs
%include fl.rs
%include plane.vx
%include compare.vx
%include dct.rs
%include hvs_math.rs
%include frames.rs
%include csf.rs
%include hvs_block.rs
%include hvs_laws.rs
%include decoder.rs
%include pipeline.rs
%include process.rs
%source av_metrics/src/video/psnr_hvs.rs
%const DCT_STRIDE
%struct PsnrHvs
%fn od_dct_rshift
%spec
    requires b == 1
    ensures ret == half(a as int)
%at start
    proof { half_def(a as int); }
    assert(a >= 0 ==> (a as u32 >> 31u32) == 0) by(bit_vector);
    assert(a < 0 ==> (a as u32 >> 31u32) == 1) by(bit_vector);
    assert(forall|x: i32| (#[trigger] (x >> 1u32)) as i64 * 2 <= x as i64 && x as i64 <= (x >> 1u32) as i64 * 2 + 1) by(bit_vector);
%endfn
%fn od_bin_fdct8
%spec
    requires old(y)@.len() >= 8, x@.len() > 56, forall|j: int| 0 <= j < 8 ==> -12000 <= #[trigger] x@[8 * j] <= 12000,
    ensures
        final(y)@.len() == old(y)@.len(),
        forall|k: int| 0 <= k < 8 ==> #[trigger] final(y)@[k] == fd8(Seq::new(8, |j: int| x@[8 * j] as int))[k],
        forall|k: int| 8 <= k < old(y)@.len() ==> #[trigger] final(y)@[k] == old(y)@[k],
%at start
    broadcast use shr;
    let ghost s = Seq::new(8, |j: int| x@[8 * j] as int);
    proof { lift_steps(s); }
%endfn
%fn od_bin_fdct8x8
%spec
    requires old(data)@.len() == 64, forall|i: int| 0 <= i < 64 ==> -4095 <= #[trigger] old(data)@[i] <= 4095
    ensures final(data)@.len() == 64, forall|i: int| 0 <= i < 64 ==> #[trigger] final(data)@[i] == fd64(ints(old(data)@))[i]
%at start
    let ghost d = ints(data@);
    let ghost w = pass(d);
    proof { pass_within(d, 4095, 11586); }
%loop 1
    invariant
        data@ == old(data)@, d == ints(data@), d.len() == 64, within(d, 4095), w == pass(d), z@.len() == 64,
        forall|n: int| 0 <= n < 8 * i ==> #[trigger] z@[n] == w[n],
%at loop 1 start
    proof {
        assert forall|j: int| 0 <= j < 8 implies -12000 <= #[trigger] data@.subrange(i as int, 64)[8 * j] <= 12000 by { assert(data@[i + 8 * j] == d[8 * j + i]); }
        let ghost c = data@.subrange(i as int, 64);
        assert(Seq::new(8, |j: int| c[8 * j] as int) =~= col(d, i as int));
    }
%loop 2
    invariant
        d == ints(old(data)@), w == pass(d), within(w, 11586), w.len() == 64, z@.len() == 64, data@.len() == 64,
        forall|n: int| 0 <= n < 64 ==> #[trigger] z@[n] == w[n],
        forall|n: int| 0 <= n < 8 * i ==> #[trigger] data@[n] == pass(w)[n],
%at loop 2 start
    proof {
        assert forall|j: int| 0 <= j < 8 implies -12000 <= #[trigger] z@.subrange(i as int, 64)[8 * j] <= 12000 by { assert(z@[i + 8 * j] == w[8 * j + i]); }
        let ghost c = z@.subrange(i as int, 64);
        assert(Seq::new(8, |j: int| c[8 * j] as int) =~= col(w, i as int));
    }
%endfn

%fconst CSF_Y
    ensures is_csf_y(ret)
%fconst CSF_CB420
    ensures is_csf_cb(ret)
%fconst CSF_CR420
    ensures is_csf_cr(ret)
%fn calculate_plane_psnr_hvs
%spec
    requires
        plane1.wf(), plane2.wf(), plane1.cfg == plane2.cfg, small(plane1), plane_idx < 3, 1 <= bit_depth <= 12,
        plane1.w() == 0 || plane1.h() == 0 || plane1.w() >= 8 && plane1.h() >= 8,
        fits_max(plane1, depth_max(bit_depth as int)), fits_max(plane2, depth_max(bit_depth as int)),
    ensures ret@ == hvs_score(plane1, plane2, plane_idx as int, bit_depth as int)
%at start
    broadcast use fl;
    let ghost idx = plane_idx as int;
    proof {
        depth_range(bit_depth as int);
        assert(fits_max(plane1, 4095) && fits_max(plane2, 4095));
        if plane1.w() >= 8 && plane1.h() >= 8 { nblocks_small(plane1.w(), plane1.h()); }
    }
%at let csf
    proof { csf_is(csf, idx); }
%loop 1 isolated
    invariant
        csf_table(csf, idx), CSF_MULTIPLIER@ == 0.3885746225901003real,
        forall|i: int, j: int| 0 <= i < x && 0 <= j < 8 ==> (#[trigger] mask[i][j])@ == mask_at(idx, 8 * i + j),
%loop 2 isolated
    invariant
        csf_table(csf, idx), CSF_MULTIPLIER@ == 0.3885746225901003real, x < 8,
        forall|i: int, j: int| 0 <= i < x && 0 <= j < 8 ==> (#[trigger] mask[i][j])@ == mask_at(idx, 8 * i + j),
        forall|j: int| 0 <= j < y ==> (#[trigger] mask[x as int][j])@ == mask_at(idx, 8 * (x as int) + j),
%at loop 2 start
    broadcast use fl;
%at loop 3 before
    let ghost mut ky = 0int;
%loop 3 isolated
    invariant
        STEP == 7, sources(plane1, plane2, data1@, data2@, stride as int), csf_table(csf, idx), mask_table(mask, idx), small(plane1),
        width == plane1.w(), height == plane1.h(), width >= 8, height >= 8, 0 <= idx < 3,
        0 <= ky <= nblocks(height as int), pos__2 == imin(7 * ky, height - 7),
        pixels == 64 * (ky * nblocks(width as int)), result@ == rows_err(plane1, plane2, idx, ky),
    ensures ky == nblocks(height as int),
    decreases height - pos__2
%at loop 3 start
    broadcast use fl;
    proof {
        nblocks_small(width as int, height as int);
        assert((ky + 1) * nblocks(width as int) == ky * nblocks(width as int) + nblocks(width as int)) by(nonlinear_arith);
        assert((ky + 1) * nblocks(width as int) <= nblocks(height as int) * nblocks(width as int)) by(nonlinear_arith) requires ky + 1 <= nblocks(height as int), nblocks(width as int) >= 1;
        assert(nblocks(height as int) * nblocks(width as int) == nblocks(width as int) * nblocks(height as int)) by(nonlinear_arith);
    }
%at loop 4 before
    let ghost mut kx = 0int;
%loop 4 isolated
    invariant
        STEP == 7, sources(plane1, plane2, data1@, data2@, stride as int), csf_table(csf, idx), mask_table(mask, idx), small(plane1),
        width == plane1.w(), height == plane1.h(), width >= 8, height >= 8, 0 <= idx < 3, y == 7 * ky, y + 8 <= height, 0 <= ky,
        (ky + 1) * nblocks(width as int) <= 4294967296, (ky + 1) * nblocks(width as int) == ky * nblocks(width as int) + nblocks(width as int),
        0 <= kx <= nblocks(width as int), pos__4 == imin(7 * kx, width - 7),
        pixels == 64 * (ky * nblocks(width as int) + kx), result@ == rows_err(plane1, plane2, idx, ky) + row_err(plane1, plane2, idx, y as int, kx),
    ensures kx == nblocks(width as int),
    decreases width - pos__4
%at loop 4 start
    broadcast use fl;
    let ghost a = blk(plane1, pos__4 as int, y as int);
    let ghost b = blk(plane2, pos__4 as int, y as int);
    let ghost (res0, pix0) = (result@, pixels);
    proof { blk_within(plane1, pos__4 as int, y as int); blk_within(plane2, pos__4 as int, y as int); masking_arg(a, idx); masking_arg(b, idx); fd64_accuracy(a); fd64_accuracy(b); }
%loop 5 isolated
    invariant
        sources(plane1, plane2, data1@, data2@, stride as int), x + 8 <= plane1.w(), y + 8 <= plane1.h(),
        a == blk(plane1, x as int, y as int), b == blk(plane2, x as int, y as int),
        forall|n: int| 0 <= n < 8 * (i as int) ==> #[trigger] p1[n] == a[n], p1_gmean@ == total(a, 8 * (i as int)), forall|q: int| 0 <= q < 4 ==> (#[trigger] p1_means[q])@ == qtotal(a, q, 8 * (i as int)),
        forall|n: int| 0 <= n < 8 * (i as int) ==> #[trigger] p2[n] == b[n], p2_gmean@ == total(b, 8 * (i as int)), forall|q: int| 0 <= q < 4 ==> (#[trigger] p2_means[q])@ == qtotal(b, q, 8 * (i as int)),
%loop 6 isolated
    invariant
        sources(plane1, plane2, data1@, data2@, stride as int), x + 8 <= plane1.w(), y + 8 <= plane1.h(), i < 8,
        a == blk(plane1, x as int, y as int), b == blk(plane2, x as int, y as int),
        forall|n: int| 0 <= n < 8 * (i as int) + j ==> #[trigger] p1[n] == a[n], p1_gmean@ == total(a, 8 * (i as int) + j), forall|q: int| 0 <= q < 4 ==> (#[trigger] p1_means[q])@ == qtotal(a, q, 8 * (i as int) + j),
        forall|n: int| 0 <= n < 8 * (i as int) + j ==> #[trigger] p2[n] == b[n], p2_gmean@ == total(b, 8 * (i as int) + j), forall|q: int| 0 <= q < 4 ==> (#[trigger] p2_means[q])@ == qtotal(b, q, 8 * (i as int) + j),
%at loop 6 start
    broadcast use fl;
    proof {
        blk_at(plane1, x as int, y as int, i as int, j as int);
        blk_at(plane2, x as int, y as int, i as int, j as int);
        quad_is(i, j);
    }
%loop 7 isolated
    invariant
        forall|q: int| 0 <= q < 4 ==> (#[trigger] p1_means[q])@ == (if q < i { qmean(a, q) } else { qtotal(a, q, 64) }),
        forall|q: int| 0 <= q < 4 ==> (#[trigger] p2_means[q])@ == (if q < i { qmean(b, q) } else { qtotal(b, q, 64) }),
%at loop 7 start
    broadcast use fl;
%loop 8 isolated
    invariant
        a.len() == 64, forall|n: int| 0 <= n < 64 ==> #[trigger] p1[n] == a[n], p1_gmean@ == gmean(a), forall|q: int| 0 <= q < 4 ==> (#[trigger] p1_means[q])@ == qmean(a, q),
        a.len() == 64, forall|n: int| 0 <= n < 64 ==> #[trigger] p2[n] == b[n], p2_gmean@ == gmean(b), forall|q: int| 0 <= q < 4 ==> (#[trigger] p2_means[q])@ == qmean(b, q),
        p1_gvar@ == dev(a, gmean(a), 8 * (i as int)), forall|q: int| 0 <= q < 4 ==> (#[trigger] p1_vars[q])@ == qdev(a, q, qmean(a, q), 8 * (i as int)),
        p2_gvar@ == dev(b, gmean(b), 8 * (i as int)), forall|q: int| 0 <= q < 4 ==> (#[trigger] p2_vars[q])@ == qdev(b, q, qmean(b, q), 8 * (i as int)),
%loop 9 isolated
    invariant
        i < 8,
        a.len() == 64, forall|n: int| 0 <= n < 64 ==> #[trigger] p1[n] == a[n], p1_gmean@ == gmean(a), forall|q: int| 0 <= q < 4 ==> (#[trigger] p1_means[q])@ == qmean(a, q),
        a.len() == 64, forall|n: int| 0 <= n < 64 ==> #[trigger] p2[n] == b[n], p2_gmean@ == gmean(b), forall|q: int| 0 <= q < 4 ==> (#[trigger] p2_means[q])@ == qmean(b, q),
        p1_gvar@ == dev(a, gmean(a), 8 * (i as int) + j), forall|q: int| 0 <= q < 4 ==> (#[trigger] p1_vars[q])@ == qdev(a, q, qmean(a, q), 8 * (i as int) + j),
        p2_gvar@ == dev(b, gmean(b), 8 * (i as int) + j), forall|q: int| 0 <= q < 4 ==> (#[trigger] p2_vars[q])@ == qdev(b, q, qmean(b, q), 8 * (i as int) + j),
%at loop 9 start
    broadcast use fl;
    proof { quad_is(i, j); flat(i as int, j as int); }
%loop 10 isolated
    invariant
        forall|q: int| 0 <= q < 4 ==> (#[trigger] p1_vars[q])@ == (if q < i { qvar(a, q) } else { qdev(a, q, qmean(a, q), 64) }),
        forall|q: int| 0 <= q < 4 ==> (#[trigger] p2_vars[q])@ == (if q < i { qvar(b, q) } else { qdev(b, q, qmean(b, q), 64) }),
%at loop 10 start
    broadcast use fl;
%at loop 10 after
    proof { spread_is(a); spread_is(b); }
%loop 11 isolated
    invariant len__7 == 4, acc__5@ == qsum(a, i__6 as int), forall|q: int| 0 <= q < 4 ==> (#[trigger] p1_vars[q])@ == qvar(a, q),
%at loop 11 start
    broadcast use fl;
%loop 12 isolated
    invariant len__10 == 4, acc__8@ == qsum(b, i__9 as int), forall|q: int| 0 <= q < 4 ==> (#[trigger] p2_vars[q])@ == qvar(b, q),
%at loop 12 start
    broadcast use fl;
%loop 13 isolated
    invariant len__13 == 64, forall|n: int| 0 <= n < 64 ==> #[trigger] p1[n] == a[n], forall|n: int| 0 <= n < i__12 ==> #[trigger] dct_p1[n] == a[n],
%loop 14 isolated
    invariant len__16 == 64, forall|n: int| 0 <= n < 64 ==> #[trigger] p2[n] == b[n], forall|n: int| 0 <= n < i__15 ==> #[trigger] dct_p2[n] == b[n],
%at loop 14 after
    proof { assert(ints(dct_p1@) =~= a); assert(ints(dct_p2@) =~= b); }
%loop 15 isolated
    invariant
        within(fd64(a), 32775), fd64(a).len() == 64, forall|n: int| 0 <= n < 64 ==> #[trigger] dct_p1[n] == fd64(a)[n], p1_mask@ == energy(fd64(a), idx, 8 * (i as int)),
        within(fd64(b), 32775), fd64(b).len() == 64, forall|n: int| 0 <= n < 64 ==> #[trigger] dct_p2[n] == fd64(b)[n], p2_mask@ == energy(fd64(b), idx, 8 * (i as int)),
        mask_table(mask, idx),
%loop 16 isolated
    invariant
        i < 8, i == 0 ==> j >= 1,
        within(fd64(a), 32775), fd64(a).len() == 64, forall|n: int| 0 <= n < 64 ==> #[trigger] dct_p1[n] == fd64(a)[n], p1_mask@ == energy(fd64(a), idx, 8 * (i as int) + j),
        within(fd64(b), 32775), fd64(b).len() == 64, forall|n: int| 0 <= n < 64 ==> #[trigger] dct_p2[n] == fd64(b)[n], p2_mask@ == energy(fd64(b), idx, 8 * (i as int) + j),
        mask_table(mask, idx),
%at loop 16 start
    broadcast use fl;
    proof {
        flat(i as int, j as int);
        let (u, v) = (dct_p1[8 * (i as int) + j] as int, dct_p2[8 * (i as int) + j] as int);
        assert(u == fd64(a)[8 * (i as int) + j] && v == fd64(b)[8 * (i as int) + j]);
        assert(0 <= u * u <= 1074200625) by(nonlinear_arith) requires -32775 <= u <= 32775;
        assert(0 <= v * v <= 1074200625) by(nonlinear_arith) requires -32775 <= v <= 32775;
    }
%loop 17 isolated
    invariant
        mask_table(mask, idx), csf_table(csf, idx), pix0 <= 0x0fff_ffff_ffff,
        within(fd64(a), 32775), fd64(a).len() == 64, forall|n: int| 0 <= n < 64 ==> #[trigger] dct_p1[n] == fd64(a)[n],
        within(fd64(b), 32775), fd64(b).len() == 64, forall|n: int| 0 <= n < 64 ==> #[trigger] dct_p2[n] == fd64(b)[n],
        p1_mask@ == rmax(masking(a, idx), masking(b, idx)),
        pixels == pix0 + 8 * (i as int), result@ == res0 + errsum(fd64(a), fd64(b), rmax(masking(a, idx), masking(b, idx)), idx, 8 * (i as int)),
%loop 18 isolated
    invariant
        mask_table(mask, idx), csf_table(csf, idx), pix0 <= 0x0fff_ffff_ffff, i < 8,
        within(fd64(a), 32775), fd64(a).len() == 64, forall|n: int| 0 <= n < 64 ==> #[trigger] dct_p1[n] == fd64(a)[n],
        within(fd64(b), 32775), fd64(b).len() == 64, forall|n: int| 0 <= n < 64 ==> #[trigger] dct_p2[n] == fd64(b)[n],
        p1_mask@ == rmax(masking(a, idx), masking(b, idx)),
        pixels == pix0 + 8 * (i as int) + j, result@ == res0 + errsum(fd64(a), fd64(b), rmax(masking(a, idx), masking(b, idx)), idx, 8 * (i as int) + j),
%at loop 18 start
    broadcast use fl;
    proof { flat(i as int, j as int); mask_pos(idx, 8 * (i as int) + j); assert(mask[i as int][j as int]@ == mask_at(idx, 8 * (i as int) + j)); assert(csf[i as int][j as int]@ == csf_at(idx, 8 * (i as int) + j));
        assert(dct_p1[8 * (i as int) + j] == fd64(a)[8 * (i as int) + j] && dct_p2[8 * (i as int) + j] == fd64(b)[8 * (i as int) + j]); }
%at loop 4 end
    proof { kx = kx + 1; }
%at loop 3 end
    proof { ky = ky + 1; }
%at loop 3 after
    proof { hvs_end(plane1.w(), plane1.h(), bit_depth); shl_is(bit_depth); }
%endfn

%fn log10_convert
%specials
%spec
    requires score@ >= 0real, weight@ > 0real
    ensures ret@ == hdb(weight@ * score@)
%at start
    broadcast use fl;
    proof { mul_ge(weight@, score@); }
%endfn

%source av_metrics/src/video/mod.rs
%fn ChromaSampling::get_chroma_weight
%spec
    ensures ret@ == weight_of(self)
%at start
    broadcast use fl;
%endfn

%source av_metrics/src/video/psnr_hvs.rs
%fn PsnrHvs::process_frame
%spec
    requires
        frame_small(frame1), frame_small(frame2), 1 <= bit_depth <= 12,
        frame_fits(frame1, depth_max(bit_depth as int)), frame_fits(frame2, depth_max(bit_depth as int)),
    ensures
        hvs_scored(frame1, frame2, bit_depth as int, ret),
%at start
    broadcast use fl;
    proof { depth_range(bit_depth as int); }
%loop 1
    invariant
        len__3 == 3,
        acc__1 == !(forall|c: int| 0 <= c < i__2 ==> hvs_size_ok(&#[trigger] frame1.planes[c])),
%endfn

%fn calculate_frame_psnr_hvs
%spec
    requires
        frame_small(frame1), frame_small(frame2), 1 <= bit_depth <= 12,
        frame_fits(frame1, depth_max(bit_depth as int)), frame_fits(frame2, depth_max(bit_depth as int)),
    ensures
        !width_ok::<T>(bit_depth as int) || !frame1.fits(frame2) ==> is_mismatch(ret),
        width_ok::<T>(bit_depth as int) && frame1.fits(frame2) && !hvs_sizes_ok(frame1) ==> ret is Err,
        width_ok::<T>(bit_depth as int) && frame1.fits(frame2) && hvs_sizes_ok(frame1) ==> ret is Ok && frame_hvs_is(ret->Ok_0, frame1, frame2, bit_depth as int, chroma_sampling),
%at start
    broadcast use fl;
%at let result
    proof {
        let r = result;
        assert(plane_of(r, 0) == r.y@ && plane_of(r, 1) == r.u@ && plane_of(r, 2) == r.v@);
        assert(hvs_size_ok(&frame1.planes[0]) && hvs_size_ok(&frame1.planes[1]) && hvs_size_ok(&frame1.planes[2]));
        hvs_pos(&frame1.planes[0], &frame2.planes[0], 0, bit_depth as int); hvs_pos(&frame1.planes[1], &frame2.planes[1], 1, bit_depth as int); hvs_pos(&frame1.planes[2], &frame2.planes[2], 2, bit_depth as int);
        let cw = weight_of(chroma_sampling);
        weighted(r.y@, r.u@, r.v@, 1real, cw);
        by_one(r.y@); by_one(r.u@); by_one(r.v@); by_one((1real + 2real * cw) * (r.y@ + cw * (r.u@ + r.v@)));
    }
%endfn

%fn PsnrHvs::aggregate_frame_results
%spec
    requires metrics@.len() > 0, self.cweight matches Some(c) ==> c@ >= 0real, no_negative(metrics@),
    ensures ret is Ok, video_hvs_is(ret->Ok_0, metrics@, match self.cweight { Some(c) => c@, None => 1real }),
%at start
    broadcast use fl;
%loop 1
    invariant acc__1@ == sum_of(metrics@, 0, i__2 as int),
%loop 2
    invariant acc__4@ == sum_of(metrics@, 1, i__5 as int),
%loop 3
    invariant acc__7@ == sum_of(metrics@, 2, i__8 as int),
%at let sum_v
    proof {
        let (n, k) = (metrics@.len() as real, metrics@.len() as int);
        sum_pos(metrics@, 0, k); sum_pos(metrics@, 1, k); sum_pos(metrics@, 2, k);
        recip(sum_y@, n); recip(sum_u@, n); recip(sum_v@, n);
        weighted(sum_y@, sum_u@, sum_v@, n, cweight@);
    }
%endfn

%raw
impl VideoMetric for PsnrHvs {
    type FrameResult = PlanarMetrics;
    type VideoResult = PlanarMetrics;
    open spec fn ready(&self, c: ChromaSampling) -> bool { self.cweight matches Some(w) && w@ == weight_of(c) }
    open spec fn input_ok<T: Pixel>(&self, p: (Frame<T>, Frame<T>), b: int) -> bool {
        frame_small(&p.0) && frame_small(&p.1) && 1 <= b <= 12 && frame_fits(&p.0, depth_max(b)) && frame_fits(&p.1, depth_max(b))
    }
    open spec fn scored<T: Pixel>(&self, p: (Frame<T>, Frame<T>), b: int, c: ChromaSampling, r: Result<PlanarMetrics, MetricsError>) -> bool { hvs_scored(&p.0, &p.1, b, r) }
    open spec fn count_ok(&self, n: int) -> bool { true }
    open spec fn agg_req(&self, ms: Seq<PlanarMetrics>) -> bool { self.cweight is Some && self.cweight->0@ >= 0real && no_negative(ms) }
    open spec fn pooled(&self, ms: Seq<PlanarMetrics>, r: Result<PlanarMetrics, MetricsError>) -> bool { r is Ok && video_hvs_is(r->Ok_0, ms, self.cweight->0@) }
    proof fn can_pool<T: Pixel>(&self, ps: Seq<(Frame<T>, Frame<T>)>, b: int, c: ChromaSampling, ms: Seq<PlanarMetrics>)
    {
        assert forall|i: int| #![trigger ms[i]] 0 <= i < ms.len() implies ms[i].y@ >= 0real && ms[i].u@ >= 0real && ms[i].v@ >= 0real by {
            assert(self.input_ok(ps[i], b) && self.scored(ps[i], b, c, Ok(ms[i])));
            hvs_scored_pos(&ps[i].0, &ps[i].1, b, ms[i]);
        }
    }
    fn process_frame<T: Pixel>(&self, frame1: &Frame<T>, frame2: &Frame<T>, bit_depth: usize, chroma_sampling: ChromaSampling) -> (ret: Result<PlanarMetrics, MetricsError>)
    { PsnrHvs::process_frame(self, frame1, frame2, bit_depth, chroma_sampling) }
    fn aggregate_frame_results(&self, metrics: &Vec<PlanarMetrics>) -> (ret: Result<PlanarMetrics, MetricsError>)
    { PsnrHvs::aggregate_frame_results(self, metrics.as_slice()) }
}
%end
%fn calculate_video_psnr_hvs
%sig fn calculate_video_psnr_hvs<D: VideoDecoder, F: Progress>(decoder1: &mut D, decoder2: &mut D, frame_limit: Option<usize>, progress_callback: F) -> (ret: Result<PlanarMetrics, MetricsError>)
%spec
    requires
        forall|m: PsnrHvs| #[trigger] m.ready(old(decoder1).details().chroma_sampling) ==> process_req(&m, *old(decoder1), *old(decoder2), frame_limit),
    ensures
        exists|m: PsnrHvs| m.ready(old(decoder1).details().chroma_sampling) && #[trigger] process_is(&m, *old(decoder1), *old(decoder2), frame_limit, progress_callback, ret),
%at start
    broadcast use fl;
%at let cweight
    proof { let m = PsnrHvs { cweight }; assert(m.ready(decoder1.details().chroma_sampling)); }
%endfn
