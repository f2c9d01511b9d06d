%include color.vx
%include plane.vx
%include compare.vx
%include frames.rs
%include decoder.rs
%include pipeline.rs
%include process.rs
%source av_metrics/src/video/ciede/mod.rs
%consts Colorspace
%struct FrameRow
%include ciede.rs
%raw
pub mod rows_scalar {
use super::*;
%end
%fconst K_SUB
    ensures ret.l@ == 0.65real, ret.c@ == 1real, ret.h@ == 4real
%fn DeltaEScalar::delta_e_scalar
%tself C: Colorspace
%spec
    requires
        known_depth(C::BIT_DEPTH as int),
        in_depth(yuv1.0 as int, C::BIT_DEPTH as int), in_depth(yuv1.1 as int, C::BIT_DEPTH as int), in_depth(yuv1.2 as int, C::BIT_DEPTH as int),
        in_depth(yuv2.0 as int, C::BIT_DEPTH as int), in_depth(yuv2.1 as int, C::BIT_DEPTH as int), in_depth(yuv2.2 as int, C::BIT_DEPTH as int),
    ensures ret@ == px_de(yuv1.0 as int, yuv1.1 as int, yuv1.2 as int, yuv2.0 as int, yuv2.1 as int, yuv2.2 as int, C::BIT_DEPTH as int)
%at start
    broadcast use fl;
    proof {
        let s = scale_of(C::BIT_DEPTH as int);
        shl_depth(C::BIT_DEPTH);
        scaled(yuv1.0 as real, s); scaled(yuv1.1 as real, s); scaled(yuv1.2 as real, s);
        scaled(yuv2.0 as real, s); scaled(yuv2.1 as real, s); scaled(yuv2.2 as real, s);
        rgb_in_range(yuv1.0 as int, yuv1.1 as int, yuv1.2 as int, C::BIT_DEPTH as int);
        rgb_in_range(yuv2.0 as int, yuv2.1 as int, yuv2.2 as int, C::BIT_DEPTH as int);
    }
%endfn
%fn DeltaEScalar::delta_e_row_scalar
%attr #[verifier::rlimit(60)]
%tself C: Colorspace
%spec
    requires
        known_depth(C::BIT_DEPTH as int), C::X_DECIMATION <= 1, old(res_row)@.len() <= 4294967296,
        rows_ok(row1, old(res_row)@.len() as int, C::X_DECIMATION as int, C::BIT_DEPTH as int), rows_ok(row2, old(res_row)@.len() as int, C::X_DECIMATION as int, C::BIT_DEPTH as int),
    ensures
        final(res_row)@.len() == old(res_row)@.len(),
        forall|i: int| 0 <= i < old(res_row)@.len() ==> (#[trigger] final(res_row)@[i])@ == row_de(row1, row2, i, C::X_DECIMATION as int, C::BIT_DEPTH as int),
%loop 1
    invariant
        res_row@.len() == old(res_row)@.len(), C::X_DECIMATION == 1, len__2 == res_row@.len(),
        forall|i: int| 0 <= i < i__1 ==> (#[trigger] res_row@[i])@ == row_de(row1, row2, i, C::X_DECIMATION as int, C::BIT_DEPTH as int),
%loop 2
    invariant
        res_row@.len() == old(res_row)@.len(), C::X_DECIMATION == 0, len__4 == res_row@.len(),
        forall|i: int| 0 <= i < i__3 ==> (#[trigger] res_row@[i])@ == row_de(row1, row2, i, C::X_DECIMATION as int, C::BIT_DEPTH as int),
%endfn
%raw
}
pub use rows_scalar::*;
%end
%include avx2.rs
%include avx.vx
%raw
pub mod rows_avx2 {
use super::*;
%end
%source av_metrics/src/video/ciede/mod.rs
%include avx2_rows.rs
%fn DeltaEAVX2::yuv_to_rgb
%tself C: Colorspace
%spec
    requires known_depth(C::BIT_DEPTH as int), lanes_ok(yuv, C::BIT_DEPTH as int)
    ensures
        forall|i: int| #![trigger ret.0.f(i)] #![trigger ret.1.f(i)] #![trigger ret.2.f(i)] 0 <= i < 8 ==> ({
            let s = scale_of(C::BIT_DEPTH as int);
            let (y, u, v) = (luma_r(yuv.0.f(i), s), chroma_r(yuv.1.f(i), s), chroma_r(yuv.2.f(i), s));
            ret.0.f(i) == red(y, u, v) && ret.1.f(i) == green(y, u, v) && ret.2.f(i) == blue(y, u, v) && rgb_ok(ret.0.f(i)) && rgb_ok(ret.1.f(i)) && rgb_ok(ret.2.f(i))
        }),
%at start
    broadcast use fl;
    let ghost s = scale_of(C::BIT_DEPTH as int);
    proof { shl_depth(C::BIT_DEPTH); }
%at let r
    assert forall|i: int| #![trigger y.f(i)] #![trigger u.f(i)] #![trigger v.f(i)] 0 <= i < 8 implies y.f(i) == luma_r(yuv.0.f(i), s) && u.f(i) == chroma_r(yuv.1.f(i), s) && v.f(i) == chroma_r(yuv.2.f(i), s)
        && v.f(i) * 1.28033real == 1.28033real * v.f(i) && u.f(i) * 2.12798real == 2.12798real * u.f(i)
        && u.f(i) * -0.21482real == -(0.21482real * u.f(i)) && v.f(i) * -0.38059real == -(0.38059real * v.f(i))
        && ({ let (a, b, c) = (y.f(i), u.f(i), v.f(i)); rgb_ok(red(a, b, c)) && rgb_ok(green(a, b, c)) && rgb_ok(blue(a, b, c)) }) by {
        scaled(yuv.0.f(i), s); scaled(yuv.1.f(i), s); scaled(yuv.2.f(i), s);
        rgb_in_range_r(yuv.0.f(i), yuv.1.f(i), yuv.2.f(i), C::BIT_DEPTH as int);
    }
%endfn
%fn DeltaEAVX2::delta_e_avx2
%tself C: Colorspace
%spec
    requires known_depth(C::BIT_DEPTH as int), lanes_ok(yuv1, C::BIT_DEPTH as int), lanes_ok(yuv2, C::BIT_DEPTH as int), old(res_chunk)@.len() == 8
    ensures final(res_chunk)@.len() == 8, forall|i: int| 0 <= i < 8 ==> (#[trigger] final(res_chunk)@[i])@ == lane_de(yuv1, yuv2, i, C::BIT_DEPTH as int)
%at start
    hide(de00);
%loop 1
    invariant
        res_chunk@.len() == 8,
        forall|j: int| 0 <= j < 8 ==> (#[trigger] lab1@[j])@ == lane_lab(yuv1, j, C::BIT_DEPTH as int),
        forall|j: int| 0 <= j < 8 ==> (#[trigger] lab2@[j])@ == lane_lab(yuv2, j, C::BIT_DEPTH as int),
        forall|j: int| 0 <= j < i ==> (#[trigger] res_chunk@[j])@ == lane_de(yuv1, yuv2, j, C::BIT_DEPTH as int),
%endfn
%fn DeltaEAVX2::delta_e_row_avx2
%attr #[verifier::rlimit(60)]
%tself C: Colorspace
%nested load_luma
%sig fn delta_e_row_avx2__load_luma(chunk: &[u8]) -> (ret: __m256)
%spec
    requires chunk@.len() >= 8
    ensures forall|i: int| 0 <= i < 8 ==> #[trigger] ret.f(i) == chunk@[i] as real
%endnested
%nested load_chroma
%sig fn delta_e_row_avx2__load_chroma(chunk: &[u8]) -> (ret: __m256)
%spec
    requires chunk@.len() >= 4
    ensures forall|i: int| 0 <= i < 8 ==> #[trigger] ret.f(i) == chunk@[i / 2] as real
%endnested
%nested load_luma_2
%sig fn delta_e_row_avx2__load_luma_2(chunk: &[u16]) -> (ret: __m256)
%spec
    requires chunk@.len() >= 8
    ensures forall|i: int| 0 <= i < 8 ==> #[trigger] ret.f(i) == chunk@[i] as real
%endnested
%nested load_chroma_2
%sig fn delta_e_row_avx2__load_chroma_2(chunk: &[u16]) -> (ret: __m256)
%spec
    requires chunk@.len() >= 4
    ensures forall|i: int| 0 <= i < 8 ==> #[trigger] ret.f(i) == chunk@[i / 2] as real
%endnested
%spec
    requires
        known_depth(C::BIT_DEPTH as int), C::X_DECIMATION == 1, old(res_row)@.len() <= 4294967296,
        rows_ok(row1, old(res_row)@.len() as int, 1, C::BIT_DEPTH as int), rows_ok(row2, old(res_row)@.len() as int, 1, C::BIT_DEPTH as int),
    ensures
        final(res_row)@.len() == old(res_row)@.len(),
        forall|i: int| 0 <= i < old(res_row)@.len() ==> (#[trigger] final(res_row)@[i])@ == row_de(row1, row2, i, 1, C::BIT_DEPTH as int),
%at start
    hide(row_de); hide(rows_ok); hide(lane_de);
    proof { rows_len(row1, res_row@.len() as int, C::BIT_DEPTH as int); rows_len(row2, res_row@.len() as int, C::BIT_DEPTH as int); }
%loop 1 isolated
    invariant
        known_depth(C::BIT_DEPTH as int), C::X_DECIMATION == 1, row1.y@.len() <= 4294967296, res_row@.len() == row1.y@.len(),
        rows_ok(row1, row1.y@.len() as int, 1, C::BIT_DEPTH as int), rows_ok(row2, row1.y@.len() as int, 1, C::BIT_DEPTH as int),
        C::BIT_DEPTH == 8, len__2 == cdiv(row1.y@.len() as int, 8),
        forall|i: int| 0 <= i < res_row@.len() && i < 8 * i__1 ==> (#[trigger] res_row@[i])@ == row_de(row1, row2, i, 1, C::BIT_DEPTH as int),
%at loop 1 start
    let ghost (nn, kk, bd) = (row1.y@.len() as int, i__1 as int, C::BIT_DEPTH as int);
    let ghost res0 = res_row@;
    proof { rows_len(row1, nn, bd); rows_step(row1, row2, nn, kk, bd); }
%at loop 1 end
    assert forall|i: int| 0 <= i < res_row@.len() && i < 8 * (kk + 1) implies (#[trigger] res_row@[i])@ == row_de(row1, row2, i, 1, bd) by {
        if i < 8 * kk { assert(res_row@[i] == res0[i]); } else { let j = i - 8 * kk; assert(i == 8 * kk + j); }
    }
%loop 2
    invariant len__5 == chunk1_y@.len(), acc__3@.len() == i__4, forall|j: int| 0 <= j < i__4 ==> (#[trigger] acc__3@[j]) as int == chunk1_y@[j].val(),
%loop 3
    invariant len__8 == chunk1_u@.len(), acc__6@.len() == i__7, forall|j: int| 0 <= j < i__7 ==> (#[trigger] acc__6@[j]) as int == chunk1_u@[j].val(),
%loop 4
    invariant len__11 == chunk1_v@.len(), acc__9@.len() == i__10, forall|j: int| 0 <= j < i__10 ==> (#[trigger] acc__9@[j]) as int == chunk1_v@[j].val(),
%loop 5
    invariant len__14 == chunk2_y@.len(), acc__12@.len() == i__13, forall|j: int| 0 <= j < i__13 ==> (#[trigger] acc__12@[j]) as int == chunk2_y@[j].val(),
%loop 6
    invariant len__17 == chunk2_u@.len(), acc__15@.len() == i__16, forall|j: int| 0 <= j < i__16 ==> (#[trigger] acc__15@[j]) as int == chunk2_u@[j].val(),
%loop 7
    invariant len__20 == chunk2_v@.len(), acc__18@.len() == i__19, forall|j: int| 0 <= j < i__19 ==> (#[trigger] acc__18@[j]) as int == chunk2_v@[j].val(),
%loop 8 isolated
    invariant
        known_depth(C::BIT_DEPTH as int), C::X_DECIMATION == 1, row1.y@.len() <= 4294967296, res_row@.len() == row1.y@.len(),
        rows_ok(row1, row1.y@.len() as int, 1, C::BIT_DEPTH as int), rows_ok(row2, row1.y@.len() as int, 1, C::BIT_DEPTH as int),
        C::BIT_DEPTH != 8, len__22 == cdiv(row1.y@.len() as int, 8),
        forall|i: int| 0 <= i < res_row@.len() && i < 8 * i__21 ==> (#[trigger] res_row@[i])@ == row_de(row1, row2, i, 1, C::BIT_DEPTH as int),
%at loop 8 start
    let ghost (nn, kk, bd) = (row1.y@.len() as int, i__21 as int, C::BIT_DEPTH as int);
    let ghost res0 = res_row@;
    proof { rows_len(row1, nn, bd); rows_step(row1, row2, nn, kk, bd); }
%at loop 8 end
    assert forall|i: int| 0 <= i < res_row@.len() && i < 8 * (kk + 1) implies (#[trigger] res_row@[i])@ == row_de(row1, row2, i, 1, bd) by {
        if i < 8 * kk { assert(res_row@[i] == res0[i]); } else { let j = i - 8 * kk; assert(i == 8 * kk + j); }
    }
%loop 9
    invariant len__25 == chunk1_y@.len(), acc__23@.len() == i__24, forall|j: int| 0 <= j < i__24 ==> (#[trigger] acc__23@[j]) as int == chunk1_y@[j].val(),
%loop 10
    invariant len__28 == chunk1_u@.len(), acc__26@.len() == i__27, forall|j: int| 0 <= j < i__27 ==> (#[trigger] acc__26@[j]) as int == chunk1_u@[j].val(),
%loop 11
    invariant len__31 == chunk1_v@.len(), acc__29@.len() == i__30, forall|j: int| 0 <= j < i__30 ==> (#[trigger] acc__29@[j]) as int == chunk1_v@[j].val(),
%loop 12
    invariant len__34 == chunk2_y@.len(), acc__32@.len() == i__33, forall|j: int| 0 <= j < i__33 ==> (#[trigger] acc__32@[j]) as int == chunk2_y@[j].val(),
%loop 13
    invariant len__37 == chunk2_u@.len(), acc__35@.len() == i__36, forall|j: int| 0 <= j < i__36 ==> (#[trigger] acc__35@[j]) as int == chunk2_u@[j].val(),
%loop 14
    invariant len__40 == chunk2_v@.len(), acc__38@.len() == i__39, forall|j: int| 0 <= j < i__39 ==> (#[trigger] acc__38@[j]) as int == chunk2_v@[j].val(),
%endfn
%raw
}
pub use rows_avx2::*;
%end
%include sampling.vx
%source av_metrics/src/video/ciede/mod.rs
%include ciede_frame.rs
%include ciede_laws.rs
%struct Ciede2000
%fn chroma_row
%spec
    requires plane.wf(), plane.w() > 0 ==> y < plane.h(), y <= 4294967296
    ensures ret@ == (if plane.w() == 0 { neutral@ } else { plane.data@.subrange(plane.pos(0, y as int), plane.pos(plane.w(), y as int)) })
%endfn
%fn get_delta_e_row_fn
%fnvalues RowFn
%sig fn get_delta_e_row_fn(bit_depth: usize, xdec: usize, simd: bool) -> (ret: RowFn)
%spec
    requires known_depth(bit_depth as int), xdec <= 1
    ensures fn_depth(ret) == bit_depth, fn_xdec(ret) == xdec
%endfn
%fn Ciede2000::process_frame
%attr #[verifier::rlimit(60)]
%specials
%fnvar delta_e_row_fn call_row
%spec
    requires ciede_in(frame1, bit_depth as int), ciede_in(frame2, bit_depth as int),
    ensures ciede_scored(frame1, frame2, bit_depth as int, chroma_sampling, ret),
%at start
    hide(px_de); hide(row_de); hide(pixel_de); hide(is_row); hide(rows_ok);
    broadcast use fl;
    let ghost (w, h, c, b) = (frame1.planes[0].w(), frame1.planes[0].h(), chroma_sampling, bit_depth as int);
%loop 1
    invariant
        len__4 == 2,
        acc__1 == !(forall|k: int| 0 <= k < i__3 ==> has_chroma_dims(#[trigger] &frame1.planes[k + 1], c, w, h)),
%at let dec
    assert(chroma_ok(frame1, c)) by { assert(has_chroma_dims(&frame1.planes[0int + 1], c, w, h) && has_chroma_dims(&frame1.planes[1int + 1], c, w, h)); }
    assert(dec.0 == cdec(c).0 && dec.1 == cdec(c).1);
    proof { neutral_value(bit_depth); reveal(frame_ready); depth_values(); T::sizes(); shr_half((w + 1) as usize, 1); }
    assert(frame_ready(frame1, c, b) && frame_ready(frame2, c, b));
%loop 2 isolated
    invariant
        len__7 == y_height, y_height == h, y_width == w, h == frame1.planes[0].h(), w == frame1.planes[0].w(), w <= 4294967296, h <= 4294967296,
        frame1.fits(frame2), frame1.wf(), frame2.wf(), frame_ready(frame1, c, b), frame_ready(frame2, c, b), neutral_seq(neutral_row@, w, b),
        fn_depth(delta_e_row_fn) == b, fn_xdec(delta_e_row_fn) == dec.0, dec.0 == cdec(c).0, dec.1 == cdec(c).1,
        acc__5@ == lines_de(frame1, frame2, c, b, i__6 as int),
%at loop 2 start
    broadcast use fl;
    proof {
        shr_half(i__6, dec.1);
        frame_row(frame1, i__6 as int, c, b, neutral_row@); frame_row(frame2, i__6 as int, c, b, neutral_row@);
        row_pixels(frame1, frame2, i__6 as int, c, b);
    }
%at let delta_e_vec
    assert(delta_e_vec@.len() == w);
%at loop 3 before
    assert(row_is(delta_e_vec@, frame1, frame2, i__6 as int, c, b));
%loop 3
    invariant acc__8@ == line_de(frame1, frame2, i__6 as int, c, b, i__9 as int), row_is(delta_e_vec@, frame1, frame2, i__6 as int, c, b), len__10 == delta_e_vec@.len(),
%at let score
    proof {
        ax_minus_infinity();
        if w > 0 && h > 0 {
            mean_pos(frame1, frame2, c, b);
            let m = mean_de(frame1, frame2, c, b);
            assert(y_width * y_height == w * h);
            assert(rmin(score@, 100real) == ciede_of(m));
        }
    }
%endfn
%fn Ciede2000::aggregate_frame_results
%specials
%spec
    ensures ret is Ok, metrics@.len() > 0 ==> ret->Ok_0@ == sum_all(metrics@, metrics@.len() as int) / metrics@.len() as real
%at start
    broadcast use fl;
%loop 1
    invariant acc__1@ == sum_all(metrics@, i__2 as int),
%endfn
%raw
impl VideoMetric for Ciede2000 {
    type FrameResult = Fl;
    type VideoResult = Fl;
    open spec fn ready(&self, c: ChromaSampling) -> bool { true }
    open spec fn input_ok<T: Pixel>(&self, p: (Frame<T>, Frame<T>), b: int) -> bool { ciede_in(&p.0, b) && ciede_in(&p.1, b) }
    open spec fn scored<T: Pixel>(&self, p: (Frame<T>, Frame<T>), b: int, c: ChromaSampling, r: Result<Fl, MetricsError>) -> bool { ciede_scored(&p.0, &p.1, b, c, r) }
    open spec fn count_ok(&self, n: int) -> bool { true }
    open spec fn agg_req(&self, ms: Seq<Fl>) -> bool { true }
    open spec fn pooled(&self, ms: Seq<Fl>, r: Result<Fl, MetricsError>) -> bool { r is Ok && r->Ok_0@ == sum_all(ms, ms.len() as int) / ms.len() as real }
    proof fn can_pool<T: Pixel>(&self, ps: Seq<(Frame<T>, Frame<T>)>, b: int, c: ChromaSampling, ms: Seq<Fl>) {}
    fn process_frame<T: Pixel>(&self, frame1: &Frame<T>, frame2: &Frame<T>, bit_depth: usize, chroma_sampling: ChromaSampling) -> (ret: Result<Fl, MetricsError>)
    { Ciede2000::process_frame(self, frame1, frame2, bit_depth, chroma_sampling) }
    fn aggregate_frame_results(&self, metrics: &Vec<Fl>) -> (ret: Result<Fl, MetricsError>)
    { Ciede2000::aggregate_frame_results(self, metrics.as_slice()) }
}
%end
%fn Ciede2000::default as vx_default
%endfn
%fn calculate_frame_ciede
%spec
    requires ciede_in(frame1, bit_depth as int), ciede_in(frame2, bit_depth as int),
    ensures ciede_scored(frame1, frame2, bit_depth as int, chroma_sampling, ret),
%endfn
%fn calculate_frame_ciede_nosimd
%spec
    requires ciede_in(frame1, bit_depth as int), ciede_in(frame2, bit_depth as int),
    ensures ciede_scored(frame1, frame2, bit_depth as int, chroma_sampling, ret),
%endfn
%fn calculate_video_ciede
%sig fn calculate_video_ciede<D: VideoDecoder, F: Progress>(decoder1: &mut D, decoder2: &mut D, frame_limit: Option<usize>, progress_callback: F) -> (ret: Result<Fl, MetricsError>)
%spec
    requires forall|m: Ciede2000| #[trigger] process_req(&m, *old(decoder1), *old(decoder2), frame_limit),
    ensures exists|m: Ciede2000| #[trigger] process_is(&m, *old(decoder1), *old(decoder2), frame_limit, progress_callback, ret),
%endfn
%fn calculate_video_ciede_nosimd
%sig fn calculate_video_ciede_nosimd<D: VideoDecoder, F: Progress>(decoder1: &mut D, decoder2: &mut D, frame_limit: Option<usize>, progress_callback: F) -> (ret: Result<Fl, MetricsError>)
%spec
    requires forall|m: Ciede2000| #[trigger] process_req(&m, *old(decoder1), *old(decoder2), frame_limit),
    ensures exists|m: Ciede2000| #[trigger] process_is(&m, *old(decoder1), *old(decoder2), frame_limit, progress_callback, ret),
%endfn
