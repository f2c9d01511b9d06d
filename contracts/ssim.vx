%include num.rs
%include fl.rs
%include plane.vx
%include compare.vx
%include ssim_math.rs
%include ssim_kernel.rs
%include frames.rs
%include ssim_frames.rs
%include msssim.rs
%include ssim_laws.rs
%include decoder.rs
%include pipeline.rs
%include process.rs
%source av_metrics/src/video/ssim.rs
%struct SsimMoments
%struct Ssim
%struct MsSsim
%fconst SSIM_K1
    ensures ret@ == 0.0001real
%fconst SSIM_K2
    ensures ret@ == 0.0009real
%fn calculate_plane_ssim_internal
%spec
    requires
        pic_ok(pic(plane1@, plane2@, width, height, vert_kernel@, horiz_kernel@), sample_max as int),
    ensures
        ret.0@ == mean_ssim(pic(plane1@, plane2@, width, height, vert_kernel@, horiz_kernel@), sample_max as int),
        ret.1@ == mean_con(pic(plane1@, plane2@, width, height, vert_kernel@, horiz_kernel@), sample_max as int),
%at start
    broadcast use fl;
    let ghost p = pic(plane1@, plane2@, width, height, vert_kernel@, horiz_kernel@);
    let ghost sm = sample_max as int;
    proof {
        assert(ker_ok(p.vk) && ker_ok(p.hk) && 0 < p.h <= 4294967296 && 0 < p.w <= 4294967296 && smax_ok(sm)) by {
            reveal(pic_ok);
            assert(p.h <= p.w * p.h && p.w <= p.w * p.h) by(nonlinear_arith) requires p.h >= 1, p.w >= 1;
        }
        ker_parts(p.vk, 0);
        ker_parts(p.hk, 0);
    }
    let ghost (vo, ho) = (p.vk.len() as int / 2, p.hk.len() as int / 2);
%at let vert_offset
    proof { shr_one(vert_kernel.len()); }
%at let horiz_offset
    proof { shr_one(horiz_kernel.len()); assert(vert_offset == vo && horiz_offset == ho); }
    let ghost lp = choose|k: nat| k < 64 && line_size == #[trigger] vstd::arithmetic::power2::pow2(k);
%loop 1 isolated
    invariant
        p == pic(plane1@, plane2@, width, height, vert_kernel@, horiz_kernel@), sm == sample_max, pic_ok(p, sm),
        vo == p.vk.len() as int / 2, ho == p.hk.len() as int / 2, vert_offset == vo, horiz_offset == ho,
        ker_ok(p.vk), ker_ok(p.hk), 0 < p.h <= 4294967296, 0 < p.w, p.w <= 4294967296, smax_ok(sm),
        p.vk.len() <= 0x4000_0000, p.hk.len() <= 0x4000_0000,
        lp < 64, line_size == vstd::arithmetic::power2::pow2(lp), line_mask == line_size - 1, line_size >= 1, line_size >= p.vk.len(),
        lines@.len() == line_size,
        ring_is(lines@, p, y as int),
        ssim@ == tot(p, sm, 0, 0, imax(y - vo, 0)),
        cs@ == tot(p, sm, 1, 0, imax(y - vo, 0)),
        ssimw@ == tot(p, sm, 2, 0, imax(y - vo, 0)),
%at loop 1 start
    broadcast use fl;
    let ghost lines0 = lines@;
    proof {
        ker_parts(p.vk, 0);
        ker_parts(p.hk, 0);
        mask_mod(y, line_size, lp);
        if y < height { at(p, sm, 0, y as int); }
    }
%at let buf
    proof {
        reveal(ring_is);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y as int, line_size as int);
    }
%loop 2 isolated
    invariant
        p == pic(plane1@, plane2@, width, height, vert_kernel@, horiz_kernel@), sm == sample_max, pic_ok(p, sm),
        ho == p.hk.len() as int / 2, horiz_offset == ho, ker_ok(p.hk), p.hk.len() <= 0x4000_0000, p.w <= 4294967296, smax_ok(sm),
        0 <= y < p.h, line1@ == plane1@.subrange(y * width, plane1@.len() as int), line2@ == plane2@.subrange(y * width, plane2@.len() as int),
        buf@.len() == width,
        row_is(buf@, p, y as int, x as int),
%at loop 2 start
    proof { ker_parts(p.hk, 0); at(p, sm, x as int, y as int); }
%loop 3 isolated
    invariant
        p == pic(plane1@, plane2@, width, height, vert_kernel@, horiz_kernel@), sm == sample_max, pic_ok(p, sm),
        ho == p.hk.len() as int / 2, horiz_offset == ho, ker_ok(p.hk), p.hk.len() <= 0x4000_0000, p.w <= 4294967296, smax_ok(sm),
        0 <= y < p.h, line1@ == plane1@.subrange(y * width, plane1@.len() as int), line2@ == plane2@.subrange(y * width, plane2@.len() as int),
        0 <= x < width, k_min == imax(ho - x, 0), k_max == imin(p.hk.len() as int, width + ho - x),
        mv(moments) == hsum(p, x as int, y as int, k as int),
%at loop 3 before
    proof { hsum_skip(p, x as int, y as int, 0, k_min as int); }
%at loop 3 start
    proof {
        let (xx, yy, kk) = (x as int, y as int, k as int);
        ker_parts(p.hk, kk);
        at(p, sm, xx + kk - ho, yy);
        hsum_ok(p, sm, xx, yy, kk);
        hsum_ok(p, sm, xx, yy, kk + 1);
        hterm_ok(p, sm, xx, yy, kk);
        mok_bounds(hsum(p, xx, yy, kk), sm, 1024);
        mok_bounds(hsum(p, xx, yy, kk + 1), sm, 1024);
        mok_bounds(hterm(p, xx, yy, kk), sm, 1024);
        let (a, b) = (p.a[yy * p.w + (xx + kk - ho)] as int, p.b[yy * p.w + (xx + kk - ho)] as int);
        let g = p.hk[kk] as int;
        assert(g * a * a == g * (a * a) && g * a * b == g * (a * b) && g * b * b == g * (b * b)) by(nonlinear_arith);
    }
%at loop 3 after
    proof { hsum_skip(p, x as int, y as int, k_max as int, p.hk.len() as int); }
%at loop 2 after
    proof { assert(row_is(buf@, p, y as int, p.w)); }
%at loop 4 before
    proof { ring_step(lines0, lines@, p, y as int); }
%loop 4 isolated
    invariant
        p == pic(plane1@, plane2@, width, height, vert_kernel@, horiz_kernel@), sm == sample_max, pic_ok(p, sm),
        vo == p.vk.len() as int / 2, vert_offset == vo, ker_ok(p.vk), p.vk.len() <= 0x4000_0000, p.w <= 4294967296, smax_ok(sm),
        lp < 64, line_size == vstd::arithmetic::power2::pow2(lp), line_mask == line_size - 1, line_size >= 1,
        lines@.len() == line_size, ring_is(lines@, p, y + 1),
        0 <= y - vo < p.h, p.h <= 4294967296,
        k_min == imax(p.vk.len() - (y + 1), 0), k_max == imin(p.vk.len() as int, p.vk.len() - (y + 1 - p.h)),
        ssim@ == tot(p, sm, 0, x as int, y - vo),
        cs@ == tot(p, sm, 1, x as int, y - vo),
        ssimw@ == tot(p, sm, 2, x as int, y - vo),
%at loop 4 start
    broadcast use fl;
    proof { ker_parts(p.vk, 0); vsum_skip(p, x as int, y - vo, 0, k_min as int); }
%loop 5 isolated
    invariant
        p == pic(plane1@, plane2@, width, height, vert_kernel@, horiz_kernel@), sm == sample_max, pic_ok(p, sm),
        vo == p.vk.len() as int / 2, ker_ok(p.vk), p.vk.len() <= 0x4000_0000, p.w <= 4294967296, smax_ok(sm),
        lp < 64, line_size == vstd::arithmetic::power2::pow2(lp), line_mask == line_size - 1, line_size >= 1,
        lines@.len() == line_size, ring_is(lines@, p, y + 1),
        0 <= y - vo < p.h, p.h <= 4294967296, 0 <= x < p.w,
        k_min == imax(p.vk.len() - (y + 1), 0), k_max == imin(p.vk.len() as int, p.vk.len() - (y + 1 - p.h)),
        mv(moments) == vsum(p, x as int, y - vo, k as int),
%at loop 5 start
    proof {
        let (xx, yy, kk) = (x as int, y - vo, k as int);
        ker_parts(p.vk, kk);
        let r = yy + kk - vo;
        assert(r == y + 1 + k - p.vk.len());
        mask_mod((y + 1 + k - vert_kernel.len()) as usize, line_size, lp);
        ring_row(lines@, p, y as int, r);
        assert(mv(lines@[r % (line_size as int)]@[xx]) == hall(p, xx, r));
        vsum_ok(p, sm, xx, yy, kk);
        vsum_ok(p, sm, xx, yy, kk + 1);
        vterm_ok(p, sm, xx, yy, kk);
        assert(1024 * p.vk[kk] <= 1048576);
        mok_bounds(vsum(p, xx, yy, kk), sm, 1048576);
        mok_bounds(vsum(p, xx, yy, kk + 1), sm, 1048576);
        mok_bounds(vterm(p, xx, yy, kk), sm, 1048576);
    }
%at loop 5 after
    proof {
        let (xx, yy) = (x as int, y - vo);
        vsum_skip(p, xx, yy, k_max as int, p.vk.len() as int);
        window_ok(p, sm, xx, yy);
        denominators(window(p, xx, yy), sm, sm);
        assert(0 <= sm * sm <= 1099511627776) by(nonlinear_arith) requires 0 <= sm <= 1048576;
        reveal_with_fuel(r_powi, 3);
    }
%at loop 1 end
    proof {
        ring_step(lines0, lines@, p, y as int);
    }
%at loop 1 before
    proof { ring_start(lines@, p); }
%at loop 1 after
    proof { tot_weight(p, sm, 0, p.h); assert(p.h > 0) by { reveal(pic_ok); } }
%endfn

%fn build_gaussian_kernel
%specials
%spec
    requires
        1 <= kernel_weight <= 1024, max_len <= 4294967296, max_len == 0 || sigma_ok(sigma@),
    ensures is_gauss(ret@, sigma@, max_len as int, kernel_weight as int),
%at start
    broadcast use fl;
    let ghost (sg, kw) = (sigma@, kernel_weight as int);
    proof {
        ax_pi(); ax_e();
        if max_len > 0 { g_scale(sg); gauss_reach(sg, kw); }
        ax_floor(sg * r_sqrt((-2real) * r_log(g_err(sg, kw), r_e())));
        ax_floor(r_floor(sg * r_sqrt((-2real) * r_log(g_err(sg, kw), r_e()))) as real);
        reveal_with_fuel(r_powi, 3);
    }
%at let s
    proof { assert(s@ == g_err(sg, kw)); }
%at let len
    proof { assert(max_len > 0 ==> (len == g_reach(sg, kw) || g_reach(sg, kw) >= usize::MAX)); assert(max_len > 0 ==> len == g_reach(sg, kw)); }
%at let kernel_len
    proof { assert(kernel_len == g_len(sg, max_len as int, kw)); }
%at let kernel_size
    proof { odd_size(kernel_len); }
%loop 1 isolated
    invariant
        sg == sigma@, kw == kernel_weight, 1 <= kw <= 1024, kernel_len > 0 ==> sigma_ok(sg),
        kernel_len < 4294967296, kernel@.len() == 2 * kernel_len + 1,
        scale@ == 1real / (r_sqrt(2real * r_pi()) * sg) || kernel_len == 0,
        nhisigma2@ == (-0.5real) / r_powi(sg, 2) || kernel_len == 0,
        sum == g_sum(sg, kw, ci - 1),
        forall|i: int| 0 <= i < kernel@.len() && 1 <= iabs(i - kernel_len) < ci ==> #[trigger] kernel@[i] == g_at(sg, kw, kernel_len as int, i),
%at loop 1 start
    broadcast use fl;
    proof {
        assert(0 <= ci * ci <= 18446744073709551615) by(nonlinear_arith) requires 0 <= ci <= 4294967295;
        g_coef_ok(sg, kw, ci as int);
        g_sum_ok(sg, kw, ci - 1);
        coef_range(sg, kw, ci as int);
    }
%at loop 1 after
    proof {
        reveal(is_gauss);
        if kernel_len > 0 { g_sum_ok(sg, kw, kernel_len as int); }
        shl_sum(sum);
    }
%endfn

%fn plane_to_vec
%spec
    requires input.wf()
    ensures ret@ == vals(input)
%loop 1
    invariant
        acc__1@ == vals(input).take(i__3 as int), vis__2@ == input.samples(),
%at loop 1 end
    proof { assert(acc__1@ =~= vals(input).take(i__3 + 1)); }
%at loop 1 after
    proof { assert(acc__1@ =~= vals(input)); }
%endfn

%fn calculate_plane_ssim
%spec
    requires
        plane1.wf(), plane2.wf(), plane1.cfg == plane2.cfg, small(plane1), smax_ok(sample_max as int),
        fits_max(plane1, sample_max as int), fits_max(plane2, sample_max as int),
        plane1.w() > 0 && plane1.h() > 0 ==> ker_ok(vert_kernel@) && ker_ok(horiz_kernel@),
    ensures ret@ == plane_ssim(plane1, plane2, sample_max as int, vert_kernel@, horiz_kernel@)
%at start
    proof {
        if plane1.w() > 0 && plane1.h() > 0 { pic_of(plane1, plane2, sample_max as int, vert_kernel@, horiz_kernel@); }
    }
%endfn

%fn log10_convert
%specials
%spec
    requires weight@ > 0real
    ensures ret@ == db(score@, weight@)
%at start
    broadcast use fl;
%endfn

%source av_metrics/src/video/mod.rs
%fn ChromaSampling::get_chroma_weight
%spec
    ensures ret@ == weight_of(self)
%endfn

%source av_metrics/src/video/ssim.rs
%fn Ssim::process_frame
%spec
    requires
        frame_small(frame1), frame_small(frame2), 1 <= bit_depth <= 16,
        frame_fits(frame1, depth_max(bit_depth as int)), frame_fits(frame2, depth_max(bit_depth as int)),
    ensures
        ssim_scored(frame1, frame2, bit_depth as int, ret),
%at start
    broadcast use fl;
    proof {
        shl_one64(bit_depth);
        depth_ok(bit_depth as int);
        assert(1usize << 8usize == 256) by(bit_vector);
        gauss_sigma_ok(frame1.planes[0].h());
        gauss_sigma_ok(frame1.planes[1].h());
        gauss_sigma_ok(frame1.planes[2].h());
    }
%at let y_kernel
    proof { if frame1.planes[0].w() > 0 && frame1.planes[0].h() > 0 { ssim_window_ok(y_kernel@, &frame1.planes[0]); } }
%at let u_kernel
    proof { if frame1.planes[1].w() > 0 && frame1.planes[1].h() > 0 { ssim_window_ok(u_kernel@, &frame1.planes[1]); } }
%at let v_kernel
    proof { if frame1.planes[2].w() > 0 && frame1.planes[2].h() > 0 { ssim_window_ok(v_kernel@, &frame1.planes[2]); } }
%endfn

%fn calculate_frame_ssim
%spec
    requires
        frame_small(frame1), frame_small(frame2), 1 <= bit_depth <= 16,
        frame_fits(frame1, depth_max(bit_depth as int)), frame_fits(frame2, depth_max(bit_depth as int)),
    ensures
        !width_ok::<T>(bit_depth as int) || !frame1.fits(frame2) ==> is_mismatch(ret),
        width_ok::<T>(bit_depth as int) && frame1.fits(frame2) ==> ret is Ok && frame_ssim_is(ret->Ok_0, frame1, frame2, bit_depth as int, chroma_sampling),
%at start
    broadcast use fl;
%at let result
    proof { let r = result; assert(plane_of(r, 0) == r.y@ && plane_of(r, 1) == r.u@ && plane_of(r, 2) == r.v@); }
%endfn

%fn Ssim::aggregate_frame_results
%spec
    requires metrics@.len() > 0, self.cweight matches Some(c) ==> c@ >= 0real,
    ensures ret is Ok, video_db(ret->Ok_0, metrics@, match self.cweight { Some(c) => c@, None => 1real }),
%at start
    broadcast use fl;
%loop 1
    invariant acc__1@ == sum_of(metrics@, 0, i__2 as int),
%loop 2
    invariant acc__4@ == sum_of(metrics@, 1, i__5 as int),
%loop 3
    invariant acc__7@ == sum_of(metrics@, 2, i__8 as int),
%at let v_sum
    proof { mul_pos(1real + 2real * cweight@, metrics@.len() as real); }
%endfn


%fn msssim_downscale
%spec
    requires
        input@.len() == input_width * input_height, input_width * input_height <= 4294967296, below(input@, 0x1000_0000),
        0 < input_width <= 4294967296, 0 < input_height <= 4294967296,
    ensures ret@ == down(input@, input_width as int, input_height as int),
%at start
    let ghost (w, h) = (input_width as int, input_height as int);
    proof { down_ok(input@, w, h, 0x1000_0000); assert(0 * (w / 2) == 0) by(nonlinear_arith); }
%loop 1 isolated
    invariant
        w == input_width, h == input_height, input@.len() == w * h, w * h <= 4294967296, 0 < w <= 4294967296, 0 < h <= 4294967296,
        below(input@, 0x1000_0000), output_width == w / 2, output_height == h / 2,
        output@.len() == (w / 2) * (h / 2), (w / 2) * (h / 2) <= w * h,
        forall|i: int| 0 <= i < j * (w / 2) ==> output@[i] == #[trigger] down(input@, w, h)[i],
%at loop 1 end
    proof { assert((j + 1) * (w / 2) == j * (w / 2) + w / 2) by(nonlinear_arith); }
%at loop 1 after
    proof {
        assert(output_height as int * (w / 2) == (w / 2) * (h / 2)) by(nonlinear_arith) requires output_height == h / 2;
        assert(output@ =~= down(input@, w, h));
    }
%loop 2 isolated
    invariant
        w == input_width, h == input_height, input@.len() == w * h, w * h <= 4294967296, 0 < w <= 4294967296, 0 < h <= 4294967296,
        below(input@, 0x1000_0000), output_width == w / 2, output_height == h / 2, j < output_height, j0 == 2 * j, j1 == 2 * j + 1,
        output@.len() == (w / 2) * (h / 2), (w / 2) * (h / 2) <= w * h,
        forall|k: int| 0 <= k < j * (w / 2) + i ==> output@[k] == #[trigger] down(input@, w, h)[k],
%at loop 2 start
    proof {
        block_at(input@, w, h, 0x1000_0000, i as int, j as int);
        down_at(input@, w, h, i as int, j as int);
        assert(2 * j * w == j0 * w && (2 * j + 1) * w == j1 * w);
    }
%endfn

%fn calculate_plane_msssim
%specials
%spec
    requires
        plane1.wf(), plane2.wf(), plane1.cfg == plane2.cfg, small(plane1), plane_size_ok(plane1), 1 <= bit_depth <= 12,
        fits_max(plane1, depth_max(bit_depth as int)), fits_max(plane2, depth_max(bit_depth as int)),
    ensures ret@ == ms_score(plane1, plane2, depth_max(bit_depth as int)),
%at start
    broadcast use fl;
    let ghost (a0, b0, w0, h0, sm) = (vals(plane1), vals(plane2), plane1.w(), plane1.h(), depth_max(bit_depth as int));
    proof {
        shl_one64(bit_depth);
        depth_ok(bit_depth as int);
        assert(1usize << 10usize == 1024) by(bit_vector);
        assert forall|i: int| 0 <= i < w0 * h0 implies 0 <= #[trigger] a0[i] <= sm by { plane1.samples()[i].val_range(); assert(plane1.samples()[i].val() <= sm); }
        assert forall|i: int| 0 <= i < w0 * h0 implies 0 <= #[trigger] b0[i] <= sm by { plane2.samples()[i].val_range(); assert(plane2.samples()[i].val() <= sm); }
        assert(0 <= w0 * h0) by(nonlinear_arith) requires w0 >= 0, h0 >= 0;
        scale_start(a0, w0, h0, sm);
        scale_start(b0, w0, h0, sm);
    }
%at let kernel
    proof {
        ms_window(kernel@);
        scale_pic_ok(plane1@, plane2@, width as int, height as int, sm, a0, b0, w0, h0, 0);
    }
%loop 1 isolated
    invariant
        w0 >= 16, h0 >= 16, 1 <= sm <= 4095, kernel@ == gauss(1.5real, 5, 1024), ker_ok(kernel@),
        1 <= i <= 5, sample_max == sm * four(i - 1),
        width == half(w0, i - 1), height == half(h0, i - 1),
        scale_ok(plane1@, width as int, height as int, sample_max as int, a0, w0, h0, i - 1),
        scale_ok(plane2@, width as int, height as int, sample_max as int, b0, w0, h0, i - 1),
        forall|k: int| 0 <= k < i ==> (#[trigger] ssim[k])@ == ms_sim(a0, b0, w0, h0, sm, k),
        forall|k: int| 0 <= k < i ==> (#[trigger] cs[k])@ == ms_con(a0, b0, w0, h0, sm, k),
%at loop 1 start
    proof {
        half_pos(w0, i - 1); half_pos(h0, i - 1); half_pos(w0, i as int); half_pos(h0, i as int);
        reveal_with_fuel(four, 6);
        assert(1 <= four(i - 1) <= 64);
        assert(1 <= sm * four(i - 1) <= 262080) by(nonlinear_arith) requires 1 <= sm <= 4095, 1 <= four(i - 1) <= 64;
        scale_step(plane1@, width as int, height as int, sample_max as int, a0, w0, h0, i as int);
        scale_step(plane2@, width as int, height as int, sample_max as int, b0, w0, h0, i as int);
        assert(plane1@.len() == width * height && width * height <= 4294967296 && below(plane1@, 0x1000_0000) && plane2@.len() == width * height && below(plane2@, 0x1000_0000)
            && width <= 4294967296 && height <= 4294967296) by { reveal(scale_ok); }
        scale_pic_ok(down(plane1@, width as int, height as int), down(plane2@, width as int, height as int), width as int / 2, height as int / 2, 4 * sample_max, a0, b0, w0, h0, i as int);
        assert(4 * (sm * four(i - 1)) == sm * (4 * four(i - 1))) by(nonlinear_arith);
    }
%loop 2
    invariant
        len__3 == 4,
        acc__1@ == ms_part(a0, b0, w0, h0, sm, i__2 as int),
        forall|k: int| 0 <= k < 5 ==> (#[trigger] ssim[k])@ == ms_sim(a0, b0, w0, h0, sm, k),
        forall|k: int| 0 <= k < 5 ==> (#[trigger] cs[k])@ == ms_con(a0, b0, w0, h0, sm, k),
        MS_WEIGHT[0]@ == 0.0448real, MS_WEIGHT[1]@ == 0.2856real, MS_WEIGHT[2]@ == 0.3001real, MS_WEIGHT[3]@ == 0.2363real, MS_WEIGHT[4]@ == 0.1333real,
%endfn

%fn MsSsim::process_frame
%spec
    requires
        frame_small(frame1), frame_small(frame2), 1 <= bit_depth <= 12,
        frame_fits(frame1, depth_max(bit_depth as int)), frame_fits(frame2, depth_max(bit_depth as int)),
    ensures
        ms_scored(frame1, frame2, bit_depth as int, ret),
%at start
    broadcast use fl;
    proof { shl_one64(bit_depth); depth_ok(bit_depth as int); }
%loop 1
    invariant
        len__3 == 3,
        acc__1 == !(forall|c: int| 0 <= c < i__2 ==> plane_size_ok(&#[trigger] frame1.planes[c])),
%endfn

%fn calculate_frame_msssim
%spec
    requires
        frame_small(frame1), frame_small(frame2), 1 <= bit_depth <= 12,
        frame_fits(frame1, depth_max(bit_depth as int)), frame_fits(frame2, depth_max(bit_depth as int)),
    ensures
        !width_ok::<T>(bit_depth as int) || !frame1.fits(frame2) ==> is_mismatch(ret),
        width_ok::<T>(bit_depth as int) && frame1.fits(frame2) && !size_ok(frame1) ==> ret is Err,
        width_ok::<T>(bit_depth as int) && frame1.fits(frame2) && size_ok(frame1) ==> ret is Ok && frame_msssim_is(ret->Ok_0, frame1, frame2, bit_depth as int, chroma_sampling),
%at start
    broadcast use fl;
%at let result
    proof { let r = result; assert(plane_of(r, 0) == r.y@ && plane_of(r, 1) == r.u@ && plane_of(r, 2) == r.v@); }
%endfn

%fn MsSsim::aggregate_frame_results
%spec
    requires metrics@.len() > 0, self.cweight is Some, self.cweight->0@ >= 0real,
    ensures ret is Ok, video_db(ret->Ok_0, metrics@, self.cweight->0@),
%at start
    broadcast use fl;
%loop 1
    invariant acc__1@ == sum_of(metrics@, 0, i__2 as int),
%loop 2
    invariant acc__4@ == sum_of(metrics@, 1, i__5 as int),
%loop 3
    invariant acc__7@ == sum_of(metrics@, 2, i__8 as int),
%at let v_sum
    proof { mul_pos(1real + 2real * cweight@, metrics@.len() as real); }
%endfn

%raw
impl VideoMetric for Ssim {
    type FrameResult = PlanarMetrics;
    type VideoResult = PlanarMetrics;
    open spec fn ready(&self, c: ChromaSampling) -> bool { self.cweight matches Some(w) && w@ == weight_of(c) }
    open spec fn input_ok<T: Pixel>(&self, p: (Frame<T>, Frame<T>), b: int) -> bool {
        frame_small(&p.0) && frame_small(&p.1) && 1 <= b <= 16 && frame_fits(&p.0, depth_max(b)) && frame_fits(&p.1, depth_max(b))
    }
    open spec fn scored<T: Pixel>(&self, p: (Frame<T>, Frame<T>), b: int, c: ChromaSampling, r: Result<PlanarMetrics, MetricsError>) -> bool { ssim_scored(&p.0, &p.1, b, r) }
    open spec fn count_ok(&self, n: int) -> bool { true }
    open spec fn agg_req(&self, ms: Seq<PlanarMetrics>) -> bool { self.cweight is Some && self.cweight->0@ >= 0real }
    open spec fn pooled(&self, ms: Seq<PlanarMetrics>, r: Result<PlanarMetrics, MetricsError>) -> bool { r is Ok && video_db(r->Ok_0, ms, self.cweight->0@) }
    proof fn can_pool<T: Pixel>(&self, ps: Seq<(Frame<T>, Frame<T>)>, b: int, c: ChromaSampling, ms: Seq<PlanarMetrics>) {}
    fn process_frame<T: Pixel>(&self, frame1: &Frame<T>, frame2: &Frame<T>, bit_depth: usize, chroma_sampling: ChromaSampling) -> (ret: Result<PlanarMetrics, MetricsError>)
    { Ssim::process_frame(self, frame1, frame2, bit_depth, chroma_sampling) }
    fn aggregate_frame_results(&self, metrics: &Vec<PlanarMetrics>) -> (ret: Result<PlanarMetrics, MetricsError>)
    { Ssim::aggregate_frame_results(self, metrics.as_slice()) }
}
%end
%fn calculate_video_ssim
%sig fn calculate_video_ssim<D: VideoDecoder, F: Progress>(decoder1: &mut D, decoder2: &mut D, frame_limit: Option<usize>, progress_callback: F) -> (ret: Result<PlanarMetrics, MetricsError>)
%spec
    requires
        forall|m: Ssim| #[trigger] m.ready(old(decoder1).details().chroma_sampling) ==> process_req(&m, *old(decoder1), *old(decoder2), frame_limit),
    ensures
        exists|m: Ssim| m.ready(old(decoder1).details().chroma_sampling) && #[trigger] process_is(&m, *old(decoder1), *old(decoder2), frame_limit, progress_callback, ret),
%at start
    broadcast use fl;
%at let cweight
    proof { let m = Ssim { cweight }; assert(m.ready(decoder1.details().chroma_sampling)); }
%endfn

%raw
impl VideoMetric for MsSsim {
    type FrameResult = PlanarMetrics;
    type VideoResult = PlanarMetrics;
    open spec fn ready(&self, c: ChromaSampling) -> bool { self.cweight matches Some(w) && w@ == weight_of(c) }
    open spec fn input_ok<T: Pixel>(&self, p: (Frame<T>, Frame<T>), b: int) -> bool {
        frame_small(&p.0) && frame_small(&p.1) && 1 <= b <= 12 && frame_fits(&p.0, depth_max(b)) && frame_fits(&p.1, depth_max(b))
    }
    open spec fn scored<T: Pixel>(&self, p: (Frame<T>, Frame<T>), b: int, c: ChromaSampling, r: Result<PlanarMetrics, MetricsError>) -> bool { ms_scored(&p.0, &p.1, b, r) }
    open spec fn count_ok(&self, n: int) -> bool { true }
    open spec fn agg_req(&self, ms: Seq<PlanarMetrics>) -> bool { self.cweight is Some && self.cweight->0@ >= 0real }
    open spec fn pooled(&self, ms: Seq<PlanarMetrics>, r: Result<PlanarMetrics, MetricsError>) -> bool { r is Ok && video_db(r->Ok_0, ms, self.cweight->0@) }
    proof fn can_pool<T: Pixel>(&self, ps: Seq<(Frame<T>, Frame<T>)>, b: int, c: ChromaSampling, ms: Seq<PlanarMetrics>) {}
    fn process_frame<T: Pixel>(&self, frame1: &Frame<T>, frame2: &Frame<T>, bit_depth: usize, chroma_sampling: ChromaSampling) -> (ret: Result<PlanarMetrics, MetricsError>)
    { MsSsim::process_frame(self, frame1, frame2, bit_depth, chroma_sampling) }
    fn aggregate_frame_results(&self, metrics: &Vec<PlanarMetrics>) -> (ret: Result<PlanarMetrics, MetricsError>)
    { MsSsim::aggregate_frame_results(self, metrics.as_slice()) }
}
%end
%fn calculate_video_msssim
%sig fn calculate_video_msssim<D: VideoDecoder, F: Progress>(decoder1: &mut D, decoder2: &mut D, frame_limit: Option<usize>, progress_callback: F) -> (ret: Result<PlanarMetrics, MetricsError>)
%spec
    requires
        forall|m: MsSsim| #[trigger] m.ready(old(decoder1).details().chroma_sampling) ==> process_req(&m, *old(decoder1), *old(decoder2), frame_limit),
    ensures
        exists|m: MsSsim| m.ready(old(decoder1).details().chroma_sampling) && #[trigger] process_is(&m, *old(decoder1), *old(decoder2), frame_limit, progress_callback, ret),
%at start
    broadcast use fl;
%at let cweight
    proof { let m = MsSsim { cweight }; assert(m.ready(decoder1.details().chroma_sampling)); }
%endfn
