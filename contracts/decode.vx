%include num.rs
%include plane.vx
%source av_metrics/src/video/mod.rs
%struct ChromaSamplePosition
%source av_metrics/src/video/decode.rs

%raw
/// sample x of a line that starts at `off`
#[verifier::opaque]
pub open spec fn smp(src: Seq<u8>, off: int, bw: int, x: int) -> int {
    if bw == 1 { src[off + x] as int } else { src[off + 2 * x] as int + 256 * src[off + 2 * x + 1] as int }
}
pub broadcast proof fn smp_range(src: Seq<u8>, off: int, bw: int, x: int)
    ensures 0 <= #[trigger] smp(src, off, bw, x) <= 65535
{ reveal(smp); }
/// the sample of the source at a column that is cut off to the line
pub open spec fn cut(src: Seq<u8>, off: int, bw: int, w: int, x: int) -> int {
    smp(src, off, bw, iclamp(x, 0, w - 1))
}
/// The filter [4 -17 114 35 -9 1] / 128 with rounding, limited to the bit depth.
#[verifier::opaque]
pub open spec fn filtered(src: Seq<u8>, off: int, bw: int, w: int, max: int, x: int) -> int {
    fir(cut(src, off, bw, w, x - 2), cut(src, off, bw, w, x - 1), cut(src, off, bw, w, x),
        cut(src, off, bw, w, x + 1), cut(src, off, bw, w, x + 2), cut(src, off, bw, w, x + 3), max)
}
pub open spec fn fir(a: int, b: int, c: int, d: int, e: int, f: int, max: int) -> int {
    iclamp((4 * a - 17 * b + 114 * c + 35 * d - 9 * e + f + 64) / 128, 0, max)
}
pub broadcast proof fn filtered_range(src: Seq<u8>, off: int, bw: int, w: int, max: int, x: int)
    requires max >= 0
    ensures 0 <= #[trigger] filtered(src, off, bw, w, max, x) <= max
{ reveal(filtered); }
/// the sample at x when the columns of the six taps are a, b, c, d, e, f
pub proof fn taps(src: Seq<u8>, bw: int, w: int, max: int, x: int, a: int, b: int, c: int, d: int, e: int, f: int)
    requires
        a == iclamp(x - 2, 0, w - 1), b == iclamp(x - 1, 0, w - 1), c == iclamp(x, 0, w - 1),
        d == iclamp(x + 1, 0, w - 1), e == iclamp(x + 2, 0, w - 1), f == iclamp(x + 3, 0, w - 1),
    ensures filtered(src, 0, bw, w, max, x) == fir(smp(src, 0, bw, a), smp(src, 0, bw, b), smp(src, 0, bw, c),
        smp(src, 0, bw, d), smp(src, 0, bw, e), smp(src, 0, bw, f), max)
{ reveal(filtered); }
pub open spec fn max_of(bits: int) -> int
{ if bits == 8 { 255 } else if bits == 9 { 511 } else if bits == 10 { 1023 } else if bits == 11 { 2047 } else if bits == 12 { 4095 }
  else if bits == 13 { 8191 } else if bits == 14 { 16383 } else if bits == 15 { 32767 } else { 65535 } }

/// the stored line that begins with row y is complete
pub open spec fn stored<T: Pixel>(p: &Plane<T>, y: int) -> bool { (y + 1) * p.cfg.stride <= p.data@.len() - p.origin() }
/// std::mem::transmute from &mut [T] to &mut [u16], when T is u16
#[verifier::external_body]
pub fn vx_transmute<T: Pixel>(s: &mut [T]) -> (r: &mut [u16])
    requires T::bytes() == 2
    ensures
        r@.len() == old(s)@.len(), final(r)@.len() == r@.len(), final(s)@.len() == old(s)@.len(),
        forall|i: int| 0 <= i < old(s)@.len() ==> (#[trigger] old(s)@[i]).val() == r@[i],
        forall|i: int| 0 <= i < old(s)@.len() ==> (#[trigger] final(s)@[i]).val() == final(r)@[i],
{ unimplemented!() }
/// std::slice::from_raw_parts of the bytes of a slice in pairs
#[verifier::external_body]
pub fn vx_pairs(s: &[u8], n: usize) -> (r: &[[u8; 2]])
    requires 2 * n <= s@.len()
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@[0] == s@[2 * i] && r@[i]@[1] == s@[2 * i + 1]
{ unimplemented!() }
/// u16::from_le_bytes
pub fn vx_le(b: [u8; 2]) -> (r: u16) ensures r == b@[0] + 256 * b@[1] { b[0] as u16 + 256 * (b[1] as u16) }
/// a row of the plane is as the row of the source
pub open spec fn copied<T: Pixel>(row: Seq<T>, src: Seq<u8>, off: int, bw: int, n: int) -> bool {
    forall|x: int| 0 <= x < n ==> (#[trigger] row[x]).val() == smp(src, off, bw, x)
}
pub open spec fn at_xy<T: Pixel>(s: Seq<T>, stride: int, x: int, y: int) -> T { s[y * stride + x] }
/// the first k rows are copied
pub open spec fn rows_copied<T: Pixel>(s: Seq<T>, stride: int, src: Seq<u8>, ss: int, bw: int, k: int) -> bool {
    forall|x: int, y: int| 0 <= x < imin(stride, ss / bw) && 0 <= y < k ==> (#[trigger] at_xy(s, stride, x, y)).val() == smp(src, y * ss, bw, x)
}
/// the part of a stored row that lies in front of the next
pub proof fn apart(s: int, i: int, y: int, x: int)
    requires 0 <= x < s, 0 <= y, 0 <= i
    ensures y * s + x >= i * s + s <==> y > i, y * s + x < i * s <==> y < i, y == i ==> y * s + x == i * s + x
{
    assert(y > i ==> y * s >= i * s + s) by(nonlinear_arith) requires s > 0;
    assert(y < i ==> y * s + s <= i * s) by(nonlinear_arith) requires s > 0;
}
%end
%source @v_frame/src/plane.rs
%fn Plane::copy_from_raw_u8
%subst unsafe { std::slice::from_raw_parts(source_row.as_ptr().cast(), source_row.len() / 2) } => vx_pairs(source_row, source_row.len() / 2)
%subst u16::from_le_bytes => vx_le
%spec
        requires old(self).wf(), old(self).cfg.stride > 0, source_stride > 0, source_bytewidth == 1 || source_bytewidth == 2, source_bytewidth == 2 ==> T::bytes() == 2
        ensures
            final(self).cfg == old(self).cfg, final(self).data@.len() == old(self).data@.len(),
            forall|x: int, y: int| 0 <= x < imin(old(self).w(), source_stride as int / source_bytewidth as int)
                && 0 <= y < imin(old(self).h(), source@.len() as int / source_stride as int) && stored(old(self), y)
                ==> #[trigger] final(self).px(x, y) == smp(source@, y * source_stride, source_bytewidth as int, x),
%at start
    let ghost len0 = (self.data@.len() - self.origin()) as int;
    proof { T::sizes(); }
%loop 1
    invariant
        chunked__1@.len() == len0,
        rows_copied(chunked__1@, stride as int, source@, source_stride as int, source_bytewidth as int, i__2 as int),
%at loop 1 start
    let ghost before = chunked__1@;
    proof {
        assert(0 <= i__2 * source_stride && i__2 * source_stride + source_stride <= source@.len());
        assert(0 <= i__2 * stride && i__2 * stride + stride <= len0);
    }
%at loop 1 end
    proof {
        let (s, i, ss, bw) = (stride as int, i__2 as int, source_stride as int, source_bytewidth as int);
        assert forall|x: int, y: int| 0 <= x < imin(s, ss / bw) && 0 <= y < i + 1 implies (#[trigger] at_xy(chunked__1@, s, x, y)).val() == smp(source@, y * ss, bw, x) by {
            apart(s, i, y, x);
            if y < i { assert(at_xy(before, s, x, y).val() == smp(source@, y * ss, bw, x)); }
        }
    }
%at loop 1 after
    proof {
        let (s, ss, bw) = (stride as int, source_stride as int, source_bytewidth as int);
        assert forall|x: int, y: int| 0 <= x < imin(old(self).w(), ss / bw)
                && 0 <= y < imin(old(self).h(), source@.len() as int / ss) && stored(old(self), y)
            implies #[trigger] smp(source@, y * ss, bw, x) == chunked__1@[y * s + x].val() && 0 <= y * s + x < len0 by
        {
            assert(y < len0 / s) by(nonlinear_arith) requires (y + 1) * s <= len0, s > 0;
            assert((y + 1) * s == y * s + s && 0 <= y * s) by(nonlinear_arith) requires y >= 0, s > 0;
            assert(at_xy(chunked__1@, s, x, y).val() == smp(source@, y * ss, bw, x));
        }
    }
%loop 2
    invariant
        self_row@.len() == stride,
        copied(self_row@, source@, i__2 * source_stride, 1, i__4 as int),
%at loop 2 start
    proof { reveal(smp); }
%loop 3
    invariant
        self_row@.len() == stride,
        forall|x: int| 0 <= x < i__6 ==> (#[trigger] self_row@[x]) as int == smp(source@, i__2 * source_stride, 2, x),
%at loop 3 start
    proof { reveal(smp); }
%endfn
%source av_metrics/src/video/decode.rs
%raw
pub broadcast proof fn shr7(x: i32) ensures #[trigger] (x >> 7) as int == (x as int) / 128
{
    assert((x >> 7) * 128 <= x && x - (x >> 7) * 128 < 128) by(bit_vector);
    let q = (x >> 7) as int;
    assert(q * 128 <= x < q * 128 + 128);
}
pub proof fn one_shl(b: usize) requires 8 <= b <= 16 ensures ((1i32 << b) - 1) as int == max_of(b as int), (1i32 << b) as int == max_of(b as int) + 1
{
    assert(b == 8 ==> (1i32 << b) == 256) by(bit_vector);
    assert(b == 9 ==> (1i32 << b) == 512) by(bit_vector);
    assert(b == 10 ==> (1i32 << b) == 1024) by(bit_vector);
    assert(b == 11 ==> (1i32 << b) == 2048) by(bit_vector);
    assert(b == 12 ==> (1i32 << b) == 4096) by(bit_vector);
    assert(b == 13 ==> (1i32 << b) == 8192) by(bit_vector);
    assert(b == 14 ==> (1i32 << b) == 16384) by(bit_vector);
    assert(b == 15 ==> (1i32 << b) == 32768) by(bit_vector);
    assert(b == 16 ==> (1i32 << b) == 65536) by(bit_vector);
}
/// the rows of the source
pub proof fn src_rows(n: int, ss: int, bw: int, w: int, h: int)
    requires ss > 0, n >= 0, bw == 1 || bw == 2, 0 <= h <= n / ss, 0 <= w <= ss / bw
    ensures forall|y: int| 0 <= y < h ==> 0 <= #[trigger] (y * ss) && y * ss + ss <= n, w * bw <= ss
{
    assert forall|y: int| 0 <= y < h implies 0 <= #[trigger] (y * ss) && y * ss + ss <= n by {
        assert(0 <= y * ss && y * ss + ss <= (n / ss) * ss) by(nonlinear_arith) requires 0 <= y < h, h <= n / ss, ss > 0;
        assert((n / ss) * ss <= n) by(nonlinear_arith) requires ss > 0, n >= 0;
    }
}
/// the rows of the plane, from its origin
pub proof fn out_rows<T: Pixel>(p: &Plane<T>, h: int)
    requires p.wf(), 0 <= h <= p.h(), p.w() > 0, p.h() > 0
    ensures forall|y: int| 0 <= y < h ==> 0 <= #[trigger] (y * p.cfg.stride) && y * p.cfg.stride + p.w() <= p.data@.len() - p.origin()
{
    origin_inside(p);
    assert forall|y: int| 0 <= y < h implies 0 <= #[trigger] (y * p.cfg.stride) && y * p.cfg.stride + p.w() <= p.data@.len() - p.origin() by {
        assert(0 <= y * p.cfg.stride <= (p.h() - 1) * p.cfg.stride) by(nonlinear_arith) requires 0 <= y <= p.h() - 1, p.cfg.stride >= 0;
    }
}
pub proof fn filtered_sub(src: Seq<u8>, off: int, row: Seq<u8>, bw: int, w: int, max: int)
    requires 0 <= off <= src.len(), row == src.subrange(off, src.len() as int), bw == 1 || bw == 2, off + w * bw <= src.len()
    ensures forall|x: int| 0 <= x < w ==> #[trigger] filtered(row, 0, bw, w, max, x) == filtered(src, off, bw, w, max, x)
{
    assert forall|x: int| 0 <= x < w implies #[trigger] filtered(row, 0, bw, w, max, x) == filtered(src, off, bw, w, max, x) by {
        assert forall|k: int| w > 0 implies #[trigger] cut(row, 0, bw, w, k) == cut(src, off, bw, w, k) by { reveal(smp); }
        reveal(filtered);
    }
}
%end

%fn clamp
%sig fn clamp(input: i32, min: i32, max: i32) -> (ret: i32)
%spec
    ensures ret == (if input < min { min as int } else if input > max { max as int } else { input as int })
%endfn

%fn convert_chroma_data
%nested convert_u8
%spec
    requires index < line@.len()
    ensures ret == smp(line@, 0, 1, index as int)
%at start
    broadcast use px_range;
    proof { reveal(smp); }
%endnested
%nested convert_u16
%spec
    requires 2 * index + 1 < line@.len()
    ensures ret == smp(line@, 0, 2, index as int)
%at start
    broadcast use px_range;
    proof { reveal(smp); }
    assert(forall|a: u16, b: u16| a < 256 && b < 256 ==> (#[trigger] (a << 8 | b)) == a * 256 + b && a * 256 + b < 65536) by(bit_vector);
%endnested
%spec
    requires
        old(plane_data).wf(),
        8 <= bit_depth <= 16,
        max_of(bit_depth as int) <= T::vmax(),
        source_bytewidth == 1 || source_bytewidth == 2,
        source_bytewidth == 2 ==> T::bytes() == 2,
        source_stride > 0 || old(plane_data).w() == 0 || old(plane_data).h() == 0,
        source@.len() <= isize::MAX,
    ensures
        final(plane_data).cfg == old(plane_data).cfg,
        final(plane_data).data@.len() == old(plane_data).data@.len(),
        chroma_pos != ChromaSamplePosition::Vertical ==> forall|x: int, y: int|
            0 <= x < imin(old(plane_data).w(), source_stride as int / source_bytewidth as int)
            && 0 <= y < imin(old(plane_data).h(), source@.len() as int / source_stride as int) && stored(old(plane_data), y)
                ==> #[trigger] final(plane_data).px(x, y) == smp(source@, y * source_stride, source_bytewidth as int, x),
        chroma_pos == ChromaSamplePosition::Vertical ==> forall|x: int, y: int|
            0 <= x < imin(old(plane_data).w(), source_stride as int / source_bytewidth as int)
            && 0 <= y < imin(old(plane_data).h(), source@.len() as int / source_stride as int)
                ==> #[trigger] final(plane_data).px(x, y)
                    == filtered(source@, y * source_stride, source_bytewidth as int, imin(old(plane_data).w(), source_stride as int / source_bytewidth as int), max_of(bit_depth as int), x),
%attr #[verifier::rlimit(60)]
%at start
    let ghost p0 = *plane_data;
    let ghost bw = source_bytewidth as int;
    let ghost ss = source_stride as int;
%at let output_data
    let ghost o = output_data@.len() as int;
    let ghost max = max_of(bit_depth as int);
    proof { origin_inside(&p0); out_rows(&p0, height as int); src_rows(source@.len() as int, ss, bw, width as int, height as int); }
%loop 1
    invariant
        output_data@.len() == o,
        forall|x: int, yy: int| 0 <= x < width && 0 <= yy < y ==> (#[trigger] output_data@[yy * stride + x]).val() == filtered(source@, yy * ss, bw, width as int, max, x),
%at loop 1 end
    proof {
        assert forall|x: int, yy: int| 0 <= x < width && 0 <= yy < y + 1 implies (#[trigger] output_data@[yy * stride + x]).val() == filtered(source@, yy * ss, bw, width as int, max, x) by {
            if yy < y {
                assert(yy * stride + x < off) by(nonlinear_arith) requires yy + 1 <= y, x < width, width <= stride, off == y * stride;
                assert(0 <= yy * stride) by(nonlinear_arith) requires 0 <= yy, 0 <= stride;
                assert(output_data@[yy * stride + x] == all0[yy * stride + x]);
            } else {
                assert(off + x == yy * stride + x);
                assert(output_data@[off + x].val() == filtered(in_row@, 0, bw, width as int, max, x));
            }
        }
    }
%at loop 1 start
    let ghost all0 = output_data@;
    let ghost off = y * stride;
    proof {
        assert(0 <= y * ss && y * ss + ss <= source@.len());
        assert(0 <= y * stride && y * stride + width <= o);
        assert(p0.cfg.stride * p0.cfg.alloc_height == p0.data@.len());
    }
%at let out_row
    let ghost out0 = out_row@;
    let ghost n = out_row@.len();
    proof { filtered_sub(source@, y * ss, in_row@, bw, width as int, max); }
%at loop 2 start
    broadcast use px_range, shr7, smp_range;
    proof { one_shl(bit_depth); taps(in_row@, bw, width as int, max, x as int, 0, imax(x - 1, 0), x as int, imin(x + 1, width - 1), imin(x + 2, width - 1), imin(x + 3, width - 1)); }
%at loop 2 end
    assert(out_row@[x as int].val() == filtered(in_row@, 0, bw, width as int, max, x as int));
%loop 2 isolated
    invariant
        width <= n, out_row@.len() == n, width * bw <= in_row@.len(), in_row@.len() <= isize::MAX, bw == 1 || bw == 2,
        get_pixel__sel == (bw == 1), 8 <= bit_depth <= 16, max == max_of(bit_depth as int), max <= T::vmax(), breakpoint <= 2, breakpoint <= width,
        forall|k: int| 0 <= k < x ==> (#[trigger] out_row@[k]).val() == filtered(in_row@, 0, bw, width as int, max, k),
%at loop 3 start
    broadcast use px_range, shr7, smp_range;
    proof { one_shl(bit_depth); taps(in_row@, bw, width as int, max, x as int, x - 2, x - 1, x as int, x + 1, x + 2, x + 3); }
%at loop 3 end
    assert(out_row@[x as int].val() == filtered(in_row@, 0, bw, width as int, max, x as int));
%loop 3 isolated
    invariant
        width <= n, out_row@.len() == n, width * bw <= in_row@.len(), in_row@.len() <= isize::MAX, bw == 1 || bw == 2,
        get_pixel__sel == (bw == 1), 8 <= bit_depth <= 16, max == max_of(bit_depth as int), max <= T::vmax(), 2 <= breakpoint || breakpoint == breakpoint2, breakpoint2 == width - 3 || breakpoint == breakpoint2, breakpoint2 <= width,
        forall|k: int| 0 <= k < x ==> (#[trigger] out_row@[k]).val() == filtered(in_row@, 0, bw, width as int, max, k),
%at loop 4 start
    broadcast use px_range, shr7, smp_range;
    proof { one_shl(bit_depth); taps(in_row@, bw, width as int, max, x as int, x - 2, x - 1, x as int, imin(x + 1, width - 1), imin(x + 2, width - 1), width - 1); }
%at loop 4 end
    assert(out_row@[x as int].val() == filtered(in_row@, 0, bw, width as int, max, x as int));
%loop 4 isolated
    invariant
        width <= n, out_row@.len() == n, width * bw <= in_row@.len(), in_row@.len() <= isize::MAX, bw == 1 || bw == 2,
        get_pixel__sel == (bw == 1), 8 <= bit_depth <= 16, max == max_of(bit_depth as int), max <= T::vmax(), 2 <= breakpoint2 || breakpoint2 == width, width - 3 <= breakpoint2 <= width,
        forall|k: int| 0 <= k < x ==> (#[trigger] out_row@[k]).val() == filtered(in_row@, 0, bw, width as int, max, k),
%at loop 1 after
    proof {
        assert forall|x: int, y: int| 0 <= x < width && 0 <= y < height implies #[trigger] plane_data.px(x, y) == filtered(source@, y * ss, bw, width as int, max, x) by {
            assert(output_data@[y * stride + x].val() == filtered(source@, y * ss, bw, width as int, max, x));
            assert(0 <= y * stride && y * stride + width <= o);
            assert(p0.pos(x, y) - p0.origin() == y * stride + x);
        }
    }
%endfn
