/// C15: bits of a sample
pub open spec fn cs_bits(c: y4m::Colorspace) -> int {
    match c {
        y4m::Colorspace::C420p10 | y4m::Colorspace::C422p10 | y4m::Colorspace::C444p10 => 10,
        y4m::Colorspace::Cmono12 | y4m::Colorspace::C420p12 | y4m::Colorspace::C422p12 | y4m::Colorspace::C444p12 => 12,
        _ => 8,
    }
}
pub open spec fn cs_bytes(c: y4m::Colorspace) -> int { if cs_bits(c) <= 8 { 1 } else { 2 } }
/// C15: sampling of the chroma planes
pub open spec fn cs_sampling(c: y4m::Colorspace) -> ChromaSampling {
    match c {
        y4m::Colorspace::Cmono | y4m::Colorspace::Cmono12 => ChromaSampling::Cs400,
        y4m::Colorspace::C422 | y4m::Colorspace::C422p10 | y4m::Colorspace::C422p12 => ChromaSampling::Cs422,
        y4m::Colorspace::C444 | y4m::Colorspace::C444p10 | y4m::Colorspace::C444p12 => ChromaSampling::Cs444,
        _ => ChromaSampling::Cs420,
    }
}
/// C15: where the samples of chroma lie
pub open spec fn cs_position(c: y4m::Colorspace) -> ChromaSamplePosition {
    match c {
        y4m::Colorspace::Cmono | y4m::Colorspace::Cmono12 => ChromaSamplePosition::Unknown,
        y4m::Colorspace::C420jpeg => ChromaSamplePosition::Bilateral,
        y4m::Colorspace::C420paldv => ChromaSamplePosition::Interpolated,
        y4m::Colorspace::C420mpeg2 | y4m::Colorspace::C422 | y4m::Colorspace::C422p10 | y4m::Colorspace::C422p12 => ChromaSamplePosition::Vertical,
        _ => ChromaSamplePosition::Colocated,
    }
}
pub open spec fn luma_len(w: int, h: int, c: y4m::Colorspace) -> int { w * h * cs_bytes(c) }
pub open spec fn chroma_len(w: int, h: int, c: y4m::Colorspace) -> int { chroma_w(cs_sampling(c), w) * chroma_h(cs_sampling(c), h) * cs_bytes(c) }
/// the limit of the y4m crate: a gigabyte
pub open spec fn sizes_ok(w: int, h: int, c: y4m::Colorspace) -> bool { w > 0 && h > 0 && luma_len(w, h, c) + 2 * chroma_len(w, h, c) <= 1073741824 }
pub open spec fn frame_ok(f: &y4m::Frame, w: int, h: int, c: y4m::Colorspace) -> bool {
    f.y@.len() == luma_len(w, h, c) && f.u@.len() == chroma_len(w, h, c) && f.v@.len() == chroma_len(w, h, c)
}
// ------------------------------------------------------ planes and frames
pub open spec fn dec_of(c: ChromaSampling) -> (int, int) { if c == ChromaSampling::Cs400 { (0, 0) } else { cdec(c) } }
/// C15: the planes have exactly the size of the video
pub open spec fn exact_frame<T: Pixel>(f: &Frame<T>, w: int, h: int, c: ChromaSampling) -> bool {
    &&& exact(&f.planes[0], w, h, 0, 0)
    &&& exact(&f.planes[1], chroma_w(c, w), chroma_h(c, h), dec_of(c).0, dec_of(c).1)
    &&& exact(&f.planes[2], chroma_w(c, w), chroma_h(c, h), dec_of(c).0, dec_of(c).1)
}
/// C15: the samples of a plane are those of the lines of the file
pub open spec fn holds<T: Pixel>(p: &Plane<T>, src: Seq<u8>, stride: int, bw: int) -> bool {
    forall|x: int, y: int| 0 <= x < p.w() && 0 <= y < p.h() ==> #[trigger] p.px(x, y) == smp(src, y * stride, bw, x)
}
/// C15: the same after resampling
pub open spec fn holds_resampled<T: Pixel>(p: &Plane<T>, src: Seq<u8>, stride: int, bw: int, bits: int) -> bool {
    forall|x: int, y: int| 0 <= x < p.w() && 0 <= y < p.h() ==> #[trigger] p.px(x, y) == filtered(src, y * stride, bw, p.w(), max_of(bits), x)
}
pub open spec fn holds_chroma<T: Pixel>(p: &Plane<T>, src: Seq<u8>, stride: int, bw: int, bits: int, pos: ChromaSamplePosition) -> bool {
    if pos == ChromaSamplePosition::Vertical { holds_resampled(p, src, stride, bw, bits) } else { holds(p, src, stride, bw) }
}
/// C15: what the decoder delivers for a frame of the file
pub open spec fn delivered<T: Pixel>(f: &Frame<T>, r: &y4m::Frame, w: int, h: int, c: y4m::Colorspace) -> bool {
    let b = cs_bytes(c);
    let cw = chroma_w(cs_sampling(c), w);
    &&& exact_frame(f, w, h, cs_sampling(c))
    &&& holds(&f.planes[0], r.y@, w * b, b)
    &&& holds_chroma(&f.planes[1], r.u@, cw * b, b, cs_bits(c), cs_position(c))
    &&& holds_chroma(&f.planes[2], r.v@, cw * b, b, cs_bits(c), cs_position(c))
}
/// all lines of an exact plane are stored
pub proof fn all_stored<T: Pixel>(p: &Plane<T>)
    requires p.wf(), p.cfg.xorigin == 0, p.cfg.yorigin == 0
    ensures forall|y: int| 0 <= y < p.h() ==> #[trigger] stored(p, y)
{
    assert forall|y: int| 0 <= y < p.h() implies #[trigger] stored(p, y) by {
        let s = p.cfg.stride as int;
        assert((y + 1) * s <= p.cfg.alloc_height * s) by(nonlinear_arith) requires y + 1 <= p.cfg.alloc_height, s >= 0;
        assert(p.cfg.yorigin * s == 0) by(nonlinear_arith) requires p.cfg.yorigin == 0;
        assert(s * p.cfg.alloc_height == p.cfg.alloc_height * s) by(nonlinear_arith);
    }
}
/// a buffer of h lines of w samples
pub proof fn lines_of(w: int, h: int, b: int, n: int)
    requires w > 0, h >= 0, b == 1 || b == 2, n == w * h * b
    ensures (w * b) / b == w, n / (w * b) == h, w * b > 0
{
    assert(w * h * b == h * (w * b)) by(nonlinear_arith);
    assert(w * b > 0) by(nonlinear_arith) requires w > 0, b > 0;
    vstd::arithmetic::div_mod::lemma_div_by_multiple(h, w * b);
    vstd::arithmetic::div_mod::lemma_div_by_multiple(w, b);
}
pub proof fn no_larger(w: int, h: int, b: int)
    requires w > 0, h > 0, b == 1 || b == 2
    ensures w <= w * h * b, h <= w * h * b, w * b <= w * h * b
{
    assert(w * b <= w * h * b) by(nonlinear_arith) requires w > 0, h > 0, b > 0;
    assert(h <= w * h * b) by(nonlinear_arith) requires w > 0, h > 0, b > 0;
    assert(w <= w * b) by(nonlinear_arith) requires w > 0, b > 0;
}
pub proof fn dims_ok(w: int, h: int, c: y4m::Colorspace)
    requires sizes_ok(w, h, c)
    ensures
        w <= 1073741824, h <= 1073741824, w * cs_bytes(c) <= 1073741824, 0 <= luma_len(w, h, c), 0 <= chroma_len(w, h, c), 0 <= chroma_w(cs_sampling(c), w) <= w, 0 <= chroma_h(cs_sampling(c), h) <= h,
        cs_sampling(c) != ChromaSampling::Cs400 ==> chroma_w(cs_sampling(c), w) > 0 && chroma_h(cs_sampling(c), h) > 0,
        0 <= chroma_w(cs_sampling(c), w) * cs_bytes(c) <= 2147483648,
        luma_len(w, h, c) <= 1073741824, chroma_len(w, h, c) <= 1073741824,
{
    no_larger(w, h, cs_bytes(c));
    let (cw, ch) = (chroma_w(cs_sampling(c), w), chroma_h(cs_sampling(c), h));
    assert(cw * ch * cs_bytes(c) >= 0) by(nonlinear_arith) requires cw >= 0, ch >= 0, cs_bytes(c) > 0;
}
pub proof fn size_bounds(w: int, h: int, c: y4m::Colorspace)
    requires sizes_ok(w, h, c)
    ensures
        w <= 1073741824, h <= 1073741824, w * h <= 1073741824, w * h * cs_bytes(c) <= 1073741824,
        0 <= ((w + 1) / 2) * ((h + 1) / 2) <= 1073741824, 0 <= ((w + 1) / 2) * h <= 1073741824,
        0 <= ((w + 1) / 2) * ((h + 1) / 2) * cs_bytes(c) <= 2147483648, 0 <= ((w + 1) / 2) * h * cs_bytes(c) <= 2147483648,
        cs_sampling(c) == ChromaSampling::Cs400 ==> chroma_len(w, h, c) == 0,
{
    dims_ok(w, h, c);
    let b = cs_bytes(c);
    assert(w * h <= w * h * b) by(nonlinear_arith) requires w > 0, h > 0, b >= 1;
    assert(0 <= ((w + 1) / 2) * h <= w * h) by(nonlinear_arith) requires 0 <= (w + 1) / 2 <= w, h > 0;
    assert(0 <= ((w + 1) / 2) * ((h + 1) / 2) <= w * h) by(nonlinear_arith) requires 0 <= (w + 1) / 2 <= w, 0 <= (h + 1) / 2 <= h;
    let (p, q) = (((w + 1) / 2) * ((h + 1) / 2), ((w + 1) / 2) * h);
    assert(0 <= p * b <= 2147483648) by(nonlinear_arith) requires 0 <= p <= 1073741824, 1 <= b <= 2;
    assert(0 <= q * b <= 2147483648) by(nonlinear_arith) requires 0 <= q <= 1073741824, 1 <= b <= 2;
    assert(0 * b == 0);
}
/// the lines of the planes of a frame
pub proof fn frame_lines(w: int, h: int, c: y4m::Colorspace)
    requires sizes_ok(w, h, c)
    ensures
        w * cs_bytes(c) > 0, (w * cs_bytes(c)) / cs_bytes(c) == w, luma_len(w, h, c) / (w * cs_bytes(c)) == h,
        cs_sampling(c) != ChromaSampling::Cs400 ==> ({
            let (cw, ch, b) = (chroma_w(cs_sampling(c), w), chroma_h(cs_sampling(c), h), cs_bytes(c));
            cw * b > 0 && (cw * b) / b == cw && chroma_len(w, h, c) / (cw * b) == ch
        }),
{
    dims_ok(w, h, c);
    lines_of(w, h, cs_bytes(c), luma_len(w, h, c));
    if cs_sampling(c) != ChromaSampling::Cs400 { lines_of(chroma_w(cs_sampling(c), w), chroma_h(cs_sampling(c), h), cs_bytes(c), chroma_len(w, h, c)); }
}
// ------------------------------------------------------------ ffmpeg
/// the lines of a plane that ffmpeg has decoded
pub open spec fn lines_ok(n: int, stride: int, w: int, h: int, b: int) -> bool { w > 0 && h > 0 && stride >= w * b && n >= h * stride && n <= isize::MAX }
/// the planes of a decoded frame have the size of the video
pub open spec fn fits_details(v: &frame::Video, d: &VideoDetails) -> bool { fits_video(v, d.width as int, d.height as int, d.bit_depth as int, d.chroma_sampling) }
pub open spec fn fits_video(v: &frame::Video, w: int, h: int, bits: int, c: ChromaSampling) -> bool {
    let b = bytes_of(bits);
    let (cw, ch) = (chroma_w(c, w), chroma_h(c, h));
    &&& lines_ok(v.plane(0).len() as int, v.line(0), w, h, b)
    &&& lines_ok(v.plane(1).len() as int, v.line(1), cw, ch, b)
    &&& lines_ok(v.plane(2).len() as int, v.line(2), cw, ch, b)
}
pub open spec fn bytes_of(bits: int) -> int { if bits > 8 { 2 } else { 1 } }
/// what FfmpegDecoder::new accepts
pub open spec fn details_ok(d: &VideoDetails) -> bool {
    &&& 0 < d.width <= 1073741824 && 0 < d.height <= 1073741824
    &&& d.bit_depth == 8 || d.bit_depth == 10 || d.bit_depth == 12
    &&& d.chroma_sampling != ChromaSampling::Cs400
}
/// C15: what the decoder delivers for a frame of ffmpeg
pub open spec fn delivered_from<T: Pixel>(f: &Frame<T>, v: &frame::Video, d: &VideoDetails) -> bool {
    let b = bytes_of(d.bit_depth as int);
    &&& exact_frame(f, d.width as int, d.height as int, d.chroma_sampling)
    &&& holds(&f.planes[0], v.plane(0), v.line(0), b)
    &&& holds_chroma(&f.planes[1], v.plane(1), v.line(1), b, d.bit_depth as int, d.chroma_sample_position)
    &&& holds_chroma(&f.planes[2], v.plane(2), v.line(2), b, d.bit_depth as int, d.chroma_sample_position)
}
pub proof fn enough(n: int, stride: int, w: int, h: int, b: int)
    requires lines_ok(n, stride, w, h, b), b == 1 || b == 2
    ensures stride > 0, imin(w, stride / b) == w, imin(h, n / stride) == h
{
    assert(w * b > 0) by(nonlinear_arith) requires w > 0, b > 0;
    vstd::arithmetic::div_mod::lemma_div_is_ordered(w * b, stride, b);
    vstd::arithmetic::div_mod::lemma_div_by_multiple(w, b);
    vstd::arithmetic::div_mod::lemma_div_is_ordered(h * stride, n, stride);
    vstd::arithmetic::div_mod::lemma_div_by_multiple(h, stride);
}
