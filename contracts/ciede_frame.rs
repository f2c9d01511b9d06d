// ----------------------------------------------------- CIEDE2000 of frames
pub axiom fn ax_minus_infinity() ensures minus_infinity() < -1000000000real;
pub open spec fn half(x: int, d: int) -> int { if d == 1 { x / 2 } else { x } }
pub open spec fn has_chroma_dims<T: Pixel>(p: &Plane<T>, c: ChromaSampling, w: int, h: int) -> bool { p.w() == chroma_w(c, w) && p.h() == chroma_h(c, h) }
pub open spec fn chroma_ok<T: Pixel>(f: &Frame<T>, c: ChromaSampling) -> bool {
    let (w, h) = (f.planes[0].w(), f.planes[0].h());
    has_chroma_dims(&f.planes[1], c, w, h) && has_chroma_dims(&f.planes[2], c, w, h)
}
/// the value without color
pub open spec fn neutral(b: int) -> int { if b == 8 { 128 } else if b == 10 { 512 } else { 2048 } }
/// the sample of a chroma plane that belongs to column x and row y of luma
pub open spec fn chroma_at<T: Pixel>(p: &Plane<T>, x: int, y: int, c: ChromaSampling, b: int) -> int {
    if p.w() == 0 { neutral(b) } else { p.px(half(x, cdec(c).0), half(y, cdec(c).1)) }
}
pub open spec fn color_at<T: Pixel>(f: &Frame<T>, x: int, y: int, c: ChromaSampling, b: int) -> (int, int, int) {
    (f.planes[0].px(x, y), chroma_at(&f.planes[1], x, y, c, b), chroma_at(&f.planes[2], x, y, c, b))
}
/// the difference of the pixels in column x of row y
pub open spec fn pixel_de<T: Pixel>(f: &Frame<T>, g: &Frame<T>, x: int, y: int, c: ChromaSampling, b: int) -> real {
    let (p, q) = (color_at(f, x, y, c, b), color_at(g, x, y, c, b));
    px_de(p.0, p.1, p.2, q.0, q.1, q.2, b)
}
pub open spec fn line_de<T: Pixel>(f: &Frame<T>, g: &Frame<T>, y: int, c: ChromaSampling, b: int, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { line_de(f, g, y, c, b, k - 1) + pixel_de(f, g, k - 1, y, c, b) } }
pub open spec fn lines_de<T: Pixel>(f: &Frame<T>, g: &Frame<T>, c: ChromaSampling, b: int, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { lines_de(f, g, c, b, k - 1) + line_de(f, g, k - 1, c, b, f.planes[0].w()) } }
/// the mean of the differences over all pixels
pub open spec fn mean_de<T: Pixel>(f: &Frame<T>, g: &Frame<T>, c: ChromaSampling, b: int) -> real {
    lines_de(f, g, c, b, f.planes[0].h()) / (f.planes[0].w() * f.planes[0].h()) as real
}
/// C12: the score
pub open spec fn ciede_of(mean: real) -> real { if mean == 0real { 100real } else { rmin(100real, 45real - 20real * r_log10(mean)) } }
pub open spec fn ciede_score<T: Pixel>(f: &Frame<T>, g: &Frame<T>, c: ChromaSampling, b: int) -> real { ciede_of(mean_de(f, g, c, b)) }
pub open spec fn is_unsupported<R>(r: Result<R, MetricsError>) -> bool { r matches Err(e) && e is UnsupportedInput }
pub open spec fn ciede_scored<T: Pixel>(f: &Frame<T>, g: &Frame<T>, b: int, c: ChromaSampling, r: Result<Fl, MetricsError>) -> bool {
    &&& !width_ok::<T>(b) || !f.fits(g) ==> is_mismatch(r)
    &&& width_ok::<T>(b) && f.fits(g) && !known_depth(b) ==> is_unsupported(r)
    &&& width_ok::<T>(b) && f.fits(g) && known_depth(b) && !chroma_ok(f, c) ==> is_mismatch(r)
    &&& width_ok::<T>(b) && f.fits(g) && known_depth(b) && chroma_ok(f, c) ==> r is Ok
        && (f.planes[0].w() > 0 && f.planes[0].h() > 0 ==> r->Ok_0@ == ciede_score(f, g, c, b))
}
pub open spec fn ciede_in<T: Pixel>(f: &Frame<T>, b: int) -> bool { frame_small(f) && (known_depth(b) ==> frame_fits(f, depth_max(b))) }

pub proof fn depth_values() ensures depth_max(8) == 255, depth_max(10) == 1023, depth_max(12) == 4095
{
    vstd::arithmetic::power2::lemma2_to64();
}
pub proof fn fits_in_depth(x: int, b: int) requires known_depth(b), 0 <= x <= depth_max(b) ensures in_depth(x, b) { depth_values(); }
pub proof fn px_de_pos(y1: int, u1: int, v1: int, y2: int, u2: int, v2: int, b: int) ensures px_de(y1, u1, v1, y2, u2, v2, b) >= 0real
{
    let (p, q) = (lab_of_px(y1, u1, v1, b), lab_of_px(y2, u2, v2, b));
    de_ok(p, q, 0.65real, 1real, 4real);
    let t = de_terms(p, q, 0.65real, 1real, 4real);
    ax_sqrt(r_powi(t.l, 2) + r_powi(t.c, 2) + r_powi(t.h, 2) + t.rt * t.c * t.h);
}
pub proof fn line_pos<T: Pixel>(f: &Frame<T>, g: &Frame<T>, y: int, c: ChromaSampling, b: int, k: int) ensures line_de(f, g, y, c, b, k) >= 0real decreases k
{
    if k > 0 {
        line_pos(f, g, y, c, b, k - 1);
        let (p, q) = (color_at(f, k - 1, y, c, b), color_at(g, k - 1, y, c, b));
        px_de_pos(p.0, p.1, p.2, q.0, q.1, q.2, b);
    }
}
pub proof fn lines_pos<T: Pixel>(f: &Frame<T>, g: &Frame<T>, c: ChromaSampling, b: int, k: int) ensures lines_de(f, g, c, b, k) >= 0real decreases k
{ if k > 0 { lines_pos(f, g, c, b, k - 1); line_pos(f, g, k - 1, c, b, f.planes[0].w()); } }
pub proof fn mean_pos<T: Pixel>(f: &Frame<T>, g: &Frame<T>, c: ChromaSampling, b: int)
    requires f.planes[0].w() > 0, f.planes[0].h() > 0
    ensures mean_de(f, g, c, b) >= 0real, (f.planes[0].w() * f.planes[0].h()) as real > 0real
{
    let (w, h) = (f.planes[0].w(), f.planes[0].h());
    lines_pos(f, g, c, b, h);
    assert(w * h > 0) by(nonlinear_arith) requires w > 0, h > 0;
    let (n, d) = (lines_de(f, g, c, b, h), (w * h) as real);
    assert(n / d >= 0real) by(nonlinear_arith) requires n >= 0real, d > 0real;
}
/// a stored row holds the visible samples
pub proof fn row_of<T: Pixel>(p: &Plane<T>, y: int, b: int)
    requires p.wf(), 0 <= y < p.h(), known_depth(b), fits_max(p, depth_max(b))
    ensures
        0 <= p.pos(0, y) <= p.pos(p.w(), y) <= p.data@.len(),
        row_fits(p.data@.subrange(p.pos(0, y), p.pos(p.w(), y)), p.w(), b),
        forall|x: int| 0 <= x < p.w() ==> (#[trigger] p.data@.subrange(p.pos(0, y), p.pos(p.w(), y))[x]).val() == p.px(x, y),
{
    let (w, s, o) = (p.w(), p.cfg.stride as int, p.cfg.yorigin as int);
    assert((o + y + 1) * s <= p.cfg.alloc_height * s) by(nonlinear_arith) requires o + y + 1 <= p.cfg.alloc_height, s >= 0;
    assert((o + y + 1) * s == o * s + y * s + s) by(nonlinear_arith);
    assert(o * s >= 0 && y * s >= 0) by(nonlinear_arith) requires o >= 0, s >= 0, y >= 0;
    assert(s * p.cfg.alloc_height == p.cfg.alloc_height * s) by(nonlinear_arith);
    let r = p.data@.subrange(p.pos(0, y), p.pos(p.w(), y));
    assert(r.len() == w);
    assert forall|x: int| 0 <= x < w implies (#[trigger] r[x]).val() == p.px(x, y) by {}
    assert forall|x: int| 0 <= x < w implies in_depth((#[trigger] r[x]).val(), b) by { px_fits(p, depth_max(b), x, y); fits_in_depth(p.px(x, y), b); }
}
pub proof fn neutral_value(b: usize) requires known_depth(b as int)
    ensures (128u16 << ((b - 8) as usize)) == neutral(b as int), in_depth(neutral(b as int), b as int)
{
    assert(128u16 << 0usize == 128 && 128u16 << 2usize == 512 && 128u16 << 4usize == 2048) by(bit_vector);
}
pub proof fn shr_half(x: usize, d: usize) requires d <= 1 ensures x >> d == half(x as int, d as int)
{
    if d == 1 { assert(x >> 1usize == x / 2) by(bit_vector); } else { assert(x >> 0usize == x) by(bit_vector); }
}
/// the functions for a row, which the code uses as values
#[allow(non_camel_case_types)]
#[derive(Clone, Copy)]
pub enum RowFn {
    BD8__delta_e_row_avx2, BD10__delta_e_row_avx2, BD12__delta_e_row_avx2,
    BD8__delta_e_row_scalar, BD10__delta_e_row_scalar, BD12__delta_e_row_scalar,
    BD8_444__delta_e_row_scalar, BD10_444__delta_e_row_scalar, BD12_444__delta_e_row_scalar,
}
pub open spec fn fn_depth(f: RowFn) -> int {
    match f {
        RowFn::BD8__delta_e_row_avx2 | RowFn::BD8__delta_e_row_scalar | RowFn::BD8_444__delta_e_row_scalar => 8,
        RowFn::BD10__delta_e_row_avx2 | RowFn::BD10__delta_e_row_scalar | RowFn::BD10_444__delta_e_row_scalar => 10,
        RowFn::BD12__delta_e_row_avx2 | RowFn::BD12__delta_e_row_scalar | RowFn::BD12_444__delta_e_row_scalar => 12,
    }
}
pub open spec fn fn_xdec(f: RowFn) -> int {
    match f {
        RowFn::BD8_444__delta_e_row_scalar | RowFn::BD10_444__delta_e_row_scalar | RowFn::BD12_444__delta_e_row_scalar => 0,
        _ => 1,
    }
}
pub fn call_row<T: Pixel>(f: RowFn, row1: FrameRow<T>, row2: FrameRow<T>, res_row: &mut [Fl])
    requires
        old(res_row)@.len() <= 4294967296,
        rows_ok(row1, old(res_row)@.len() as int, fn_xdec(f), fn_depth(f)), rows_ok(row2, old(res_row)@.len() as int, fn_xdec(f), fn_depth(f)),
    ensures
        final(res_row)@.len() == old(res_row)@.len(),
        forall|i: int| 0 <= i < old(res_row)@.len() ==> (#[trigger] final(res_row)@[i])@ == row_de(row1, row2, i, fn_xdec(f), fn_depth(f)),
        // said again for the caller
        rows_ok(row1, old(res_row)@.len() as int, fn_xdec(f), fn_depth(f)), rows_ok(row2, old(res_row)@.len() as int, fn_xdec(f), fn_depth(f)),
{
    match f {
        RowFn::BD8__delta_e_row_avx2 => delta_e_row_avx2::<BD8, T>(row1, row2, res_row),
        RowFn::BD10__delta_e_row_avx2 => delta_e_row_avx2::<BD10, T>(row1, row2, res_row),
        RowFn::BD12__delta_e_row_avx2 => delta_e_row_avx2::<BD12, T>(row1, row2, res_row),
        RowFn::BD8__delta_e_row_scalar => delta_e_row_scalar::<BD8, T>(row1, row2, res_row),
        RowFn::BD10__delta_e_row_scalar => delta_e_row_scalar::<BD10, T>(row1, row2, res_row),
        RowFn::BD12__delta_e_row_scalar => delta_e_row_scalar::<BD12, T>(row1, row2, res_row),
        RowFn::BD8_444__delta_e_row_scalar => delta_e_row_scalar::<BD8_444, T>(row1, row2, res_row),
        RowFn::BD10_444__delta_e_row_scalar => delta_e_row_scalar::<BD10_444, T>(row1, row2, res_row),
        RowFn::BD12_444__delta_e_row_scalar => delta_e_row_scalar::<BD12_444, T>(row1, row2, res_row),
    }
}
/// the arguments for a row of a pair of frames
pub open spec fn is_row<T: Pixel>(r: FrameRow<T>, f: &Frame<T>, y: int, c: ChromaSampling, b: int) -> bool {
    let w = f.planes[0].w();
    &&& rows_ok(r, w, cdec(c).0, b)
    &&& forall|x: int| 0 <= x < w ==> (#[trigger] r.y@[x]).val() == f.planes[0].px(x, y)
    &&& forall|x: int| 0 <= x < w ==> r.u@[half(x, cdec(c).0)].val() == #[trigger] chroma_at(&f.planes[1], x, y, c, b)
    &&& forall|x: int| 0 <= x < w ==> r.v@[half(x, cdec(c).0)].val() == #[trigger] chroma_at(&f.planes[2], x, y, c, b)
}
pub open spec fn sum_all(m: Seq<Fl>, k: int) -> real decreases k { if k <= 0 { 0real } else { sum_all(m, k - 1) + m[k - 1]@ } }
/// what the processor supports
#[verifier::external_body]
pub fn vx_any_bool() -> (r: bool) { unimplemented!() }
pub assume_specification<Idx: Clone> [ <core::ops::Range<Idx> as Clone>::clone ] (r: &core::ops::Range<Idx>) -> (ret: core::ops::Range<Idx>) ensures call_ensures(Idx::clone, (&r.start,), ret.start), call_ensures(Idx::clone, (&r.end,), ret.end);
#[verifier::opaque]
pub open spec fn frame_ready<T: Pixel>(f: &Frame<T>, c: ChromaSampling, b: int) -> bool {
    chroma_ok(f, c) && known_depth(b) && frame_small(f) && frame_fits(f, depth_max(b))
}
/// the row of a plane and the row that stands for it
pub open spec fn row_seq<T: Pixel>(p: &Plane<T>, y: int) -> Seq<T> { p.data@.subrange(p.pos(0, y), p.pos(p.w(), y)) }
pub open spec fn chroma_seq<T: Pixel>(p: &Plane<T>, y: int, n: Seq<T>) -> Seq<T> { if p.w() == 0 { n } else { row_seq(p, y) } }
pub open spec fn neutral_seq<T: Pixel>(n: Seq<T>, w: int, b: int) -> bool { n.len() == (w + 1) / 2 && forall|i: int| 0 <= i < n.len() ==> (#[trigger] n[i]).val() == neutral(b) }
/// a row of a frame as arguments
pub proof fn frame_row<T: Pixel>(f: &Frame<T>, y: int, c: ChromaSampling, b: int, n: Seq<T>)
    requires frame_ready(f, c, b), 0 <= y < f.planes[0].h(), neutral_seq(n, f.planes[0].w(), b)
    ensures
        0 <= f.planes[0].pos(0, y) <= f.planes[0].pos(f.planes[0].w(), y) <= f.planes[0].data@.len(),
        f.planes[1].w() > 0 ==> half(y, cdec(c).1) < f.planes[1].h(),
        f.planes[2].w() > 0 ==> half(y, cdec(c).1) < f.planes[2].h(),
        forall|r: FrameRow<T>, len: int, d: int, k: int| #![trigger rows_ok(r, len, d, k)]
            len == f.planes[0].w() && d == cdec(c).0 && k == b && r.y@ == row_seq(&f.planes[0], y) && r.u@ == chroma_seq(&f.planes[1], half(y, cdec(c).1), n) && r.v@ == chroma_seq(&f.planes[2], half(y, cdec(c).1), n)
            ==> is_row(r, f, y, c, b) && rows_ok(r, len, d, k)
{
    reveal(frame_ready);
    let (w, h) = (f.planes[0].w(), f.planes[0].h());
    row_of(&f.planes[0], y, b);
    let y2 = half(y, cdec(c).1);
    if f.planes[1].w() > 0 { row_of(&f.planes[1], y2, b); }
    if f.planes[2].w() > 0 { row_of(&f.planes[2], y2, b); }
    depth_values();
    assert forall|r: FrameRow<T>, len: int, d: int, k: int| #![trigger rows_ok(r, len, d, k)]
        len == f.planes[0].w() && d == cdec(c).0 && k == b && r.y@ == row_seq(&f.planes[0], y) && r.u@ == chroma_seq(&f.planes[1], y2, n) && r.v@ == chroma_seq(&f.planes[2], y2, n)
        implies is_row(r, f, y, c, b) && rows_ok(r, len, d, k) by {
        assert forall|x: int| 0 <= x < w implies r.u@[half(x, cdec(c).0)].val() == #[trigger] chroma_at(&f.planes[1], x, y, c, b) by { let j = half(x, cdec(c).0); }
        assert forall|x: int| 0 <= x < w implies r.v@[half(x, cdec(c).0)].val() == #[trigger] chroma_at(&f.planes[2], x, y, c, b) by { let j = half(x, cdec(c).0); }
    }
}
pub proof fn row_pixels<T: Pixel>(f: &Frame<T>, g: &Frame<T>, y: int, c: ChromaSampling, b: int)
    requires f.planes[0].w() == g.planes[0].w()
    ensures forall|p: FrameRow<T>, q: FrameRow<T>, x: int, d: int, k: int| d == cdec(c).0 && k == b && is_row(p, f, y, c, b) && is_row(q, g, y, c, b) && 0 <= x < f.planes[0].w()
        ==> #[trigger] row_de(p, q, x, d, k) == pixel_de(f, g, x, y, c, b)
{
    assert forall|p: FrameRow<T>, q: FrameRow<T>, x: int, d: int, k: int| d == cdec(c).0 && k == b && is_row(p, f, y, c, b) && is_row(q, g, y, c, b) && 0 <= x < f.planes[0].w()
        implies #[trigger] row_de(p, q, x, d, k) == pixel_de(f, g, x, y, c, b) by {
        let u = (chroma_at(&f.planes[1], x, y, c, b), chroma_at(&f.planes[2], x, y, c, b));
        let v = (chroma_at(&g.planes[1], x, y, c, b), chroma_at(&g.planes[2], x, y, c, b));
        assert(p.y@[x].val() == f.planes[0].px(x, y) && q.y@[x].val() == g.planes[0].px(x, y));
    }
}
/// all of the differences of a row
pub open spec fn row_is<T: Pixel>(v: Seq<Fl>, f: &Frame<T>, g: &Frame<T>, y: int, c: ChromaSampling, b: int) -> bool {
    v.len() == f.planes[0].w() && forall|x: int| 0 <= x < v.len() ==> (#[trigger] v[x])@ == pixel_de(f, g, x, y, c, b)
}
