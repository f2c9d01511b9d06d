// ------------------------------------------- planes and frames, for all metrics
/// no sample is larger than max
pub open spec fn fits_max<T: Pixel>(p: &Plane<T>, max: int) -> bool { forall|i: int| 0 <= i < p.samples().len() ==> (#[trigger] p.samples()[i]).val() <= max }
pub open spec fn small<T: Pixel>(p: &Plane<T>) -> bool { p.w() * p.h() <= 4294967296 && p.w() <= 4294967296 && p.h() <= 4294967296 }
pub open spec fn frame_small<T: Pixel>(f: &Frame<T>) -> bool { f.wf() && small(&f.planes[0]) && small(&f.planes[1]) && small(&f.planes[2]) }
pub open spec fn frame_fits<T: Pixel>(f: &Frame<T>, max: int) -> bool { fits_max(&f.planes[0], max) && fits_max(&f.planes[1], max) && fits_max(&f.planes[2], max) }
pub open spec fn weight_of(c: ChromaSampling) -> real {
    match c { ChromaSampling::Cs420 => 0.25real, ChromaSampling::Cs422 => 0.5real, ChromaSampling::Cs444 => 1real, ChromaSampling::Cs400 => 0real }
}
pub open spec fn sum_of(ms: Seq<PlanarMetrics>, c: int, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { sum_of(ms, c, k - 1) + (if c == 0 { ms[k - 1].y@ } else if c == 1 { ms[k - 1].u@ } else { ms[k - 1].v@ }) } }
pub proof fn shl_one64(b: usize) requires b <= 16 ensures (1u64 << b) == vstd::arithmetic::power2::pow2(b as nat), 1 <= (1u64 << b) <= 65536
{
    vstd::arithmetic::power2::lemma2_to64();
    if b < 16 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(b as nat, 16); }
    vstd::bits::lemma_u64_shl_is_mul(1, b as u64);
    assert(1u64 << b <= 65536 && 1u64 << b >= 1) by(bit_vector) requires b <= 16;
}
pub proof fn depth_range(b: int) requires 1 <= b <= 16 ensures 1 <= depth_max(b) <= 65535, b <= 12 ==> depth_max(b) <= 4095
{
    vstd::arithmetic::power2::lemma2_to64();
    if b < 16 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(b as nat, 16); }
    if b < 12 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(b as nat, 12); }
    if b > 1 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(1, b as nat); }
}
/// a visible sample is one of the samples
pub proof fn px_fits<T: Pixel>(p: &Plane<T>, max: int, x: int, y: int)
    requires fits_max(p, max), 0 <= x < p.w(), 0 <= y < p.h()
    ensures 0 <= p.px(x, y) <= max
{
    let (w, h) = (p.w(), p.h());
    let i = y * w + x;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, w, y, x);
    assert(0 <= i < w * h) by(nonlinear_arith) requires i == y * w + x, 0 <= x < w, 0 <= y < h;
    assert(p.samples()[i] == p.data@[p.pos(x, y)]);
    p.samples()[i].val_range();
}
/// the samples of two planes are equal
pub open spec fn same_px<T: Pixel>(p: &Plane<T>, q: &Plane<T>) -> bool { forall|x: int, y: int| 0 <= x < p.w() && 0 <= y < p.h() ==> #[trigger] p.px(x, y) == q.px(x, y) }
pub proof fn samples_px<T: Pixel>(p: &Plane<T>, q: &Plane<T>) requires same_plane(p, q) ensures same_px(p, q)
{
    assert forall|x: int, y: int| 0 <= x < p.w() && 0 <= y < p.h() implies #[trigger] p.px(x, y) == q.px(x, y) by {
        let (w, h) = (p.w(), p.h());
        let i = y * w + x;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, w, y, x);
        assert(0 <= i < w * h) by(nonlinear_arith) requires i == y * w + x, 0 <= x < w, 0 <= y < h;
        assert(p.samples()[i] == p.data@[p.pos(x, y)] && q.samples()[i] == q.data@[q.pos(x, y)]);
    }
}
