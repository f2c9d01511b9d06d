/// the buffer of a plane (v_frame allocates it with alloc and fills it)
use core::ops::Range;
pub struct PlaneData { }
impl PlaneData {
    #[verifier::external_body]
    pub fn new<T: Pixel>(len: usize) -> (r: Vec<T>)
        requires len <= usize::MAX
        ensures r@.len() == len
    { unimplemented!() }
}
/// the iterator over the visible samples
pub struct PlaneIter<'a, T: Pixel> { pub plane: &'a Plane<T>, pub y: usize, pub x: usize }
impl<'a, T: Pixel> PlaneIter<'a, T> {
    /// in front of a sample or at the end
    pub open spec fn ok(&self) -> bool {
        self.plane.wf() && (self.y < self.plane.h() && self.x < self.plane.w() || self.y == self.plane.h() && self.x == 0)
    }
    /// the number of samples that were delivered
    pub open spec fn seen(&self) -> int { self.y * self.plane.w() + self.x }
}
pub proof fn plane_index_inside<T: Pixel>(p: &Plane<T>, x: int, y: int)
    requires p.wf(), 0 <= x < p.w(), 0 <= y < p.h()
    ensures
        (y + p.cfg.yorigin) * p.cfg.stride + (x + p.cfg.xorigin) == p.pos(x, y),
        0 <= (y + p.cfg.yorigin) * p.cfg.stride <= p.pos(x, y) < p.data@.len() <= isize::MAX,
        y + p.cfg.yorigin <= isize::MAX, x + p.cfg.xorigin <= isize::MAX, p.cfg.stride <= isize::MAX, p.cfg.width <= p.cfg.stride,
        p.pos(p.w(), y) <= p.data@.len(), p.pos(p.w(), y) == p.pos(0, y) + p.w(),
{
    pos_inside(p, x, y);
    assert((y + p.cfg.yorigin) * p.cfg.stride == y * p.cfg.stride + p.cfg.yorigin * p.cfg.stride) by(nonlinear_arith);
    assert(0 <= (y + p.cfg.yorigin) * p.cfg.stride) by(nonlinear_arith) requires y >= 0;
    plane_fits(p);
    assert(p.cfg.alloc_height <= p.data@.len() && p.cfg.stride <= p.data@.len()) by(nonlinear_arith)
        requires p.data@.len() == p.cfg.stride * p.cfg.alloc_height, p.cfg.stride > 0, p.cfg.alloc_height > 0;
    origin_inside(p);
    assert(y * p.cfg.stride <= (p.h() - 1) * p.cfg.stride) by(nonlinear_arith) requires y <= p.h() - 1;
}
/// an allocation of Rust is never larger
pub axiom fn plane_fits<T: Pixel>(p: &Plane<T>) ensures p.data@.len() <= isize::MAX;
pub proof fn plane_origin_index<T: Pixel>(p: &Plane<T>)
    requires p.wf()
    ensures 0 <= p.cfg.yorigin * p.cfg.stride <= p.origin() <= p.data@.len() <= isize::MAX
{
    assert(0 <= p.cfg.yorigin * p.cfg.stride) by(nonlinear_arith);
    plane_fits(p);
}
/// counting the samples row by row
pub proof fn plane_numbering(x: int, y: int, w: int, h: int)
    requires 0 <= x < w, 0 <= y < h
    ensures (y * w + x) % w == x, (y * w + x) / w == y, 0 <= y * w + x < w * h, x == w - 1 ==> (y + 1) * w == y * w + x + 1
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * w + x, w, y, x);
    assert(0 <= y * w && (y + 1) * w <= w * h && (y + 1) * w == y * w + w) by(nonlinear_arith) requires 0 <= y < h, 0 < w;
}
pub proof fn plane_area(s: int, a: int)
    requires 0 <= s <= 2147680384, 0 <= a <= 2147614720
    ensures 0 <= s * a <= isize::MAX
{
    assert(0 <= s * a <= 2147680384 * 2147614720) by(nonlinear_arith) requires 0 <= s <= 2147680384, 0 <= a <= 2147614720;
}
/// a plane of exactly these dimensions
pub open spec fn exact<T: Pixel>(p: &Plane<T>, w: int, h: int, xdec: int, ydec: int) -> bool {
    &&& p.wf() && p.w() == w && p.h() == h && p.cfg.xdec == xdec && p.cfg.ydec == ydec
    &&& p.cfg.xpad == 0 && p.cfg.ypad == 0 && p.cfg.xorigin == 0 && p.cfg.yorigin == 0 && p.cfg.alloc_height == h && p.cfg.stride >= w
}
