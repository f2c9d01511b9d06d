%include v_frame.rs
%include plane_math.rs
%include plane_fns.rs
# the functions of v_frame::Plane (from the source of the dependency)
%source @v_frame/src/math.rs
%fn usize::floor_log2
%self usize
%spec
    requires n == 5 || n == 6
    ensures ret <= this < ret + plane_pow2(n as int), ret as int % plane_pow2(n as int) == 0
%at start
    proof { plane_bits(this); }
%endfn
%fn usize::ceil_log2
%self usize
%spec
    requires n == 5 || n == 6, this <= usize::MAX - 64
    ensures this <= ret < this + plane_pow2(n as int), ret as int % plane_pow2(n as int) == 0
%at start
    proof { plane_bits(this); }
%endfn
%fn usize::align_power_of_two
%self usize
%spec
    requires n == 5 || n == 6, this <= usize::MAX - 64
    ensures this <= ret < this + plane_pow2(n as int), ret as int % plane_pow2(n as int) == 0
%endfn
%source @v_frame/src/plane.rs
%const PlaneConfig::STRIDE_ALIGNMENT_LOG2
%fn PlaneConfig::new
%spec
    requires type_size == 1 || type_size == 2, plane_small(width as int), plane_small(height as int), plane_small_pad(xpad as int), plane_small_pad(ypad as int)
    ensures
        ret.width == width, ret.height == height, ret.xdec == xdec, ret.ydec == ydec, ret.xpad == xpad, ret.ypad == ypad,
        xpad <= ret.xorigin < xpad + 64, xpad == 0 ==> ret.xorigin == 0,
        ret.yorigin == ypad, ret.alloc_height == ypad + height + ypad,
        ret.xorigin + width + xpad <= ret.stride < ret.xorigin + width + xpad + 64,
%endfn
%fn Plane::new
%spec
    requires plane_small(width as int), plane_small(height as int), plane_small_pad(xpad as int), plane_small_pad(ypad as int), width == 0 ==> height == 0, height == 0 && ypad == 0 ==> xpad == 0
    ensures
        ret.wf(), ret.w() == width, ret.h() == height, ret.cfg.xdec == xdec, ret.cfg.ydec == ydec,
        xpad == 0 && ypad == 0 ==> exact(&ret, width as int, height as int, xdec as int, ydec as int),
%at start
    proof { T::sizes(); }
%at let cfg
    proof {
        plane_area(cfg.stride as int, cfg.alloc_height as int);
        assert(cfg.yorigin * cfg.stride + cfg.xorigin <= cfg.stride * cfg.alloc_height) by(nonlinear_arith)
            requires cfg.yorigin + height <= cfg.alloc_height, cfg.xorigin + width + xpad <= cfg.stride, ypad > 0 ==> cfg.yorigin < cfg.alloc_height, cfg.yorigin < cfg.alloc_height || cfg.xorigin == 0;
    }
%endfn
%fn Plane::index
%spec
    requires
        y + self.cfg.yorigin <= usize::MAX, x + self.cfg.xorigin <= usize::MAX,
        (y + self.cfg.yorigin) * self.cfg.stride + (x + self.cfg.xorigin) <= usize::MAX,
    ensures ret == (y + self.cfg.yorigin) * self.cfg.stride + (x + self.cfg.xorigin)
%at start
    proof { 
        assert(0 <= (y + self.cfg.yorigin) * self.cfg.stride) by(nonlinear_arith); }
%endfn
%fn Plane::row_range_cropped
%spec
    requires self.wf(), x == 0, 0 <= y < self.h()
    ensures ret.start == self.pos(0, y as int), ret.end == self.pos(self.w(), y as int), ret.start <= ret.end <= self.data@.len()
%at start
    proof { plane_index_inside(self, 0, y as int); }
%endfn
%fn Plane::p
%spec
    requires self.wf(), x < self.w(), y < self.h()
    ensures ret == self.data@[self.pos(x as int, y as int)]
%at start
    proof { plane_index_inside(self, x as int, y as int); }
%endfn
%fn Plane::data_origin
%spec
    requires self.wf()
    ensures ret@ == self.data@.subrange(self.origin(), self.data@.len() as int), ret@.len() <= usize::MAX
%at start
    proof { plane_origin_index(self); }
%endfn
%fn Plane::data_origin_mut
%subst & mut self.data[i..] => & mut self.data.as_mut_slice()[i..]
%spec
        requires old(self).wf()
        ensures
            ret@ == old(self).data@.subrange(old(self).origin(), old(self).data@.len() as int),
            final(ret)@.len() == ret@.len(), ret@.len() <= usize::MAX,
            final(self).cfg == old(self).cfg,
            final(self).data@.len() == old(self).data@.len(),
            forall|i: int| 0 <= i < old(self).origin() ==> final(self).data@[i] == old(self).data@[i],
            forall|i: int| old(self).origin() <= i < old(self).data@.len() ==> #[trigger] final(self).data@[i] == final(ret)@[i - old(self).origin()],
%at start
    proof { plane_origin_index(self); }
%endfn
%fn PlaneIter::new
%spec
    requires plane.wf()
    ensures ret.ok(), ret.plane == plane, ret.seen() == 0
%endfn
%fn PlaneIter::width
%spec
    ensures ret == self.plane.w()
%endfn
%fn PlaneIter::height
%spec
    ensures ret == self.plane.h()
%endfn
%fn PlaneIter::next
%spec
    requires old(self).ok()
    ensures
        final(self).ok(), final(self).plane == old(self).plane,
        old(self).seen() == old(self).plane.w() * old(self).plane.h() <==> ret is None,
        ret is Some ==> final(self).seen() == old(self).seen() + 1 && ret == Some(old(self).plane.samples()[old(self).seen()]),
%at start
    proof {
        if self.y < self.plane.h() { plane_numbering(self.x as int, self.y as int, self.plane.w(), self.plane.h()); } else {
            assert(self.y * self.plane.w() == self.plane.w() * self.plane.h()) by(nonlinear_arith) requires self.y == self.plane.h(); }
    }
%endfn
%raw
impl<T: Pixel> Plane<T> {
    /// what a loop over the samples of the plane sees
    pub fn visible(&self) -> (r: Vec<T>)
        requires self.wf()
        ensures r@ == self.samples()
    {
        let mut it = PlaneIter::new(self);
        let mut v: Vec<T> = Vec::new();
        proof { assert(0 <= self.w() * self.h()) by(nonlinear_arith) requires self.w() >= 0, self.h() >= 0; }
        loop
            invariant
                self.wf(), it.ok(), it.plane == self, it.seen() == v@.len(), v@.len() <= self.w() * self.h(),
                forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == self.samples()[k],
            decreases self.w() * self.h() - v@.len()
        {
            match it.next() {
                None => { assert(v@ =~= self.samples()); return v; }
                Some(x) => {
                    proof { if it.y < self.h() { plane_numbering(it.x as int, it.y as int, self.w(), self.h()); } else { 
                        assert(it.y * self.w() == self.w() * self.h()) by(nonlinear_arith) requires it.y == self.h(); } }
                    v.push(x);
                }
            }
        }
    }
}
%end
