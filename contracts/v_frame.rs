// ---------------------------------------------- the v_frame crate (assumed)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum PixelType { U8, U16 }
/// A sample type: u8 or u16.
pub trait Pixel: Copy + Sized {
    spec fn val(self) -> int;
    /// the largest value
    spec fn vmax() -> int;
    /// size in bytes
    spec fn bytes() -> int;
    proof fn val_range(self) ensures 0 <= self.val() <= Self::vmax(), Self::vmax() <= 65535, Self::vmax() == 255 || Self::vmax() == 65535,
        Self::bytes() == 1 <==> Self::vmax() == 255, Self::bytes() == 1 || Self::bytes() == 2;
    proof fn sizes() ensures Self::bytes() == 1 <==> Self::vmax() == 255, Self::bytes() == 2 <==> Self::vmax() == 65535, Self::bytes() == 1 || Self::bytes() == 2;
    proof fn val_inj(self, o: Self) ensures self.val() == o.val() ==> self == o;
    fn to_i32(self) -> (r: i32) ensures r == self.val();
    fn to_u16(self) -> (r: u16) ensures r == self.val();
    fn to_u8(self) -> (r: u8) requires self.val() <= 255 ensures r == self.val();
    /// a value that does not fit is cut off
    fn from_i32(x: i32) -> (r: Self) ensures 0 <= x <= Self::vmax() ==> r.val() == x;
    fn from_u8(x: u8) -> (r: Self) ensures r.val() == x;
    fn size() -> (r: usize) ensures r == Self::bytes();
    fn type_enum() -> (r: PixelType) ensures r == PixelType::U16 <==> Self::bytes() == 2;
}
pub broadcast proof fn px_range<T: Pixel>(t: T) ensures 0 <= #[trigger] t.val() <= T::vmax(), T::vmax() <= 65535 { t.val_range(); }
impl Pixel for u8 {
    open spec fn val(self) -> int { self as int }
    open spec fn vmax() -> int { 255 }
    open spec fn bytes() -> int { 1 }
    proof fn val_range(self) {}
    proof fn sizes() {}
    proof fn val_inj(self, o: Self) {}
    fn to_i32(self) -> (r: i32) { self as i32 }
    fn to_u16(self) -> (r: u16) { self as u16 }
    fn to_u8(self) -> (r: u8) { self }
    #[verifier::truncate]
    fn from_i32(x: i32) -> (r: Self) { x as u8 }
    fn from_u8(x: u8) -> (r: Self) { x }
    fn size() -> (r: usize) { 1 }
    fn type_enum() -> (r: PixelType) { PixelType::U8 }
}
impl Pixel for u16 {
    open spec fn val(self) -> int { self as int }
    open spec fn vmax() -> int { 65535 }
    open spec fn bytes() -> int { 2 }
    proof fn val_range(self) {}
    proof fn sizes() {}
    proof fn val_inj(self, o: Self) {}
    fn to_i32(self) -> (r: i32) { self as i32 }
    fn to_u16(self) -> (r: u16) { self }
    fn to_u8(self) -> (r: u8) { self as u8 }
    #[verifier::truncate]
    fn from_i32(x: i32) -> (r: Self) { x as u16 }
    fn from_u8(x: u8) -> (r: Self) { x as u16 }
    fn size() -> (r: usize) { 2 }
    fn type_enum() -> (r: PixelType) { PixelType::U16 }
}
/// the argument of a cast to a sample
pub trait ToI32: Sized { spec fn i32_spec(self) -> int; fn i32_exec(self) -> (r: i32) ensures r == self.i32_spec(); }
impl ToI32 for i32 { open spec fn i32_spec(self) -> int { self as int } fn i32_exec(self) -> (r: i32) { self } }
impl ToI32 for u16 { open spec fn i32_spec(self) -> int { self as int } fn i32_exec(self) -> (r: i32) { self as i32 } }
impl ToI32 for u8 { open spec fn i32_spec(self) -> int { self as int } fn i32_exec(self) -> (r: i32) { self as i32 } }
pub fn vx_to_i32<T: ToI32>(x: T) -> (r: i32) ensures r == x.i32_spec() { x.i32_exec() }
pub trait CastFrom<T>: Sized {
    spec fn cast_req(t: T) -> bool;
    spec fn cast_ens(t: T, r: Self) -> bool;
    fn cast_from(t: T) -> (r: Self) requires Self::cast_req(t) ensures Self::cast_ens(t, r);
}
impl<T: Pixel> CastFrom<T> for i32 {
    open spec fn cast_req(t: T) -> bool { true }
    open spec fn cast_ens(t: T, r: i32) -> bool { r == t.val() }
    fn cast_from(t: T) -> (r: i32) { t.to_i32() }
}
impl<T: Pixel> CastFrom<T> for u32 {
    open spec fn cast_req(t: T) -> bool { true }
    open spec fn cast_ens(t: T, r: u32) -> bool { r == t.val() }
    fn cast_from(t: T) -> (r: u32) { t.to_u16() as u32 }
}
impl<T: Pixel> CastFrom<T> for i16 {
    open spec fn cast_req(t: T) -> bool { true }
    open spec fn cast_ens(t: T, r: i16) -> bool { t.val() <= 32767 ==> r == t.val() }
    #[verifier::truncate]
    fn cast_from(t: T) -> (r: i16) { t.to_u16() as i16 }
}
impl<T: Pixel> CastFrom<T> for u16 {
    open spec fn cast_req(t: T) -> bool { true }
    open spec fn cast_ens(t: T, r: u16) -> bool { r == t.val() }
    fn cast_from(t: T) -> (r: u16) { t.to_u16() }
}
impl<T: Pixel> CastFrom<T> for u8 {
    open spec fn cast_req(t: T) -> bool { t.val() <= 255 }
    open spec fn cast_ens(t: T, r: u8) -> bool { r == t.val() }
    fn cast_from(t: T) -> (r: u8) { t.to_u8() }
}

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ChromaSampling { Cs420, Cs422, Cs444, Cs400 }

#[derive(Clone, PartialEq, Eq, Structural)]
pub struct PlaneConfig {
    pub stride: usize, pub alloc_height: usize, pub width: usize, pub height: usize,
    pub xdec: usize, pub ydec: usize, pub xpad: usize, pub ypad: usize, pub xorigin: usize, pub yorigin: usize,
}
pub struct Plane<T: Pixel> { pub data: Vec<T>, pub cfg: PlaneConfig }
pub struct Frame<T: Pixel> { pub planes: [Plane<T>; 3] }
impl<T: Pixel> Frame<T> {
    pub open spec fn wf(&self) -> bool { self.planes[0].wf() && self.planes[1].wf() && self.planes[2].wf() }
    /// same geometry of the three planes
    pub open spec fn fits(&self, o: &Frame<T>) -> bool {
        self.planes[0].cfg == o.planes[0].cfg && self.planes[1].cfg == o.planes[1].cfg && self.planes[2].cfg == o.planes[2].cfg
    }
}
/// the visible samples of two frames are equal
pub open spec fn same_samples<T: Pixel>(f: &Frame<T>, g: &Frame<T>) -> bool {
    forall|c: int| 0 <= c < 3 ==> same_plane(&#[trigger] f.planes[c], &g.planes[c])
}
pub open spec fn same_plane<T: Pixel>(p: &Plane<T>, q: &Plane<T>) -> bool {
    p.w() == q.w() && p.h() == q.h() && p.samples() == q.samples()
}
/// size_of::<T>()
pub fn vx_size_of<T: Pixel>() -> (r: usize) ensures r == T::bytes() { T::size() }

impl<T: Pixel> Plane<T> {
    /// every visible sample is stored
    pub open spec fn wf(&self) -> bool {
        &&& self.cfg.xorigin + self.cfg.width <= self.cfg.stride
        &&& self.cfg.yorigin + self.cfg.height <= self.cfg.alloc_height
        &&& self.data@.len() == self.cfg.stride * self.cfg.alloc_height
        &&& self.origin() <= self.data@.len()
        &&& self.w() == 0 ==> self.h() == 0
    }
    pub open spec fn w(&self) -> int { self.cfg.width as int }
    pub open spec fn h(&self) -> int { self.cfg.height as int }
    pub open spec fn origin(&self) -> int { self.cfg.yorigin * self.cfg.stride + self.cfg.xorigin }
    /// where the sample in column x of row y is stored
    pub open spec fn pos(&self, x: int, y: int) -> int { self.origin() + y * self.cfg.stride + x }
    /// value of the visible sample in column x of row y
    pub open spec fn px(&self, x: int, y: int) -> int { self.data@[self.pos(x, y)].val() }
    /// the visible samples from left to right, row by row
    pub open spec fn samples(&self) -> Seq<T> {
        Seq::new((self.w() * self.h()) as nat, |i: int| self.data@[self.pos(i % self.w(), i / self.w())])
    }
    /// the values of a visible row
    pub open spec fn row(&self, y: int) -> Seq<T> {
        Seq::new(self.w() as nat, |x: int| self.data@[self.pos(x, y)])
    }
}
pub proof fn origin_inside<T: Pixel>(p: &Plane<T>)
    requires p.wf(), p.w() > 0, p.h() > 0
    ensures 0 <= p.origin() < p.data@.len(), p.origin() + (p.h() - 1) * p.cfg.stride + p.w() <= p.data@.len(),
{
    assert((p.cfg.yorigin + p.cfg.height) * p.cfg.stride <= p.cfg.alloc_height * p.cfg.stride) by(nonlinear_arith)
        requires p.cfg.yorigin + p.cfg.height <= p.cfg.alloc_height;
    assert((p.cfg.yorigin + p.cfg.height) * p.cfg.stride == p.cfg.yorigin * p.cfg.stride + (p.cfg.height - 1) * p.cfg.stride + p.cfg.stride) by(nonlinear_arith);
    assert(p.cfg.yorigin * p.cfg.stride >= 0) by(nonlinear_arith);
    assert((p.cfg.height - 1) * p.cfg.stride >= 0) by(nonlinear_arith) requires p.cfg.height > 0;
    assert(p.cfg.stride * p.cfg.alloc_height == p.cfg.alloc_height * p.cfg.stride) by(nonlinear_arith);
}
pub proof fn pos_inside<T: Pixel>(p: &Plane<T>, x: int, y: int)
    requires p.wf(), 0 <= x < p.w(), 0 <= y < p.h()
    ensures p.origin() <= p.pos(x, y) < p.data@.len()
{
    origin_inside(p);
    assert(0 <= y * p.cfg.stride <= (p.cfg.height - 1) * p.cfg.stride) by(nonlinear_arith) requires 0 <= y <= p.cfg.height - 1;
}
