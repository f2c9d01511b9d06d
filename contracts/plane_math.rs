// ------------------------------------------------------ alignment (v_frame)
/// what a plane can be allocated with
pub open spec fn plane_small(x: int) -> bool { 0 <= x <= 2147483648 }
pub open spec fn plane_small_pad(x: int) -> bool { 0 <= x <= 65536 }
pub open spec fn plane_pow2(n: int) -> int { if n == 5 { 32 } else { 64 } }
pub trait Fixed {
    spec fn v(&self) -> int;
    fn floor_log2(&self, n: usize) -> (r: usize)
        requires n == 5 || n == 6
        ensures r <= self.v() < r + plane_pow2(n as int), r as int % plane_pow2(n as int) == 0;
    fn ceil_log2(&self, n: usize) -> (r: usize)
        requires n == 5 || n == 6, self.v() <= usize::MAX - 64
        ensures self.v() <= r < self.v() + plane_pow2(n as int), r as int % plane_pow2(n as int) == 0;
    fn align_power_of_two(&self, n: usize) -> (r: usize)
        requires n == 5 || n == 6, self.v() <= usize::MAX - 64
        ensures self.v() <= r < self.v() + plane_pow2(n as int), r as int % plane_pow2(n as int) == 0;
}
impl Fixed for usize {
    open spec fn v(&self) -> int { *self as int }
    fn floor_log2(&self, n: usize) -> (r: usize) { floor_log2(*self, n) }
    fn ceil_log2(&self, n: usize) -> (r: usize) { ceil_log2(*self, n) }
    fn align_power_of_two(&self, n: usize) -> (r: usize) { align_power_of_two(*self, n) }
}
pub proof fn plane_bits(x: usize)
    ensures
        (1usize << 5usize) == 32, (1usize << 6usize) == 64,
        (x & !31usize) <= x, x - (x & !31usize) < 32, (x & !31usize) % 32 == 0,
        (x & !63usize) <= x, x - (x & !63usize) < 64, (x & !63usize) % 64 == 0,
{
    assert((1usize << 5usize) == 32) by(bit_vector);
    assert((1usize << 6usize) == 64) by(bit_vector);
    assert((x & !31usize) <= x && sub(x, x & !31usize) < 32 && (x & !31usize) % 32 == 0) by(bit_vector);
    assert((x & !63usize) <= x && sub(x, x & !63usize) < 64 && (x & !63usize) % 64 == 0) by(bit_vector);
}
