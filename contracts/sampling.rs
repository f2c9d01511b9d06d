// ------------------------------------------- dimensions of the chroma planes
/// columns and rows of chroma for each sample of luma
pub open spec fn cdec(c: ChromaSampling) -> (int, int) {
    match c { ChromaSampling::Cs420 => (1, 1), ChromaSampling::Cs422 => (1, 0), ChromaSampling::Cs444 => (0, 0), ChromaSampling::Cs400 => (1, 1) }
}
pub open spec fn chroma_w(c: ChromaSampling, w: int) -> int { if c == ChromaSampling::Cs400 { 0 } else if cdec(c).0 == 1 { (w + 1) / 2 } else { w } }
pub open spec fn chroma_h(c: ChromaSampling, h: int) -> int { if c == ChromaSampling::Cs400 { 0 } else if cdec(c).1 == 1 { (h + 1) / 2 } else { h } }
pub proof fn halves(x: usize)
    requires x < usize::MAX
    ensures (x + 1usize) as usize >> 1 == (x + 1) / 2, x >> 0usize == x
{
    let a = (x + 1) as usize;
    assert(a >> 1 == a / 2) by(bit_vector);
    assert(x >> 0usize == x) by(bit_vector);
}
