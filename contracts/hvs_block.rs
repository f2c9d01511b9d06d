// --------------------------------------------------------- PSNR-HVS of a plane
/// the sensitivities of the three planes
pub open spec fn csf_at(idx: int, n: int) -> real { if idx == 0 { csf_y(n) } else if idx == 1 { csf_cb(n) } else { csf_cr(n) } }
pub proof fn csf_pos(idx: int, n: int) ensures csf_at(idx, n) > 0real { pos_csf_y(n); pos_csf_cb(n); pos_csf_cr(n); }
pub open spec fn mask_at(idx: int, n: int) -> real { r_powi(csf_at(idx, n) * 0.3885746225901003real, 2) }
pub open spec fn quad(n: int) -> int { (if n / 8 >= 4 { 1int } else { 0int }) + (if n % 8 >= 4 { 2int } else { 0int }) }
/// the samples of the block with the corner (x, y), row by row
pub open spec fn blk<T: Pixel>(p: &Plane<T>, x: int, y: int) -> Seq<int> { Seq::new(64, |n: int| p.px(x + n % 8, y + n / 8)) }
/// sums over the first n samples: all of them, and those of a quadrant
pub open spec fn total(a: Seq<int>, n: int) -> real decreases n { if n <= 0 { 0real } else { total(a, n - 1) + a[n - 1] as real } }
pub open spec fn qtotal(a: Seq<int>, q: int, n: int) -> real decreases n { if n <= 0 { 0real } else { qtotal(a, q, n - 1) + (if quad(n - 1) == q { a[n - 1] as real } else { 0real }) } }
/// sums of squared deviations
pub open spec fn dev(a: Seq<int>, m: real, n: int) -> real decreases n { if n <= 0 { 0real } else { dev(a, m, n - 1) + (a[n - 1] as real - m) * (a[n - 1] as real - m) } }
pub open spec fn qdev(a: Seq<int>, q: int, m: real, n: int) -> real decreases n { if n <= 0 { 0real } else { qdev(a, q, m, n - 1) + (if quad(n - 1) == q { (a[n - 1] as real - m) * (a[n - 1] as real - m) } else { 0real }) } }
pub open spec fn gmean(a: Seq<int>) -> real { total(a, 64) / 64real }
pub open spec fn qmean(a: Seq<int>, q: int) -> real { qtotal(a, q, 64) / 16real }
pub open spec fn gvar(a: Seq<int>) -> real { dev(a, gmean(a), 64) * (64real / 63real) }
pub open spec fn qvar(a: Seq<int>, q: int) -> real { qdev(a, q, qmean(a, q), 64) * (16real / 15real) }
pub open spec fn qsum(a: Seq<int>, n: int) -> real decreases n { if n <= 0 { 0real } else { qsum(a, n - 1) + qvar(a, n - 1) } }
/// the variance of the quadrants relative to the one of the block
pub open spec fn spread(a: Seq<int>) -> real { if gvar(a) > 0real { qsum(a, 4) / gvar(a) } else { 0real } }
/// the masked energy of the coefficients 1 .. n-1
pub open spec fn energy(d: Seq<int>, idx: int, n: int) -> real decreases n { if n <= 1 { 0real } else { energy(d, idx, n - 1) + (d[n - 1] * d[n - 1]) as real * mask_at(idx, n - 1) } }
pub open spec fn masking(a: Seq<int>, idx: int) -> real { r_sqrt(energy(fd64(a), idx, 64) * spread(a)) / 32real }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
/// what is visible of the error of coefficient n
pub open spec fn seen(da: Seq<int>, db: Seq<int>, thr: real, idx: int, n: int) -> real {
    let e = iabs(da[n] - db[n]) as real;
    if n == 0 { e } else { rmax(e - thr / mask_at(idx, n), 0real) }
}
pub open spec fn errsum(da: Seq<int>, db: Seq<int>, thr: real, idx: int, n: int) -> real decreases n {
    if n <= 0 { 0real } else { errsum(da, db, thr, idx, n - 1) + r_powi(seen(da, db, thr, idx, n - 1) * csf_at(idx, n - 1), 2) }
}
pub open spec fn block_err(a: Seq<int>, b: Seq<int>, idx: int) -> real { errsum(fd64(a), fd64(b), rmax(masking(a, idx), masking(b, idx)), idx, 64) }
/// number of the blocks along a side: their corners are the multiples of 7 up to w - 8
pub open spec fn nblocks(w: int) -> int { if w < 8 { 0 } else { (w - 8) / 7 + 1 } }
/// the first n blocks of the row of blocks at y, and the first m rows
pub open spec fn row_err<T: Pixel>(p: &Plane<T>, q: &Plane<T>, idx: int, y: int, n: int) -> real
    decreases n
{ if n <= 0 { 0real } else { row_err(p, q, idx, y, n - 1) + block_err(blk(p, 7 * (n - 1), y), blk(q, 7 * (n - 1), y), idx) } }
pub open spec fn rows_err<T: Pixel>(p: &Plane<T>, q: &Plane<T>, idx: int, m: int) -> real
    decreases m
{ if m <= 0 { 0real } else { rows_err(p, q, idx, m - 1) + row_err(p, q, idx, 7 * (m - 1), nblocks(p.w())) } }
/// C08
pub open spec fn hvs_score<T: Pixel>(p: &Plane<T>, q: &Plane<T>, idx: int, b: int) -> real {
    if p.w() == 0 || p.h() == 0 { 0real } else {
        rows_err(p, q, idx, nblocks(p.h())) / (64 * (nblocks(p.w()) * nblocks(p.h()))) as real / (depth_max(b) * depth_max(b)) as real
    }
}
// --------------------------------------------------------------------- lemmas
pub proof fn powi2(x: real) ensures r_powi(x, 2) == x * x { reveal_with_fuel(r_powi, 3); assert(x * (x * 1real) == x * x) by(nonlinear_arith); }
proof fn sq_pos(x: real) ensures x * x >= 0real { assert(x * x >= 0real) by(nonlinear_arith); }
pub proof fn mask_pos(idx: int, n: int) ensures mask_at(idx, n) > 0real
{
    csf_pos(idx, n);
    let x = csf_at(idx, n) * 0.3885746225901003real;
    powi2(x);
    assert(x * x > 0real) by(nonlinear_arith) requires x > 0real;
}
proof fn energy_pos(d: Seq<int>, idx: int, n: int) ensures energy(d, idx, n) >= 0real decreases n
{
    if n > 1 {
        energy_pos(d, idx, n - 1);
        mask_pos(idx, n - 1);
        let (x, m) = (d[n - 1], mask_at(idx, n - 1));
        assert(x * x >= 0) by(nonlinear_arith);
        assert((x * x) as real * m >= 0real) by(nonlinear_arith) requires x * x >= 0, m > 0real;
    }
}
proof fn qdev_pos(a: Seq<int>, q: int, m: real, n: int) ensures qdev(a, q, m, n) >= 0real decreases n
{ if n > 0 { qdev_pos(a, q, m, n - 1); sq_pos(a[n - 1] as real - m); } }
proof fn qsum_pos(a: Seq<int>, n: int) ensures qsum(a, n) >= 0real decreases n
{
    if n > 0 { qsum_pos(a, n - 1); qdev_pos(a, n - 1, qmean(a, n - 1), 64); }
}
proof fn spread_pos(a: Seq<int>) ensures spread(a) >= 0real
{
    qsum_pos(a, 4);
    let (s, g) = (qsum(a, 4), gvar(a));
    if g > 0real { assert(s / g >= 0real) by(nonlinear_arith) requires s >= 0real, g > 0real; }
}
/// what the square root is taken of
pub proof fn masking_arg(a: Seq<int>, idx: int) ensures energy(fd64(a), idx, 64) * spread(a) >= 0real
{
    energy_pos(fd64(a), idx, 64); spread_pos(a);
    let (e, s) = (energy(fd64(a), idx, 64), spread(a));
    assert(e * s >= 0real) by(nonlinear_arith) requires e >= 0real, s >= 0real;
}
proof fn dev_pos(a: Seq<int>, m: real, n: int) ensures dev(a, m, n) >= 0real decreases n
{ if n > 0 { dev_pos(a, m, n - 1); sq_pos(a[n - 1] as real - m); } }
/// the quotient of the variances as it is calculated
pub proof fn spread_is(a: Seq<int>) ensures gvar(a) >= 0real, !(gvar(a) > 0real) ==> spread(a) == gvar(a), gvar(a) > 0real ==> spread(a) == qsum(a, 4) / gvar(a)
{ dev_pos(a, gmean(a), 64); }
/// row and column of a sample of the block
pub proof fn flat(i: int, j: int) requires 0 <= i < 8, 0 <= j < 8 ensures 0 <= 8 * i + j < 64, (8 * i + j) / 8 == i, (8 * i + j) % 8 == j {}
pub proof fn quad_is(i: usize, j: usize)
    requires i < 8, j < 8
    ensures ((i & 12) >> 2) + ((j & 12) >> 1) == quad(8 * i + j), 0 <= quad(8 * i + j) < 4, (i & 12) >> 2 <= 1, (j & 12) >> 1 <= 2
{
    flat(i as int, j as int);
    assert((i & 12usize) >> 2usize == (if i >= 4 { 1usize } else { 0usize })) by(bit_vector) requires i < 8;
    assert((j & 12usize) >> 1usize == (if j >= 4 { 2usize } else { 0usize })) by(bit_vector) requires j < 8;
}
/// the two planes and their samples
pub open spec fn sources<T: Pixel>(p: &Plane<T>, q: &Plane<T>, d: Seq<T>, e: Seq<T>, stride: int) -> bool {
    &&& p.wf() && q.wf() && p.cfg == q.cfg && stride == p.cfg.stride && fits_max(p, 4095) && fits_max(q, 4095)
    &&& d == p.data@.subrange(p.origin(), p.data@.len() as int) && e == q.data@.subrange(q.origin(), q.data@.len() as int)
    &&& d.len() <= usize::MAX && e.len() <= usize::MAX
}
pub open spec fn csf_table(m: [[Fl; 8]; 8], idx: int) -> bool { forall|i: int, j: int| 0 <= i < 8 && 0 <= j < 8 ==> (#[trigger] m[i][j])@ == csf_at(idx, 8 * i + j) }
pub open spec fn mask_table(m: [[Fl; 8]; 8], idx: int) -> bool { forall|i: int, j: int| 0 <= i < 8 && 0 <= j < 8 ==> (#[trigger] m[i][j])@ == mask_at(idx, 8 * i + j) }
/// the samples of a block
pub proof fn blk_at<T: Pixel>(p: &Plane<T>, x: int, y: int, i: int, j: int)
    requires p.wf(), fits_max(p, 4095), 0 <= x, x + 8 <= p.w(), 0 <= y, y + 8 <= p.h(), 0 <= i < 8, 0 <= j < 8
    ensures
        0 <= blk(p, x, y)[8 * i + j] <= 4095,
        blk(p, x, y)[8 * i + j] == p.data@[p.origin() + (y + i) * p.cfg.stride + x + j].val(),
        0 <= (y + i) * p.cfg.stride, (y + i) * p.cfg.stride + x + j < p.data@.len() - p.origin(),
{
    flat(i, j);
    px_fits(p, 4095, x + j, y + i);
    pos_inside(p, x + j, y + i);
    assert(0 <= (y + i) * p.cfg.stride) by(nonlinear_arith) requires y + i >= 0, p.cfg.stride >= 0;
}
pub proof fn blk_within<T: Pixel>(p: &Plane<T>, x: int, y: int)
    requires p.wf(), fits_max(p, 4095), 0 <= x, x + 8 <= p.w(), 0 <= y, y + 8 <= p.h()
    ensures blk(p, x, y).len() == 64, within(blk(p, x, y), 4095)
{
    assert forall|n: int| 0 <= n < 64 implies -4095 <= #[trigger] blk(p, x, y)[n] <= 4095 by { blk_at(p, x, y, n / 8, n % 8); }
}
/// there are not more blocks than samples
pub proof fn nblocks_small(w: int, h: int)
    requires w >= 8, h >= 8, w * h <= 4294967296
    ensures 1 <= nblocks(w) <= w, 1 <= nblocks(h) <= h, 1 <= nblocks(w) * nblocks(h) <= 4294967296
{
    assert(1 <= nblocks(w) <= w && 1 <= nblocks(h) <= h);
    let (a, b) = (nblocks(w), nblocks(h));
    assert(1 <= a * b <= w * h) by(nonlinear_arith) requires 1 <= a <= w, 1 <= b <= h;
}
pub proof fn csf_is(m: [[Fl; 8]; 8], idx: int)
    requires idx == 0 && is_csf_y(m) || idx == 1 && is_csf_cb(m) || idx == 2 && is_csf_cr(m)
    ensures csf_table(m, idx)
{
    if idx == 0 { at_csf_y(m); } else if idx == 1 { at_csf_cb(m); } else { at_csf_cr(m); }
}
pub proof fn hvs_end(w: int, h: int, b: usize)
    requires w >= 8, h >= 8, w * h <= 4294967296, 1 <= b <= 12
    ensures 64 * (nblocks(h) * nblocks(w)) == 64 * (nblocks(w) * nblocks(h)), nblocks(w) * nblocks(h) >= 1, 1 <= depth_max(b as int) * depth_max(b as int) <= 0x1_0000_0000
{
    nblocks_small(w, h);
    depth_range(b as int);
    let m = depth_max(b as int);
    assert(1 <= m * m <= 0x1_0000_0000) by(nonlinear_arith) requires 1 <= m <= 4095;
    assert(nblocks(h) * nblocks(w) == nblocks(w) * nblocks(h)) by(nonlinear_arith);
}
pub proof fn shl_is(b: usize) requires 1 <= b <= 12 ensures 2 <= (1usize << b) <= 4096, (1usize << b) == depth_max(b as int) + 1
{
    shl_one64(b);
    assert((1usize << b) as u64 == 1u64 << (b as u64)) by(bit_vector) requires b <= 12;
    assert(2 <= (1usize << b) <= 4096) by(bit_vector) requires 1 <= b <= 12;
}
