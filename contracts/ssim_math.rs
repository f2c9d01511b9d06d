// ------------------------------------------------- the moments of a window
/// weighted sums of the samples of a window
pub struct Mo { pub mux: int, pub muy: int, pub x2: int, pub xy: int, pub y2: int, pub w: int }
pub open spec fn m0() -> Mo { Mo { mux: 0, muy: 0, x2: 0, xy: 0, y2: 0, w: 0 } }
/// one pair of samples
pub open spec fn m_pix(a: int, b: int) -> Mo { Mo { mux: a, muy: b, x2: a * a, xy: a * b, y2: b * b, w: 1 } }
pub open spec fn m_scale(k: int, m: Mo) -> Mo { Mo { mux: k * m.mux, muy: k * m.muy, x2: k * m.x2, xy: k * m.xy, y2: k * m.y2, w: k * m.w } }
pub open spec fn m_add(m: Mo, n: Mo) -> Mo {
    Mo { mux: m.mux + n.mux, muy: m.muy + n.muy, x2: m.x2 + n.x2, xy: m.xy + n.xy, y2: m.y2 + n.y2, w: m.w + n.w }
}
/// two planes of w columns and h rows, and the windows
pub struct Pic { pub a: Seq<u32>, pub b: Seq<u32>, pub w: int, pub h: int, pub vk: Seq<i64>, pub hk: Seq<i64> }
/// what position k of the horizontal window, centred on column x, adds: nothing outside of the plane
pub open spec fn hterm(p: Pic, x: int, y: int, k: int) -> Mo {
    let c = x + k - p.hk.len() as int / 2;
    if 0 <= c < p.w { m_scale(p.hk[k] as int, m_pix(p.a[y * p.w + c] as int, p.b[y * p.w + c] as int)) } else { m0() }
}
pub open spec fn hsum(p: Pic, x: int, y: int, k: int) -> Mo
    decreases k
{ if k <= 0 { m0() } else { m_add(hsum(p, x, y, k - 1), hterm(p, x, y, k - 1)) } }
pub open spec fn hall(p: Pic, x: int, y: int) -> Mo { hsum(p, x, y, p.hk.len() as int) }
pub open spec fn vterm(p: Pic, x: int, y: int, k: int) -> Mo {
    let r = y + k - p.vk.len() as int / 2;
    if 0 <= r < p.h { m_scale(p.vk[k] as int, hall(p, x, r)) } else { m0() }
}
pub open spec fn vsum(p: Pic, x: int, y: int, k: int) -> Mo
    decreases k
{ if k <= 0 { m0() } else { m_add(vsum(p, x, y, k - 1), vterm(p, x, y, k - 1)) } }
/// the moments of the window centred on column x of row y, clipped at the borders
pub open spec fn window(p: Pic, x: int, y: int) -> Mo { vsum(p, x, y, p.vk.len() as int) }

/// contrast and structure term, times the weight of the window
pub open spec fn con_of(m: Mo, smax: int) -> real {
    let w = m.w as real;
    let c2 = (smax * smax) as real * 0.0009real * (w * w);
    w * (c2 + 2real * (m.xy as real * w - m.mux as real * m.muy as real))
        / (m.x2 as real * w - m.mux as real * m.mux as real + m.y2 as real * w - m.muy as real * m.muy as real + c2)
}
/// the SSIM index, times the weight of the window
pub open spec fn sim_of(m: Mo, smax: int) -> real {
    let w = m.w as real;
    let c1 = (smax * smax) as real * 0.0001real * (w * w);
    con_of(m, smax) * (2real * (m.mux as real * m.muy as real) + c1) / (m.mux as real * m.mux as real + m.muy as real * m.muy as real + c1)
}
/// what is summed up: 0 the SSIM, 1 the contrast, 2 the weights
pub open spec fn px_val(p: Pic, smax: int, q: int, x: int, y: int) -> real {
    if q == 0 { sim_of(window(p, x, y), smax) } else if q == 1 { con_of(window(p, x, y), smax) } else { window(p, x, y).w as real }
}
/// sum over the rows above y and the first x columns of row y
pub open spec fn tot(p: Pic, smax: int, q: int, x: int, y: int) -> real
    decreases y, x
{
    if y < 0 { 0real } else if x > 0 { tot(p, smax, q, x - 1, y) + px_val(p, smax, q, x - 1, y) }
    else if y > 0 && p.w > 0 { tot(p, smax, q, p.w, y - 1) } else { 0real }
}
/// mean over the plane, weighted with the weights of the clipped windows
pub open spec fn mean_ssim(p: Pic, smax: int) -> real { tot(p, smax, 0, 0, p.h) / tot(p, smax, 2, 0, p.h) }
pub open spec fn mean_con(p: Pic, smax: int) -> real { tot(p, smax, 1, 0, p.h) / tot(p, smax, 2, 0, p.h) }

// ------------------------------------------------------------------ bounds
pub open spec fn ksum(k: Seq<i64>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { ksum(k, n - 1) + k[n - 1] } }
/// a window: odd length, no negative coefficient, a positive centre
#[verifier::opaque]
pub open spec fn ker_ok(k: Seq<i64>) -> bool {
    &&& k.len() % 2 == 1 && k.len() <= 0x4000_0000
    &&& forall|i: int| 0 <= i < k.len() ==> 0 <= #[trigger] k[i]
    &&& k[k.len() as int / 2] >= 1
    &&& ksum(k, k.len() as int) <= 1024
}
pub open spec fn smax_ok(s: int) -> bool { 1 <= s <= 1048576 }
/// samples of at most s
#[verifier::opaque]
pub open spec fn pic_ok(p: Pic, s: int) -> bool {
    &&& smax_ok(s)
    &&& 0 < p.w && 0 < p.h && p.w * p.h <= 4294967296
    &&& p.a.len() == p.w * p.h && p.b.len() == p.w * p.h
    &&& forall|i: int| 0 <= i < p.a.len() ==> 0 <= #[trigger] p.a[i] <= s
    &&& forall|i: int| 0 <= i < p.b.len() ==> 0 <= #[trigger] p.b[i] <= s
    &&& ker_ok(p.vk) && ker_ok(p.hk)
}
/// Cauchy-Schwarz and the ranges
#[verifier::opaque]
pub open spec fn mok(m: Mo, s: int) -> bool {
    &&& 0 <= m.w
    &&& 0 <= m.mux <= s * m.w && 0 <= m.muy <= s * m.w
    &&& 0 <= m.x2 <= s * s * m.w && 0 <= m.xy <= s * s * m.w && 0 <= m.y2 <= s * s * m.w
    &&& m.mux * m.mux <= m.x2 * m.w && m.muy * m.muy <= m.y2 * m.w
}
proof fn sq_le(p: int, q: int)
    requires 0 <= q, p * p <= q * q
    ensures p <= q
{ assert(p <= q) by(nonlinear_arith) requires 0 <= q, p * p <= q * q; }
/// (a + b)^2 <= (c + d) (w + v) from a^2 <= c w and b^2 <= d v
proof fn cs_add(a: int, c: int, w: int, b: int, d: int, v: int)
    requires 0 <= a, 0 <= b, 0 <= c, 0 <= d, 0 <= w, 0 <= v, a * a <= c * w, b * b <= d * v
    ensures (a + b) * (a + b) <= (c + d) * (w + v)
{
    let (e, f) = (c * v, d * w);
    assert(0 <= e && 0 <= f) by(nonlinear_arith) requires e == c * v, f == d * w, 0 <= c, 0 <= d, 0 <= w, 0 <= v;
    assert((a * a) * (b * b) <= (c * w) * (d * v)) by(nonlinear_arith) requires 0 <= a * a <= c * w, 0 <= b * b <= d * v;
    assert((c * w) * (d * v) == e * f) by(nonlinear_arith) requires e == c * v, f == d * w;
    assert((a * a) * (b * b) == (a * b) * (a * b)) by(nonlinear_arith);
    assert((2 * (a * b)) * (2 * (a * b)) == 4 * ((a * b) * (a * b))) by(nonlinear_arith);
    assert((e + f) * (e + f) >= 4 * (e * f)) by(nonlinear_arith) { assert((e - f) * (e - f) >= 0) by(nonlinear_arith); }
    sq_le(2 * (a * b), e + f);
    assert((a + b) * (a + b) == a * a + 2 * (a * b) + b * b) by(nonlinear_arith);
    assert((c + d) * (w + v) == c * w + c * v + d * w + d * v) by(nonlinear_arith);
}
pub proof fn mok_add(m: Mo, n: Mo, s: int)
    requires mok(m, s), mok(n, s)
    ensures mok(m_add(m, n), s)
{
    reveal(mok);
    assert(s * (m.w + n.w) == s * m.w + s * n.w) by(nonlinear_arith);
    assert(s * s * (m.w + n.w) == s * s * m.w + s * s * n.w) by(nonlinear_arith);
    cs_add(m.mux, m.x2, m.w, n.mux, n.x2, n.w);
    cs_add(m.muy, m.y2, m.w, n.muy, n.y2, n.w);
}
pub proof fn mok_scale(k: int, m: Mo, s: int)
    requires mok(m, s), k >= 0
    ensures mok(m_scale(k, m), s)
{
    reveal(mok);
    let n = m_scale(k, m);
    scale_le(k, m.mux, s, m.w); scale_le(k, m.muy, s, m.w);
    scale_le(k, m.x2, s * s, m.w); scale_le(k, m.xy, s * s, m.w); scale_le(k, m.y2, s * s, m.w);
    scale_cs(k, m.mux, m.x2, m.w); scale_cs(k, m.muy, m.y2, m.w);
    assert(0 <= k * m.w) by(nonlinear_arith) requires k >= 0, m.w >= 0;
}
proof fn scale_le(k: int, a: int, s: int, w: int)
    requires k >= 0, 0 <= a <= s * w
    ensures 0 <= k * a <= s * (k * w)
{ assert(0 <= k * a <= k * (s * w)) by(nonlinear_arith) requires k >= 0, 0 <= a <= s * w; assert(k * (s * w) == s * (k * w)) by(nonlinear_arith); }
proof fn scale_cs(k: int, a: int, c: int, w: int)
    requires a * a <= c * w
    ensures (k * a) * (k * a) <= (k * c) * (k * w)
{
    assert((k * a) * (k * a) == (k * k) * (a * a)) by(nonlinear_arith);
    assert((k * c) * (k * w) == (k * k) * (c * w)) by(nonlinear_arith);
    assert(k * k >= 0) by(nonlinear_arith);
    assert((k * k) * (a * a) <= (k * k) * (c * w)) by(nonlinear_arith) requires k * k >= 0, a * a <= c * w;
}
pub proof fn mok_pix(a: int, b: int, s: int)
    requires 0 <= a <= s, 0 <= b <= s
    ensures mok(m_pix(a, b), s)
{
    reveal(mok);
    assert(0 <= a * a <= s * s) by(nonlinear_arith) requires 0 <= a <= s;
    assert(0 <= b * b <= s * s) by(nonlinear_arith) requires 0 <= b <= s;
    assert(0 <= a * b <= s * s) by(nonlinear_arith) requires 0 <= a <= s, 0 <= b <= s;
    assert(s * 1 == s && s * s * 1 == s * s);
    assert(a * a * 1 == a * a && b * b * 1 == b * b);
}
pub proof fn mok_zero(s: int)
    requires s >= 0
    ensures mok(m0(), s)
{ reveal(mok); assert(s * 0 == 0 && s * s * 0 == 0) by(nonlinear_arith); }
/// everything fits into 64 bits
pub proof fn mok_bounds(m: Mo, s: int, t: int)
    requires mok(m, s), smax_ok(s), m.w <= t, 0 <= t <= 1048576
    ensures
        0 <= m.w <= t, 0 <= m.mux <= 1048576 * t, 0 <= m.muy <= 1048576 * t,
        0 <= m.x2 <= 1099511627776 * t, 0 <= m.xy <= 1099511627776 * t, 0 <= m.y2 <= 1099511627776 * t,
{
    reveal(mok);
    assert(0 <= s * m.w <= 1048576 * t) by(nonlinear_arith) requires 0 <= s <= 1048576, 0 <= m.w <= t;
    assert(0 <= s * s <= 1099511627776) by(nonlinear_arith) requires 0 <= s <= 1048576;
    assert(0 <= (s * s) * m.w <= 1099511627776 * t) by(nonlinear_arith) requires 0 <= s * s <= 1099511627776, 0 <= m.w <= t;
}
pub proof fn ksum_mono(k: Seq<i64>, i: int, j: int)
    requires forall|i: int| 0 <= i < k.len() ==> 0 <= #[trigger] k[i], 0 <= i <= j <= k.len()
    ensures 0 <= ksum(k, i) <= ksum(k, j)
    decreases j
{ if i < j { ksum_mono(k, i, j - 1); } else if i > 0 { ksum_mono(k, i - 1, i - 1); assert(k[i - 1] >= 0); } }
/// the parts of a window
pub proof fn ker_parts(k: Seq<i64>, i: int)
    requires ker_ok(k), 0 <= i <= k.len()
    ensures
        k.len() % 2 == 1, k.len() <= 0x4000_0000, 0 <= ksum(k, i) <= 1024, k[k.len() as int / 2] >= 1,
        i < k.len() ==> 0 <= k[i] <= 1024 && ksum(k, i + 1) == ksum(k, i) + k[i] && ksum(k, i + 1) <= 1024,
{
    reveal(ker_ok);
    ksum_mono(k, i, k.len() as int);
    if i < k.len() { ksum_mono(k, i + 1, k.len() as int); ksum_mono(k, i, i + 1); assert(k[i] >= 0); }
}
/// position of a sample
pub proof fn at(p: Pic, s: int, x: int, y: int)
    requires pic_ok(p, s), 0 <= x < p.w, 0 <= y < p.h
    ensures 0 <= y * p.w, y * p.w + p.w <= p.a.len(), y * p.w + x < p.a.len(), p.a.len() == p.b.len(), p.a.len() <= 4294967296,
        0 <= p.a[y * p.w + x] <= s, 0 <= p.b[y * p.w + x] <= s,
{
    reveal(pic_ok);
    assert(0 <= y * p.w && y * p.w + p.w <= p.w * p.h) by(nonlinear_arith) requires 0 <= y <= p.h - 1, p.w > 0;
}
pub proof fn hterm_ok(p: Pic, s: int, x: int, y: int, k: int)
    requires pic_ok(p, s), 0 <= x < p.w, 0 <= y < p.h, 0 <= k < p.hk.len()
    ensures mok(hterm(p, x, y, k), s), hterm(p, x, y, k).w <= p.hk[k], smax_ok(s), p.hk[k] >= 0,
        k == p.hk.len() as int / 2 ==> hterm(p, x, y, k).w >= 1,
{
    assert(smax_ok(s) && ker_ok(p.hk)) by { reveal(pic_ok); }
    ker_parts(p.hk, k);
    let c = x + k - p.hk.len() as int / 2;
    if 0 <= c < p.w {
        at(p, s, c, y);
        let (a, b) = (p.a[y * p.w + c] as int, p.b[y * p.w + c] as int);
        mok_pix(a, b, s);
        mok_scale(p.hk[k] as int, m_pix(a, b), s);
    } else { mok_zero(s); }
}
pub proof fn hsum_ok(p: Pic, s: int, x: int, y: int, k: int)
    requires pic_ok(p, s), 0 <= x < p.w, 0 <= y < p.h, 0 <= k <= p.hk.len()
    ensures mok(hsum(p, x, y, k), s), hsum(p, x, y, k).w <= ksum(p.hk, k) <= 1024, smax_ok(s),
        k > p.hk.len() as int / 2 ==> hsum(p, x, y, k).w >= 1,
    decreases k
{
    assert(smax_ok(s) && ker_ok(p.hk)) by { reveal(pic_ok); }
    ker_parts(p.hk, k);
    if k > 0 {
        hsum_ok(p, s, x, y, k - 1);
        hterm_ok(p, s, x, y, k - 1);
        mok_add(hsum(p, x, y, k - 1), hterm(p, x, y, k - 1), s);
        assert(hterm(p, x, y, k - 1).w >= 0 && hsum(p, x, y, k - 1).w >= 0) by { reveal(mok); }
    } else { mok_zero(s); }
}
/// positions outside of the plane add nothing
pub proof fn hsum_skip(p: Pic, x: int, y: int, i: int, j: int)
    requires 0 <= i <= j, forall|k: int| i <= k < j ==> !(0 <= #[trigger] (x + k) - p.hk.len() as int / 2 < p.w)
    ensures hsum(p, x, y, j) == hsum(p, x, y, i)
    decreases j
{ if i < j { hsum_skip(p, x, y, i, j - 1); let k = j - 1; assert(!(0 <= (x + k) - p.hk.len() as int / 2 < p.w)); } }
pub proof fn vsum_skip(p: Pic, x: int, y: int, i: int, j: int)
    requires 0 <= i <= j, forall|k: int| i <= k < j ==> !(0 <= #[trigger] (y + k) - p.vk.len() as int / 2 < p.h)
    ensures vsum(p, x, y, j) == vsum(p, x, y, i)
    decreases j
{ if i < j { vsum_skip(p, x, y, i, j - 1); let k = j - 1; assert(!(0 <= (y + k) - p.vk.len() as int / 2 < p.h)); } }
pub proof fn vterm_ok(p: Pic, s: int, x: int, y: int, k: int)
    requires pic_ok(p, s), 0 <= x < p.w, 0 <= y < p.h, 0 <= k < p.vk.len()
    ensures mok(vterm(p, x, y, k), s), vterm(p, x, y, k).w <= 1024 * p.vk[k], smax_ok(s), p.vk[k] >= 0,
        k == p.vk.len() as int / 2 ==> vterm(p, x, y, k).w >= 1,
{
    assert(smax_ok(s) && ker_ok(p.vk)) by { reveal(pic_ok); }
    ker_parts(p.vk, k);
    let r = y + k - p.vk.len() as int / 2;
    if 0 <= r < p.h {
        assert(p.hk.len() as int / 2 < p.hk.len()) by { reveal(pic_ok); ker_parts(p.hk, 0); }
        hsum_ok(p, s, x, r, p.hk.len() as int);
        let m = hall(p, x, r);
        mok_scale(p.vk[k] as int, m, s);
        assert(p.vk[k] * m.w <= 1024 * p.vk[k]) by(nonlinear_arith) requires p.vk[k] >= 0, m.w <= 1024;
        assert(p.vk[k] >= 1 ==> p.vk[k] * m.w >= 1) by(nonlinear_arith) requires m.w >= 1;
    } else { mok_zero(s); }
}
pub proof fn vsum_ok(p: Pic, s: int, x: int, y: int, k: int)
    requires pic_ok(p, s), 0 <= x < p.w, 0 <= y < p.h, 0 <= k <= p.vk.len()
    ensures mok(vsum(p, x, y, k), s), vsum(p, x, y, k).w <= 1024 * ksum(p.vk, k) <= 1048576, smax_ok(s),
        k > p.vk.len() as int / 2 ==> vsum(p, x, y, k).w >= 1,
    decreases k
{
    assert(smax_ok(s) && ker_ok(p.vk)) by { reveal(pic_ok); }
    ker_parts(p.vk, k);
    if k > 0 {
        vsum_ok(p, s, x, y, k - 1);
        vterm_ok(p, s, x, y, k - 1);
        mok_add(vsum(p, x, y, k - 1), vterm(p, x, y, k - 1), s);
        assert(vterm(p, x, y, k - 1).w >= 0 && vsum(p, x, y, k - 1).w >= 0) by { reveal(mok); }
    } else { mok_zero(s); }
}
pub proof fn window_ok(p: Pic, s: int, x: int, y: int)
    requires pic_ok(p, s), 0 <= x < p.w, 0 <= y < p.h
    ensures mok(window(p, x, y), s), 1 <= window(p, x, y).w <= 1048576, smax_ok(s),
{
    assert(p.vk.len() as int / 2 < p.vk.len()) by { reveal(pic_ok); ker_parts(p.vk, 0); }
    vsum_ok(p, s, x, y, p.vk.len() as int);
}
proof fn real_mul(a: int, b: int) ensures (a * b) as real == a as real * b as real { assert((a * b) as real == a as real * b as real) by(nonlinear_arith); }
/// the denominators are positive
pub proof fn denominators(m: Mo, s: int, smax: int)
    requires mok(m, s), m.w >= 1, smax >= 1
    ensures
        m.x2 as real * m.w as real - m.mux as real * m.mux as real + m.y2 as real * m.w as real - m.muy as real * m.muy as real
            + (smax * smax) as real * 0.0009real * (m.w as real * m.w as real) > 0real,
        m.mux as real * m.mux as real + m.muy as real * m.muy as real + (smax * smax) as real * 0.0001real * (m.w as real * m.w as real) > 0real,
{
    reveal(mok);
    let (w, mux, muy, x2, y2) = (m.w as real, m.mux as real, m.muy as real, m.x2 as real, m.y2 as real);
    real_mul(m.mux, m.mux); real_mul(m.x2, m.w); real_mul(m.muy, m.muy); real_mul(m.y2, m.w);
    assert(mux * mux <= x2 * w && muy * muy <= y2 * w);
    assert(smax * smax >= 1) by(nonlinear_arith) requires smax >= 1;
    let q = (smax * smax) as real;
    assert(w * w >= 1real) by(nonlinear_arith) requires w >= 1real;
    let ww = w * w;
    assert(q * 0.0009real * ww > 0real) by(nonlinear_arith) requires q >= 1real, ww >= 1real;
    assert(q * 0.0001real * ww > 0real) by(nonlinear_arith) requires q >= 1real, ww >= 1real;
    assert(mux * mux >= 0real) by(nonlinear_arith);
    assert(muy * muy >= 0real) by(nonlinear_arith);
}
pub proof fn tot_weight(p: Pic, s: int, x: int, y: int)
    requires pic_ok(p, s), 0 <= x <= p.w, 0 <= y <= p.h, y == p.h ==> x == 0
    ensures tot(p, s, 2, x, y) >= 0real, (x > 0 || y > 0) ==> tot(p, s, 2, x, y) > 0real
    decreases y, x
{
    reveal(pic_ok);
    if x > 0 { tot_weight(p, s, x - 1, y); window_ok(p, s, x - 1, y); }
    else if y > 0 { tot_weight(p, s, p.w, y - 1); }
}
// ------------------------------------------------- the ring buffer of rows
pub open spec fn mv(m: SsimMoments) -> Mo { Mo { mux: m.mux as int, muy: m.muy as int, x2: m.x2 as int, xy: m.xy as int, y2: m.y2 as int, w: m.w as int } }
/// s holds the horizontal sums of the first n columns of row y
pub open spec fn row_is(s: Seq<SsimMoments>, p: Pic, y: int, n: int) -> bool {
    s.len() == p.w && forall|x: int| 0 <= x < n ==> mv(#[trigger] s[x]) == hall(p, x, y)
}
/// the rows of the last rows of the window are there
#[verifier::opaque]
pub open spec fn ring_is(l: Seq<Vec<SsimMoments>>, p: Pic, y: int) -> bool {
    &&& l.len() >= p.vk.len() && l.len() > 0
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i])@.len() == p.w
    &&& forall|r: int| 0 <= r < p.h && y - p.vk.len() <= r < y ==> row_is((#[trigger] l[r % (l.len() as int)])@, p, r, p.w)
}
proof fn mod_distinct(a: int, b: int, n: int)
    requires n > 0, a < b, b - a < n, 0 <= a
    ensures a % n != b % n, 0 <= a % n < n, 0 <= b % n < n
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, n);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, n);
    let (q, r) = (a / n, b / n);
    if a % n == b % n {
        assert(b - a == n * (r - q)) by(nonlinear_arith) requires a == n * q + a % n, b == n * r + b % n, a % n == b % n;
        assert(false) by(nonlinear_arith) requires 0 < b - a < n, b - a == n * (r - q);
    }
}
pub proof fn ring_start(l: Seq<Vec<SsimMoments>>, p: Pic)
    requires l.len() >= p.vk.len(), l.len() > 0, forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i])@.len() == p.w
    ensures ring_is(l, p, 0)
{ reveal(ring_is); }
/// row y is written
pub proof fn ring_step(l: Seq<Vec<SsimMoments>>, m: Seq<Vec<SsimMoments>>, p: Pic, y: int)
    requires
        ring_is(l, p, y), 0 <= y, m.len() == l.len(),
        y < p.h ==> row_is(m[y % (l.len() as int)]@, p, y, p.w),
        y < p.h ==> forall|i: int| 0 <= i < l.len() && i != y % (l.len() as int) ==> #[trigger] m[i] == l[i],
        y >= p.h ==> m == l,
    ensures ring_is(m, p, y + 1)
{
    reveal(ring_is);
    let n = l.len() as int;
    assert forall|r: int| 0 <= r < p.h && y + 1 - p.vk.len() <= r < y + 1 implies row_is((#[trigger] m[r % n])@, p, r, p.w) by {
        if r < y { mod_distinct(r, y, n); assert(m[r % n] == l[r % n]); assert(row_is(l[r % n]@, p, r, p.w)); }
    }
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i])@.len() == p.w by {
        if y < p.h && i == y % n { } else { assert(m[i] == l[i]); }
    }
}
/// the row that a position of the vertical window needs; one row above the last ones written
pub proof fn ring_row(l: Seq<Vec<SsimMoments>>, p: Pic, y: int, r: int)
    requires ring_is(l, p, y + 1), 0 <= r < p.h, y + 1 - p.vk.len() <= r <= y
    ensures row_is(l[r % (l.len() as int)]@, p, r, p.w), 0 <= r % (l.len() as int) < l.len(), l.len() > 0
{
    reveal(ring_is);
    let n = l.len() as int;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(r, n);
    assert(0 <= r % n < n);
}
pub proof fn mask_mod(x: usize, n: usize, k: nat)
    requires k < 64, n == vstd::arithmetic::power2::pow2(k), n >= 1
    ensures (x & ((n - 1) as usize)) == x as int % n as int
{
    vstd::bits::lemma_usize_low_bits_mask_is_mod(x, k);
}
pub open spec fn pic(a: Seq<u32>, b: Seq<u32>, w: usize, h: usize, vk: Seq<i64>, hk: Seq<i64>) -> Pic { Pic { a, b, w: w as int, h: h as int, vk, hk } }
pub proof fn shr_one(x: usize) ensures x >> 1 == x as int / 2 { assert(x >> 1 == x / 2) by(bit_vector); }
