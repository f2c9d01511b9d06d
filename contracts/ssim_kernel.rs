// --------------------------------------------------- the Gaussian window
/// coefficient c steps away from the centre, rounded
pub open spec fn g_coef(sigma: real, kw: int, c: int) -> int {
    r_floor(kw as real * (1real / (r_sqrt(2real * r_pi()) * sigma)) * r_pow(r_e(), (-0.5real) / r_powi(sigma, 2) * (c * c) as real) + 0.5real)
}
/// the error of leaving out everything, in coefficients
pub open spec fn g_err(sigma: real, kw: int) -> real { r_sqrt(0.5real * r_pi()) * sigma * (1real / kw as real) }
/// steps after which the coefficients are below half a unit
pub open spec fn g_reach(sigma: real, kw: int) -> int {
    if g_err(sigma, kw) >= 1real { 0 } else { imin(r_floor(sigma * r_sqrt((-2real) * r_log(g_err(sigma, kw), r_e()))), usize::MAX as int) }
}
/// coefficients on each side of the centre: fewer than the plane is wide or high
pub open spec fn g_len(sigma: real, max_len: int, kw: int) -> int {
    if max_len <= 0 { 0 } else if g_reach(sigma, kw) >= max_len { max_len - 1 } else { g_reach(sigma, kw) }
}
pub open spec fn g_sum(sigma: real, kw: int, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { g_sum(sigma, kw, n - 1) + g_coef(sigma, kw, n) } }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
/// the centre takes what the rounding leaves
pub open spec fn g_at(sigma: real, kw: int, n: int, i: int) -> int {
    if i == n { kw - 2 * g_sum(sigma, kw, n) } else { g_coef(sigma, kw, iabs(i - n)) }
}
#[verifier::opaque]
pub open spec fn is_gauss(k: Seq<i64>, sigma: real, max_len: int, kw: int) -> bool {
    let n = g_len(sigma, max_len, kw);
    k.len() == 2 * n + 1 && forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == g_at(sigma, kw, n, i)
}
pub open spec fn sigma_ok(sigma: real) -> bool { sigma >= 0.00390625real }
proof fn mul_le(a: real, b: real, c: real) requires a >= 0real, b <= c ensures a * b <= a * c { assert(a * b <= a * c) by(nonlinear_arith) requires a >= 0real, b <= c; }
proof fn mul_pos(a: real, b: real) requires a > 0real, b > 0real ensures a * b > 0real { assert(a * b > 0real) by(nonlinear_arith) requires a > 0real, b > 0real; }
proof fn g_scale(sigma: real)
    requires sigma_ok(sigma)
    ensures 0real < 1real / (r_sqrt(2real * r_pi()) * sigma) <= 128real, r_sqrt(2real * r_pi()) * sigma > 0real,
        r_powi(sigma, 2) > 0real, (-0.5real) / r_powi(sigma, 2) < 0real,
{
    ax_pi();
    ax_sqrt(2real * r_pi());
    let q = r_sqrt(2real * r_pi());
    assert(q >= 2real) by(nonlinear_arith) requires q * q >= 4real, q >= 0real;
    let d = q * sigma;
    assert(d >= 0.0078125real) by(nonlinear_arith) requires q >= 2real, sigma >= 0.00390625real, d == q * sigma;
    assert(0real < 1real / d <= 128real) by(nonlinear_arith) requires d >= 0.0078125real;
    reveal_with_fuel(r_powi, 3);
    let s2 = sigma * sigma;
    assert(s2 > 0real) by(nonlinear_arith) requires sigma > 0real, s2 == sigma * sigma;
    assert(r_powi(sigma, 2) == s2);
    assert((-0.5real) / s2 < 0real) by(nonlinear_arith) requires s2 > 0real;
}
/// the coefficients are in range and fall away from the centre
pub proof fn g_coef_ok(sigma: real, kw: int, c: int)
    requires sigma_ok(sigma), 1 <= kw <= 1024, c >= 0
    ensures 0 <= g_coef(sigma, kw, c + 1) <= g_coef(sigma, kw, c) <= 131072,
{
    g_scale(sigma);
    let m = (-0.5real) / r_powi(sigma, 2);
    let s = 1real / (r_sqrt(2real * r_pi()) * sigma);
    let (y0, y1) = (m * (c * c) as real, m * ((c + 1) * (c + 1)) as real);
    assert(0 <= c * c <= (c + 1) * (c + 1)) by(nonlinear_arith) requires c >= 0;
    assert(y1 <= y0 <= 0real) by(nonlinear_arith) requires m < 0real, y0 == m * (c * c) as real, y1 == m * ((c + 1) * (c + 1)) as real, 0 <= c * c <= (c + 1) * (c + 1);
    ax_exp(y1, y0);
    ax_exp(y0, 0real);
    let k = kw as real * s;
    assert(0real < k <= 131072real) by(nonlinear_arith) requires k == kw as real * s, 0real < s <= 128real, 1real <= kw as real <= 1024real;
    let (e0, e1) = (r_pow(r_e(), y0), r_pow(r_e(), y1));
    assert(0real < k * e1 <= k * e0 <= 131072real) by(nonlinear_arith) requires 0real < e1 <= e0 <= 1real, 0real < k <= 131072real;
    ax_floor(k * e0 + 0.5real);
    ax_floor(k * e1 + 0.5real);
}
pub proof fn g_sum_ok(sigma: real, kw: int, n: int)
    requires sigma_ok(sigma), 1 <= kw <= 1024, 0 <= n
    ensures 0 <= g_sum(sigma, kw, n) <= 131072 * n
    decreases n
{ if n > 0 { g_sum_ok(sigma, kw, n - 1); g_coef_ok(sigma, kw, n); } }
/// what remains for the centre: the sum of both sides stays below the weight.
/// Evaluated for every height by tools/gauss.py (the window depends on nothing else).
pub axiom fn ax_gauss_centre(sigma: real, kw: int, n: int)
    requires gauss_used(sigma, kw), 0 <= n <= g_reach(sigma, kw)
    ensures 2 * g_sum(sigma, kw, n) < kw;
/// the Gaussians that SSIM and MSSSIM use
pub open spec fn gauss_used(sigma: real, kw: int) -> bool {
    (kw == 1024 && sigma == 1.5real) || (kw == 256 && exists|h: int| h >= 1 && sigma == #[trigger] gauss_sigma(h))
}
pub open spec fn gauss_sigma(h: int) -> real { h as real * 1.5real / 256real }
/// C11: the shape of the window
pub open spec fn window_shape(k: Seq<i64>, max_len: int, kw: int) -> bool {
    let n = k.len() as int / 2;
    &&& k.len() % 2 == 1
    &&& n < imax(max_len, 1)
    &&& forall|i: int| 0 <= i < k.len() ==> k[i] == #[trigger] k[k.len() - 1 - i]
    &&& ksum(k, k.len() as int) == kw
    &&& forall|i: int| 0 <= i < k.len() ==> 0 <= #[trigger] k[i]
    &&& forall|i: int, j: int| 0 <= i <= j < n ==> #[trigger] k[i] <= #[trigger] k[j]
    &&& k[n] >= 1
}
proof fn g_mono(sigma: real, kw: int, c: int, d: int)
    requires sigma_ok(sigma), 1 <= kw <= 1024, 0 <= c <= d
    ensures g_coef(sigma, kw, d) <= g_coef(sigma, kw, c)
    decreases d
{ if c < d { g_mono(sigma, kw, c, d - 1); g_coef_ok(sigma, kw, d - 1); } }
proof fn g_prefix(k: Seq<i64>, sigma: real, max_len: int, kw: int, i: int)
    requires is_gauss(k, sigma, max_len, kw), 0 <= i <= k.len()
    ensures ({
        let n = g_len(sigma, max_len, kw);
        ksum(k, i) == if i <= n { g_sum(sigma, kw, n) - g_sum(sigma, kw, n - i) } else { kw - g_sum(sigma, kw, n) + g_sum(sigma, kw, i - n - 1) }
    })
    decreases i
{
    reveal(is_gauss);
    if i > 0 { g_prefix(k, sigma, max_len, kw, i - 1); assert(k[i - 1] == g_at(sigma, kw, g_len(sigma, max_len, kw), i - 1)); }
}
pub proof fn gauss_shape(k: Seq<i64>, sigma: real, max_len: int, kw: int)
    requires is_gauss(k, sigma, max_len, kw), sigma_ok(sigma), 1 <= kw <= 1024, gauss_used(sigma, kw), 0 <= max_len
    ensures window_shape(k, max_len, kw)
{
    reveal(is_gauss);
    let n = g_len(sigma, max_len, kw);
    gauss_reach(sigma, kw);
    assert(k.len() as int / 2 == n);
    g_prefix(k, sigma, max_len, kw, k.len() as int);
    ax_gauss_centre(sigma, kw, n);
    assert forall|i: int| 0 <= i < k.len() implies 0 <= #[trigger] k[i] by {
        assert(k[i] == g_at(sigma, kw, n, i));
        g_coef_ok(sigma, kw, iabs(i - n));
    }
    assert forall|i: int| 0 <= i < k.len() implies k[i] == #[trigger] k[k.len() - 1 - i] by {
        assert(k[i] == g_at(sigma, kw, n, i) && k[k.len() - 1 - i] == g_at(sigma, kw, n, k.len() - 1 - i));
    }
    assert forall|i: int, j: int| 0 <= i <= j < n implies #[trigger] k[i] <= #[trigger] k[j] by {
        assert(k[i] == g_at(sigma, kw, n, i) && k[j] == g_at(sigma, kw, n, j));
        g_mono(sigma, kw, n - j, n - i);
    }
    assert(k[n] == g_at(sigma, kw, n, n));
}
/// the length is not negative
proof fn gauss_reach(sigma: real, kw: int)
    requires sigma_ok(sigma), 1 <= kw <= 1024
    ensures g_reach(sigma, kw) >= 0, g_err(sigma, kw) > 0real, g_err(sigma, kw) < 1real ==> (-2real) * r_log(g_err(sigma, kw), r_e()) >= 0real,
        g_err(sigma, kw) < 1real ==> sigma * r_sqrt((-2real) * r_log(g_err(sigma, kw), r_e())) >= 0real,
{
    ax_pi();
    ax_sqrt(0.5real * r_pi());
    let q = r_sqrt(0.5real * r_pi());
    assert(q > 0real) by(nonlinear_arith) requires q * q > 0real, q >= 0real;
    let i = 1real / kw as real;
    assert(i > 0real) by(nonlinear_arith) requires i == 1real / kw as real, kw as real >= 1real;
    mul_pos(q, sigma); mul_pos(q * sigma, i);
    let e = g_err(sigma, kw);
    ax_ln(e);
    if e < 1real {
        let l = (-2real) * r_log(e, r_e());
        ax_sqrt(l);
        let x = sigma * r_sqrt(l);
        assert(x >= 0real) by(nonlinear_arith) requires x == sigma * r_sqrt(l), sigma > 0real, r_sqrt(l) >= 0real;
        ax_floor(x);
    }
}
pub proof fn odd_size(n: usize)
    requires n < 4294967296
    ensures (n << 1) | 1 == 2 * n + 1
{ assert((n << 1) | 1 == (2 * n + 1) as usize) by(bit_vector) requires n < 4294967296; }
pub proof fn shl_sum(s: i64)
    requires 0 <= s < 0x1000_0000_0000_0000
    ensures s << 1 == 2 * s
{ assert(s << 1 == (2 * s) as i64) by(bit_vector) requires 0 <= s < 0x1000_0000_0000_0000; }
/// the coefficient before it is cut off is not negative
pub proof fn coef_range(sigma: real, kw: int, c: int)
    requires sigma_ok(sigma), 1 <= kw <= 1024, 0 <= c
    ensures ({
        let x = kw as real * (1real / (r_sqrt(2real * r_pi()) * sigma)) * r_pow(r_e(), (-0.5real) / r_powi(sigma, 2) * (c * c) as real) + 0.5real;
        0real <= x && x < 9223372036854775808real
    })
{
    g_coef_ok(sigma, kw, c);
    let x = kw as real * (1real / (r_sqrt(2real * r_pi()) * sigma)) * r_pow(r_e(), (-0.5real) / r_powi(sigma, 2) * (c * c) as real) + 0.5real;
    ax_floor(x);
}
