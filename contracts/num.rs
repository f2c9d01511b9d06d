// the target has 64-bit addresses
global size_of usize == 8;
// ---------------------------------------------------------------- helpers
pub trait VxDefault: Sized {
    spec fn dflt() -> Self;
    fn vx_default() -> (ret: Self) ensures ret == Self::dflt();
}
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn iclamp(x: int, a: int, b: int) -> int { if x < a { a } else if x > b { b } else { x } }

pub trait VxOrd: Sized {
    spec fn le_spec(a: Self, b: Self) -> bool;
    fn le_exec(a: &Self, b: &Self) -> (r: bool) ensures r == Self::le_spec(*a, *b);
}
impl VxOrd for usize { open spec fn le_spec(a: usize, b: usize) -> bool { a <= b } fn le_exec(a: &usize, b: &usize) -> (r: bool) { *a <= *b } }
impl VxOrd for i64 { open spec fn le_spec(a: i64, b: i64) -> bool { a <= b } fn le_exec(a: &i64, b: &i64) -> (r: bool) { *a <= *b } }
impl VxOrd for i32 { open spec fn le_spec(a: i32, b: i32) -> bool { a <= b } fn le_exec(a: &i32, b: &i32) -> (r: bool) { *a <= *b } }
/// cmp::min
pub fn vx_min<T: VxOrd>(a: T, b: T) -> (r: T)
    ensures r == (if T::le_spec(a, b) { a } else { b })
{ if T::le_exec(&a, &b) { a } else { b } }
/// cmp::max
pub fn vx_max<T: VxOrd>(a: T, b: T) -> (r: T)
    ensures r == (if T::le_spec(a, b) { b } else { a })
{ if T::le_exec(&a, &b) { b } else { a } }
pub fn vx_assert(c: bool) requires c {}
#[verifier::external_body]
pub fn vx_unreachable<T>() -> T requires false { unreachable!() }
pub fn vx_drop<T>(t: T) {}
pub open spec fn cdiv(n: int, k: int) -> int { (n + k - 1) / k }
/// number of the complete chunks of a slice
pub fn chunks_exact_count(n: usize, k: usize) -> (r: usize)
    requires k > 0
    ensures r == n as int / k as int, r * k <= n, forall|i: int| 0 <= i < r ==> 0 <= #[trigger] (i * k) && i * k + k <= n
{
    let q = n / k;
    proof {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, k as int);
        assert(q * k <= n) by(nonlinear_arith) requires n == k * q + n as int % k as int, n as int % k as int >= 0;
        assert forall|i: int| 0 <= i < q implies 0 <= #[trigger] (i * k) && i * k + k <= n by {
            assert(0 <= i * k && i * k + k <= q * k) by(nonlinear_arith) requires 0 <= i < q, k > 0;
        }
    }
    q
}
/// number of the chunks of a slice
pub fn chunk_count(n: usize, k: usize) -> (r: usize)
    requires k > 0
    ensures r == cdiv(n as int, k as int)
{
    let q = n / k;
    proof { lemma_cdiv(n as int, k as int); }
    if n % k == 0 { q } else { q + 1 }
}
pub proof fn lemma_cdiv(n: int, k: int)
    requires n >= 0, k > 0
    ensures
        n % k == 0 ==> cdiv(n, k) == n / k,
        n % k != 0 ==> cdiv(n, k) == n / k + 1,
        n / k * k <= n, n % k != 0 ==> n / k < n,
{
    let (q, r) = (n / k, n % k);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, k);
    assert(k * q == q * k) by(nonlinear_arith);
    assert((q + 1) * k == q * k + k) by(nonlinear_arith);
    if r == 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + k - 1, k, q, k - 1);
    } else {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + k - 1, k, q + 1, r - 1);
        assert(q < n) by(nonlinear_arith) requires n == q * k + r, r > 0, k > 0, q >= 0;
    }
}
/// end of chunk i of a slice
pub fn chunk_end(n: usize, i: usize, k: usize) -> (r: usize)
    requires k > 0, i < cdiv(n as int, k as int)
    ensures r == imin((i + 1) * k, n as int), i * k < r <= n
{
    proof {
        lemma_cdiv(n as int, k as int);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, k as int);
        let q = n as int / k as int;
        assert(i * k <= q * k) by(nonlinear_arith) requires i <= q, k > 0;
        assert(i + 1 <= q ==> (i + 1) * k <= q * k) by(nonlinear_arith) requires k > 0;
        assert((i + 1) * k == i * k + k) by(nonlinear_arith);
        assert(k * q == q * k) by(nonlinear_arith);
    }
    if n - i * k <= k { n } else { i * k + k }
}
pub fn interleave_len(a: usize, b: usize) -> (r: usize)
    requires a + b <= usize::MAX
    ensures r == (if a <= b { 2 * a } else { 2 * b + 1 })
{ if a <= b { a + a } else { b + b + 1 } }
pub fn step_to(pos: usize, step: usize, len: usize) -> (r: usize)
    requires pos < len, step > 0
    ensures r == imin(pos + step, len as int)
{ if len - pos <= step { len } else { pos + step } }
/// vec![x; n]
pub fn vx_vec<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x
{
    let mut r: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant r@.len() == i, i <= n, forall|k: int| 0 <= k < i ==> #[trigger] r@[k] == x
        decreases n - i
    { r.push(x); i += 1; }
    r
}
/// vec![vec![..]; n]
pub fn vx_rows<T: Copy>(x: Vec<T>, n: usize) -> (r: Vec<Vec<T>>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ == x@
{
    let mut r: Vec<Vec<T>> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant r@.len() == i, i <= n, forall|k: int| 0 <= k < i ==> (#[trigger] r@[k])@ == x@
        decreases n - i
    {
        let mut c: Vec<T> = Vec::new();
        let mut j: usize = 0;
        while j < x.len()
            invariant c@.len() == j, j <= x@.len(), forall|k: int| 0 <= k < j ==> #[trigger] c@[k] == x@[k]
            decreases x@.len() - j
        { c.push(x[j]); j += 1; }
        proof { assert(c@ =~= x@); }
        r.push(c);
        i += 1;
    }
    r
}
pub assume_specification [i32::unsigned_abs] (a: i32) -> (r: u32)
    ensures r == (if a < 0 { -a } else { a as int });
pub assume_specification [usize::pow] (b: usize, e: u32) -> (r: usize)
    requires e == 2, b * b <= usize::MAX
    ensures r == b * b;
pub assume_specification [u64::pow] (b: u64, e: u32) -> (r: u64)
    requires e == 2, b * b <= u64::MAX
    ensures r == b * b;
pub assume_specification [usize::next_power_of_two] (a: usize) -> (r: usize)
    requires a <= 0x4000_0000_0000_0000
    ensures r >= a, r >= 1, exists|k: nat| k < 64 && r == #[trigger] vstd::arithmetic::power2::pow2(k);
pub assume_specification [i32::pow] (b: i32, e: u32) -> (r: i32)
    requires e == 2, b * b <= i32::MAX
    ensures r == b * b;
pub assume_specification [i32::abs] (a: i32) -> (r: i32)
    requires a > i32::MIN
    ensures r == (if a < 0 { -a } else { a as int });
