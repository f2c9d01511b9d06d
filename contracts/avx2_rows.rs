// ----------------------------------------------------- rows, eight columns at a time
/// eight pixels
pub open spec fn lanes_ok(v: (__m256, __m256, __m256), b: int) -> bool {
    forall|i: int| #![trigger v.0.f(i)] #![trigger v.1.f(i)] #![trigger v.2.f(i)] 0 <= i < 8 ==> in_depth_r(v.0.f(i), b) && in_depth_r(v.1.f(i), b) && in_depth_r(v.2.f(i), b)
}
pub open spec fn lane_lab(v: (__m256, __m256, __m256), i: int, b: int) -> LabS {
    let s = scale_of(b);
    lab_of_yuv(luma_r(v.0.f(i), s), chroma_r(v.1.f(i), s), chroma_r(v.2.f(i), s))
}
pub open spec fn lane_de(v: (__m256, __m256, __m256), w: (__m256, __m256, __m256), i: int, b: int) -> real {
    de00(lane_lab(v, i, b), lane_lab(w, i, b), 0.65real, 1real, 4real)
}
/// the lanes are the pixels of columns 8k to 8k + 7
pub open spec fn lanes_of<T: Pixel>(v: (__m256, __m256, __m256), r: FrameRow<T>, k: int) -> bool {
    forall|i: int| #![trigger v.0.f(i)] #![trigger v.1.f(i)] #![trigger v.2.f(i)] 0 <= i < 8 ==>
        v.0.f(i) == r.y@[8 * k + i].val() as real && v.1.f(i) == r.u@[4 * k + i / 2].val() as real && v.2.f(i) == r.v@[4 * k + i / 2].val() as real
}
pub proof fn lanes_are<T: Pixel>(v: (__m256, __m256, __m256), w: (__m256, __m256, __m256), p: FrameRow<T>, q: FrameRow<T>, k: int, i: int, b: int)
    requires lanes_of(v, p, k), lanes_of(w, q, k), 0 <= i < 8
    ensures lane_de(v, w, i, b) == row_de(p, q, 8 * k + i, 1, b)
{
    assert((8 * k + i) / 2 == 4 * k + i / 2);
    assert(v.0.f(i) == p.y@[8 * k + i].val() as real && w.0.f(i) == q.y@[8 * k + i].val() as real);
}
pub proof fn lanes_fit<T: Pixel>(v: (__m256, __m256, __m256), r: FrameRow<T>, k: int, n: int, b: int)
    requires lanes_of(v, r, k), rows_ok(r, n, 1, b), 0 <= k, 8 * k + 8 <= n
    ensures lanes_ok(v, b)
{
    assert forall|i: int| #![trigger v.0.f(i)] #![trigger v.1.f(i)] #![trigger v.2.f(i)] 0 <= i < 8 implies in_depth_r(v.0.f(i), b) && in_depth_r(v.1.f(i), b) && in_depth_r(v.2.f(i), b) by {
        r.y@[8 * k + i].val_range(); r.u@[4 * k + i / 2].val_range(); r.v@[4 * k + i / 2].val_range();
        assert(in_depth(r.y@[8 * k + i].val(), b) && in_depth(r.u@[4 * k + i / 2].val(), b) && in_depth(r.v@[4 * k + i / 2].val(), b));
    }
}
/// the last columns
pub proof fn rest_of<T: Pixel>(r: FrameRow<T>, n: int, k: int, b: int)
    requires rows_ok(r, n, 1, b), 0 <= k, 8 * k < n
    ensures forall|c: FrameRow<T>, m: int, d: int, e: int| m == n - 8 * k && d == 1 && e == b && c.y@ == r.y@.subrange(8 * k, n) && c.u@ == r.u@.subrange(4 * k, (n + 1) / 2) && c.v@ == r.v@.subrange(4 * k, (n + 1) / 2) ==> #[trigger] rows_ok(c, m, d, e)
{}
pub proof fn rest_de<T: Pixel>(p: FrameRow<T>, q: FrameRow<T>, n: int, k: int, b: int)
    requires rows_ok(p, n, 1, b), rows_ok(q, n, 1, b), 0 <= k, 8 * k < n
    ensures forall|c: FrameRow<T>, e: FrameRow<T>, i: int, d: int, g: int| 0 <= i < n - 8 * k && d == 1 && g == b
            && c.y@ == p.y@.subrange(8 * k, n) && c.u@ == p.u@.subrange(4 * k, (n + 1) / 2) && c.v@ == p.v@.subrange(4 * k, (n + 1) / 2)
            && e.y@ == q.y@.subrange(8 * k, n) && e.u@ == q.u@.subrange(4 * k, (n + 1) / 2) && e.v@ == q.v@.subrange(4 * k, (n + 1) / 2)
        ==> #[trigger] row_de(c, e, i, d, g) == row_de(p, q, 8 * k + i, 1, b)
{}
pub proof fn chunks_of(n: int) requires n >= 0 ensures cdiv((n + 1) / 2, 4) == cdiv(n, 8), cdiv(n, 8) * 8 >= n, n > 0 ==> (cdiv(n, 8) - 1) * 8 < n { }

/// what a step over chunk k of two rows needs to know
pub proof fn rows_step<T: Pixel>(p: FrameRow<T>, q: FrameRow<T>, n: int, k: int, b: int)
    requires rows_ok(p, n, 1, b), rows_ok(q, n, 1, b), 0 <= k, 8 * k < n
    ensures
        p.y@.len() == n, q.y@.len() == n, p.u@.len() == (n + 1) / 2, q.u@.len() == (n + 1) / 2, p.v@.len() == (n + 1) / 2, q.v@.len() == (n + 1) / 2,
        k < cdiv(n, 8), k < cdiv((n + 1) / 2, 4),
        8 * k + 8 <= n ==> 4 * k + 4 <= (n + 1) / 2, 8 * k + 8 > n ==> 4 * k + 4 >= (n + 1) / 2,
        forall|v: (__m256, __m256, __m256), d: int| 8 * k + 8 <= n && d == b && lanes_of(v, p, k) ==> #[trigger] lanes_ok(v, d),
        forall|v: (__m256, __m256, __m256), d: int| 8 * k + 8 <= n && d == b && lanes_of(v, q, k) ==> #[trigger] lanes_ok(v, d),
        forall|v: (__m256, __m256, __m256), w: (__m256, __m256, __m256), i: int, d: int| 8 * k + 8 <= n && 0 <= i < 8 && d == b && lanes_of(v, p, k) && lanes_of(w, q, k) ==> #[trigger] lane_de(v, w, i, d) == row_de(p, q, 8 * k + i, 1, b),
        forall|c: FrameRow<T>, m: int, d: int, e: int| m == n - 8 * k && d == 1 && e == b && c.y@ == p.y@.subrange(8 * k, n) && c.u@ == p.u@.subrange(4 * k, (n + 1) / 2) && c.v@ == p.v@.subrange(4 * k, (n + 1) / 2) ==> #[trigger] rows_ok(c, m, d, e),
        forall|c: FrameRow<T>, m: int, d: int, e: int| m == n - 8 * k && d == 1 && e == b && c.y@ == q.y@.subrange(8 * k, n) && c.u@ == q.u@.subrange(4 * k, (n + 1) / 2) && c.v@ == q.v@.subrange(4 * k, (n + 1) / 2) ==> #[trigger] rows_ok(c, m, d, e),
        forall|c: FrameRow<T>, e: FrameRow<T>, i: int, d: int, g: int| 0 <= i < n - 8 * k && d == 1 && g == b
            && c.y@ == p.y@.subrange(8 * k, n) && c.u@ == p.u@.subrange(4 * k, (n + 1) / 2) && c.v@ == p.v@.subrange(4 * k, (n + 1) / 2)
            && e.y@ == q.y@.subrange(8 * k, n) && e.u@ == q.u@.subrange(4 * k, (n + 1) / 2) && e.v@ == q.v@.subrange(4 * k, (n + 1) / 2)
        ==> #[trigger] row_de(c, e, i, d, g) == row_de(p, q, 8 * k + i, 1, b),
        b == 8 ==> small_px(p.y@) && small_px(p.u@) && small_px(p.v@) && small_px(q.y@) && small_px(q.u@) && small_px(q.v@),
{
    rest_of(p, n, k, b); rest_of(q, n, k, b); rest_de(p, q, n, k, b); chunks_of(n);
    assert forall|v: (__m256, __m256, __m256), d: int| 8 * k + 8 <= n && d == b && lanes_of(v, p, k) implies #[trigger] lanes_ok(v, d) by { lanes_fit(v, p, k, n, b); }
    assert forall|v: (__m256, __m256, __m256), d: int| 8 * k + 8 <= n && d == b && lanes_of(v, q, k) implies #[trigger] lanes_ok(v, d) by { lanes_fit(v, q, k, n, b); }
    assert forall|v: (__m256, __m256, __m256), w: (__m256, __m256, __m256), i: int, d: int| 8 * k + 8 <= n && 0 <= i < 8 && d == b && lanes_of(v, p, k) && lanes_of(w, q, k) implies #[trigger] lane_de(v, w, i, d) == row_de(p, q, 8 * k + i, 1, b) by { lanes_are(v, w, p, q, k, i, b); }
    if b == 8 {
        assert forall|i: int| 0 <= i < n implies (#[trigger] p.y@[i]).val() <= 255 by { assert(in_depth(p.y@[i].val(), b)); }
        assert forall|i: int| 0 <= i < n implies (#[trigger] q.y@[i]).val() <= 255 by { assert(in_depth(q.y@[i].val(), b)); }
        assert forall|i: int| 0 <= i < (n + 1) / 2 implies (#[trigger] p.u@[i]).val() <= 255 by { assert(in_depth(p.u@[i].val(), b)); }
        assert forall|i: int| 0 <= i < (n + 1) / 2 implies (#[trigger] q.u@[i]).val() <= 255 by { assert(in_depth(q.u@[i].val(), b)); }
        assert forall|i: int| 0 <= i < (n + 1) / 2 implies (#[trigger] p.v@[i]).val() <= 255 by { assert(in_depth(p.v@[i].val(), b)); }
        assert forall|i: int| 0 <= i < (n + 1) / 2 implies (#[trigger] q.v@[i]).val() <= 255 by { assert(in_depth(q.v@[i].val(), b)); }
    }
}
pub open spec fn small_px<T: Pixel>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).val() <= 255 }
pub proof fn rows_len<T: Pixel>(p: FrameRow<T>, n: int, b: int)
    requires rows_ok(p, n, 1, b)
    ensures p.y@.len() == n, p.u@.len() == (n + 1) / 2, p.v@.len() == (n + 1) / 2, cdiv((n + 1) / 2, 4) == cdiv(n, 8), cdiv(n, 8) * 8 >= n, n > 0 ==> (cdiv(n, 8) - 1) * 8 < n
{ chunks_of(n); }
