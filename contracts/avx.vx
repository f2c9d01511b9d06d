%raw
pub mod rgblab_avx2 {
use super::*;
%end
%source av_metrics/src/video/ciede/rgbtolab/mod.rs
%fn pow_2_4_avx2
%spec
    requires x.plain()
    ensures forall|i: int| 0 <= i < 8 && in_pow24(x.f(i)) ==> #[trigger] ret.f(i) == m_pow24(x.f(i))
%at start
    broadcast use fl;
    let ghost x0 = x;
    proof { masks(); }
%nested lookup_entry_exp_pow_2_4
%sig fn pow_2_4_avx2__lookup_entry_exp_pow_2_4(log2: i32) -> (ret: Fl)
%spec
    requires -126 <= log2 <= 127
    ensures ret@ == r_pow(two_pow(log2 as int), 2.4real)
%at start
    broadcast use fl;
    proof { shift_23((log2 + 0x7f) as i32); let k = (log2 + 0x7f) as i32; let w = (k << 23) as u32; entry_bits(log2 as int, w); ax_val(w); lemma_two_pow(log2 as int); }
%endnested
%nested lookup_entry_inv_truncated
%sig fn pow_2_4_avx2__lookup_entry_inv_truncated(fraction: i32) -> (ret: Fl)
%spec
    requires 0 <= fraction <= 7
    ensures ret@ == inv_entry(fraction as int), ret@ > 0real
%at start
    broadcast use fl;
    proof { inv_entry_pos(fraction as int); }
    assert(1i32 << 3u32 == 8) by(bit_vector);
%endnested
%nested lookup_entry_truncated_pow_2_4
%sig fn pow_2_4_avx2__lookup_entry_truncated_pow_2_4(fraction: i32) -> (ret: Fl)
%spec
    requires 0 <= fraction <= 7
    ensures ret@ == r_pow(inv_entry(fraction as int), -2.4real)
%at start
    broadcast use fl;
%endnested
%at end
    assert forall|j: int| 0 <= j < 8 implies #[trigger] lookup_table_exp_pow_2_4.f(j) == r_pow(two_pow(j - 4), 2.4real) by {}
    assert forall|j: int| 0 <= j < 8 implies #[trigger] lookup_table_inv_truncated.f(j) == inv_entry(j) by {}
    assert forall|j: int| 0 <= j < 8 implies #[trigger] lookup_table_truncated_pow_2_4.f(j) == r_pow(inv_entry(j), -2.4real) by {}
    assert forall|i: int| 0 <= i < 8 && in_pow24(x0.f(i)) implies #[trigger] est.f(i) * (truncated_pow_2_4.f(i) * exp_pow_2_4.f(i)) == m_pow24(x0.f(i)) by {
        let v = x0.f(i);
        let b = u_bits(v);
        normal(v); ax_bits(v); two_pow_values(); exp_range(v, b, -4, 4);
        lane_bits(b, -4, 4, -123i32);
        assert(x0.b(i) == b);
        assert(log2_index.i(i) as int == bits_exp(b) + 4);
        assert(exp_pow_2_4.f(i) == r_pow(two_pow(bits_exp(b)), 2.4real));
        assert(fraction.i(i) as int % 8 == frac3(b));
        assert(truncated_pow_2_4.f(i) == r_pow(inv_entry(frac3(b)), -2.4real));
        let t = (1real + bits_man(b)) * inv_entry(frac3(b));
        assert(x.f(i) == t);
        series(t); series_lanes(t);
        assert(x2.f(i) == t * t); assert(x3.f(i) == t * t * t);
        assert(est.f(i) == est24(t));
    }
%endfn
%fn cbrt_approx_avx2
%spec
    requires x.plain()
    ensures forall|i: int| 0 <= i < 8 && in_cbrt(x.f(i)) ==> #[trigger] ret.f(i) == m_cbrt(x.f(i))
%at start
    broadcast use fl;
    let ghost x0 = x;
    proof { masks(); }
%nested lookup_entry_exp_cbrt
%sig fn cbrt_approx_avx2__lookup_entry_exp_cbrt(log2: i32) -> (ret: Fl)
%spec
    requires -126 <= log2 <= 127
    ensures ret@ == r_pow(two_pow(log2 as int), 1real / 3real)
%at start
    broadcast use fl;
    proof { shift_23((log2 + 0x7f) as i32); let k = (log2 + 0x7f) as i32; let w = (k << 23) as u32; entry_bits(log2 as int, w); ax_val(w); lemma_two_pow(log2 as int); }
%endnested
%nested lookup_entry_inv_truncated
%sig fn cbrt_approx_avx2__lookup_entry_inv_truncated(fraction: i32) -> (ret: Fl)
%spec
    requires 0 <= fraction <= 7
    ensures ret@ == inv_entry(fraction as int), ret@ > 0real
%at start
    broadcast use fl;
    proof { inv_entry_pos(fraction as int); }
    assert(1i32 << 3u32 == 8) by(bit_vector);
%endnested
%nested lookup_entry_truncated_cbrt
%sig fn cbrt_approx_avx2__lookup_entry_truncated_cbrt(fraction: i32) -> (ret: Fl)
%spec
    requires 0 <= fraction <= 7
    ensures ret@ == r_pow(inv_entry(fraction as int), -1real / 3real)
%at start
    broadcast use fl;
%endnested
%at end
    assert forall|j: int| 0 <= j < 8 implies #[trigger] lookup_table_exp_cbrt.0.f(j) == r_pow(two_pow(j - 7), 1real / 3real) by {}
    assert forall|j: int| 0 <= j < 8 implies #[trigger] lookup_table_exp_cbrt.1.f(j) == r_pow(two_pow(j + 1), 1real / 3real) by {}
    assert forall|j: int| 0 <= j < 8 implies #[trigger] lookup_table_inv_truncated.f(j) == inv_entry(j) by {}
    assert forall|j: int| 0 <= j < 8 implies #[trigger] lookup_table_truncated_cbrt.f(j) == r_pow(inv_entry(j), -1real / 3real) by {}
    assert forall|i: int| 0 <= i < 8 && in_cbrt(x0.f(i)) implies #[trigger] est.f(i) * (truncated_cbrt.f(i) * exp_cbrt.f(i)) == m_cbrt(x0.f(i)) by {
        let v = x0.f(i);
        let b = u_bits(v);
        normal(v); ax_bits(v); two_pow_values(); exp_range(v, b, -7, 9);
        lane_bits(b, -7, 9, -120i32);
        assert(x0.b(i) == b);
        assert(log2_index.i(i) as int == bits_exp(b) + 7);
        high_half(log2_index.i(i));
        assert(exp_cbrt.f(i) == r_pow(two_pow(bits_exp(b)), 1real / 3real));
        assert(fraction.i(i) as int % 8 == frac3(b));
        assert(truncated_cbrt.f(i) == r_pow(inv_entry(frac3(b)), -1real / 3real));
        let t = (1real + bits_man(b)) * inv_entry(frac3(b));
        assert(x.f(i) == t);
        series(t); series_lanes(t);
        assert(x2.f(i) == t * t); assert(x3.f(i) == t * t * t);
        assert(est.f(i) == est13(t));
    }
%endfn
%fn rgb_to_xyz_map_avx2
%spec
    ensures forall|i: int| 0 <= i < 8 && rgb_ok(c.f(i)) ==> #[trigger] ret.f(i) == lin(c.f(i))
%at start
    broadcast use fl;
    assert forall|i: int| 0 <= i < 8 && rgb_ok(c.f(i)) implies (#[trigger] c.f(i) > 10real / 255real ==> in_pow24((c.f(i) + 0.055real) * (1real / 1.055real))) && (c.f(i) + 0.055real) * (1real / 1.055real) == (c.f(i) + 0.055real) / 1.055real by { lin_bound(c.f(i)); }
%endfn
%fn rgb_to_xyz_avx2
%spec
    requires forall|k: int, i: int| 0 <= k < 3 && 0 <= i < 8 ==> rgb_ok(#[trigger] rgb@[k].f(i))
    ensures
        ret@.len() == 3,
        forall|i: int| #![trigger ret@[0].f(i)] #![trigger ret@[1].f(i)] #![trigger ret@[2].f(i)] 0 <= i < 8 ==> (ret@[0].f(i), ret@[1].f(i), ret@[2].f(i)) == xyz_of(lin(rgb@[0].f(i)), lin(rgb@[1].f(i)), lin(rgb@[2].f(i))),
        ret@[1].plain(), forall|k: int, i: int| 0 <= k < 3 && 0 <= i < 8 ==> -2real <= #[trigger] ret@[k].f(i) < 20real,
%at start
    broadcast use fl;
    assert forall|i: int| #![trigger rgb@[0].f(i)] 0 <= i < 8 implies ({
        let p = xyz_of(lin(rgb@[0].f(i)), lin(rgb@[1].f(i)), lin(rgb@[2].f(i)));
        &&& -2real <= p.0 < 20real && -2real <= p.1 < 20real && -2real <= p.2 < 20real
    }) by { xyz_bound(rgb@[0].f(i), rgb@[1].f(i), rgb@[2].f(i)); }
%endfn
%fn xyz_to_lab_map_avx2
%spec
    requires c.plain()
    ensures forall|i: int| 0 <= i < 8 && -3real <= c.f(i) < 512real ==> #[trigger] ret.f(i) == lab_f(c.f(i))
%at start
    broadcast use fl;
%endfn
%fn xyz_to_lab_avx2
%nested to_array
%sig fn xyz_to_lab_avx2__to_array(reg: __m256) -> (ret: [Fl; 8])
%spec
    ensures forall|i: int| 0 <= i < 8 ==> (#[trigger] ret@[i])@ == reg.f(i)
%endnested
%spec
    requires xyz@[1].plain(), forall|k: int, i: int| 0 <= k < 3 && 0 <= i < 8 ==> -2real <= #[trigger] xyz@[k].f(i) < 20real
    ensures ret@.len() == 8, forall|i: int| 0 <= i < 8 ==> (#[trigger] ret@[i])@ == lab_of_xyz((xyz@[0].f(i), xyz@[1].f(i), xyz@[2].f(i)))
%at start
    broadcast use fl;
%loop 1
    invariant forall|j: int| 0 <= j < i ==> #[trigger] output@[j] == (Lab { l: l@[j], a: a@[j], b: b@[j] })
%endfn
%fn rgb_to_lab_avx2
%spec
    requires forall|k: int, i: int| 0 <= k < 3 && 0 <= i < 8 ==> rgb_ok(#[trigger] rgb@[k].f(i))
    ensures ret@.len() == 8, forall|i: int| 0 <= i < 8 ==> (#[trigger] ret@[i])@ == lab_of(rgb@[0].f(i), rgb@[1].f(i), rgb@[2].f(i))
%at start
    broadcast use fl;
%endfn
%raw
}
pub use rgblab_avx2::*;
%end
