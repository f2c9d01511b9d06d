%include num.rs
%include fl.rs
%raw
pub mod laws {
use super::*;
%end
%include powers.rs
%include polys.rs
%include power_laws.rs
%raw
}
pub use laws::*;
%end
%include color.rs
%raw
pub mod rgblab {
use super::*;
%end
%source av_metrics/src/video/ciede/rgbtolab/mod.rs
%fconst KAPPA
    ensures ret@ == 24389real / 27real
%fconst EPSILON
    ensures ret@ == 216real / 24389real
%fn pow_2_4
%spec
    requires in_pow24(x@)
    ensures ret@ == m_pow24(x@)
%at start
    broadcast use fl;
    let ghost x0 = x@;
    let ghost b = u_bits(x0);
    assert(1u32 << 3u32 == 8) by(bit_vector);
    proof { normal(x@); ax_bits(x@); two_pow_values(); exp_range(x@, b, -4, 4); bits_parts(b); around_bits(b); ax_val((b & 0x807fffffu32) | 0x3f800000u32); }
%nested lookup_entry_exp_pow_2_4
%sig fn pow_2_4__lookup_entry_exp_pow_2_4(log2: i32) -> (ret: Fl)
%spec
    requires -126 <= log2 <= 127
    ensures ret@ == r_pow(two_pow(log2 as int), 2.4real)
%at start
    broadcast use fl;
    proof { shift_23((log2 + 0x7f) as i32); let k = (log2 + 0x7f) as i32; let w = (k << 23) as u32; entry_bits(log2 as int, w); ax_val(w); lemma_two_pow(log2 as int); }
%endnested
%nested lookup_entry_inv_truncated
%sig fn pow_2_4__lookup_entry_inv_truncated(fraction: i32) -> (ret: Fl)
%spec
    requires 0 <= fraction <= 7
    ensures ret@ == inv_entry(fraction as int), ret@ > 0real
%at start
    broadcast use fl;
    proof { inv_entry_pos(fraction as int); }
    assert(1i32 << 3u32 == 8) by(bit_vector);
%endnested
%nested lookup_entry_truncated_pow_2_4
%sig fn pow_2_4__lookup_entry_truncated_pow_2_4(fraction: i32) -> (ret: Fl)
%spec
    requires 0 <= fraction <= 7
    ensures ret@ == r_pow(inv_entry(fraction as int), -2.4real)
%at start
    broadcast use fl;
%endnested
%at end
    proof { let t = x@; series(t); assert(est@ == est24(t)); }
%endfn
%fn cbrt_approx
%spec
    requires in_cbrt(x@)
    ensures ret@ == m_cbrt(x@)
%at start
    broadcast use fl;
    let ghost x0 = x@;
    let ghost b = u_bits(x0);
    assert(1u32 << 3u32 == 8) by(bit_vector);
    proof { normal(x@); ax_bits(x@); two_pow_values(); exp_range(x@, b, -7, 9); bits_parts(b); around_bits(b); ax_val((b & 0x807fffffu32) | 0x3f800000u32); }
%nested lookup_entry_exp_cbrt
%sig fn cbrt_approx__lookup_entry_exp_cbrt(log2: i32) -> (ret: Fl)
%spec
    requires -126 <= log2 <= 127
    ensures ret@ == r_pow(two_pow(log2 as int), 1real / 3real)
%at start
    broadcast use fl;
    proof { shift_23((log2 + 0x7f) as i32); let k = (log2 + 0x7f) as i32; let w = (k << 23) as u32; entry_bits(log2 as int, w); ax_val(w); lemma_two_pow(log2 as int); }
%endnested
%nested lookup_entry_inv_truncated
%sig fn cbrt_approx__lookup_entry_inv_truncated(fraction: i32) -> (ret: Fl)
%spec
    requires 0 <= fraction <= 7
    ensures ret@ == inv_entry(fraction as int), ret@ > 0real
%at start
    broadcast use fl;
    proof { inv_entry_pos(fraction as int); }
    assert(1i32 << 3u32 == 8) by(bit_vector);
%endnested
%nested lookup_entry_truncated_cbrt
%sig fn cbrt_approx__lookup_entry_truncated_cbrt(fraction: i32) -> (ret: Fl)
%spec
    requires 0 <= fraction <= 7
    ensures ret@ == r_pow(inv_entry(fraction as int), -1real / 3real)
%at start
    broadcast use fl;
%endnested
%at end
    proof { let t = x@; series(t); assert(est@ == est13(t)); }
%endfn
%fn rgb_to_xyz_map
%spec
    requires rgb_ok(c@)
    ensures ret@ == lin(c@)
%at start
    broadcast use fl;
    proof { lin_bound(c@); }
%endfn
%fn rgb_to_xyz
%spec
    requires forall|k: int| 0 <= k < 3 ==> rgb_ok((#[trigger] rgb@[k])@)
    ensures ret.len() == 3, (ret[0]@, ret[1]@, ret[2]@) == xyz_of(lin(rgb[0]@), lin(rgb[1]@), lin(rgb[2]@))
%at start
    broadcast use fl;
    assert(rgb_ok(rgb@[0]@) && rgb_ok(rgb@[1]@) && rgb_ok(rgb@[2]@));
%endfn
%fn xyz_to_lab_map
%spec
    requires -3real <= c@ < 512real
    ensures ret@ == lab_f(c@)
%at start
    broadcast use fl;
    proof { over_116(24389real / 27real * c@ + 16real); }
%endfn
%fn xyz_to_lab
%spec
    requires forall|k: int| 0 <= k < 3 ==> -2real <= (#[trigger] xyz@[k])@ < 20real
    ensures ret@ == lab_of_xyz((xyz[0]@, xyz[1]@, xyz[2]@))
%at start
    broadcast use fl;
    proof { white(xyz[0]@, xyz[2]@); }
    assert(-2real <= xyz@[0]@ < 20real && -2real <= xyz@[1]@ < 20real && -2real <= xyz@[2]@ < 20real);
%endfn
%fn rgb_to_lab
%spec
    requires forall|k: int| 0 <= k < 3 ==> rgb_ok((#[trigger] rgb@[k])@)
    ensures ret@ == lab_of(rgb[0]@, rgb[1]@, rgb[2]@)
%at start
    assert(rgb_ok(rgb@[0]@) && rgb_ok(rgb@[1]@) && rgb_ok(rgb@[2]@));
    proof { xyz_bound(rgb[0]@, rgb[1]@, rgb[2]@); }
%endfn
%raw
}
pub use rgblab::*;
%end
%raw
pub mod de2000 {
use super::*;
%end
%source av_metrics/src/video/ciede/delta_e/de2000.rs
%struct DE2000
%struct KSubArgs
%fn get_h_prime_fn
%spec
    ensures ret@ == hue_angle(x@, y@)
%at start
    broadcast use fl;
%endfn
%fn get_delta_h_prime
%spec
    ensures ret@ == hue_diff(c1@, c2@, h_prime_1@, h_prime_2@)
%at start
    broadcast use fl;
%endfn
%fn get_upcase_h_bar_prime
%spec
    ensures ret@ == hue_mean(h_prime_1@, h_prime_2@)
%at start
    broadcast use fl;
%endfn
%fn get_upcase_t
%spec
    ensures ret@ == hue_t(upcase_h_bar_prime@)
%at start
    broadcast use fl;
%endfn
%fn radians_to_degrees
%spec
    ensures ret@ == radians@ * (180real / r_pi())
%at start
    broadcast use fl;
    proof { ax_pi(); }
%endfn
%fn degrees_to_radians
%spec
    ensures ret@ == degrees@ * (r_pi() / 180real)
%at start
    broadcast use fl;
%endfn
%fn get_r_sub_t
%spec
    requires c_bar_prime@ >= 0real
    ensures ret@ == rotation(c_bar_prime@, upcase_h_bar_prime@)
%at start
    broadcast use fl;
    proof { chroma_7_ok(c_bar_prime@); }
    let ghost d = (upcase_h_bar_prime@ * (180real / r_pi()) - 275real) / 25real;
    let ghost e = r_pow(r_e(), -r_powi(d, 2));
    assert((upcase_h_bar_prime@ * (180real / r_pi()) - 275real) * (1real / 25real) == d);
    assert(rotation(c_bar_prime@, upcase_h_bar_prime@) == -2real * chroma_7(c_bar_prime@) * r_sin(60real * e * (r_pi() / 180real)));
%endfn
%fn DE2000::new
%spec
    requires ksub.l@ > 0real, ksub.c@ > 0real, ksub.h@ > 0real
    ensures ret@ == de00(color_1@, color_2@, ksub.l@, ksub.c@, ksub.h@)
%at start
    broadcast use fl;
    proof { de_ok(color_1@, color_2@, ksub.l@, ksub.c@, ksub.h@); }
%endfn
%raw
}
pub use de2000::*;
%end
