%source av_metrics/src/lib.rs
%struct MetricsError
%source av_metrics/src/video/mod.rs
%struct PlanarMetrics
%raw
pub open spec fn is_mismatch<R>(r: Result<R, MetricsError>) -> bool { r matches Err(e) && e is InputMismatch }
pub open spec fn plane_of(m: PlanarMetrics, c: int) -> real { if c == 0 { m.y@ } else if c == 1 { m.u@ } else { m.v@ } }
/// the largest sample
pub open spec fn depth_max(b: int) -> int { vstd::arithmetic::power2::pow2(b as nat) - 1 }
/// the sample type fits the bit depth
pub open spec fn width_ok<T: Pixel>(bit_depth: int) -> bool {
    (T::bytes() == 1 ==> bit_depth <= 8) && (T::bytes() == 2 ==> bit_depth > 8)
}
%end
%fn Plane::can_compare
%spec
    ensures
        self.cfg == other.cfg ==> ret is Ok,
        self.cfg != other.cfg ==> is_mismatch(ret),
%endfn
%fn Frame::can_compare
%spec
    ensures
        self.fits(other) ==> ret is Ok,
        !self.fits(other) ==> is_mismatch(ret),
%endfn
