%include decode.vx
%include sampling.vx
%raw
pub trait Read {}
pub mod av_metrics { pub mod video { pub use super::super::*; } }
%end
%include decoders.rs
%source @y4m/src/lib.rs
%struct Colorspace
%fn Colorspace::get_bit_depth
%spec
    ensures ret == cs_bits(self)
%endfn
%fn Colorspace::get_bytes_per_sample
%spec
    ensures ret == cs_bytes(self)
%endfn
%fn get_plane_sizes
%spec
    requires sizes_ok(width as int, height as int, colorspace)
    ensures
        ret.0 == luma_len(width as int, height as int, colorspace),
        ret.1 == chroma_len(width as int, height as int, colorspace),
        ret.2 == chroma_len(width as int, height as int, colorspace),
%at start
    proof { size_bounds(width as int, height as int, colorspace); }
%endfn
%raw
// ------------------------------------------------------- the y4m crate
pub mod y4m {
pub use super::Colorspace;
use super::*;
/// Numerator and denominator.
#[derive(Clone, Copy)]
pub struct Ratio { pub num: usize, pub den: usize }
pub struct Error { pub e: u8 }
/// the bytes of the three planes of a frame
pub struct Frame { pub y: Vec<u8>, pub u: Vec<u8>, pub v: Vec<u8> }
impl Frame {
    pub fn get_y_plane(&self) -> (r: &[u8]) ensures r@ == self.y@ { self.y.as_slice() }
    pub fn get_u_plane(&self) -> (r: &[u8]) ensures r@ == self.u@ { self.u.as_slice() }
    pub fn get_v_plane(&self) -> (r: &[u8]) ensures r@ == self.v@ { self.v.as_slice() }
}
/// y4m: a file holds a header and frames, whose planes have the lengths that
/// y4m::get_plane_sizes states; reading takes the next of them.
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Decoder<R> { r: R }
impl<R> Decoder<R> {
    pub uninterp spec fn w(&self) -> int;
    pub uninterp spec fn h(&self) -> int;
    pub uninterp spec fn cs(&self) -> Colorspace;
    pub uninterp spec fn rate(&self) -> Ratio;
    /// the frames that are left
    pub uninterp spec fn rest(&self) -> Seq<Frame>;
    pub open spec fn same_file(&self, o: &Decoder<R>) -> bool { self.w() == o.w() && self.h() == o.h() && self.cs() == o.cs() && self.rate() == o.rate() }
    #[verifier::external_body]
    pub fn get_width(&self) -> (r: usize) ensures r == self.w(), sizes_ok(self.w(), self.h(), self.cs()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_height(&self) -> (r: usize) ensures r == self.h(), sizes_ok(self.w(), self.h(), self.cs()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_colorspace(&self) -> (r: Colorspace) ensures r == self.cs() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_framerate(&self) -> (r: Ratio) ensures r == self.rate() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_bit_depth(&self) -> (r: usize) ensures r == cs_bits(self.cs()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_bytes_per_sample(&self) -> (r: usize) ensures r == cs_bytes(self.cs()) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_frame(&mut self) -> (r: Result<Frame, Error>)
        ensures
            final(self).same_file(old(self)),
            old(self).rest().len() == 0 ==> r is Err && final(self).rest().len() == 0,
            old(self).rest().len() > 0 ==> r == Ok::<Frame, Error>(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1)
                && frame_ok(&old(self).rest()[0], old(self).w(), old(self).h(), old(self).cs()),
    { unimplemented!() }
}
}
%end
%source av_metrics/src/video/decode.rs
%struct VideoDetails
%struct Rational
%fn Rational::new
%spec
    ensures ret.num == num, ret.den == den
%endfn
%source av_metrics_decoders/src/lib.rs
%fn new_frame
%spec
    requires width <= 1073741824, height <= 1073741824, width == 0 ==> height == 0
    ensures exact_frame(&ret, width as int, height as int, chroma_sampling)
%endfn
%source av_metrics_decoders/src/y4m.rs
%struct Y4MDecoder #[verifier::reject_recursive_types(R)]
%fn map_y4m_color_space
%spec
    ensures ret.0 == cs_sampling(color_space), ret.1 == cs_position(color_space)
%endfn
%fn Y4MDecoder::get_video_details
%spec
    ensures
        ret.width == self.inner.w(), ret.height == self.inner.h(), ret.bit_depth == cs_bits(self.inner.cs()),
        ret.chroma_sampling == cs_sampling(self.inner.cs()), ret.chroma_sample_position == cs_position(self.inner.cs()),
        ret.time_base.num == self.inner.rate().den, ret.time_base.den == self.inner.rate().num,
        ret.luma_padding == 0,
%endfn
%fn Y4MDecoder::read_video_frame
%spec
    requires cs_bytes(old(self).inner.cs()) == 2 ==> T::bytes() == 2
    ensures
        final(self).inner.same_file(&old(self).inner),
        old(self).inner.rest().len() == 0 ==> ret is None && final(self).inner.rest().len() == 0,
        old(self).inner.rest().len() > 0 ==> ret is Some && final(self).inner.rest() == old(self).inner.rest().skip(1)
            && delivered(&ret->Some_0, &old(self).inner.rest()[0], old(self).inner.w(), old(self).inner.h(), old(self).inner.cs()),
%at let bytes
    proof {
        let (w, h, c) = (old(self).inner.w(), old(self).inner.h(), old(self).inner.cs());
        dims_ok(w, h, c);
        frame_lines(w, h, c);
        T::sizes();
    }
%at let f
    proof {
        all_stored(&f.planes[0int]); all_stored(&f.planes[1int]); all_stored(&f.planes[2int]);
    }
%endfn
%fn Y4MDecoder::get_bit_depth
%spec
    ensures ret == cs_bits(self.inner.cs())
%endfn
%include ffmpeg.rs
%source av_metrics_decoders/src/ffmpeg.rs
%struct FfmpegDecoder
%fn FfmpegDecoder::new
%spec
    ensures ret matches Ok(d) ==> d.inv() && d.frameno == 0 && !d.end_of_stream && !d.eof_sent && d.decoder.got().len() == 0
%endfn
%fn FfmpegDecoder::decode_frame
%spec
    requires
        details_ok(&self.video_details), fits_details(decoded, &self.video_details),
        bytes_of(self.video_details.bit_depth as int) == 2 ==> T::bytes() == 2,
    ensures delivered_from(&ret, decoded, &self.video_details)
%at let bytes
    proof {
        let d = &self.video_details;
        let b = bytes_of(d.bit_depth as int);
        let (cw, ch) = (chroma_w(d.chroma_sampling, d.width as int), chroma_h(d.chroma_sampling, d.height as int));
        enough(decoded.plane(0).len() as int, decoded.line(0), d.width as int, d.height as int, b);
        enough(decoded.plane(1).len() as int, decoded.line(1), cw, ch, b);
        enough(decoded.plane(2).len() as int, decoded.line(2), cw, ch, b);
        T::sizes();
        all_stored(&f.planes[0int]); all_stored(&f.planes[1int]); all_stored(&f.planes[2int]);
    }
%endfn
%fn FfmpegDecoder::get_video_details
%spec
    ensures ret == self.video_details
%endfn
%fn FfmpegDecoder::get_bit_depth
%spec
    ensures ret == self.video_details.bit_depth
%endfn
%fn FfmpegDecoder::read_video_frame
%subst self.input_ctx.packets().filter_map(Result::ok).next().map(|(_, packet)| packet) => self.input_ctx.next_packet()
%attr #[verifier::exec_allows_no_decreases_clause]
%spec
    requires old(self).inv(), bytes_of(old(self).video_details.bit_depth as int) == 2 ==> T::bytes() == 2, old(self).frameno < usize::MAX
    ensures
        final(self).inv(), final(self).video_details == old(self).video_details,
        ret matches Some(f) ==> final(self).decoder.got().len() == old(self).decoder.got().len() + 1 && final(self).decoder.got().take(old(self).decoder.got().len() as int) == old(self).decoder.got()
            && delivered_from(&f, &final(self).decoder.got().last(), &final(self).video_details),
        ret is None ==> final(self).decoder.got() == old(self).decoder.got() && final(self).input_ctx.ended() && final(self).decoder.eof() && final(self).decoder.dry(),
%at let packet
    proof { if packet is Some { one_more(taken0, (packet->Some_0.idx(), packet->Some_0.tag()), self.input_ctx.idx()); } }
%at loop 1 start
    let ghost taken0 = self.input_ctx.taken();
%loop 1
    invariant
        self.inv(), self.video_details == old(self).video_details, self.decoder.got() == old(self).decoder.got(), self.frameno == old(self).frameno, old(self).frameno < usize::MAX,
        bytes_of(self.video_details.bit_depth as int) == 2 ==> T::bytes() == 2,
%endfn
