// ------------------------------------------- the ffmpeg-the-third crate
pub struct Path;
pub trait AsRef<T> {}
pub enum Type { Video, Other }
pub mod ffmpeg {
use super::*;
pub struct Error { e: u8 }
impl Error { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
#[verifier::external_body]
pub fn init() -> Result<(), Error> { unimplemented!() }
pub mod codec { pub mod context { use super::super::super::*;
    #[verifier::external_body]
    pub struct Context { x: u8 }
    #[verifier::external_body]
    pub struct Opened { x: u8 }
    impl Context {
        #[verifier::external_body]
        pub fn from_parameters(p: Parameters) -> Result<Context, ffmpeg::Error> { unimplemented!() }
        #[verifier::external_body]
        pub fn decoder(self) -> Opened { unimplemented!() }
    }
    impl Opened {
        #[verifier::external_body]
        pub fn video(self) -> (r: Result<decoder::Video, ffmpeg::Error>) ensures r matches Ok(d) ==> d.got().len() == 0 && d.sent() == Seq::<(usize, int)>::empty() && !d.eof() { unimplemented!() }
    }
} }
}
#[verifier::external_body]
pub struct Parameters { x: u8 }
#[verifier::external_body]
pub struct Stream { x: u8 }
#[verifier::external_body]
pub struct Streams { x: u8 }
pub struct FrameRate { pub num: i32, pub den: i32 }
impl FrameRate {
    pub fn numerator(&self) -> (r: i32) ensures r == self.num { self.num }
    pub fn denominator(&self) -> (r: i32) ensures r == self.den { self.den }
}
impl Streams {
    pub uninterp spec fn idx(&self) -> usize;
    pub uninterp spec fn rate(&self) -> FrameRate;
    #[verifier::external_body]
    pub fn best(self, t: Type) -> (r: Option<Stream>) ensures t is Video ==> (r matches Some(s) ==> s.idx() == self.idx() && s.rate() == self.rate()) { unimplemented!() }
}
impl Stream {
    pub uninterp spec fn rate(&self) -> FrameRate;
    pub uninterp spec fn idx(&self) -> usize;
    #[verifier::external_body]
    pub fn index(&self) -> (r: usize) ensures r == self.idx() { unimplemented!() }
    #[verifier::external_body]
    pub fn parameters(&self) -> Parameters { unimplemented!() }
    #[verifier::external_body]
    pub fn avg_frame_rate(&self) -> (r: FrameRate) ensures r == self.rate() { unimplemented!() }
}
pub mod format {
use super::*;
pub mod pixel {
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub enum Pixel { YUV420P, YUV422P, YUV444P, YUVJ420P, YUVJ422P, YUVJ444P, YUV420P10LE, YUV422P10LE, YUV444P10LE, YUV420P12LE, YUV422P12LE, YUV444P12LE, Other }
}
#[verifier::external_body]
pub fn input<P>(p: &P) -> (r: Result<context::Input, ffmpeg::Error>) ensures r matches Ok(i) ==> i.taken() == Seq::<(usize, int)>::empty() { unimplemented!() }
}
pub mod packet {
    use super::*;
    #[verifier::external_body]
    pub struct Packet { x: u8 }
    impl Packet {
        /// which of the packets of the file it is
        pub uninterp spec fn tag(&self) -> int;
        pub uninterp spec fn idx(&self) -> usize;
        #[verifier::external_body]
        pub fn empty() -> Packet { unimplemented!() }
        #[verifier::external_body]
        pub fn stream(&self) -> (r: usize) ensures r == self.idx() { unimplemented!() }
        #[verifier::external_body]
        pub fn set_pts(&mut self, t: Option<i64>) ensures final(self).tag() == old(self).tag(), final(self).idx() == old(self).idx() { unimplemented!() }
        #[verifier::external_body]
        pub fn set_dts(&mut self, t: Option<i64>) ensures final(self).tag() == old(self).tag(), final(self).idx() == old(self).idx() { unimplemented!() }
    }
}
pub mod context { use super::*;
#[verifier::external_body]
pub struct Input { x: u8 }
impl Input {
    /// the best stream of video
    pub uninterp spec fn idx(&self) -> usize;
    pub uninterp spec fn rate(&self) -> FrameRate;
    /// the packets that were read: their streams and tags
    pub uninterp spec fn taken(&self) -> Seq<(usize, int)>;
    /// there are no more
    pub uninterp spec fn ended(&self) -> bool;
    #[verifier::external_body]
    pub fn streams(&self) -> (r: Streams) ensures r.idx() == self.idx(), r.rate() == self.rate() { unimplemented!() }
    #[verifier::external_body]
    pub fn next_packet(&mut self) -> (r: Option<packet::Packet>)
        ensures
            final(self).idx() == old(self).idx(), final(self).rate() == old(self).rate(),
            old(self).ended() ==> r is None,
            r is None ==> final(self).ended() && final(self).taken() == old(self).taken(),
            r matches Some(p) ==> final(self).taken() == old(self).taken().push((p.idx(), p.tag())) && !final(self).ended(),
    { unimplemented!() }
}
}
pub mod decoder {
use super::*;
/// The decoder of a video hands out the frames of the packets it is sent.
#[verifier::external_body]
pub struct Video { x: u8 }
impl Video {
    pub uninterp spec fn w(&self) -> u32;
    pub uninterp spec fn h(&self) -> u32;
    pub uninterp spec fn fmt(&self) -> format::pixel::Pixel;
    /// the frames handed out
    pub uninterp spec fn got(&self) -> Seq<frame::Video>;
    /// the packets it was sent
    pub uninterp spec fn sent(&self) -> Seq<(usize, int)>;
    /// it was told that no packets follow
    pub uninterp spec fn eof(&self) -> bool;
    /// the last attempt to get a frame failed
    pub uninterp spec fn dry(&self) -> bool;
    pub open spec fn same_video(&self, o: &Video) -> bool { self.w() == o.w() && self.h() == o.h() && self.fmt() == o.fmt() }
    #[verifier::external_body]
    pub fn set_parameters(&mut self, p: Parameters) -> (r: Result<(), ffmpeg::Error>) ensures final(self).got() == old(self).got(), final(self).sent() == old(self).sent(), final(self).eof() == old(self).eof() { unimplemented!() }
    #[verifier::external_body]
    pub fn width(&self) -> (r: u32) ensures r == self.w(), 0 < self.w() <= 1073741824 { unimplemented!() }
    #[verifier::external_body]
    pub fn height(&self) -> (r: u32) ensures r == self.h(), 0 < self.h() <= 1073741824 { unimplemented!() }
    #[verifier::external_body]
    pub fn format(&self) -> (r: format::pixel::Pixel) ensures r == self.fmt() { unimplemented!() }
    #[verifier::external_body]
    pub fn send_eof(&mut self) -> (r: Result<(), ffmpeg::Error>)
        ensures final(self).same_video(old(self)), final(self).got() == old(self).got(), final(self).sent() == old(self).sent(), final(self).eof()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn send_packet(&mut self, p: &packet::Packet) -> (r: Result<(), ffmpeg::Error>)
        ensures final(self).same_video(old(self)), final(self).got() == old(self).got(), final(self).eof() == old(self).eof(), final(self).sent() == old(self).sent().push((p.idx(), p.tag()))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn receive_frame(&mut self, v: &mut frame::Video) -> (r: Result<(), ffmpeg::Error>)
        ensures
            final(self).same_video(old(self)), final(self).eof() == old(self).eof(), final(self).sent() == old(self).sent(),
            r is Ok ==> final(self).got() == old(self).got().push(*final(v)) && frame_fits_format(final(v), old(self).w() as int, old(self).h() as int, old(self).fmt()),
            r is Err ==> final(self).got() == old(self).got() && final(self).dry(),
    { unimplemented!() }
}
}
pub mod frame {
use super::*;
#[verifier::external_body]
pub struct Video { x: u8 }
impl Video {
    pub uninterp spec fn plane(&self, i: int) -> Seq<u8>;
    /// bytes from a line of the plane to the next
    pub uninterp spec fn line(&self, i: int) -> int;
    #[verifier::external_body]
    pub fn new(f: format::pixel::Pixel, w: u32, h: u32) -> Video { unimplemented!() }
    #[verifier::external_body]
    pub fn data(&self, i: usize) -> (r: &[u8]) requires i < 3 ensures r@ == self.plane(i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn stride(&self, i: usize) -> (r: usize) requires i < 3 ensures r == self.line(i as int) { unimplemented!() }
}
}
/// C15: bits of a sample
pub open spec fn fmt_bits(f: format::pixel::Pixel) -> int {
    match f {
        format::pixel::Pixel::YUV420P10LE | format::pixel::Pixel::YUV422P10LE | format::pixel::Pixel::YUV444P10LE => 10,
        format::pixel::Pixel::YUV420P12LE | format::pixel::Pixel::YUV422P12LE | format::pixel::Pixel::YUV444P12LE => 12,
        _ => 8,
    }
}
/// C15: sampling of the chroma planes
pub open spec fn fmt_sampling(f: format::pixel::Pixel) -> ChromaSampling {
    match f {
        format::pixel::Pixel::YUV422P | format::pixel::Pixel::YUVJ422P | format::pixel::Pixel::YUV422P10LE | format::pixel::Pixel::YUV422P12LE => ChromaSampling::Cs422,
        format::pixel::Pixel::YUV444P | format::pixel::Pixel::YUVJ444P | format::pixel::Pixel::YUV444P10LE | format::pixel::Pixel::YUV444P12LE => ChromaSampling::Cs444,
        _ => ChromaSampling::Cs420,
    }
}
/// C15: where the samples of chroma lie
pub open spec fn fmt_position(f: format::pixel::Pixel) -> ChromaSamplePosition {
    match f {
        format::pixel::Pixel::YUV422P | format::pixel::Pixel::YUV422P10LE | format::pixel::Pixel::YUV422P12LE => ChromaSamplePosition::Vertical,
        _ => ChromaSamplePosition::Colocated,
    }
}
pub open spec fn frame_fits_format(v: &frame::Video, w: int, h: int, f: format::pixel::Pixel) -> bool { f != format::pixel::Pixel::Other ==> fits_video(v, w, h, fmt_bits(f), fmt_sampling(f)) }
impl FfmpegDecoder {
    /// the details are those of the video
    pub open spec fn inv(&self) -> bool {
        let d = self.video_details;
        &&& details_ok(&d) && self.decoder.fmt() != format::pixel::Pixel::Other
        &&& d.width == self.decoder.w() && d.height == self.decoder.h() && d.bit_depth == fmt_bits(self.decoder.fmt())
        &&& d.chroma_sampling == fmt_sampling(self.decoder.fmt()) && d.chroma_sample_position == fmt_position(self.decoder.fmt()) && d.luma_padding == 0
        &&& self.input_ctx.rate().num >= 0 && self.input_ctx.rate().den >= 0 ==> d.time_base.num == self.input_ctx.rate().den && d.time_base.den == self.input_ctx.rate().num
        // every packet of the stream is decoded, and then the end is announced
        &&& self.stream_index == self.input_ctx.idx() && self.decoder.sent() == of_stream(self.input_ctx.taken(), self.input_ctx.idx())
        &&& self.end_of_stream ==> self.input_ctx.ended()
        &&& self.eof_sent ==> self.end_of_stream && self.decoder.eof()
    }
}
#[verifier::external_body]
pub fn vx_format() -> String { unimplemented!() }
/// the packets of a stream
pub open spec fn of_stream(s: Seq<(usize, int)>, i: usize) -> Seq<(usize, int)>
    decreases s.len()
{ if s.len() == 0 { s } else if s.last().0 == i { of_stream(s.drop_last(), i).push(s.last()) } else { of_stream(s.drop_last(), i) } }
pub proof fn one_more(s: Seq<(usize, int)>, p: (usize, int), i: usize)
    ensures of_stream(s.push(p), i) == (if p.0 == i { of_stream(s, i).push(p) } else { of_stream(s, i) })
{ assert(s.push(p).drop_last() =~= s); }
