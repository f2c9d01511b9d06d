// ------------------------------------- videos: decoders, metrics and results
#[derive(Clone, Copy)]
pub struct VideoDetails { pub bit_depth: usize, pub chroma_sampling: ChromaSampling }
/// the callback and the values it was called with
pub trait Progress: Sized {
    spec fn trace(&self) -> Seq<usize>;
    spec fn steady(&self) -> bool;
    fn vx_call(&mut self, x: usize) ensures final(self).trace() == old(self).trace().push(x), final(self).steady() == old(self).steady();
}
/// A decoder holds the frames that are left; reading takes the first one.
pub trait VideoDecoder: Decoder {
    spec fn details(&self) -> VideoDetails;
    /// reading does not panic
    spec fn steady(&self) -> bool;
    fn get_video_details(&self) -> (ret: VideoDetails) ensures ret == self.details();
    fn get_bit_depth(&self) -> (ret: usize) ensures ret == self.details().bit_depth;
}
/// A metric: what it may say about a pair of frames and about a video
pub trait VideoMetric: Sized {
    type FrameResult;
    type VideoResult;
    /// the metric was made for videos of this sampling
    spec fn ready(&self, c: ChromaSampling) -> bool;
    /// frames it can be called with
    spec fn input_ok<T: Pixel>(&self, p: (Frame<T>, Frame<T>), b: int) -> bool;
    spec fn scored<T: Pixel>(&self, p: (Frame<T>, Frame<T>), b: int, c: ChromaSampling, r: Result<Self::FrameResult, MetricsError>) -> bool;
    /// number of frames it can pool
    spec fn count_ok(&self, n: int) -> bool;
    spec fn agg_req(&self, ms: Seq<Self::FrameResult>) -> bool;
    /// the results of the pairs of a video can be pooled
    proof fn can_pool<T: Pixel>(&self, ps: Seq<(Frame<T>, Frame<T>)>, b: int, c: ChromaSampling, ms: Seq<Self::FrameResult>)
        requires
            self.ready(c), 0 < ps.len() == ms.len(), self.count_ok(ps.len() as int),
            forall|i: int| #![trigger ps[i]] 0 <= i < ps.len() ==> self.input_ok(ps[i], b) && self.scored(ps[i], b, c, Ok(ms[i])),
        ensures self.agg_req(ms);
    spec fn pooled(&self, m: Seq<Self::FrameResult>, r: Result<Self::VideoResult, MetricsError>) -> bool;
    fn process_frame<T: Pixel>(&self, frame1: &Frame<T>, frame2: &Frame<T>, bit_depth: usize, chroma_sampling: ChromaSampling) -> (ret: Result<Self::FrameResult, MetricsError>)
        requires self.input_ok((*frame1, *frame2), bit_depth as int),
        ensures self.scored((*frame1, *frame2), bit_depth as int, chroma_sampling, ret);
    fn aggregate_frame_results(&self, metrics: &Vec<Self::FrameResult>) -> (ret: Result<Self::VideoResult, MetricsError>)
        requires metrics@.len() > 0, self.agg_req(metrics@),
        ensures self.pooled(metrics@, ret);
}
pub type Pair<T> = (Frame<T>, Frame<T>);
/// C01: frame k with frame k
pub open spec fn pair_count<D: VideoDecoder, T: Pixel>(d1: D, d2: D, limit: Option<usize>) -> int {
    let n = if d1.left::<T>().len() <= d2.left::<T>().len() { d1.left::<T>().len() as int } else { d2.left::<T>().len() as int };
    match limit { Some(l) => if l < n { l as int } else { n }, None => n }
}
pub open spec fn pairs<D: VideoDecoder, T: Pixel>(d1: D, d2: D, limit: Option<usize>) -> Seq<Pair<T>> {
    Seq::new(pair_count::<D, T>(d1, d2, limit) as nat, |i: int| (d1.left::<T>()[i], d2.left::<T>()[i]))
}
/// the calls of the callback for n pairs
pub open spec fn calls(n: int) -> Seq<usize> { Seq::new((n + 1) as nat, |i: int| if i < n { (i + 1) as usize } else { usize::MAX }) }
/// all of the messages, in some order
pub open spec fn same_bag<X>(a: Seq<X>, b: Seq<X>) -> bool { a.to_multiset() == b.to_multiset() }
pub open spec fn all_scored<M: VideoMetric, T: Pixel>(m: &M, ps: Seq<Pair<T>>, b: int, c: ChromaSampling, rs: Seq<M::FrameResult>) -> bool {
    ps.len() == rs.len() && forall|i: int| 0 <= i < ps.len() ==> m.scored(#[trigger] ps[i], b, c, Ok(rs[i]))
}
pub open spec fn must_fail<M: VideoMetric, T: Pixel>(m: &M, p: Pair<T>, b: int, c: ChromaSampling) -> bool {
    forall|r: Result<M::FrameResult, MetricsError>| #[trigger] m.scored(p, b, c, r) ==> r is Err
}
pub open spec fn may_fail<M: VideoMetric, T: Pixel>(m: &M, p: Pair<T>, b: int, c: ChromaSampling) -> bool {
    exists|r: Result<M::FrameResult, MetricsError>| #[trigger] m.scored(p, b, c, r) && r is Err
}
/// C01, C04: the result of a video
pub open spec fn video_is<M: VideoMetric, T: Pixel>(m: &M, ps: Seq<Pair<T>>, b: int, c: ChromaSampling, steady: bool, ret: Result<M::VideoResult, MetricsError>) -> bool {
    // a score comes from all of the pairs, each once, and no other
    &&& ret is Ok ==> ps.len() > 0 && exists|got: Seq<Pair<T>>, rs: Seq<M::FrameResult>| #[trigger] same_bag(got, ps) && #[trigger] all_scored(m, got, b, c, rs) && m.pooled(rs, ret)
    // a pair that fails makes the video fail
    &&& (exists|i: int| 0 <= i < ps.len() && must_fail(m, #[trigger] ps[i], b, c)) ==> ret is Err
    &&& steady && (exists|i: int| 0 <= i < ps.len() && must_fail(m, #[trigger] ps[i], b, c)) ==> (ret matches Err(e) && e is ProcessError)
    // no pair, no score
    &&& steady && ps.len() == 0 ==> (ret matches Err(e) && e is UnsupportedInput)
    // nothing else fails
    &&& steady && ps.len() > 0 && (forall|i: int| 0 <= i < ps.len() ==> !may_fail(m, #[trigger] ps[i], b, c))
        ==> exists|got: Seq<Pair<T>>, rs: Seq<M::FrameResult>| #[trigger] same_bag(got, ps) && #[trigger] all_scored(m, got, b, c, rs) && m.pooled(rs, ret)
}
/// C02
pub open spec fn same_format<D: VideoDecoder>(d1: D, d2: D) -> bool {
    d1.details().bit_depth == d2.details().bit_depth && d1.details().chroma_sampling == d2.details().chroma_sampling
}
/// what the metric of a video needs
pub open spec fn video_req<M: VideoMetric, D: VideoDecoder, T: Pixel>(m: &M, d1: D, d2: D, limit: Option<usize>) -> bool {
    &&& d1.left::<T>().len() < usize::MAX && d2.left::<T>().len() < usize::MAX
    &&& m.ready(d1.details().chroma_sampling) && m.count_ok(pair_count::<D, T>(d1, d2, limit))
    &&& forall|p: Pair<T>| pairs::<D, T>(d1, d2, limit).contains(p) ==> #[trigger] m.input_ok(p, d1.details().bit_depth as int)
}
pub open spec fn process_req<M: VideoMetric, D: VideoDecoder>(m: &M, d1: D, d2: D, limit: Option<usize>) -> bool {
    video_req::<M, D, u8>(m, d1, d2, limit) && video_req::<M, D, u16>(m, d1, d2, limit)
}
/// the result of VideoMetric::process_video
pub open spec fn process_is<M: VideoMetric, D: VideoDecoder, F: Progress>(m: &M, d1: D, d2: D, limit: Option<usize>, f: F, ret: Result<M::VideoResult, MetricsError>) -> bool {
    let d = d1.details();
    let steady = d1.steady() && d2.steady() && f.steady();
    &&& !same_format(d1, d2) ==> (ret matches Err(e) && e is InputMismatch)
    &&& same_format(d1, d2) && d.bit_depth > 8 ==> video_is::<M, u16>(m, pairs::<D, u16>(d1, d2, limit), d.bit_depth as int, d.chroma_sampling, steady, ret)
    &&& same_format(d1, d2) && d.bit_depth <= 8 ==> video_is::<M, u8>(m, pairs::<D, u8>(d1, d2, limit), d.bit_depth as int, d.chroma_sampling, steady, ret)
}
