// --------------------- VideoMetric::process_video, verified in video.vx
pub trait ProcessVideo: VideoMetric {
    fn process_video<D: VideoDecoder, F: Progress>(&self, decoder1: &mut D, decoder2: &mut D, frame_limit: Option<usize>, progress_callback: F) -> (ret: Result<Self::VideoResult, MetricsError>)
        requires process_req(self, *old(decoder1), *old(decoder2), frame_limit),
        ensures process_is(self, *old(decoder1), *old(decoder2), frame_limit, progress_callback, ret);
}
impl<M: VideoMetric> ProcessVideo for M {
    #[verifier::external_body]
    fn process_video<D: VideoDecoder, F: Progress>(&self, decoder1: &mut D, decoder2: &mut D, frame_limit: Option<usize>, progress_callback: F) -> (ret: Result<Self::VideoResult, MetricsError>)
    { unimplemented!() }
}
