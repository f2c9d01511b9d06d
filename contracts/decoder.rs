// ------------------------------------------------- decoders, as sequences
/// A decoder holds the frames that are left; reading takes the first one.
pub trait Decoder: Sized {
    spec fn left<T: Pixel>(&self) -> Seq<Frame<T>>;
    /// number of calls of read_video_frame
    spec fn reads(&self) -> nat;
    fn read_video_frame<T: Pixel>(&mut self) -> (ret: Option<Frame<T>>)
        ensures
            final(self).reads() == old(self).reads() + 1,
            old(self).left::<T>().len() > 0 ==> ret == Some(old(self).left::<T>()[0]) && final(self).left::<T>() == old(self).left::<T>().skip(1),
            old(self).left::<T>().len() == 0 ==> ret is None && final(self).left::<T>().len() == 0;
}
