%include num.rs
%include plane.vx
%include decoder.rs
%source av_metrics/src/video/decode.rs

%fn Decoder::read_specific_frame
%self D
%sig fn read_specific_frame<D: Decoder, T: Pixel>(this: &mut D, frame_number: usize) -> (ret: Option<Frame<T>>)
%spec
    requires frame_number < usize::MAX
    ensures
        ret == (if frame_number < old(this).left::<T>().len() { Some(old(this).left::<T>()[frame_number as int]) } else { None::<Frame<T>> }),
        frame_number < old(this).left::<T>().len() ==> final(this).reads() == old(this).reads() + frame_number + 1,
        frame_number < old(this).left::<T>().len() ==> final(this).left::<T>() == old(this).left::<T>().skip(frame_number + 1),
%at start
    let ghost all = this.left::<T>();
    let ghost r0 = this.reads();
%loop 1
    invariant
        frame_number < usize::MAX,
        0 <= frame_no <= frame_number + 1,
        this.reads() == r0 + frame_no,
        this.left::<T>() == (if frame_no <= all.len() { all.skip(frame_no as int) } else { Seq::empty() }),
        frame_no == frame_number + 1 ==> frame_number >= all.len(),
    decreases frame_number + 1 - frame_no
%endfn
