%include sampling.rs
%source @v_frame/src/pixel.rs
%fn ChromaSampling::get_decimation
%spec
    ensures self == ChromaSampling::Cs400 ==> ret is None, self != ChromaSampling::Cs400 ==> ret == Some((cdec(self).0 as usize, cdec(self).1 as usize))
%endfn
%fn ChromaSampling::get_chroma_dimensions
%spec
    requires luma_width < usize::MAX, luma_height < usize::MAX
    ensures ret.0 == chroma_w(self, luma_width as int), ret.1 == chroma_h(self, luma_height as int)
%at start
    proof { halves(luma_width); halves(luma_height); }
%endfn
