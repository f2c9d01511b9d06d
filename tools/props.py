import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
V='av_metrics/src/video/'
T="The tests run six metrics on five pairs of 640x360 clips of three frames (8-bit 4:2:0, 4:2:2, 4:4:4 and 10-bit 4:2:0), and compare with a tolerance of 0.01"
p('C01','Video metrics pair frame k with frame k, each exactly once',
 "A video metric scores the pairs (frame k of the first video, frame k of the second one) for exactly k = 0 .. min(frames of the first, frames of the second, frame limit) - 1, each once, and no other pair, whatever the scheduling of the worker threads. The progress callback is called with 1, 2, ... n for the n pairs in order, then once with the largest integer, and the result depends on the scored pairs only. If no pair exists the result is an error and not a score.",
 ['schedules','inputs','histories'],"All lengths of the two videos, all frame limits (absent, 0, small, huge), all interleavings of decoding and scoring threads",
 T+": equal lengths, no frame limit, a callback that does nothing; no test observes which frames were paired.",
 [V+'mod.rs'],[('sender loop: decoded counter, frame limit, both-frames-present test',V+'mod.rs process_video_mt'),('bounded channel drained by a rayon batch loop until empty',V+'mod.rs process_video_mt')],
 ['calculate_video_* results','progress callback arguments','number of frames read from a Decoder'],[('decoded','pairs decoded so far',V+'mod.rs')])
p('C02','Videos of different formats are refused before decoding',
 "If two videos differ in bit depth or in chroma sampling, every video metric returns an input-mismatch error without reading a frame, and never a score. If both agree, this gate never refuses them. The samples are read as 8-bit ones exactly when the bit depth is at most 8.",
 ['inputs','configurations'],"All pairs of bit depths and chroma samplings, for all six video metrics",
 T+": both videos always have the same format, so the refusal is never exercised.",
 [V+'mod.rs'],[('comparison of get_bit_depth and chroma_sampling',V+'mod.rs process_video')],['error variant of calculate_video_*','frames read from the decoders'])
p('C03','Frames of different geometry or sample width are refused',
 "Every frame metric returns an input-mismatch error when any of the three planes of the two frames differ in geometry, or when the sample type of the frames does not fit the stated bit depth (more than 8 bits in 8-bit samples, or 8 bits or less in 16-bit ones). It never refuses frames of the same geometry and of a supported size, bit depth and sampling, and no pair of frames whose samples fit the bit depth makes it panic or read outside of the planes.",
 ['inputs','configurations'],"All pairs of frames (dimensions, strides, padding and subsampling of each of the planes), bit depths and chroma samplings, for all six frame metrics",
 T+", all through equal geometries; no frame-level function is called by a test.",
 [V+'mod.rs',V+'psnr.rs',V+'psnr_hvs.rs',V+'ssim.rs',V+'ciede/mod.rs'],[('can_compare on the three planes',V+'mod.rs FrameCompare, PlaneCompare'),('sample width test at the top of process_frame',V+'*.rs process_frame'),('minimum size and chroma geometry tests',V+'psnr_hvs.rs, ssim.rs, ciede/mod.rs')],['Result of calculate_frame_*'])
p('C04','A failure becomes an error: no partial score, no hang',
 "If scoring any pair of frames fails, the video metric returns a processing error that carries the reason; it never returns a score computed from the other pairs. It returns in bounded time after the failure, however many frames remain and wherever the failing pair is. A decoder that panics makes the call return an error too.",
 ['fault_sequences','schedules','histories'],"All positions of the failing pair, all numbers of remaining frames, all interleavings of the decoding thread with the scoring threads",
 T+": no pair ever fails; the hang that existed here needed a failure with more frames left than the channel holds.",
 [V+'mod.rs'],[('process_error collected from each batch',V+'mod.rs process_video_mt'),('receiver dropped before joining the sender',V+'mod.rs process_video_mt'),('match on the result of the scope',V+'mod.rs process_video_mt')],['Result of calculate_video_*','termination of the call'])
p('C05','PSNR of a plane is its definition',
 "The PSNR of a plane is 10 log10(max^2 N / SSE), where SSE is the exact sum of the squared differences of the N visible samples and max the largest sample value of the bit depth. It is 100 when all samples are equal, never exceeds 100, and no plane size (up to 2^32 samples), sample values or bit depth up to 16 overflow the sum.",
 ['inputs'],"All plane sizes, sample values, bit depths 8 to 16 and pixel types",
 T+"; an error on rare values (saturated differences, one pixel, 12-bit samples) or an excess over the cap stays invisible.",
 [V+'psnr.rs'],[('sum of squared differences in u64',V+'psnr.rs calculate_plane_total_squared_error'),('sample maximum and pixel count',V+'psnr.rs calculate_plane_psnr_metrics'),('cap',V+'psnr.rs calculate_psnr')],['calculate_frame_psnr'])
p('C06','PSNR pools squared error, APSNR averages decibels',
 "The PSNR of a video is the PSNR of all of its frames taken as one large picture (squared errors and pixel counts of the frames are added, per plane, and over the three planes for the average value). The APSNR of a video is the arithmetic mean over the frames of the PSNR of each frame (per plane, and of the value pooled over the three planes). For a video of one frame both equal the PSNR of that frame.",
 ['inputs','histories'],"All numbers of frames, and all per-frame errors including frames without any error",
 T+": three frames of similar quality, for which pooling and averaging almost agree.",
 [V+'psnr.rs'],[('fold over the frames',V+'psnr.rs calculate_summed_psnr'),('mean over the frames',V+'psnr.rs aggregate_frame_results')],['calculate_video_psnr','calculate_video_apsnr','calculate_frame_psnr'])
p('C07','Planar scores are averaged over frames and weighted by sampling',
 "For PSNR-HVS, SSIM and MSSSIM, the score of each plane of a video is the decibel value of the mean over the frames of the linear score of this plane. The average value is the decibel value of the mean of the planes weighted 1 for luma and, for each chroma plane, 1/4 in 4:2:0, 1/2 in 4:2:2, 1 in 4:4:4 and 0 in monochrome. A video of one frame has the scores of that frame.",
 ['inputs','configurations','histories'],"All linear scores, numbers of frames and chroma samplings",
 T+": the weights are only exercised for similar planes, never for monochrome, one frame or many.",
 [V+'mod.rs',V+'psnr_hvs.rs',V+'ssim.rs'],[('chroma weight',V+'mod.rs get_chroma_weight'),('aggregation',V+'ssim.rs and psnr_hvs.rs aggregate_frame_results, calculate_frame_*'),('decibel conversion',V+'ssim.rs and psnr_hvs.rs log10_convert')],['calculate_video_{psnr_hvs,ssim,msssim}','calculate_frame_{psnr_hvs,ssim,msssim}'])
p('C08','PSNR-HVS covers the plane and uses an accurate DCT',
 "PSNR-HVS of a plane is computed over exactly the 8x8 blocks whose corner is at a multiple of 7 in both directions and that lie inside of the plane, with the masked and weighted errors of their DCT coefficients. The integer transform equals the 8x8 type-II DCT up to a fixed small rounding error and never overflows. This holds for all samples of 8 to 12 bits.",
 ['inputs'],"All planes (of at least 8x8 samples), all blocks of samples of up to 12 bits",
 T+"; clipped or extreme blocks, 12-bit content, and sizes that are not a multiple of 7 plus 1 are not reached.",
 [V+'psnr_hvs.rs'],[('block loops',V+'psnr_hvs.rs calculate_plane_psnr_hvs'),('integer DCT',V+'psnr_hvs.rs od_bin_fdct8, od_bin_fdct8x8'),('contrast masking',V+'psnr_hvs.rs calculate_plane_psnr_hvs')],['calculate_frame_psnr_hvs'])
p('C09','SSIM uses the windowed moments of each pixel',
 "The SSIM of a plane is the weighted mean over all of its pixels of the structural similarity of the two windows around that pixel, where the moments of a window are the sums over the part of the window that lies inside of the plane, weighted by the product of the vertical and horizontal kernels. All sums are exact and no access leaves the plane, for every plane size and every sample of up to 12 bits.",
 ['inputs'],"All plane sizes including ones smaller than the window, all kernels, all samples of up to 12 bits",
 T+"; planes smaller than the window, odd sizes and the wrap-around of the line buffer are not reached.",
 [V+'ssim.rs'],[('ring buffer of horizontal moments',V+'ssim.rs calculate_plane_ssim_internal'),('clipping of the kernel at the borders',V+'ssim.rs calculate_plane_ssim_internal')],['calculate_frame_ssim'],[('lines','horizontal moments of the latest rows',V+'ssim.rs')])
p('C10','MSSSIM downscales exactly and combines five scales',
 "Each coarser scale of MSSSIM is made of the exact sums of the disjoint 2x2 blocks of the finer one, of half the width and height rounded down, with a sample maximum four times larger. The linear score is the product of the contrast terms of the four finer scales and of the similarity of the coarsest one, each raised to its published weight (when these terms are positive). This holds for every plane of at least 16x16 samples.",
 ['inputs'],"All plane sizes (odd ones included) and all samples of up to 12 bits",
 T+"; a plane whose size is odd at some scale is reached only in height, and high values that overflow a narrower sum are not.",
 [V+'ssim.rs'],[('2x2 sums',V+'ssim.rs msssim_downscale'),('scale loop',V+'ssim.rs calculate_plane_msssim')],['calculate_frame_msssim'])
p('C11','The SSIM window is symmetric and sums to its weight',
 "For every plane size the window of SSIM and MSSSIM is symmetric, has an odd length below twice the smaller dimension of the plane, has no negative coefficient and none that is larger than one nearer to the centre (the centre itself, which takes what rounding leaves, is only positive), and its integer coefficients sum exactly to the fixed kernel weight. Its shape is the Gaussian of deviation 1.5 per 256 lines of the plane (SSIM) or 1.5 samples (MSSSIM).",
 ['inputs'],"All plane sizes",
 T+": three heights of planes (360 and 180) and hence two windows.",
 [V+'ssim.rs'],[('integer Gaussian with the remainder at the centre',V+'ssim.rs build_gaussian_kernel'),('sigma from the height',V+'ssim.rs process_frame')],['calculate_frame_ssim','calculate_frame_msssim'])
p('C12','CIEDE2000 pairs each luma sample with its own chroma',
 "The CIEDE2000 score of a frame is computed from the mean over all luma positions, each counted once, of the colour difference of the two pixels made of the luma sample and of the chroma samples that cover this position under the chroma sampling (neutral chroma for monochrome). The vectorized and the scalar code see the same pixels for every width and neither reads outside of a row. The score of a video is the mean of the scores of its frames, and the score of a frame is at most 100.",
 ['inputs','configurations'],"All frame sizes (widths that are not a multiple of 8 included), samplings and bit depths 8, 10, 12",
 T+": a width that is a multiple of 8 and even sizes only, so the tails of the vector loop and the odd rows and columns are not reached.",
 [V+'ciede/mod.rs'],[('row slicing',V+'ciede/mod.rs process_frame'),('chunked vector loop with scalar tail',V+'ciede/mod.rs delta_e_row_avx2'),('interleaved chroma',V+'ciede/mod.rs twice, delta_e_row_scalar')],['calculate_frame_ciede','calculate_frame_ciede_nosimd'])
p('C13','The colour difference is CIEDE2000',
 "The colour difference of two pixels is the CIEDE2000 formula (with weights 0.65, 1 and 4 of lightness, chroma and hue) of their CIE L*a*b* values, which come from the limited-range samples by the BT.709 matrix of the code (R = Y + 1.28033 V, G = Y - 0.21482 U - 0.38059 V, B = Y + 2.12798 U) and the sRGB transfer function, up to the accuracy of single precision and of the power approximations. It holds for every pair of pixels of every supported bit depth, achromatic colours and hues around 0 and 180 degrees included.",
 ['inputs'],"All pairs of pixels of 8, 10 and 12 bits",
 T+" on natural content: achromatic pixels, opposite hues and saturated chroma are rare and averaged away.",
 [V+'ciede/delta_e/de2000.rs',V+'ciede/rgbtolab/mod.rs',V+'ciede/mod.rs'],[('CIEDE2000 formula',V+'ciede/delta_e/de2000.rs DE2000::new'),('power approximations',V+'ciede/rgbtolab/mod.rs pow_2_4, cbrt_approx and the AVX2 twins'),('colour matrix',V+'ciede/mod.rs delta_e_scalar, yuv_to_rgb')],['calculate_frame_ciede','calculate_frame_ciede_nosimd'])
p('C14','Chroma is resampled only when vertically located',
 "When chroma is vertically co-sited, each output sample is the 6-tap filter (4, -17, 114, 35, -9, 1)/128 of the source row around it, rounded, with replicated edges, clamped to the range of the bit depth. For any other position the samples are copied unchanged. Either way every visible sample of the plane for which the source holds a sample is written from its own row and column, for every width, height, stride and sample width, and nothing else is read or written out of bounds.",
 ['inputs','configurations'],"All plane sizes (one and two columns included), strides, paddings, bit depths and sources",
 T+": only 4:2:2 clips of 320 columns of chroma reach the filter, in planes whose stride is their width.",
 [V+'decode.rs'],[('three-part row filter',V+'decode.rs convert_chroma_data'),('clamp',V+'decode.rs clamp')],['convert_chroma_data','frames of the decoders'])
p('C15','Decoders deliver the exact samples and format of the file',
 "The Y4M and FFmpeg decoders report the width, height, bit depth, chroma sampling and frame rate of the file, and deliver its frames in order until its end, each with planes of exactly the size of the video and the samples of the file (chroma being resampled for vertically located chroma). This holds for every supported colour space, 8 to 12 bits, odd and small sizes included.",
 ['inputs','configurations'],"All sizes, colour spaces, frame counts and contents of a Y4M file",
 T+": one size, four colour spaces, no odd dimension, no monochrome, no 12-bit file; samples are never compared.",
 ['av_metrics_decoders/src/y4m.rs','av_metrics_decoders/src/ffmpeg.rs','av_metrics_decoders/src/lib.rs'],[('colour space table','av_metrics_decoders/src/y4m.rs map_y4m_color_space'),('plane copies','av_metrics_decoders/src/y4m.rs read_video_frame'),('frame conversion','av_metrics_decoders/src/ffmpeg.rs decode_frame')],['Decoder::read_video_frame','Decoder::get_video_details'])
p('C16','Reading a specific frame returns that frame or nothing',
 "Reading frame n through the default implementation of a decoder reads exactly n + 1 frames if the video has them and returns the one at n frames after the current position. If the video ends before, nothing is returned. It never returns another frame.",
 ['inputs','histories'],"All frame numbers, video lengths and positions of the decoder",
 "No test calls it.",
 [V+'decode.rs'],[('counting loop',V+'decode.rs read_specific_frame')],['Decoder::read_specific_frame'])
p('C17','The command line tool reports what the library computes',
 "For each compared file the report holds exactly the requested metrics (all six when none is requested), each under its own name and equal to what the library returns for the two files in the given order. The JSON, CSV, Markdown and text reports hold the same values for the same files in the same order, and the text report is printed on the standard output unless the quiet flag is set.",
 ['inputs','configurations'],"All combinations of metric selection, output formats, flags and input files",
 "No test runs the tool.",
 ['av_metrics_tool/src/main.rs'],[('metric selection','av_metrics_tool/src/main.rs run_video_metrics'),('dispatch','av_metrics_tool/src/main.rs CliMetric implementations'),('writers','av_metrics_tool/src/main.rs Report::print')],['standard output','report files'])
p('C18','Scores depend on visible samples only, not on the layout',
 "Every frame metric gives the same score to two pairs of frames with the same visible samples, whatever the strides, paddings, origins and the content of the padding of their planes.",
 ['inputs','configurations'],"All layouts and padding contents of the planes, all metrics, sizes and samples",
 T+" in planes without any padding; a frame of most other widths has padded rows.",
 [V+'psnr.rs',V+'psnr_hvs.rs',V+'ssim.rs',V+'ciede/mod.rs'],[('iteration over visible samples',V+'psnr.rs calculate_plane_total_squared_error, ssim.rs plane_to_vec'),('origin and stride',V+'psnr_hvs.rs calculate_plane_psnr_hvs'),('row ranges',V+'ciede/mod.rs process_frame')],['calculate_frame_*'])
p('C19','Identical frames score best and the order is irrelevant',
 "Two frames with equal samples get the best score of each metric (100 for PSNR and CIEDE2000, no error at all for PSNR-HVS, and at least 100 dB for SSIM and MSSSIM), and never a value that is not a number. Exchanging the two frames does not change any score beyond rounding.",
 ['inputs'],"All frames, sizes, bit depths and samplings, all metrics",
 T+": no clip is compared with itself or in the other order, except that CIEDE2000 is compared between its two implementations.",
 [V+'psnr.rs',V+'psnr_hvs.rs',V+'ssim.rs',V+'ciede/mod.rs',V+'ciede/delta_e/de2000.rs'],[('symmetric formulas',V+'*.rs'),('cap and clamp',V+'psnr.rs calculate_psnr, ssim.rs log10_convert, ciede/mod.rs process_frame')],['calculate_frame_*'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
