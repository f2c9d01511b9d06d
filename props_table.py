"""What decides each property: contract modules, bounded part, assumptions."""
import json, os
_T = {}
for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")):
    j = json.loads(l)
    _T[j["id"]] = j["title"]

ASSUME = {"all": [
    "Verus, Z3, rustc and vx (the mechanical extraction, DESIGN.md) are correct",
    "the functions of the standard library and of other dependencies behave as their contracts in contracts/ state (those of v_frame's Plane are verified, except its allocation and two casts of slices)",
]}
REALS = "f32 and f64 arithmetic is treated as exact real arithmetic; rounding, infinities and NaN are not modelled"
SEQ = "rayon scopes, joins and parallel iterators are verified in sequential order (the closures share no mutable state, which the borrow checker guarantees)"

SIZE = "planes of at most 2^32 samples, videos of at most 2^64 samples, 64-bit addresses"
# functions of v_frame, verified from its source
ORIGIN = ["Plane::index", "Plane::data_origin"]
VISIBLE = ["Plane::index", "Plane::p", "PlaneIter::new", "PlaneIter::width", "PlaneIter::height", "PlaneIter::next"]
COPY = ["Plane::index", "Plane::data_origin_mut", "Plane::copy_from_raw_u8"]
ALLOC = ["usize::floor_log2", "usize::ceil_log2", "usize::align_power_of_two", "PlaneConfig::new", "Plane::new"]
PSNR = ["Plane::can_compare", "Frame::can_compare", "calculate_plane_total_squared_error", "calculate_psnr", "calculate_summed_psnr",
        "calculate_plane_psnr_metrics", "Psnr::process_frame", "calculate_frame_psnr"] + VISIBLE

SSIM = ["plane_to_vec", "calculate_plane_ssim_internal", "build_gaussian_kernel", "calculate_plane_ssim", "Ssim::process_frame"] + VISIBLE
MSSSIM = ["plane_to_vec", "calculate_plane_ssim_internal", "build_gaussian_kernel", "msssim_downscale", "calculate_plane_msssim", "MsSsim::process_frame"] + VISIBLE
DB = ["log10_convert", "ChromaSampling::get_chroma_weight", "Ssim::aggregate_frame_results", "MsSsim::aggregate_frame_results", "calculate_frame_ssim", "calculate_frame_msssim"]

HVS = ["calculate_plane_psnr_hvs", "od_bin_fdct8x8", "od_bin_fdct8", "od_dct_rshift", "PsnrHvs::process_frame"] + ORIGIN
HVSDB = ["log10_convert", "ChromaSampling::get_chroma_weight", "PsnrHvs::aggregate_frame_results", "calculate_frame_psnr_hvs"]

VIDEO = ["VideoMetric::process_video_mt", "thread1", "VideoMetric::process_video"]
THREADS = "a channel delivers every message of a thread that does not panic, and its receiver gets each of them once, in an arbitrary order; join and the end of a scope wait for the thread, which ends once the receiver is dropped or has reported the end; the pool's workers are verified in sequential order (contracts/channel.rs, video.vx)"
STREAM = "a decoder is a sequence of frames that reading consumes from the front; videos of fewer than 2^64 frames"

COLOR = ["pow_2_4", "lookup_entry_exp_pow_2_4", "lookup_entry_inv_truncated", "lookup_entry_truncated_pow_2_4", "cbrt_approx", "lookup_entry_exp_cbrt",
         "lookup_entry_truncated_cbrt", "rgb_to_xyz_map", "rgb_to_xyz", "xyz_to_lab_map", "xyz_to_lab", "rgb_to_lab", "get_h_prime_fn", "get_delta_h_prime",
         "get_upcase_h_bar_prime", "get_upcase_t", "radians_to_degrees", "degrees_to_radians", "get_r_sub_t", "DE2000::new", "DeltaEScalar::delta_e_scalar",
         "pow_2_4_avx2", "cbrt_approx_avx2", "rgb_to_xyz_map_avx2", "rgb_to_xyz_avx2", "xyz_to_lab_map_avx2", "xyz_to_lab_avx2", "rgb_to_lab_avx2"]
CIEDE = ["DeltaEScalar::delta_e_row_scalar", "DeltaEAVX2::yuv_to_rgb", "DeltaEAVX2::delta_e_avx2", "DeltaEAVX2::delta_e_row_avx2", "chroma_row", "get_delta_e_row_fn", "Ciede2000::process_frame", "Ciede2000::aggregate_frame_results", "Ciede2000::default",
         "calculate_frame_ciede", "calculate_frame_ciede_nosimd", "calculate_video_ciede", "calculate_video_ciede_nosimd", "Plane::row_range_cropped"]
BITS = "the bits of a positive f32 are those of a number with its exponent and its 23 digits: the number is taken for the one these bits stand for; sine and cosine lie in [-1, 1], sine is odd, powers obey the laws of exponents"

SCORES = [("psnr", PSNR), ("ssim", sorted(set(SSIM + MSSSIM)) + DB), ("hvs", HVS + HVSDB), ("ciede", CIEDE + COLOR)]
REFUSE = ["Plane::can_compare", "Frame::can_compare"]
ALL_OF_IT = "the property is a consequence of the contracts of the four metrics, proved as lemmas (*_laws.rs, psnr.vx); where such a contract fails for another reason, the bounded part decides"

CRATES = "y4m::Decoder hands out the header and the frames of the file in order, with planes of the lengths that y4m::get_plane_sizes states, at most 1 GiB each; ffmpeg hands out the frames of the packets it is sent, with planes of the size and format of the video"

CLI = ["get_decoder", "CliMetric::run"] + [m + "::calculate_video_metric" for m in ("Psnr", "APsnr", "PsnrHvs", "Ssim", "MsSsim", "Ciede2000")] \
    + ["run_video_metrics", "Text@PlanarMetrics::print_result", "Text@f64::print_result", "Report::print", "InputType::detect", "main"]
TOOL = "a decoder that is opened for a file name holds the video of this file, from its start; what the library returns for two videos is left abstract here; a line that is written to a report arrives there whole or yields an error; serde_json holds every field; colours do not change a text; the progress bar changes no result; clap yields what was given for a name, and BASE and FILES are always there; the exit code of main is only covered by the bounded part"

GAUSS = ["python3-vt", "tools/gauss.py"]

PROPS = {
    "C01": dict(proofs=[("video", VIDEO)], level="proof", assume=[THREADS, STREAM],
                rule="two scripted decoders of random lengths, frame limits and delays; a case is non-trivial if at least one pair exists"),
    "C02": dict(proofs=[("video", VIDEO)], level="proof", assume=[THREADS, STREAM],
                rule="all pairs of bit depths and samplings over the six metrics"),
    "C03": dict(proofs=SCORES, level="proof", hard=REFUSE, assume=[REALS, SEQ, SIZE, ALL_OF_IT],
                rule="random pairs of frames whose planes differ in one or more fields of the configuration, or do not"),
    "C04": dict(proofs=[("video", VIDEO)], level="proof", assume=[THREADS, STREAM],
                rule="scripted decoders with a pair that fails at a random position, or a decoder that panics"),
    "C05": dict(proofs=[("psnr", PSNR)], level="proof", assume=[REALS, SEQ, SIZE],
                rule="random planes: sizes, bit depths, contents from flat to extreme, compared with the definition in integers and f64"),
    "C06": dict(proofs=[("psnr", PSNR + ["Psnr::aggregate_frame_results", "calculate_video_psnr", "calculate_video_apsnr"])], level="proof", assume=[REALS, SEQ, SIZE],
                rule="random videos of 1 to 12 frames, compared with the pooled and averaged definitions"),
    "C07": dict(proofs=[("ssim", DB + ["calculate_video_ssim", "calculate_video_msssim"]), ("hvs", HVSDB + ["calculate_video_psnr_hvs"])], level="proof", assume=[REALS, SEQ, SIZE],
                rule="random videos of 1 to 6 frames and random sampling, compared with the definition"),
    "C08": dict(proofs=[("hvs", HVS + ["calculate_frame_psnr_hvs"])], level="proof", assume=[REALS, SEQ, SIZE],
                rule="random planes of 8x8 to 64x64, all contents, compared with a reference that uses the exact DCT"),
    "C09": dict(proofs=[("ssim", SSIM + ["calculate_frame_ssim"])], level="proof", lemma=GAUSS, assume=[REALS, SEQ, SIZE],
                rule="random planes of 1x1 to 80x80 and tall ones, compared with the direct definition in f64"),
    "C10": dict(proofs=[("ssim", MSSSIM + ["calculate_frame_msssim"])], level="proof", lemma=GAUSS, assume=[REALS, SEQ, SIZE],
                rule="random planes of 16x16 to 100x100, compared with the direct definition in f64"),
    "C11": dict(proofs=[("ssim", ["build_gaussian_kernel", "Ssim::process_frame", "MsSsim::process_frame", "calculate_plane_msssim"])], level="proof", lemma=GAUSS, assume=[REALS, SEQ, SIZE],
                rule="impulse responses that expose the window, over random plane sizes"),
    "C12": dict(proofs=[("ciede", CIEDE)], level="proof", assume=[REALS, BITS, SEQ, SIZE],
                rule="random frames, narrow and odd sizes, all samplings; single-position probes; compared with an independent reference"),
    "C13": dict(proofs=[("ciede", COLOR)], level="proof", assume=[REALS, BITS],
                rule="random pixel pairs, grey, near-identical and hue-boundary pairs, compared with CIEDE2000 in f64"),
    "C14": dict(proofs=[("decode", ["clamp", "convert_u8", "convert_u16", "convert_chroma_data"] + COPY)], level="proof",
                rule="random planes, strides, paddings and sources, compared with the filter in integers"),
    "C15": dict(proofs=[("decoders", ["new_frame", "map_y4m_color_space", "Rational::new", "Y4MDecoder::get_video_details", "Y4MDecoder::read_video_frame", "Y4MDecoder::get_bit_depth",
        "FfmpegDecoder::new", "FfmpegDecoder::decode_frame", "FfmpegDecoder::read_video_frame", "FfmpegDecoder::get_video_details", "FfmpegDecoder::get_bit_depth",
        "convert_chroma_data", "convert_u8", "convert_u16", "clamp", "ChromaSampling::get_decimation", "ChromaSampling::get_chroma_dimensions"] + COPY + ALLOC)],
        level="proof", assume=[CRATES], ffmpeg=True, rule="Y4M files written by the harness in all colour spaces and read back by the decoders"),
    "C16": dict(proofs=[("decode16", None)], level="proof", rule="random decoder lengths, positions and frame numbers"),
    "C17": dict(proofs=[("cli", CLI)], level="proof", assume=[TOOL], tool=True, rule="the built tool is run on generated files with random flags, its reports are parsed and compared with the library"),
    "C18": dict(proofs=SCORES, level="proof", hard=[], assume=[REALS, BITS, SEQ, SIZE, ALL_OF_IT],
                rule="the same samples in two random layouts with random padding contents, for all metrics"),
    "C19": dict(proofs=SCORES, level="proof", hard=[], assume=[REALS, BITS, SEQ, SIZE, ALL_OF_IT],
                rule="random frames compared with themselves, and in both orders, for all metrics"),
}
for k, v in PROPS.items():
    v["title"] = _T[k]
    v.setdefault("level", "exploration")
