%include num.rs
%include fl.rs
%source av_metrics/src/video/mod.rs
%struct PlanarMetrics
%raw
pub type VxText = String;
pub struct MetricsError { pub v: u8 }
/// the library
pub enum Metric { Psnr, APsnr, PsnrHvs, Ssim, MsSsim, Ciede }
pub trait Decoder: Sized {}
/// what the library may return for two videos (C01 to C13)
pub uninterp spec fn lib_result<D, R>(m: Metric, d1: D, d2: D, limit: Option<usize>, r: Result<R, MetricsError>) -> bool;
pub mod psnr { use super::*;
    #[verifier::external_body]
    pub fn calculate_video_psnr<D: Decoder, F>(d1: &mut D, d2: &mut D, limit: Option<usize>, f: F) -> (r: Result<PlanarMetrics, MetricsError>)
        ensures lib_result(Metric::Psnr, *old(d1), *old(d2), limit, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn calculate_video_apsnr<D: Decoder, F>(d1: &mut D, d2: &mut D, limit: Option<usize>, f: F) -> (r: Result<PlanarMetrics, MetricsError>)
        ensures lib_result(Metric::APsnr, *old(d1), *old(d2), limit, r) { unimplemented!() }
}
pub mod psnr_hvs { use super::*;
    #[verifier::external_body]
    pub fn calculate_video_psnr_hvs<D: Decoder, F>(d1: &mut D, d2: &mut D, limit: Option<usize>, f: F) -> (r: Result<PlanarMetrics, MetricsError>)
        ensures lib_result(Metric::PsnrHvs, *old(d1), *old(d2), limit, r) { unimplemented!() }
}
pub mod ssim { use super::*;
    #[verifier::external_body]
    pub fn calculate_video_ssim<D: Decoder, F>(d1: &mut D, d2: &mut D, limit: Option<usize>, f: F) -> (r: Result<PlanarMetrics, MetricsError>)
        ensures lib_result(Metric::Ssim, *old(d1), *old(d2), limit, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn calculate_video_msssim<D: Decoder, F>(d1: &mut D, d2: &mut D, limit: Option<usize>, f: F) -> (r: Result<PlanarMetrics, MetricsError>)
        ensures lib_result(Metric::MsSsim, *old(d1), *old(d2), limit, r) { unimplemented!() }
}
pub mod ciede { use super::*;
    #[verifier::external_body]
    pub fn calculate_video_ciede<D: Decoder, F>(d1: &mut D, d2: &mut D, limit: Option<usize>, f: F) -> (r: Result<Fl, MetricsError>)
        ensures lib_result(Metric::Ciede, *old(d1), *old(d2), limit, r) { unimplemented!() }
}
/// the decoder of a file, at its start
#[verifier::external_body]
pub struct FileDecoder { p: u8 }
impl Decoder for FileDecoder {}
pub uninterp spec fn opens(name: Seq<char>, d: FileDecoder) -> bool;
/// the result of opening a file
#[verifier::external_body]
pub struct Opened { p: u8 }
impl Opened {
    pub uninterp spec fn name(&self) -> Seq<char>;
    /// the tool ends with a message, or goes on with the decoder
    #[verifier::external_body]
    pub fn expect(self, msg: &str) -> (r: FileDecoder) ensures opens(self.name(), r) { unimplemented!() }
}
pub mod av_metrics_decoders { pub mod y4m { use super::super::*;
    #[verifier::external_body]
    pub fn new_decoder_from_file(name: &str) -> (r: Opened) ensures r.name() == name@ { unimplemented!() }
} }
/// `x == Some("text")`
#[verifier::external_body]
pub fn vx_some_is(x: Option<&str>, s: &str) -> (r: bool) ensures r == (x matches Some(t) && t@ == s@) { x == Some(s) }
// the progress bar, which says nothing of the scores
pub struct ProgressBar { p: u8 }
pub struct ProgressStyle { p: u8 }
impl ProgressStyle {
    #[verifier::external_body]
    pub fn default_spinner() -> ProgressStyle { unimplemented!() }
    #[verifier::external_body]
    pub fn template(self, s: &str) -> (r: Result<ProgressStyle, VxText>) ensures r is Ok { unimplemented!() }
}
/// the callback of the progress bar
#[derive(Clone, Copy)]
pub struct VxProgress {}
impl ProgressBar {
    #[verifier::external_body]
    pub fn hidden() -> ProgressBar { unimplemented!() }
    #[verifier::external_body]
    pub fn new(n: u64) -> ProgressBar { unimplemented!() }
    #[verifier::external_body]
    pub fn new_spinner() -> ProgressBar { unimplemented!() }
    #[verifier::external_body]
    pub fn with_style(self, s: ProgressStyle) -> ProgressBar { unimplemented!() }
    #[verifier::external_body]
    pub fn set_prefix(&self, s: &str) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_message(&self, s: String) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_position(&self, n: u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&self) { unimplemented!() }
}
pub mod console { use super::*; #[verifier::external_body] pub fn user_attended() -> bool { unimplemented!() } }
#[verifier::external_body]
pub fn total_frames(input1: &&str, input2: &&str) -> u64 { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_results() -> (r: MetricsResults) ensures r.psnr is None, r.apsnr is None, r.psnr_hvs is None, r.ssim is None, r.msssim is None, r.ciede2000 is None { unimplemented!() }

/// a metric of two files: of the videos that are in them, or none if the library fails
pub open spec fn scored<R>(m: Metric, a: Seq<char>, b: Seq<char>, r: Option<R>) -> bool {
    exists|d1: FileDecoder, d2: FileDecoder, x: Result<R, MetricsError>| opens(a, d1) && opens(b, d2) && #[trigger] lib_result(m, d1, d2, None, x)
        && (x is Ok <==> r is Some) && (x is Ok ==> r == Some(x->Ok_0))
}
/// C17: the metric is there exactly if it is requested
pub open spec fn wanted(metric: Option<&str>, name: Seq<char>) -> bool { metric is None || metric->0@ == name }
pub open spec fn entry<R>(m: Metric, on: bool, a: Seq<char>, b: Seq<char>, r: Option<R>) -> bool { if on { scored(m, a, b, r) } else { r is None } }
// ------------------------------------------------------------ the reports
/// what a placeholder shows
#[verifier::ext_equal]
pub enum Shown { Num(real), Text(Seq<char>) }
pub trait VxShow { spec fn shown(&self) -> Shown; }
impl VxShow for Fl { open spec fn shown(&self) -> Shown { Shown::Num(self@) } }
impl VxShow for String { open spec fn shown(&self) -> Shown { Shown::Text(self@) } }
impl VxShow for &String { open spec fn shown(&self) -> Shown { Shown::Text(self@) } }
impl VxShow for &str { open spec fn shown(&self) -> Shown { Shown::Text(self@) } }
/// colours do not change the text
pub struct Styled<T> { pub x: T }
impl<T: VxShow> VxShow for Styled<T> { open spec fn shown(&self) -> Shown { self.x.shown() } }
impl<T> Styled<T> {
    pub fn italic(self) -> (r: Styled<T>) ensures r == self { self }
    pub fn cyan(self) -> (r: Styled<T>) ensures r == self { self }
    pub fn yellow(self) -> (r: Styled<T>) ensures r == self { self }
}
pub fn style<T>(x: T) -> (r: Styled<T>) ensures r.x == x { Styled { x } }
/// a line: the template and its values
#[verifier::ext_equal]
pub struct Line { pub text: Seq<char>, pub args: Seq<Shown> }
pub struct VxArgs { pub v: Ghost<Seq<Shown>> }
pub fn vx_args() -> (r: VxArgs) ensures r.v@ == Seq::<Shown>::empty() { VxArgs { v: Ghost(Seq::empty()) } }
impl VxArgs {
    pub fn arg<T: VxShow>(self, x: &T) -> (r: VxArgs) ensures r.v@ == self.v@.push(x.shown()) { VxArgs { v: Ghost(self.v@.push(x.shown())) } }
}
pub struct IoError { pub e: u8 }
impl IoError { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
/// the lines that were written
pub trait VxSink: Sized { spec fn log(&self) -> Seq<Line>; spec fn target(&self) -> Option<Seq<char>>; }
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct BufWriter<W> { w: W }
pub struct File { p: u8 }
pub struct Stdout { p: u8 }
pub trait Place { spec fn place(&self) -> Option<Seq<char>>; }
impl Place for File { uninterp spec fn place(&self) -> Option<Seq<char>>; }
impl Place for Stdout { open spec fn place(&self) -> Option<Seq<char>> { None } }
impl<W> VxSink for BufWriter<W> { uninterp spec fn log(&self) -> Seq<Line>; uninterp spec fn target(&self) -> Option<Seq<char>>; }
impl VxSink for OutputType {
    open spec fn log(&self) -> Seq<Line> {
        match self { OutputType::JSON(f) => f.log(), OutputType::CSV(f) => f.log(), OutputType::Markdown(f) => f.log(), OutputType::TEXT(f) => f.log(), OutputType::Stdout(f) => f.log() }
    }
    open spec fn target(&self) -> Option<Seq<char>> {
        match self { OutputType::JSON(f) => f.target(), OutputType::CSV(f) => f.target(), OutputType::Markdown(f) => f.target(), OutputType::TEXT(f) => f.target(), OutputType::Stdout(f) => f.target() }
    }
}
pub open spec fn same_kind(a: &OutputType, b: &OutputType) -> bool {
    (a is JSON <==> b is JSON) && (a is CSV <==> b is CSV) && (a is Markdown <==> b is Markdown) && (a is TEXT <==> b is TEXT) && (a is Stdout <==> b is Stdout)
}
pub trait VxKind { spec fn kind_of(&self, o: &Self) -> bool; }
impl<W> VxKind for BufWriter<W> { open spec fn kind_of(&self, o: &Self) -> bool { true } }
impl VxKind for OutputType { open spec fn kind_of(&self, o: &Self) -> bool { same_kind(self, o) } }
/// std: a line goes to the writer, whole and unchanged, or there is an error
#[verifier::external_body]
pub fn vx_writeln<W: VxSink + VxKind>(w: &mut W, text: &str, args: VxArgs) -> (r: Result<(), IoError>)
    ensures final(w).kind_of(old(w)), final(w).target() == old(w).target(), r is Ok ==> final(w).log() == old(w).log().push(Line { text: text@, args: args.v@ }) { unimplemented!() }
pub uninterp spec fn json_of(r: &Report) -> Seq<char>;
pub mod serde_json { use super::*; #[verifier::external_body] pub fn to_string(r: &&Report) -> (s: Result<String, VxText>) ensures s is Ok, s->Ok_0@ == json_of(*r) { unimplemented!() } }
pub open spec fn avg(r: Option<PlanarMetrics>) -> Shown { match r { Some(p) => Shown::Num(p.avg@), None => Shown::Num(0real) } }
pub open spec fn one(r: Option<Fl>) -> Shown { match r { Some(p) => Shown::Num(p@), None => Shown::Num(0real) } }
/// C17: the values of a comparison, in the order of the columns
pub open spec fn row(c: &MetricsResults) -> Seq<Shown> {
    Seq::empty().push(Shown::Text(c.filename@)).push(avg(c.psnr)).push(avg(c.apsnr)).push(avg(c.psnr_hvs)).push(avg(c.ssim)).push(avg(c.msssim)).push(one(c.ciede2000))
}
pub open spec fn table(head: Seq<Line>, text: Seq<char>, cs: Seq<MetricsResults>, n: int) -> Seq<Line> decreases n {
    if n <= 0 { head } else { table(head, text, cs, n - 1).push(Line { text, args: row(&cs[n - 1]) }) }
}
pub trait VxResult: Sized {
    spec fn lines(&self, name: Seq<char>) -> Seq<Line>;
    fn print(self, writer: &mut OutputType, header: &str) -> (ret: Result<(), String>)
        ensures same_kind(final(writer), old(writer)), final(writer).target() == old(writer).target(), ret is Ok ==> final(writer).log() =~~= old(writer).log() + self.lines(header@);
}
impl VxResult for Option<PlanarMetrics> {
    open spec fn lines(&self, name: Seq<char>) -> Seq<Line> {
        match self { Some(p) => seq![Line { text: "     {:<10} →  Y: {:<8.4} U/Cb: {:<8.4} V/Cr: {:<8.4} Avg value: {:<8.4}"@, args: Seq::<Shown>::empty().push(Shown::Text(name)).push(Shown::Num(p.y@)).push(Shown::Num(p.u@)).push(Shown::Num(p.v@)).push(Shown::Num(p.avg@)) }], None => seq![] }
    }
    fn print(self, writer: &mut OutputType, header: &str) -> (ret: Result<(), String>) { Text::print_planar(writer, header, self) }
}
impl VxResult for Option<Fl> {
    open spec fn lines(&self, name: Seq<char>) -> Seq<Line> {
        match self { Some(p) => seq![Line { text: "     {:<10} →  Delta: {:<8.4}"@, args: Seq::<Shown>::empty().push(Shown::Text(name)).push(Shown::Num(p@)) }], None => seq![] }
    }
    fn print(self, writer: &mut OutputType, header: &str) -> (ret: Result<(), String>) { Text::print_single(writer, header, self) }
}
impl Text {
    pub fn print_result<R: VxResult>(writer: &mut OutputType, header: &str, result: R) -> (ret: Result<(), String>)
        ensures same_kind(final(writer), old(writer)), final(writer).target() == old(writer).target(), ret is Ok ==> final(writer).log() =~~= old(writer).log() + result.lines(header@)
    { result.print(writer, header) }
}
/// C17: the text of a comparison
pub open spec fn section(before: Seq<Line>, c: &MetricsResults) -> Seq<Line> {
    before.push(Line { text: "\n    {} for {}: \n"@, args: Seq::<Shown>::empty().push(Shown::Text("Results"@)).push(Shown::Text(c.filename@)) })
    + c.psnr.lines("PSNR"@) + c.apsnr.lines("APSNR"@) + c.psnr_hvs.lines("PSNR HVS"@) + c.ssim.lines("SSIM"@) + c.msssim.lines("MSSSIM"@) + c.ciede2000.lines("CIEDE2000"@)
}
pub open spec fn sections(head: Seq<Line>, cs: Seq<MetricsResults>, n: int) -> Seq<Line> decreases n {
    if n <= 0 { head } else { section(sections(head, cs, n - 1), &cs[n - 1]) }
}
/// C17: what the report of two files holds
pub open spec fn compared(r: &MetricsResults, a: Seq<char>, b: Seq<char>, metric: Option<&str>) -> bool {
    &&& r.filename@ == b
    &&& entry(Metric::Psnr, wanted(metric, "psnr"@), a, b, r.psnr)
    &&& entry(Metric::APsnr, wanted(metric, "apsnr"@), a, b, r.apsnr)
    &&& entry(Metric::PsnrHvs, wanted(metric, "psnrhvs"@), a, b, r.psnr_hvs)
    &&& entry(Metric::Ssim, wanted(metric, "ssim"@), a, b, r.ssim)
    &&& entry(Metric::MsSsim, wanted(metric, "msssim"@), a, b, r.msssim)
    &&& entry(Metric::Ciede, wanted(metric, "ciede2000"@), a, b, r.ciede2000)
}
pub open spec fn csv_head() -> Line { Line { text: "filename,psnr,apsnr,psnr_hvs,ssim,msssim,ciede2000"@, args: Seq::<Shown>::empty() } }
pub open spec fn md_head() -> Line { Line { text: "|filename|psnr|apsnr|psnr_hvs|ssim|msssim|ciede2000|\n|-|-|-|-|-|-|-|"@, args: Seq::<Shown>::empty() } }
pub open spec fn text_head(base: Seq<char>) -> Line { Line { text: "Comparing {}\n"@, args: Seq::<Shown>::empty().push(Shown::Text(base)) } }
/// C17: what a report holds after it was printed
pub open spec fn reported(r: &Report, w: &OutputType) -> Seq<Line> {
    match *w {
        OutputType::JSON(_) => w.log().push(Line { text: "{}"@, args: Seq::<Shown>::empty().push(Shown::Text(json_of(r))) }),
        OutputType::CSV(_) => table(w.log().push(csv_head()), "{},{},{},{},{},{},{}"@, r.comparisons@, r.comparisons@.len() as int),
        OutputType::Markdown(_) => table(w.log().push(md_head()), "|{}|{}|{}|{}|{}|{}|{}|"@, r.comparisons@, r.comparisons@.len() as int),
        _ => sections(w.log().push(text_head(r.base@)), r.comparisons@, r.comparisons@.len() as int),
    }
}
pub trait CliMetric: Sized {
    type VideoResult;
    spec fn which() -> Metric;
    fn calculate_video_metric<D: Decoder, F>(dec1: &mut D, dec2: &mut D, progress_callback: F) -> (ret: Result<Self::VideoResult, MetricsError>)
        ensures lib_result(Self::which(), *old(dec1), *old(dec2), None, ret);
}
%end
%known total_frames get_decoder
%source av_metrics_tool/src/main.rs
%struct MetricsResults
%fn get_decoder
%sig fn get_decoder(input: &str) -> (ret: Opened)
%spec
    ensures ret.name() == input@
%endfn
%fn CliMetric::run
%self M
%sig fn run<M: CliMetric, F>(input1: &str, input2: &str, progress_callback: F) -> (ret: Option<M::VideoResult>)
%spec
    ensures scored(M::which(), input1@, input2@, ret)
%endfn
%struct Psnr
%fn Psnr::calculate_video_metric
%sig fn calculate_video_metric<D: Decoder, F>(dec1: &mut D, dec2: &mut D, progress_callback: F) -> (ret: Result<PlanarMetrics, MetricsError>)
%spec
    ensures lib_result(Metric::Psnr, *old(dec1), *old(dec2), None, ret)
%endfn
%raw
impl Psnr { pub fn run<F>(input1: &str, input2: &str, progress_callback: F) -> (ret: Option<PlanarMetrics>) ensures scored(Metric::Psnr, input1@, input2@, ret) { run::<Psnr, F>(input1, input2, progress_callback) } }
impl CliMetric for Psnr {
    type VideoResult = PlanarMetrics;
    open spec fn which() -> Metric { Metric::Psnr }
    fn calculate_video_metric<D: Decoder, F>(dec1: &mut D, dec2: &mut D, progress_callback: F) -> (ret: Result<PlanarMetrics, MetricsError>) { Psnr::calculate_video_metric(dec1, dec2, progress_callback) }
}
%end
%struct APsnr
%fn APsnr::calculate_video_metric
%sig fn calculate_video_metric<D: Decoder, F>(dec1: &mut D, dec2: &mut D, progress_callback: F) -> (ret: Result<PlanarMetrics, MetricsError>)
%spec
    ensures lib_result(Metric::APsnr, *old(dec1), *old(dec2), None, ret)
%endfn
%raw
impl APsnr { pub fn run<F>(input1: &str, input2: &str, progress_callback: F) -> (ret: Option<PlanarMetrics>) ensures scored(Metric::APsnr, input1@, input2@, ret) { run::<APsnr, F>(input1, input2, progress_callback) } }
impl CliMetric for APsnr {
    type VideoResult = PlanarMetrics;
    open spec fn which() -> Metric { Metric::APsnr }
    fn calculate_video_metric<D: Decoder, F>(dec1: &mut D, dec2: &mut D, progress_callback: F) -> (ret: Result<PlanarMetrics, MetricsError>) { APsnr::calculate_video_metric(dec1, dec2, progress_callback) }
}
%end
%struct PsnrHvs
%fn PsnrHvs::calculate_video_metric
%sig fn calculate_video_metric<D: Decoder, F>(dec1: &mut D, dec2: &mut D, progress_callback: F) -> (ret: Result<PlanarMetrics, MetricsError>)
%spec
    ensures lib_result(Metric::PsnrHvs, *old(dec1), *old(dec2), None, ret)
%endfn
%raw
impl PsnrHvs { pub fn run<F>(input1: &str, input2: &str, progress_callback: F) -> (ret: Option<PlanarMetrics>) ensures scored(Metric::PsnrHvs, input1@, input2@, ret) { run::<PsnrHvs, F>(input1, input2, progress_callback) } }
impl CliMetric for PsnrHvs {
    type VideoResult = PlanarMetrics;
    open spec fn which() -> Metric { Metric::PsnrHvs }
    fn calculate_video_metric<D: Decoder, F>(dec1: &mut D, dec2: &mut D, progress_callback: F) -> (ret: Result<PlanarMetrics, MetricsError>) { PsnrHvs::calculate_video_metric(dec1, dec2, progress_callback) }
}
%end
%struct Ssim
%fn Ssim::calculate_video_metric
%sig fn calculate_video_metric<D: Decoder, F>(dec1: &mut D, dec2: &mut D, progress_callback: F) -> (ret: Result<PlanarMetrics, MetricsError>)
%spec
    ensures lib_result(Metric::Ssim, *old(dec1), *old(dec2), None, ret)
%endfn
%raw
impl Ssim { pub fn run<F>(input1: &str, input2: &str, progress_callback: F) -> (ret: Option<PlanarMetrics>) ensures scored(Metric::Ssim, input1@, input2@, ret) { run::<Ssim, F>(input1, input2, progress_callback) } }
impl CliMetric for Ssim {
    type VideoResult = PlanarMetrics;
    open spec fn which() -> Metric { Metric::Ssim }
    fn calculate_video_metric<D: Decoder, F>(dec1: &mut D, dec2: &mut D, progress_callback: F) -> (ret: Result<PlanarMetrics, MetricsError>) { Ssim::calculate_video_metric(dec1, dec2, progress_callback) }
}
%end
%struct MsSsim
%fn MsSsim::calculate_video_metric
%sig fn calculate_video_metric<D: Decoder, F>(dec1: &mut D, dec2: &mut D, progress_callback: F) -> (ret: Result<PlanarMetrics, MetricsError>)
%spec
    ensures lib_result(Metric::MsSsim, *old(dec1), *old(dec2), None, ret)
%endfn
%raw
impl MsSsim { pub fn run<F>(input1: &str, input2: &str, progress_callback: F) -> (ret: Option<PlanarMetrics>) ensures scored(Metric::MsSsim, input1@, input2@, ret) { run::<MsSsim, F>(input1, input2, progress_callback) } }
impl CliMetric for MsSsim {
    type VideoResult = PlanarMetrics;
    open spec fn which() -> Metric { Metric::MsSsim }
    fn calculate_video_metric<D: Decoder, F>(dec1: &mut D, dec2: &mut D, progress_callback: F) -> (ret: Result<PlanarMetrics, MetricsError>) { MsSsim::calculate_video_metric(dec1, dec2, progress_callback) }
}
%end
%struct Ciede2000
%fn Ciede2000::calculate_video_metric
%sig fn calculate_video_metric<D: Decoder, F>(dec1: &mut D, dec2: &mut D, progress_callback: F) -> (ret: Result<Fl, MetricsError>)
%spec
    ensures lib_result(Metric::Ciede, *old(dec1), *old(dec2), None, ret)
%endfn
%raw
impl Ciede2000 { pub fn run<F>(input1: &str, input2: &str, progress_callback: F) -> (ret: Option<Fl>) ensures scored(Metric::Ciede, input1@, input2@, ret) { run::<Ciede2000, F>(input1, input2, progress_callback) } }
impl CliMetric for Ciede2000 {
    type VideoResult = Fl;
    open spec fn which() -> Metric { Metric::Ciede }
    fn calculate_video_metric<D: Decoder, F>(dec1: &mut D, dec2: &mut D, progress_callback: F) -> (ret: Result<Fl, MetricsError>) { Ciede2000::calculate_video_metric(dec1, dec2, progress_callback) }
}
%end
%fn run_video_metrics
%subst Default::default() => vx_no_results()
%at start
    let progress_fn = VxProgress {};
%spec
    ensures
        compared(&ret, input1@, input2@, metric),
%endfn
%struct Report
%struct OutputType
%struct Text
%fn Text@PlanarMetrics::print_result as print_planar
%spec
    ensures same_kind(final(writer), old(writer)), final(writer).target() == old(writer).target(), ret is Ok ==> final(writer).log() =~~= old(writer).log() + result.lines(header@)
%endfn
%fn Text@f64::print_result as print_single
%spec
    ensures same_kind(final(writer), old(writer)), final(writer).target() == old(writer).target(), ret is Ok ==> final(writer).log() =~~= old(writer).log() + result.lines(header@)
%endfn
%fn Report::print
%attr #[verifier::rlimit(60)]
%spec
    ensures ret is Ok ==> same_kind(final(writer), old(writer)) && final(writer).target() == old(writer).target() && final(writer).log() == reported(self, old(writer))
%at start
    let ghost l0 = writer.log();
%loop 1 isolated
    invariant w.target() == old(writer).target(), len__2 == self.comparisons@.len(), w.log() == table(l0.push(csv_head()), "{},{},{},{},{},{},{}"@, self.comparisons@, i__1 as int),
%loop 2 isolated
    invariant w.target() == old(writer).target(), len__4 == self.comparisons@.len(), w.log() == table(l0.push(md_head()), "|{}|{}|{}|{}|{}|{}|{}|"@, self.comparisons@, i__3 as int),
%loop 3 isolated
    invariant len__6 == self.comparisons@.len(), same_kind(writer, old(writer)), writer.target() == old(writer).target(), writer.log() == sections(l0.push(text_head(self.base@)), self.comparisons@, i__5 as int),
%at loop 1 start
    broadcast use fl;
%at loop 2 start
    broadcast use fl;
%endfn
%raw
pub fn vx_env() -> (r: &'static str) { "" }
pub struct VxCount {}
#[verifier::external_body]
pub struct Arg { p: u8 }
impl Arg {
    #[verifier::external_body] pub fn new(s: &str) -> Arg { unimplemented!() }
    #[verifier::external_body] pub fn help(self, s: &str) -> Arg { unimplemented!() }
    #[verifier::external_body] pub fn long(self, s: &str) -> Arg { unimplemented!() }
    #[verifier::external_body] pub fn value_name(self, s: &str) -> Arg { unimplemented!() }
    #[verifier::external_body] pub fn required(self, s: bool) -> Arg { unimplemented!() }
    #[verifier::external_body] pub fn index(self, s: usize) -> Arg { unimplemented!() }
    #[verifier::external_body] pub fn num_args<T>(self, s: T) -> Arg { unimplemented!() }
    #[verifier::external_body] pub fn value_parser<T>(self, s: T) -> Arg { unimplemented!() }
}
#[verifier::external_body]
pub struct Command { p: u8 }
#[verifier::external_body]
pub struct ArgMatches { p: u8 }
impl Command {
    #[verifier::external_body] pub fn new(s: &str) -> Command { unimplemented!() }
    #[verifier::external_body] pub fn version(self, s: &str) -> Command { unimplemented!() }
    #[verifier::external_body] pub fn author(self, s: &str) -> Command { unimplemented!() }
    #[verifier::external_body] pub fn about(self, s: &str) -> Command { unimplemented!() }
    #[verifier::external_body] pub fn arg(self, a: Arg) -> Command { unimplemented!() }
    #[verifier::external_body] pub fn get_matches(self) -> ArgMatches { unimplemented!() }
}
impl ArgMatches {
    pub uninterp spec fn one(&self, name: Seq<char>) -> Option<&String>;
    pub uninterp spec fn many(&self, name: Seq<char>) -> Seq<&String>;
    pub uninterp spec fn flag(&self, name: Seq<char>) -> bool;
    #[verifier::external_body] pub fn get_one<T>(&self, s: &str) -> (r: Option<&String>) ensures r == self.one(s@), s@ == "BASE"@ ==> r is Some { unimplemented!() }
    #[verifier::external_body] pub fn get_many<T>(&self, s: &str) -> (r: Option<Vec<&String>>) ensures r is Some, r->Some_0@ == self.many(s@) { unimplemented!() }
    #[verifier::external_body] pub fn get_flag(&self, s: &str) -> (r: bool) ensures r == self.flag(s@) { unimplemented!() }
}
impl File { #[verifier::external_body] pub fn create(s: &String) -> (r: Result<File, IoError>) ensures r matches Ok(f) ==> f.place() == Some(s@) { unimplemented!() } }
impl<W: Place> BufWriter<W> { #[verifier::external_body] pub fn new(w: W) -> (r: BufWriter<W>) ensures r.log() == Seq::<Line>::empty(), r.target() == w.place() { unimplemented!() } }
%end
%raw
#[verifier::external_body]
pub fn vx_stdout() -> Stdout { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_report<'s>() -> (r: Report<'s>) ensures r.comparisons@.len() == 0 { unimplemented!() }
%end
%raw
pub enum Kind { Text, Json, Csv, Markdown, Stdout }
pub open spec fn kind(w: &OutputType) -> (Kind, Option<Seq<char>>) {
    (match w { OutputType::JSON(_) => Kind::Json, OutputType::CSV(_) => Kind::Csv, OutputType::Markdown(_) => Kind::Markdown, OutputType::TEXT(_) => Kind::Text, OutputType::Stdout(_) => Kind::Stdout }, w.target())
}
pub open spec fn more(s: Seq<(Kind, Option<Seq<char>>)>, k: Kind, name: Option<&String>) -> Seq<(Kind, Option<Seq<char>>)> {
    match name { Some(n) => s.push((k, Some(n@))), None => s }
}
/// C17: the reports that are asked for
pub open spec fn planned(cli: &ArgMatches) -> Seq<(Kind, Option<Seq<char>>)> {
    let files = more(more(more(more(Seq::empty(), Kind::Text, cli.one("FILE"@)), Kind::Json, cli.one("JSON"@)), Kind::Csv, cli.one("CSV"@)), Kind::Markdown, cli.one("MARKDOWN"@));
    if cli.flag("QUIET"@) { files } else { files.push((Kind::Stdout, None)) }
}
pub open spec fn opened(cli: &ArgMatches, ws: Seq<OutputType>, from: int) -> bool {
    ws.len() == planned(cli).len() && (forall|i: int| #![trigger ws[i]] 0 <= i < ws.len() ==> kind(&ws[i]) == planned(cli)[i] && (i >= from ==> ws[i].log() == Seq::<Line>::empty()))
}
/// C17: every file, in order, compared with the base
pub open spec fn all_compared(cli: &ArgMatches, r: &Report, metric: Option<&str>, n: int) -> bool {
    &&& cli.one("BASE"@) is Some
    &&& r.base@ == cli.one("BASE"@)->Some_0@
    &&& r.comparisons@.len() == n
    &&& forall|i: int| #![trigger r.comparisons@[i]] 0 <= i < n ==> compared(&r.comparisons@[i], r.base@, cli.many("FILES"@)[i]@, metric)
}
/// C17: the metric that was asked for
pub open spec fn asked(cli: &ArgMatches, metric: Option<&str>) -> bool {
    &&& metric is Some <==> cli.one("METRIC"@) is Some
    &&& metric is Some ==> metric->Some_0@ == cli.one("METRIC"@)->Some_0@
}
pub open spec fn printed(r: &Report, w: &OutputType) -> bool {
    exists|w0: OutputType| kind(&w0) == kind(w) && w0.log() == Seq::<Line>::empty() && w.log() == #[trigger] reported(r, &w0)
}
%end
%raw
/// C17: main ends well only where every file was compared and every report was printed
pub uninterp spec fn all_done(r: Result<(), String>) -> bool;
#[verifier::external_body]
pub fn vx_done(cli: &ArgMatches, r: &Report, ws: &Vec<OutputType>, metric: Option<&str>) -> (ret: Result<(), String>)
    requires
        asked(cli, metric), all_compared(cli, r, metric, cli.many("FILES"@).len() as int), opened(cli, ws@, ws@.len() as int),
        forall|i: int| #![trigger ws@[i]] 0 <= i < ws@.len() ==> printed(r, &ws@[i]),
    ensures ret is Ok, all_done(ret)
{ unimplemented!() }
%end
%struct InputType
%fn InputType::detect
%sig fn detect(_filename: &String) -> (ret: InputType)
%spec
    ensures ret is Video
%endfn
%fn main as vx_main
%sig fn vx_main() -> (ret: Result<(), String>)
%subst std::io::stdout() => vx_stdout()
%subst Default::default() => vx_no_report()
%subst Ok(()) => vx_done(&cli, &report, &writers, metrics)
%spec
    ensures ret is Ok ==> all_done(ret)
%loop 1
    invariant len__2 == inputs@.len(), inputs@ == cli.many("FILES"@), base_type is Video, asked(&cli, metrics), all_compared(&cli, &report, metrics, i__1 as int), opened(&cli, writers@, 0),
%loop 2
    invariant
        len__4 == writers@.len(), asked(&cli, metrics), all_compared(&cli, &report, metrics, cli.many("FILES"@).len() as int), opened(&cli, writers@, i__3 as int),
        forall|i: int| #![trigger writers@[i]] 0 <= i < i__3 ==> printed(&report, &writers@[i]),
%endfn
