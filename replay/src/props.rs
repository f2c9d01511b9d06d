//! One list of case kinds per property. A case is a function of its seed.
use crate::gen::*;
use crate::mock::*;
use crate::oracle as o;
use crate::{Case, Kind};
use av_metrics::video::decode::{convert_chroma_data, Decoder};
use av_metrics::video::{ChromaSamplePosition, ChromaSampling, Frame, Pixel, PlanarMetrics};
use av_metrics::video::{ciede, psnr, psnr_hvs, ssim};
use av_metrics::MetricsError;
use std::error::Error;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

macro_rules! kinds {
    ($($name:ident: $n:expr),* $(,)?) => {
        vec![$(Kind { name: stringify!($name), quick: $n, run: $name }),*]
    };
}

pub fn kinds(p: &str) -> Vec<Kind> {
    match p {
        "C01" => kinds!(c01_pairs: 150, c01_metrics: 60, c01_limits: 60, c01_many: 20),
        "C02" => kinds!(c02_gate: 96),
        "C03" => kinds!(c03_geometry: 400, c03_width: 60, c03_accept: 200, c03_small: 120),
        "C04" => kinds!(c04_fail: 60, c04_panic: 20, c04_mono: 12),
        "C05" => kinds!(c05_plane: 600, c05_cap: 12, c05_extreme: 60),
        "C06" => kinds!(c06_video: 200, c06_one: 60),
        "C07" => kinds!(c07_hvs: 80, c07_ssim: 80, c07_msssim: 60, c07_one: 60),
        "C08" => kinds!(c08_plane: 300, c08_small: 150, c08_blocks: 300),
        "C09" => kinds!(c09_plane: 250, c09_small: 250, c09_tall: 20),
        "C10" => kinds!(c10_plane: 200, c10_extreme: 40),
        "C11" => kinds!(c11_ssim: 300, c11_msssim: 60, c11_tall: 24),
        "C12" => kinds!(c12_frame: 300, c12_narrow: 300, c12_simd: 200, c12_spot: 300, c12_video: 40),
        "C13" => kinds!(c13_pixel: 6000, c13_lane: 3000, c13_grey: 1500, c13_near: 1500, c13_hue: 3000),
        "C14" => kinds!(c14_filter: 600, c14_copy: 200, c14_narrow: 200),
        "C15" => kinds!(c15_y4m: 250, c15_two: 60, c15_ffmpeg: 60),
        "C16" => kinds!(c16_read: 300),
        "C17" => kinds!(c17_tool: 24, c17_many: 6),
        "C18" => kinds!(c18_layout: 300),
        "C19" => kinds!(c19_identity: 200, c19_symmetry: 200),
        _ => vec![],
    }
}

const BDS: [usize; 3] = [8, 10, 12];

macro_rules! by_width {
    ($bd:expr, $f:ident ( $($a:expr),* )) => {
        if $bd > 8 { $f::<u16>($($a),*) } else { $f::<u8>($($a),*) }
    };
}

type Res<T> = Result<T, Box<dyn Error>>;

/// All frame metrics, with four values each (only the first one for CIEDE2000).
#[derive(Clone, Copy, Debug, PartialEq)]
enum Met {
    Psnr,
    Hvs,
    Ssim,
    Ms,
    De,
    DeScalar,
}
const METS: [Met; 6] = [Met::Psnr, Met::Hvs, Met::Ssim, Met::Ms, Met::De, Met::DeScalar];

fn arr(p: PlanarMetrics) -> [f64; 4] {
    [p.y, p.u, p.v, p.avg]
}
fn frame_metric<T: Pixel>(m: Met, a: &Frame<T>, b: &Frame<T>, bd: usize, cs: ChromaSampling) -> Res<[f64; 4]> {
    Ok(match m {
        Met::Psnr => arr(psnr::calculate_frame_psnr(a, b, bd, cs)?),
        Met::Hvs => arr(psnr_hvs::calculate_frame_psnr_hvs(a, b, bd, cs)?),
        Met::Ssim => arr(ssim::calculate_frame_ssim(a, b, bd, cs)?),
        Met::Ms => arr(ssim::calculate_frame_msssim(a, b, bd, cs)?),
        Met::De => [ciede::calculate_frame_ciede(a, b, bd, cs)?; 4],
        Met::DeScalar => [ciede::calculate_frame_ciede_nosimd(a, b, bd, cs)?; 4],
    })
}
fn run_frame_t<T: Pixel>(m: Met, a: &Pic, b: &Pic, la: &Layout, lb: &Layout) -> Res<[f64; 4]> {
    frame_metric::<T>(m, &mk(a, la), &mk(b, lb), a.bd, a.cs)
}
/// The metric of two pictures with the same layout.
fn run_frame(m: Met, a: &Pic, b: &Pic, l: &Layout) -> Res<[f64; 4]> {
    let mut l2 = *l;
    if l.garbage != 0 {
        l2.garbage = l.garbage ^ 0x5555;
    }
    by_width!(a.bd, run_frame_t(m, a, b, l, &l2))
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum VMet {
    Psnr,
    Apsnr,
    Hvs,
    Ssim,
    Ms,
    De,
    DeScalar,
}
const VMETS: [VMet; 7] = [
    VMet::Psnr,
    VMet::Apsnr,
    VMet::Hvs,
    VMet::Ssim,
    VMet::Ms,
    VMet::De,
    VMet::DeScalar,
];
fn video_metric<F: Fn(usize) + Send>(m: VMet, a: &mut Mock, b: &mut Mock, lim: Option<usize>, f: F) -> Res<[f64; 4]> {
    Ok(match m {
        VMet::Psnr => arr(psnr::calculate_video_psnr(a, b, lim, f)?),
        VMet::Apsnr => arr(psnr::calculate_video_apsnr(a, b, lim, f)?),
        VMet::Hvs => arr(psnr_hvs::calculate_video_psnr_hvs(a, b, lim, f)?),
        VMet::Ssim => arr(ssim::calculate_video_ssim(a, b, lim, f)?),
        VMet::Ms => arr(ssim::calculate_video_msssim(a, b, lim, f)?),
        VMet::De => [ciede::calculate_video_ciede(a, b, lim, f)?; 4],
        VMet::DeScalar => [ciede::calculate_video_ciede_nosimd(a, b, lim, f)?; 4],
    })
}
fn frame_of(m: VMet) -> Met {
    match m {
        VMet::Psnr | VMet::Apsnr => Met::Psnr,
        VMet::Hvs => Met::Hvs,
        VMet::Ssim => Met::Ssim,
        VMet::Ms => Met::Ms,
        VMet::De => Met::De,
        VMet::DeScalar => Met::DeScalar,
    }
}

fn same(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol || (a.is_nan() && b.is_nan())
}
fn close4(got: [f64; 4], want: [f64; 4], tol: f64) -> Result<(), String> {
    for i in 0..4 {
        if !same(got[i], want[i], tol) {
            return Err(format!("{} is {} instead of {} (all: {got:?}, expected {want:?})", ["y", "u", "v", "avg"][i], got[i], want[i]));
        }
    }
    Ok(())
}
/// Compares decibels through the linear loss.
fn close_loss(got_db: f64, want_loss: f64, rel: f64, abs: f64) -> Result<(), String> {
    let g = o::loss_of_db(got_db);
    let want = want_loss.max(0.);
    if !got_db.is_nan() && (g - want).abs() <= rel * want + abs {
        Ok(())
    } else {
        Err(format!("{got_db} dB, a loss of {g:e} instead of {want:e}"))
    }
}
fn show(a: &Pic) -> String {
    let s: Vec<String> = a.p.iter().map(|p| format!("{}x{}", p.w, p.h)).collect();
    format!("{:?} {} bits, planes {}", a.cs, a.bd, s.join(" "))
}
/// A small frame, written out with its samples.
fn show_pair(a: &Pic, b: &Pic) -> String {
    if a.p[0].s.len() <= 40 {
        format!("{} samples {:?} and {:?}", show(a), a.p.iter().map(|p| &p.s).collect::<Vec<_>>(), b.p.iter().map(|p| &p.s).collect::<Vec<_>>())
    } else {
        format!("{}, first samples {:?} and {:?}", show(a), &a.p[0].s[..8], &b.p[0].s[..8])
    }
}
fn ctx<T>(r: Result<T, String>, d: impl Fn() -> String) -> Result<T, String> {
    r.map_err(|e| format!("{} -- {e}", d()))
}
fn pair(r: &mut Rng, w: usize, h: usize, cs: ChromaSampling, bd: usize) -> (Pic, Pic) {
    let c = rand_content(r);
    let a = pic(r, w, h, cs, bd, c);
    let b = if r.chance(1, 6) {
        let c = rand_content(r);
        pic(r, w, h, cs, bd, c)
    } else {
        distort(r, &a)
    };
    (a, b)
}
fn st(e: Box<dyn Error>) -> String {
    e.to_string()
}

// ------------------------------------------------------------------ C01
type Log = Arc<Mutex<Vec<usize>>>;
fn logger() -> (Log, impl Fn(usize) + Send) {
    let l: Log = Default::default();
    let m = l.clone();
    (l, move |n| m.lock().unwrap().push(n))
}
fn check_pairs(r: &mut Rng, m: VMet, na: usize, nb: usize, lim: Option<usize>, w: usize, h: usize) -> Case {
    let (cs, bd) = (r.pick(&ALL_CS[..3]), r.pick(&BDS[..2]));
    let mk = |r: &mut Rng, n: usize| (0..n).map(|_| pic(r, w, h, cs, bd, Content::Smooth)).collect::<Vec<_>>();
    let fa = mk(r, na);
    // Every frame has its own distance to its partner
    let mut fb: Vec<Pic> = mk(r, nb);
    for i in 0..na.min(nb) {
        let amp = r.range(1, 40) as u16;
        fb[i] = fa[i].clone();
        for p in fb[i].p.iter_mut() {
            for v in p.s.iter_mut() {
                if r.chance(1, 2) {
                    *v = (*v + amp).min((1 << bd) - 1);
                }
            }
        }
    }
    let n = na.min(nb).min(lim.unwrap_or(usize::MAX));
    let d = format!("{m:?} of {na} and {nb} frames {w}x{h} {cs:?} {bd} bits, limit {lim:?}");
    let (mut da, mut db) = (Mock::new(fa.clone(), bd, cs), Mock::new(fb.clone(), bd, cs));
    let (log, cb) = logger();
    let res = video_metric(m, &mut da, &mut db, lim, cb);
    let log = log.lock().unwrap().clone();
    let mut want: Vec<usize> = (1..=n).collect();
    want.push(usize::MAX);
    if log != want {
        return Err(format!("{d}: progress {log:?} instead of {want:?}"));
    }
    if n == 0 {
        return match res {
            Err(_) => Ok(d),
            Ok(v) => Err(format!("{d}: score {v:?} of no frame at all")),
        };
    }
    let got = res.map_err(|e| format!("{d}: error {e}"))?;
    let pairs: Vec<(Pic, Pic)> = fa[..n].iter().cloned().zip(fb[..n].iter().cloned()).collect();
    match m {
        VMet::Psnr => close4(got, o::psnr(&pairs), 1e-8),
        VMet::Apsnr => close4(got, o::apsnr(&pairs), 1e-8),
        _ => {
            // linear mean (decibels for CIEDE2000) of the frame scores of the real code
            let one: Vec<[f64; 4]> = pairs
                .iter()
                .map(|(a, b)| run_frame(frame_of(m), a, b, &Layout::plain()).map_err(st))
                .collect::<Result<_, _>>()?;
            let mean = |f: &dyn Fn(f64) -> f64, i: usize| one.iter().map(|v| f(v[i])).sum::<f64>() / n as f64;
            match m {
                VMet::De | VMet::DeScalar => {
                    let w = mean(&|x| x, 0);
                    if same(got[0], w, 1e-8) { Ok(()) } else { Err(format!("{} instead of {w}", got[0])) }
                }
                _ => (0..3).try_for_each(|i| close_loss(got[i], mean(&o::loss_of_db, i), 1e-7, 1e-12)),
            }
        }
    }
    .map_err(|e| format!("{d}: {e}"))?;
    Ok(d)
}
fn c01_pairs(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (na, nb) = (r.below(14), r.below(14));
    let lim = match r.below(3) {
        0 => None,
        1 => Some(r.below(16)),
        _ => Some(r.pick(&[0, 1, 2, usize::MAX, 1 << 40])),
    };
    let m = r.pick(&[VMet::Psnr, VMet::Apsnr]);
    check_pairs(r, m, na, nb, lim, 8, 8)
}
fn c01_metrics(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (na, nb) = (r.range(1, 6), r.range(1, 6));
    let lim = if r.chance(1, 2) { None } else { Some(r.range(1, 7)) };
    check_pairs(r, VMETS[s as usize % 7], na, nb, lim, 32, 32)
}
fn c01_limits(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let n = r.range(0, 9);
    let lim = match s % 4 {
        0 => n,
        1 => n + 1,
        2 => n.saturating_sub(1),
        _ => usize::MAX,
    };
    let k = r.below(3);
    let (na, nb) = if r.chance(1, 2) { (n + k, n) } else { (n, n + k) };
    check_pairs(r, VMet::Psnr, na, nb, Some(lim), 8, 8)
}
fn c01_many(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (na, nb) = (r.range(20, 300), r.range(20, 300));
    let lim = if r.chance(1, 2) { None } else { Some(r.range(1, 300)) };
    let m = r.pick(&[VMet::Psnr, VMet::Apsnr, VMet::Ssim, VMet::De]);
    check_pairs(r, m, na, nb, lim, 8, 8)
}

// ------------------------------------------------------------------ C02
fn c02_gate(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let m = VMETS[s as usize % 7];
    let all_bd = [8, 9, 10, 12, 14, 16, 7];
    let (b1, c1) = (r.pick(&BDS), r.pick(&ALL_CS));
    let (mut b2, mut c2) = (b1, c1);
    let kind = s / 7 % 4;
    match kind {
        0 => {
            while b2 == b1 {
                b2 = r.pick(&all_bd);
            }
        }
        1 => {
            while c2 == c1 {
                c2 = r.pick(&ALL_CS);
            }
        }
        2 => {
            b2 = if b1 == 8 { 10 } else { 8 };
            while c2 == c1 {
                c2 = r.pick(&ALL_CS);
            }
        }
        _ => {}
    }
    let d = format!("{m:?} of {b1} bits {c1:?} and {b2} bits {c2:?}");
    // The content does not matter: equal sizes, the format is what the decoders report
    let f1 = pic(r, 32, 32, c1, b1, Content::Smooth);
    let f2 = if kind == 3 { distort(r, &f1) } else { pic(r, 32, 32, c1, b1, Content::Smooth) };
    let (mut a, mut b) = (Mock::new(vec![f1; 2], b1, c1), Mock::new(vec![f2; 2], b2, c2));
    let res = video_metric(m, &mut a, &mut b, None, |_| ());
    if kind < 3 {
        return match res {
            Ok(v) => Err(format!("{d}: score {v:?}")),
            Err(e) => {
                if !matches!(e.downcast_ref(), Some(MetricsError::InputMismatch { .. })) {
                    return Err(format!("{d}: not a mismatch error but {e}"));
                }
                let n = (a.reads.load(SeqCst), b.reads.load(SeqCst));
                if n != (0, 0) {
                    return Err(format!("{d}: {n:?} frames read"));
                }
                Ok(d)
            }
        };
    }
    if let Err(e) = res {
        return Err(format!("{d}: refused: {e}"));
    }
    let want = if b1 > 8 { 2 } else { 1 };
    for x in [&a, &b] {
        let w = x.widths.lock().unwrap().clone();
        if w.len() != 1 || !w.contains(&want) {
            return Err(format!("{d}: samples read as {w:?} bytes"));
        }
    }
    Ok(d)
}

// ------------------------------------------------------------------ C03
fn is_mismatch(e: &Box<dyn Error>) -> bool {
    matches!(e.downcast_ref(), Some(MetricsError::InputMismatch { .. }))
}
fn geom_t<T: Pixel>(m: Met, a: &Pic, b: &Pic, l: &Layout) -> Res<[f64; 4]> {
    frame_metric::<T>(m, &mk(a, l), &mk(b, l), a.bd, a.cs)
}
fn c03_geometry(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let m = METS[s as usize % 6];
    let cs = r.pick(&[ChromaSampling::Cs420, ChromaSampling::Cs422, ChromaSampling::Cs444]);
    let bd = r.pick(&BDS);
    let (w, h) = (r.range(40, 70), r.range(40, 70));
    let a = pic(r, w, h, cs, bd, Content::Smooth);
    let mut b = a.clone();
    // Which planes differ, and how
    let which = r.range(1, 7);
    let (dw, dh) = r.pick(&[(1i64, 0i64), (0, 1), (-1, 0), (0, -1), (1, 1), (2, 0), (0, 2), (8, 0), (0, 8), (1, -1), (-2, 2), (99, 99)]);
    for i in 0..3 {
        if which >> i & 1 == 1 {
            let (pw, ph) = (a.p[i].w, a.p[i].h);
            let (nw, nh) = if dw == 99 {
                if pw == ph { (pw + 4, ph) } else { (ph, pw) }
            } else {
                ((pw as i64 + dw) as usize, (ph as i64 + dh) as usize)
            };
            b.p[i] = plane(r, nw, nh, bd, Content::Smooth);
        }
    }
    let l = if r.chance(1, 3) { Layout { tight: true, ..Layout::plain() } } else { Layout::plain() };
    let swap = r.chance(1, 2);
    let (a, b) = if swap { (b, a) } else { (a, b) };
    let d = format!("{m:?} of {} and {}", show(&a), show(&b));
    match by_width!(bd, geom_t(m, &a, &b, &l)) {
        Ok(v) => Err(format!("{d}: score {v:?} of different geometries")),
        Err(e) if is_mismatch(&e) => Ok(d),
        Err(e) => Err(format!("{d}: not a mismatch error but {e}")),
    }
}
fn c03_width(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let m = METS[s as usize % 6];
    let cs = r.pick(&ALL_CS);
    let mut a = pic(r, 32, 32, cs, 8, Content::Smooth);
    let l = Layout::plain();
    let (d, res) = if s / 6 % 2 == 0 {
        a.bd = r.pick(&[9, 10, 12, 16]);
        (format!("{m:?} of 8-bit samples as {} bits", a.bd), frame_metric::<u8>(m, &mk(&Pic { bd: 8, ..a.clone() }, &l), &mk(&Pic { bd: 8, ..a.clone() }, &l), a.bd, cs))
    } else {
        a.bd = r.pick(&[8, 8, 7]);
        (format!("{m:?} of 16-bit samples as {} bits", a.bd), frame_metric::<u16>(m, &mk(&Pic { bd: 8, ..a.clone() }, &l), &mk(&Pic { bd: 8, ..a.clone() }, &l), a.bd, cs))
    };
    match res {
        Ok(v) => Err(format!("{d}: score {v:?}")),
        Err(e) if is_mismatch(&e) => Ok(d),
        Err(e) => Err(format!("{d}: not a mismatch error but {e}")),
    }
}
fn c03_accept(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let m = METS[s as usize % 6];
    let (cs, bd) = (r.pick(&ALL_CS), r.pick(&BDS));
    let (w, h) = (r.range(32, 75), r.range(32, 75));
    let (a, b) = pair(r, w, h, cs, bd);
    let l = Layout::rand(r);
    let d = format!("{m:?} of {} {l:?}", show(&a));
    match run_frame(m, &a, &b, &l) {
        Ok(_) => Ok(d),
        Err(e) => Err(format!("{d}: refused: {e}")),
    }
}
/// Any size: an answer, or an error, but no panic.
fn c03_small(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let m = METS[s as usize % 6];
    let (cs, bd) = (r.pick(&ALL_CS), r.pick(&BDS));
    let (w, h) = (r.range(1, 34), r.range(1, 34));
    let (a, b) = pair(r, w, h, cs, bd);
    let l = Layout::rand(r);
    let d = format!("{m:?} of {} {l:?}", show(&a));
    let min = match m {
        Met::Hvs => 8,
        Met::Ms => 16,
        _ => 1,
    };
    let fits = a.p.iter().all(|p| p.w == 0 || (p.w >= min && p.h >= min));
    match run_frame(m, &a, &b, &l) {
        Err(e) if fits => Err(format!("{d}: refused: {e}")),
        Ok(v) if !fits && v.iter().any(|x| x.is_nan()) => Err(format!("{d}: {v:?}")),
        r => Ok(format!("{d} {}", r.is_ok())),
    }
}

// ------------------------------------------------------------------ C04
fn c04_fail(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let m = VMETS[s as usize % 7];
    let (cs, bd) = (r.pick(&ALL_CS[..3]), r.pick(&BDS));
    let n = [1, 2, 6, 7, 8, 9, 15, 40, 120][r.below(9)];
    let bad = match r.below(4) {
        0 => 0,
        1 => n - 1,
        _ => r.below(n),
    };
    let f = pic(r, 32, 32, cs, bd, Content::Smooth);
    let a = vec![f.clone(); n];
    let mut b = vec![distort(r, &f); n];
    b[bad] = pic(r, 40, 32, cs, bd, Content::Smooth);
    if r.chance(1, 4) {
        for x in b[bad..].iter_mut() {
            *x = pic(&mut Rng::new(7), 40, 32, cs, bd, Content::Smooth);
        }
    }
    let d = format!("{m:?} of {n} frames, frame {bad} of another size");
    let reason = run_frame_err(frame_of(m), &a[bad], &b[bad]);
    let (mut x, mut y) = (Mock::new(a, bd, cs), Mock::new(b, bd, cs));
    if r.chance(1, 2) {
        std::mem::swap(&mut x, &mut y);
    }
    match video_metric(m, &mut x, &mut y, None, |_| ()) {
        Ok(v) => Err(format!("{d}: score {v:?}")),
        Err(e) => match e.downcast_ref() {
            Some(MetricsError::ProcessError { reason: t }) if t.contains(&reason) => Ok(d),
            _ => {
                let t: String = e.to_string().chars().take(200).collect();
                Err(format!("{d}: not a processing error with the reason {reason:?} but {t}"))
            }
        },
    }
}
fn run_frame_err(m: Met, a: &Pic, b: &Pic) -> String {
    by_width!(a.bd, geom_t(m, a, b, &Layout::plain())).map_or_else(|e| e.to_string(), |_| "(no error)".into())
}
fn c04_panic(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let m = VMETS[s as usize % 7];
    let (cs, bd) = (ChromaSampling::Cs420, r.pick(&BDS));
    let f = pic(r, 32, 32, cs, bd, Content::Smooth);
    let n = r.pick(&[1, 2, 30]);
    let mut x = Mock::new(vec![f.clone(); n], bd, cs);
    let y = distort(r, &f);
    let mut y = Mock::new(vec![y; n], bd, cs);
    let at = r.below(n);
    let who = r.chance(1, 2);
    if who {
        x.panic_at = Some(at)
    } else {
        y.panic_at = Some(at)
    }
    let d = format!("{m:?} of {n} frames, a decoder panics at {at}");
    match video_metric(m, &mut x, &mut y, None, |_| ()) {
        Ok(v) => Err(format!("{d}: score {v:?}")),
        Err(_) => Ok(d),
    }
}
fn c04_mono(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let m = VMETS[s as usize % 7];
    let cs = ChromaSampling::Cs400;
    let f = pic(r, 32, 32, cs, 8, Content::Smooth);
    let mut fb = vec![f.clone(); 20];
    fb[r.below(20)] = pic(r, 33, 32, cs, 8, Content::Smooth);
    let d = format!("{m:?} of monochrome frames, one of another size");
    match video_metric(m, &mut Mock::new(vec![f; 20], 8, cs), &mut Mock::new(fb, 8, cs), None, |_| ()) {
        Ok(v) => Err(format!("{d}: score {v:?}")),
        Err(e) if matches!(e.downcast_ref(), Some(MetricsError::ProcessError { .. })) => Ok(d),
        Err(e) => Err(format!("{d}: not a processing error but {e}")),
    }
}

// ------------------------------------------------------------------ C05
fn check_psnr(a: &Pic, b: &Pic, l: &Layout) -> Case {
    let d = || format!("PSNR of {} {l:?}", show_pair(a, b));
    let got = run_frame(Met::Psnr, a, b, l).map_err(|e| format!("{}: {e}", d()))?;
    ctx(close4(got, o::psnr(&[(a.clone(), b.clone())]), 1e-8), d)?;
    Ok(d())
}
fn c05_plane(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (cs, bd) = (r.pick(&ALL_CS), r.pick(&[8, 8, 10, 12, 9, 14, 16]));
    let (w, h) = (r.range(1, 40), r.range(1, 40));
    let (a, b) = pair(r, w, h, cs, bd);
    let l = Layout::rand(r);
    check_psnr(&a, &b, &l)
}
/// A tiny error in a large plane
fn c05_cap(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let bd = BDS[s as usize % 3];
    let w = [1200, 640, 200, 64][s as usize / 3 % 4];
    let a = pic(r, w, w, ChromaSampling::Cs420, bd, Content::Flat);
    let mut b = a.clone();
    let i = r.below(w * w);
    b.p[0].s[i] ^= 1;
    check_psnr(&a, &b, &Layout::plain())
}
fn c05_extreme(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let bd = [8, 10, 12, 16][s as usize % 4];
    let max = ((1u32 << bd) - 1) as u16;
    let (w, h) = if bd == 16 && s % 3 == 0 { (640, 360) } else { (r.range(1, 300), r.range(1, 200)) };
    let mut a = pic(r, w, h, ChromaSampling::Cs420, bd, Content::Flat);
    let mut b = a.clone();
    for p in a.p.iter_mut() {
        p.s.fill(0);
    }
    for p in b.p.iter_mut() {
        p.s.fill(max);
    }
    if s % 2 == 0 {
        std::mem::swap(&mut a, &mut b);
    }
    check_psnr(&a, &b, &Layout::plain())
}

// ------------------------------------------------------------------ C06
fn psnr_video(s: u64, n: usize) -> Case {
    let r = &mut Rng::new(s);
    let (cs, bd) = (r.pick(&ALL_CS), r.pick(&BDS));
    let (w, h) = (r.range(1, 24), r.range(1, 24));
    let mut ps = vec![];
    for _ in 0..n {
        let (a, b) = pair(r, w, h, cs, bd);
        let b = if r.chance(1, 4) { a.clone() } else { b };
        ps.push((a, b));
    }
    let d = format!("{n} frames of {}", show(&ps[0].0));
    for (m, want) in [(VMet::Psnr, o::psnr(&ps)), (VMet::Apsnr, o::apsnr(&ps))] {
        let mut x = Mock::new(ps.iter().map(|p| p.0.clone()).collect(), bd, cs);
        let mut y = Mock::new(ps.iter().map(|p| p.1.clone()).collect(), bd, cs);
        let got = video_metric(m, &mut x, &mut y, None, |_| ()).map_err(|e| format!("{m:?} {d}: {e}"))?;
        ctx(close4(got, want, 1e-8), || format!("{m:?} of {d}"))?;
    }
    if n == 1 {
        let f = run_frame(Met::Psnr, &ps[0].0, &ps[0].1, &Layout::plain()).map_err(st)?;
        ctx(close4(f, o::psnr(&ps), 1e-8), || format!("frame PSNR of {d}"))?;
    }
    Ok(d)
}
fn c06_video(s: u64) -> Case {
    let n = Rng::new(s ^ 99).range(1, 9);
    psnr_video(s, n)
}
fn c06_one(s: u64) -> Case {
    psnr_video(s, 1)
}

// ------------------------------------------------------------------ C07
fn lin_of(m: Met, a: &Pic, b: &Pic) -> [f64; 3] {
    std::array::from_fn(|i| match m {
        Met::Hvs => o::hvs(&a.p[i], &b.p[i], i, a.bd),
        Met::Ssim => o::ssim(&a.p[i], &b.p[i], a.bd),
        _ => o::msssim(&a.p[i], &b.p[i], a.bd).0,
    })
}
/// The scale that PSNR-HVS applies to the sum of its planes instead of the mean: a known finding.
fn avg_loss(m: Met, lin: &[[f64; 3]], cs: ChromaSampling) -> f64 {
    let p = o::planar(lin, cs)[3];
    if m == Met::Hvs {
        let k = 1. + 2. * o::weight(cs);
        if hvs_defect() {
            return p * k * k;
        }
        return p;
    }
    1. - p
}
/// Whether the average of PSNR-HVS multiplies by the sum of the weights (KNOWN-FINDING of C07).
fn hvs_defect() -> bool {
    std::env::var_os("REPLAY_STRICT").is_none()
}
fn check_planar(m: Met, got: [f64; 4], lin: &[[f64; 3]], cs: ChromaSampling) -> Result<(), String> {
    let p = o::planar(lin, cs);
    // Rounding of a similarity of almost one
    let abs = if m == Met::Hvs { 1e-300 } else { 1e-11 };
    for i in 0..3 {
        let want = if m == Met::Hvs { p[i] } else { 1. - p[i] };
        close_loss(got[i], want, 1e-7, abs).map_err(|e| format!("plane {i}: {e}"))?;
    }
    close_loss(got[3], avg_loss(m, lin, cs), 1e-7, abs).map_err(|e| format!("average: {e} (got {got:?}, linear scores {lin:?})"))
}
fn planar_video(s: u64, m: VMet, n: usize, min: usize) -> Case {
    let r = &mut Rng::new(s);
    let (cs, bd) = (ALL_CS[s as usize % 4], r.pick(&BDS));
    let (w, h) = (r.range(2 * min, 2 * min + 12), r.range(2 * min, 2 * min + 12));
    let mut ps = vec![];
    for _ in 0..n {
        let c = r.pick(&[Content::Smooth, Content::Sparse]);
        let a = pic(r, w, h, cs, bd, c);
        let b = distort(r, &a);
        if m == VMet::Ms && a.p.iter().zip(&b.p).any(|(a, b)| o::msssim(a, b, bd).1 < 0.05) {
            ps.push((a.clone(), a));
            continue;
        }
        ps.push((a, b));
    }
    let d = format!("{m:?} of {n} frames of {}", show(&ps[0].0));
    let lin: Vec<[f64; 3]> = ps.iter().map(|(a, b)| lin_of(frame_of(m), a, b)).collect();
    let mut x = Mock::new(ps.iter().map(|p| p.0.clone()).collect(), bd, cs);
    let mut y = Mock::new(ps.iter().map(|p| p.1.clone()).collect(), bd, cs);
    let got = video_metric(m, &mut x, &mut y, None, |_| ()).map_err(|e| format!("{d}: {e}"))?;
    ctx(check_planar(frame_of(m), got, &lin, cs), || d.clone())?;
    if n == 1 {
        let f = run_frame(frame_of(m), &ps[0].0, &ps[0].1, &Layout::plain()).map_err(st)?;
        ctx(check_planar(frame_of(m), f, &lin, cs), || format!("frame {d}"))?;
    }
    Ok(d)
}
fn c07_hvs(s: u64) -> Case {
    planar_video(s, VMet::Hvs, Rng::new(s ^ 5).range(1, 6), 8)
}
fn c07_ssim(s: u64) -> Case {
    planar_video(s, VMet::Ssim, Rng::new(s ^ 5).range(1, 6), 6)
}
fn c07_msssim(s: u64) -> Case {
    planar_video(s, VMet::Ms, Rng::new(s ^ 5).range(1, 4), 16)
}
fn c07_one(s: u64) -> Case {
    planar_video(s, [VMet::Hvs, VMet::Ssim, VMet::Ms][s as usize / 4 % 3], 1, 16)
}

// ------------------------------------------------------------------ C08
fn check_hvs(a: &Pic, b: &Pic, l: &Layout) -> Case {
    let d = || format!("PSNR-HVS of {} {l:?}", show_pair(a, b));
    let got = run_frame(Met::Hvs, a, b, l).map_err(|e| format!("{}: {e}", d()))?;
    for i in 0..3 {
        let want = o::hvs(&a.p[i], &b.p[i], i, a.bd);
        ctx(close_loss(got[i], want, 1e-7, 1e-300), || format!("plane {i} of {}", d()))?;
    }
    Ok(d())
}
fn c08_plane(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (cs, bd) = (r.pick(&ALL_CS), r.pick(&BDS));
    let (w, h) = (r.range(16, 75), r.range(16, 75));
    let (a, b) = pair(r, w, h, cs, bd);
    let l = Layout::rand(r);
    check_hvs(&a, &b, &l)
}
fn c08_small(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (w, h) = (r.range(8, 24), r.range(8, 24));
    let bd = r.pick(&BDS);
    let (a, b) = pair(r, w, h, ChromaSampling::Cs444, bd);
    check_hvs(&a, &b, &Layout::plain())
}
/// Blocks made of basis functions and extreme samples
fn c08_blocks(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let bd = r.pick(&BDS);
    let max = (1usize << bd) - 1;
    let mut f = || {
        let (u, v) = (r.below(8) as f64, r.below(8) as f64);
        let kind = r.below(3);
        let amp = r.f() * max as f64;
        let mk = |r: &mut Rng| {
            let s = (0..64)
                .map(|i| {
                    let (x, y) = ((i % 8) as f64, (i / 8) as f64);
                    let c = ((2. * x + 1.) * u * std::f64::consts::PI / 16.).cos() * ((2. * y + 1.) * v * std::f64::consts::PI / 16.).cos();
                    match kind {
                        0 => {
                            if c > 0. {
                                max as u16
                            } else {
                                0
                            }
                        }
                        1 => (max as f64 / 2. + c * amp / 2.) as u16,
                        _ => (r.below(2) * max) as u16,
                    }
                })
                .collect();
            Pl { w: 8, h: 8, s }
        };
        Pic { p: [mk(r), mk(r), mk(r)], cs: ChromaSampling::Cs444, bd }
    };
    let (a, b) = (f(), f());
    check_hvs(&a, &b, &Layout::plain())
}

// ------------------------------------------------------------------ C09
fn check_ssim(a: &Pic, b: &Pic, l: &Layout) -> Case {
    let d = || format!("SSIM of {} {l:?}", show_pair(a, b));
    let got = run_frame(Met::Ssim, a, b, l).map_err(|e| format!("{}: {e}", d()))?;
    for i in 0..3 {
        let want = 1. - o::ssim(&a.p[i], &b.p[i], a.bd);
        ctx(close_loss(got[i], want, 1e-7, 1e-11), || format!("plane {i} of {}", d()))?;
    }
    Ok(d())
}
fn c09_plane(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (cs, bd) = (r.pick(&ALL_CS), r.pick(&BDS));
    let (w, h) = (r.range(1, 70), r.range(1, 70));
    let (a, b) = pair(r, w, h, cs, bd);
    let l = Layout::rand(r);
    check_ssim(&a, &b, &l)
}
fn c09_small(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (cs, bd) = (r.pick(&ALL_CS), r.pick(&BDS));
    let (w, h) = (r.range(1, 7), r.range(1, 7));
    let (a, b) = pair(r, w, h, cs, bd);
    let l = Layout::rand(r);
    check_ssim(&a, &b, &l)
}
/// A tall plane has a wide window
fn c09_tall(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let bd = r.pick(&BDS);
    let (w, h) = (r.range(2, 30), r.range(300, 1400));
    let (a, b) = pair(r, w, h, ChromaSampling::Cs420, bd);
    check_ssim(&a, &b, &Layout::plain())
}

// ------------------------------------------------------------------ C10
fn check_ms(a: &Pic, b: &Pic, l: &Layout) -> Case {
    let d = || format!("MSSSIM of {} {l:?}", show_pair(a, b));
    let got = run_frame(Met::Ms, a, b, l).map_err(|e| format!("{}: {e}", d()))?;
    for i in 0..3 {
        let (v, least) = o::msssim(&a.p[i], &b.p[i], a.bd);
        if least < 1e-3 {
            continue;
        }
        ctx(close_loss(got[i], 1. - v, 1e-6, 1e-11), || format!("plane {i} of {}", d()))?;
    }
    Ok(d())
}
fn c10_plane(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (cs, bd) = (r.pick(&ALL_CS), r.pick(&BDS));
    let (w, h) = (r.range(32, 80), r.range(32, 80));
    let c = rand_content(r);
    let a = pic(r, w, h, cs, bd, c);
    let b = distort(r, &a);
    let l = Layout::rand(r);
    check_ms(&a, &b, &l)
}
fn c10_extreme(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let bd = r.pick(&[10, 12, 12]);
    let max = ((1u32 << bd) - 1) as u16;
    let (w, h) = (r.range(16, 50), r.range(16, 50));
    let mut a = pic(r, w, h, ChromaSampling::Cs444, bd, Content::Flat);
    for p in a.p.iter_mut() {
        p.s.fill(max);
    }
    let mut b = a.clone();
    for p in b.p.iter_mut() {
        for v in p.s.iter_mut() {
            *v -= r.below(1 + max as usize / 8) as u16;
        }
    }
    check_ms(&a, &b, &Layout::plain())
}

// ------------------------------------------------------------------ C11
/// One sample differs: the loss shows the window around it.
fn impulse(r: &mut Rng, w: usize, h: usize, bd: usize) -> (Pic, Pic) {
    let a = pic(r, w, h, ChromaSampling::Cs444, bd, Content::Flat);
    let mut b = a.clone();
    let max = (1usize << bd) - 1;
    for p in b.p.iter_mut() {
        let i = r.below(w * h);
        p.s[i] = r.below(max + 1) as u16;
    }
    (a, b)
}
fn c11_ssim(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let bd = r.pick(&BDS);
    let (w, h) = (r.range(1, 60), r.range(1, 200));
    let (a, b) = impulse(r, w, h, bd);
    check_ssim(&a, &b, &Layout::plain())
}
fn c11_msssim(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let bd = r.pick(&BDS);
    let (w, h) = (r.range(16, 60), r.range(16, 60));
    let (a, b) = impulse(r, w, h, bd);
    check_ms(&a, &b, &Layout::plain())
}
fn c11_tall(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let bd = r.pick(&BDS);
    let (w, h) = (r.range(1, 40), [480, 720, 1080, 1600, 2160, 4320][s as usize % 6]);
    let (a, b) = impulse(r, w, h, bd);
    check_ssim(&a, &b, &Layout::plain())
}

// ------------------------------------------------------------------ C12
/// Tolerance of a mean colour difference, from the single precision and the approximations.
fn de_tol(mean: f64) -> f64 {
    2e-3 + 2e-3 * mean
}
fn check_de(m: Met, a: &Pic, b: &Pic, l: &Layout) -> Case {
    let d = || format!("{m:?} of {} {l:?}", show_pair(a, b));
    let got = run_frame(m, a, b, l).map_err(|e| format!("{}: {e}", d()))?[0];
    let mean = o::ciede_mean(a, b);
    ctx(close_de(got, mean), d)?;
    Ok(d())
}
fn close_de(got: f64, mean: f64) -> Result<(), String> {
    let (lo, hi) = (o::ciede_score(mean + de_tol(mean)), o::ciede_score((mean - de_tol(mean)).max(0.)));
    if got >= lo && got <= hi {
        Ok(())
    } else {
        Err(format!("score {got}, expected {} (mean difference {mean}, {} in the code)", o::ciede_score(mean), 10f64.powf((45. - got) / 20.)))
    }
}
/// Pixels that stay in the range of limited video most of the time
fn colour_pair(r: &mut Rng, w: usize, h: usize, cs: ChromaSampling, bd: usize) -> (Pic, Pic) {
    let f = |r: &mut Rng| pic(r, w, h, cs, bd, Content::Noise);
    let a = f(r);
    let b = if r.chance(1, 2) { f(r) } else { distort(r, &a) };
    (a, b)
}
fn c12_frame(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (cs, bd) = (ALL_CS[s as usize % 4], r.pick(&BDS));
    let (w, h) = (r.range(1, 40), r.range(1, 24));
    let (a, b) = colour_pair(r, w, h, cs, bd);
    let l = Layout::rand(r);
    check_de(r.pick(&[Met::De, Met::De, Met::DeScalar]), &a, &b, &l)
}
fn c12_narrow(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (cs, bd) = (ALL_CS[s as usize % 4], r.pick(&BDS));
    let (w, h) = (r.range(1, 18), r.range(1, 4));
    let (a, b) = colour_pair(r, w, h, cs, bd);
    let l = Layout::rand(r);
    check_de(r.pick(&[Met::De, Met::De, Met::DeScalar]), &a, &b, &l)
}
fn c12_simd(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (cs, bd) = (ALL_CS[s as usize % 4], r.pick(&BDS));
    let (w, h) = (r.range(1, 50), r.range(1, 20));
    let (a, b) = colour_pair(r, w, h, cs, bd);
    let l = Layout::rand(r);
    let x = run_frame(Met::De, &a, &b, &l).map_err(st)?[0];
    let y = run_frame(Met::DeScalar, &a, &b, &l).map_err(st)?[0];
    let d = format!("CIEDE2000 of {}", show_pair(&a, &b));
    if same(x, y, 2e-3) {
        Ok(d)
    } else {
        Err(format!("{d}: {x} with SIMD and {y} without"))
    }
}
/// Exactly one sample of one plane differs
fn c12_spot(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (cs, bd) = (ALL_CS[s as usize % 4], r.pick(&BDS));
    let (w, h) = (r.range(1, 26), r.range(1, 9));
    let k = 1u16 << (bd - 8);
    let mut a = pic(r, w, h, cs, bd, Content::Flat);
    for (i, p) in a.p.iter_mut().enumerate() {
        let v = if i == 0 { r.range(60, 180) } else { r.range(110, 146) } as u16 * k;
        p.s.fill(v);
    }
    let mut b = a.clone();
    let i = r.below(3);
    let n = b.p[i].s.len();
    if n > 0 {
        let j = r.below(n);
        b.p[i].s[j] += 40 * k;
    }
    check_de(r.pick(&[Met::De, Met::De, Met::DeScalar]), &a, &b, &Layout::plain())
}
fn c12_video(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (cs, bd) = (ALL_CS[s as usize % 4], r.pick(&BDS));
    let (w, h, n) = (r.range(1, 20), r.range(1, 10), r.range(1, 7));
    let ps: Vec<_> = (0..n).map(|_| colour_pair(r, w, h, cs, bd)).collect();
    let mut x = Mock::new(ps.iter().map(|p| p.0.clone()).collect(), bd, cs);
    let mut y = Mock::new(ps.iter().map(|p| p.1.clone()).collect(), bd, cs);
    let d = format!("CIEDE2000 of {n} frames of {}", show(&ps[0].0));
    let got = video_metric(VMet::De, &mut x, &mut y, None, |_| ()).map_err(|e| format!("{d}: {e}"))?[0];
    let mut want = 0.;
    for (a, b) in &ps {
        want += run_frame(Met::De, a, b, &Layout::plain()).map_err(st)?[0] / n as f64;
    }
    if same(got, want, 1e-8) {
        Ok(d)
    } else {
        Err(format!("{d}: {got} instead of the mean {want}"))
    }
}

// ------------------------------------------------------------------ C13
fn pixel_pic(p: [u16; 3], bd: usize) -> Pic {
    let q = |v: u16| Pl { w: 1, h: 1, s: vec![v] };
    Pic { p: p.map(q), cs: ChromaSampling::Cs444, bd }
}
fn rand_px(r: &mut Rng, bd: usize) -> [u16; 3] {
    let max = (1usize << bd) - 1;
    std::array::from_fn(|_| match r.below(8) {
        0 => 0,
        1 => max as u16,
        _ => r.below(max + 1) as u16,
    })
}
fn px_case(p: [u16; 3], q: [u16; 3], bd: usize) -> Case {
    check_de(Met::De, &pixel_pic(p, bd), &pixel_pic(q, bd), &Layout::plain())
}
fn c13_pixel(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let bd = r.pick(&BDS);
    let (p, q) = (rand_px(r, bd), rand_px(r, bd));
    px_case(p, q, bd)
}
/// One lane of the vector code
fn lane_case(r: &mut Rng, p: [u16; 3], q: [u16; 3], bd: usize) -> Case {
    let cs = ChromaSampling::Cs420;
    let x = r.below(8);
    let mut a = pic(r, 8, 1, cs, bd, Content::Noise);
    let mut b = a.clone();
    // a chroma sample covers two lanes: make the other one equal on purpose
    for (pic, px) in [(&mut a, p), (&mut b, q)] {
        pic.p[0].s[x] = px[0];
        pic.p[1].s[x / 2] = px[1];
        pic.p[2].s[x / 2] = px[2];
    }
    check_de(Met::De, &a, &b, &Layout::plain())
}
fn c13_lane(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let bd = r.pick(&BDS);
    let (p, q) = (rand_px(r, bd), rand_px(r, bd));
    lane_case(r, p, q, bd)
}
fn c13_grey(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let bd = r.pick(&BDS);
    let k = 1u16 << (bd - 8);
    let max = (1usize << bd) - 1;
    let (mut p, mut q) = ([r.below(max + 1) as u16, 128 * k, 128 * k], [r.below(max + 1) as u16, 128 * k, 128 * k]);
    if r.chance(1, 2) {
        q = rand_px(r, bd);
    }
    if r.chance(1, 2) {
        std::mem::swap(&mut p, &mut q);
    }
    if r.chance(1, 2) {
        lane_case(r, p, q, bd)
    } else {
        px_case(p, q, bd)
    }
}
fn near(r: &mut Rng, p: [u16; 3], bd: usize, d: usize) -> [u16; 3] {
    let max = (1i64 << bd) - 1;
    p.map(|v| (v as i64 + r.below(2 * d + 1) as i64 - d as i64).clamp(0, max) as u16)
}
fn c13_near(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let bd = r.pick(&BDS);
    let p = rand_px(r, bd);
    let d = r.pick(&[1usize, 3, 10]) << (bd - 8);
    let q = near(r, p, bd, d);
    if r.chance(1, 2) {
        lane_case(r, p, q, bd)
    } else {
        px_case(p, q, bd)
    }
}
/// Opposite chroma, and hues around zero
fn c13_hue(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let bd = r.pick(&BDS);
    let k = (1usize << (bd - 8)) as f64;
    let max = (1 << bd) - 1;
    let mut px = |h: f64| {
        let c = r.f() * 100. + 2.;
        let y = 16. + r.f() * 219.;
        let f = |v: f64| ((v * k) as i64).clamp(0, max) as u16;
        [f(y), f(128. + c * h.cos()), f(128. + c * h.sin())]
    };
    let h = s as f64 * 0.61803;
    let p = px(h);
    let q = px(match s % 3 {
        0 => h + std::f64::consts::PI,
        1 => -h,
        _ => h + 0.3,
    });
    px_case(p, q, bd)
}

// ------------------------------------------------------------------ C14
fn c14_case(r: &mut Rng, pos: ChromaSamplePosition, w: usize, h: usize) -> Case {
    let bd = r.pick(&BDS);
    let c = rand_content(r);
    let src = plane(r, w, h, bd, c);
    let bytes = if bd > 8 { 2 } else { 1 };
    let extra = if r.chance(1, 2) { 0 } else { r.below(9) };
    let stride = (w + extra) * bytes;
    let mut raw: Vec<u8> = (0..stride * h).map(|_| r.next() as u8).collect();
    for y in 0..h {
        for x in 0..w {
            let v = src.at(x, y);
            let o = y * stride + x * bytes;
            raw[o] = v as u8;
            if bytes == 2 {
                raw[o + 1] = (v >> 8) as u8;
            }
        }
    }
    let mut l = Layout::rand(r);
    if l.pad[1].0 > 0 && l.pad[1].1 == 0 {
        // Such planes do not store the whole stride of their last row, which
        // Plane::copy_from_raw_u8 (v_frame) then skips: see DESIGN.md.
        l.pad[1].1 = 1;
    }
    let d = format!("{pos:?} {w}x{h} {bd} bits, source stride {stride}, {l:?}, first row {:?}", &src.s[..w.min(12)]);
    let want = if pos == ChromaSamplePosition::Vertical { resample(&src, bd) } else { src };
    fn go<T: Pixel>(w: usize, h: usize, l: &Layout, pos: ChromaSamplePosition, bd: usize, raw: &[u8], stride: usize, bytes: usize) -> Pl
    where
        u16: av_metrics::video::CastFromPrimitive<T>,
    {
        let z = Pl { w, h, s: vec![1; w * h] };
        let mut p = mk_plane::<T>(&z, 1, 1, l.pad[1], l.tight && l.pad[1] == (0, 0), l.garbage, 8);
        convert_chroma_data(&mut p, pos, bd, raw, stride, bytes);
        visible(&p)
    }
    let got = if bd > 8 {
        go::<u16>(w, h, &l, pos, bd, &raw, stride, bytes)
    } else {
        go::<u8>(w, h, &l, pos, bd, &raw, stride, bytes)
    };
    if got == want {
        return Ok(d);
    }
    let i = (0..w * h).find(|i| got.s[*i] != want.s[*i]).unwrap();
    Err(format!("{d}: sample ({}, {}) is {} instead of {}", i % w, i / w, got.s[i], want.s[i]))
}
fn c14_filter(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (w, h) = (r.range(1, 40), r.range(1, 12));
    c14_case(r, ChromaSamplePosition::Vertical, w, h)
}
fn c14_narrow(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (w, h) = (r.range(1, 8), r.range(1, 5));
    c14_case(r, ChromaSamplePosition::Vertical, w, h)
}
fn c14_copy(s: u64) -> Case {
    use ChromaSamplePosition::*;
    let r = &mut Rng::new(s);
    let (w, h) = (r.range(1, 40), r.range(1, 12));
    c14_case(r, [Unknown, Colocated, Bilateral, Interpolated][s as usize % 4], w, h)
}

// ------------------------------------------------------------------ C15
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Self {
        use std::sync::atomic::AtomicUsize;
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("avm-replay-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    fn put(&self, n: &str, b: &[u8]) -> std::path::PathBuf {
        let p = self.0.join(n);
        std::fs::write(&p, b).unwrap();
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn decoded(p: &Pic, pos: ChromaSamplePosition) -> Pic {
    let mut q = p.clone();
    if pos == ChromaSamplePosition::Vertical {
        for i in 1..3 {
            q.p[i] = resample(&p.p[i], p.bd);
        }
    }
    q
}
fn read_all<T: Pixel, D: Decoder>(d: &mut D, max: usize, cs: ChromaSampling, bd: usize) -> Vec<Pic>
where
    u16: av_metrics::video::CastFromPrimitive<T>,
{
    let mut o = vec![];
    while let Some(f) = d.read_video_frame::<T>() {
        o.push(Pic { p: std::array::from_fn(|i| visible(&f.planes[i])), cs, bd });
        if o.len() > max {
            break;
        }
    }
    o
}
fn check_decoder<D: Decoder>(mut dec: D, name: &str, want: &[Pic], w: usize, h: usize, rate: Option<(usize, usize)>, cs: ChromaSampling, bd: usize) -> Case {
    let d = format!("{name}: {} frames of {}", want.len(), show(&want[0]));
    let v = dec.get_video_details();
    if (v.width, v.height, v.bit_depth, v.chroma_sampling, dec.get_bit_depth()) != (w, h, bd, cs, bd) {
        return Err(format!("{d}: details {v:?}"));
    }
    if let Some((n, m)) = rate {
        if (v.time_base.num, v.time_base.den) != (m as u64, n as u64) {
            return Err(format!("{d}: frame rate {n}:{m} but time base {:?}", v.time_base));
        }
    }
    let got = if bd > 8 { read_all::<u16, D>(&mut dec, want.len(), cs, bd) } else { read_all::<u8, D>(&mut dec, want.len(), cs, bd) };
    if got.len() != want.len() {
        return Err(format!("{d}: {} frames decoded", got.len()));
    }
    for (k, (g, w)) in got.iter().zip(want).enumerate() {
        for i in 0..3 {
            let (g, w) = (&g.p[i], &w.p[i]);
            if (g.w, g.h) != (w.w, w.h) {
                return Err(format!("{d}: plane {i} of frame {k} is {}x{}", g.w, g.h));
            }
            if let Some(j) = (0..w.s.len()).find(|j| g.s[*j] != w.s[*j]) {
                return Err(format!("{d}: sample ({}, {}) of plane {i} of frame {k} is {} instead of {}", j % w.w, j / w.w, g.s[j], w.s[j]));
            }
        }
    }
    Ok(d)
}
fn c15_y4m(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (name, cs, pos, bd) = SPACES[s as usize % SPACES.len()];
    let (w, h) = if r.chance(1, 3) { (r.range(1, 9), r.range(1, 9)) } else { (r.range(1, 90), r.range(1, 40)) };
    let n = r.range(1, 3);
    let rate = (r.range(1, 60000), r.range(1, 1001));
    let fs: Vec<Pic> = (0..n).map(|_| { let c = rand_content(r); pic(r, w, h, cs, bd, c) }).collect();
    let sc = Scratch::new();
    let f = sc.put("a.y4m", &y4m_bytes(name, w, h, rate, &fs));
    let want: Vec<Pic> = fs.iter().map(|f| decoded(f, pos)).collect();
    let dec = av_metrics_decoders::y4m::new_decoder_from_file(&f)?;
    if dec.get_video_details().chroma_sample_position != pos {
        return Err(format!("position of {name}: {:?}", dec.get_video_details().chroma_sample_position));
    }
    check_decoder(dec, &format!("Y4M C{name} {w}x{h}"), &want, w, h, Some(rate), cs, bd)
}
/// Through the library: a metric of two files equals the metric of their samples
fn c15_two(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let (name, cs, pos, bd) = SPACES[s as usize % SPACES.len()];
    let (w, h) = (r.range(1, 70), r.range(1, 40));
    let (a, b) = pair(r, w, h, cs, bd);
    let sc = Scratch::new();
    let fa = sc.put("a.y4m", &y4m_bytes(name, w, h, (25, 1), &[a.clone(), b.clone()]));
    let fb = sc.put("b.y4m", &y4m_bytes(name, w, h, (25, 1), &[b.clone(), a.clone(), a.clone()]));
    let open = |f| av_metrics_decoders::y4m::new_decoder_from_file(f);
    let got = arr(psnr::calculate_video_psnr(&mut open(&fa)?, &mut open(&fb)?, None, |_| ()).map_err(st)?);
    let (a, b) = (decoded(&a, pos), decoded(&b, pos));
    let d = format!("PSNR of two Y4M C{name} files of {w}x{h}");
    ctx(close4(got, o::psnr(&[(a.clone(), b.clone()), (b, a)]), 1e-8), || d.clone())?;
    Ok(d)
}
#[cfg(not(feature = "ffmpeg"))]
fn c15_ffmpeg(_: u64) -> Case {
    Ok("ffmpeg not built".into())
}
#[cfg(feature = "ffmpeg")]
fn c15_ffmpeg(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let t = [0, 4, 6, 7, 9, 10, 0, 5, 8, 11];
    let (name, cs, pos, bd) = SPACES[t[s as usize % t.len()]];
    let (w, h) = (r.range(2, 90), r.range(2, 40));
    let n = r.range(1, 4);
    let fs: Vec<Pic> = (0..n).map(|_| pic(r, w, h, cs, bd, Content::Smooth)).collect();
    let sc = Scratch::new();
    let f = sc.put("a.y4m", &y4m_bytes(name, w, h, (25, 1), &fs));
    let want: Vec<Pic> = fs.iter().map(|f| decoded(f, pos)).collect();
    let dec = av_metrics_decoders::FfmpegDecoder::new(&f)?;
    check_decoder(dec, &format!("FFmpeg C{name} {w}x{h}"), &want, w, h, Some((25, 1)), cs, bd)
}

// ------------------------------------------------------------------ C16
fn c16_read(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let n = r.below(9);
    let bd = r.pick(&[8, 10]);
    let fs: Vec<Pic> = (0..n).map(|_| pic(r, 3, 2, ChromaSampling::Cs444, bd, Content::Noise)).collect();
    let mut m = Mock::new(fs.clone(), bd, ChromaSampling::Cs444);
    let mut pos = 0;
    let mut d = format!("{n} frames:");
    for _ in 0..r.range(1, 3) {
        let k = if r.chance(1, 10) { 5000 } else { r.below(7) };
        d += &format!(" +{k}");
        let before = m.reads.load(SeqCst);
        fn go<T: Pixel>(m: &mut Mock, k: usize) -> Option<[Pl; 3]>
        where
            u16: av_metrics::video::CastFromPrimitive<T>,
        {
            m.read_specific_frame::<T>(k).map(|f| std::array::from_fn(|i| visible(&f.planes[i])))
        }
        let got = if bd > 8 { go::<u16>(&mut m, k) } else { go::<u8>(&mut m, k) };
        let want = fs.get(pos + k).map(|f| f.p.clone());
        if got != want {
            return Err(format!("{d}: frame {} {}", pos + k, if want.is_none() { "does not exist but one was returned" } else { "was not returned" }));
        }
        if want.is_some() {
            let n = m.reads.load(SeqCst) - before;
            if n != k + 1 {
                return Err(format!("{d}: {n} frames read for frame {k}"));
            }
            pos += k + 1;
        } else {
            break;
        }
    }
    Ok(d)
}

// ------------------------------------------------------------------ C17
const NAMES: [&str; 6] = ["psnr", "apsnr", "psnrhvs", "ssim", "msssim", "ciede2000"];
const KEYS: [&str; 6] = ["psnr", "apsnr", "psnr_hvs", "ssim", "msssim", "ciede2000"];
const TITLES: [&str; 6] = ["PSNR", "APSNR", "PSNR HVS", "SSIM", "MSSSIM", "CIEDE2000"];
fn lib_value(i: usize, a: &std::path::Path, b: &std::path::Path) -> Option<[f64; 4]> {
    let mut x = av_metrics_decoders::y4m::new_decoder_from_file(a).ok()?;
    let mut y = av_metrics_decoders::y4m::new_decoder_from_file(b).ok()?;
    let (x, y) = (&mut x, &mut y);
    let f = |_| ();
    match i {
        0 => psnr::calculate_video_psnr(x, y, None, f).ok().map(arr),
        1 => psnr::calculate_video_apsnr(x, y, None, f).ok().map(arr),
        2 => psnr_hvs::calculate_video_psnr_hvs(x, y, None, f).ok().map(arr),
        3 => ssim::calculate_video_ssim(x, y, None, f).ok().map(arr),
        4 => ssim::calculate_video_msssim(x, y, None, f).ok().map(arr),
        _ => ciede::calculate_video_ciede(x, y, None, f).ok().map(|v| [v; 4]),
    }
}
fn strip(s: &str) -> String {
    // terminal colours
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}
fn num(v: f64) -> String {
    v.to_string()
}
/// The object of a metric in the JSON of one comparison, as numbers
fn json_metric(obj: &str, key: &str) -> Option<Vec<f64>> {
    let at = obj.find(&format!("\"{key}\":"))? + key.len() + 3;
    let rest = &obj[at..];
    let n = |s: &str| s.parse::<f64>().unwrap_or(f64::INFINITY);
    if let Some(r) = rest.strip_prefix('{') {
        let body = &r[..r.find('}')?];
        let mut v = vec![];
        for k in ["y", "u", "v", "avg"] {
            let i = body.find(&format!("\"{k}\":"))? + k.len() + 3;
            v.push(n(body[i..].split([',', '}']).next()?));
        }
        Some(v)
    } else {
        Some(vec![n(rest.split([',', '}']).next()?)])
    }
}
fn near_text(got: f64, want: f64, tol: f64) -> bool {
    same(got, want, tol) || (!got.is_finite() && !want.is_finite())
}
fn tool_case(s: u64, files: usize) -> Case {
    let bin = std::env::var("AVM_TOOL").map_err(|_| "AVM_TOOL is not set".to_string())?;
    let r = &mut Rng::new(s);
    let sc = Scratch::new();
    let (name, cs, _, bd) = SPACES[[0, 6, 9, 4][s as usize % 4]];
    let (w, h, n) = (r.range(32, 60), r.range(32, 60), r.range(1, 3));
    let frames = |r: &mut Rng| (0..n).map(|_| pic(r, w, h, cs, bd, Content::Smooth)).collect::<Vec<_>>();
    let base = frames(r);
    let a = sc.put("base.y4m", &y4m_bytes(name, w, h, (25, 1), &base));
    let mut ins = vec![];
    for i in 0..files {
        let fs: Vec<Pic> = base
            .iter()
            .map(|f| loop {
                let d = distort(r, f);
                let ok = f.p.iter().zip(&d.p).all(|(a, b)| o::msssim(a, b, bd).1 > 0.05);
                if ok && d != *f {
                    break d;
                }
            })
            .collect();
        ins.push(sc.put(&format!("in{i}.y4m"), &y4m_bytes(name, w, h, (25, 1), &fs)));
    }
    // a file may be given more than once
    if files > 1 && s % 2 == 0 {
        ins.push(ins[r.below(files)].clone());
    }
    let files = ins.len();
    let sel = if s % 3 == 0 { None } else { Some(r.below(6)) };
    let quiet = r.chance(1, 3);
    let out = |n: &str| sc.0.join(n);
    let mut c = std::process::Command::new(&bin);
    c.arg(&a).args(&ins);
    if let Some(i) = sel {
        c.args(["--metric", NAMES[i]]);
    }
    if quiet {
        c.arg("--quiet");
    }
    c.arg("--export-json").arg(out("o.json"));
    c.arg("--export-csv").arg(out("o.csv"));
    c.arg("--export-markdown").arg(out("o.md"));
    c.arg("--export-file").arg(out("o.txt"));
    let res = c.output().map_err(|e| e.to_string())?;
    let d = format!("tool on {files} files of {w}x{h} {name}, metric {:?}, quiet {quiet}", sel.map(|i| NAMES[i]));
    if !res.status.success() {
        return Err(format!("{d}: exit {:?}: {}", res.status, String::from_utf8_lossy(&res.stderr)));
    }
    let rd = |n: &str| std::fs::read_to_string(out(n)).map_err(|e| format!("{d}: {n}: {e}"));
    let (js, csv, md, txt) = (rd("o.json")?, rd("o.csv")?, rd("o.md")?, rd("o.txt")?);
    let stdout = String::from_utf8_lossy(&res.stdout).into_owned();
    // one chunk per comparison
    let parts: Vec<&str> = js.split("\"filename\":").skip(1).collect();
    if parts.len() != files {
        return Err(format!("{d}: JSON of {} comparisons: {js}", parts.len()));
    }
    let csv_rows: Vec<&str> = csv.lines().collect();
    let md_rows: Vec<&str> = md.lines().collect();
    if csv_rows.len() != files + 1 || md_rows.len() != files + 2 {
        return Err(format!("{d}: {} CSV lines, {} Markdown lines", csv_rows.len(), md_rows.len()));
    }
    if csv_rows[0] != "filename,psnr,apsnr,psnr_hvs,ssim,msssim,ciede2000" {
        return Err(format!("{d}: CSV header {}", csv_rows[0]));
    }
    let head: Vec<&str> = md_rows[0].trim_matches('|').split('|').collect();
    if head != ["filename", "psnr", "apsnr", "psnr_hvs", "ssim", "msssim", "ciede2000"] {
        return Err(format!("{d}: Markdown header {}", md_rows[0]));
    }
    let txt = strip(&txt);
    let blocks: Vec<&str> = txt.split("Results for").skip(1).collect();
    if blocks.len() != files {
        return Err(format!("{d}: {} blocks of text", blocks.len()));
    }
    for (k, f) in ins.iter().enumerate() {
        let fname = f.to_string_lossy().into_owned();
        if !parts[k].contains(&fname) || !csv_rows[k + 1].starts_with(&fname) || !md_rows[k + 2].contains(&fname) || !blocks[k].contains(&fname) {
            return Err(format!("{d}: comparison {k} is not of {fname}"));
        }
        let cells: Vec<&str> = csv_rows[k + 1].split(',').collect();
        let mcells: Vec<&str> = md_rows[k + 2].trim_matches('|').split('|').collect();
        for i in 0..6 {
            let asked = sel.map_or(true, |x| x == i);
            let j = json_metric(parts[k], KEYS[i]);
            let line = blocks[k].lines().find(|l| l.trim_start().starts_with(&format!("{:<10} ", TITLES[i])));
            if !asked {
                if j.is_some() || line.is_some() {
                    return Err(format!("{d}: {} was not asked for but reported", KEYS[i]));
                }
                for c in [cells[i + 1], mcells[i + 1]] {
                    if c.parse::<f64>() != Ok(0.) {
                        return Err(format!("{d}: {} was not asked for but reported: {c}", KEYS[i]));
                    }
                }
                continue;
            }
            let want = lib_value(i, &a, f).ok_or_else(|| format!("{d}: the library fails"))?;
            let j = j.ok_or_else(|| format!("{d}: {} is missing in {js}", KEYS[i]))?;
            let w = &want[..j.len()];
            if j.iter().zip(w).any(|(a, b)| !near_text(*a, *b, 1e-9)) {
                return Err(format!("{d}: {} is {j:?} instead of {want:?}", KEYS[i]));
            }
            for c in [cells[i + 1], mcells[i + 1]] {
                if !near_text(c.parse().unwrap_or(f64::NAN), want[3], 1e-9) {
                    return Err(format!("{d}: {} is {c} instead of {}", KEYS[i], num(want[3])));
                }
            }
            let line = line.ok_or_else(|| format!("{d}: {} is missing in the text {}", TITLES[i], blocks[k]))?;
            let nums: Vec<f64> = line.split_whitespace().filter_map(|t| t.parse().ok()).collect();
            let nums = if i == 2 || nums.len() > j.len() { nums[nums.len() - j.len()..].to_vec() } else { nums };
            if nums.len() != j.len() || nums.iter().zip(w).any(|(a, b)| !near_text(*a, *b, 6e-5)) {
                return Err(format!("{d}: text {line:?} instead of {want:?}"));
            }
        }
    }
    let so = strip(&stdout);
    if quiet && !so.trim().is_empty() {
        return Err(format!("{d}: printed {so}"));
    }
    if !quiet && so.trim() != txt.trim() {
        return Err(format!("{d}: standard output {so:?} instead of {txt:?}"));
    }
    Ok(d)
}
fn c17_tool(s: u64) -> Case {
    tool_case(s, 1)
}
fn c17_many(s: u64) -> Case {
    tool_case(s + 1000, 3)
}

// ------------------------------------------------------------------ C18
fn c18_layout(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let m = METS[s as usize % 6];
    let (cs, bd) = (r.pick(&ALL_CS), r.pick(&BDS));
    let (w, h) = (r.range(32, 70), r.range(32, 70));
    let c = r.pick(&[Content::Smooth, Content::Noise]);
    let a = pic(r, w, h, cs, bd, c);
    let b = distort(r, &a);
    let l0 = Layout { tight: true, ..Layout::plain() };
    let mut l = Layout::rand(r);
    if l == l0 {
        l = Layout::plain();
    }
    let d = format!("{m:?} of {} {l:?}", show_pair(&a, &b));
    let x = run_frame(m, &a, &b, &l0).map_err(|e| format!("{d}: {e}"))?;
    let y = run_frame(m, &a, &b, &l).map_err(|e| format!("{d}: {e}"))?;
    ctx(close4(y, x, 1e-7), || d.clone())?;
    Ok(d)
}

// ------------------------------------------------------------------ C19
fn c19_identity(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let m = METS[s as usize % 6];
    let (cs, bd) = (r.pick(&ALL_CS), r.pick(&BDS));
    let (w, h) = (r.range(32, 70), r.range(32, 70));
    let c = rand_content(r);
    let a = pic(r, w, h, cs, bd, c);
    let l = Layout::rand(r);
    let d = format!("{m:?} of {} {l:?} with itself", show(&a));
    let x = run_frame(m, &a, &a, &l).map_err(|e| format!("{d}: {e}"))?;
    let ok = x.iter().all(|v| match m {
        Met::Psnr | Met::De | Met::DeScalar => *v == 100.,
        Met::Hvs => *v == f64::INFINITY,
        _ => *v >= 100.,
    });
    if ok {
        Ok(d)
    } else {
        Err(format!("{d}: {x:?}"))
    }
}
fn c19_symmetry(s: u64) -> Case {
    let r = &mut Rng::new(s);
    let m = METS[s as usize % 6];
    let (cs, bd) = (r.pick(&ALL_CS), r.pick(&BDS));
    let (w, h) = (r.range(32, 60), r.range(32, 60));
    let (a, b) = pair(r, w, h, cs, bd);
    let l = Layout::rand(r);
    let d = format!("{m:?} of {} {l:?} and exchanged", show_pair(&a, &b));
    let x = run_frame(m, &a, &b, &l).map_err(|e| format!("{d}: {e}"))?;
    let y = run_frame(m, &b, &a, &l).map_err(|e| format!("{d}: {e}"))?;
    for i in 0..4 {
        let ok = match m {
            Met::Ssim | Met::Ms => {
                let (p, q) = (o::loss_of_db(x[i]), o::loss_of_db(y[i]));
                (x[i].is_nan() && y[i].is_nan()) || (p - q).abs() <= 1e-7 * p + 1e-11
            }
            Met::De | Met::DeScalar => same(x[i], y[i], 1e-3),
            _ => same(x[i], y[i], 1e-7),
        };
        if !ok {
            return Err(format!("{d}: {x:?} and {y:?}"));
        }
    }
    Ok(d)
}
