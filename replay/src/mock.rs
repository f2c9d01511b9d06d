//! Decoders over frames in memory, and Y4M files.
use crate::gen::*;
use av_metrics::video::decode::{Decoder, Rational, VideoDetails};
use av_metrics::video::{ChromaSamplePosition, ChromaSampling, Frame, Pixel};
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub struct Mock {
    pub frames: Arc<Vec<Pic>>,
    pub layout: Layout,
    pub pos: usize,
    pub bd: usize,
    pub cs: ChromaSampling,
    pub dims: (usize, usize),
    pub panic_at: Option<usize>,
    pub reads: Arc<AtomicUsize>,
    pub widths: Arc<Mutex<HashSet<usize>>>,
}
impl Mock {
    pub fn new(frames: Vec<Pic>, bd: usize, cs: ChromaSampling) -> Self {
        let dims = frames.first().map_or((16, 16), |f| (f.p[0].w, f.p[0].h));
        Mock {
            frames: Arc::new(frames),
            layout: Layout::plain(),
            pos: 0,
            bd,
            cs,
            dims,
            panic_at: None,
            reads: Default::default(),
            widths: Default::default(),
        }
    }
}
impl Decoder for Mock {
    fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
        self.reads.fetch_add(1, SeqCst);
        self.widths.lock().unwrap().insert(std::mem::size_of::<T>());
        if self.panic_at == Some(self.pos) {
            panic!("planned panic of a decoder");
        }
        let f = self.frames.get(self.pos)?;
        self.pos += 1;
        Some(mk::<T>(f, &self.layout))
    }
    fn get_bit_depth(&self) -> usize {
        self.bd
    }
    fn get_video_details(&self) -> VideoDetails {
        VideoDetails {
            width: self.dims.0,
            height: self.dims.1,
            bit_depth: self.bd,
            chroma_sampling: self.cs,
            chroma_sample_position: ChromaSamplePosition::Unknown,
            time_base: Rational::new(1, 25),
            luma_padding: 0,
        }
    }
}

/// name, chroma sampling, position (as the decoders report it), bit depth
pub const SPACES: &[(&str, ChromaSampling, ChromaSamplePosition, usize)] = &[
    ("420jpeg", ChromaSampling::Cs420, ChromaSamplePosition::Bilateral, 8),
    ("420mpeg2", ChromaSampling::Cs420, ChromaSamplePosition::Vertical, 8),
    ("420paldv", ChromaSampling::Cs420, ChromaSamplePosition::Interpolated, 8),
    ("420", ChromaSampling::Cs420, ChromaSamplePosition::Colocated, 8),
    ("420p10", ChromaSampling::Cs420, ChromaSamplePosition::Colocated, 10),
    ("420p12", ChromaSampling::Cs420, ChromaSamplePosition::Colocated, 12),
    ("422", ChromaSampling::Cs422, ChromaSamplePosition::Vertical, 8),
    ("422p10", ChromaSampling::Cs422, ChromaSamplePosition::Vertical, 10),
    ("422p12", ChromaSampling::Cs422, ChromaSamplePosition::Vertical, 12),
    ("444", ChromaSampling::Cs444, ChromaSamplePosition::Colocated, 8),
    ("444p10", ChromaSampling::Cs444, ChromaSamplePosition::Colocated, 10),
    ("444p12", ChromaSampling::Cs444, ChromaSamplePosition::Colocated, 12),
    ("mono", ChromaSampling::Cs400, ChromaSamplePosition::Unknown, 8),
    ("mono12", ChromaSampling::Cs400, ChromaSamplePosition::Unknown, 12),
];

pub fn y4m_bytes(space: &str, w: usize, h: usize, rate: (usize, usize), frames: &[Pic]) -> Vec<u8> {
    let mut o = format!("YUV4MPEG2 W{w} H{h} F{}:{} Ip A1:1 C{space}\n", rate.0, rate.1).into_bytes();
    for f in frames {
        o.extend_from_slice(b"FRAME\n");
        for p in &f.p {
            for v in &p.s {
                if f.bd == 8 {
                    o.push(*v as u8);
                } else {
                    o.extend_from_slice(&v.to_le_bytes());
                }
            }
        }
    }
    o
}

/// Independent specification of the resampling of vertically located chroma.
pub fn resample(p: &Pl, bd: usize) -> Pl {
    let mut o = p.clone();
    let max = (1i64 << bd) - 1;
    for y in 0..p.h {
        for x in 0..p.w {
            let t = |d: i64| p.at((x as i64 + d).clamp(0, p.w as i64 - 1) as usize, y) as i64;
            let v = 4 * t(-2) - 17 * t(-1) + 114 * t(0) + 35 * t(1) - 9 * t(2) + t(3) + 64;
            o.s[y * p.w + x] = v.div_euclid(128).clamp(0, max) as u16;
        }
    }
    o
}
