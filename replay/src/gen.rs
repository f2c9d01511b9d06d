//! Deterministic generation of frames. Only the public API of av-metrics is used.
use av_metrics::video::{ChromaSampling, Frame, Pixel, Plane};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

/// The visible samples of one plane.
#[derive(Clone, Debug, PartialEq)]
pub struct Pl {
    pub w: usize,
    pub h: usize,
    pub s: Vec<u16>,
}
impl Pl {
    pub fn at(&self, x: usize, y: usize) -> u16 {
        self.s[y * self.w + x]
    }
}

/// The visible samples of a frame.
#[derive(Clone, Debug, PartialEq)]
pub struct Pic {
    pub p: [Pl; 3],
    pub cs: ChromaSampling,
    pub bd: usize,
}

pub fn cdims(cs: ChromaSampling, w: usize, h: usize) -> (usize, usize) {
    match cs {
        ChromaSampling::Cs420 => ((w + 1) / 2, (h + 1) / 2),
        ChromaSampling::Cs422 => ((w + 1) / 2, h),
        ChromaSampling::Cs444 => (w, h),
        ChromaSampling::Cs400 => (0, 0),
    }
}
pub fn dec(cs: ChromaSampling) -> (usize, usize) {
    match cs {
        ChromaSampling::Cs420 => (1, 1),
        ChromaSampling::Cs422 => (1, 0),
        _ => (0, 0),
    }
}

pub const ALL_CS: [ChromaSampling; 4] = [
    ChromaSampling::Cs420,
    ChromaSampling::Cs422,
    ChromaSampling::Cs444,
    ChromaSampling::Cs400,
];

#[derive(Clone, Copy, Debug)]
pub enum Content {
    Noise,
    Smooth,
    Extreme,
    Flat,
    Sparse,
}

pub fn rand_content(r: &mut Rng) -> Content {
    r.pick(&[
        Content::Noise,
        Content::Smooth,
        Content::Smooth,
        Content::Extreme,
        Content::Flat,
        Content::Sparse,
    ])
}

pub fn plane(r: &mut Rng, w: usize, h: usize, bd: usize, c: Content) -> Pl {
    let max = (1usize << bd) - 1;
    let base = r.below(max + 1);
    let (gx, gy) = (r.f() * 4. - 2., r.f() * 4. - 2.);
    let k = (1usize << (bd - 8)) as f64;
    let freq = r.f() * 0.9;
    let s = (0..w * h)
        .map(|i| {
            let (x, y) = ((i % w) as f64, (i / w) as f64);
            (match c {
                Content::Noise => r.below(max + 1),
                Content::Smooth => {
                    let v = base as f64
                        + k * (gx * x + gy * y + 20. * (freq * (x + 0.7 * y)).sin())
                        + k * r.below(5) as f64;
                    v.max(0.).min(max as f64) as usize
                }
                Content::Extreme => {
                    if r.chance(1, 2) {
                        0
                    } else {
                        max
                    }
                }
                Content::Flat => base,
                Content::Sparse => {
                    if r.chance(1, 20) {
                        r.below(max + 1)
                    } else {
                        base
                    }
                }
            }) as u16
        })
        .collect();
    Pl { w, h, s }
}

pub fn pic(r: &mut Rng, w: usize, h: usize, cs: ChromaSampling, bd: usize, c: Content) -> Pic {
    let (cw, ch) = cdims(cs, w, h);
    Pic {
        p: [
            plane(r, w, h, bd, c),
            plane(r, cw, ch, bd, c),
            plane(r, cw, ch, bd, c),
        ],
        cs,
        bd,
    }
}

/// A distorted copy.
pub fn distort(r: &mut Rng, a: &Pic) -> Pic {
    let mut b = a.clone();
    let max = (1i64 << a.bd) - 1;
    let k = 1i64 << (a.bd - 8);
    let kind = r.below(6);
    let amp = [1, 3, 8, 25, 80, 200][r.below(6)] * k;
    for p in b.p.iter_mut() {
        let n = p.s.len();
        if n == 0 {
            continue;
        }
        match kind {
            0 => {
                for v in p.s.iter_mut() {
                    let d = r.below((2 * amp + 1) as usize) as i64 - amp;
                    *v = (*v as i64 + d).clamp(0, max) as u16;
                }
            }
            1 => {
                let d = r.below((2 * amp + 1) as usize) as i64 - amp;
                for v in p.s.iter_mut() {
                    *v = (*v as i64 + d).clamp(0, max) as u16;
                }
            }
            2 => {
                // one sample
                let i = r.below(n);
                p.s[i] = if p.s[i] as i64 * 2 > max { 0 } else { max as u16 };
            }
            3 => {
                // blur with the left neighbour
                for i in (1..n).rev() {
                    p.s[i] = ((p.s[i] as u32 + p.s[i - 1] as u32 + 1) / 2) as u16;
                }
            }
            4 => {
                // last row or column
                let (w, h) = (p.w, p.h);
                for x in 0..w {
                    p.s[(h - 1) * w + x] = r.below(max as usize + 1) as u16;
                }
                for y in 0..h {
                    p.s[y * w + w - 1] = r.below(max as usize + 1) as u16;
                }
            }
            _ => {
                for v in p.s.iter_mut() {
                    if r.chance(1, 9) {
                        *v = r.below(max as usize + 1) as u16;
                    }
                }
            }
        }
    }
    b
}

/// How the planes are laid out in memory.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Layout {
    pub pad: [(usize, usize); 3],
    /// Planes made of exactly their visible samples, without any alignment.
    pub tight: bool,
    pub garbage: u64,
}
impl Layout {
    pub fn plain() -> Self {
        Layout {
            pad: [(0, 0); 3],
            tight: false,
            garbage: 0,
        }
    }
    pub fn rand(r: &mut Rng) -> Self {
        if r.chance(1, 3) {
            return Layout {
                garbage: r.next(),
                ..Layout::plain()
            };
        }
        if r.chance(1, 4) {
            return Layout {
                tight: true,
                ..Layout::plain()
            };
        }
        let mut p = || (r.below(3) * r.below(20), r.below(3) * r.below(12));
        let l = p();
        let c = p();
        let pad = [l, c, c];
        Layout {
            pad,
            tight: false,
            garbage: r.next(),
        }
    }
}

pub fn mk_plane<T: Pixel>(
    p: &Pl,
    xdec: usize,
    ydec: usize,
    pad: (usize, usize),
    tight: bool,
    garbage: u64,
    bd: usize,
) -> Plane<T> {
    if tight && p.w > 0 && p.h > 0 {
        let data: Vec<T> = p.s.iter().map(|v| T::cast_from(*v)).collect();
        let mut q = Plane::from_slice(&data, p.w);
        q.cfg.xdec = xdec;
        q.cfg.ydec = ydec;
        return q;
    }
    let mut q = Plane::<T>::new(p.w, p.h, xdec, ydec, pad.0, pad.1);
    if garbage != 0 {
        let mut r = Rng::new(garbage);
        let max = (1usize << bd) - 1;
        for v in q.data.iter_mut() {
            *v = T::cast_from(r.below(max + 1) as u16);
        }
    }
    let (st, xo, yo) = (q.cfg.stride, q.cfg.xorigin, q.cfg.yorigin);
    for y in 0..p.h {
        for x in 0..p.w {
            q.data[(y + yo) * st + xo + x] = T::cast_from(p.at(x, y));
        }
    }
    q
}

pub fn mk<T: Pixel>(p: &Pic, l: &Layout) -> Frame<T> {
    let d = dec(p.cs);
    let pl = |i: usize| {
        let (xd, yd) = if i == 0 { (0, 0) } else { d };
        mk_plane::<T>(
            &p.p[i],
            xd,
            yd,
            l.pad[i],
            l.tight,
            if l.garbage == 0 { 0 } else { l.garbage + i as u64 },
            p.bd,
        )
    };
    Frame {
        planes: [pl(0), pl(1), pl(2)],
    }
}

/// The visible samples of a real plane.
pub fn visible<T: Pixel>(p: &Plane<T>) -> Pl
where
    u16: av_metrics::video::CastFromPrimitive<T>,
{
    use av_metrics::video::CastFromPrimitive;
    let mut s = Vec::new();
    for y in 0..p.cfg.height {
        for x in 0..p.cfg.width {
            s.push(u16::cast_from(
                p.data[(y + p.cfg.yorigin) * p.cfg.stride + p.cfg.xorigin + x],
            ));
        }
    }
    Pl {
        w: p.cfg.width,
        h: p.cfg.height,
        s,
    }
}
