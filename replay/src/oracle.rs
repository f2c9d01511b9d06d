//! Independent executable specifications of the metrics, over visible samples.
use crate::gen::*;
use av_metrics::video::ChromaSampling;

// ---------------------------------------------------------------- PSNR
pub fn sse(a: &Pl, b: &Pl) -> u128 {
    a.s.iter()
        .zip(&b.s)
        .map(|(x, y)| {
            let d = *x as i64 - *y as i64;
            (d * d) as u128
        })
        .sum()
}
pub fn psnr_of(sse: u128, n: u128, bd: usize) -> f64 {
    if sse == 0 {
        return 100.;
    }
    let max = ((1u64 << bd) - 1) as f64;
    (10. * (max * max * n as f64 / sse as f64).log10()).min(100.)
}
/// y, u, v, avg
pub fn psnr(frames: &[(Pic, Pic)]) -> [f64; 4] {
    let bd = frames[0].0.bd;
    let mut out = [0.; 4];
    let (mut ts, mut tn) = (0, 0);
    for i in 0..3 {
        let s: u128 = frames.iter().map(|(a, b)| sse(&a.p[i], &b.p[i])).sum();
        let n: u128 = frames.iter().map(|(a, _)| a.p[i].s.len() as u128).sum();
        out[i] = psnr_of(s, n, bd);
        ts += s;
        tn += n;
    }
    out[3] = psnr_of(ts, tn, bd);
    out
}
pub fn apsnr(frames: &[(Pic, Pic)]) -> [f64; 4] {
    let mut out = [0.; 4];
    for f in frames {
        let p = psnr(std::slice::from_ref(f));
        for i in 0..4 {
            out[i] += p[i] / frames.len() as f64;
        }
    }
    out
}

// ---------------------------------------------------------------- planar combination
pub fn weight(cs: ChromaSampling) -> f64 {
    match cs {
        ChromaSampling::Cs420 => 0.25,
        ChromaSampling::Cs422 => 0.5,
        ChromaSampling::Cs444 => 1.,
        ChromaSampling::Cs400 => 0.,
    }
}
/// mean over the frames of the linear scores, and the weighted mean of the planes
pub fn planar(lin: &[[f64; 3]], cs: ChromaSampling) -> [f64; 4] {
    let n = lin.len() as f64;
    let m = |i: usize| lin.iter().map(|l| l[i]).sum::<f64>() / n;
    let w = weight(cs);
    let c = if w == 0. { 0. } else { w * (m(1) + m(2)) };
    [m(0), m(1), m(2), (m(0) + c) / (1. + 2. * w)]
}
/// linear loss of a similarity in decibels
pub fn loss_of_db(db: f64) -> f64 {
    10f64.powf(-db / 10.)
}

// ---------------------------------------------------------------- PSNR-HVS
pub const CSF: [[[f64; 8]; 8]; 3] = [
    [
        [1.6193873005, 2.2901594831, 2.08509755623, 1.48366094411, 1.00227514334, 0.678296995242, 0.466224900598, 0.3265091542],
        [2.2901594831, 1.94321815382, 2.04793073064, 1.68731108984, 1.2305666963, 0.868920337363, 0.61280991668, 0.436405793551],
        [2.08509755623, 2.04793073064, 1.34329019223, 1.09205635862, 0.875748795257, 0.670882927016, 0.501731932449, 0.372504254596],
        [1.48366094411, 1.68731108984, 1.09205635862, 0.772819797575, 0.605636379554, 0.48309405692, 0.380429446972, 0.295774038565],
        [1.00227514334, 1.2305666963, 0.875748795257, 0.605636379554, 0.448996256676, 0.352889268808, 0.283006984131, 0.226951348204],
        [0.678296995242, 0.868920337363, 0.670882927016, 0.48309405692, 0.352889268808, 0.27032073436, 0.215017739696, 0.17408067321],
        [0.466224900598, 0.61280991668, 0.501731932449, 0.380429446972, 0.283006984131, 0.215017739696, 0.168869545842, 0.136153931001],
        [0.3265091542, 0.436405793551, 0.372504254596, 0.295774038565, 0.226951348204, 0.17408067321, 0.136153931001, 0.109083846276],
    ],
    [
        [1.91113096927, 2.46074210438, 1.18284184739, 1.14982565193, 1.05017074788, 0.898018824055, 0.74725392039, 0.615105596242],
        [2.46074210438, 1.58529308355, 1.21363250036, 1.38190029285, 1.33100189972, 1.17428548929, 0.996404342439, 0.830890433625],
        [1.18284184739, 1.21363250036, 0.978712413627, 1.02624506078, 1.03145147362, 0.960060382087, 0.849823426169, 0.731221236837],
        [1.14982565193, 1.38190029285, 1.02624506078, 0.861317501629, 0.801821139099, 0.751437590932, 0.685398513368, 0.608694761374],
        [1.05017074788, 1.33100189972, 1.03145147362, 0.801821139099, 0.676555426187, 0.605503172737, 0.55002013668, 0.495804539034],
        [0.898018824055, 1.17428548929, 0.960060382087, 0.751437590932, 0.605503172737, 0.514674450957, 0.454353482512, 0.407050308965],
        [0.74725392039, 0.996404342439, 0.849823426169, 0.685398513368, 0.55002013668, 0.454353482512, 0.389234902883, 0.342353999733],
        [0.615105596242, 0.830890433625, 0.731221236837, 0.608694761374, 0.495804539034, 0.407050308965, 0.342353999733, 0.295530605237],
    ],
    [
        [2.03871978502, 2.62502345193, 1.26180942886, 1.11019789803, 1.01397751469, 0.867069376285, 0.721500455585, 0.593906509971],
        [2.62502345193, 1.69112867013, 1.17180569821, 1.3342742857, 1.28513006198, 1.13381474809, 0.962064122248, 0.802254508198],
        [1.26180942886, 1.17180569821, 0.944981930573, 0.990876405848, 0.995903384143, 0.926972725286, 0.820534991409, 0.706020324706],
        [1.11019789803, 1.3342742857, 0.990876405848, 0.831632933426, 0.77418706195, 0.725539939514, 0.661776842059, 0.587716619023],
        [1.01397751469, 1.28513006198, 0.995903384143, 0.77418706195, 0.653238524286, 0.584635025748, 0.531064164893, 0.478717061273],
        [0.867069376285, 1.13381474809, 0.926972725286, 0.725539939514, 0.584635025748, 0.496936637883, 0.438694579826, 0.393021669543],
        [0.721500455585, 0.962064122248, 0.820534991409, 0.661776842059, 0.531064164893, 0.438694579826, 0.375820256136, 0.330555063063],
        [0.593906509971, 0.802254508198, 0.706020324706, 0.587716619023, 0.478717061273, 0.393021669543, 0.330555063063, 0.285345396658],
    ],
];

fn rs(a: i64, b: u32) -> i64 {
    // division by a power of two, rounding towards zero
    if a < 0 && a & ((1 << b) - 1) != 0 {
        (a >> b) + 1
    } else {
        a >> b
    }
}
/// The 8-point lifting of Daala.
pub fn fdct8(x: [i64; 8]) -> [i64; 8] {
    let [x0, x1, x2, x3, x4, x5, x6, x7] = x;
    let mut b1 = x0 - x7;
    let b1h = rs(b1, 1);
    let mut b0 = x0 - b1h;
    let mut b4 = x1 + x6;
    let b4h = rs(b4, 1);
    let mut b5 = x6 - b4h;
    let mut b3 = x2 - x5;
    let mut b2 = x2 - rs(b3, 1);
    let mut b6 = x3 + x4;
    let b6h = rs(b6, 1);
    let mut b7 = b6h - x4;
    b0 += b6h;
    b6 = b0 - b6;
    b2 = b4h - b2;
    b4 = b2 - b4;
    b0 -= (b4 * 13573 + 16384) >> 15;
    b4 += (b0 * 11585 + 8192) >> 14;
    b0 -= (b4 * 13573 + 16384) >> 15;
    b6 -= (b2 * 21895 + 16384) >> 15;
    b2 += (b6 * 15137 + 8192) >> 14;
    b6 -= (b2 * 21895 + 16384) >> 15;
    b3 += (b5 * 19195 + 16384) >> 15;
    b5 += (b3 * 11585 + 8192) >> 14;
    b3 -= (b5 * 7489 + 4096) >> 13;
    b7 = rs(b5, 1) - b7;
    b5 -= b7;
    b3 = b1h - b3;
    b1 -= b3;
    b7 += (b1 * 3227 + 16384) >> 15;
    b1 -= (b7 * 6393 + 16384) >> 15;
    b7 += (b1 * 3227 + 16384) >> 15;
    b5 += (b3 * 2485 + 4096) >> 13;
    b3 -= (b5 * 18205 + 16384) >> 15;
    b5 += (b3 * 2485 + 4096) >> 13;
    [b0, b1, b2, b3, b4, b5, b6, b7]
}
pub fn fdct8x8(d: &[[i64; 8]; 8]) -> [[i64; 8]; 8] {
    let mut z = [[0; 8]; 8];
    for i in 0..8 {
        let mut col = [0; 8];
        for k in 0..8 {
            col[k] = d[k][i];
        }
        z[i] = fdct8(col);
    }
    let mut o = [[0; 8]; 8];
    for i in 0..8 {
        let mut col = [0; 8];
        for k in 0..8 {
            col[k] = z[k][i];
        }
        o[i] = fdct8(col);
    }
    o
}
fn var_ratio(b: &[[i64; 8]; 8]) -> f64 {
    let var = |x0: usize, y0: usize, n: usize| {
        let (mut s, mut q) = (0f64, 0f64);
        for y in y0..y0 + n {
            for x in x0..x0 + n {
                s += b[y][x] as f64;
                q += (b[y][x] * b[y][x]) as f64;
            }
        }
        let m = (n * n) as f64;
        (q - s * s / m) * m / (m - 1.)
    };
    let g = var(0, 0, 8);
    if g <= 0. {
        return g;
    }
    (var(0, 0, 4) + var(4, 0, 4) + var(0, 4, 4) + var(4, 4, 4)) / g
}
/// Normalized mean squared weighted error of a plane.
pub fn hvs(a: &Pl, b: &Pl, idx: usize, bd: usize) -> f64 {
    if a.w == 0 || a.h == 0 {
        return 0.;
    }
    let csf = &CSF[idx];
    let maskf = |i: usize, j: usize| (csf[i][j] * 0.3885746225901003).powi(2);
    let (mut sum, mut n) = (0f64, 0u64);
    let mut y = 0;
    while y + 8 <= a.h {
        let mut x = 0;
        while x + 8 <= a.w {
            let blk = |p: &Pl| {
                let mut o = [[0i64; 8]; 8];
                for j in 0..8 {
                    for i in 0..8 {
                        o[j][i] = p.at(x + i, y + j) as i64;
                    }
                }
                o
            };
            let (ba, bb) = (blk(a), blk(b));
            let (da, db) = (fdct8x8(&ba), fdct8x8(&bb));
            let mask = |d: &[[i64; 8]; 8], blk: &[[i64; 8]; 8]| {
                let mut m = 0.;
                for i in 0..8 {
                    for j in 0..8 {
                        if i + j > 0 {
                            m += (d[i][j] * d[i][j]) as f64 * maskf(i, j);
                        }
                    }
                }
                (m * var_ratio(blk)).sqrt() / 32.
            };
            let m = mask(&da, &ba).max(mask(&db, &bb));
            for i in 0..8 {
                for j in 0..8 {
                    let mut e = (da[i][j] - db[i][j]).abs() as f64;
                    if i + j > 0 {
                        e = (e - m / maskf(i, j)).max(0.);
                    }
                    sum += (e * csf[i][j]).powi(2);
                    n += 1;
                }
            }
            x += 7;
        }
        y += 7;
    }
    let max = ((1u64 << bd) - 1) as f64;
    sum / n as f64 / (max * max)
}

// ---------------------------------------------------------------- SSIM
pub fn kernel(sigma: f64, max_len: usize, weight: i64) -> Vec<i64> {
    let w = weight as f64;
    // the first dropped coefficient is below half a unit
    let s = (std::f64::consts::PI / 2.).sqrt() * sigma / w;
    let len = if s >= 1. {
        0
    } else {
        (sigma * (-2. * s.ln()).sqrt()) as usize
    };
    let half = len.min(max_len.max(1) - 1);
    let side: Vec<i64> = (1..=half)
        .map(|c| {
            let g = (-(c as f64 * c as f64) / (2. * sigma * sigma)).exp()
                / ((2. * std::f64::consts::PI).sqrt() * sigma);
            (w * g + 0.5).floor() as i64
        })
        .collect();
    let total: i64 = side.iter().sum();
    let mut k: Vec<i64> = side.iter().rev().copied().collect();
    k.push(weight - 2 * total);
    k.extend(side);
    k
}
/// (mean similarity, mean contrast term)
pub fn ssim_plane(a: &[u64], b: &[u64], w: usize, h: usize, max: f64, k: &[i64]) -> (f64, f64) {
    let half = (k.len() / 2) as isize;
    #[derive(Clone, Copy, Default)]
    struct M([i128; 6]);
    let mut rows = vec![M::default(); w * h];
    for y in 0..h {
        for x in 0..w {
            let mut m = [0i128; 6];
            for (i, c) in k.iter().enumerate() {
                let t = x as isize + i as isize - half;
                if t < 0 || t >= w as isize {
                    continue;
                }
                let (p, q) = (
                    a[y * w + t as usize] as i128,
                    b[y * w + t as usize] as i128,
                );
                let c = *c as i128;
                for (s, v) in m.iter_mut().zip([p, q, p * p, p * q, q * q, 1]) {
                    *s += c * v;
                }
            }
            rows[y * w + x] = M(m);
        }
    }
    let (mut ss, mut cs, mut ww) = (0., 0., 0.);
    for y in 0..h {
        for x in 0..w {
            let mut m = [0i128; 6];
            for (i, c) in k.iter().enumerate() {
                let t = y as isize + i as isize - half;
                if t < 0 || t >= h as isize {
                    continue;
                }
                for (s, v) in m.iter_mut().zip(rows[t as usize * w + x].0) {
                    *s += *c as i128 * v;
                }
            }
            let [mx, my, xx, xy, yy, wt] = m;
            let wf = wt as f64;
            let c1 = max * max * 1e-4 * wf * wf;
            let c2 = max * max * 9e-4 * wf * wf;
            let vx = (xx * wt - mx * mx) as f64;
            let vy = (yy * wt - my * my) as f64;
            let cov = (xy * wt - mx * my) as f64;
            let c = wf * (2. * cov + c2) / (vx + vy + c2);
            cs += c;
            ss += c * (2. * (mx * my) as f64 + c1) / ((mx * mx + my * my) as f64 + c1);
            ww += wf;
        }
    }
    (ss / ww, cs / ww)
}
pub fn ssim(a: &Pl, b: &Pl, bd: usize) -> f64 {
    if a.w == 0 || a.h == 0 {
        return 1.;
    }
    let k = kernel(a.h as f64 * 1.5 / 256., a.w.min(a.h), 256);
    let v = |p: &Pl| p.s.iter().map(|v| *v as u64).collect::<Vec<_>>();
    ssim_plane(&v(a), &v(b), a.w, a.h, ((1u64 << bd) - 1) as f64, &k).0
}
/// linear score and the smallest term that is raised to a power
pub fn msssim(a: &Pl, b: &Pl, bd: usize) -> (f64, f64) {
    if a.w == 0 || a.h == 0 {
        return (1., 1.);
    }
    const W: [f64; 5] = [0.0448, 0.2856, 0.3001, 0.2363, 0.1333];
    let k = kernel(1.5, 5, 1024);
    let v = |p: &Pl| p.s.iter().map(|v| *v as u64).collect::<Vec<_>>();
    let (mut x, mut y) = (v(a), v(b));
    let (mut w, mut h) = (a.w, a.h);
    let mut max = ((1u64 << bd) - 1) as f64;
    let (mut score, mut least) = (1f64, f64::INFINITY);
    for s in 0..5 {
        let (ss, cs) = ssim_plane(&x, &y, w, h, max, &k);
        let t = if s == 4 { ss } else { cs };
        least = least.min(t);
        score *= t.powf(W[s]);
        let half = |p: &[u64]| {
            let mut o = Vec::new();
            for j in 0..h / 2 {
                for i in 0..w / 2 {
                    o.push(
                        p[2 * j * w + 2 * i]
                            + p[2 * j * w + 2 * i + 1]
                            + p[(2 * j + 1) * w + 2 * i]
                            + p[(2 * j + 1) * w + 2 * i + 1],
                    );
                }
            }
            o
        };
        x = half(&x);
        y = half(&y);
        w /= 2;
        h /= 2;
        max *= 4.;
    }
    (score, least)
}

// ---------------------------------------------------------------- CIEDE2000
pub fn lab(y: u16, u: u16, v: u16, bd: usize) -> [f64; 3] {
    let k = (1u64 << (bd - 8)) as f64;
    let y = (y as f64 - 16. * k) / (219. * k);
    let u = (u as f64 - 128. * k) / (224. * k);
    let v = (v as f64 - 128. * k) / (224. * k);
    let rgb = [
        y + 1.28033 * v,
        y - 0.21482 * u - 0.38059 * v,
        y + 2.12798 * u,
    ];
    let lin = rgb.map(|c| {
        if c > 10. / 255. {
            ((c + 0.055) / 1.055f64).powf(2.4)
        } else {
            c / 12.92
        }
    });
    const M: [[f64; 3]; 3] = [
        [0.4124564390896921, 0.357576077643909, 0.18043748326639894],
        [0.21267285140562248, 0.715152155287818, 0.07217499330655958],
        [0.019333895582329317, 0.119192025881303, 0.9503040785363677],
    ];
    let xyz = [0, 1, 2].map(|i| (0..3).map(|j| M[i][j] * lin[j]).sum::<f64>());
    let f = |t: f64| {
        if t > 216. / 24389. {
            t.cbrt()
        } else {
            (24389. / 27. * t + 16.) / 116.
        }
    };
    let (x, y, z) = (f(xyz[0] / 0.95047), f(xyz[1]), f(xyz[2] / 1.08883));
    [116. * y - 16., 500. * (x - y), 200. * (y - z)]
}
pub fn de2000(p: [f64; 3], q: [f64; 3]) -> f64 {
    let [l1, a1, b1] = p;
    let [l2, a2, b2] = q;
    let (c1, c2) = (a1.hypot(b1), a2.hypot(b2));
    let c7 = ((c1 + c2) / 2.).powi(7);
    let g = 0.5 * (1. - (c7 / (c7 + 25f64.powi(7))).sqrt());
    let (a1, a2) = (a1 * (1. + g), a2 * (1. + g));
    let (c1, c2) = (a1.hypot(b1), a2.hypot(b2));
    let hue = |a: f64, b: f64| {
        if a == 0. && b == 0. {
            0.
        } else {
            b.atan2(a).to_degrees().rem_euclid(360.)
        }
    };
    let (h1, h2) = (hue(a1, b1), hue(a2, b2));
    let dh = if c1 * c2 == 0. {
        0.
    } else if (h2 - h1).abs() <= 180. {
        h2 - h1
    } else if h2 > h1 {
        h2 - h1 - 360.
    } else {
        h2 - h1 + 360.
    };
    let hb = if c1 * c2 == 0. {
        h1 + h2
    } else if (h1 - h2).abs() <= 180. {
        (h1 + h2) / 2.
    } else if h1 + h2 < 360. {
        (h1 + h2 + 360.) / 2.
    } else {
        (h1 + h2 - 360.) / 2.
    };
    let (dl, dc) = (l2 - l1, c2 - c1);
    let dhh = 2. * (c1 * c2).sqrt() * (dh / 2.).to_radians().sin();
    let lb = (l1 + l2) / 2.;
    let cb = (c1 + c2) / 2.;
    let cos = |d: f64| d.to_radians().cos();
    let t = 1. - 0.17 * cos(hb - 30.) + 0.24 * cos(2. * hb) + 0.32 * cos(3. * hb + 6.)
        - 0.2 * cos(4. * hb - 63.);
    let sl = 1. + 0.015 * (lb - 50.).powi(2) / (20. + (lb - 50.).powi(2)).sqrt();
    let sc = 1. + 0.045 * cb;
    let sh = 1. + 0.015 * cb * t;
    let c7 = cb.powi(7);
    let rt = -2.
        * (c7 / (c7 + 25f64.powi(7))).sqrt()
        * (60. * (-((hb - 275.) / 25.).powi(2)).exp())
            .to_radians()
            .sin();
    let (x, y, z) = (dl / (0.65 * sl), dc / sc, dhh / (4. * sh));
    (x * x + y * y + z * z + rt * y * z).max(0.).sqrt()
}
pub fn pixel_lab(p: &Pic, x: usize, y: usize) -> [f64; 3] {
    let d = dec(p.cs);
    let c = |i: usize| {
        if p.cs == ChromaSampling::Cs400 {
            128u16 << (p.bd - 8)
        } else {
            p.p[i].at(x >> d.0, y >> d.1)
        }
    };
    lab(p.p[0].at(x, y), c(1), c(2), p.bd)
}
/// mean colour difference
pub fn ciede_mean(a: &Pic, b: &Pic) -> f64 {
    let (w, h) = (a.p[0].w, a.p[0].h);
    let mut s = 0.;
    for y in 0..h {
        for x in 0..w {
            s += de2000(pixel_lab(a, x, y), pixel_lab(b, x, y));
        }
    }
    s / (w * h) as f64
}
pub fn ciede_score(mean: f64) -> f64 {
    (45. - 20. * mean.log10()).min(100.)
}
