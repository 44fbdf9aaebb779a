//! Dequantisation matrices of the lossy mode.
use super::num::*;
use std::sync::{Arc, OnceLock};

/// Blocks of 8 in the shorter and longer direction for each of the 17 matrices.
pub const SIZE: [(usize, usize); 17] = [
    (1, 1), (1, 1), (1, 1), (1, 1), (2, 2), (4, 4), (1, 2), (1, 4), (2, 4), (1, 1), (1, 1), (8, 8), (4, 8), (16, 16), (8, 16), (32, 32), (16, 32),
];
/// Matrix used by each of the 27 transforms.
pub const KIND: [usize; 27] = [0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 10, 10, 11, 12, 12, 13, 14, 14, 15, 16, 16];
pub type Bands = [Vec<f64>; 3];
/// How a matrix is coded (values as decoded).
#[derive(Clone, Debug)]
pub enum Enc {
    Library,
    Identity([[f64; 3]; 3]),
    Dct2([[f64; 6]; 3]),
    Dct4(Bands, [[f64; 2]; 3]),
    Dct48(Bands, [f64; 3]),
    Afv(Bands, Bands, [[f64; 9]; 3]),
    Dct(Bands),
    Raw(Vec<i64>, f64),
}
fn def(i: usize) -> Bands {
    let t: &[&[f64]; 3] = match i {
        0 => &[&[3150.0, 0.0, -0.4, -0.4, -0.4, -2.0], &[560.0, 0.0, -0.3, -0.3, -0.3, -0.3], &[512.0, -2.0, -1.0, 0.0, -1.0, -2.0]],
        3 => &[&[2200.0, 0.0, 0.0, 0.0], &[392.0, 0.0, 0.0, 0.0], &[112.0, -0.25, -0.25, -0.5]],
        4 => &[&[8996.8725711814115328, -1.3000777393353804, -0.49424529824571225, -0.439093774457103443, -0.6350101832695744, -0.90177264050827612, -1.6162099239887414], &[3191.48366296844234752, -0.67424582104194355, -0.80745813428471001, -0.44925837484843441, -0.35865440981033403, -0.31322389111877305, -0.37615025315725483], &[1157.50408145487200256, -2.0531423165804414, -1.4, -0.50687130033378396, -0.42708730624733904, -1.4856834539296244, -4.9209142884401604]],
        5 => &[&[15718.40830982518931456, -1.025, -0.98, -0.9012, -0.4, -0.48819395464, -0.421064, -0.27], &[7305.7636810695983104, -0.8041958212306401, -0.7633036457487539, -0.55660379990111464, -0.49785304658857626, -0.43699592683512467, -0.40180866526242109, -0.27321683125358037], &[3803.53173721215041536, -3.060733579805728, -2.0413270132490346, -2.0235650159727417, -0.5495389509954993, -0.4, -0.4, -0.3]],
        6 => &[&[7240.7734393502, -0.7, -0.7, -0.2, -0.2, -0.2, -0.5], &[1448.15468787004, -0.5, -0.5, -0.5, -0.2, -0.2, -0.2], &[506.854140754517, -1.4, -0.2, -0.5, -0.5, -1.5, -3.6]],
        7 => &[&[16283.2494710648897, -1.7812845336559429, -1.6309059012653515, -1.0382179034313539, -0.85, -0.7, -0.9, -1.2360638576849587], &[5089.15750884921511936, -0.320049391452786891, -0.35362849922161446, -0.30340000000000003, -0.61, -0.5, -0.5, -0.6], &[3397.77603275308720128, -0.321327362693153371, -0.34507619223117997, -0.70340000000000003, -0.9, -1.0, -1.0, -1.1754605576265209]],
        8 => &[&[13844.97076442300573, -0.97113799999999995, -0.658, -0.42026, -0.22712, -0.2206, -0.226, -0.6], &[4798.964084220744293, -0.61125308982767057, -0.83770786552491361, -0.79014862079498627, -0.2692727459704829, -0.38272769465388551, -0.22924222653091453, -0.20719098826199578], &[1807.236946760964614, -1.2, -1.2, -0.7, -0.7, -0.7, -0.4, -0.5]],
        9 => &[&[2198.050556016380522, -0.96269623020744692, -0.76194253026666783, -0.6551140670773547], &[764.3655248643528689, -0.92630200888366945, -0.9675229603596517, -0.27845290869168118], &[527.107573587542228, -1.4594385811273854, -1.450082094097871593, -1.5843722511996204]],
        11 => &[&[0.9 * 26629.073922049845, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.32733845535848671], &[0.9 * 9311.3238710010046, -0.3041958212306401, -0.3633036457487539, -0.35660379990111464, -0.3443074455424403, -0.33699592683512467, -0.30180866526242109, -0.27321683125358037], &[0.9 * 4992.2486445538634, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5]],
        12 => &[&[0.65 * 23629.073922049845, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.32733845535848671], &[0.65 * 8611.3238710010046, -0.3041958212306401, -0.3633036457487539, -0.35660379990111464, -0.3443074455424403, -0.33699592683512467, -0.30180866526242109, -0.27321683125358037], &[0.65 * 4492.2486445538634, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5]],
        13 => &[&[1.8 * 26629.073922049845, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.32733845535848671], &[1.8 * 9311.3238710010046, -0.3041958212306401, -0.3633036457487539, -0.35660379990111464, -0.3443074455424403, -0.33699592683512467, -0.30180866526242109, -0.27321683125358037], &[1.8 * 4992.2486445538634, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5]],
        14 => &[&[1.3 * 23629.073922049845, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.32733845535848671], &[1.3 * 8611.3238710010046, -0.3041958212306401, -0.3633036457487539, -0.35660379990111464, -0.3443074455424403, -0.33699592683512467, -0.30180866526242109, -0.27321683125358037], &[1.3 * 4492.2486445538634, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5]],
        15 => &[&[3.6 * 26629.073922049845, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.32733845535848671], &[3.6 * 9311.3238710010046, -0.3041958212306401, -0.3633036457487539, -0.35660379990111464, -0.3443074455424403, -0.33699592683512467, -0.30180866526242109, -0.27321683125358037], &[3.6 * 4992.2486445538634, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5]],
        16 => &[&[2.6 * 23629.073922049845, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.32733845535848671], &[2.6 * 8611.3238710010046, -0.3041958212306401, -0.3633036457487539, -0.35660379990111464, -0.3443074455424403, -0.33699592683512467, -0.30180866526242109, -0.27321683125358037], &[2.6 * 4492.2486445538634, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5]],
        _ => unreachable!(),
    };
    [0, 1, 2].map(|c| t[c].to_vec())
}
fn library(i: usize) -> Enc {
    match i {
        1 => Enc::Identity([[280.0, 3160.0, 3160.0], [60.0, 864.0, 864.0], [18.0, 200.0, 200.0]]),
        2 => Enc::Dct2([[3840.0, 2560.0, 1280.0, 640.0, 480.0, 300.0], [960.0, 640.0, 320.0, 180.0, 140.0, 120.0], [640.0, 320.0, 128.0, 64.0, 32.0, 16.0]]),
        3 => Enc::Dct4(def(3), [[1.0; 2]; 3]),
        9 => Enc::Dct48(def(9), [1.0; 3]),
        10 => Enc::Afv(
            def(9),
            def(3),
            [
                [3072.0, 3072.0, 256.0, 256.0, 256.0, 414.0, 0.0, 0.0, 0.0],
                [1024.0, 1024.0, 50.0, 50.0, 50.0, 58.0, 0.0, 0.0, 0.0],
                [384.0, 384.0, 12.0, 12.0, 12.0, 22.0, -0.25, -0.25, -0.25],
            ],
        ),
        _ => Enc::Dct(def(i)),
    }
}
fn mult(v: f64) -> f64 {
    if v > 0.0 { 1.0 + v } else { 1.0 / (1.0 - v) }
}
/// Values of the bands: each is the previous one scaled.
fn bands(p: &[f64]) -> Option<Vec<f64>> {
    let mut b = vec![p[0]];
    for v in &p[1..] {
        b.push(b[b.len() - 1] * mult(*v));
    }
    if b.iter().all(|v| *v >= 1.1e-8) { Some(b) } else { None }
}
/// Geometric interpolation between the bands at this position, with its error.
fn at(b: &[f64], pos: f64) -> V {
    if b.len() == 1 {
        return c(b[0]);
    }
    let i = (pos.floor() as usize).min(b.len() - 2);
    let v = b[i] * (b[i + 1] / b[i]).powf(pos - i as f64);
    let steep = (0..b.len() - 1).map(|j| (b[j + 1] / b[j]).ln().abs()).fold(0.0, f64::max);
    V::new(v, v * (1e-6 + 2e-7 * b.len() as f64 + steep * (pos + 1.0) * 5e-7))
}
fn dct(rows: usize, cols: usize, p: &Bands) -> Option<[Vec<V>; 3]> {
    let mut out: [Vec<V>; 3] = Default::default();
    for ch in 0..3 {
        let b = bands(&p[ch])?;
        let scale = (b.len() - 1) as f64 / (std::f64::consts::SQRT_2 + 1e-6);
        for y in 0..rows {
            for x in 0..cols {
                let d = (x as f64 * scale / (cols - 1) as f64).hypot(y as f64 * scale / (rows - 1) as f64);
                out[ch].push(at(&b, d));
            }
        }
    }
    Some(out)
}
const AFV_FREQ: [f64; 16] = [
    0.0, 0.0, 0.8517778890324296, 5.37778436506804, 0.0, 0.0, 4.734747904497923, 5.449245381693219, 1.6598270267479331, 4.0, 7.275749096817861,
    10.423227632456525, 2.662932286148962, 7.630657783650829, 8.962388608184032, 12.97166202570235,
];
fn weights(i: usize, e: &Enc) -> Option<[Vec<V>; 3]> {
    let (r, co) = (8 * SIZE[i].0, 8 * SIZE[i].1);
    let mut w: [Vec<V>; 3] = [0, 1, 2].map(|_| vec![c(1.0); r * co]);
    match e {
        Enc::Library => return weights(i, &library(i)),
        Enc::Identity(t) => {
            for ch in 0..3 {
                w[ch] = vec![k(t[ch][0]); 64];
                w[ch][1] = k(t[ch][1]);
                w[ch][8] = k(t[ch][1]);
                w[ch][9] = k(t[ch][2]);
            }
        }
        Enc::Dct2(t) => {
            for ch in 0..3 {
                for y in 0..8usize {
                    for x in 0..8usize {
                        // level of the pyramid, and whether both directions are high
                        let l = match x.max(y) {
                            0 => continue,
                            1 => 0,
                            2..4 => 1,
                            _ => 2,
                        };
                        let both = x >= 1 << l && y >= 1 << l;
                        w[ch][y * 8 + x] = k(t[ch][2 * l + both as usize]);
                    }
                }
            }
        }
        Enc::Dct4(p, m) => {
            let q = dct(4, 4, p)?;
            for ch in 0..3 {
                for y in 0..8 {
                    for x in 0..8 {
                        w[ch][y * 8 + x] = q[ch][y / 2 * 4 + x / 2];
                    }
                }
                for (p, f) in [(1, m[ch][0]), (8, m[ch][0]), (9, m[ch][1])] {
                    w[ch][p] = w[ch][p] / c(f);
                }
            }
        }
        Enc::Dct48(p, m) => {
            let q = dct(4, 8, p)?;
            for ch in 0..3 {
                for y in 0..8 {
                    for x in 0..8 {
                        w[ch][y * 8 + x] = q[ch][y / 2 * 8 + x];
                    }
                }
                w[ch][8] = w[ch][8] / c(m[ch]);
            }
        }
        Enc::Dct(p) => w = dct(r, co, p)?,
        Enc::Raw(q, den) => {
            for ch in 0..3 {
                for p in 0..r * co {
                    w[ch][p] = c(1.0) / (c(*den) * c(q[ch * r * co + p] as f64));
                }
            }
        }
        Enc::Afv(p48, p44, t) => {
            let (q8, q4) = (dct(4, 8, p48)?, dct(4, 4, p44)?);
            for ch in 0..3 {
                let b = bands(&t[ch][5..9])?;
                let (lo, hi) = (AFV_FREQ[2], AFV_FREQ[15] - AFV_FREQ[2] + 1e-6);
                for y in 0..8 {
                    for x in 0..8 {
                        w[ch][y * 8 + x] = match (y, x) {
                            (0, 0) => continue,
                            (1, 0) => k(t[ch][0]),
                            (0, 1) => k(t[ch][1]),
                            (2, 0) => k(t[ch][2]),
                            (0, 2) => k(t[ch][3]),
                            (2, 2) => k(t[ch][4]),
                            _ if y % 2 == 1 => q8[ch][y / 2 * 8 + x],
                            _ if x % 2 == 1 => q4[ch][y / 2 * 4 + x / 2],
                            _ => at(&b, (AFV_FREQ[y / 2 * 4 + x / 2] - lo) * 3.0 / hi),
                        };
                    }
                }
            }
        }
    }
    Some(w)
}
/// The matrix: what a coefficient's unit is, in stored order; None if it is not allowed.
pub fn matrix(i: usize, e: &Enc) -> Option<Arc<[Vec<V>; 3]>> {
    static LIB: [OnceLock<Arc<[Vec<V>; 3]>>; 17] = [const { OnceLock::new() }; 17];
    let make = |e: &Enc| {
        let mut w = weights(i, e)?;
        for v in w.iter_mut().flatten() {
            if !(1.1e-8..0.9e8).contains(&v.v) {
                return None;
            }
            *v = c(1.0) / *v;
        }
        Some(Arc::new(w))
    };
    match e {
        Enc::Library => Some(LIB[i].get_or_init(|| make(e).unwrap()).clone()),
        _ => make(e),
    }
}
