//! The inverse block transforms by definition, in double precision.
use super::afv::BASIS;

/// (rows, columns) in blocks of 8 of each of the 27 transforms.
pub const BLOCKS: [(usize, usize); 27] = [
    (1, 1), (1, 1), (1, 1), (1, 1), (2, 2), (4, 4), (2, 1), (1, 2), (4, 1), (1, 4), (4, 2), (2, 4), (1, 1), (1, 1), (1, 1), (1, 1), (1, 1),
    (1, 1), (8, 8), (8, 4), (4, 8), (16, 16), (16, 8), (8, 16), (32, 32), (32, 16), (16, 32),
];
/// Name by the standard: DCT RxC.
pub const NAMES: [&str; 27] = [
    "DCT8x8", "IDENTITY", "DCT2x2", "DCT4x4", "DCT16x16", "DCT32x32", "DCT16x8", "DCT8x16", "DCT32x8", "DCT8x32", "DCT32x16", "DCT16x32", "DCT4x8",
    "DCT8x4", "AFV0", "AFV1", "AFV2", "AFV3", "DCT64x64", "DCT64x32", "DCT32x64", "DCT128x128", "DCT128x64", "DCT64x128", "DCT256x256",
    "DCT256x128", "DCT128x256",
];
fn basis(n: usize) -> std::sync::Arc<Vec<f64>> {
    use std::sync::*;
    static T: OnceLock<Mutex<std::collections::HashMap<usize, Arc<Vec<f64>>>>> = OnceLock::new();
    T.get_or_init(Default::default)
        .lock()
        .unwrap()
        .entry(n)
        .or_insert_with(|| {
            let mut b = vec![0.0; n * n];
            for k in 0..n {
                for x in 0..n {
                    // reduce the angle exactly: it has period 4n
                    let a = (k * (2 * x + 1)) % (4 * n);
                    let s = if k == 0 { 1.0 } else { std::f64::consts::SQRT_2 };
                    b[k * n + x] = s * (std::f64::consts::PI * a as f64 / (2 * n) as f64).cos();
                }
            }
            Arc::new(b)
        })
        .clone()
}
/// Position in the stored coefficients of vertical frequency v and horizontal frequency u.
pub fn at(rows: usize, cols: usize, v: usize, u: usize) -> usize {
    if rows < cols { v * cols + u } else { u * rows + v }
}
/// Inverse DCT of the stored coefficients: pixels in raster order.
pub fn idct(rows: usize, cols: usize, st: &[f64]) -> Vec<f64> {
    let (bv, bh) = (basis(rows), basis(cols));
    let mut t = vec![0.0; rows * cols]; // [v][x]
    for v in 0..rows {
        let row = &mut t[v * cols..(v + 1) * cols];
        for u in 0..cols {
            let c = st[at(rows, cols, v, u)];
            if c != 0.0 {
                for x in 0..cols {
                    row[x] += c * bh[u * cols + x];
                }
            }
        }
    }
    let mut o = vec![0.0; rows * cols];
    for v in 0..rows {
        let row = &t[v * cols..(v + 1) * cols];
        if row.iter().all(|c| *c == 0.0) {
            continue;
        }
        for y in 0..rows {
            let b = bv[v * rows + y];
            let out = &mut o[y * cols..(y + 1) * cols];
            for x in 0..cols {
                out[x] += b * row[x];
            }
        }
    }
    o
}
/// Forward DCT normalised so that `idct` inverts it; natural layout [v][u].
fn fdct(rows: usize, cols: usize, px: &[f64]) -> Vec<f64> {
    let (bv, bh) = (basis(rows), basis(cols));
    let mut o = vec![0.0; rows * cols];
    for v in 0..rows {
        for u in 0..cols {
            let mut s = 0.0;
            for y in 0..rows {
                for x in 0..cols {
                    s += px[y * cols + x] * bv[v * rows + y] * bh[u * cols + x];
                }
            }
            o[v * cols + u] = s / (rows * cols) as f64;
        }
    }
    o
}
/// What averaging over 8 samples leaves of the k-th basis function of 8n samples.
fn shrink(k: usize, n: usize) -> f64 {
    if k == 0 {
        return 1.0;
    }
    let a = std::f64::consts::PI * k as f64 / (16 * n) as f64;
    (8.0 * a).sin() / (8.0 * a.sin())
}
/// Puts the lowest frequencies, such that averages of 8x8 blocks are `lf`, in the stored coefficients.
pub fn put_lf(ty: usize, lf: &[f64], st: &mut [f64]) {
    let (by, bx) = BLOCKS[ty];
    if (by, bx) == (1, 1) {
        st[0] = lf[0];
        return;
    }
    let f = fdct(by, bx, lf);
    for v in 0..by {
        for u in 0..bx {
            st[at(by * 8, bx * 8, v, u)] = f[v * bx + u] / (shrink(v, by) * shrink(u, bx));
        }
    }
}
fn dcs4(c: &[f64]) -> [f64; 4] {
    let (a, b, d, e) = (c[0], c[1], c[8], c[9]);
    [a + b + d + e, a + b - d - e, a - b + d - e, a - b - d + e]
}
/// Samples (raster order) of a transform block with the given stored coefficients.
pub fn inverse(ty: usize, c: &[f64]) -> Vec<f64> {
    let (by, bx) = BLOCKS[ty];
    let mut o = vec![0.0; 64];
    match ty {
        1 => {
            let dcs = dcs4(c);
            for y in 0..2 {
                for x in 0..2 {
                    let k = |iy: usize, ix: usize| c[(y + iy * 2) * 8 + x + ix * 2];
                    let mut sum = 0.0;
                    for i in 1..16 {
                        sum += k(i / 4, i % 4);
                    }
                    // the sample at (1, 1) is such that the average is the DC
                    let p11 = dcs[y * 2 + x] - sum / 16.0;
                    for iy in 0..4 {
                        for ix in 0..4 {
                            let v = match (iy, ix) {
                                (1, 1) => p11,
                                (0, 0) => p11 + k(1, 1),
                                _ => p11 + k(iy, ix),
                            };
                            o[(y * 4 + iy) * 8 + x * 4 + ix] = v;
                        }
                    }
                }
            }
        }
        2 => {
            let mut t = c[..64].to_vec();
            for s in [2usize, 4, 8] {
                let n = s / 2;
                let prev = t.clone();
                for y in 0..n {
                    for x in 0..n {
                        let (a, b, d, e) = (prev[y * 8 + x], prev[y * 8 + n + x], prev[(y + n) * 8 + x], prev[(y + n) * 8 + n + x]);
                        t[y * 16 + x * 2] = a + b + d + e;
                        t[y * 16 + x * 2 + 1] = a + b - d - e;
                        t[y * 16 + 8 + x * 2] = a - b + d - e;
                        t[y * 16 + 8 + x * 2 + 1] = a - b - d + e;
                    }
                }
            }
            o = t;
        }
        3 => {
            let dcs = dcs4(c);
            for y in 0..2 {
                for x in 0..2 {
                    let mut b = [0.0; 16];
                    for i in 1..16 {
                        b[i] = c[(y + i / 4 * 2) * 8 + x + i % 4 * 2];
                    }
                    b[0] = dcs[y * 2 + x];
                    let p = idct(4, 4, &b);
                    for i in 0..16 {
                        o[(y * 4 + i / 4) * 8 + x * 4 + i % 4] = p[i];
                    }
                }
            }
        }
        12 | 13 => {
            let dcs = [c[0] + c[8], c[0] - c[8]];
            for k in 0..2 {
                let mut b = [0.0; 32];
                for i in 0..32 {
                    b[i] = c[(k + i / 8 * 2) * 8 + i % 8];
                }
                b[0] = dcs[k];
                if ty == 12 {
                    let p = idct(4, 8, &b);
                    o[k * 32..k * 32 + 32].copy_from_slice(&p);
                } else {
                    let p = idct(8, 4, &b);
                    for i in 0..32 {
                        o[i / 4 * 8 + k * 4 + i % 4] = p[i];
                    }
                }
            }
        }
        14..=17 => {
            let (ax, ay) = ((ty - 14) & 1, (ty - 14) / 2);
            // corner: the 4x4 basis, mirrored so that its first sample is the corner of the block
            let mut b = [0.0; 16];
            for i in 0..16 {
                b[i] = c[i / 4 * 16 + i % 4 * 2];
            }
            b[0] = (c[0] + c[8] + c[1]) * 4.0;
            for iy in 0..4 {
                for ix in 0..4 {
                    let (sy, sx) = (if ay == 1 { 3 - iy } else { iy }, if ax == 1 { 3 - ix } else { ix });
                    o[(ay * 4 + iy) * 8 + ax * 4 + ix] = (0..16).map(|j| b[j] * BASIS[j * 16 + sy * 4 + sx]).sum();
                }
            }
            for i in 0..16 {
                b[i] = c[i / 4 * 16 + i % 4 * 2 + 1];
            }
            b[0] = c[0] + c[8] - c[1];
            let p = idct(4, 4, &b);
            for i in 0..16 {
                o[(ay * 4 + i / 4) * 8 + (1 - ax) * 4 + i % 4] = p[i];
            }
            let mut b = [0.0; 32];
            for i in 0..32 {
                b[i] = c[(1 + i / 8 * 2) * 8 + i % 8];
            }
            b[0] = c[0] - c[8];
            let p = idct(4, 8, &b);
            o[(1 - ay) * 32..(1 - ay) * 32 + 32].copy_from_slice(&p);
        }
        _ => o = idct(by * 8, bx * 8, c),
    }
    o
}
