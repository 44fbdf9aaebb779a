//! Samples of a lossy frame from what is coded.
use super::dct;
use super::num::*;
use super::quant;
use crate::enc::hdr::*;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Blk {
    pub ty: usize,
    /// in blocks of 8
    pub x: usize,
    pub y: usize,
    pub quant: u32,
    /// sums over the passes, in stored order; none: nothing coded for that channel
    pub q: [Option<Vec<i32>>; 3],
}
#[derive(Clone)]
pub struct VarDct {
    /// size in blocks
    pub bw: usize,
    pub bh: usize,
    pub global_scale: u32,
    pub quant_lf: u32,
    /// units of the lowest frequencies
    pub lf_unit: [V; 3],
    pub color_factor: f64,
    pub base: [f64; 2],
    pub lf_corr: [i64; 2],
    /// quantised lowest frequencies of each channel (of its size), unless they come from another frame
    pub lf: [Vec<i64>; 3],
    pub from_frame: bool,
    /// additional bits by LF group
    pub extra: Vec<u32>,
    pub blocks: Vec<Blk>,
    pub sharp: Vec<u8>,
    /// factors of each 64x64 tile for X and B
    pub corr: [Vec<i64>; 2],
    pub tables: [quant::Enc; 17],
    pub biases: [V; 4],
}
const SIDE: f64 = 0.20345139757231578;
const CORNER: f64 = 0.0334829185968739;
/// Smoothes where that changes no channel by much more than its step.
fn smooth(p: &mut [Plane; 3], step: [V; 3]) {
    let (w, h) = (p[0].w, p[0].h);
    if w <= 2 || h <= 2 {
        return;
    }
    let old = p.clone();
    for y in 1..h - 1 {
        for x in 1..w - 1 {
            let mut gap = c(0.5);
            let mut sm = [c(0.0); 3];
            for i in 0..3 {
                let at = |dx: usize, dy: usize| old[i].at(x + dx - 1, y + dy - 1);
                let corner = at(0, 0) + at(2, 0) + at(0, 2) + at(2, 2);
                let side = at(0, 1) + at(2, 1) + at(1, 0) + at(1, 2);
                sm[i] = corner * k(CORNER) + side * k(SIDE) + at(1, 1) * k(1.0 - 4.0 * (SIDE + CORNER));
                gap = gap.max(((at(1, 1) - sm[i]) / step[i]).abs());
            }
            let f = (c(3.0) - c(4.0) * gap).max(c(0.0));
            for i in 0..3 {
                let mc = old[i].at(x, y);
                p[i].set(x, y, (sm[i] - mc) * f + mc);
            }
        }
    }
}
impl VarDct {
    fn corr(&self, i: usize, f: i64) -> V {
        c(self.base[i]) + c(f as f64) / c(self.color_factor)
    }
    /// What splines and noise take from luma.
    pub fn lf_mix(&self) -> (f64, f64) {
        (self.corr(0, self.lf_corr[0]).v, self.corr(1, self.lf_corr[1]).v)
    }
    /// The image of lowest frequencies, one sample per block.
    fn lf_image(&self, h: &FrameHdr, lf: Option<&[Plane; 3]>) -> [Plane; 3] {
        if self.from_frame {
            return lf.unwrap().clone();
        }
        let inv = c(65536.0) / (c(self.global_scale as f64) * c(self.quant_lf as f64));
        let f = self.lf_unit.map(|u| u * inv);
        let nlx = self.bw.div_ceil(256);
        let size = |i: usize| { let s = h.shift(i); (self.bw >> s.0, self.bh >> s.1) };
        let mut p: [Plane; 3] = [0, 1, 2].map(|i| {
            let (w, hh) = size(i);
            let s = h.shift(i);
            Plane::from_fn(w, hh, |x, y| {
                let e = self.extra[((y << s.1) / 256) * nlx + (x << s.0) / 256];
                c(self.lf[i][y * w + x] as f64) * f[i] * c(1.0 / (1u32 << e) as f64)
            })
        });
        if h.jpeg_up == [0; 3] {
            let m = [self.corr(0, self.lf_corr[0]), self.corr(1, self.lf_corr[1])];
            for k in 0..p[1].d.len() {
                let y = p[1].d[k];
                p[0].d[k] = p[0].d[k] + y * m[0];
                p[2].d[k] = p[2].d[k] + y * m[1];
            }
            if h.flags & FL_SKIP_SMOOTH == 0 {
                smooth(&mut p, f);
            }
        }
        p
    }
    /// Samples of the three channels, of their own sizes.
    pub fn planes(&self, img: &ImageHdr, h: &FrameHdr, lf: Option<&[Plane; 3]>) -> Vec<Plane> {
        let (cw, ch) = h.coded_size(img);
        let lf = self.lf_image(h, lf);
        let mut out: Vec<Plane> = (0..3).map(|i| { let s = h.shift(i); Plane::new(self.bw * 8 >> s.0, self.bh * 8 >> s.1) }).collect();
        let inv = c(65536.0) / c(self.global_scale as f64);
        let qm = |e: u32| { let v = 0.8f64.powi(e as i32 - 2); V::new(v, v * 5e-7) };
        let scale = if img.xyb { [qm(h.xqm), c(1.0), qm(h.bqm)] } else { [c(1.0); 3] };
        let tw = self.bw.div_ceil(8);
        let tables: Vec<std::cell::OnceCell<Arc<[Vec<V>; 3]>>> = vec![Default::default(); 17];
        for b in &self.blocks {
            let (by, bx) = dct::BLOCKS[b.ty];
            let n = by * bx * 64;
            let kind = quant::KIND[b.ty];
            let t = tables[kind].get_or_init(|| quant::matrix(kind, &self.tables[kind]).unwrap());
            let unit = inv / c(b.quant as f64);
            let tile = (b.y / 8) * tw + b.x / 8;
            let dequant = |i: usize| -> Vec<V> {
                let Some(q) = &b.q[i] else { return vec![c(0.0); n] };
                let u = unit * scale[i];
                (0..n)
                    .map(|j| match q[j] {
                        0 => c(0.0),
                        v => {
                            let f = c(v as f64);
                            let f = if v.abs() < 2 { f * self.biases[i] } else { f - self.biases[3] / f };
                            f * (t[i][j] * u)
                        }
                    })
                    .collect()
            };
            let y = dequant(1);
            for i in 0..3 {
                let s = h.shift(i);
                if b.x % (1 << s.0) != 0 || b.y % (1 << s.1) != 0 {
                    continue;
                }
                let co = if i == 1 {
                    y.clone()
                } else {
                    let m = self.corr(i / 2, self.corr[i / 2][tile]);
                    let mut v = dequant(i);
                    for (v, y) in v.iter_mut().zip(&y) {
                        if y.v != 0.0 {
                            *v = *y * m + *v;
                        }
                    }
                    v
                };
                let (px, py) = (b.x >> s.0, b.y >> s.1);
                let mut l = vec![];
                let mut le = 0.0f64;
                for yy in 0..by {
                    for xx in 0..bx {
                        let v = lf[i].at(px + xx, py + yy);
                        l.push(v.v);
                        le = le.max(v.e);
                    }
                }
                let mut st: Vec<f64> = co.iter().map(|v| v.v).collect();
                dct::put_lf(b.ty, &l, &mut st);
                let ce: f64 = co.iter().map(|v| v.e).sum();
                let norm = st.iter().map(|v| v * v).sum::<f64>().sqrt();
                let e = 4.0 * le + 2.0 * ce + 3e-5 * by.max(bx) as f64 * norm + 1e-9;
                let s = dct::inverse(b.ty, &st);
                for yy in 0..by * 8 {
                    for xx in 0..bx * 8 {
                        out[i].set(px * 8 + xx, py * 8 + yy, V::new(s[yy * bx * 8 + xx], e));
                    }
                }
            }
        }
        out.into_iter()
            .enumerate()
            .map(|(i, p)| {
                let s = h.shift(i);
                p.crop(cw.div_ceil(1 << s.0), ch.div_ceil(1 << s.1))
            })
            .collect()
    }
    /// 1/sigma of each block for the edge-preserving filter.
    pub fn sigma(&self, h: &FrameHdr) -> impl Fn(usize, usize) -> V + use<> {
        use crate::enc::bits::half_value;
        let mul = h.filter.sigma.as_ref().map_or(k(0.46), |s| c(half_value(s[0])));
        let lut: Vec<V> = match &h.filter.sharp {
            None => (0..8).map(|i| k(i as f64 / 7.0)).collect(),
            Some(s) => s.iter().map(|&v| c(half_value(v))).collect(),
        };
        let mut quant = vec![0u32; self.bw * self.bh];
        for b in &self.blocks {
            let (by, bx) = dct::BLOCKS[b.ty];
            for y in 0..by {
                for x in 0..bx {
                    quant[(b.y + y) * self.bw + b.x + x] = b.quant;
                }
            }
        }
        let scale = c(65536.0) / c(self.global_scale as f64);
        let s: Vec<V> = quant
            .iter()
            .zip(&self.sharp)
            .map(|(q, s)| {
                let v = mul * scale / c(*q as f64) / k(-1.1715728752538099024) * lut[*s as usize];
                c(1.0) / v.min(c(-1e-4))
            })
            .collect();
        let bw = self.bw;
        move |x, y| s[y * bw + x]
    }
}
