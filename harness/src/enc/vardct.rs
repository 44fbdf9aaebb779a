//! Frames of the lossy mode.
use super::bits::*;
use super::entropy::*;
use super::frame::*;
use super::hdr::*;
use super::make::half_in;
use super::modular::*;
use crate::refr::num::*;
use crate::refr::quant::{self, Enc};
use crate::refr::vardct::*;
use crate::refr::{Source, dct};
use crate::rng::Rng;

const SHAPE: [usize; 27] = [0, 1, 1, 1, 2, 3, 4, 4, 5, 5, 6, 6, 1, 1, 1, 1, 1, 1, 7, 8, 8, 9, 10, 10, 11, 12, 12];
/// (shorter, longer) side in blocks of the 13 coefficient orders
const ORDERS: [(usize, usize); 13] = [(1, 1), (1, 1), (2, 2), (4, 4), (1, 2), (1, 4), (2, 4), (8, 8), (4, 8), (16, 16), (8, 16), (32, 32), (16, 32)];
const DEFAULT_MAP: [u8; 39] = [
    0, 1, 2, 2, 3, 3, 4, 5, 6, 6, 6, 6, 6, 7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14, 7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14,
];
const FREQ: [u32; 64] = [
    0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 15, 16, 16, 17, 17, 18, 18, 19, 19, 20, 20, 21, 21, 22, 22, 23, 23, 23, 23, 24, 24, 24, 24,
    25, 25, 25, 25, 26, 26, 26, 26, 27, 27, 27, 27, 28, 28, 28, 28, 29, 29, 29, 29, 30, 30, 30, 30,
];
const COUNT: [u32; 64] = [
    0, 0, 31, 62, 62, 93, 93, 93, 93, 123, 123, 123, 123, 152, 152, 152, 152, 152, 152, 152, 152, 180, 180, 180, 180, 180, 180, 180, 180, 180, 180, 180,
    180, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206,
    206, 206,
];
/// Zigzag order of the stored coefficients of a block of this many blocks (short x long side): the lowest
/// frequencies come first in raster order, then the diagonals of the stretched square.
pub fn natural_order(short: usize, long: usize) -> Vec<usize> {
    let (n, ratio) = (long * 8, long / short);
    let mut low = vec![];
    let mut rest = vec![];
    for y in 0..short {
        for x in 0..long {
            low.push(y * n + x);
        }
    }
    for d in 0..2 * n - 1 {
        let from = if d >= n { d - n + 1 } else { 0 };
        let to = d.min(n - 1);
        let mut walk = |x: usize| {
            let y = d - x;
            if y % ratio == 0 && !(x < long && y / ratio < short) {
                rest.push(y / ratio * n + x);
            }
        };
        // odd diagonals run the other way
        if d % 2 == 0 {
            (from..=to).for_each(&mut walk);
        } else {
            (from..=to).rev().for_each(&mut walk);
        }
    }
    low.extend(rest);
    low
}
/// Log-uniform in [lo, hi].
fn log_uniform(r: &mut Rng, lo: f64, hi: f64) -> f64 {
    (lo.ln() + (hi.ln() - lo.ln()) * r.f64()).exp()
}
struct CtxMap {
    lf: [Vec<i64>; 3],
    qf: Vec<u32>,
    map: Vec<u8>,
    default: bool,
}
impl CtxMap {
    fn random(r: &mut Rng, lf: &[Vec<i64>; 3]) -> CtxMap {
        if r.chance(1, 3) {
            return CtxMap { lf: Default::default(), qf: vec![], map: DEFAULT_MAP.to_vec(), default: true };
        }
        let (mut t, mut q): ([Vec<i64>; 3], Vec<u32>);
        loop {
            let mut n = || [0, 0, 1, 2, 3, 15][r.below(6)];
            let ns = [n(), n(), n(), n()];
            if (ns[0] + 1) * (ns[1] + 1) * (ns[2] + 1) * (ns[3] + 1) > 64 {
                continue;
            }
            t = [0, 1, 2].map(|i| {
                (0..ns[i])
                    .map(|_| {
                        let v = if lf[i].is_empty() { 0 } else { *r.pick(&lf[i]) } + if r.bool() { 0 } else { r.range(-3, 3) };
                        if r.chance(1, 10) { r.range(-70000, 70000) } else { v.clamp(-2000000000, 2000000000) }
                    })
                    .collect()
            });
            q = (0..ns[3]).map(|_| { let m = if r.bool() { 20 } else { 256 }; 1 + r.below(m) as u32 }).collect();
            if r.chance(3, 4) {
                t.iter_mut().for_each(|v| v.sort());
                q.sort();
            }
            break;
        }
        let size = 39 * t.iter().map(|v| v.len() + 1).product::<usize>() * (q.len() + 1);
        let n = 1 + r.below(16);
        let mut map: Vec<u8> = (0..size).map(|_| r.below(n) as u8).collect();
        let mut used: Vec<u8> = map.clone();
        used.sort();
        used.dedup();
        for m in &mut map {
            *m = used.iter().position(|u| u == m).unwrap() as u8;
        }
        CtxMap { lf: t, qf: q, map, default: false }
    }
    fn n(&self) -> usize {
        *self.map.iter().max().unwrap() as usize + 1
    }
    fn write(&self, b: &mut Bw, r: &mut Rng) {
        b.bit(self.default);
        if self.default {
            return;
        }
        for t in &self.lf {
            b.put(4, t.len() as u64);
            for v in t {
                let u = pack_signed(*v);
                let ok: Vec<(u64, usize, u64)> = [(0, 4, 0), (1, 8, 16), (2, 16, 272), (3, 32, 65808)].into_iter().filter(|o| u >= o.2 && (u - o.2) >> o.1 == 0).collect();
                let o = *r.pick(&ok);
                b.put(2, o.0);
                b.put(o.1, u - o.2);
            }
        }
        b.put(4, self.qf.len() as u64);
        for v in &self.qf {
            b.u2s(r, [D::B(2, 1), D::B(3, 5), D::B(5, 13), D::B(8, 45)], *v);
        }
        write_ctx_map(&self.map, b, r);
    }
    fn lf_idx(&self, v: [i64; 3]) -> usize {
        let n = |i: usize| self.lf[i].iter().filter(|t| v[i] > **t).count();
        (n(0) * (self.lf[2].len() + 1) + n(2)) * (self.lf[1].len() + 1) + n(1)
    }
    fn ctx(&self, c: usize, shape: usize, quant: u32, lf: usize) -> usize {
        let nlf: usize = self.lf.iter().map(|v| v.len() + 1).product();
        let qi = self.qf.iter().filter(|t| quant > **t).count();
        self.map[(([1, 0, 2][c] * 13 + shape) * (self.qf.len() + 1) + qi) * nlf + lf] as usize
    }
}
fn bands(r: &mut Rng, b: &mut Bw) -> quant::Bands {
    let n = if r.chance(1, 4) { 1 + r.below(16) } else { 1 + r.below(8) };
    b.put(4, n as u64 - 1);
    [0, 1, 2].map(|_| {
        (0..n)
            .map(|i| {
                let v = if i == 0 { to_half(log_uniform(r, 1.0, 200.0)) } else { half_in(r, -1.5, 0.6) };
                b.f16(v);
                half_value(v) * if i == 0 { 64.0 } else { 1.0 }
            })
            .collect()
    })
}
/// A random matrix and its coding.
fn random_matrix(r: &mut Rng, i: usize, tree: Option<&Tree>, streams: usize, id: usize) -> Result<(Bw, Enc, Option<Sub>), Blow> {
    let mut b = Bw::new();
    let one = quant::SIZE[i] == (1, 1);
    let size = quant::SIZE[i].0 * quant::SIZE[i].1 * 64;
    let mut mode = if one { r.below(8) } else { [0, 0, 6, 7][r.below(4)] };
    if mode == 7 && size > 4096 && !r.chance(1, 20) {
        mode = 0;
    }
    if r.chance(1, 3) {
        mode = 0;
    }
    b.put(3, mode as u64);
    let put = |b: &mut Bw, v: u16| { b.f16(v); half_value(v) };
    let e = match mode {
        1 => Enc::Identity([0; 3].map(|_| [0; 3].map(|_| put(&mut b, to_half(log_uniform(r, 0.3, 60.0))) * 64.0))),
        2 => Enc::Dct2([0; 3].map(|_| [0; 6].map(|_| put(&mut b, to_half(log_uniform(r, 0.3, 60.0))) * 64.0))),
        3 => {
            let m = [0; 3].map(|_| [0; 2].map(|_| put(&mut b, to_half(log_uniform(r, 0.3, 3.0)))));
            Enc::Dct4(bands(r, &mut b), m)
        }
        4 => {
            let m = [0; 3].map(|_| put(&mut b, to_half(log_uniform(r, 0.3, 3.0))));
            Enc::Dct48(bands(r, &mut b), m)
        }
        5 => {
            let mut w = [[0.0; 9]; 3];
            for row in &mut w {
                for (j, v) in row.iter_mut().enumerate() {
                    *v = if j < 6 { put(&mut b, to_half(log_uniform(r, 0.3, 60.0))) * 64.0 } else { put(&mut b, half_in(r, -1.5, 0.6)) };
                }
            }
            let p = bands(r, &mut b);
            Enc::Afv(p, bands(r, &mut b), w)
        }
        6 => Enc::Dct(bands(r, &mut b)),
        7 => {
            let d = to_half(log_uniform(r, 1e-5, 1e-4));
            b.f16(d);
            let (h, w) = (quant::SIZE[i].0 * 8, quant::SIZE[i].1 * 8);
            let hi = [8, 60, 255, 2000][r.below(4)];
            let infos = vec![Info::sample(h, w, Some((0, 0)), 1, hi); 3];
            let (sub, ch) = gen_sub(r, &infos, &SubCfg { global: tree, id, bits: 8, wide: false, max_transforms: 0, streams })?;
            let q: Vec<i64> = ch.iter().flat_map(|c| c.data.iter().copied()).collect();
            if q.iter().any(|v| *v <= 0 || *v > 1 << 20) {
                return Err(Blow);
            }
            return Ok((b, Enc::Raw(q, half_value(d)), Some(sub)));
        }
        _ => Enc::Library,
    };
    if mode != 0 && quant::matrix(i, &e).is_none() {
        return Err(Blow);
    }
    Ok((b, e, None))
}
/// Chooses transforms for a rectangle of blocks, which must not cross the edges of 32x32 blocks.
fn layout(r: &mut Rng, w: usize, h: usize, small: bool) -> Vec<(usize, usize, usize)> {
    let style = r.below(6);
    let mut fav = r.below(27);
    if w.min(h) >= 16 && r.chance(2, 3) {
        // one of the largest
        let v: Vec<usize> = (0..27).filter(|&t| dct::BLOCKS[t].0 * dct::BLOCKS[t].1 >= 128 && dct::BLOCKS[t].0 <= h && dct::BLOCKS[t].1 <= w).collect();
        fav = *r.pick(&v);
    }
    let mut used = vec![false; w * h];
    let mut out = vec![];
    for y in 0..h {
        for x in 0..w {
            if used[y * w + x] {
                continue;
            }
            let fits = |t: usize| {
                let (by, bx) = dct::BLOCKS[t];
                if small && by * bx > 1 {
                    return false;
                }
                x + bx <= w.min((x / 32 + 1) * 32) && y + by <= h.min((y / 32 + 1) * 32) && (0..by).all(|j| (0..bx).all(|i| !used[(y + j) * w + x + i]))
            };
            let ok: Vec<usize> = (0..27).filter(|&t| fits(t)).collect();
            let mut t = match style {
                0 => 0,
                1 | 2 => *r.pick(&ok),
                3 => *ok.iter().max_by_key(|&&t| (dct::BLOCKS[t].0 * dct::BLOCKS[t].1, (t * 7 + x + y) % 5)).unwrap(),
                4 => if ok.contains(&fav) { fav } else { *r.pick(&ok) },
                _ => {
                    let v: Vec<usize> = ok.iter().copied().filter(|&t| dct::BLOCKS[t].0.max(dct::BLOCKS[t].1) <= 4).collect();
                    *r.pick(&v)
                }
            };
            if !ok.contains(&t) {
                t = 0;
            }
            let (by, bx) = dct::BLOCKS[t];
            for j in 0..by {
                for i in 0..bx {
                    used[(y + j) * w + x + i] = true;
                }
            }
            out.push((t, x, y));
        }
    }
    out
}
struct Extra {
    streams: Vec<Stream>,
}
impl Extra {
    fn take(&mut self, s: &mut Sub) -> Option<usize> {
        if s.use_global && !s.empty {
            self.streams.push(std::mem::take(&mut s.stream));
            Some(self.streams.len() - 1)
        } else {
            None
        }
    }
}
/// A lossy frame. `lf_frame`: the lowest frequencies, if another frame holds them.
pub fn vardct_frame(r: &mut Rng, img: &ImageHdr, h: &FrameHdr, f: &Features, o: &ModOpts) -> Result<(Vec<u8>, Source, Vec<String>, FrameInfo), Blow> {
    assert!(!h.modular);
    let mut tags: Vec<String> = vec![];
    let (mut d, ecs) = gen_modular(r, img, h, o)?;
    let (ng, nl) = (h.num_groups(img), h.num_lf_groups(img));
    let (ngroups, nlf, np) = (ng.0 * ng.1, nl.0 * nl.1, h.passes.num as usize);
    let streams = 1 + 3 * nlf + 17 + np * ngroups;
    let (bw, bh) = h.blocks(img);
    let subsampled = h.jpeg_up != [0; 3];
    let bits = img.depth.bits;
    if ecs.is_empty() && r.chance(5, 6) {
        d.tree = Some(Tree::random(r, &TreeCfg { channels: 4, streams, w: bw, h: bh, amp: 1000, wide: false }));
    }
    let tree = d.tree.clone();
    let mut ex = Extra { streams: vec![] };

    // units
    let global_scale = log_uniform(r, 300.0, 73728.0) as u32;
    let target = log_uniform(r, 3e3, 3e6);
    let quant_lf = (target / global_scale as f64).clamp(1.0, 65536.0) as u32;
    let lf_unit: [V; 3] = match &f.lf_quant {
        None => [1.0 / 4096.0, 1.0 / 512.0, 1.0 / 256.0].map(c),
        Some(q) => q.map(|b| c(half_value(b) / 128.0)),
    };
    let mut v = VarDct {
        bw,
        bh,
        global_scale,
        quant_lf,
        lf_unit,
        color_factor: 84.0,
        base: [0.0, 1.0],
        lf_corr: [0, 0],
        lf: Default::default(),
        from_frame: h.flags & FL_USE_LF != 0,
        extra: vec![0; nlf],
        blocks: vec![],
        sharp: vec![0; bw * bh],
        corr: [0, 1].map(|_| vec![0; bw.div_ceil(8) * bh.div_ceil(8)]),
        tables: [const { Enc::Library }; 17],
        biases: match &img.custom.opsin {
            None => [k(1.0 - 0.05465007330715401), k(1.0 - 0.07005449891748593), k(1.0 - 0.049935103337343655), k(0.145)],
            Some(o) => [12, 13, 14, 15].map(|i| c(half_value(o[i]))),
        },
    };
    // (whether subsampled channels are predicted from luma is not settled)
    let mut cfl = Bw::new();
    let default_cfl = !subsampled && img.xyb && r.bool();
    cfl.bit(default_cfl);
    if !default_cfl {
        let fac = if r.bool() { 84 } else { [256, 2 + r.below(256), 258 + r.below(65536)][r.below(3)] } as u32;
        v.color_factor = fac as f64;
        cfl.u2s(r, [D::V(84), D::V(256), D::B(8, 2), D::B(16, 258)], fac);
        let base = if subsampled { [0, 0] } else if img.xyb && r.bool() { [0, to_half(1.0)] } else { [half_in(r, -0.5, 0.5), half_in(r, -1.0, 1.5)] };
        v.base = base.map(half_value);
        cfl.f16(base[0]);
        cfl.f16(base[1]);
        for i in 0..2 {
            v.lf_corr[i] = if subsampled { 0 } else if r.chance(1, 4) { r.range(-128, 127) } else { r.range(-20, 20) };
            cfl.put(8, (v.lf_corr[i] + 128) as u64);
        }
        tags.push("custom colour correlation".into());
    }
    let mut quantizer = Bw::new();
    quantizer.u2s(r, [D::B(11, 1), D::B(11, 2049), D::B(12, 4097), D::B(16, 8193)], global_scale);
    quantizer.u2s(r, [D::V(16), D::B(5, 1), D::B(8, 1), D::B(16, 1)], quant_lf);

    // LF groups
    let inv = 65536.0 / (global_scale as f64 * quant_lf as f64);
    let mut lf_sec: Vec<Bw> = vec![];
    let mut lf_subs: Vec<Option<(Sub, Option<usize>)>> = vec![];
    let mut meta: Vec<(Bw, Sub, Option<usize>)> = vec![];
    let size = |i: usize| { let s = h.shift(i); (bw >> s.0, bh >> s.1) };
    for i in 0..3 {
        v.lf[i] = vec![0; size(i).0 * size(i).1];
    }
    let qmax = if r.bool() { 20 } else { 256 };
    let quant_style = (r.below(3), 1 + r.below(qmax) as i64);
    for g in 0..nlf {
        let (gx, gy) = (g % nl.0 * 256, g / nl.0 * 256);
        let (gw, gh) = ((bw - gx).min(256), (bh - gy).min(256));
        let mut b = Bw::new();
        if !v.from_frame {
            let e = if r.bool() { 0 } else { r.below(4) } as u32;
            v.extra[g] = e;
            b.put(2, e as u64);
            let mul = (1 << e) as f64;
            let range = |i: usize, lo: f64, hi: f64| {
                let u = v.lf_unit[i].v * inv / mul;
                ((lo / u).round() as i64, (hi / u).round() as i64)
            };
            let rg = if img.xyb {
                [range(0, -0.02, 0.02), range(1, 0.0, 0.75), range(2, -0.25, 0.25)]
            } else if h.ycbcr {
                [range(0, -0.3, 0.3), range(1, -0.55, 0.55), range(2, -0.3, 0.3)]
            } else {
                [range(0, -0.1, 1.1), range(1, 0.0, 1.0), range(2, -0.1, 1.1)]
            };
            let infos: Vec<Info> = [1, 0, 2]
                .into_iter()
                .map(|i| {
                    let s = h.shift(i);
                    Info::sample(gw >> s.0, gh >> s.1, Some((0, 0)), rg[i].0, rg[i].1)
                })
                .collect();
            let mt = if r.chance(3, 4) { 0 } else { 2 };
            let (mut sub, ch) = gen_sub(r, &infos, &SubCfg { global: tree.as_ref(), id: 1 + g, bits, wide: false, max_transforms: mt, streams })?;
            for (c, i) in ch.iter().zip([1, 0, 2]) {
                let s = h.shift(i);
                let (ox, oy) = (gx >> s.0, gy >> s.1);
                for y in 0..c.h {
                    for x in 0..c.w {
                        v.lf[i][(oy + y) * size(i).0 + ox + x] = c.at(x, y);
                    }
                }
            }
            let ix = ex.take(&mut sub);
            lf_subs.push(Some((sub, ix)));
        } else {
            lf_subs.push(None);
        }
        lf_sec.push(b);
        // metadata
        let blocks = layout(r, gw, gh, subsampled);
        let n = blocks.len();
        let mut b = Bw::new();
        b.put(ceil_log2(gw * gh), n as u64 - 1);
        let (tw, th) = (gw.div_ceil(8), gh.div_ceil(8));
        let small = if subsampled || r.chance(1, 4) { 0 } else if r.bool() { 15 } else { 140 };
        let mut ch = vec![
            fill(r, &Info::sample(tw, th, Some((3, 3)), -small, small)),
            fill(r, &Info::sample(tw, th, Some((3, 3)), -small, small)),
            Chan::new(n, 2, Some((0, 0))),
            fill(r, &Info::sample(gw, gh, Some((0, 0)), 0, 7)),
        ];
        let q = fill(r, &Info::sample(n, 1, Some((0, 0)), 0, quant_style.1 - 1));
        for (k, t) in blocks.iter().enumerate() {
            ch[2].data[k] = t.0 as i64;
            let mut qv = match quant_style.0 {
                0 => quant_style.1 - 1,
                _ => q.data[k],
            };
            if r.chance(1, 300) {
                // clamped
                qv = [-5, 256, 4000, 255, 0][r.below(5)];
            }
            ch[2].data[n + k] = qv;
        }
        let plain = tree.as_ref().is_some_and(|t| t.nodes.iter().all(|n| !matches!(n, Node::Leaf { mult: 2.., .. })));
        let local = if plain && r.chance(3, 4) {
            None
        } else {
            let mut t = Tree::random(r, &TreeCfg { channels: 4, streams, w: gw.max(n), h: gh, amp: 30, wide: false });
            for n in &mut t.nodes {
                if let Node::Leaf { mult, .. } = n {
                    *mult = 1;
                }
            }
            Some(t)
        };
        let wp = Wp::random(r);
        let mut toks = vec![];
        let mult = code_channels(&mut ch, local.as_ref().or(tree.as_ref()).unwrap(), &wp, 1 + 2 * nlf + g, false, &mut toks)?;
        let mut sub = Sub { use_global: local.is_none(), wp, trs: vec![], local, stream: Stream { toks, mult }, empty: false, has_header: true, copies: 0 };
        for y in 0..th {
            for x in 0..tw {
                for i in 0..2 {
                    v.corr[i][(gy / 8 + y) * bw.div_ceil(8) + gx / 8 + x] = ch[i].at(x, y).clamp(-128, 127);
                }
            }
        }
        for y in 0..gh {
            for x in 0..gw {
                v.sharp[(gy + y) * bw + gx + x] = ch[3].at(x, y) as u8;
            }
        }
        for (k, t) in blocks.iter().enumerate() {
            v.blocks.push(Blk { ty: t.0, x: gx + t.1, y: gy + t.2, quant: 1 + ch[2].at(k, 1).clamp(0, 255) as u32, q: [None, None, None] });
        }
        let ix = ex.take(&mut sub);
        meta.push((b, sub, ix));
    }
    let map = if v.from_frame { CtxMap::random(r, &Default::default()) } else { CtxMap::random(r, &v.lf) };
    let nctx = map.n();
    if !map.default {
        tags.push("custom block contexts".into());
    }

    // matrices
    let mut quant_tables = vec![];
    let default_tables = r.chance(2, 3);
    if !default_tables {
        tags.push("custom dequantisation matrices".into());
        for i in 0..17 {
            let (b, e, mut sub) = random_matrix(r, i, tree.as_ref(), streams, 1 + 3 * nlf + i)?;
            let ix = sub.as_mut().and_then(|s| ex.take(s));
            tags.push(format!("matrix coding {}", match e { Enc::Library => "library", Enc::Identity(_) => "identity", Enc::Dct2(_) => "DCT2", Enc::Dct4(..) => "DCT4", Enc::Dct48(..) => "DCT4x8", Enc::Afv(..) => "AFV", Enc::Dct(_) => "DCT", Enc::Raw(..) => "raw" }));
            v.tables[i] = e;
            quant_tables.push((b, sub, ix));
        }
    }
    // coefficients
    let nhist = 1 + if r.bool() { 0 } else { r.below(ngroups.min(6)) };
    let hists: Vec<Vec<usize>> = (0..np).map(|_| (0..ngroups).map(|_| r.below(nhist)).collect()).collect();
    let natural: Vec<std::cell::OnceCell<Vec<usize>>> = vec![Default::default(); 13];
    let amp = log_uniform(r, 0.002, 0.12);
    let busy = [0, 3, 10, 30, 70][r.below(5)];
    let dense = r.below(4);
    let mats: Vec<std::cell::OnceCell<_>> = vec![Default::default(); 17];
    let mut passes: Vec<Bw> = vec![];
    let mut codes: Vec<Code> = vec![];
    for p in 0..np {
        let shift = h.passes.shift.get(p).copied().unwrap_or(0);
        // orders
        let mut b = Bw::new();
        let mut used = 0u32;
        if r.chance(1, 2) {
            for i in 0..13 {
                if r.chance(1, 3) {
                    used |= 1 << i;
                }
            }
            if r.chance(1, 3) {
                used = [0x5f, 0x13][r.below(2)];
            }
        }
        b.u2s(r, [D::V(0x5f), D::V(0x13), D::V(0), D::B(13, 0)], used);
        let mut orders: Vec<Option<Vec<usize>>> = vec![None; 39];
        if used != 0 {
            tags.push("custom coefficient orders".into());
            let mut toks = vec![];
            for i in (0..13).filter(|i| used >> i & 1 == 1) {
                let skip = ORDERS[i].0 * ORDERS[i].1;
                let n = skip * 64;
                let nat = natural[i].get_or_init(|| natural_order(ORDERS[i].0, ORDERS[i].1));
                for c in 0..3 {
                    let mut perm: Vec<usize> = (0..n).collect();
                    match r.below(3) {
                        0 => {}
                        1 => {
                            for _ in 0..1 + r.below(8) {
                                let m = n.min(skip + 300);
                                let (a, b) = (skip + r.below(m - skip), skip + r.below(m - skip));
                                perm.swap(a, b);
                            }
                        }
                        _ => {
                            let m = n.min(1024).max(skip + 2).min(n);
                            r.shuffle(&mut perm[skip..m]);
                        }
                    }
                    toks.extend(permutation_toks(r, &perm, skip));
                    orders[3 * i + c] = Some(perm.iter().map(|&k| nat[k]).collect());
                }
            }
            let s = Stream { toks, mult: 0 };
            let c = Code::build(r, 8, std::slice::from_ref(&s), &Knobs::default());
            c.write_header(&mut b, r);
            c.write_stream(&mut b, 0);
        }
        // what is coded
        let mut counts: Vec<Vec<u32>> = (0..3).map(|i| vec![0; size(i).0 * size(i).1]).collect();
        let mut sec: Vec<Vec<Tok>> = vec![vec![]; ngroups];
        let mut ids: Vec<usize> = (0..v.blocks.len()).collect();
        // raster order within the group
        ids.sort_by_key(|&i| (v.blocks[i].y, v.blocks[i].x));
        let lens: Vec<(usize, usize)> = (0..3).map(|i| size(i)).collect();
        for id in ids {
            let bl = v.blocks[id].clone();
            let (by, bx) = dct::BLOCKS[bl.ty];
            let nb = by * bx;
            let n = nb * 64;
            let (gx, gy) = (bl.x / 32, bl.y / 32);
            let toks = &mut sec[gy * ng.0 + gx];
            let off = (hists[p][gy * ng.0 + gx] * nctx * 495) as u32;
            let shape = SHAPE[bl.ty];
            let lfv = [0, 1, 2].map(|i| {
                if v.from_frame {
                    return i64::MIN;
                }
                let s = h.shift(i);
                v.lf[i][(bl.y >> s.1) * size(i).0 + (bl.x >> s.0)]
            });
            let lfi = if v.from_frame { 0 } else { map.lf_idx(lfv) };
            for ch in [1, 0, 2] {
                let s = h.shift(ch);
                if bl.x % (1 << s.0) != 0 || bl.y % (1 << s.1) != 0 {
                    continue;
                }
                let (x, y) = (bl.x >> s.0, bl.y >> s.1);
                let bc = map.ctx(ch, shape, bl.quant, lfi);
                let w = lens[ch].0;
                // neighbours within the group
                let (gx0, gy0) = (gx * 32 >> s.0, gy * 32 >> s.1);
                let left = if x > gx0 { Some(counts[ch][y * w + x - 1]) } else { None };
                let top = if y > gy0 { Some(counts[ch][(y - 1) * w + x]) } else { None };
                let pred = match (left, top) {
                    (None, None) => 32,
                    (Some(l), None) => l,
                    (None, Some(t)) => t,
                    (Some(l), Some(t)) => (l + t).div_ceil(2),
                };
                let nz_ctx = if pred < 8 { pred } else if pred < 64 { 4 + pred / 2 } else { 36 };
                // draw
                let kind = quant::KIND[bl.ty];
                let mat: &std::sync::Arc<[Vec<V>; 3]> = mats[kind].get_or_init(|| quant::matrix(kind, &v.tables[kind]).unwrap());
                let unit = 65536.0 / global_scale as f64 / bl.quant as f64 * if img.xyb { 0.8f64.powi([h.xqm, 2, h.bqm][ch] as i32 - 2) } else { 1.0 };
                let order: &[usize] = match &orders[3 * shape + ch] {
                    Some(o) => o,
                    None => natural[shape].get_or_init(|| natural_order(ORDERS[shape].0, ORDERS[shape].1)),
                };
                let want = if !crate::enc::movie::pct(r, busy) {
                    0
                } else {
                    match dense {
                        0 => r.below(4),
                        1 => r.below(12 * nb + 1),
                        2 => r.below(n - nb + 1),
                        _ => [1, 3, n / 16 + r.below(3), n - nb][r.below(4)],
                    }
                    .min(if nb > 64 { 600 } else { 4000 })
                };
                let limit = if r.chance(2, 3) { (nb + 2 * want).min(n) } else { n };
                let mut q: Vec<(usize, i32)> = vec![];
                let ch_amp = amp * if img.xyb { [0.1, 1.0, 0.6][ch] } else { 0.7 };
                for _ in 0..want {
                    let kk = nb + r.below(limit - nb);
                    let st = mat[ch][order[kk]].v * unit * (1u32 << shift) as f64;
                    let a = ch_amp * (0.2 + r.f64()) / (1.0 + (kk / nb) as f64 / 8.0) / (1.0 + want as f64 / (8 * nb) as f64);
                    let m = (a / st).round().clamp(0.0, 8000.0) as i32;
                    let m = if m == 0 && st < 0.25 && r.chance(1, 3) { 1 } else { m };
                    if m != 0 {
                        q.push((kk, if r.bool() { m } else { -m }));
                    }
                }
                q.sort();
                q.dedup_by_key(|t| t.0);
                let nz = q.len();
                toks.push(Tok { ctx: off + nz_ctx * nctx as u32 + bc as u32, val: nz as u32 });
                for j in 0..by {
                    for i in 0..bx {
                        counts[ch][(y + j) * w + x + i] = nz.div_ceil(nb) as u32;
                    }
                }
                let base = off + (nctx * 37 + 458 * bc) as u32;
                let mut left = nz;
                let mut prev = (nz <= n / 16) as u32;
                let mut it = q.iter().peekable();
                let mut kk = nb;
                while left > 0 {
                    let val = it.next_if(|t| t.0 == kk).map_or(0, |t| t.1);
                    let ctx = base + (COUNT[left.div_ceil(nb)] + FREQ[kk / nb]) * 2 + prev;
                    toks.push(Tok { ctx, val: pack_signed(val as i64) as u32 });
                    prev = (val != 0) as u32;
                    left -= prev as usize;
                    if val != 0 {
                        v.blocks[id].q[ch].get_or_insert_with(|| vec![0; n])[order[kk]] += val << shift;
                    }
                    kk += 1;
                }
            }
        }
        let streams: Vec<Stream> = sec.into_iter().map(|toks| Stream { toks, mult: 0 }).collect();
        let code = Code::build(r, nhist * nctx * 495, &streams, &Knobs::default());
        code.write_header(&mut b, r);
        codes.push(code);
        passes.push(b);
    }
    for b in &v.blocks {
        tags.push(format!("transform {}", dct::NAMES[b.ty]));
    }
    tags.sort();
    tags.dedup();

    // put together
    let g = d.global_code(r, std::mem::take(&mut ex.streams));
    let sub = |b: &mut Bw, r: &mut Rng, s: &Sub, ix: Option<usize>| s.write(b, r, ix.map(|i| (g.code().unwrap(), i)));
    let mut sections: Vec<Bw> = vec![];
    let mut b = Bw::new();
    f.write(&mut b, h);
    b.append(&quantizer);
    map.write(&mut b, r);
    b.append(&cfl);
    g.write_tree(&mut b, r);
    g.write_sub(&mut b, r, &d, 0);
    sections.push(b);
    for i in 0..nlf {
        let mut b = Bw::new();
        if let Some((s, ix)) = &lf_subs[i] {
            b.append(&lf_sec[i]);
            sub(&mut b, r, s, *ix);
        }
        g.write_sub(&mut b, r, &d, 1 + i);
        let (m, s, ix) = &meta[i];
        b.append(m);
        sub(&mut b, r, s, *ix);
        sections.push(b);
    }
    let mut b = Bw::new();
    b.bit(default_tables);
    for (t, s, ix) in &quant_tables {
        b.append(t);
        if let Some(s) = s {
            sub(&mut b, r, s, *ix);
        }
    }
    b.put(ceil_log2(ngroups), nhist as u64 - 1);
    for p in &passes {
        b.append(p);
    }
    sections.push(b);
    for p in 0..np {
        for i in 0..ngroups {
            let mut b = Bw::new();
            b.put(ceil_log2(nhist), hists[p][i] as u64);
            codes[p].write_stream(&mut b, i);
            g.write_sub(&mut b, r, &d, 1 + nlf + p * ngroups + i);
            sections.push(b);
        }
    }
    let mut info = d.info;
    let bytes = assemble(r, img, h, sections, o.permute, &mut info);
    if v.from_frame {
        tags.push(format!("lowest frequencies from an LF frame of level {}", h.lf_level + 1));
    }
    Ok((bytes, Source::Lossy(std::sync::Arc::new(v), ecs), tags, info))
}
