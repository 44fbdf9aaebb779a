//! Frames: sections, table of contents, modular image data.
use super::bits::*;
use super::entropy::*;
use super::hdr::*;
use super::modular::*;
use crate::rng::Rng;

#[derive(Default, Clone)]
pub struct Features {
    pub patches: Option<Bw>,
    pub splines: Option<Bw>,
    pub noise: Option<[u32; 8]>,
    /// half floats
    pub lf_quant: Option<[u16; 3]>,
}
impl Features {
    pub fn write(&self, b: &mut Bw, h: &FrameHdr) {
        if h.flags & FL_PATCHES != 0 {
            b.append(self.patches.as_ref().unwrap());
        }
        if h.flags & FL_SPLINES != 0 {
            b.append(self.splines.as_ref().unwrap());
        }
        if h.flags & FL_NOISE != 0 {
            for v in self.noise.unwrap() {
                b.put(10, v as u64);
            }
        }
        b.bit(self.lf_quant.is_none());
        for v in self.lf_quant.iter().flatten() {
            b.f16(*v);
        }
    }
}
#[derive(Clone, Debug)]
pub struct ModOpts {
    pub max_transforms: usize,
    pub group_transforms: usize,
    /// ranges of the colour channels' and extra channels' samples
    pub lo: i64,
    pub hi: i64,
    pub ec: Vec<(i64, i64)>,
    pub vals: Option<std::sync::Arc<Vec<i64>>>,
    pub ec_vals: Vec<Option<std::sync::Arc<Vec<i64>>>>,
    pub wide: bool,
    pub permute: bool,
    /// ranges of the single colour channels, if they differ
    pub color: Option<[(i64, i64); 3]>,
}
#[derive(Clone, Debug, Default)]
pub struct FrameInfo {
    pub transforms: String,
    pub tree: &'static str,
    pub sections: usize,
    pub permuted: bool,
    pub local_trees: usize,
    pub local_transforms: usize,
    pub lz: bool,
    pub copies: usize,
    pub samples: usize,
    /// bytes: header and TOC, then each section in stream order
    pub layout: Vec<usize>,
}
/// The pieces of the modular image as they go to the sections.
pub struct ModData {
    pub subs: Vec<Option<Sub>>,
    pub(super) tree: Option<Tree>,
    pub info: FrameInfo,
}

/// Channels of the frame's modular image before any transform.
pub fn frame_channels(img: &ImageHdr, h: &FrameHdr, o: &ModOpts) -> Vec<Info> {
    let mut v = vec![];
    let (w, hh) = h.coded_size(img);
    if h.modular {
        let n = if img.xyb || h.ycbcr { 3 } else { img.ncolor() };
        for c in 0..n {
            let s = if h.ycbcr { h.shift(c) } else { (0, 0) };
            let (lo, hi) = o.color.map_or((o.lo, o.hi), |k| k[c]);
            let mut i = Info::sample(w.div_ceil(1 << s.0), hh.div_ceil(1 << s.1), Some(s), lo, hi);
            i.vals = o.vals.clone();
            v.push(i);
        }
    }
    let (uw, uh) = (w * h.upsampling as usize, hh * h.upsampling as usize);
    let (fw, fh) = h.canvas_size(img);
    let _ = (uw, uh);
    for (i, e) in img.ecs.iter().enumerate() {
        let up = (h.ec_up[i] << e.dim_shift) as usize;
        let s = (up.trailing_zeros() - h.upsampling.trailing_zeros()) as usize;
        let mut inf = Info::sample(fw.div_ceil(up), fh.div_ceil(up), Some((s, s)), o.ec[i].0, o.ec[i].1);
        inf.vals = o.ec_vals[i].clone();
        v.push(inf);
    }
    v
}
/// Where the sections' tiles of a channel lie: (x0, y0, w, h).
fn tile(c: &Info, dim: usize, gx: usize, gy: usize) -> (usize, usize, usize, usize) {
    let s = c.shift.unwrap();
    let (dw, dh) = (dim >> s.0, dim >> s.1);
    let (x, y) = (gx * dw, gy * dh);
    let w = c.w.saturating_sub(x).min(dw);
    let h = c.h.saturating_sub(y).min(dh);
    if w == 0 || h == 0 { (0, 0, 0, 0) } else { (x, y, w, h) }
}
/// Draws a modular image; returns what to write and the decoded channels.
pub fn gen_modular(r: &mut Rng, img: &ImageHdr, h: &FrameHdr, o: &ModOpts) -> Result<(ModData, Vec<Chan>), Blow> {
    let infos = frame_channels(img, h, o);
    let bits = img.depth.bits;
    let (ng, nl) = (h.num_groups(img), h.num_lf_groups(img));
    let (ngroups, nlf) = (ng.0 * ng.1, nl.0 * nl.1);
    let np = h.passes.num as usize;
    let mut info = FrameInfo::default();
    let mut subs: Vec<Option<Sub>> = vec![];
    if infos.is_empty() {
        for _ in 0..1 + nlf + np * ngroups {
            subs.push(None);
        }
        return Ok((ModData { subs, tree: None, info }, vec![]));
    }
    let mut coded = infos.clone();
    let (trs, resolved) = random_transforms(r, &mut coded, bits, o.wide, o.max_transforms);
    let wp = Wp::random(r);
    let streams = 1 + 3 * nlf + 17 + np * ngroups;
    let tree = if r.chance(5, 6) { Some(Tree::random(r, &tree_cfg(&coded, streams, o.wide))) } else { None };
    info.tree = tree.as_ref().map_or("none", |t| t.kind);
    info.transforms = trs
        .iter()
        .map(|t| match t {
            Tr::Rct { ty, .. } => format!("rct{ty}"),
            Tr::Palette { num, deltas, pred, .. } => format!("pal{}{}{}", if *num > 1 { "N" } else { "1" }, if *deltas > 0 { "d" } else { "" }, if *pred > 0 { "p" } else { "" }),
            Tr::Squeeze(l) => format!("sq{}", if l.is_empty() { "def" } else { "" }),
        })
        .collect::<Vec<_>>()
        .join("+");
    let dim = h.group_dim();
    let k = coded.iter().take_while(|c| c.shift.is_none() || (c.w <= dim && c.h <= dim)).count();
    let mut chans: Vec<Chan> = coded.iter().map(|c| Chan::new(c.w, c.h, c.shift)).collect();
    info.samples = coded.iter().map(|c| c.w * c.h).sum();

    // the global stream
    let empty = coded[..k].iter().all(|c| c.empty());
    let local = if tree.is_none() || r.chance(1, 6) { Some(Tree::random(r, &tree_cfg(&coded, streams, o.wide))) } else { None };
    let mut toks = vec![];
    let mut mult = 0;
    if !empty {
        for i in 0..k {
            chans[i] = fill(r, &coded[i]);
        }
        mult = code_channels(&mut chans[..k], local.as_ref().or(tree.as_ref()).unwrap(), &wp, 0, o.wide, &mut toks)?;
    }
    subs.push(Some(Sub { use_global: local.is_none(), wp: wp.clone(), trs: trs.clone(), local, stream: Stream { toks, mult }, empty, has_header: true, copies: 0 }));

    // groups
    let mut group = |r: &mut Rng, members: &[usize], dim: usize, gx: usize, gy: usize, id: usize, chans: &mut Vec<Chan>| -> Result<Option<Sub>, Blow> {
        let t: Vec<(usize, (usize, usize, usize, usize))> = members.iter().map(|&m| (m, tile(&coded[m], dim, gx, gy))).filter(|t| t.1.2 > 0).collect();
        let inf: Vec<Info> = t.iter().map(|(m, t)| Info { w: t.2, h: t.3, ..coded[*m].clone() }).collect();
        if inf.is_empty() {
            return Ok(None);
        }
        let cfg = SubCfg { global: tree.as_ref(), id, bits, wide: o.wide, max_transforms: o.group_transforms, streams };
        let (sub, out) = gen_sub(r, &inf, &cfg)?;
        for ((m, t), c) in t.iter().zip(out) {
            for y in 0..t.3 {
                let w = chans[*m].w;
                chans[*m].data[(t.1 + y) * w + t.0..][..t.2].copy_from_slice(&c.data[y * t.2..][..t.2]);
            }
        }
        info.local_trees += sub.local.is_some() as usize;
        info.local_transforms += sub.trs.len();
        Ok(Some(sub))
    };
    let minshift = |c: &Info| c.shift.map(|s| s.0.min(s.1) as isize);
    let lf: Vec<usize> = (k..coded.len()).filter(|&i| minshift(&coded[i]).is_some_and(|s| s >= 3)).collect();
    for g in 0..nlf {
        subs.push(group(r, &lf, dim * 8, g % nl.0, g / nl.0, 1 + nlf + g, &mut chans)?);
    }
    for p in 0..np {
        let (mn, mx) = h.pass_bracket(p);
        let m: Vec<usize> = (k..coded.len()).filter(|&i| minshift(&coded[i]).is_some_and(|s| mn <= s && s <= mx)).collect();
        for g in 0..ngroups {
            subs.push(group(r, &m, dim, g % ng.0, g / ng.0, 1 + 3 * nlf + 17 + p * ngroups + g, &mut chans)?);
        }
    }
    let out = inverse(chans, &resolved, &wp, bits, o.wide)?;
    assert_eq!(out.len(), infos.len());
    Ok((ModData { subs, tree, info }, out))
}
/// The global code for the streams that use the global tree.
pub struct GlobalCode {
    tree: Option<(Tree, Code)>,
    /// number of each sub-bitstream in the code
    idx: Vec<Option<usize>>,
}
impl ModData {
    /// `extra`: further streams that use the global tree (VarDCT); they are numbered first.
    pub fn global_code(&mut self, r: &mut Rng, extra: Vec<Stream>) -> GlobalCode {
        let mut streams = extra;
        let mut idx = vec![];
        for s in &mut self.subs {
            idx.push(match s {
                Some(s) if s.use_global && !s.empty => {
                    streams.push(std::mem::take(&mut s.stream));
                    Some(streams.len() - 1)
                }
                _ => None,
            });
        }
        let tree = self.tree.take().map(|t| {
            let c = Code::build(r, t.nleaves, &streams, &t.knobs);
            self.info.lz = c.used_lz;
            self.info.copies = c.copies;
            (t, c)
        });
        GlobalCode { tree, idx }
    }
}
impl GlobalCode {
    pub fn write_tree(&self, b: &mut Bw, r: &mut Rng) {
        b.bit(self.tree.is_some());
        if let Some((t, c)) = &self.tree {
            t.write(b, r);
            c.write_header(b, r);
        }
    }
    pub fn write_sub(&self, b: &mut Bw, r: &mut Rng, d: &ModData, i: usize) {
        if let Some(s) = &d.subs[i] {
            s.write(b, r, self.idx[i].map(|k| (&self.tree.as_ref().unwrap().1, k)));
        }
    }
    pub fn code(&self) -> Option<&Code> {
        self.tree.as_ref().map(|t| &t.1)
    }
}
/// A whole modular frame.
pub fn modular_frame(r: &mut Rng, img: &ImageHdr, h: &FrameHdr, f: &Features, o: &ModOpts) -> Result<(Vec<u8>, Vec<Chan>, FrameInfo), Blow> {
    assert!(h.modular);
    let (mut d, out) = gen_modular(r, img, h, o)?;
    let g = d.global_code(r, vec![]);
    let nlf = { let l = h.num_lf_groups(img); l.0 * l.1 };
    let ng = { let l = h.num_groups(img); l.0 * l.1 };
    let np = h.passes.num as usize;
    let mut sections: Vec<Bw> = vec![];
    let mut b = Bw::new();
    f.write(&mut b, h);
    g.write_tree(&mut b, r);
    g.write_sub(&mut b, r, &d, 0);
    sections.push(b);
    for i in 0..nlf {
        let mut b = Bw::new();
        g.write_sub(&mut b, r, &d, 1 + i);
        sections.push(b);
    }
    sections.push(Bw::new());
    for i in 0..np * ng {
        let mut b = Bw::new();
        g.write_sub(&mut b, r, &d, 1 + nlf + i);
        sections.push(b);
    }
    let mut info = d.info;
    let bytes = assemble(r, img, h, sections, o.permute, &mut info);
    Ok((bytes, out, info))
}
/// Frame header, TOC and sections.
pub fn assemble(r: &mut Rng, img: &ImageHdr, h: &FrameHdr, sections: Vec<Bw>, permute: bool, info: &mut FrameInfo) -> Vec<u8> {
    let n = h.num_sections(img);
    let sections: Vec<Vec<u8>> = if n == 1 {
        let mut b = Bw::new();
        for s in &sections {
            b.append(s);
        }
        vec![b.bytes]
    } else {
        sections.into_iter().map(|s| s.bytes).collect()
    };
    assert_eq!(sections.len(), n);
    let mut b = Bw::new();
    h.write(&mut b, r, img);
    // slot[s]: place of section s in the stream
    let mut slot: Vec<usize> = (0..n).collect();
    b.bit(permute);
    if permute {
        match r.below(3) {
            0 => {
                for _ in 0..1 + r.below(3) {
                    let (i, j) = (r.below(n), r.below(n));
                    slot.swap(i, j);
                }
            }
            _ => r.shuffle(&mut slot),
        }
        write_permutation(&mut b, r, &slot, 0);
    }
    b.align();
    let mut order = vec![0; n];
    for (s, &p) in slot.iter().enumerate() {
        order[p] = s;
    }
    for &s in &order {
        b.u2s(r, [D::B(10, 0), D::B(14, 1024), D::B(22, 17408), D::B(30, 4211712)], sections[s].len() as u32);
    }
    b.align();
    info.permuted = permute;
    info.sections = n;
    info.layout = vec![b.bytes.len()];
    let mut out = b.bytes;
    for &s in &order {
        info.layout.push(sections[s].len());
        out.extend_from_slice(&sections[s]);
    }
    out
}
/// Symbols of a permutation (8 contexts).
pub fn permutation_toks(r: &mut Rng, perm: &[usize], skip: usize) -> Vec<Tok> {
    let n = perm.len();
    // what follows the last moved element stays in order
    let moved = (0..n).rev().find(|&i| perm[i] != i).map_or(0, |i| i + 1);
    let mut tmp: Vec<usize> = (0..moved).collect();
    let mut lehmer = vec![];
    for &p in &perm[..moved] {
        let i = tmp.iter().position(|&t| t == p).unwrap();
        tmp.remove(i);
        lehmer.push(i);
    }
    lehmer.resize(n, 0);
    assert!(lehmer[..skip].iter().all(|&l| l == 0));
    let mut end = lehmer.iter().rposition(|&l| l > 0).map_or(skip, |p| p + 1).max(skip);
    if end < n && r.chance(1, 4) {
        end += r.below(n - end + 1);
    }
    let ctx = |v: usize| ceil_log2(v + 1).min(7) as u32;
    let mut toks = vec![Tok { ctx: ctx(n), val: (end - skip) as u32 }];
    let mut prev = 0;
    for &l in &lehmer[skip..end] {
        toks.push(Tok { ctx: ctx(prev), val: l as u32 });
        prev = l;
    }
    toks
}
pub fn write_permutation(b: &mut Bw, r: &mut Rng, perm: &[usize], skip: usize) {
    let s = Stream { toks: permutation_toks(r, perm, skip), mult: 0 };
    let c = Code::build(r, 8, std::slice::from_ref(&s), &Knobs::default());
    c.write_header(b, r);
    c.write_stream(b, 0);
}
/// Signature and image header (with ICC profile), byte aligned.
pub fn image_start(r: &mut Rng, img: &ImageHdr) -> Vec<u8> {
    let mut b = Bw::new();
    img.write(&mut b, r);
    if let Some(icc) = &img.color.icc {
        super::icc::write(&mut b, r, icc);
    }
    b.align();
    b.bytes
}
