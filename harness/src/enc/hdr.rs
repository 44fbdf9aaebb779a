//! Image and frame headers: values, and writers that choose at random among the legal codings.
use super::bits::*;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Depth {
    pub bits: u32,
    /// 0: integer samples
    pub exp: u32,
}
impl Depth {
    pub fn int(bits: u32) -> Depth {
        Depth { bits, exp: 0 }
    }
    pub fn write(&self, b: &mut Bw, r: &mut Rng) {
        b.bit(self.exp > 0);
        if self.exp > 0 {
            b.u2s(r, [D::V(32), D::V(16), D::V(24), D::B(6, 1)], self.bits);
            b.put(4, self.exp as u64 - 1);
        } else {
            b.u2s(r, [D::V(8), D::V(10), D::V(12), D::B(6, 1)], self.bits);
        }
    }
}
pub const EC_ALPHA: u32 = 0;
pub const EC_DEPTH: u32 = 1;
pub const EC_SPOT: u32 = 2;
pub const EC_SELECTION: u32 = 3;
pub const EC_BLACK: u32 = 4;
pub const EC_CFA: u32 = 5;
pub const EC_THERMAL: u32 = 6;
#[derive(Clone, Debug, PartialEq)]
pub struct Ec {
    pub ty: u32,
    pub depth: Depth,
    pub dim_shift: u32,
    pub name: Vec<u8>,
    pub assoc: bool,
    /// half-float bits: r, g, b, solidity
    pub spot: [u16; 4],
    pub cfa: u32,
}
impl Ec {
    pub fn new(ty: u32, bits: u32) -> Ec {
        Ec { ty, depth: Depth::int(bits), dim_shift: 0, name: vec![], assoc: false, spot: [0; 4], cfa: 1 }
    }
}
/// code 1..: enum coded as u2S(0, 1, 4 bits + 2, 6 bits + 18)
pub fn put_enum(b: &mut Bw, r: &mut Rng, v: u32) {
    b.u2s(r, [D::V(0), D::V(1), D::B(4, 2), D::B(6, 18)], v);
}
#[derive(Clone, Debug, PartialEq)]
pub enum Tf {
    Gamma(u32),
    Code(u32),
}
pub const TF_709: u32 = 1;
pub const TF_LINEAR: u32 = 8;
pub const TF_SRGB: u32 = 13;
pub const TF_PQ: u32 = 16;
pub const TF_DCI: u32 = 17;
pub const TF_HLG: u32 = 18;
#[derive(Clone, Debug, PartialEq)]
pub struct Color {
    pub icc: Option<Vec<u8>>,
    /// 0 RGB, 1 gray
    pub space: u32,
    /// 1 D65, 2 custom, 10 E, 11 DCI
    pub white: u32,
    pub white_xy: (i32, i32),
    /// 1 sRGB, 2 custom, 9 2100, 11 P3
    pub prim: u32,
    pub prim_xy: [(i32, i32); 3],
    pub tf: Tf,
    pub intent: u32,
}
impl Color {
    pub fn srgb() -> Color {
        Color { icc: None, space: 0, white: 1, white_xy: (0, 0), prim: 1, prim_xy: [(0, 0); 3], tf: Tf::Code(TF_SRGB), intent: 1 }
    }
    pub fn gray() -> Color {
        Color { space: 1, ..Color::srgb() }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Anim {
    pub num: u32,
    pub den: u32,
    pub loops: u32,
    pub timecodes: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Tone {
    /// half-float bits
    pub target: u16,
    pub min: u16,
    pub relative: bool,
    pub below: u16,
}
impl Tone {
    pub fn default() -> Tone {
        Tone { target: to_half(255.0), min: 0, relative: false, below: 0 }
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Custom {
    /// 9 matrix entries, 3 biases, 4 quant biases, as half floats
    pub opsin: Option<[u16; 16]>,
    pub w2: Option<Vec<u16>>,
    pub w4: Option<Vec<u16>>,
    pub w8: Option<Vec<u16>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct ImageHdr {
    pub w: u32,
    pub h: u32,
    pub orientation: u32,
    pub intrinsic: Option<(u32, u32)>,
    pub preview: Option<(u32, u32)>,
    pub anim: Option<Anim>,
    pub depth: Depth,
    pub modular16: bool,
    pub ecs: Vec<Ec>,
    pub xyb: bool,
    pub color: Color,
    pub tone: Tone,
    pub custom: Custom,
    /// payload bits of extension fields (ids < 64)
    pub ext: Vec<(u32, usize)>,
    /// extra padding of the entropy coded ICC etc. comes from these knobs
    pub seed: u64,
}
impl ImageHdr {
    pub fn new(w: u32, h: u32) -> ImageHdr {
        ImageHdr {
            w,
            h,
            orientation: 1,
            intrinsic: None,
            preview: None,
            anim: None,
            depth: Depth::int(8),
            modular16: true,
            ecs: vec![],
            xyb: false,
            color: Color::srgb(),
            tone: Tone::default(),
            custom: Custom::default(),
            ext: vec![],
            seed: 0,
        }
    }
    pub fn gray(&self) -> bool {
        self.color.space == 1
    }
    pub fn ncolor(&self) -> usize {
        if self.gray() { 1 } else { 3 }
    }
}
const RATIOS: [(u64, u64); 7] = [(1, 1), (12, 10), (4, 3), (3, 2), (16, 9), (5, 4), (2, 1)];
fn ratios(w: u32, h: u32) -> Vec<u32> {
    let mut v = vec![0];
    for (i, (n, d)) in RATIOS.iter().enumerate() {
        if h as u64 * n / d == w as u64 {
            v.push(i as u32 + 1);
        }
    }
    v
}
pub fn write_size(b: &mut Bw, r: &mut Rng, w: u32, h: u32) {
    let rs = ratios(w, h);
    let small = w % 8 == 0 && h % 8 == 0 && w <= 256 && h <= 256 && r.chance(3, 4);
    let small = small || (h % 8 == 0 && h <= 256 && rs.len() > 1 && r.bool() && {
        // a ratio code does not need the width to be small
        true
    });
    b.bit(small);
    let d = [D::B(9, 1), D::B(13, 1), D::B(18, 1), D::B(30, 1)];
    let wsmall = w % 8 == 0 && w <= 256;
    if small {
        b.put(5, h as u64 / 8 - 1);
    } else {
        b.u2s(r, d, h);
    }
    let ra = loop {
        let ra = *r.pick(&rs);
        if ra != 0 || !small || wsmall {
            break ra;
        }
    };
    b.put(3, ra as u64);
    if ra == 0 {
        if small {
            b.put(5, w as u64 / 8 - 1);
        } else {
            b.u2s(r, d, w);
        }
    }
}
pub fn write_preview_size(b: &mut Bw, r: &mut Rng, w: u32, h: u32) {
    let rs = ratios(w, h);
    let div8 = w % 8 == 0 && h % 8 == 0 && w <= 4352 && h <= 4352 && r.chance(3, 4);
    let d8 = [D::V(16), D::V(32), D::B(5, 1), D::B(9, 33)];
    let d = [D::B(6, 1), D::B(8, 65), D::B(10, 321), D::B(12, 1345)];
    b.bit(div8);
    if div8 { b.u2s(r, d8, h / 8) } else { b.u2s(r, d, h) }
    let ra = *r.pick(&rs);
    b.put(3, ra as u64);
    if ra == 0 {
        if div8 { b.u2s(r, d8, w / 8) } else { b.u2s(r, d, w) }
    }
}
fn write_xy(b: &mut Bw, r: &mut Rng, xy: (i32, i32)) {
    let d = [D::B(19, 0), D::B(19, 524288), D::B(20, 1048576), D::B(21, 2097152)];
    b.u2s(r, d, pack_signed(xy.0 as i64) as u32);
    b.u2s(r, d, pack_signed(xy.1 as i64) as u32);
}
pub fn write_ext(b: &mut Bw, r: &mut Rng, ext: &[(u32, usize)]) {
    let mut mask = 0u64;
    for e in ext {
        mask |= 1 << e.0;
    }
    b.u64(r, mask);
    let mut ext: Vec<_> = ext.to_vec();
    ext.sort();
    ext.dedup_by_key(|e| e.0);
    for e in &ext {
        b.u64(r, e.1 as u64);
    }
    for e in &ext {
        for _ in 0..e.1 {
            b.bit(r.bool());
        }
    }
}
impl Color {
    pub fn write(&self, b: &mut Bw, r: &mut Rng) {
        let def = *self == Color::srgb();
        let ad = def && r.chance(3, 4);
        b.bit(ad);
        if ad {
            return;
        }
        b.bit(self.icc.is_some());
        put_enum(b, r, self.space);
        if self.icc.is_some() {
            return;
        }
        put_enum(b, r, self.white);
        if self.white == 2 {
            write_xy(b, r, self.white_xy);
        }
        if self.space != 1 {
            put_enum(b, r, self.prim);
            if self.prim == 2 {
                for p in self.prim_xy {
                    write_xy(b, r, p);
                }
            }
        }
        match self.tf {
            Tf::Gamma(g) => {
                b.bit(true);
                b.put(24, g as u64);
            }
            Tf::Code(c) => {
                b.bit(false);
                put_enum(b, r, c);
            }
        }
        put_enum(b, r, self.intent);
    }
}
impl Ec {
    pub fn write(&self, b: &mut Bw, r: &mut Rng) {
        let def = *self == Ec::new(EC_ALPHA, 8);
        let ad = def && r.chance(3, 4);
        b.bit(ad);
        if ad {
            return;
        }
        put_enum(b, r, self.ty);
        self.depth.write(b, r);
        b.u2s(r, [D::V(0), D::V(3), D::V(4), D::B(3, 1)], self.dim_shift);
        b.string(r, &self.name);
        if self.ty == EC_ALPHA {
            b.bit(self.assoc);
        }
        if self.ty == EC_SPOT {
            for v in self.spot {
                b.f16(v);
            }
        }
        if self.ty == EC_CFA {
            b.u2s(r, [D::V(1), D::B(2, 0), D::B(4, 3), D::B(8, 19)], self.cfa);
        }
    }
}
impl ImageHdr {
    fn metadata_is_default(&self) -> bool {
        let d = ImageHdr { xyb: true, ..ImageHdr::new(self.w, self.h) };
        self.orientation == 1
            && self.intrinsic.is_none()
            && self.preview.is_none()
            && self.anim.is_none()
            && self.depth == d.depth
            && self.modular16
            && self.ecs.is_empty()
            && self.xyb
            && self.color == d.color
            && self.tone == d.tone
            && self.ext.is_empty()
    }
    /// Signature, size, metadata, transform data; the ICC stream and byte alignment follow.
    pub fn write(&self, b: &mut Bw, r: &mut Rng) {
        b.put(8, 0xff);
        b.put(8, 0x0a);
        write_size(b, r, self.w, self.h);
        let ad = self.metadata_is_default() && r.chance(3, 4);
        b.bit(ad);
        if !ad {
            let need = self.orientation != 1 || self.intrinsic.is_some() || self.preview.is_some() || self.anim.is_some() || self.tone != Tone::default();
            let extra = need || r.chance(1, 4);
            b.bit(extra);
            if extra {
                b.put(3, self.orientation as u64 - 1);
                b.bit(self.intrinsic.is_some());
                if let Some((w, h)) = self.intrinsic {
                    write_size(b, r, w, h);
                }
                b.bit(self.preview.is_some());
                if let Some((w, h)) = self.preview {
                    write_preview_size(b, r, w, h);
                }
                b.bit(self.anim.is_some());
                if let Some(a) = &self.anim {
                    b.u2s(r, [D::V(100), D::V(1000), D::B(10, 1), D::B(30, 1)], a.num);
                    b.u2s(r, [D::V(1), D::V(1001), D::B(8, 1), D::B(10, 1)], a.den);
                    b.u2s(r, [D::V(0), D::B(3, 0), D::B(16, 0), D::B(32, 0)], a.loops);
                    b.bit(a.timecodes);
                }
            }
            self.depth.write(b, r);
            b.bit(self.modular16);
            b.u2s(r, [D::V(0), D::V(1), D::B(4, 2), D::B(12, 1)], self.ecs.len() as u32);
            for e in &self.ecs {
                e.write(b, r);
            }
            b.bit(self.xyb);
            self.color.write(b, r);
            if extra {
                let td = self.tone == Tone::default() && r.chance(3, 4);
                b.bit(td);
                if !td {
                    b.f16(self.tone.target);
                    b.f16(self.tone.min);
                    b.bit(self.tone.relative);
                    b.f16(self.tone.below);
                }
            }
            write_ext(b, r, &self.ext);
        }
        let c = &self.custom;
        let cd = *c == Custom::default() && r.chance(3, 4);
        b.bit(cd);
        if !cd {
            if self.xyb {
                b.bit(c.opsin.is_none());
                if let Some(o) = &c.opsin {
                    for v in o {
                        b.f16(*v);
                    }
                }
            }
            b.put(3, c.w2.is_some() as u64 | (c.w4.is_some() as u64) << 1 | (c.w8.is_some() as u64) << 2);
            for w in [&c.w2, &c.w4, &c.w8].into_iter().flatten() {
                for v in w {
                    b.f16(*v);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- frames
pub const FT_REGULAR: u32 = 0;
pub const FT_LF: u32 = 1;
pub const FT_REF: u32 = 2;
pub const FT_SKIP_PROG: u32 = 3;
pub const FL_NOISE: u64 = 1;
pub const FL_PATCHES: u64 = 2;
pub const FL_SPLINES: u64 = 16;
pub const FL_USE_LF: u64 = 32;
pub const FL_SKIP_SMOOTH: u64 = 128;
pub const BM_REPLACE: u32 = 0;
pub const BM_ADD: u32 = 1;
pub const BM_BLEND: u32 = 2;
pub const BM_MULADD: u32 = 3;
pub const BM_MUL: u32 = 4;
#[derive(Clone, Debug, PartialEq)]
pub struct Blend {
    pub mode: u32,
    pub alpha: u32,
    pub clamp: bool,
    pub source: u32,
}
impl Blend {
    pub fn replace() -> Blend {
        Blend { mode: BM_REPLACE, alpha: 0, clamp: false, source: 0 }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct PassesHdr {
    pub num: u32,
    pub shift: Vec<u32>,
    /// (downsample, last pass)
    pub ds: Vec<(u32, u32)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Filter {
    pub gab: bool,
    /// x1 x2 y1 y2 b1 b2
    pub gab_w: Option<[u16; 6]>,
    pub epf: u32,
    pub sharp: Option<[u16; 8]>,
    /// channel scales, two zero-flush values
    pub weights: Option<[u16; 5]>,
    /// quant mul (VarDCT only), pass 0 sigma scale, pass 2 sigma scale, border sad mul
    pub sigma: Option<[u16; 4]>,
    pub sigma_modular: u16,
    pub ext: Vec<(u32, usize)>,
}
impl Filter {
    pub fn default() -> Filter {
        Filter { gab: true, gab_w: None, epf: 2, sharp: None, weights: None, sigma: None, sigma_modular: to_half(1.0), ext: vec![] }
    }
    pub fn off() -> Filter {
        Filter { gab: false, epf: 0, ..Filter::default() }
    }
    fn write(&self, b: &mut Bw, r: &mut Rng, modular: bool) {
        let ad = *self == Filter::default() && r.chance(3, 4);
        b.bit(ad);
        if ad {
            return;
        }
        b.bit(self.gab);
        if self.gab {
            b.bit(self.gab_w.is_some());
            for v in self.gab_w.iter().flatten() {
                b.f16(*v);
            }
        }
        b.put(2, self.epf as u64);
        if self.epf > 0 {
            if !modular {
                b.bit(self.sharp.is_some());
                for v in self.sharp.iter().flatten() {
                    b.f16(*v);
                }
            }
            b.bit(self.weights.is_some());
            for v in self.weights.iter().flatten() {
                b.f16(*v);
            }
            b.bit(self.sigma.is_some());
            if let Some(s) = &self.sigma {
                for (i, v) in s.iter().enumerate() {
                    if i > 0 || !modular {
                        b.f16(*v);
                    }
                }
            }
            if modular {
                b.f16(self.sigma_modular);
            }
        }
        write_ext(b, r, &self.ext);
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct FrameHdr {
    pub ty: u32,
    pub modular: bool,
    pub flags: u64,
    pub ycbcr: bool,
    pub jpeg_up: [u32; 3],
    pub upsampling: u32,
    /// as coded (before the shift by dim_shift)
    pub ec_up: Vec<u32>,
    pub group_shift: u32,
    pub xqm: u32,
    pub bqm: u32,
    pub passes: PassesHdr,
    pub lf_level: u32,
    pub crop: Option<(i32, i32, u32, u32)>,
    pub blend: Blend,
    pub ec_blend: Vec<Blend>,
    pub duration: u32,
    pub timecode: u32,
    pub last: bool,
    pub save: u32,
    pub before_ct: bool,
    pub name: Vec<u8>,
    pub filter: Filter,
    pub ext: Vec<(u32, usize)>,
}
impl FrameHdr {
    pub fn new(img: &ImageHdr) -> FrameHdr {
        FrameHdr {
            ty: FT_REGULAR,
            modular: true,
            flags: 0,
            ycbcr: false,
            jpeg_up: [0; 3],
            upsampling: 1,
            ec_up: vec![1; img.ecs.len()],
            group_shift: 1,
            xqm: 3,
            bqm: 2,
            passes: PassesHdr { num: 1, shift: vec![], ds: vec![] },
            lf_level: 0,
            crop: None,
            blend: Blend::replace(),
            ec_blend: vec![Blend::replace(); img.ecs.len()],
            duration: 0,
            timecode: 0,
            last: true,
            save: 0,
            before_ct: false,
            name: vec![],
            filter: Filter::off(),
            ext: vec![],
        }
    }
    pub fn normal(&self) -> bool {
        self.ty == FT_REGULAR || self.ty == FT_SKIP_PROG
    }
    pub fn full_frame(&self, img: &ImageHdr) -> bool {
        match self.crop {
            None => true,
            Some((x, y, w, h)) => x <= 0 && y <= 0 && x as i64 + w as i64 >= img.w as i64 && y as i64 + h as i64 >= img.h as i64,
        }
    }
    /// size of the frame on the canvas (after upsampling)
    pub fn canvas_size(&self, img: &ImageHdr) -> (usize, usize) {
        let (w, h) = match self.crop {
            Some((_, _, w, h)) => (if w == 0 { img.w } else { w }, if h == 0 { img.h } else { h }),
            None => (img.w, img.h),
        };
        let d = 1u32 << (3 * self.lf_level);
        (w.div_ceil(d) as usize, h.div_ceil(d) as usize)
    }
    /// size of the coded frame
    pub fn coded_size(&self, img: &ImageHdr) -> (usize, usize) {
        let (w, h) = self.canvas_size(img);
        (w.div_ceil(self.upsampling as usize), h.div_ceil(self.upsampling as usize))
    }
    pub fn can_be_referenced(&self) -> bool {
        !self.last && self.ty != FT_LF && (self.duration == 0 || self.save != 0)
    }
    pub fn visible(&self) -> bool {
        self.normal() && (self.last || self.duration > 0)
    }
    /// whether the save_before_ct bit is coded
    pub fn codes_before_ct(&self, img: &ImageHdr) -> bool {
        self.ty == FT_REF || (self.can_be_referenced() && self.blend.mode == BM_REPLACE && self.full_frame(img) && self.normal())
    }
    /// the value that applies if it is not coded
    pub fn saves_before_ct(&self, img: &ImageHdr) -> bool {
        if self.codes_before_ct(img) { self.before_ct } else { self.ty == FT_LF }
    }
    fn is_all_default(&self, img: &ImageHdr) -> bool {
        let mut d = FrameHdr::new(img);
        d.modular = false;
        d.filter = Filter::default();
        *self == d
    }
    pub fn group_dim(&self) -> usize {
        if self.modular { 128 << self.group_shift } else { 256 }
    }
    pub fn maxshift(&self) -> (usize, usize) {
        let h = [0, 1, 1, 0];
        let v = [0, 1, 0, 1];
        let mh = self.jpeg_up.iter().map(|&c| h[c as usize]).max().unwrap();
        let mv = self.jpeg_up.iter().map(|&c| v[c as usize]).max().unwrap();
        (mh, mv)
    }
    pub fn shift(&self, c: usize) -> (usize, usize) {
        let h = [0, 1, 1, 0];
        let v = [0, 1, 0, 1];
        let m = self.maxshift();
        (m.0 - h[self.jpeg_up[c] as usize], m.1 - v[self.jpeg_up[c] as usize])
    }
    pub fn blocks(&self, img: &ImageHdr) -> (usize, usize) {
        let (w, h) = self.coded_size(img);
        let m = self.maxshift();
        (w.div_ceil(8 << m.0) << m.0, h.div_ceil(8 << m.1) << m.1)
    }
    pub fn num_groups(&self, img: &ImageHdr) -> (usize, usize) {
        let (w, h) = self.coded_size(img);
        (w.div_ceil(self.group_dim()), h.div_ceil(self.group_dim()))
    }
    pub fn num_lf_groups(&self, img: &ImageHdr) -> (usize, usize) {
        let (w, h) = self.blocks(img);
        (w.div_ceil(self.group_dim()), h.div_ceil(self.group_dim()))
    }
    pub fn num_sections(&self, img: &ImageHdr) -> usize {
        let g = self.num_groups(img);
        let l = self.num_lf_groups(img);
        if g.0 * g.1 == 1 && self.passes.num == 1 { 1 } else { 2 + l.0 * l.1 + g.0 * g.1 * self.passes.num as usize }
    }
    /// Smallest and largest channel shift of the modular channels coded in a pass.
    pub fn pass_bracket(&self, pass: usize) -> (isize, isize) {
        // shifts in min..=max are coded in this pass
        let (mut max, mut min) = (2isize, 3isize);
        for p in 0..=pass {
            for &(d, last) in &self.passes.ds {
                if p as u32 == last {
                    min = d.trailing_zeros() as isize;
                }
            }
            if p as u32 + 1 == self.passes.num {
                min = 0;
            }
            if p != pass {
                max = min - 1;
            }
        }
        (min, max)
    }
    /// Writes the header (not byte aligned at the start; ends aligned by the TOC).
    pub fn write(&self, b: &mut Bw, r: &mut Rng, img: &ImageHdr) {
        let ad = self.is_all_default(img) && r.chance(3, 4);
        b.bit(ad);
        if ad {
            return;
        }
        b.put(2, self.ty as u64);
        b.put(1, self.modular as u64);
        b.u64(r, self.flags);
        if !img.xyb {
            b.bit(self.ycbcr);
        }
        let lf = self.flags & FL_USE_LF != 0;
        if self.ycbcr && !lf {
            for j in self.jpeg_up {
                b.put(2, j as u64);
            }
        }
        let up = [D::V(1), D::V(2), D::V(4), D::V(8)];
        if !lf {
            b.u2s(r, up, self.upsampling);
            for e in &self.ec_up {
                b.u2s(r, up, *e);
            }
        }
        if self.modular {
            b.put(2, self.group_shift as u64);
        } else if img.xyb {
            b.put(3, self.xqm as u64);
            b.put(3, self.bqm as u64);
        }
        if self.ty != FT_REF {
            let p = &self.passes;
            b.u2s(r, [D::V(1), D::V(2), D::V(3), D::B(3, 4)], p.num);
            if p.num != 1 {
                b.u2s(r, [D::V(0), D::V(1), D::V(2), D::B(1, 3)], p.ds.len() as u32);
                for s in &p.shift {
                    b.put(2, *s as u64);
                }
                for d in &p.ds {
                    b.u2s(r, up, d.0);
                }
                for d in &p.ds {
                    b.u2s(r, [D::V(0), D::V(1), D::V(2), D::B(3, 0)], d.1);
                }
            }
        }
        if self.ty == FT_LF {
            b.u2s(r, [D::V(1), D::V(2), D::V(3), D::V(4)], self.lf_level);
        }
        if self.ty != FT_LF {
            b.bit(self.crop.is_some());
            if let Some((x, y, w, h)) = self.crop {
                let d = [D::B(8, 0), D::B(11, 256), D::B(14, 2304), D::B(30, 18688)];
                if self.ty != FT_REF {
                    b.u2s(r, d, pack_signed(x as i64) as u32);
                    b.u2s(r, d, pack_signed(y as i64) as u32);
                }
                b.u2s(r, d, w);
                b.u2s(r, d, h);
            }
        }
        let full = self.full_frame(img);
        if self.normal() {
            let necs = img.ecs.len();
            let mut wb = |b: &mut Bw, bl: &Blend| {
                b.u2s(r, [D::V(0), D::V(1), D::V(2), D::B(2, 3)], bl.mode);
                let al = bl.mode == BM_BLEND || bl.mode == BM_MULADD;
                if necs > 0 && al {
                    b.u2s(r, [D::V(0), D::V(1), D::V(2), D::B(3, 3)], bl.alpha);
                }
                if (necs > 0 && al) || bl.mode == BM_MUL {
                    b.bit(bl.clamp);
                }
                if !(full && bl.mode == BM_REPLACE) {
                    b.put(2, bl.source as u64);
                }
            };
            wb(b, &self.blend);
            for e in &self.ec_blend {
                wb(b, e);
            }
            if let Some(a) = &img.anim {
                b.u2s(r, [D::V(0), D::V(1), D::B(8, 0), D::B(32, 0)], self.duration);
                if a.timecodes {
                    b.put(32, self.timecode as u64);
                }
            }
            b.bit(self.last);
        }
        if self.ty != FT_LF && !(self.last && self.normal()) {
            b.put(2, self.save as u64);
        }
        if self.codes_before_ct(img) {
            b.bit(self.before_ct);
        }
        b.string(r, &self.name);
        self.filter.write(b, r, self.modular);
        write_ext(b, r, &self.ext);
    }
}
