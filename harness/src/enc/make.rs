//! Whole streams with a known decoding.
use super::frame::*;
use super::hdr::*;
use super::modular::*;
use crate::rng::Rng;

#[derive(Clone)]
pub struct Stream1 {
    pub data: Vec<u8>,
    pub img: ImageHdr,
    pub hdr: FrameHdr,
    pub chans: Vec<Chan>,
    pub info: FrameInfo,
}
pub fn random_dim(r: &mut Rng, big: usize) -> u32 {
    (match r.below(8) {
        0 => 1 + r.below(3),
        1 => 1 + r.below(9),
        2 => 8 * (1 + r.below(6)),
        3 => [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129][r.below(12)],
        4 | 5 => 1 + r.below(70),
        _ => 1 + r.below(big),
    }) as u32
}
/// Random bit depth: usual integers, odd ones, floats.
pub fn random_depth(r: &mut Rng) -> Depth {
    match r.below(12) {
        0..=3 => Depth::int(8),
        4 => Depth::int(16),
        5 => Depth::int(1 + r.below(31) as u32),
        6 => Depth::int(1 + r.below(15) as u32),
        7 => Depth::int([10, 12, 14, 24][r.below(4)]),
        8 => Depth { bits: 32, exp: 8 },
        9 => Depth { bits: 16, exp: 5 },
        10 => {
            let exp = 2 + r.below(7) as u32;
            let mant = 2 + r.below(22) as u32;
            Depth { bits: 1 + exp + mant, exp }
        }
        _ => Depth::int(1 + r.below(8) as u32),
    }
}
/// Sample values of a channel: range and, for floats, a list of patterns (finite values).
pub fn sample_range(r: &mut Rng, d: &Depth, wide: bool) -> (i64, i64, Option<std::sync::Arc<Vec<i64>>>) {
    if d.exp > 0 {
        let n = 1 + r.below(60);
        let vals: Vec<i64> = (0..n)
            .map(|_| {
                let mant = d.bits - 1 - d.exp;
                let e = match r.below(3) {
                    0 => r.below((1 << d.exp) - 1),
                    _ => {
                        let bias = (1usize << (d.exp - 1)) - 1;
                        (bias.saturating_sub(3) + r.below(5)).min((1 << d.exp) - 2)
                    }
                };
                // subnormals of 8-bit exponents are fine as bit patterns
                let m = match r.below(3) { 0 => 0, 1 => r.u64() & ((1 << mant) - 1), _ => 1u64 << r.below(mant as usize) };
                let s = r.chance(1, 4) as u64;
                let v = s << (d.bits - 1) | (e as u64) << mant | m;
                if d.bits == 32 { v as u32 as i32 as i64 } else { v as i64 }
            })
            .collect();
        let (lo, hi) = (*vals.iter().min().unwrap(), *vals.iter().max().unwrap());
        return (lo, hi, Some(std::sync::Arc::new(vals)));
    }
    let max = (1i64 << d.bits) - 1;
    let max = if wide { max } else { max.min(LIM / 2) };
    match r.below(10) {
        0 => (-(max / 4) - 1, (max + max / 4 + 1).min(i32::MAX as i64), None),
        1 => {
            let n = 1 + r.below(30);
            let v: Vec<i64> = (0..n).map(|_| r.below(max as usize + 1) as i64).collect();
            (*v.iter().min().unwrap(), *v.iter().max().unwrap(), Some(std::sync::Arc::new(v)))
        }
        2 => (max / 2, max / 2 + max / 8, None),
        _ => (0, max, None),
    }
}
pub fn random_ecs(r: &mut Rng, depth: &Depth) -> Vec<Ec> {
    let n = match r.below(8) { 0..=3 => 0, 4 | 5 => 1, 6 => 2, _ => 3 + r.below(3) };
    (0..n)
        .map(|_| {
            let ty = *r.pick(&[EC_ALPHA, EC_ALPHA, EC_DEPTH, EC_SPOT, EC_SELECTION, EC_BLACK, EC_CFA, EC_THERMAL, 15]);
            // the decoder uses the extra channel's own depth for the conversion
            let d = if r.chance(2, 3) { depth.clone() } else { random_depth(r) };
            let mut e = Ec { depth: d, ..Ec::new(ty, 8) };
            if r.chance(1, 3) {
                e.name = (0..r.below(40)).map(|_| b'a' + r.below(26) as u8).collect();
            }
            if ty == EC_ALPHA {
                e.assoc = r.chance(1, 3);
            }
            if ty == EC_SPOT {
                e.spot = [0; 4].map(|_| super::bits::to_half(r.f64()));
            }
            if ty == EC_CFA {
                e.cfa = r.below(270) as u32;
            }
            e
        })
        .collect()
}
pub fn random_passes(r: &mut Rng) -> PassesHdr {
    if r.chance(3, 5) {
        return PassesHdr { num: 1, shift: vec![], ds: vec![] };
    }
    let k = if r.chance(1, 4) { 10 } else { 3 };
    let num = 2 + r.below(k) as u32;
    let shift = (0..num - 1).map(|_| r.below(4) as u32).collect();
    // downsampling factors decrease strictly and the passes increase strictly
    let nd = r.below(4).min(num as usize - 1);
    let mut fac: Vec<u32> = vec![8, 4, 2, 1];
    while fac.len() > nd {
        let k = r.below(fac.len());
        fac.remove(k);
    }
    // (the last pass may be named only with factor 1)
    let mut ps: Vec<u32> = (0..num.min(8)).collect();
    ps.truncate(num as usize - 1);
    while ps.len() > nd {
        let k = r.below(ps.len());
        ps.remove(k);
    }
    fac.truncate(ps.len());
    PassesHdr { num, shift, ds: fac.into_iter().zip(ps).collect() }
}
pub struct Cfg {
    pub big: usize,
    pub max_px: usize,
    pub depth: Option<Depth>,
    pub max_transforms: usize,
    pub plain: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { big: 300, max_px: 40_000, depth: None, max_transforms: 4, plain: false }
    }
}
pub fn random_mod_opts(r: &mut Rng, img: &ImageHdr, c: &Cfg) -> ModOpts {
    let d = &img.depth;
    let wide = !img.modular16 && (d.bits > 26 || d.exp > 0 || img.ecs.iter().any(|e| e.depth.bits > 26 || e.depth.exp > 0));
    let (lo, hi, vals) = sample_range(r, d, wide);
    let mut ec = vec![];
    let mut ec_vals = vec![];
    for e in &img.ecs {
        let (lo, hi, v) = sample_range(r, &e.depth, wide);
        ec.push((lo, hi));
        ec_vals.push(v);
    }
    let mt = if r.chance(1, 3) { 0 } else { c.max_transforms };
    ModOpts { max_transforms: mt, group_transforms: if r.chance(1, 2) { 0 } else { 2 }, lo, hi, ec, vals, ec_vals, wide, permute: r.chance(1, 3), color: None }
}
/// One still, losslessly coded modular image.
pub fn still(r: &mut Rng, c: &Cfg) -> Stream1 {
    loop {
        let (mut w, mut h) = (random_dim(r, c.big), random_dim(r, c.big));
        if r.chance(1, 12) {
            // several low-frequency groups
            let l = 1025 + r.below(600) as u32;
            let s = 1 + r.below(12) as u32;
            (w, h) = if r.bool() { (l, s) } else { (s, l) };
        }
        if w as usize * h as usize > c.max_px {
            continue;
        }
        let mut img = ImageHdr::new(w, h);
        img.depth = c.depth.clone().unwrap_or_else(|| random_depth(r));
        img.ecs = random_ecs(r, &img.depth);
        // declare 16-bit buffers only if they suffice
        img.modular16 = false;
        if r.chance(1, 3) {
            img.color = Color::gray();
        }
        let mut hd = FrameHdr::new(&img);
        hd.group_shift = r.below(4) as u32;
        hd.passes = random_passes(r);
        if r.chance(1, 4) {
            hd.name = (0..r.below(30)).map(|_| b'A' + r.below(26) as u8).collect();
        }
        let o = random_mod_opts(r, &img, c);
        let mut out = image_start(r, &img);
        if let Ok((b, chans, info)) = modular_frame(r, &img, &hd, &Features::default(), &o) {
            out.extend_from_slice(&b);
            return Stream1 { data: out, img, hdr: hd, chans, info };
        }
    }
}
/// The value a sample stands for.
pub fn sample_value(d: &Depth, v: i64) -> f64 {
    if d.exp == 0 {
        return v as f64 / ((1u64 << d.bits) - 1) as f64;
    }
    let v = v as u64 & ((1u64 << d.bits) - 1);
    let mant = d.bits - 1 - d.exp;
    let s = v >> (d.bits - 1) & 1;
    let e = (v >> mant & ((1 << d.exp) - 1)) as i32;
    let m = (v & ((1 << mant) - 1)) as f64;
    let bias = (1 << (d.exp - 1)) - 1;
    let x = if e == 0 { m * 2f64.powi(1 - bias - mant as i32) } else { (1.0 + m * 2f64.powi(-(mant as i32))) * 2f64.powi(e - bias) };
    if s == 1 { -x } else { x }
}
fn random_name(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(6) { 0 => 0, 1 => [15, 16, 31, 47, 48, 49][r.below(6)], 2 => max, _ => r.below(30) };
    let mut s = String::new();
    while s.len() < n {
        let c = *r.pick(&['a', 'Z', ' ', '\u{e9}', '\u{4e2d}', '\u{1f600}', '\0', '"', '7']);
        if s.len() + c.len_utf8() <= n.min(max) {
            s.push(c);
        } else {
            s.push('.');
        }
    }
    s.into_bytes()
}
pub fn random_ext(r: &mut Rng) -> Vec<(u32, usize)> {
    if r.chance(3, 4) {
        return vec![];
    }
    (0..1 + r.below(3)).map(|_| { let big = if r.chance(1, 5) { 3000 } else { 40 }; (r.below(63) as u32, r.below(big)) }).collect()
}
/// A finite half float.
pub fn random_half(r: &mut Rng) -> u16 {
    loop {
        let v = r.u64() as u16;
        if v >> 10 & 31 != 31 {
            return v;
        }
    }
}
pub fn half_in(r: &mut Rng, lo: f64, hi: f64) -> u16 {
    super::bits::to_half(lo + (hi - lo) * r.f64())
}
pub fn random_color(r: &mut Rng) -> Color {
    let mut c = Color::srgb();
    if r.chance(1, 4) {
        return c;
    }
    if r.chance(1, 5) {
        c = Color::gray();
    }
    if r.chance(1, 5) {
        c.icc = Some(super::icc::random(r));
        if c.space == 0 && r.chance(1, 4) {
            c.space = 3;
        }
        return c;
    }
    c.white = *r.pick(&[1, 1, 2, 10, 11]);
    let xy = |r: &mut Rng| -> (i32, i32) {
        let s = [1usize << 18, 1 << 19, 1 << 20, 1 << 21][r.below(4)] as i64;
        let lim = (1 << 21) - 1;
        (r.range(-s, s).clamp(-lim, lim) as i32, r.range(-s, s).clamp(-lim, lim) as i32)
    };
    c.white_xy = xy(r);
    c.prim = *r.pick(&[1, 2, 9, 11]);
    for p in &mut c.prim_xy {
        *p = xy(r);
    }
    c.tf = if r.chance(1, 4) { Tf::Gamma(1300 + r.below(10_000_000 - 1300) as u32) } else { Tf::Code(*r.pick(&[TF_709, TF_LINEAR, TF_SRGB, TF_PQ, TF_DCI, TF_HLG])) };
    c.intent = r.below(4) as u32;
    // what is not coded is not there
    if c.white != 2 {
        c.white_xy = (0, 0);
    }
    if c.space == 1 {
        c.prim = 1;
    }
    if c.prim != 2 {
        c.prim_xy = [(0, 0); 3];
    }
    c
}
/// Custom white point and primaries that are those of some device.
pub fn tame_color(r: &mut Rng, c: &mut Color) {
    let mut near = |x: i64, y: i64| ((x + r.range(-60_000, 60_000)) as i32, (y + r.range(-60_000, 60_000)) as i32);
    if c.white == 2 {
        c.white_xy = near(320_000, 340_000);
    }
    if c.prim == 2 {
        c.prim_xy = [near(650_000, 320_000), near(260_000, 650_000), near(150_000, 70_000)];
    }
}
pub fn random_anim(r: &mut Rng) -> Anim {
    Anim {
        num: *r.pick(&[100, 1000, 1, 24, 30000, 1023, 1024, 1025, 1 << 30]),
        den: *r.pick(&[1, 1001, 2, 256, 257, 1000, 1024]),
        loops: match r.below(4) { 0 => 0, 1 => r.below(8) as u32, 2 => r.below(65536) as u32, _ => r.u64() as u32 },
        timecodes: r.chance(1, 4),
    }
}
/// Any legal image header of this size.
pub fn random_image_hdr(r: &mut Rng, w: u32, h: u32) -> ImageHdr {
    let mut img = ImageHdr::new(w, h);
    if r.chance(1, 10) {
        img.xyb = true;
        return img;
    }
    if r.bool() {
        img.orientation = 1 + r.below(8) as u32;
    }
    let dim = |r: &mut Rng, big: u64| -> u32 {
        match r.below(6) {
            0 => 1 + r.below(8) as u32,
            1 => 8 * (1 + r.below(32)) as u32,
            2 => 1 + r.below(300) as u32,
            _ => 1 + (r.u64() % big) as u32,
        }
    };
    if r.chance(1, 5) {
        img.intrinsic = Some((dim(r, 1 << 20), dim(r, 1 << 30)));
    }
    if r.chance(1, 5) {
        img.preview = Some(match r.below(3) {
            0 => (8 * (1 + r.below(544)) as u32, 8 * (1 + r.below(544)) as u32),
            _ => (1 + r.below(4096) as u32, 1 + r.below(4096) as u32),
        });
    }
    if r.chance(1, 3) {
        img.anim = Some(random_anim(r));
    }
    img.depth = random_depth(r);
    img.modular16 = r.bool();
    img.ecs = random_ecs(r, &img.depth);
    if r.chance(1, 10) {
        let n = [17, 18, 19, 60, 256][r.below(5)];
        img.ecs = (0..n).map(|_| Ec::new(*r.pick(&[EC_ALPHA, EC_DEPTH, 15, 16]), 8)).collect();
    }
    for e in &mut img.ecs {
        if r.chance(1, 6) {
            e.name = random_name(r, 1071);
        }
        if r.chance(1, 4) {
            e.dim_shift = r.below(4) as u32;
        }
        if e.ty == EC_SPOT && r.chance(1, 3) {
            e.spot = [0; 4].map(|_| random_half(r));
        }
    }
    img.xyb = r.bool();
    img.color = random_color(r);
    if r.chance(1, 3) {
        let relative = r.bool();
        let target = match r.below(3) { 0 => half_in(r, 50.0, 10000.0), 1 => half_in(r, 1e-6, 1.0).max(1), _ => 1 + r.below(0x7bff) as u16 };
        img.tone = Tone {
            target,
            min: if r.bool() { 0 } else { r.below(target as usize + 1) as u16 },
            relative,
            below: if r.bool() { 0 } else if relative { r.below(0x3c01) as u16 } else { r.below(0x7c00) as u16 },
        };
    }
    if r.chance(1, 4) {
        if img.xyb && r.bool() {
            img.custom.opsin = Some([0; 16].map(|_| half_in(r, -10.0, 10.0)));
        }
        let mut ws = |n: usize| if r.bool() { Some((0..n).map(|_| half_in(r, -0.2, 0.6)).collect()) } else { None };
        img.custom.w2 = ws(15);
        img.custom.w4 = ws(55);
        img.custom.w8 = ws(210);
    }
    img.ext = random_ext(r);
    img
}
fn random_blend(r: &mut Rng, necs: usize) -> Blend {
    let mode = if r.bool() { BM_REPLACE } else { r.below(5) as u32 };
    Blend { mode, alpha: if necs > 0 { r.below(necs.min(11)) as u32 } else { 0 }, clamp: r.bool(), source: r.below(4) as u32 }
}
/// Any legal frame header; the sizes stay near those of the image.
pub fn random_frame_hdr(r: &mut Rng, img: &ImageHdr, last: bool) -> FrameHdr {
    let mut h = FrameHdr::new(img);
    h.last = last;
    h.modular = r.bool();
    h.filter = if r.chance(1, 3) { Filter::default() } else { Filter::off() };
    if r.chance(1, 8) && img.xyb && img.ecs.is_empty() && last {
        h.modular = false;
        h.filter = Filter::default();
        return h;
    }
    if !last {
        h.ty = [FT_REGULAR, FT_REGULAR, FT_REGULAR, FT_REF, FT_LF, FT_SKIP_PROG][r.below(6)];
    } else if r.chance(1, 6) {
        h.ty = FT_SKIP_PROG;
    }
    for f in [FL_NOISE, FL_PATCHES, FL_SPLINES, FL_USE_LF, FL_SKIP_SMOOTH] {
        if r.chance(1, 5) {
            h.flags |= f;
        }
    }
    if r.chance(1, 20) {
        h.flags |= 1 << r.below(40) & !0x33;
    }
    if !img.xyb {
        h.ycbcr = r.chance(1, 4);
    }
    let lf = h.flags & FL_USE_LF != 0;
    if h.ycbcr && !lf {
        h.jpeg_up = [0; 3].map(|_| r.below(4) as u32);
    }
    if !lf {
        h.upsampling = [1, 1, 2, 4, 8][r.below(5)];
        for (i, e) in img.ecs.iter().enumerate() {
            let ok: Vec<u32> = [1u32, 2, 4, 8].into_iter().filter(|u| u << e.dim_shift <= 8 && u << e.dim_shift >= h.upsampling).collect();
            if ok.is_empty() {
                h.upsampling = 1;
                h.ec_up.fill(1);
                break;
            }
            h.ec_up[i] = *r.pick(&ok);
        }
        // mixed factors do not go with patches
        if (0..img.ecs.len()).any(|i| h.ec_up[i] << img.ecs[i].dim_shift != h.upsampling || h.ec_up[i] != h.upsampling) {
            h.flags &= !FL_PATCHES;
        }
    } else {
        h.flags &= !FL_PATCHES;
    }
    h.group_shift = if h.modular { r.below(4) as u32 } else { 1 };
    if !h.modular && img.xyb {
        h.xqm = r.below(8) as u32;
        h.bqm = r.below(8) as u32;
    } else {
        h.xqm = 3;
        h.bqm = 2;
    }
    if h.ty != FT_REF {
        h.passes = random_passes(r);
    }
    if h.ty == FT_LF {
        h.lf_level = 1 + r.below(if lf { 3 } else { 4 }) as u32;
    }
    if h.ty != FT_LF && r.chance(1, 3) {
        let s = |r: &mut Rng, d: u32| -> i32 { match r.below(4) { 0 => 0, 1 => -(r.below(3000) as i32), _ => r.below(d as usize * 2) as i32 - d as i32 / 2 } };
        let (x, y) = (s(r, img.w), s(r, img.h));
        h.crop = Some((x, y, 1 + r.below(img.w as usize * 2) as u32, 1 + r.below(img.h as usize * 2) as u32));
        if r.chance(1, 8) {
            // covers the image
            h.crop = Some((-(r.below(5) as i32), 0, img.w + 5, img.h + r.below(300) as u32));
        }
        if h.ty == FT_REF {
            let c = h.crop.as_mut().unwrap();
            (c.0, c.1) = (0, 0);
        }
    }
    if h.normal() {
        h.blend = random_blend(r, img.ecs.len());
        for i in 0..img.ecs.len() {
            h.ec_blend[i] = random_blend(r, img.ecs.len());
        }
        if let Some(a) = &img.anim {
            h.duration = match r.below(4) { 0 => 0, 1 => 1, 2 => r.below(256) as u32, _ => r.u64() as u32 };
            if a.timecodes {
                h.timecode = r.u64() as u32;
            }
        }
    }
    if h.ty != FT_LF && !(h.last && h.normal()) {
        h.save = r.below(4) as u32;
    }
    if !h.normal() {
        h.last = false;
    }
    h.before_ct = r.bool();
    if h.ty == FT_REF && !h.full_frame(img) {
        h.before_ct = true;
    }
    h.name = if r.chance(1, 3) { random_name(r, 1071) } else { vec![] };
    if r.chance(1, 3) {
        h.filter = random_filter(r, h.modular);
    }
    h.ext = random_ext(r);
    h
}
pub fn random_filter(r: &mut Rng, modular: bool) -> Filter {
    let mut f = Filter::off();
    f.gab = r.bool();
    if f.gab && r.bool() {
        f.gab_w = Some([0; 6].map(|_| half_in(r, -0.05, 0.2)));
    }
    f.epf = r.below(4) as u32;
    if f.epf > 0 {
        if !modular && r.bool() {
            f.sharp = Some([0; 8].map(|_| half_in(r, 0.0, 1.0)));
        }
        if r.bool() {
            f.weights = Some([half_in(r, 1.0, 80.0), half_in(r, 1.0, 10.0), half_in(r, 1.0, 10.0), half_in(r, 0.1, 1.0), half_in(r, 0.1, 1.0)]);
        }
        if r.bool() {
            f.sigma = Some([half_in(r, 0.2, 1.0), half_in(r, 0.5, 1.5), half_in(r, 3.0, 9.0), half_in(r, 0.3, 1.0)]);
        }
        if modular {
            f.sigma_modular = half_in(r, 0.2, 3.0);
        }
    }
    f.ext = random_ext(r);
    f
}
/// A frame with this header whose sections are arbitrary bytes.
pub fn junk_frame(r: &mut Rng, img: &ImageHdr, h: &FrameHdr) -> Vec<u8> {
    let n = h.num_sections(img);
    let big = if n > 100 { 3 } else { 40 };
    let s = (0..n)
        .map(|_| {
            let mut b = super::bits::Bw::new();
            for _ in 0..r.below(big) {
                b.put(8, r.u64() & 255);
            }
            b
        })
        .collect();
    let p = r.chance(1, 4);
    super::frame::assemble(r, img, h, s, p, &mut FrameInfo::default())
}
