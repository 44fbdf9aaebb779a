//! Streams of several frames that make use of what frames can do: layers, references,
//! patches, splines, noise, filters, upsampling.
use super::bits::*;
use super::entropy::*;
use super::frame::*;
use super::hdr::*;
use super::make::*;
use super::modular::Chan;
use super::vardct::vardct_frame;
use crate::refr::stages::*;
use crate::refr::*;
use crate::rng::Rng;

#[derive(Clone)]
pub struct Movie {
    pub data: Vec<u8>,
    pub img: ImageHdr,
    pub frames: Vec<MFrame>,
    /// what the image header takes in `data`
    pub start: usize,
    pub tags: Vec<String>,
    /// byte range of each frame
    pub spans: Vec<(usize, usize)>,
}
#[derive(Clone)]
pub struct MovieCfg {
    pub max_frames: usize,
    pub max_dim: usize,
    /// chances in percent
    pub blend: usize,
    pub features: usize,
    pub filters: usize,
    pub upsample: usize,
    pub xyb: usize,
    pub transforms: usize,
    /// allow colour encodings other than sRGB
    pub color: bool,
    pub float: bool,
    pub anim: usize,
    pub orient: bool,
    /// noise also without end-to-end known seeds
    pub noise: bool,
    pub preview: bool,
    /// chance in percent of channels with samples far out of range
    pub far: usize,
    /// chance in percent of frames coded with variable-size transforms
    pub vardct: usize,
    /// what else to change about the image
    pub tweak: Option<fn(&mut Rng, &mut ImageHdr)>,
}
impl Default for MovieCfg {
    fn default() -> Self {
        MovieCfg { max_frames: 6, max_dim: 90, blend: 60, features: 40, filters: 30, upsample: 25, xyb: 30, transforms: 1, color: true, float: true, anim: 50, orient: true, noise: true, preview: false, far: 0, vardct: 0, tweak: None }
    }
}
pub fn pct(r: &mut Rng, p: usize) -> bool {
    r.below(100) < p
}
#[derive(Clone, Copy)]
struct SlotInfo {
    w: usize,
    h: usize,
    before_ct: bool,
}
pub fn write_patches(r: &mut Rng, p: &[PatchRef], necs: usize) -> Bw {
    let mut t = vec![];
    let mut put = |ctx: u32, v: u64| t.push(Tok { ctx, val: v as u32 });
    put(0, p.len() as u64);
    let mut prev = (0usize, 0usize);
    for q in p {
        put(1, q.slot as u64);
        put(3, q.x0 as u64);
        put(3, q.y0 as u64);
        put(2, q.w as u64 - 1);
        put(2, q.h as u64 - 1);
        put(7, q.places.len() as u64 - 1);
        for (i, (x, y, bl)) in q.places.iter().enumerate() {
            if i == 0 {
                put(4, *x as u64);
                put(4, *y as u64);
            } else {
                put(6, pack_signed(*x as i64 - prev.0 as i64));
                put(6, pack_signed(*y as i64 - prev.1 as i64));
            }
            prev = (*x, *y);
            for b in bl {
                let m = MODES.iter().position(|m| *m == b.mode).unwrap();
                put(5, m as u64);
                if m >= 4 && necs >= 2 {
                    put(8, b.alpha as u64);
                }
                if m >= 3 {
                    put(9, b.clamp as u64);
                }
            }
        }
    }
    write_toks(r, t, 10)
}
pub fn write_toks(r: &mut Rng, toks: Vec<Tok>, nctx: usize) -> Bw {
    let mut b = Bw::new();
    let s = Stream { toks, mult: 0 };
    let c = Code::build(r, nctx, std::slice::from_ref(&s), &Knobs::default());
    c.write_header(&mut b, r);
    c.write_stream(&mut b, 0);
    b
}
pub fn write_splines(r: &mut Rng, s: &[Spline], adj: i64) -> Bw {
    let mut t = vec![];
    let mut put = |ctx: u32, v: u64| t.push(Tok { ctx, val: v as u32 });
    put(2, s.len() as u64 - 1);
    let mut prev = (0, 0);
    for (i, q) in s.iter().enumerate() {
        if i == 0 {
            put(1, q.start.0 as u64);
            put(1, q.start.1 as u64);
        } else {
            put(1, pack_signed(q.start.0 - prev.0));
            put(1, pack_signed(q.start.1 - prev.1));
        }
        prev = q.start;
    }
    put(0, pack_signed(adj));
    for q in s {
        put(3, q.deltas.len() as u64);
        for d in &q.deltas {
            put(4, pack_signed(d.0));
            put(4, pack_signed(d.1));
        }
        for c in q.color.iter().chain(std::iter::once(&q.sigma)) {
            for v in c {
                put(5, pack_signed(*v));
            }
        }
    }
    write_toks(r, t, 6)
}
pub fn random_splines(r: &mut Rng, w: usize, h: usize, xyb: bool) -> (Vec<Spline>, i64) {
    let max = (w * h / 2).min(1 << 20);
    let n = (1 + r.below(3)).min(max.max(1));
    let mut cps = 0;
    let mut v: Vec<Spline> = vec![];
    for _ in 0..n {
        let start = (r.below(w + w / 4 + 1) as i64, r.below(h + h / 4 + 1) as i64);
        let k = r.below(5).min(max - cps.min(max));
        cps += k;
        let (mut x, mut y) = start;
        let (mut dx, mut dy) = (0, 0);
        let mut deltas = vec![];
        for _ in 0..k {
            // the next point, on or near the image
            let (nx, ny) = loop {
                let s = if r.chance(1, 3) { 3 } else { 40 };
                let p = (x + r.range(-s, s), y + r.range(-s, s));
                if p != (x, y) && p.0 > -50 && p.1 > -50 && p.0 < (w + w / 4) as i64 + 50 && p.1 < (h + h / 4) as i64 + 50 {
                    break p;
                }
            };
            deltas.push((nx - x - dx, ny - y - dy));
            (dx, dy) = (nx - x, ny - y);
            (x, y) = (nx, ny);
        }
        let few = |r: &mut Rng, dc: i64, ac: i64| {
            let mut c = [0i64; 32];
            c[0] = r.range(-dc, dc);
            for q in c.iter_mut().skip(1) {
                if r.chance(1, 6) {
                    *q = r.range(-ac, ac);
                }
            }
            c
        };
        let m = if xyb { 1 } else { 2 };
        let color = [few(r, 20 * m, 6), few(r, 10 * m, 3), few(r, 10 * m, 3)];
        let mut sigma = few(r, 8, 1);
        if r.chance(3, 4) {
            sigma[0] = 2 + r.below(9) as i64;
        }
        v.push(Spline { start, deltas, color, sigma });
    }
    // the first position is not signed
    (v, r.range(-4, 8))
}
fn random_patches(r: &mut Rng, cw: usize, ch: usize, slots: &[Option<SlotInfo>; 4], necs: usize, alphas: &[usize]) -> Vec<PatchRef> {
    let avail: Vec<usize> = (0..4).filter(|&i| slots[i].is_some_and(|s| s.before_ct)).collect();
    let mut v = vec![];
    if avail.is_empty() {
        return v;
    }
    for _ in 0..1 + r.below(4) {
        let slot = *r.pick(&avail);
        let s = slots[slot].unwrap();
        let (bw, bh) = (if r.bool() { 8 } else { 1000 }, if r.bool() { 8 } else { 1000 });
        let w = 1 + r.below(s.w.min(cw).min(bw));
        let h = 1 + r.below(s.h.min(ch).min(bh));
        let (x0, y0) = (r.below(s.w - w + 1), r.below(s.h - h + 1));
        let places = (0..1 + r.below(5))
            .map(|_| {
                let bl = (0..1 + necs)
                    .map(|_| {
                        let mut mode = *r.pick(&MODES);
                        if necs == 0 && matches!(mode, Mode::BlendAbove | Mode::BlendBelow | Mode::AddAbove | Mode::AddBelow) && r.chance(2, 3) {
                            mode = Mode::Add;
                        }
                        let alpha_used = MODES.iter().position(|m| *m == mode).unwrap() >= 4;
                        let alpha = if alpha_used && necs >= 2 { if alphas.is_empty() || r.chance(1, 5) { r.below(necs) } else { *r.pick(alphas) } } else { 0 };
                        let clampable = MODES.iter().position(|m| *m == mode).unwrap() >= 3;
                        Bl { mode, alpha, clamp: clampable && r.bool() }
                    })
                    .collect();
                (r.below(cw - w + 1), r.below(ch - h + 1), bl)
            })
            .collect();
        v.push(PatchRef { slot, x0, y0, w, h, places });
    }
    v
}
pub fn movie_image(r: &mut Rng, c: &MovieCfg) -> ImageHdr {
    let mut w = random_dim(r, c.max_dim).min(c.max_dim as u32);
    let mut h = random_dim(r, c.max_dim).min(c.max_dim as u32);
    if r.chance(1, 8) {
        // more groups in one direction
        let l = 129 + r.below(200) as u32;
        let s = 1 + r.below(40) as u32;
        (w, h) = if r.bool() { (l, s) } else { (s, l) };
    }
    let mut img = ImageHdr::new(w, h);
    img.depth = match r.below(8) {
        0 => Depth::int(1 + r.below(16) as u32),
        1 => Depth::int(16),
        2 if c.float => Depth { bits: 16, exp: 5 },
        3 => Depth::int([10, 12, 14][r.below(3)]),
        _ => Depth::int(8),
    };
    img.modular16 = false;
    img.xyb = pct(r, c.xyb);
    let n = match r.below(10) { 0..=2 => 0, 3..=6 => 1, 7 | 8 => 2, _ => 3 + r.below(2) };
    img.ecs = (0..n)
        .map(|i| {
            let ty = if i == 0 && r.chance(3, 4) { EC_ALPHA } else { *r.pick(&[EC_ALPHA, EC_DEPTH, EC_SPOT, EC_SPOT, EC_SELECTION, EC_BLACK]) };
            let mut e = Ec::new(ty, 8);
            e.depth = if img.depth.exp == 0 && r.bool() { img.depth.clone() } else { Depth::int([1, 8, 8, 12, 16][r.below(5)]) };
            e.assoc = ty == EC_ALPHA && r.chance(1, 3);
            if ty == EC_SPOT {
                e.spot = [0; 4].map(|_| half_in(r, 0.0, 1.0));
            }
            if r.chance(1, 8) {
                e.dim_shift = 1 + r.below(3) as u32;
            }
            e
        })
        .collect();
    if r.chance(1, 6) {
        img.color = Color::gray();
    }
    if c.color && r.bool() {
        let space = img.color.space;
        img.color.tf = if img.xyb { [Tf::Code(TF_LINEAR), Tf::Code(TF_709), Tf::Gamma(4545455), Tf::Code(TF_DCI), Tf::Code(TF_PQ)][r.below(5)].clone() } else { img.color.tf.clone() };
        if space == 0 {
            img.color.prim = *r.pick(&[1, 9, 11]);
        }
        img.color.white = *r.pick(&[1, 1, 10, 11]);
    }
    if pct(r, c.anim) {
        img.anim = Some(Anim { num: 100, den: 1, loops: 0, timecodes: r.chance(1, 4) });
    }
    if c.orient && r.chance(1, 3) {
        img.orientation = 1 + r.below(8) as u32;
    }
    if r.chance(1, 5) {
        let mut ws = |n: usize| if r.bool() { Some((0..n).map(|_| half_in(r, -0.1, 0.3)).collect()) } else { None };
        img.custom.w2 = ws(15);
        img.custom.w4 = ws(55);
        img.custom.w8 = ws(210);
    }
    img
}
fn movie_opts(r: &mut Rng, img: &ImageHdr, c: &MovieCfg) -> ModOpts {
    let f = |r: &mut Rng, d: &Depth| -> (i64, i64, Option<std::sync::Arc<Vec<i64>>>) {
        if d.exp > 0 {
            // halves within [-0.25, 1.5]
            let v: Vec<i64> = (0..1 + r.below(40)).map(|_| half_in(r, -0.25, 1.5) as i64).collect();
            return (*v.iter().min().unwrap(), *v.iter().max().unwrap(), Some(std::sync::Arc::new(v)));
        }
        let max = (1i64 << d.bits) - 1;
        if c.far > 0 && pct(r, c.far) {
            let v: Vec<i64> = (0..2 + r.below(30)).map(|_| if r.bool() { r.below(max as usize + 1) as i64 } else { { let k = 1usize << (3 + r.below(25)); r.below(2 * k) as i64 - k as i64 } }).collect();
            return (*v.iter().min().unwrap(), *v.iter().max().unwrap(), Some(std::sync::Arc::new(v)));
        }
        match r.below(6) {
            0 => (-(max / 4), max + max / 4, None),
            1 => {
                let v: Vec<i64> = [0, max, max / 2, max / 3].into_iter().take(2 + r.below(3)).collect();
                (0, max, Some(std::sync::Arc::new(v)))
            }
            _ => (0, max, None),
        }
    };
    let (mut lo, mut hi, mut vals) = f(r, &img.depth);
    let mut color = None;
    if img.xyb {
        (lo, hi, vals) = (-300, 450, None);
        // the range that makes up the range of output colours
        let sc = (half_value(img.tone.target) / 255.0).cbrt();
        let q = |v: i64| (v as f64 * sc).round() as i64;
        color = Some([(0, q(450).max(1)), (q(-60), q(60)), (q(-230), q(60))]);
    }
    let mut ec = vec![];
    let mut ec_vals = vec![];
    for e in &img.ecs {
        let (l, h, v) = f(r, &e.depth);
        ec.push((l, h));
        ec_vals.push(v);
    }
    // (differences of floating point samples easily are infinities)
    let float = img.depth.exp > 0;
    ModOpts { max_transforms: if r.chance(2, 3) || float && r.chance(9, 10) { 0 } else { c.transforms }, group_transforms: if float && r.chance(9, 10) { 0 } else { r.below(2) }, lo, hi, ec, vals, ec_vals, wide: false, permute: r.chance(1, 4), color }
}
/// Whether a sample is an infinity or a NaN: what becomes of those is not defined.
fn has_infinities(img: &ImageHdr, chans: &[Chan]) -> bool {
    let nc = chans.len() - img.ecs.len();
    chans.iter().enumerate().any(|(i, ch)| {
        let d = if i < nc { &img.depth } else { &img.ecs[i - nc].depth };
        if d.exp == 0 || (i < nc && img.xyb) {
            return false;
        }
        let m = (1 << d.exp) - 1;
        (0..ch.h).any(|y| (0..ch.w).any(|x| ch.at(x, y) >> (d.bits - 1 - d.exp) & m == m))
    })
}
/// A random movie; `tags` name what it exercises.
pub fn movie(r: &mut Rng, c: &MovieCfg) -> Movie {
    loop {
        if let Some(m) = try_movie(r, c) {
            return m;
        }
    }
}
fn try_movie(r: &mut Rng, c: &MovieCfg) -> Option<Movie> {
    let mut img = movie_image(r, c);
    if let Some(t) = c.tweak {
        t(r, &mut img);
    }
    if c.preview && r.bool() {
        img.preview = Some(if r.bool() { (8 * (1 + r.below(6)) as u32, 8 * (1 + r.below(6)) as u32) } else { (1 + r.below(70) as u32, 1 + r.below(70) as u32) });
    }
    let mut data = image_start(r, &img);
    if let Some((pw, ph)) = img.preview {
        let pi = ImageHdr { w: pw, h: ph, preview: None, ..img.clone() };
        let mut h = FrameHdr::new(&pi);
        h.last = true;
        h.group_shift = r.below(4) as u32;
        for (k, e) in img.ecs.iter().enumerate() {
            h.ec_up[k] = [8u32, 4, 2, 1].into_iter().find(|u| u << e.dim_shift <= 8)?;
        }
        let mut fb = Features { patches: None, splines: None, noise: None, lf_quant: None };
        if r.bool() {
            fb.noise = Some([500; 8]);
            h.flags |= FL_NOISE;
        }
        if r.bool() {
            h.filter = random_filter(r, true);
        }
        let o = movie_opts(r, &img, c);
        data.extend_from_slice(&modular_frame(r, &pi, &h, &fb, &o).ok()?.0);
    }
    let start = data.len();
    let necs = img.ecs.len();
    let alphas: Vec<usize> = (0..necs).filter(|&i| img.ecs[i].ty == EC_ALPHA).collect();
    let nf = 1 + r.below(c.max_frames);
    let mut slots: [Option<SlotInfo>; 4] = [None; 4];
    let mut frames: Vec<MFrame> = vec![];
    let mut tags: Vec<String> = vec![];
    let mut spans = vec![];
    let (iw, ih) = (img.w as usize, img.h as usize);
    let want_patches = pct(r, c.features);
    let (mut i, mut plan, mut use_lf, mut have_lf) = (0, vec![], false, [false; 4]);
    while i < nf {
        if plan.is_empty() && !use_lf && pct(r, c.vardct / 4) {
            use_lf = true;
            if !have_lf[0] || r.chance(2, 3) {
                plan = (1..=[1, 1, 2, 2, 3, 4][r.below(6)]).collect();
            }
        }
        let lf_level = plan.pop().unwrap_or(0);
        if lf_level == 0 {
            i += 1;
        }
        let last = i == nf;
        let mut h = FrameHdr::new(&img);
        h.last = last;
        h.lf_level = lf_level;
        h.group_shift = r.below(4) as u32;
        if (pct(r, c.vardct) || use_lf && lf_level == 0) && (img.xyb || !img.gray()) {
            h.modular = false;
            if if lf_level == 0 { std::mem::take(&mut use_lf) } else { lf_level < 4 && have_lf[lf_level as usize] } {
                h.flags |= FL_USE_LF;
            }
            if img.xyb {
                (h.xqm, h.bqm) = (r.below(8) as u32, r.below(8) as u32);
            }
        }
        if r.chance(1, 3) {
            h.passes = random_passes(r);
        }
        let lf_used = h.flags & FL_USE_LF != 0;
        if lf_level > 0 {
            h.ty = FT_LF;
            have_lf[lf_level as usize - 1] = true;
        } else if !last {
            h.ty = if want_patches && r.bool() || r.chance(1, 6) { FT_REF } else if r.chance(1, 8) { FT_SKIP_PROG } else { FT_REGULAR };
        }
        if h.ty == FT_REF {
            h.last = false;
            h.passes = PassesHdr { num: 1, shift: vec![], ds: vec![] };
        }
        if !img.xyb && r.chance(1, if h.modular { 12 } else { 3 }) && !img.gray() {
            h.ycbcr = true;
            if !lf_used && r.chance(2, 3) {
                h.jpeg_up = [0; 3].map(|_| r.below(4) as u32);
            }
        }
        if !lf_used && pct(r, c.upsample) {
            h.upsampling = [2, 4, 8][r.below(3)];
        }
        // upsampling of the extra channels
        for (k, e) in img.ecs.iter().enumerate() {
            let ok: Vec<u32> = [1u32, 2, 4, 8].into_iter().filter(|u| u << e.dim_shift <= 8 && u << e.dim_shift >= h.upsampling).collect();
            if ok.is_empty() {
                return None;
            }
            h.ec_up[k] = if lf_used { 1 } else if r.chance(1, 3) { *r.pick(&ok) } else if ok.contains(&h.upsampling) { h.upsampling } else { ok[0] };
        }
        // crop
        let cropped = !lf_used && lf_level == 0 && pct(r, if h.ty == FT_REF { 70 } else { c.blend });
        if cropped {
            let (w, hh) = (1 + r.below(iw + iw / 3), 1 + r.below(ih + ih / 3));
            let (x, y) = (r.range(-(w as i64) / 2 - 1, iw as i64 - 1), r.range(-(hh as i64) / 2 - 1, ih as i64 - 1));
            h.crop = Some((x as i32, y as i32, w as u32, hh as u32));
            if r.chance(1, 6) {
                h.crop = Some((-(r.below(4) as i32), -(r.below(4) as i32), iw as u32 + 4, ih as u32 + 4));
            }
            if r.chance(1, 20) {
                // outside the canvas altogether
                h.crop = Some((iw as i32 + r.below(9) as i32, 0, 1 + r.below(9) as u32, 3));
            }
            if h.ty == FT_REF {
                let k = h.crop.as_mut().unwrap();
                (k.0, k.1) = (0, 0);
            }
        }
        if h.normal() && (pct(r, c.blend) || h.crop.is_some()) {
            // slots whose content may show through
            let ok: Vec<u32> = (0..4u32).filter(|&s| slots[s as usize].is_none_or(|s| (s.w, s.h) == (iw, ih) && !(s.before_ct && img.xyb))).collect();
            if ok.is_empty() {
                return None;
            }
            let used: Vec<u32> = ok.iter().copied().filter(|&s| slots[s as usize].is_some()).collect();
            let mut bl = |r: &mut Rng| {
                let mode = r.below(5) as u32;
                let al = mode == BM_BLEND || mode == BM_MULADD;
                let source = if !used.is_empty() && r.chance(5, 6) { *r.pick(&used) } else { *r.pick(&ok) };
                Blend { mode, alpha: if al && necs > 0 { if alphas.is_empty() || r.chance(1, 6) { r.below(necs) as u32 } else { *r.pick(&alphas) as u32 } } else { 0 }, clamp: ((al && necs > 0) || mode == BM_MUL) && r.bool(), source }
            };
            h.blend = bl(r);
            for k in 0..necs {
                h.ec_blend[k] = bl(r);
            }
        }
        // (what is not coded is zero)
        let full = h.full_frame(&img);
        for b in std::iter::once(&mut h.blend).chain(h.ec_blend.iter_mut()) {
            if full && b.mode == BM_REPLACE {
                b.source = 0;
            }
        }
        if h.normal() {
            if let Some(a) = &img.anim {
                h.duration = [0, 1, 3, 300][r.below(4)];
                if a.timecodes {
                    h.timecode = r.u64() as u32;
                }
            }
        }
        if !h.last && h.ty != FT_LF {
            h.save = r.below(4) as u32;
        }
        h.before_ct = h.ty == FT_LF || r.bool();
        if h.ty == FT_REF && !h.full_frame(&img) {
            h.before_ct = true;
        }
        // a normal frame that replaces with slot 0 as its implied source is fine: nothing shows through
        if h.normal() && full && std::iter::once(&h.blend).chain(&h.ec_blend).any(|b| b.mode == BM_REPLACE) {
            let needs = h.crop.is_some() || std::iter::once(&h.blend).chain(&h.ec_blend).any(|b| b.mode != BM_REPLACE);
            if needs && slots[0].is_some_and(|s| (s.w, s.h) != (iw, ih)) {
                return None;
            }
        }
        if pct(r, c.filters) {
            h.filter = random_filter(r, h.modular);
        }
        if !h.modular && (h.jpeg_up != [0; 3] || r.chance(1, 3)) {
            h.flags |= FL_SKIP_SMOOTH;
        }
        if r.chance(1, 8) {
            h.name = b"layer".to_vec();
        }
        let (cw, chh) = h.coded_size(&img);
        let mut feat = Feat::default();
        let mixed = (0..necs).any(|k| h.ec_up[k] << img.ecs[k].dim_shift != h.upsampling || h.ec_up[k] != h.upsampling);
        if want_patches && lf_level == 0 && !mixed && r.chance(2, 3) {
            feat.patches = random_patches(r, cw, chh, &slots, necs, &alphas);
        }
        if !feat.patches.is_empty() {
            h.flags |= FL_PATCHES;
        }
        if pct(r, c.features / 2) && cw * chh >= 2 {
            (feat.splines, feat.spline_adj) = random_splines(r, cw, chh, img.xyb);
            h.flags |= FL_SPLINES;
        }
        if c.noise && pct(r, c.features / 2) {
            feat.noise = { let big = if r.bool() { 100 } else { 1024 }; Some([0; 8].map(|_| if r.chance(1, 4) { 0 } else { r.below(big) as u32 })) };
            h.flags |= FL_NOISE;
        }
        if img.xyb && r.chance(1, 4) {
            feat.lf_quant = Some([half_in(r, 0.02, 0.05), half_in(r, 0.15, 0.3), half_in(r, 0.3, 0.6)]);
        }
        let o = movie_opts(r, &img, c);
        let fb = Features {
            patches: if feat.patches.is_empty() { None } else { Some(write_patches(r, &feat.patches, necs)) },
            splines: if feat.splines.is_empty() { None } else { Some(write_splines(r, &feat.splines, feat.spline_adj)) },
            noise: feat.noise,
            lf_quant: feat.lf_quant,
        };
        let (bytes, src) = if h.modular {
            let (bytes, chans, _) = modular_frame(r, &img, &h, &fb, &o).ok()?;
            if has_infinities(&img, &chans) {
                return None;
            }
            (bytes, Source::Modular(chans))
        } else {
            let (bytes, src, t, _) = vardct_frame(r, &img, &h, &fb, &o).ok()?;
            if let Source::Lossy(_, ecs) = &src {
                if has_infinities(&img, ecs) {
                    return None;
                }
            }
            for t in t {
                if !tags.contains(&t) {
                    tags.push(t);
                }
            }
            (bytes, src)
        };
        let s0 = data.len();
        data.extend_from_slice(&bytes);
        spans.push((s0, data.len()));
        if h.can_be_referenced() {
            let before = h.saves_before_ct(&img);
            let (fw, fh) = h.canvas_size(&img);
            slots[h.save as usize] = Some(if before { SlotInfo { w: fw, h: fh, before_ct: true } } else { SlotInfo { w: iw, h: ih, before_ct: false } });
        }
        // what this frame exercises
        let mut tag = |t: String| if !tags.contains(&t) { tags.push(t) };
        if h.normal() && (h.crop.is_some() || h.blend.mode != 0 || h.ec_blend.iter().any(|b| b.mode != 0)) {
            for (k, b) in std::iter::once(&h.blend).chain(&h.ec_blend).enumerate() {
                tag(format!("{} blend mode {}{}", if k == 0 { "colour" } else { "extra channel" }, b.mode, if b.clamp { " clamped" } else { "" }));
            }
            tag(if h.crop.is_some() { "cropped frame".into() } else { "blended full frame".into() });
        }
        for p in &feat.patches {
            for (_, _, b) in &p.places {
                tag(format!("patch mode {:?}", b[0].mode));
            }
        }
        if !feat.splines.is_empty() {
            tag("splines".into());
        }
        if feat.noise.is_some() {
            tag(format!("noise{}", if h.upsampling > 1 { " with upsampling" } else { "" }));
        }
        if h.upsampling > 1 {
            tag(format!("upsampling {}", h.upsampling));
        }
        for k in 0..necs {
            let u = h.ec_up[k] << img.ecs[k].dim_shift;
            if u > 1 {
                tag(format!("extra channel upsampling {u} in frame upsampling {}", h.upsampling));
            }
        }
        if h.filter.gab {
            tag("gaborish".into());
        }
        if h.filter.epf > 0 {
            tag(format!("edge-preserving filter {}", h.filter.epf));
        }
        if h.ycbcr {
            tag(format!("YCbCr {}", if h.jpeg_up == [0; 3] { "4:4:4" } else { "subsampled" }));
        }
        if h.can_be_referenced() {
            tag(format!("reference {}", if h.saves_before_ct(&img) { "before colour transform" } else { "after" }));
        }
        if !h.visible() {
            tag("hidden frame".into());
        }
        frames.push(MFrame { hdr: h, feat, src });
    }
    let mut tag = |t: String| if !tags.contains(&t) { tags.push(t) };
    tag(if img.xyb { "XYB".into() } else if img.gray() { "gray".into() } else { "RGB".into() });
    if img.custom.w2.is_some() || img.custom.w4.is_some() || img.custom.w8.is_some() {
        tag("custom upsampling weights".into());
    }
    Some(Movie { data, img, frames, start, tags, spans })
}
/// Where a sample of the image shown with this orientation comes from.
pub fn orient_size(o: u32, w: usize, h: usize) -> (usize, usize) {
    if o >= 5 { (h, w) } else { (w, h) }
}
/// Position in the coded image of the pixel (x, y) of the oriented one (coded size w x h).
pub fn orient_src(o: u32, w: usize, h: usize, x: usize, y: usize) -> (usize, usize) {
    match o {
        1 => (x, y),
        2 => (w - 1 - x, y),
        3 => (w - 1 - x, h - 1 - y),
        4 => (x, h - 1 - y),
        5 => (y, x),
        6 => (y, h - 1 - x),
        7 => (w - 1 - y, h - 1 - x),
        _ => (w - 1 - y, x),
    }
}
