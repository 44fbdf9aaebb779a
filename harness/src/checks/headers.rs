//! What the decoder reports about image and frames, against the generated headers.
use jxl::api::*;
use vh::drv::*;
use vh::enc::bits::half_value;
use vh::enc::hdr::*;
use vh::enc::make::*;
use vh::report::Ctx;
use vh::rng::*;
use vh::work::*;

#[derive(Default)]
struct Grab {
    info: Option<JxlBasicInfo>,
    prof: Option<JxlColorProfile>,
    scanned: Vec<VisibleFrameInfo>,
}
impl Monitor for Grab {
    fn on_image_info(&mut self, d: &mut JxlDecoder<states::WithImageInfo>) {
        self.info = Some(d.basic_info().clone());
        self.prof = Some(d.embedded_color_profile().clone());
    }
    fn on_done(&mut self, d: &mut Wi) {
        self.scanned = d.scanned_frames().to_vec();
    }
}
fn close(a: f32, b: f64) -> bool {
    (a as f64 - b).abs() <= 2e-7 * b.abs().max(1e-9)
}
fn profile_diff(c: &Color, p: &JxlColorProfile) -> Option<String> {
    if let Some(icc) = &c.icc {
        return match p {
            JxlColorProfile::Icc(b) if b == icc => None,
            JxlColorProfile::Icc(b) => Some(format!("icc profile: {} bytes instead of {}, first difference at {:?}", b.len(), icc.len(), b.iter().zip(icc).position(|(x, y)| x != y))),
            p => Some(format!("profile: {} instead of an ICC profile", profile_string(p))),
        };
    }
    let JxlColorProfile::Simple(e) = p else { return Some("ICC profile instead of enum values".into()) };
    let (wp, prim, tf, ri, gray) = match e {
        JxlColorEncoding::RgbColorSpace { white_point, primaries, transfer_function, rendering_intent } => (white_point, Some(primaries), transfer_function, rendering_intent, false),
        JxlColorEncoding::GrayscaleColorSpace { white_point, transfer_function, rendering_intent } => (white_point, None, transfer_function, rendering_intent, true),
        _ => return Some(format!("{e:?}")),
    };
    if gray != (c.space == 1) {
        return Some(format!("colour space: {e:?}"));
    }
    let xy = |v: (i32, i32), x: f32, y: f32| close(x, v.0 as f64 / 1e6) && close(y, v.1 as f64 / 1e6);
    let ok = match (c.white, wp) {
        (1, JxlWhitePoint::D65) | (10, JxlWhitePoint::E) | (11, JxlWhitePoint::DCI) => true,
        (2, JxlWhitePoint::Chromaticity { wx, wy }) => xy(c.white_xy, *wx, *wy),
        _ => false,
    };
    if !ok {
        return Some(format!("white point: {wp:?} instead of {} {:?}", c.white, c.white_xy));
    }
    let ok = match (c.prim, prim) {
        (_, None) | (1, Some(JxlPrimaries::SRGB)) | (9, Some(JxlPrimaries::BT2100)) | (11, Some(JxlPrimaries::P3)) => true,
        (2, Some(JxlPrimaries::Chromaticities { rx, ry, gx, gy, bx, by })) => xy(c.prim_xy[0], *rx, *ry) && xy(c.prim_xy[1], *gx, *gy) && xy(c.prim_xy[2], *bx, *by),
        _ => false,
    };
    if !ok {
        return Some(format!("primaries: {prim:?} instead of {} {:?}", c.prim, c.prim_xy));
    }
    let ok = match (&c.tf, tf) {
        (Tf::Gamma(g), JxlTransferFunction::Gamma(v)) => close(*v, *g as f64 / 1e7),
        (Tf::Code(TF_709), JxlTransferFunction::BT709)
        | (Tf::Code(TF_LINEAR), JxlTransferFunction::Linear)
        | (Tf::Code(TF_SRGB), JxlTransferFunction::SRGB)
        | (Tf::Code(TF_PQ), JxlTransferFunction::PQ)
        | (Tf::Code(TF_DCI), JxlTransferFunction::DCI)
        | (Tf::Code(TF_HLG), JxlTransferFunction::HLG) => true,
        _ => false,
    };
    if !ok {
        return Some(format!("transfer function: {tf:?} instead of {:?}", c.tf));
    }
    if *ri as u32 != c.intent {
        return Some(format!("rendering intent: {ri:?} instead of {}", c.intent));
    }
    None
}
fn info_diff(img: &ImageHdr, b: &JxlBasicInfo) -> Option<String> {
    let t = img.orientation > 4;
    let want = if t { (img.h as usize, img.w as usize) } else { (img.w as usize, img.h as usize) };
    if b.size != want {
        return Some(format!("size: {:?} instead of {want:?}", b.size));
    }
    if b.orientation as u32 != img.orientation {
        return Some(format!("orientation: {:?} instead of {}", b.orientation, img.orientation));
    }
    let d = match b.bit_depth {
        JxlBitDepth::Int { bits_per_sample } => Depth::int(bits_per_sample),
        JxlBitDepth::Float { bits_per_sample, exponent_bits_per_sample } => Depth { bits: bits_per_sample, exp: exponent_bits_per_sample },
    };
    if d != img.depth {
        return Some(format!("bit depth: {d:?} instead of {:?}", img.depth));
    }
    let e: Vec<(u32, bool)> = b.extra_channels.iter().map(|e| (e.ec_type as u32, e.alpha_associated)).collect();
    let w: Vec<(u32, bool)> = img.ecs.iter().map(|e| (e.ty, e.assoc)).collect();
    if e != w {
        return Some(format!("extra channels: {e:?} instead of {w:?}"));
    }
    let a = b.animation.as_ref().map(|a| Anim { num: a.tps_numerator, den: a.tps_denominator, loops: a.num_loops, timecodes: a.have_timecodes });
    if a != img.anim {
        return Some(format!("animation: {a:?} instead of {:?}", img.anim));
    }
    if b.uses_original_profile == img.xyb {
        return Some("uses_original_profile: wrong".into());
    }
    let tm = &b.tone_mapping;
    let ok = tm.intensity_target as f64 == half_value(img.tone.target)
        && tm.min_nits as f64 == half_value(img.tone.min)
        && tm.relative_to_max_display == img.tone.relative
        && tm.linear_below as f64 == half_value(img.tone.below);
    if !ok {
        return Some(format!("tone mapping: {} {} {} {} instead of {:?}", tm.intensity_target, tm.min_nits, tm.relative_to_max_display, tm.linear_below, img.tone));
    }
    let p = img.preview.map(|p| (p.0 as usize, p.1 as usize));
    if b.preview_size != p {
        return Some(format!("preview size: {:?} instead of {p:?}", b.preview_size));
    }
    None
}
fn bump(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.u64() as u8).collect()
}
pub fn image_check(img: &ImageHdr, g: &Grab2) -> Option<String> {
    let Some(b) = &g.info else { return Some("no image information".into()) };
    info_diff(img, b).or_else(|| profile_diff(&img.color, g.prof.as_ref().unwrap()))
}
pub struct Grab2 {
    pub info: Option<JxlBasicInfo>,
    pub prof: Option<JxlColorProfile>,
}
/// A sequence of frame headers with junk sections.
pub struct ScanStream {
    pub data: Vec<u8>,
    pub img: ImageHdr,
    pub frames: Vec<FrameHdr>,
    pub starts: Vec<u64>,
}
pub fn scan_stream(r: &mut Rng) -> ScanStream {
    let (w, h) = (random_dim(r, 500), random_dim(r, 500));
    let mut img = random_image_hdr(r, w, h);
    if let Some(p) = &mut img.preview {
        p.0 = p.0.min(400);
        p.1 = p.1.min(400);
    }
    if img.ecs.len() > 20 {
        img.ecs.truncate(20);
    }
    if r.bool() && img.anim.is_none() {
        img.anim = Some(random_anim(r));
    }
    let mut data = vh::enc::frame::image_start(r, &img);
    if let Some((pw, ph)) = img.preview {
        let pi = ImageHdr { w: pw, h: ph, preview: None, ..img.clone() };
        let mut h = random_frame_hdr(r, &pi, true);
        h.ty = FT_REGULAR;
        h.flags &= !FL_USE_LF;
        h.crop = None;
        data.extend(junk_frame(r, &pi, &h));
    }
    let n = match r.below(5) { 0 => 1, 1 => 2, _ => 1 + r.below(14) };
    let mut frames = vec![];
    let mut starts = vec![];
    for i in 0..n {
        let h = random_frame_hdr(r, &img, i + 1 == n);
        starts.push(data.len() as u64);
        data.extend(junk_frame(r, &img, &h));
        frames.push(h);
    }
    ScanStream { data, img, frames, starts }
}
pub fn p17(ctx: &Ctx) {
    ctx.rule("generated stream (distinct by its bytes); every reported field compared with the coded value");
    let ids: Vec<usize> = (0..ctx.n(40_000, 800_000)).collect();
    ctx.par(&ids, |_, &i| {
        let _g = vh::watch::begin(&format!("headers {i}"));
        let mut r = Rng::derive(ctx.seed, "p17", i as u64);
        match i % 4 {
            0 | 1 => image_only(ctx, &mut r, i),
            2 => scans(ctx, &mut r, i),
            _ => frames(ctx, &mut r, i),
        }
    });
}
/// Any image header, followed by nothing of use.
fn image_only(ctx: &Ctx, r: &mut Rng, i: usize) {
    let lim = [10, 300, 5000, 1 << 20, 1 << 30][r.below(5)];
    let mut d = |r: &mut Rng| if r.chance(1, 8) { [1u32, 256, 512, 8192, 1 << 18, 1 << 30, 8193, 513][r.below(8)] } else { 1 + r.below(lim) as u32 };
    let (mut w, mut h) = (d(r), d(r));
    if r.chance(1, 3) {
        // one of the fixed ratios
        let (n, q) = [(1u64, 1u64), (12, 10), (4, 3), (3, 2), (16, 9), (5, 4), (2, 1)][r.below(7)];
        h = h.min(1 << 29);
        w = (h as u64 * n / q).clamp(1, 1 << 30) as u32;
    }
    let img = random_image_hdr(r, w, h);
    let start = vh::enc::frame::image_start(r, &img);
    let mut data = start.clone();
    if r.bool() {
        data.extend(bump(r, 40));
    }
    let mut g = Grab::default();
    let req = Req {
        opts: Opts { scan_only: true, ..Default::default() },
        feed: match r.below(3) { 0 => Feed::OneShot, 1 => Feed::Fixed(1), _ => Feed::Random(r.u64(), 20) },
        ..Default::default()
    };
    let o = decode_mon(&data, &req, &mut g);
    ctx.eval(Some(hash_bytes(&data)));
    ctx.count("image headers", 1);
    let d = match &o.end {
        End::Panic(p) => Some(format!("panic {p}")),
        _ => image_check(&img, &Grab2 { info: g.info, prof: g.prof }),
    };
    if let Some(d) = d {
        let what = d.split(':').next().unwrap().to_string();
        ctx.violation(&format!("image {what}"), &format!("case {i}: {d}; {:?}\n{img:?}\n{req:?}", o.end), &[("stream.jxl", &data)]);
    }
    ctx.count("with icc profile", img.color.icc.is_some() as u64);
    ctx.sample(|| format!("{img:?}").chars().take(600).collect());
}
fn name_of(h: &FrameHdr) -> String {
    String::from_utf8(h.name.clone()).unwrap()
}
fn scans(ctx: &Ctx, r: &mut Rng, i: usize) {
    let s = scan_stream(r);
    let mut g = Grab::default();
    let req = Req {
        opts: Opts { scan_only: true, skip_preview: r.bool(), ..Default::default() },
        feed: match r.below(3) { 0 => Feed::OneShot, 1 => Feed::Random(r.u64(), 1 + s.data.len()), _ => Feed::Random(r.u64(), 30) },
        ..Default::default()
    };
    let o = decode_mon(&s.data, &req, &mut g);
    ctx.eval(Some(hash_bytes(&s.data)));
    ctx.count("scanned streams", 1);
    ctx.count("scanned frames", s.frames.len() as u64);
    let scanned = std::mem::take(&mut g.scanned);
    let d = match &o.end {
        End::Done(_) => image_check(&s.img, &Grab2 { info: g.info, prof: g.prof }).or_else(|| scan_diff(ctx, &s, &scanned)),
        e => Some(format!("end: {e:?}")),
    };
    if let Some(d) = d {
        let what = d.split(':').next().unwrap().to_string();
        ctx.violation(&format!("scan {what}"), &format!("case {i}: {d}\n{:?}\n{:#?}\n{req:?}", s.img, s.frames), &[("stream.jxl", &s.data)]);
    }
}
/// Index entries against the headers, and seek targets against the dependencies among the frames.
pub fn scan_diff(ctx: &Ctx, s: &ScanStream, got: &[VisibleFrameInfo]) -> Option<String> {
    let vis: Vec<usize> = (0..s.frames.len()).filter(|&k| s.frames[k].visible()).collect();
    if vis.len() != got.len() {
        return Some(format!("count: {} frames listed, {} visible", got.len(), vis.len()));
    }
    // earliest frame that each frame needs; `None`: nothing but itself
    let need = dependencies(&s.img, &s.frames);
    for (n, (&k, g)) in vis.iter().zip(got).enumerate() {
        let h = &s.frames[k];
        let dur = s.img.anim.as_ref().map_or(0.0, |a| h.duration as f64 * 1000.0 * a.den as f64 / a.num as f64);
        if g.index != n {
            return Some(format!("index: {} of frame {n}", g.index));
        }
        if g.duration_ticks != h.duration || (g.duration_ms - dur).abs() > 1e-9 * dur {
            return Some(format!("duration: {} {} instead of {} {dur}", g.duration_ticks, g.duration_ms, h.duration));
        }
        if g.name != name_of(h) {
            return Some(format!("name: {:?} instead of {:?}", g.name, name_of(h)));
        }
        if g.is_last != h.last {
            return Some(format!("last: {} of frame {n}", g.is_last));
        }
        if g.file_offset != s.starts[k] {
            return Some(format!("offset: {} instead of {} for frame {n}", g.file_offset, s.starts[k]));
        }
        let st = g.seek_target.decode_start_file_offset;
        let Some(sk) = s.starts.iter().position(|&x| x == st) else { return Some(format!("seek start: {st} of frame {n} is no frame start: {:?}", s.starts)) };
        if sk > need[k] {
            return Some(format!("seek start: frame {k} (visible {n}) needs frame {}, but decoding would start at frame {sk}", need[k]));
        }
        let skip = (sk..k).filter(|&j| s.frames[j].visible()).count();
        if g.seek_target.visible_frames_to_skip != skip {
            return Some(format!("seek skip: {} instead of {skip} for frame {k}, start {sk}", g.seek_target.visible_frames_to_skip));
        }
        if g.is_keyframe != (skip == 0) {
            return Some(format!("keyframe: {} although {skip} frames are to be skipped", g.is_keyframe));
        }
        ctx.count("seek targets judged", 1);
        ctx.count("seek targets that need earlier frames", (need[k] < k) as u64);
    }
    None
}
/// For each frame the earliest frame whose data it depends on (itself if none).
pub fn dependencies(img: &ImageHdr, frames: &[FrameHdr]) -> Vec<usize> {
    let mut slots: [Option<usize>; 4] = [None; 4];
    let mut lf: [Option<usize>; 4] = [None; 4];
    let mut need = vec![];
    for (k, h) in frames.iter().enumerate() {
        let mut n = k;
        let mut dep = |s: Option<usize>, n: &mut usize| {
            if let Some(f) = s {
                *n = (*n).min(f);
            }
        };
        if h.normal() {
            let full = h.full_frame(img);
            for b in std::iter::once(&h.blend).chain(&h.ec_blend) {
                if !full || b.mode != BM_REPLACE {
                    dep(slots[b.source as usize], &mut n);
                }
            }
        }
        if h.flags & FL_PATCHES != 0 {
            for s in slots {
                dep(s, &mut n);
            }
        }
        if h.flags & FL_USE_LF != 0 {
            dep(lf[h.lf_level as usize], &mut n);
        }
        need.push(n);
        // what is stored depends on whatever the frame depends on
        if h.can_be_referenced() {
            slots[h.save as usize] = Some(n);
        }
        if h.ty == FT_LF {
            lf[h.lf_level as usize - 1] = Some(n);
        }
    }
    need
}
/// Decodable frames: what is reported with each decoded frame.
fn frames(ctx: &Ctx, r: &mut Rng, i: usize) {
    let (w, h) = (1 + r.below(12) as u32, 1 + r.below(12) as u32);
    let mut img = random_image_hdr(r, w, h);
    img.preview = None;
    img.ecs.truncate(3);
    for e in &mut img.ecs {
        e.dim_shift = 0;
    }
    tame_color(r, &mut img.color);
    img.depth = Depth::int(8);
    img.ecs.iter_mut().for_each(|e| e.depth = Depth::int(8));
    if r.chance(2, 3) && img.anim.is_none() {
        img.anim = Some(random_anim(r));
    }
    let n = 1 + r.below(5);
    let mut data = vh::enc::frame::image_start(r, &img);
    let mut hs = vec![];
    for k in 0..n {
        let q = random_frame_hdr(r, &img, k + 1 == n);
        let mut hd = FrameHdr::new(&img);
        hd.ty = if q.normal() { q.ty } else { FT_REGULAR };
        hd.last = k + 1 == n;
        hd.name = q.name;
        hd.ext = q.ext;
        hd.duration = if img.anim.is_some() { if r.chance(1, 4) { 0 } else { r.below(1000) as u32 } } else { 0 };
        hd.timecode = if img.anim.as_ref().is_some_and(|a| a.timecodes) { r.u64() as u32 } else { 0 };
        hd.save = if hd.last { 0 } else { r.below(4) as u32 };
        let o = random_mod_opts(r, &img, &Cfg { max_transforms: 1, ..Default::default() });
        let Ok((b, _, _)) = vh::enc::frame::modular_frame(r, &img, &hd, &Default::default(), &o) else { return };
        data.extend(b);
        hs.push(hd);
    }
    let mut g = Grab::default();
    let req = Req {
        feed: match r.below(3) { 0 => Feed::OneShot, 1 => Feed::Random(r.u64(), 1 + data.len()), _ => Feed::Random(r.u64(), 30) },
        skip_mask: if r.chance(1, 4) { r.u64() } else { 0 },
        runner: random_runner(r),
        ..Default::default()
    };
    let o = decode_mon(&data, &req, &mut g);
    ctx.eval(Some(hash_bytes(&data)));
    ctx.count("decoded streams", 1);
    let vis: Vec<&FrameHdr> = hs.iter().filter(|h| h.visible()).collect();
    let d = (|| {
        if !o.end.is_done() {
            return Some(format!("end: {:?}", o.end));
        }
        if let Some(d) = image_check(&img, &Grab2 { info: g.info, prof: g.prof }) {
            return Some(d);
        }
        if o.frames.len() != vis.len() {
            return Some(format!("count: {} frames, {} visible", o.frames.len(), vis.len()));
        }
        let want = if img.orientation > 4 { (h as usize, w as usize) } else { (w as usize, h as usize) };
        for (f, h) in o.frames.iter().zip(&vis) {
            if f.name != name_of(h) {
                return Some(format!("name: {:?} instead of {:?}", f.name, name_of(h)));
            }
            let dur = img.anim.as_ref().map(|a| h.duration as f64 * 1000.0 * a.den as f64 / a.num as f64);
            if f.duration.is_some() != dur.is_some() || dur.is_some_and(|d| (f.duration.unwrap() - d).abs() > 1e-9 * d) {
                return Some(format!("duration: {:?} instead of {dur:?}", f.duration));
            }
            if f.size != want {
                return Some(format!("frame size: {:?} instead of {want:?}", f.size));
            }
            ctx.count("decoded frames", 1);
        }
        if let End::Done(Some(l)) = o.end {
            if l != data.len() as u64 {
                return Some(format!("file length: {l} instead of {}", data.len()));
            }
        }
        None
    })();
    if let Some(d) = d {
        let what = d.split(':').next().unwrap().to_string();
        ctx.violation(&format!("decode {what}"), &format!("case {i}: {d}\n{img:?}\n{hs:#?}\n{req:?}"), &[("stream.jxl", &data)]);
    }
}
