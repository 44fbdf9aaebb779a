//! Checks of what is made of the decoded image on its way to the caller's buffers.
use super::render::*;
use jxl::api::*;
use std::sync::atomic::{AtomicU64, Ordering};
use vh::drv::*;
use vh::enc::bits::{half_value, to_half};
use vh::enc::frame::image_start;
use vh::enc::hdr::*;
use vh::enc::make::*;
use vh::enc::movie::*;
use vh::refr::*;
use vh::report::Ctx;
use vh::rng::*;
use vh::work::*;

pub fn bytes_of(f: &JxlDataFormat) -> usize {
    match f {
        JxlDataFormat::U8 { .. } => 1,
        JxlDataFormat::U16 { .. } | JxlDataFormat::F16 { .. } => 2,
        JxlDataFormat::F32 { .. } => 4,
    }
}
/// Raw bits of the sample with index `i`.
pub fn raw(f: &JxlDataFormat, b: &[u8], i: usize) -> u32 {
    let two = |e: &Endianness| {
        let x = [b[2 * i], b[2 * i + 1]];
        if *e == Endianness::LittleEndian { u16::from_le_bytes(x) } else { u16::from_be_bytes(x) }
    };
    match f {
        JxlDataFormat::U8 { .. } => b[i] as u32,
        JxlDataFormat::U16 { endianness: e, .. } | JxlDataFormat::F16 { endianness: e } => two(e) as u32,
        JxlDataFormat::F32 { endianness: e } => {
            let x: [u8; 4] = b[4 * i..4 * i + 4].try_into().unwrap();
            if *e == Endianness::LittleEndian { u32::from_le_bytes(x) } else { u32::from_be_bytes(x) }
        }
    }
}
fn half_ok(g: u16, v: f64) -> bool {
    if v.abs() >= 65520.0 {
        let want = if v < 0.0 { 0x8000 } else { 0 };
        return g & 0x8000 == want && (g & 0x7fff) >= 0x7bff && (g & 0x7fff) <= 0x7c00;
    }
    if g & 0x7c00 == 0x7c00 {
        return false;
    }
    let best = half_value(to_half(v));
    let (d, e) = ((half_value(g) - v).abs(), (best - v).abs());
    d < e || (d == e && (half_value(g) == best || g & 1 == 0))
}
#[derive(Default)]
struct Dither {
    n: u64,
    sum: f64,
}
/// Whether a sample in this format is a conversion of `v`.
fn converted(f: &JxlDataFormat, raw: u32, v: f32, clamp: Option<(f64, f64)>, di: &mut Dither) -> bool {
    let x = v as f64;
    if x.is_nan() {
        return true;
    }
    match f {
        JxlDataFormat::F32 { .. } => raw == v.to_bits(),
        JxlDataFormat::F16 { .. } => half_ok(raw as u16, x) || clamp.is_some_and(|(a, b)| (x < a || x > b) && half_ok(raw as u16, x.clamp(a, b))),
        JxlDataFormat::U16 { bit_depth, .. } => {
            let max = ((1u32 << bit_depth) - 1) as f64;
            (raw as f64 - x.clamp(0.0, 1.0) * max).abs() <= 0.5 + 0.01 && raw as f64 <= max
        }
        JxlDataFormat::U8 { bit_depth } => {
            let max = ((1u32 << bit_depth) - 1) as f64;
            let s = x * max;
            // the rounding may be randomised by less than half a step
            let (lo, hi) = ((s - 0.4925 + 0.5).floor().clamp(0.0, max), (s + 0.4925 + 0.5).floor().clamp(0.0, max));
            if s > 1.0 && s < max - 1.0 {
                di.n += 1;
                di.sum += raw as f64 - s;
            }
            (lo..=hi).contains(&(raw as f64))
        }
    }
}
fn opaque(f: &JxlDataFormat) -> u32 {
    match f {
        JxlDataFormat::U8 { bit_depth } => (1 << bit_depth) - 1,
        JxlDataFormat::U16 { bit_depth, .. } => (1 << bit_depth) - 1,
        JxlDataFormat::F16 { .. } => 0x3c00,
        JxlDataFormat::F32 { .. } => 1f32.to_bits(),
    }
}
/// Full-precision planes of the frames of a file, by channel (3 colour channels, extra channels).
pub struct Base {
    pub out: Outcome,
    pub gray: bool,
    pub alpha: Option<usize>,
    in_color: bool,
    necs: usize,
}
/// The file's own kind of colour, or red, green and blue for gray images too.
pub fn f32_fmt(alpha: bool, wide: bool) -> Fmt {
    Fmt::Pix { color: wide.then_some(if alpha { JxlColorType::Rgba } else { JxlColorType::Rgb }), alpha, fmt: Some(JxlDataFormat::f32()), ec: vec![Some(JxlDataFormat::f32())] }
}
impl Base {
    pub fn new(data: &[u8], opts: &Opts, alpha: bool, wide: bool) -> Option<Base> {
        let out = decode(data, &Req { opts: opts.clone(), fmt: f32_fmt(alpha, wide), ..Default::default() });
        let m = out.meta.as_ref()?;
        let necs = m.fmt.extra_channel_format.len();
        let gray = m.fmt.color_type.is_grayscale(); // (false if wide)
        let al = m.alpha.map(|a| a.0);
        Some(Base { gray, alpha: al, in_color: alpha && al.is_some(), necs, out })
    }
    /// Value of channel c of frame k (c < 3: colour).
    pub fn at(&self, k: usize, c: usize, i: usize) -> f32 {
        let f = &self.out.frames[k];
        let nc = self.out.meta.as_ref().unwrap().fmt.color_type.samples_per_pixel();
        let get = |b: &[u8], i: usize| f32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
        if c < 3 {
            return get(&f.bufs[0], i * nc + if self.gray { 0 } else { c });
        }
        let e = c - 3;
        match self.alpha {
            Some(a) if self.in_color && e == a => get(&f.bufs[0], i * nc + nc - 1),
            Some(a) if self.in_color && e > a => get(&f.bufs[e], i),
            _ => get(&f.bufs[1 + e], i),
        }
    }
}
struct P11 {
    samples: AtomicU64,
    dithered: AtomicU64,
}
fn p11_compare(b: &Base, o: &Outcome, st: &P11) -> Option<String> {
    if o.end.class() != b.out.end.class() || o.frames.len() != b.out.frames.len() {
        return Some(format!("end {:?} with {} frames instead of {:?} with {}", o.end, o.frames.len(), b.out.end, b.out.frames.len()));
    }
    let m = o.meta.as_ref()?;
    let clamp = if m.icc.rsplit("output").next().unwrap().contains("PQ") { Some((0.0, 1.0)) } else if m.icc.rsplit("output").next().unwrap().contains("HLG") { Some((-0.074, 1.1)) } else { None };
    let ct = m.fmt.color_type;
    for k in 0..o.frames.len() {
        let (f, g) = (&o.frames[k], &b.out.frames[k]);
        if (&f.name, f.duration, f.size) != (&g.name, g.duration, g.size) {
            return Some(format!("frame {k} is {:?} instead of {:?}", (&f.name, f.duration, f.size), (&g.name, g.duration, g.size)));
        }
        let n = f.size.0 * f.size.1;
        // (format, channels) of each buffer
        let mut want: Vec<(JxlDataFormat, Vec<Option<usize>>)> = vec![];
        if let Some(df) = m.fmt.color_data_format {
            let mut ch: Vec<Option<usize>> = match ct {
                JxlColorType::Grayscale | JxlColorType::GrayscaleAlpha => vec![Some(0)],
                JxlColorType::Bgr | JxlColorType::Bgra => vec![Some(2), Some(1), Some(0)],
                _ => vec![Some(0), Some(1), Some(2)],
            };
            if ct.has_alpha() {
                ch.push(b.alpha.map(|a| 3 + a));
            }
            want.push((df, ch));
        }
        for e in 0..b.necs {
            if let Some(df) = m.fmt.extra_channel_format[e] {
                want.push((df, vec![Some(3 + e)]));
            }
        }
        if f.bufs.len() != want.len() {
            return Some(format!("{} buffers", f.bufs.len()));
        }
        for (wi, ((df, ch), buf)) in want.iter().zip(&f.bufs).enumerate() {
            if buf.len() != n * ch.len() * bytes_of(df) {
                return Some(format!("buffer {wi} has {} bytes", buf.len()));
            }
            for (j, c) in ch.iter().enumerate() {
                let mut di = Dither::default();
                for i in 0..n {
                    let rv = raw(df, buf, i * ch.len() + j);
                    let ok = match c {
                        None => rv == opaque(df),
                        Some(c) => {
                            // (clamping is part of the transfer function of the colour buffer)
                            let v = b.at(k, *c, i);
                            converted(df, rv, v, if ch.len() > 1 || m.fmt.color_data_format.is_some() && wi == 0 { clamp } else { None }, &mut di)
                        }
                    };
                    if !ok {
                        let v = c.map(|c| b.at(k, c, i));
                        return Some(format!("frame {k} buffer {wi} component {j} of {}: sample ({},{}) of {}x{} in {df:?} is {rv:#x}, in full precision {v:?}", ch.len(), i % f.size.0, i / f.size.0, f.size.0, f.size.1));
                    }
                }
                st.samples.fetch_add(n as u64, Ordering::Relaxed);
                if di.n > 256 {
                    let (mean, lim) = (di.sum / di.n as f64, 0.05 + 4.0 / (di.n as f64).sqrt());
                    st.dithered.fetch_add(di.n, Ordering::Relaxed);
                    if mean.abs() > lim {
                        return Some(format!("frame {k} buffer {wi} component {j} in {df:?}: samples are on average off by {mean:.3} steps"));
                    }
                }
            }
        }
    }
    None
}
fn p11_file(ctx: &Ctx, name: &str, data: &[u8], r: &mut Rng, n: usize, st: &P11, mv: Option<&Movie>) {
    let mut opts = random_opts(r);
    let gray = decode(data, &Req { opts: Opts { scan_only: true, ..opts.clone() }, hash_only: true, ..Default::default() }).meta.is_some_and(|m| m.fmt.color_type.is_grayscale());
    for _ in 0..2 {
        let (Some(b0), Some(b1)) = (Base::new(data, &opts, false, true), Base::new(data, &opts, true, true)) else { return };
        // (splines, noise and filters with different weights make the colours of gray images differ)
        let flat = gray && mv.is_none_or(|m| m.frames.iter().all(|f| f.feat.splines.is_empty() && f.feat.noise.is_none() && f.hdr.filter.gab_w.is_none()) && !(opts.spot && m.img.ecs.iter().any(|e| e.ty == EC_SPOT)));
        if flat {
            ctx.count("gray files decoded to three colours", 1);
            for b in [&b0, &b1] {
                for (k, f) in b.out.frames.iter().enumerate() {
                    let n = f.size.0 * f.size.1;
                    if let Some((i, c)) = (0..n).flat_map(|i| [(i, 1), (i, 2)]).find(|&(i, c)| (b.at(k, 0, i) - b.at(k, c, i)).abs() > 1e-5 * (1.0 + b.at(k, 0, i).abs())) {
                        ctx.violation(&format!("gray {name}"), &format!("{name}: frame {k} of a gray image: sample {i} is {} in the first colour, {} in colour {c}; {opts:?}\n{}", b.at(k, 0, i), b.at(k, c, i), mv.map(describe).unwrap_or_default()), &[("input.jxl", data)]);
                        return;
                    }
                }
            }
        }
        for _ in 0..n {
            let req = Req { opts: opts.clone(), fmt: random_fmt(r, gray), runner: random_runner(r), geom: random_geom(r), ..Default::default() };
            let o = decode(data, &req);
            let Some(m) = &o.meta else { return };
            ctx.count(&format!("formats {:?}", m.fmt.color_type), 1);
            let b = if m.fmt.color_type.has_alpha() { &b1 } else { &b0 };
            if m.icc != b.out.meta.as_ref().unwrap().icc {
                // integer output of XYB images with a profile that is not implemented natively is in another encoding
                ctx.count("formats with another output encoding not compared", 1);
                let bi = &b.out.meta.as_ref().unwrap().icc;
                let int = matches!(m.fmt.color_data_format, None | Some(JxlDataFormat::U8 { .. } | JxlDataFormat::U16 { .. }));
                if !int || !bi.to_lowercase().contains("linear") {
                    ctx.violation(&format!("encoding {name}"), &format!("{name}: {req:?}: output profile is {} instead of {bi}", m.icc), &[("input.jxl", data)]);
                    return;
                }
                continue;
            }
            ctx.eval(Some(hash_bytes(format!("{name}{:?}{:?}", m.fmt, req.opts).as_bytes()) ^ hash_bytes(data)));
            if let Some(d) = p11_compare(b, &o, st) {
                ctx.violation(&format!("format {name}"), &format!("{name}: {d}\n{req:?}\n{:?}\n{}", m.fmt, mv.map(describe).unwrap_or_default()), &[("input.jxl", data)]);
                return;
            }
            ctx.sample(|| format!("{name}: {:?} {} frames", m.fmt, o.frames.len()));
        }
        opts = random_opts(r);
    }
}
fn wide_depths(r: &mut Rng, img: &mut ImageHdr) {
    if r.bool() {
        img.depth = Depth::int([1, 2, 4, 5, 7, 8, 8, 16, 24][r.below(9)]);
    }
}
pub fn p11(ctx: &Ctx) {
    ctx.rule("a file (corpus or generated sequence of frames) decoded to a random pixel format with random options, runner and buffer geometry and compared with its 32-bit float samples; distinct by (file, format, options)");
    let st = P11 { samples: AtomicU64::new(0), dithered: AtomicU64::new(0) };
    let items = corpus_items(ctx, ctx.n(60, 1000));
    let n = ctx.n(8, 80);
    ctx.par(&items, |_, it| {
        let _g = vh::watch::begin(&it.name);
        let mut r = Rng::derive(ctx.seed, "p11", hash_str(&it.name));
        p11_file(ctx, it.short(), &it.data, &mut r, n, &st, None);
    });
    let ids = case_ids(ctx.n(4800, 80_000));
    for level in [3u8, 2, 1, 0] {
        jxl_simd::verif::set_max_level(level);
        let b: Vec<usize> = ids.iter().copied().filter(|i| i % 4 == level as usize).collect();
        ctx.par(&b, |_, &i| {
            let _g = vh::watch::begin(&format!("movie {i}"));
            let mut r = Rng::derive(ctx.seed, "p11", i as u64);
            let c = MovieCfg { vardct: 15, blend: 20, features: 20, filters: 10, upsample: 15, max_frames: 2, max_dim: if i % 5 == 0 { 300 } else { 90 }, xyb: 25, far: 6, tweak: Some(wide_depths), ..Default::default() };
            let m = movie(&mut r, &c);
            p11_file(ctx, &format!("movie {i}"), &m.data, &mut r, 6, &st, Some(&m));
        });
    }
    jxl_simd::verif::set_max_level(3);
    ctx.count("samples compared", st.samples.load(Ordering::Relaxed));
    ctx.count("8-bit samples in the mean error", st.dithered.load(Ordering::Relaxed));
}
fn p12_compare(a: &Outcome, b: &Outcome, o: u32) -> Option<String> {
    if a.end.class() != b.end.class() || a.frames.len() != b.frames.len() {
        return Some(format!("end {:?} with {} frames instead of {:?} with {}", b.end, b.frames.len(), a.end, a.frames.len()));
    }
    let (Some(ma), Some(mb)) = (&a.meta, &b.meta) else { return None };
    let sz = orient_size(o, ma.size.0, ma.size.1);
    if mb.size != sz {
        return Some(format!("image size {:?} instead of {sz:?}", mb.size));
    }
    if ma.icc != mb.icc || ma.fmt != mb.fmt {
        return Some(format!("profiles or formats differ: {} {:?} and {} {:?}", ma.icc, ma.fmt, mb.icc, mb.fmt));
    }
    for (k, (f, g)) in a.frames.iter().zip(&b.frames).enumerate() {
        if (&f.name, f.duration) != (&g.name, g.duration) || g.size != orient_size(o, f.size.0, f.size.1) || f.bufs.len() != g.bufs.len() {
            return Some(format!("frame {k} is {:?} instead of {:?}", (&g.name, g.duration, g.size), (&f.name, f.duration, f.size)));
        }
        let (w, h) = f.size;
        for (q, (x, y)) in f.bufs.iter().zip(&g.bufs).enumerate() {
            if x.len() != y.len() {
                return Some(format!("buffer {q} of frame {k}: {} bytes instead of {}", y.len(), x.len()));
            }
            let px = x.len() / (w * h).max(1);
            let (ow, oh) = g.size;
            for dy in 0..oh {
                for dx in 0..ow {
                    let (sx, sy) = orient_src(o, w, h, dx, dy);
                    let (p, s) = ((dy * ow + dx) * px, (sy * w + sx) * px);
                    if x[s..s + px] != y[p..p + px] {
                        return Some(format!("buffer {q} of frame {k}: pixel ({dx},{dy}) of {ow}x{oh} is {:x?}, pixel ({sx},{sy}) of the identity orientation is {:x?}", &y[p..p + px], &x[s..s + px]));
                    }
                }
            }
        }
    }
    None
}
pub fn p12(ctx: &Ctx) {
    ctx.rule("a generated sequence of frames with each of the 7 other orientations in its header, decoded with the same pixel format and options and other runners, buffer geometry and feeds, compared pixel by pixel with the one of identity orientation; distinct by its bytes");
    let ids = case_ids(ctx.n(5000, 80_000));
    for level in [3u8, 2, 1, 0] {
        jxl_simd::verif::set_max_level(level);
        let b: Vec<usize> = ids.iter().copied().filter(|i| i % 4 == level as usize).collect();
        ctx.par(&b, |_, &i| {
            let _g = vh::watch::begin(&format!("movie {i}"));
            let mut r = Rng::derive(ctx.seed, "p12", i as u64);
            let big = i % 3 == 0;
            let c = MovieCfg { vardct: 25, blend: 20, features: 20, filters: 15, upsample: 15, max_frames: 2, max_dim: if big { 330 } else { 80 }, orient: false, ..Default::default() };
            let m = movie(&mut r, &c);
            for rep in 0..if big { 1 } else { 2 } {
                let fmt = random_fmt(&mut r, m.img.gray());
                let opts = random_opts(&mut r);
                let base = decode(&m.data, &Req { opts: opts.clone(), fmt: fmt.clone(), ..Default::default() });
                if !base.end.is_done() {
                    ctx.violation("identity", &format!("case {i}: {:?} {fmt:?}\n{}", base.end, describe(&m)), &[("stream.jxl", &m.data)]);
                    return;
                }
                for o in 2..=8u32 {
                    let mut img = m.img.clone();
                    img.orientation = o;
                    let mut data = image_start(&mut r, &img);
                    data.extend_from_slice(&m.data[m.start..]);
                    let req = Req {
                        opts: opts.clone(),
                        fmt: fmt.clone(),
                        runner: if r.bool() { random_runner(&mut r) } else { RunnerKind::None },
                        geom: random_geom(&mut r),
                        feed: if r.chance(1, 3) { Feed::Random(r.u64(), 1 + data.len() / 3) } else { Feed::OneShot },
                        flush: if r.chance(1, 4) { FlushPlan::Always } else { FlushPlan::Never },
                        ..Default::default()
                    };
                    let out = decode(&data, &req);
                    ctx.eval(Some(hash_bytes(&data) ^ hash_str(&format!("{fmt:?}"))));
                    ctx.count(&format!("orientation {o}"), 1);
                    ctx.count("pixels compared", out.frames.iter().map(|f| f.size.0 * f.size.1 * f.bufs.len()).sum::<usize>() as u64);
                    if let Some(d) = p12_compare(&base, &out, o) {
                        ctx.violation(&format!("orientation {o}"), &format!("case {i}: {d}\n{req:?}\n{}", describe(&m)), &[("identity.jxl", &m.data), ("oriented.jxl", &data)]);
                        return;
                    }
                }
                ctx.sample(|| format!("{}x{} {} frames {fmt:?} rep {rep}", m.img.w, m.img.h, m.frames.len()));
            }
        });
    }
    jxl_simd::verif::set_max_level(3);
}
fn p21_image(r: &mut Rng, img: &mut ImageHdr) {
    img.xyb = true;
    img.ecs.clear();
    img.custom = Default::default();
    img.color = if r.chance(1, 6) { Color::gray() } else { Color::srgb() };
    let c = &mut img.color;
    c.white = *r.pick(&[1, 1, 1, 2, 10, 11]);
    if c.white == 2 {
        // along the daylight locus, roughly
        let x = r.range(280_000, 390_000);
        c.white_xy = (x as i32, (r.range(-10_000, 10_000) + 350_000 + (x - 345_000) * 9 / 10) as i32);
    }
    if c.space == 0 {
        c.prim = *r.pick(&[1, 1, 2, 9, 11]);
        if c.prim == 2 {
            c.prim_xy = [(640_000, 330_000), (300_000, 600_000), (150_000, 60_000)].map(|(x, y)| ((x + r.range(-60_000, 60_000)) as i32, (y + r.range(-50_000, 50_000)) as i32));
        }
    }
    c.tf = if r.chance(1, 5) { Tf::Gamma(2_500_000 + r.below(7_500_001) as u32) } else { Tf::Code(*r.pick(&[TF_709, TF_LINEAR, TF_SRGB, TF_PQ, TF_DCI, TF_HLG])) };
    c.intent = r.below(4) as u32;
    if r.chance(1, 8) {
        c.icc = Some(vh::enc::icc::random(r));
    }
    if r.chance(2, 3) {
        img.tone.target = match r.below(6) {
            0 => to_half(255.0),
            1 => to_half(1000.0),
            2 => to_half(10000.0),
            3 => half_in(r, 30.0, 300.0),
            4 => half_in(r, 0.5, 30.0),
            _ => half_in(r, 300.0, 10000.0),
        };
    }
    if r.chance(1, 6) {
        // another opsin matrix, near the usual one
        let mut o = [0u16; 16];
        for i in 0..9 {
            o[i] = to_half(vh::refr::color::OPSIN[i / 3][i % 3] * (1.0 + (r.f64() - 0.5) * 0.2));
        }
        for v in &mut o[9..12] {
            *v = half_in(r, -0.006, 0.0);
        }
        for v in &mut o[12..] {
            *v = half_in(r, 0.1, 0.9);
        }
        img.custom.opsin = Some(o);
    }
}
pub fn p21(ctx: &Ctx) {
    ctx.rule("generated XYB image with random colour encoding, intensity target, opsin matrix and colours all over the range; its output compared with the definition; distinct by its bytes");
    let ids = case_ids(ctx.n(6000, 100_000));
    for level in [3u8, 2, 1, 0] {
        jxl_simd::verif::set_max_level(level);
        let b: Vec<usize> = ids.iter().copied().filter(|i| i % 4 == level as usize).collect();
        ctx.count(&format!("cases at SIMD level {level}"), b.len() as u64);
        ctx.par(&b, |_, &i| {
            let _g = vh::watch::begin(&format!("movie {i}"));
            let mut r = Rng::derive(ctx.seed, "p21", i as u64);
            let c = MovieCfg { blend: 0, features: 0, filters: 0, upsample: 0, xyb: 100, max_frames: 1, max_dim: 60, color: false, orient: false, tweak: Some(p21_image), ..Default::default() };
            let m = movie(&mut r, &c);
            movie_check(ctx, i, &mut r, &m, "colour", 1);
            ctx.count(&format!("transfer function {:?}", if m.img.color.icc.is_some() { "ICC".into() } else if let Tf::Gamma(_) = m.img.color.tf { "gamma".to_string() } else { format!("{:?}", m.img.color.tf) }), 1);
        });
    }
    jxl_simd::verif::set_max_level(3);
}
fn p24_image(r: &mut Rng, img: &mut ImageHdr) {
    let n = 1 + r.below(4);
    img.ecs = (0..n)
        .map(|_| {
            let ty = *r.pick(&[EC_ALPHA, EC_ALPHA, EC_SPOT, EC_SPOT, EC_SPOT, EC_DEPTH, EC_BLACK]);
            let mut e = Ec::new(ty, 8);
            e.depth = if img.depth.exp == 0 && r.bool() { img.depth.clone() } else { Depth::int([1, 8, 12, 16][r.below(4)]) };
            e.assoc = ty == EC_ALPHA && r.bool();
            if ty == EC_SPOT {
                e.spot = [0; 4].map(|_| half_in(r, -0.2, 1.3));
            }
            if r.chance(1, 10) {
                e.dim_shift = 1 + r.below(3) as u32;
            }
            e
        })
        .collect();
}
pub fn p24(ctx: &Ctx) {
    ctx.rule("a file (corpus or generated) decoded in 32-bit float with each combination of the spot colour, premultiplication and precision options and compared with what the plain output makes them; distinct by (file, options)");
    let its = corpus_items(ctx, ctx.n(60, 1000));
    ctx.par(&its, |_, it| {
        let _g = vh::watch::begin(&it.name);
        let mut r = Rng::derive(ctx.seed, "p24", hash_str(&it.name));
        p24_file(ctx, it.short(), &it.data, &mut r, None);
    });
    let ids = case_ids(ctx.n(6000, 90_000));
    for level in [3u8, 2, 1, 0] {
        jxl_simd::verif::set_max_level(level);
        let b: Vec<usize> = ids.iter().copied().filter(|i| i % 4 == level as usize).collect();
        ctx.par(&b, |_, &i| {
            let _g = vh::watch::begin(&format!("movie {i}"));
            let mut r = Rng::derive(ctx.seed, "p24", i as u64);
            let c = MovieCfg { blend: 50, features: 10, filters: 5, upsample: 15, max_frames: 4, max_dim: if i % 5 == 0 { 200 } else { 60 }, xyb: 20, tweak: Some(p24_image), ..Default::default() };
            let m = movie(&mut r, &c);
            p24_file(ctx, &format!("movie {i}"), &m.data, &mut r, Some(&m));
        });
    }
    jxl_simd::verif::set_max_level(3);
}
fn p24_file(ctx: &Ctx, name: &str, data: &[u8], r: &mut Rng, m: Option<&Movie>) {
    let hp = r.bool();
    let wide = r.bool();
    let o = |spot: bool, premultiply: bool| Opts { spot, premultiply, high_precision: hp, ..Default::default() };
    let (Some(plain), Some(straight)) = (Base::new(data, &o(false, false), false, wide), Base::new(data, &o(false, false), true, wide)) else { return };
    if !plain.out.end.is_done() {
        return;
    }
    let necs = plain.necs;
    let spots: Vec<(usize, [f32; 4])> = match m {
        Some(m) => (0..necs).filter(|&i| m.img.ecs[i].ty == EC_SPOT).map(|i| (i, m.img.ecs[i].spot.map(|b| half_value(b) as f32))).collect(),
        None => vec![],
    };
    let assoc = match m {
        Some(m) => straight.alpha.map(|a| m.img.ecs[a].assoc),
        None => straight.out.meta.as_ref().unwrap().alpha.map(|a| a.1),
    };
    for (spot, pre, alpha) in [(true, false, false), (true, false, true), (false, true, true), (true, true, true), (false, true, false)] {
        if spot && m.is_none() {
            continue;
        }
        let Some(b) = Base::new(data, &o(spot, pre), alpha, wide) else { return };
        ctx.eval(Some(hash_bytes(data) ^ hash_str(&format!("{spot}{pre}{alpha}{hp}"))));
        let fail = |d: String| ctx.violation(&format!("{name} spot {spot} premultiply {pre} alpha {alpha}"), &format!("{name} spot {spot} premultiply {pre} alpha in colour {alpha}: {d}\n{}", m.map(describe).unwrap_or_default()), &[("input.jxl", data)]);
        let (pm, bm) = (plain.out.meta.as_ref().unwrap(), b.out.meta.as_ref().unwrap());
        if b.out.end != plain.out.end || b.out.frames.len() != plain.out.frames.len() || pm.size != bm.size || pm.icc != bm.icc || pm.info != bm.info {
            fail(format!("{:?} {} frames {bm:?} instead of {:?} {} frames {pm:?}", b.out.end, b.out.frames.len(), plain.out.end, plain.out.frames.len()));
            return;
        }
        let mut cnt = [0u64; 4];
        for k in 0..plain.out.frames.len() {
            let (f, g) = (&plain.out.frames[k], &b.out.frames[k]);
            if (&f.name, f.duration, f.size) != (&g.name, g.duration, g.size) {
                fail(format!("frame {k} header differs"));
                return;
            }
            let (w, h) = f.size;
            for i in 0..w * h {
                for c in 0..3 + necs {
                    if c > 0 && c < 3 && plain.gray {
                        continue;
                    }
                    let p = plain.at(k, c, i);
                    let got = b.at(k, c, i);
                    let mut want = p as f64;
                    let mut tol = 0.0;
                    if c < 3 {
                        if spot {
                            for (e, col) in &spots {
                                let mix = plain.at(k, 3 + e, i) as f64 * col[3] as f64;
                                let (a, z) = (mix * col[c] as f64, (1.0 - mix) * want);
                                tol = tol * (1.0 - mix).abs() + 4e-7 * (a.abs() + z.abs() + want.abs() * mix.abs());
                                want = a + z;
                                cnt[0] += 1;
                            }
                        }
                        if pre && alpha && assoc == Some(false) {
                            let al = plain.at(k, 3 + plain.alpha.unwrap(), i) as f64;
                            tol = tol * al.abs() + 3e-7 * (want * al).abs();
                            want *= al;
                            cnt[1] += 1;
                        }
                    } else {
                        cnt[2] += 1;
                    }
                    let changed = tol > 0.0 || want != p as f64;
                    let same = if changed { !want.is_finite() || (got as f64 - want).abs() <= tol + 1e-30 || want.abs() > 1e37 } else { got.to_bits() == p.to_bits() || (got.is_nan() && p.is_nan()) || (got == 0.0 && p == 0.0) };
                    if !same {
                        fail(format!("frame {k} channel {c} at ({},{}) of {w}x{h} is {got}, plain {p}, should be {want}", i % w, i / w));
                        return;
                    }
                }
            }
        }
        ctx.count("spot colours mixed in", cnt[0]);
        ctx.count("samples premultiplied", cnt[1]);
        ctx.count("extra channel samples unchanged", cnt[2]);
        ctx.count("option combinations compared", 1);
    }
    ctx.sample(|| format!("{name}: {} spot channels, alpha {:?}, associated {assoc:?}", spots.len(), plain.alpha));
}
/// debugging: first rows of buffer `b` of frame `k`
pub fn dumpfmt(a: &[String]) {
    let data = std::fs::read(&a[0]).unwrap();
    let (k, b, w): (usize, usize, usize) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let u = |b| Some(JxlDataFormat::U8 { bit_depth: b });
    let f = Some(JxlDataFormat::f32());
    for (fmt, ec) in [(f, f), (u(2), u(7)), (f, u(7)), (u(2), f)] {
        for alpha in [false, true] {
            let o = decode(&data, &Req { opts: Opts { spot: false, ..Default::default() }, fmt: Fmt::Pix { color: None, alpha, fmt, ec: vec![ec] }, ..Default::default() });
            let n = o.frames[k].bufs.len();
            let v = &o.frames[k].bufs[n - 1 - b];
            println!("{fmt:?} {ec:?} alpha {alpha}: {:?}", o.end);
            for y in 0..7 {
                println!("{}", (0..w).map(|x| match ec { Some(JxlDataFormat::F32 { .. }) => format!("{:.2}", f32::from_le_bytes(v[4 * (y * w + x)..][..4].try_into().unwrap())), _ => format!("{}", v[y * w + x]) }).collect::<Vec<_>>().join(" "));
            }
        }
    }
}
/// debugging: decode FILE FEED FLUSH(0/1) PREVIEW(0/1)
pub fn dec(a: &[String]) {
    let data = std::fs::read(&a[0]).unwrap();
    let n: usize = a[1].parse().unwrap();
    let o = decode(&data, &Req { opts: Opts { skip_preview: a[3] == "0", ..Default::default() }, feed: if n == 0 { Feed::OneShot } else { Feed::Fixed(n) }, flush: if a[2] == "1" { FlushPlan::Always } else { FlushPlan::Never }, hash_only: true, ..Default::default() });
    println!("{:?} {} frames {:?}", o.end, o.frames.len(), o.meta);
}
