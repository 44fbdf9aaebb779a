//! Checks against the reference renderer.
use jxl::api::*;
use vh::drv::*;
use vh::enc::hdr::*;
use vh::enc::movie::*;
use vh::refr::num::*;
use vh::refr::*;
use vh::report::Ctx;
use vh::rng::Rng;
use vh::work::*;

pub struct Cmp {
    pub compared: u64,
    pub undecided: u64,
    /// compared with a tolerance of at most a thousandth
    pub fine: u64,
    pub max_ratio: f64,
}
/// Compares shown frames with decoded ones (all planes f32); returns a description of the first difference.
pub fn compare_movie(img: &ImageHdr, shown: &[Shown], o: &Outcome, color: &[usize], ecs: &[bool], cmp: &mut Cmp) -> Option<String> {
    if !o.end.is_done() {
        return Some(format!("decoding ended with {:?}", o.end));
    }
    if o.frames.len() != shown.len() {
        return Some(format!("{} frames decoded, {} visible frames coded", o.frames.len(), shown.len()));
    }
    let (w, h) = (img.w as usize, img.h as usize);
    let (ow, oh) = orient_size(img.orientation, w, h);
    for (k, (s, f)) in shown.iter().zip(&o.frames).enumerate() {
        let groups: Vec<Vec<usize>> = std::iter::once(color.to_vec()).chain((0..img.ecs.len()).filter(|&i| ecs[i]).map(|i| vec![3 + i])).collect();
        if f.bufs.len() != groups.len() {
            return Some(format!("{} buffers", f.bufs.len()));
        }
        for (g, buf) in groups.iter().zip(&f.bufs) {
            if buf.len() != ow * oh * g.len() * 4 {
                return Some(format!("buffer of {} bytes", buf.len()));
            }
            let what = if g[0] < 3 { "colour".to_string() } else { format!("extra channel {}", g[0] - 3) };
            for y in 0..oh {
                for x in 0..ow {
                    let (sx, sy) = orient_src(img.orientation, w, h, x, y);
                    for (i, &c) in g.iter().enumerate() {
                        let q = ((y * ow + x) * g.len() + i) * 4;
                        let got = f32::from_le_bytes(buf[q..q + 4].try_into().unwrap()) as f64;
                        let want = s.planes[c].at(sx, sy);
                        if !want.decided() || want.e > 0.3 {
                            cmp.undecided += 1;
                            continue;
                        }
                        cmp.compared += 1;
                        cmp.fine += (want.e < 1e-3) as u64;
                        let d = (got - want.v).abs();
                        let tol = want.e + 1e-7;
                        if std::env::var("VH_DUMP").is_ok() {
                            if d.is_nan() || d > tol {
                            eprintln!("DUMP frame {k} c {c} ({x},{y}) got {got:.5} want {:.5}", want.v); }
                            continue;
                        }
                        if d.is_nan() || d > tol {
                            return Some(format!("{what}: visible frame {k} (frame {}), channel {c} at ({x},{y}) of {ow}x{oh}: decoded {got}, by definition {} +- {:.3e}", s.frame, want.v, want.e));
                        }
                        cmp.max_ratio = cmp.max_ratio.max(d / tol);
                    }
                }
            }
        }
    }
    None
}
pub fn describe(m: &Movie) -> String {
    let mut s = format!("{}x{} {:?} xyb {} colour {:?} orientation {} anim {} ecs {:?}\n", m.img.w, m.img.h, m.img.depth, m.img.xyb, m.img.color, m.img.orientation, m.img.anim.is_some(), m.img.ecs);
    for (i, f) in m.frames.iter().enumerate() {
        s += &format!("frame {i} bytes {:?}: {:?} noise {:?} patches {:?} splines {} adj {}\n", m.spans[i], f.hdr, f.feat.noise, f.feat.patches, f.feat.splines.len(), f.feat.spline_adj);
    }
    s
}
pub fn movie_check(ctx: &Ctx, i: usize, r: &mut Rng, m: &Movie, what: &str, runs: usize) {
    let gray = m.img.gray();
    let ro = RenderOpts { high_precision: r.bool(), spot: r.chance(1, 4) };
    let shown = render_movie(&m.img, &m.frames, &ro);
    let color = if gray { JxlColorType::Grayscale } else { JxlColorType::Rgb };
    let mut req = Req {
        opts: Opts { spot: ro.spot, high_precision: ro.high_precision, ..Default::default() },
        fmt: Fmt::Pix { color: Some(color), alpha: false, fmt: Some(JxlDataFormat::f32()), ec: m.img.ecs.iter().map(|_| Some(JxlDataFormat::f32())).collect() },
        ..Default::default()
    };
    let chans: Vec<usize> = if gray { vec![0] } else { vec![0, 1, 2] };
    for k in 0..runs {
        if k > 0 {
            req.runner = random_runner(r);
            req.feed = match r.below(3) {
                0 => Feed::OneShot,
                1 => Feed::Random(r.u64(), 1 + r.below(300)),
                _ => Feed::Random(r.u64(), 1 + r.below(1 + m.data.len())),
            };
        }
        let o = decode(&m.data, &req);
        ctx.eval(Some(vh::rng::hash_bytes(&m.data)));
        let mut cmp = Cmp { compared: 0, undecided: 0, fine: 0, max_ratio: 0.0 };
        if let Some(d) = compare_movie(&m.img, &shown, &o, &chans, &vec![true; m.img.ecs.len()], &mut cmp) {
            let key = d.split(':').next().unwrap().to_string();
            ctx.violation(&format!("{what} {key}"), &format!("case {i}: {d}\n{}\n{req:?}", describe(m)), &[("stream.jxl", &m.data)]);
            return;
        }
        ctx.count("samples compared", cmp.compared);
        ctx.count("samples compared with a tolerance below 1/1000", cmp.fine);
        ctx.count("samples whose value is not decided by the definition in single precision", cmp.undecided);
        ctx.max("largest deviation in percent of the tolerance", (cmp.max_ratio * 100.0) as u64);
        if k == 0 {
            let e = shown.iter().flat_map(|s| &s.planes).flat_map(|p| &p.d).filter(|v| v.decided()).map(|v| v.e).fold(0.0, f64::max);
            ctx.max("largest tolerance in millionths", (e * 1e6) as u64);
        }
    }
    ctx.count("visible frames", shown.len() as u64);
    for t in &m.tags {
        ctx.count(t, 1);
    }
    ctx.sample(|| m.tags.join(", "));
}
/// All cases, or the one asked for while debugging.
pub fn case_ids(n: usize) -> Vec<usize> {
    match std::env::var("VH_CASE").ok().and_then(|v| v.parse().ok()) {
        Some(i) => vec![i],
        None => (0..n).collect(),
    }
}
pub fn p19(ctx: &Ctx) {
    ctx.rule("generated sequence of frames (distinct by its bytes) decoded and compared with the reference renderer");
    let n = ctx.n(6000, 100_000);
    let ids = case_ids(n);
    ctx.par(&ids, |_, &i| {
        let _g = vh::watch::begin(&format!("movie {i}"));
        let mut r = Rng::derive(ctx.seed, "p19", i as u64);
        let c = MovieCfg { vardct: 10, blend: 80, features: if i % 2 == 0 { 0 } else { 60 }, filters: 5, upsample: 12, xyb: 20, max_frames: 8, noise: i % 4 == 1, ..Default::default() };
        let m = movie(&mut r, &c);
        movie_check(ctx, i, &mut r, &m, "layers", 2);
    });
}
pub fn p23(ctx: &Ctx) {
    ctx.rule("generated frames with filters, upsampling, noise, splines (distinct by their bytes) compared with the reference renderer");
    let n = ctx.n(8000, 120_000);
    let ids = case_ids(n);
    for level in [3u8, 2, 1, 0] {
        jxl_simd::verif::set_max_level(level);
        let b: Vec<usize> = ids.iter().copied().filter(|i| i % 4 == level as usize).collect();
        ctx.count(&format!("cases at SIMD level {level}"), b.len() as u64);
        ctx.par(&b, |_, &i| {
            let _g = vh::watch::begin(&format!("movie {i}"));
            let mut r = Rng::derive(ctx.seed, "p23", i as u64);
            let c = MovieCfg { vardct: 25, blend: 10, features: 90, filters: 70, upsample: 50, max_frames: 2, max_dim: if i % 5 == 0 { 300 } else { 70 }, ..Default::default() };
            let m = movie(&mut r, &c);
            movie_check(ctx, i, &mut r, &m, "rendering", 2);
        });
    }
    jxl_simd::verif::set_max_level(3);
    let _ = Plane::new(0, 0);
}
/// Frames coded with variable-size transforms.
pub fn p18(ctx: &Ctx) {
    ctx.rule("generated frames coded with variable-size transforms (distinct by their bytes) compared with the reference decoder");
    let n = ctx.n(3000, 60_000);
    let ids = case_ids(n);
    for level in [3u8, 2, 1, 0] {
        jxl_simd::verif::set_max_level(level);
        let b: Vec<usize> = ids.iter().copied().filter(|i| i % 4 == level as usize).collect();
        ctx.count(&format!("cases at SIMD level {level}"), b.len() as u64);
        ctx.par(&b, |_, &i| {
            let _g = vh::watch::begin(&format!("movie {i}"));
            let mut r = Rng::derive(ctx.seed, "p18", i as u64);
            let plain = MovieCfg { vardct: 100, xyb: 60, blend: 0, features: 0, filters: 0, upsample: 0, max_frames: 1, orient: false, noise: false, ..Default::default() };
            let c = match i % 5 {
                0 => MovieCfg { max_dim: 300, ..plain },
                1 | 2 => plain,
                3 => MovieCfg { filters: 70, features: 20, upsample: 20, max_dim: 140, noise: true, ..plain },
                _ => MovieCfg { vardct: 70, xyb: 50, max_frames: 4, ..Default::default() },
            };
            let c = match i % 60 {
                0 | 20 | 40 => MovieCfg {
                    // room for the largest transforms
                    tweak: Some(|r, img| (img.w, img.h) = (120 + r.below(330) as u32, 120 + r.below(330) as u32)),
                    ..c
                },
                10 | 25 | 55 => MovieCfg {
                    // several LF groups
                    tweak: Some(|r, img| {
                        let (l, s) = (2049 + r.below(300) as u32, 1 + r.below(70) as u32);
                        (img.w, img.h) = if r.bool() { (l, s) } else { (s, l) };
                        if r.bool() && !img.gray() {
                            img.xyb = false;
                        }
                    }),
                    ..c
                },
                _ => c,
            };
            let m = movie(&mut r, &c);
            movie_check(ctx, i, &mut r, &m, "lossy", 2);
        });
    }
    jxl_simd::verif::set_max_level(3);
}
