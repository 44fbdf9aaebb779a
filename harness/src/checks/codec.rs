//! Checks that compare decodes of generated streams with what they were generated from.
use jxl::api::*;
use vh::drv::*;
use vh::enc::hdr::*;
use vh::enc::make::*;
use vh::enc::modular::Chan;
use vh::report::Ctx;
use vh::rng::Rng;
use vh::work::*;

fn int_fmt(bits: u32) -> JxlDataFormat {
    if bits <= 8 { JxlDataFormat::U8 { bit_depth: bits as u8 } } else { JxlDataFormat::U16 { endianness: Endianness::LittleEndian, bit_depth: bits as u8 } }
}
/// Compares one plane (interleaved `n` channels) with the expected samples.
fn compare(chans: &[&Chan], depth: &Depth, fmt: &JxlDataFormat, buf: &[u8]) -> Option<String> {
    let n = chans.len();
    let (w, h) = (chans[0].w, chans[0].h);
    let bps = match fmt { JxlDataFormat::U8 { .. } => 1, JxlDataFormat::U16 { .. } => 2, _ => 4 };
    if buf.len() != w * h * n * bps {
        return Some(format!("buffer of {} bytes for {w}x{h}x{n}", buf.len()));
    }
    for y in 0..h {
        for x in 0..w {
            for (c, ch) in chans.iter().enumerate() {
                let v = ch.at(x, y);
                let k = ((y * w + x) * n + c) * bps;
                let (got, want, ok) = match fmt {
                    JxlDataFormat::U8 { .. } => {
                        let g = buf[k] as i64;
                        let e = v.clamp(0, (1 << depth.bits) - 1);
                        (g as f64, e as f64, g == e)
                    }
                    JxlDataFormat::U16 { .. } => {
                        let g = u16::from_le_bytes([buf[k], buf[k + 1]]) as i64;
                        let e = v.clamp(0, (1 << depth.bits) - 1);
                        (g as f64, e as f64, g == e)
                    }
                    _ => {
                        let g = f32::from_le_bytes(buf[k..k + 4].try_into().unwrap());
                        let e = sample_value(depth, v);
                        let ok = if depth.exp > 0 { g.to_bits() == (e as f32).to_bits() } else { (g as f64 - e).abs() <= e.abs() * 4e-7 };
                        (g as f64, e, ok)
                    }
                };
                if !ok {
                    return Some(format!("channel {c} at ({x},{y}): got {got}, coded {want} (sample {v})"));
                }
            }
        }
    }
    None
}
pub fn check_lossless(s: &Stream1, o: &Outcome, fc: &JxlDataFormat, fe: &[JxlDataFormat]) -> Option<String> {
    if !o.end.is_done() {
        return Some(format!("decoding ended with {:?}", o.end));
    }
    if o.frames.len() != 1 {
        return Some(format!("{} frames", o.frames.len()));
    }
    let f = &o.frames[0];
    let nc = s.img.ncolor();
    let cols: Vec<&Chan> = s.chans[..nc].iter().collect();
    if f.bufs.len() != 1 + fe.len() {
        return Some(format!("{} buffers", f.bufs.len()));
    }
    if let Some(d) = compare(&cols, &s.img.depth, fc, &f.bufs[0]) {
        return Some(format!("colour: {d}"));
    }
    for (i, e) in s.img.ecs.iter().enumerate() {
        if let Some(d) = compare(&[&s.chans[nc + i]], &e.depth, &fe[i], &f.bufs[1 + i]) {
            return Some(format!("extra channel {i}: {d}"));
        }
    }
    None
}
pub fn describe(s: &Stream1) -> String {
    format!(
        "{}x{} {:?} gray {} ecs {:?} group_shift {} passes {:?} {:?}",
        s.img.w,
        s.img.h,
        s.img.depth,
        s.img.gray(),
        s.img.ecs.iter().map(|e| (e.ty, &e.depth, e.dim_shift)).collect::<Vec<_>>(),
        s.hdr.group_shift,
        s.hdr.passes,
        s.info
    )
}
pub fn p16(ctx: &Ctx) {
    ctx.rule("generated losslessly coded image (distinct by its bytes); its decoded samples compared with the coded ones");
    let n = ctx.n(16_000, 300_000);
    // the SIMD level is a property of the process: four batches
    for level in [3u8, 2, 1, 0] {
        jxl_simd::verif::set_max_level(level);
        let ids: Vec<usize> = (0..n).filter(|i| i % 4 == level as usize).collect();
        ctx.count(&format!("cases at SIMD level {level}"), ids.len() as u64);
        p16_batch(ctx, &ids);
    }
    jxl_simd::verif::set_max_level(3);
}
fn p16_batch(ctx: &Ctx, ids: &[usize]) {
    ctx.par(ids, |_, &i| {
        let _g = vh::watch::begin(&format!("still {i}"));
        let mut r = Rng::derive(ctx.seed, "p16", i as u64);
        let mut cfg = Cfg::default();
        if i % 10 == 0 {
            cfg.big = 900;
            cfg.max_px = 300_000;
        }
        if i % 3 == 0 {
            cfg.big = 40;
        }
        let s = still(&mut r, &cfg);
        let (fc, fe): (JxlDataFormat, Vec<JxlDataFormat>) = {
            let pick = |r: &mut Rng, d: &Depth| if d.exp > 0 || d.bits > 16 || r.chance(1, 3) { JxlDataFormat::f32() } else { int_fmt(d.bits) };
            let fc = pick(&mut r, &s.img.depth);
            (fc, s.img.ecs.iter().map(|e| pick(&mut r, &e.depth)).collect())
        };
        let color = if s.img.gray() { JxlColorType::Grayscale } else { JxlColorType::Rgb };
        let mut req = Req {
            opts: Opts { spot: false, high_precision: r.bool(), ..Default::default() },
            fmt: Fmt::Pix { color: Some(color), alpha: false, fmt: Some(fc), ec: fe.iter().map(|f| Some(*f)).collect() },
            ..Default::default()
        };
        for k in 0..3 {
            if k > 0 {
                req.runner = random_runner(&mut r);
                req.feed = match r.below(3) {
                    0 => Feed::OneShot,
                    1 => Feed::Random(r.u64(), 1 + r.below(300)),
                    _ => Feed::Random(r.u64(), 1 + r.below(1 + s.data.len())),
                };
            }
            let o = decode(&s.data, &req);
            let h = vh::rng::hash_bytes(&s.data);
            ctx.eval(Some(h));
            if let Some(d) = check_lossless(&s, &o, &fc, &fe) {
                let what = d.split(':').next().unwrap().split(" at ").next().unwrap().to_string();
                ctx.violation(&format!("lossless {} {} {}", what, s.info.tree, s.info.transforms), &format!("case {i}: {d}\n{}\n{req:?}", describe(&s)), &[("stream.jxl", &s.data)]);
                break;
            }
        }
        ctx.count("samples compared", s.chans.iter().map(|c| c.data.len() as u64).sum::<u64>() * 3);
        ctx.count(&format!("tree: {}", s.info.tree), 1);
        for t in s.info.transforms.split('+').filter(|t| !t.is_empty()) {
            ctx.count(&format!("transform: {t}"), 1);
        }
        ctx.count("streams with lz77 copies", (s.info.copies > 0) as u64);
        ctx.count("streams with local trees", (s.info.local_trees > 0) as u64);
        ctx.count("streams with group transforms", (s.info.local_transforms > 0) as u64);
        ctx.count("streams of several sections", (s.info.sections > 1) as u64);
        ctx.count("streams with permuted sections", s.info.permuted as u64);
        ctx.sample(|| describe(&s));
    });
}
