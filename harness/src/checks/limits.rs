//! P15: what is decoded and allocated is bounded by the sample limit and by what was supplied.
use crate::checks::headers::scan_stream;
use vh::drv::*;
use vh::enc::bits::*;
use vh::enc::entropy::*;
use vh::enc::hdr::*;
use vh::enc::make::*;
use vh::enc::movie::*;
use vh::mem::measure;
use vh::report::Ctx;
use vh::rng::Rng;

/// allocated whatever the input
const FIXED: usize = 6 << 20;
const PER_BYTE: usize = 64;
const PER_SAMPLE: usize = 160;
/// buffers of a few groups for each channel
const PER_CHANNEL: usize = 20 << 20;

/// Lower and upper bounds for what counts as the samples of an image of this size.
fn samples(img: &ImageHdr, (w, h): (usize, usize)) -> (usize, usize) {
    let n = img.ecs.len();
    let c = if img.gray() { 1 } else { 3 };
    (w.saturating_mul(h).saturating_mul(c + n), (w + 64).saturating_mul(h + 64).saturating_mul(3 + n))
}
fn limits(ctx: &Ctx, i: usize) {
    let mut r = Rng::derive(ctx.seed, "limits", i as u64);
    let big = if r.chance(1, 6) { 300 } else { 70 };
    let c = MovieCfg { max_frames: 5, vardct: 25, features: 20, upsample: 40, max_dim: big, preview: true, tweak: Some(|r, img| if r.chance(1, 12) {
        // many extra channels
        let e = Ec::new(EC_DEPTH, 8);
        img.ecs.resize(img.ecs.len() + 1 + r.below(6), e);
        if r.bool() {
            (img.w, img.h) = (1 + r.below(40) as u32, 1 + r.below(40) as u32);
        }
    }), ..Default::default() };
    let m = movie(&mut r, &c);
    let img = &m.img;
    // what has a size: the image, its preview, each frame
    let mut s: Vec<(String, (usize, usize), bool)> = vec![("image".into(), samples(img, (img.w as usize, img.h as usize)), true)];
    if let Some(p) = img.preview {
        s.push(("preview".into(), samples(img, (p.0 as usize, p.1 as usize)), false));
    }
    for (k, f) in m.frames.iter().enumerate() {
        s.push((format!("frame {k}"), samples(img, f.hdr.canvas_size(img)), true));
    }
    let pick = s[r.below(s.len())].1;
    let top = s.iter().map(|s| s.1 .1).max().unwrap();
    let most = s.iter().filter(|s| s.2).map(|s| s.1 .0).max().unwrap();
    let free = decode(&m.data, &Req::default());
    for k in 0..4 {
        let limit = match (k, r.below(3)) {
            (0, _) => top + 1 + r.below(3) * r.below(1000),
            (1, _) => most.saturating_sub(1 + r.below(2) * r.below(most)),
            (_, 0) => pick.0.saturating_sub(1),
            (_, 1) => pick.0 / (1 + r.below(8)),
            _ => pick.1 + 1,
        };
        let mut req = Req { opts: Opts { sample_limit: Some(limit), ..Default::default() }, hash_only: true, ..Default::default() };
        if k > 0 && r.bool() {
            req.feed = Feed::Random(r.u64(), 1 + r.below(m.data.len()));
        }
        let (o, used) = measure(|| decode(&m.data, &req));
        ctx.eval(Some(vh::rng::mix(vh::rng::hash_bytes(&m.data) ^ limit as u64)));
        let bad = |what: &str, msg: String| ctx.violation(what, &format!("case {i}: {msg}; limit {limit}, {:?}", s), &[("stream.jxl", &m.data)]);
        if let End::Panic(p) = &o.end {
            bad("panic", p.clone());
            return;
        }
        let over: Vec<&str> = s.iter().filter(|s| s.2 && s.1 .0 > limit).map(|s| s.0.as_str()).collect();
        if !over.is_empty() {
            ctx.count("decodes with something over the limit", 1);
            if over[0] != "image" {
                ctx.count("of these, only a frame", 1);
            }
            if !matches!(o.end, End::Err { .. }) {
                bad("not rejected", format!("{} is over the limit, but decoding ended with {:?}", over[0], o.end));
                return;
            }
        }
        if top < limit {
            ctx.count("decodes of what is safely below the limit", 1);
            let free = decode(&m.data, &Req { opts: Opts { sample_limit: None, ..req.opts.clone() }, ..req.clone() });
            if o.digest() != free.digest() {
                bad("changed", format!("decoded with the limit: {:?}, without: {:?}", o.end, free.end));
                return;
            }
        }
        let bound = FIXED + PER_BYTE * m.data.len() + PER_SAMPLE * limit + PER_CHANNEL * (3 + img.ecs.len());
        ctx.max("largest use in percent of the bound (limits)", (used.peak * 100 / bound) as u64);
        if used.peak > bound {
            bad("memory", format!("{used:?} for {} bytes; at most {bound} expected", m.data.len()));
            return;
        }
        if over.contains(&"image") {
            let bound = FIXED + PER_BYTE * m.data.len();
            ctx.max("largest use in percent of the bound (rejected images)", (used.peak * 100 / bound) as u64);
            if used.peak > bound {
                bad("memory of a rejected image", format!("{used:?} for {} bytes; at most {bound} expected", m.data.len()));
                return;
            }
        }
    }
    let _ = free;
}
fn huge(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => 1 + r.below(1 << 30) as u32,
        1 => 1 << (10 + r.below(21)),
        _ => {
            let k = 10 + r.below(14);
            1 + r.below(1 << k) as u32
        }
    }
}
/// Images and frames far above the limit: rejected before anything is allocated for them.
fn oversized(ctx: &Ctx, i: usize) {
    let mut r = Rng::derive(ctx.seed, "oversized", i as u64);
    let r = &mut r;
    let first = r.bool();
    let (w, h) = if first { (huge(r), huge(r)) } else { (1 + r.below(64) as u32, 1 + r.below(64) as u32) };
    let mut img = random_image_hdr(r, w, h);
    img.preview = None;
    img.color.icc = None;
    img.ecs.truncate(8);
    let mut data = vh::enc::frame::image_start(r, &img);
    let mut f = random_frame_hdr(r, &img, true);
    f.flags &= !FL_USE_LF;
    f.ty = if r.chance(1, 4) { FT_REF } else { FT_REGULAR };
    f.lf_level = 0;
    if f.ty == FT_REF {
        f.last = false;
        f.passes = PassesHdr { num: 1, shift: vec![], ds: vec![] };
    }
    f.crop = None;
    if !first {
        f.crop = Some((0, 0, huge(r), huge(r)));
    }
    let (n, _) = samples(&img, f.canvas_size(&img));
    if n < 4 {
        return;
    }
    let limit = match r.below(3) { 0 => n - 1, 1 => n / (1 + r.below(60)), _ => 1 + r.below(n.min(1 << 22)) };
    let mut b = Bw::new();
    f.write(&mut b, r, &img);
    b.align();
    data.extend(b.bytes);
    data.extend((0..r.below(4000)).map(|_| r.u64() as u8));
    let req = Req { opts: Opts { sample_limit: Some(limit), scan_only: r.chance(1, 4), ..Default::default() }, hash_only: true, ..Default::default() };
    let (o, used) = measure(|| decode(&data, &req));
    ctx.eval(Some(vh::rng::mix(vh::rng::hash_bytes(&data) ^ limit as u64)));
    ctx.count(if first { "oversized images" } else { "oversized frames" }, 1);
    let bound = FIXED + PER_BYTE * data.len();
    ctx.max("largest use in percent of the bound (oversized)", (used.peak * 100 / bound) as u64);
    let msg = format!("oversized {i}: {n} samples, limit {limit}: {:?}, {used:?} for {} bytes", o.end, data.len());
    match &o.end {
        End::Panic(_) => ctx.violation("panic", &msg, &[("stream.jxl", &data)]),
        End::Err { .. } if used.peak <= bound => {}
        End::Err { .. } => ctx.violation("memory of what is rejected", &msg, &[("stream.jxl", &data)]),
        _ => ctx.violation("not rejected", &msg, &[("stream.jxl", &data)]),
    }
}
/// Streams that declare much and supply little.
fn declared(ctx: &Ctx, i: usize) {
    let mut r = Rng::derive(ctx.seed, "declared", i as u64);
    let r = &mut r;
    // known caps on what is declared: bytes of a profile, sections of a frame
    let (mut icc, mut sections) = (0usize, 0usize);
    let mut at_least = 0;
    let kind = i % 5;
    let mut data: Vec<u8>;
    let what;
    match kind {
        0 => {
            what = "headers of sequences";
            let s = scan_stream(r);
            data = s.data;
            icc = s.img.color.icc.as_ref().map_or(0, |i| i.len());
            sections = s.frames.iter().map(|h| h.num_sections(&s.img)).max().unwrap();
            if r.bool() {
                data.truncate(r.below(data.len() + 1));
            }
            if r.chance(1, 4) && !data.is_empty() {
                for _ in 0..1 + r.below(4) {
                    let k = r.below(data.len());
                    data[k] = r.u64() as u8;
                }
                (icc, sections) = (1 << 28, 1 << 25);
            }
        }
        1 => {
            what = "large frames";
            let (w, h) = (huge(r), huge(r));
            let mut img = random_image_hdr(r, w, h);
            img.preview = None;
            img.color.icc = None;
            data = vh::enc::frame::image_start(r, &img);
            let mut f = random_frame_hdr(r, &img, true);
            f.crop = None;
            if r.bool() && f.normal() {
                f.crop = Some((0, 0, huge(r), huge(r)));
            }
            let n = {
                // (not through usize products that overflow)
                let (cw, ch) = f.canvas_size(&img);
                let (cw, ch) = (cw.div_ceil(f.upsampling as usize), ch.div_ceil(f.upsampling as usize));
                let g = cw.div_ceil(f.group_dim()) as u128 * ch.div_ceil(f.group_dim()) as u128;
                at_least = (g * f.passes.num as u128).min(1 << 25) as usize;
                g * f.passes.num as u128 + 2 + g
            };
            sections = n.min(1 << 25) as usize;
            let mut b = Bw::new();
            f.write(&mut b, r, &img);
            let permuted = r.bool();
            b.bit(permuted);
            if permuted {
                // as many moves as possible that take no bits
                let end = match r.below(3) { 0 => 0, 1 => r.below(sections.max(1)) as u32, _ => (n.min(1 << 32) as u64).saturating_sub(r.below(3) as u64).min(u32::MAX as u64) as u32 };
                let mut toks = vec![Tok { ctx: 7, val: end }];
                toks.extend((0..8).map(|ctx| Tok { ctx, val: if ctx == 7 { end } else { 0 } }));
                let s = Stream { toks, mult: 0 };
                let c = Code::build(r, 8, std::slice::from_ref(&s), &Knobs { lz: Some(false), ..Default::default() });
                c.write_header(&mut b, r);
                c.write_stream(&mut b, 0);
                sections = sections.max((end as usize).min(1 << 25));
            } else {
                sections = 0;
            }
            b.align();
            data.extend(b.bytes);
            for _ in 0..r.below(3000) {
                data.push(if r.bool() { 0 } else { r.u64() as u8 });
            }
        }
        2 => {
            what = "colour profiles";
            let mut img = random_image_hdr(r, 100, 100);
            img.preview = None;
            img.color.icc = Some(vec![0; 10]);
            let mut b = Bw::new();
            img.write(&mut b, r);
            let declared = match r.below(3) { 0 => r.u64() >> r.below(60), 1 => 1 << (10 + r.below(20)), _ => (1 << 28) + r.below(100000) as u64 };
            b.u64(r, declared);
            let zero = r.bool();
            // size of the profile, size of the commands, ...
            let mut v: Vec<u8> = vec![];
            let mut put = |mut n: u64| {
                while n > 127 {
                    v.push(n as u8 | 128);
                    n >>= 7;
                }
                v.push(n as u8);
            };
            let output = if r.bool() { declared.min(1 << 28).saturating_sub(r.below(65536) as u64) } else { r.u64() >> r.below(64) };
            put(output);
            icc = (declared.min(1 << 28) + output.min(1 << 28)) as usize;
            put(if r.bool() { declared / 2 } else { r.u64() >> r.below(64) });
            for _ in 0..r.below(100) {
                v.push(if zero { 0 } else { r.u64() as u8 });
            }
            let toks: Vec<Tok> = if zero && r.bool() { (0..41).map(|ctx| Tok { ctx, val: 0 }).collect() } else { v.iter().map(|v| Tok { ctx: 0, val: *v as u32 }).collect() };
            let s = Stream { toks, mult: 0 };
            let c = Code::build(r, 41, std::slice::from_ref(&s), &Knobs { lz: Some(false), ..Default::default() });
            c.write_header(&mut b, r);
            c.write_stream(&mut b, 0);
            b.align();
            data = b.bytes;
            if r.bool() {
                data.truncate(r.below(data.len() + 1));
            }
            if r.bool() {
                data.extend(vec![0; r.below(20000)]);
            }
        }
        3 => {
            what = "boxes";
            data = vec![0, 0, 0, 12, b'J', b'X', b'L', b' ', 13, 10, 0x87, 10];
            if r.chance(9, 10) {
                data.extend([0, 0, 0, 20, b'f', b't', b'y', b'p', b'j', b'x', b'l', b' ', 0, 0, 0, 0, b'j', b'x', b'l', b' ']);
            }
            let s = scan_stream(r);
            (icc, sections) = (1 << 28, 1 << 25);
            for _ in 0..1 + r.below(5) {
                let ty = *r.pick(&[b"jxlc", b"jxlp", b"jxlp", b"brob", b"Exif", b"xml ", b"jxli", b"jumb", b"jbrd", b"free"]);
                let body: Vec<u8> = if ty == b"jxlc" || ty == b"jxlp" { s.data[..r.below(s.data.len() + 1)].to_vec() } else { (0..r.below(500)).map(|_| r.u64() as u8).collect() };
                let size = match r.below(4) { 0 => body.len() as u64 + 8, 1 => r.u64() >> r.below(64), 2 => 1 << r.below(64), _ => 0 };
                if size > u32::MAX as u64 || r.chance(1, 3) {
                    data.extend([0, 0, 0, 1]);
                    data.extend(*ty);
                    data.extend((size.saturating_add(8)).to_be_bytes());
                } else {
                    data.extend((size as u32).to_be_bytes());
                    data.extend(*ty);
                }
                if ty == b"jxlp" {
                    data.extend((r.below(4) as u32).to_be_bytes());
                }
                data.extend(body);
            }
        }
        _ => {
            what = "many extra channels, names and extensions";
            let mut img = random_image_hdr(r, 8, 8);
            img.preview = None;
            img.color.icc = None;
            let n = r.below(4097);
            img.ecs = (0..n).map(|_| Ec::new(EC_DEPTH, 8)).collect();
            data = vh::enc::frame::image_start(r, &img);
            let mut f = random_frame_hdr(r, &img, true);
            f.ec_up = vec![1; n];
            f.ec_blend = vec![f.blend.clone(); n];
            data.extend(junk_frame(r, &img, &f));
            sections = f.num_sections(&img);
            data.truncate(r.below(data.len() + 1));
        }
    }
    for scan in [true, false] {
        if !scan && (kind != 1 || at_least * 12 <= data.len() * 8) {
            continue; // those may get to the pixels
        }
        let req = Req { opts: Opts { scan_only: scan, skip_preview: true, ..Default::default() }, hash_only: true, skip_mask: u64::MAX, feed: if r.chance(1, 4) { Feed::Random(r.u64(), 1 + data.len() / 8) } else { Feed::OneShot }, ..Default::default() };
        let (o, used) = measure(|| decode(&data, &req));
        ctx.eval(Some(vh::rng::mix(vh::rng::hash_bytes(&data) ^ scan as u64)));
        ctx.count(&format!("{what}: {}", o.end.class()), 1);
        let bound = FIXED + PER_BYTE * data.len() + 3 * icc + 24 * sections;
        ctx.max(&format!("{what}: largest use in KiB"), (used.peak >> 10) as u64);
        ctx.max(&format!("{what}: largest use in percent of the bound"), (used.peak * 100 / bound) as u64);
        if let End::Panic(p) = &o.end {
            ctx.violation("panic", &format!("declared {i}: {p}"), &[("stream.jxl", &data)]);
        } else if used.peak > bound {
            ctx.violation(&format!("memory {what}"), &format!("declared {i}: {used:?} for {} bytes; at most {bound} expected ({icc} bytes of profile, {sections} sections declared); {:?}", data.len(), o.end), &[("stream.jxl", &data)]);
        }
    }
}
pub fn p15(ctx: &Ctx) {
    ctx.rule("generated movie and sample limit, or generated stream that declares more than it supplies (distinct by bytes and limit); what was allocated is counted by the allocator");
    let ids = crate::checks::render::case_ids(ctx.n(1500, 40_000));
    ctx.par(&ids, |_, &i| {
        let _g = vh::watch::begin(&format!("limits {i}"));
        limits(ctx, i);
    });
    let ids = crate::checks::render::case_ids(ctx.n(3000, 60_000));
    ctx.par(&ids, |_, &i| {
        let _g = vh::watch::begin(&format!("oversized {i}"));
        oversized(ctx, i);
    });
    let ids = crate::checks::render::case_ids(ctx.n(3000, 60_000));
    ctx.par(&ids, |_, &i| {
        let _g = vh::watch::begin(&format!("declared {i}"));
        declared(ctx, i);
    });
}
