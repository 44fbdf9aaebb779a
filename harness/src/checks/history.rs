//! Checks that compare different histories of decoding the same file.
use super::delivery::{random_feed, random_input, variants};
use vh::boxes;
use vh::drv::*;
use vh::report::Ctx;
use vh::rng::*;
use vh::work::{self, Item, *};

fn limited() -> Opts {
    Opts { sample_limit: Some(1 << 27), ..Default::default() }
}
fn files<'a>(d: &'a [u8]) -> Vec<(&'static str, &'a [u8])> {
    vec![("input.jxl", d)]
}

// ---------------------------------------------------------------- P03
pub fn p03(ctx: &Ctx) {
    ctx.rule("each file (corpus, truncations, bit flips) is decoded with a random output request sequentially and with runners that execute the tasks forward, reversed, shuffled or on 1-8 threads in random order with yields and sleeps between tasks, in one piece or progressively with flushes; metadata, pixels, frame count and success/failure must be bit-identical. Non-trivial: the runner was given more than one task at once; distinct by (file, request).");
    let mut items = work::items(ctx, ctx.n(700, 100_000));
    let extra = variants(ctx, &items, "p03", 0, ctx.n(2, 8), ctx.n(4, 20));
    items.extend(extra);
    items.sort_by_key(|i| std::cmp::Reverse(i.cost));
    let budget = ctx.n(110, 10000);
    ctx.par(&items, |_, it| {
        let mut r = Rng::derive(ctx.seed, "p03", hash_str(&it.name) ^ hash_bytes(&it.data));
        let _g = vh::watch::begin(&it.name);
        let base0 = decode(&it.data, &Req { opts: limited(), hash_only: true, ..Default::default() });
        let gray = is_gray(&base0);
        let n = it.reps(budget, ctx.n(30, 300)).max(3);
        for k in 0..n {
            let progressive = k % 3 == 2 && it.cost < 200;
            let mut rq = Req { opts: random_opts(&mut r), fmt: random_fmt(&mut r, gray), hash_only: it.cost > 300, geom: random_geom(&mut r), ..Default::default() };
            if progressive {
                rq.feed = random_feed(&mut r, it.data.len());
                if r.bool() {
                    rq.flush = FlushPlan::Random { seed: r.u64(), num: 1, den: 3, rep: 2 };
                }
                rq.skip_mask = if r.chance(1, 3) { r.u64() } else { 0 };
            }
            let seq = decode(&it.data, &rq);
            let m = if it.cost > 100 { 1 } else { 2 };
            for _ in 0..m {
                let mut rp = rq.clone();
                rp.runner = random_runner(&mut r);
                let o = decode(&it.data, &rp);
                ctx.eval((o.stats.tasks > o.stats.runs).then(|| hash_str(&format!("{}{:?}", it.name, rp))));
                ctx.count("runs", o.stats.runs as u64);
                ctx.count("tasks", o.stats.tasks as u64);
                ctx.count(&format!("end_{}", o.end.class()), 1);
                if let RunnerKind::Threads(..) = rp.runner {
                    ctx.count("threaded_decodes", 1);
                }
                ctx.sample(|| format!("{} {:?} {:?}: {} runs {} tasks, {:?}", it.name, rp.runner, rp.feed, o.stats.runs, o.stats.tasks, o.end));
                // which of several errors is seen first may depend on the order
                if let Some(d) = diff(&seq, &o, true) {
                    ctx.violation(&format!("parallel {}", it.short()), &format!("{} with {:?} feed {:?} flush {:?} fmt {:?}: sequential vs parallel: {d}", it.name, rp.runner, rp.feed, rp.flush, rp.fmt), &files(&it.data));
                    return;
                }
            }
        }
    });
}

// ---------------------------------------------------------------- P06
fn to_f32(b: &[u8]) -> Vec<f32> {
    b.chunks_exact(4).map(|c| f32::from_le_bytes(c.try_into().unwrap())).collect()
}
struct LastFlush {
    last: Option<(usize, bool, Vec<Vec<u8>>, usize)>,
    keep: bool,
}
impl Monitor for LastFlush {
    fn on_flush(&mut self, frame: usize, wrote: bool, bufs: &dyn Fn() -> Vec<Vec<u8>>, pos: usize) {
        if self.keep {
            self.last = Some((frame, wrote, bufs(), pos));
        }
    }
}
pub fn p06(ctx: &Ctx) {
    ctx.rule("each file (corpus, bit flips, truncations) is decoded in pieces with flushes at random or all stopping points, sequentially or with a parallel runner, and compared with a decode without flushes; a flush that returns false must leave the buffers unchanged since the previous flush; a flush of the first frame with its data complete but for the last bytes must lie within an extended value range of the final frame and, for frames of many groups, agree with it in most samples. Non-trivial: at least one flush wrote pixels; distinct by (file, history).");
    let mut items = work::items(ctx, ctx.n(500, 100_000));
    let extra = variants(ctx, &items, "p06", 0, ctx.n(1, 5), ctx.n(4, 20));
    items.extend(extra);
    items.sort_by_key(|i| std::cmp::Reverse(i.cost));
    let budget = ctx.n(220, 10000);
    ctx.par(&items, |_, it| {
        let mut r = Rng::derive(ctx.seed, "p06", hash_str(&it.name) ^ hash_bytes(&it.data));
        let _g = vh::watch::begin(&it.name);
        let base0 = decode(&it.data, &Req { opts: limited(), hash_only: true, ..Default::default() });
        let gray = is_gray(&base0);
        let n = it.reps(budget, ctx.n(20, 150)).max(2);
        for k in 0..n {
            let mut rq = Req { opts: random_opts(&mut r), fmt: if k % 2 == 0 { Fmt::Default } else { random_fmt(&mut r, gray) }, hash_only: it.cost > 300, geom: random_geom(&mut r), ..Default::default() };
            let chunks = 1 + 3000 / it.cost.max(10);
            rq.feed = match r.below(4) {
                0 => random_feed(&mut r, it.data.len()),
                1 => Feed::Fixed((it.data.len() / chunks).max(1)),
                2 => {
                    let c = 1 + r.below(6);
                    let mut v: Vec<usize> = (0..c).map(|_| r.below(it.data.len() + 1)).collect();
                    v.push(it.data.len().saturating_sub(1 + r.below(4)));
                    v.sort();
                    Feed::Cuts(v)
                }
                _ => Feed::Random(r.u64(), 1 + 2 * it.data.len() / chunks),
            };
            // an average number of flushes that the cost of the file allows
            let stops = match &rq.feed {
                Feed::Fixed(n) => it.data.len() / n,
                Feed::Random(_, m) => 3 * it.data.len() / (m + 8),
                _ => 5,
            };
            rq.flush = if stops <= chunks { FlushPlan::Always } else { FlushPlan::Random { seed: r.u64(), num: chunks, den: stops, rep: 1 + r.below(2) } };
            if r.chance(1, 3) {
                rq.runner = random_runner(&mut r);
            }
            if r.chance(1, 4) {
                rq.input = random_input(&mut r);
            }
            // when the damage of a damaged container is noticed may depend on the delivery (see P05)
            let mut rb = Req { flush: FlushPlan::Never, runner: RunnerKind::None, ..rq.clone() };
            if !it.name.contains('#') {
                rb.feed = Feed::OneShot;
                rb.input = InputKind::Slice;
            }
            let base = decode(&it.data, &rb);
            let o = decode(&it.data, &rq);
            ctx.eval((o.stats.flush_true > 0).then(|| hash_str(&format!("{}{:?}", it.name, rq))));
            ctx.count("flushes", o.stats.flushes as u64);
            ctx.count("flushes_that_wrote", o.stats.flush_true as u64);
            ctx.count(&format!("end_{}", o.end.class()), 1);
            ctx.sample(|| format!("{} {:?}: {} flushes, {} wrote, {:?}", it.name, rq.feed, o.stats.flushes, o.stats.flush_true, o.end));
            let what = format!("{} feed {:?} flush {:?} runner {:?} fmt {:?}", it.name, rq.feed, rq.flush, rq.runner, rq.fmt);
            if let Some(d) = diff(&base, &o, true) {
                ctx.violation(&format!("flush {}", it.short()), &format!("{what}: without vs with flushes: {d}"), &files(&it.data));
                return;
            }
            if let Some(a) = o.anomaly("flush-false") {
                ctx.violation(&format!("flushfalse {}", it.short()), &format!("{what}: {a}"), &files(&it.data));
                return;
            }
        }
        if it.name.contains('#') || !base0.end.is_done() {
            return;
        }
        // the approximation clause
        let Some(cs) = boxes::extract(&it.data) else { return };
        let Some(map) = frame_map(&cs) else { return };
        let Some(first) = map.frames.iter().position(|f| !f.is_preview) else { return };
        if !map.frames[first].visible {
            return;
        }
        let end = map.frames.get(first + 1).map(|f| f.start as usize).unwrap_or(map.end);
        let rq = Req { fmt: Fmt::all(jxl::api::JxlDataFormat::f32()), max_frames: 1, ..Default::default() };
        let full = decode(&cs, &rq);
        if full.frames.is_empty() {
            return;
        }
        for cut in [1usize, 2, 1 + (end - map.frames[first].start as usize) / 50] {
            let mut mon = LastFlush { last: None, keep: true };
            let mut rp = rq.clone();
            rp.flush = FlushPlan::Always;
            if end < cut + 1 {
                continue;
            }
            let o = decode_mon(&cs[..end - cut], &rp, &mut mon);
            let _ = o;
            let Some((0, wrote, bufs, _)) = mon.last else { continue };
            if !wrote {
                ctx.count("near_end_flush_not_written", 1);
                continue;
            }
            let (mut worst, mut close, mut total) = (0f32, 0usize, 0usize);
            for (p, q) in bufs.iter().zip(&full.frames[0].bufs) {
                let (p, q) = (to_f32(p), to_f32(q));
                let lo = q.iter().copied().filter(|x| x.is_finite()).fold(0f32, f32::min);
                let hi = q.iter().copied().filter(|x| x.is_finite()).fold(1f32, f32::max);
                let range = hi - lo;
                for (x, y) in p.iter().zip(&q) {
                    if !y.is_finite() {
                        continue;
                    }
                    let d = if x.is_finite() { (lo - x).max(x - hi).max(0.0) / range } else { f32::INFINITY };
                    worst = worst.max(d);
                    total += 1;
                    if (x - y).abs() <= 0.1 * range {
                        close += 1;
                    }
                }
            }
            let frac = close as f64 / total.max(1) as f64;
            ctx.count("near_end_flushes", 1);
            ctx.eval(Some(hash_str(&format!("{} cut {cut}", it.name))));
            if std::env::var("VH_VERBOSE").is_ok() {
                println!("{} cut {cut} groups {} vardct {} worst {worst} close {frac:.3}", it.name, map.frames[first].num_groups, map.frames[first].vardct);
            }
            let bad = worst > 0.25 || (map.frames[first].num_groups >= 4 && frac < 0.6);
            if bad {
                ctx.violation(&format!("approx {}", it.short()), &format!("{}: a flush with all but the last {cut} bytes of the first frame ({} groups) exceeds the range of the final frame by {worst} and agrees with it in {:.1}% of the samples", it.name, map.frames[first].num_groups, frac * 100.0), &files(&it.data));
                return;
            }
        }
    });
}

// ---------------------------------------------------------------- P07
pub fn p07(ctx: &Ctx) {
    ctx.rule("files are cut at random positions, at every position near their end and right before each frame's end: the prefix must not be reported complete (nor the frame that is cut), completed frames must equal those of the full file, the size hint must be positive; then the rest is delivered and the result must equal the uninterrupted decode. Separately, the n-th read/skip/availability query of the input fails: the decode must end with that I/O error. Non-trivial: the decode stopped inside the file; distinct by (file, position, request).");
    let items = work::items(ctx, ctx.n(600, 100_000));
    let budget = ctx.n(900, 20000);
    ctx.par(&items, |_, it| {
        let mut r = Rng::derive(ctx.seed, "p07", hash_str(&it.name));
        let _g = vh::watch::begin(&it.name);
        let base = decode(&it.data, &Req { opts: limited(), hash_only: it.cost > 300, ..Default::default() });
        let scan = decode(&it.data, &Req { opts: Opts { scan_only: true, ..limited() }, hash_only: true, ..Default::default() });
        let end = match &base.end {
            End::Done(Some(l)) => *l as usize,
            _ => it.data.len() + 1,
        };
        // (prefix, number of visible frames that must not be complete)
        let mut cuts: Vec<(usize, usize)> = vec![];
        let n = it.reps(budget, ctx.n(40, 400)).max(3);
        for k in 0..n {
            let p = match k % 4 {
                0 => end.saturating_sub(1 + k / 4),
                1 => r.below(it.data.len() + 1),
                2 => r.below(600).min(it.data.len()),
                _ => it.data.len() - r.below(it.data.len().min(3000)),
            };
            cuts.push((p.min(it.data.len()), usize::MAX));
        }
        // right before the end of each visible frame (bare codestream: positions are known)
        let bare = it.data.starts_with(&[0xff, 0x0a]);
        if bare {
            if let Some(map) = frame_map(&it.data) {
                let mut vis = 0;
                for (i, f) in map.frames.iter().enumerate() {
                    if f.is_preview {
                        continue;
                    }
                    let e = map.frames.get(i + 1).map(|f| f.start as usize).unwrap_or(map.end);
                    if f.visible {
                        if vis < 4 || r.chance(1, 8) {
                            cuts.push((e - 1, vis));
                        }
                        vis += 1;
                    }
                }
            }
        }
        for (p, limit) in cuts {
            let mut rq = Req { opts: limited(), hash_only: it.cost > 300, ..Default::default() };
            rq.input = if r.bool() { InputKind::Slice } else { random_input(&mut r) };
            rq.opts.scan_only = r.chance(1, 4);
            if r.chance(1, 4) {
                rq.runner = random_runner(&mut r);
            }
            if r.chance(1, 5) {
                rq.skip_mask = r.u64();
            }
            let bs = if rq.opts.scan_only { &scan } else { &base };
            let o = decode(&it.data[..p], &rq);
            ctx.eval((o.meta.is_some() && p < end).then(|| hash_str(&format!("{}{p}{:?}", it.name, rq))));
            ctx.count(&format!("prefix_{}", o.end.class()), 1);
            ctx.sample(|| format!("{} prefix {p} of {}: {:?}, {} frames", it.name, it.data.len(), o.end, o.frames.len()));
            let what = format!("{} prefix {p} of {} (end {end}) scan {} skip {:x} input {:?}", it.name, it.data.len(), rq.opts.scan_only, rq.skip_mask, rq.input);
            let mut bad = None;
            match &o.end {
                End::Done(_) if p < end && base.end.is_done() => bad = Some("reported complete".to_string()),
                End::Done(_) if !base.end.is_done() => bad = Some(format!("reported complete, but the whole file ends with {:?}", base.end)),
                End::NeedMore { hint: 0, .. } => bad = Some("size hint 0".into()),
                End::Panic(m) => bad = Some(m.clone()),
                End::Err { .. } if base.end.is_done() => bad = Some(format!("error instead of a request for more: {:?}", o.end)),
                _ => {}
            }
            if limit != usize::MAX && o.frames.len() > limit {
                bad = Some(format!("{} frames are complete although frame {limit} is cut", o.frames.len()));
            }
            if o.meta.is_some() && o.meta != bs.meta {
                bad = Some(format!("metadata differ: {:?} vs {:?}", o.meta, bs.meta));
            }
            for (i, (x, y)) in o.frames.iter().zip(&bs.frames).enumerate() {
                if let Some(d) = frame_diff(x, y) {
                    bad = Some(format!("frame {i} of the prefix: {d}"));
                }
            }
            if o.scanned.iter().zip(&bs.scanned).any(|(a, b)| a != b) {
                bad = Some("frame index of the prefix differs".into());
            }
            if let Some(b) = bad {
                ctx.violation(&format!("prefix {}", it.short()), &format!("{what}: {b}"), &[("input.jxl", &it.data), ("prefix.jxl", &it.data[..p])]);
                return;
            }
            // then the rest arrives
            rq.feed = Feed::Cuts(vec![p]);
            rq.skip_mask = 0;
            let o2 = decode(&it.data, &rq);
            if let Some(d) = diff(bs, &o2, true) {
                ctx.violation(&format!("resume {}", it.short()), &format!("{what}: continued after the interruption: {d}"), &files(&it.data));
                return;
            }
            ctx.count("resumed", 1);
        }
        // I/O faults
        let kinds = [InputKind::Slice, InputKind::BufReader(64), InputKind::BufReader(4096), InputKind::Custom { avail: 0, skip: SkipImpl::Default }, InputKind::Custom { avail: 1, skip: SkipImpl::Full }, InputKind::Custom { avail: 2, skip: SkipImpl::Partial }];
        let m = it.reps(budget / 2, ctx.n(24, 200)).max(2);
        for k in 0..m {
            let mut rq = Req { opts: limited(), hash_only: true, ..Default::default() };
            rq.input = kinds[r.below(kinds.len())].clone();
            rq.opts.scan_only = r.bool();
            rq.skip_mask = if r.chance(1, 3) { u64::MAX } else { 0 };
            if r.bool() {
                rq.feed = random_feed(&mut r, it.data.len());
            }
            rq.fail_at = Some(1 + if k < 12 { k } else { r.below(60) });
            let o = decode(&it.data, &rq);
            let what = format!("{} input {:?} feed {:?} scan {} skip {:x}: operation {:?} failed", it.name, rq.input, rq.feed, rq.opts.scan_only, rq.skip_mask, rq.fail_at);
            if o.stats.io_failed {
                ctx.count("io_faults", 1);
                ctx.eval(Some(hash_str(&what)));
                if !matches!(o.end, End::Err { io: true, .. }) {
                    ctx.violation(&format!("iofault {}", it.short()), &format!("{what}, but the decode went on and ended with {:?}", o.end), &files(&it.data));
                    return;
                }
            }
        }
    });
}

// ---------------------------------------------------------------- P08
fn contradictions(cs: &[u8], r: &mut Rng) -> Vec<(&'static str, Vec<u8>, &'static str)> {
    use boxes::*;
    let n = cs.len();
    let a = 1 + r.below(n - 2);
    let b = a + r.below(n - a);
    let m = || SizeMode::B32;
    let w = |v: Vec<Bx>| boxes::write(&v).0;
    let jx = |i: u32, last: bool, d: &[u8]| jxlp(i, last, d, SizeMode::B32);
    let mut v: Vec<(&'static str, Vec<u8>, &'static str)> = vec![
        ("no ftyp", w(vec![bx(b"jxlc", cs.to_vec(), m())]), "error"),
        ("ftyp after another box", w(vec![bx(b"free", vec![1, 2, 3], m()), ftyp(0), bx(b"jxlc", cs.to_vec(), m())]), "error"),
        ("two ftyp boxes", w(vec![ftyp(0), ftyp(0), bx(b"jxlc", cs.to_vec(), m())]), "error"),
        ("version 2", w(vec![ftyp(2), bx(b"jxlc", cs.to_vec(), m())]), "error"),
        ("jxlp then jxlc", w(vec![ftyp(0), jx(0, false, &cs[..a]), bx(b"jxlc", cs.to_vec(), m())]), "error"),
        ("partial jxlc then jxlp", w(vec![ftyp(0), bx(b"jxlc", cs[..a].to_vec(), m()), jx(0, true, &cs[a..])]), "notdone"),
        ("partial jxlc then jxlc", w(vec![ftyp(0), bx(b"jxlc", cs[..a].to_vec(), m()), bx(b"jxlc", cs[a..].to_vec(), m())]), "notdone"),
        ("index repeated", w(vec![ftyp(0), jx(0, false, &cs[..a]), jx(0, true, &cs[a..])]), "error"),
        ("index repeated v1", w(vec![ftyp(1), jx(0, false, &cs[..a]), jx(0, true, &cs[a..])]), "error"),
        ("last flag too early", w(vec![ftyp(0), jx(0, true, &cs[..a]), jx(1, true, &cs[a..])]), "notdone"),
        ("index missing", w(vec![ftyp(1), jx(0, false, &cs[..a]), jx(2, true, &cs[a..])]), "notdone"),
        ("first index 1", w(vec![ftyp(0), jx(1, false, &cs[..a]), jx(2, true, &cs[a..])]), "error"),
        ("out of order in version 0", w(vec![ftyp(0), jx(1, true, &cs[a..]), jx(0, false, &cs[..a])]), "error"),
        ("out of order in version 0 later", w(vec![ftyp(0), jx(0, false, &cs[..a]), jx(2, true, &cs[b..]), jx(1, false, &cs[a..b])]), "error"),
        ("buffered index repeated", w(vec![ftyp(1), jx(2, false, &cs[b..]), jx(2, false, &cs[b..]), jx(0, false, &cs[..a]), jx(1, false, &cs[a..b])]), "error"),
    ];
    // sizes smaller than the header, wrong brand
    let (mut f, offs) = boxes::write(&[ftyp(0), bx(b"free", vec![0; 20], m()), bx(b"jxlc", cs.to_vec(), m())]);
    f[offs[1] + 3] = 2 + r.below(6) as u8;
    v.push(("box size below header", f, "error"));
    let (mut f, offs) = boxes::write(&[ftyp(0), bx(b"free", vec![0; 20], SizeMode::B64), bx(b"jxlc", cs.to_vec(), m())]);
    f[offs[1] + 15] = r.below(16) as u8;
    if f[offs[1] + 15] != 0 {
        v.push(("64-bit box size below header", f, "error"));
    }
    let (mut f, offs) = boxes::write(&[ftyp(0), jxlp(0, true, cs, SizeMode::B32)]);
    f[offs[1]..offs[1] + 4].copy_from_slice(&(8 + r.below(4) as u32).to_be_bytes());
    v.push(("jxlp size below index", f, "error"));
    let (mut f, offs) = boxes::write(&[ftyp(0), bx(b"jxlc", cs.to_vec(), m())]);
    f[offs[0] + 8 + r.below(4)] ^= 0x20;
    v.push(("wrong brand", f, "error"));
    let mut f = boxes::write(&[ftyp(0), bx(b"jxlc", cs.to_vec(), m())]).0;
    let k = r.below(12);
    f[k] ^= 1 << r.below(8);
    v.push(("damaged signature", f, "error"));
    v
}
pub fn p08(ctx: &Ctx) {
    ctx.rule("the codestream of each corpus file is decoded bare and wrapped in random containers (one box, up to 12 partial boxes in order or out of order, other boxes between, 32/64-bit/open sizes, trailing boxes), one-shot and in pieces: metadata, frames, pixels and index (offsets mapped through the layout) must be equal and the reported file length must be the end of the codestream's last byte; containers with contradictory boxes must be rejected. Non-trivial: the wrapped file has a container; distinct by layout.");
    let items = work::items(ctx, ctx.n(400, 100_000));
    let budget = ctx.n(900, 20000);
    ctx.par(&items, |_, it| {
        let mut r = Rng::derive(ctx.seed, "p08", hash_str(&it.name));
        let _g = vh::watch::begin(&it.name);
        let Some(cs) = boxes::extract(&it.data) else { return };
        let Some(map) = frame_map(&cs) else { return };
        let cs = &cs[..];
        let base = decode(cs, &Req { opts: limited(), hash_only: it.cost > 300, ..Default::default() });
        if !base.end.is_done() {
            return;
        }
        // the file as it came (if it had a container)
        let starts: Vec<usize> = map.frames.iter().map(|f| f.start as usize).collect();
        let n = it.reps(budget, ctx.n(40, 400)).max(3);
        for k in 0..n {
            // trailing bytes after the codestream's end may go into the last box
            let l = boxes::random_layout(cs, &mut r, &boxes::LayoutOpts { allow_ooo: k % 2 == 0, frame_starts: starts.clone(), max_parts: 12, trailing: true });
            let mut rq = Req { opts: limited(), hash_only: it.cost > 300, ..Default::default() };
            if r.bool() {
                rq.feed = random_feed(&mut r, l.file.len());
            }
            if r.chance(1, 3) {
                rq.input = random_input(&mut r);
            }
            rq.opts.scan_only = r.chance(1, 6);
            let skip = r.chance(1, 6);
            if skip {
                rq.skip_mask = r.u64();
            }
            let o = decode(&l.file, &rq);
            ctx.eval(Some(hash_bytes(&l.file)));
            ctx.count(if l.out_of_order { "layouts_out_of_order" } else { "layouts_in_order" }, 1);
            ctx.sample(|| format!("{} as {}: {:?}", it.name, l.desc, o.end));
            let mut bad = None;
            let what = format!("{} as {} feed {:?} input {:?}", it.name, l.desc, rq.feed, rq.input);
            if o.meta != base.meta {
                bad = Some(format!("metadata differ: {:?} vs {:?} ({:?})", base.meta, o.meta, o.end));
            } else if o.end.class() != base.end.class() {
                bad = Some(format!("{:?} vs {:?}", base.end, o.end));
            } else if o.frames.len() != base.frames.len() {
                bad = Some(format!("{} vs {} frames", base.frames.len(), o.frames.len()));
            } else if !rq.opts.scan_only && let Some((i, d)) = base.frames.iter().zip(&o.frames).enumerate().find_map(|(i, (a, b))| frame_diff(a, b).map(|d| (i, d))) {
                bad = Some(format!("frame {i}: {d}"));
            } else {
                // last byte of the codestream that is read
                let want = l.map.iter().find(|m| m.0 < map.end && map.end <= m.1).map(|m| m.2 + map.end - m.0);
                match (&o.end, want) {
                    (End::Done(Some(x)), Some(w)) if *x as usize != w => bad = Some(format!("file length {x}, expected {w}")),
                    (End::Done(None), _) => bad = Some("no file length".into()),
                    _ => {}
                }
                if o.scanned.len() != base.scanned.len() {
                    bad = Some(format!("index of {} vs {} frames", base.scanned.len(), o.scanned.len()));
                }
                for (a, b) in base.scanned.iter().zip(&o.scanned) {
                    let mut a2 = a.clone();
                    a2.offset = l.file_pos(a.offset as usize).unwrap_or(0) as u64;
                    a2.start = l.file_pos(a.start as usize).unwrap_or(0) as u64;
                    if &a2 != b {
                        bad = Some(format!("index entry {a2:?} expected, got {b:?}"));
                    }
                }
            }
            if let Some(b) = bad {
                ctx.violation(&format!("layout {}", it.short()), &format!("{what}: {b}"), &[("bare.jxl", cs), ("container.jxl", &l.file)]);
                return;
            }
        }
        let mut trail = cs[..map.end].to_vec();
        for _ in 0..1 + r.below(2000) {
            trail.push(r.u64() as u8);
        }
        let o = decode(&trail, &Req { opts: limited(), hash_only: true, ..Default::default() });
        let b = decode(cs, &Req { opts: limited(), hash_only: true, ..Default::default() });
        ctx.eval(Some(hash_bytes(&trail)));
        if let Some(d) = diff(&b, &o, true) {
            ctx.violation(&format!("trailing {}", it.short()), &format!("{}: with trailing data: {d}", it.name), &[("bare.jxl", cs), ("trailing.jxl", &trail)]);
        }
        if it.cost > 60 {
            return;
        }
        for _ in 0..ctx.n(2, 10) {
            for (name, file, want) in contradictions(&cs[..map.end], &mut r) {
                let mut rq = Req { opts: limited(), hash_only: true, ..Default::default() };
                if r.bool() {
                    rq.feed = random_feed(&mut r, file.len());
                }
                let o = decode(&file, &rq);
                ctx.eval(Some(hash_bytes(&file)));
                ctx.count("contradictions", 1);
                let ok = match want {
                    "error" => matches!(o.end, End::Err { .. }),
                    _ => matches!(o.end, End::Err { .. } | End::NeedMore { .. }),
                };
                if !ok {
                    ctx.violation(&format!("contradiction {name}"), &format!("{} in a container with {name}: ended with {:?}", it.name, o.end), &[("input.jxl", &file)]);
                }
            }
        }
    });
}

/// How many of the n frames from this target on do not need what lies before the start of its decoding.
fn reach(index: &[jxl::api::VisibleFrameInfo], target: usize, n: usize) -> usize {
    let from = |i: usize| (i - index[i].seek_target.visible_frames_to_skip, index[i].seek_target.decode_start_file_offset);
    let t0 = from(target);
    (0..n).take_while(|i| from(target + i) == t0 || from(target + i).0 > t0.0).count()
}
// ---------------------------------------------------------------- P09
pub fn p09(ctx: &Ctx) {
    ctx.rule("each multi-frame file (and random container layouts of it) is scanned in every decode mode (scan only, full, skipping, in pieces): the index must be the same and agree with the decoded frames (count, names, durations, last flag) and with the positions where frames start; then a decoder is started at every or random seek targets (the scanning decoder, a decoder that decoded everything, one rewound several times) and each decoded frame must be pixel-identical to the decode from the start. Non-trivial: a seek to a frame other than the first; distinct by (file, target, history).");
    let all = work::items(ctx, ctx.n(2500, 100_000));
    let budget = ctx.n(2500, 20000);
    ctx.par(&all, |_, it| {
        let mut r = Rng::derive(ctx.seed, "p09", hash_str(&it.name));
        let _g = vh::watch::begin(&it.name);
        let Some(cs) = boxes::extract(&it.data) else { return };
        let Some(map) = frame_map(&cs) else { return };
        let multi = map.frames.iter().filter(|f| !f.is_preview).count() > 1;
        let starts: Vec<usize> = map.frames.iter().map(|f| f.start as usize).collect();
        let vis: Vec<u64> = map.frames.iter().filter(|f| f.visible && !f.is_preview).map(|f| f.start).collect();
        let k = if multi { it.reps(budget / 4, ctx.n(10, 60)).max(2) } else { 2 };
        let base = decode(&cs, &Req { opts: limited(), hash_only: true, ..Default::default() });
        if !base.end.is_done() {
            return;
        }
        for j in 0..k {
            let (file, pos): (Vec<u8>, Box<dyn Fn(u64) -> u64>) = if j == 0 {
                (cs.clone(), Box::new(|x| x))
            } else {
                let allow_ooo = r.chance(1, 3);
                let l = boxes::random_layout(&cs, &mut r, &boxes::LayoutOpts { allow_ooo, frame_starts: starts.clone(), max_parts: 12, trailing: true });
                let f = l.file.clone();
                (f, Box::new(move |x| l.file_pos(x as usize).unwrap_or(0) as u64))
            };
            let mut rs = Req { opts: Opts { scan_only: true, ..limited() }, hash_only: true, ..Default::default() };
            if r.bool() {
                rs.feed = random_feed(&mut r, file.len());
            }
            let (so, index) = scan_index(&file, &rs);
            let fail = |key: &str, msg: String| ctx.violation(&format!("{key} {}", it.short()), &format!("{} (variant {j}): {msg}", it.name), &[("input.jxl", &file)]);
            if !so.end.is_done() {
                fail("scan", format!("scan ended with {:?}", so.end));
                return;
            }
            ctx.eval(None);
            ctx.count("scans", 1);
            // against the frames
            if index.len() != vis.len() || base.frames.len() != vis.len() {
                fail("scan", format!("{} frames listed, {} visible, {} decoded", index.len(), vis.len(), base.frames.len()));
                return;
            }
            for (i, (s, f)) in index.iter().zip(&base.frames).enumerate() {
                let dur = f.duration.unwrap_or(0.0);
                if s.name != f.name || s.index != i || s.is_last != (i + 1 == index.len()) || (s.duration_ms - dur).abs() > 1e-9 * dur.abs().max(1.0) || s.file_offset as u64 != pos(vis[i]) {
                    fail("entry", format!("entry {i}: {s:?} expected name {:?} duration {dur} offset {}", f.name, pos(vis[i])));
                    return;
                }
            }
            // other modes
            for mode in 0..3 {
                let mut rq = Req { opts: limited(), hash_only: true, ..Default::default() };
                match mode {
                    0 => rq.skip_mask = u64::MAX,
                    1 => rq.skip_mask = r.u64(),
                    _ => rq.feed = random_feed(&mut r, file.len()),
                }
                if mode > 0 && it.cost > 200 && j > 0 {
                    continue;
                }
                let o = decode(&file, &rq);
                ctx.eval(multi.then(|| hash_str(&format!("{}{j}{mode}{:?}", it.name, rq))));
                if o.scanned != so.scanned || o.end != so.end {
                    fail("modes", format!("index of scan ({} entries, {:?}) and of decode mode {mode} ({} entries, {:?}) differ: {:?} vs {:?}", so.scanned.len(), so.end, o.scanned.len(), o.end, so.scanned.iter().zip(&o.scanned).find(|(a, b)| a != b), rq));
                    return;
                }
            }
            // seeks
            let nf = index.len();
            let nt = if it.cost > 500 { 2 } else { ctx.n(6, 30) };
            let targets: Vec<usize> = if nf <= nt && j == 0 { (0..nf).rev().collect() } else { (0..nt).map(|_| r.below(nf)).collect() };
            let len = 1 + r.below(3);
            let mut rq = Req { opts: limited(), hash_only: true, ..Default::default() };
            if r.bool() {
                rq.feed = random_feed(&mut r, file.len());
            }
            if r.chance(1, 3) {
                rq.input = random_input(&mut r);
            }
            if r.chance(1, 4) {
                rq.runner = random_runner(&mut r);
            }
            match r.below(4) {
                0 if it.cost < 400 => {}
                1 => rq.skip_mask = u64::MAX,
                2 => rq.max_frames = 1 + r.below(nf),
                _ => rq.max_frames = 1,
            }
            // a frame notified with max_frames==0 is not possible: the first frame at least is decoded
            let (pre, outs) = decode_seek(&file, &rq, Some(index.clone()), &targets, len);
            for o in outs {
                ctx.count("seeks", 1);
                match o {
                    Err(e) => {
                        fail("seek", format!("{e} (after {:?}, {:?})", pre.end, rq));
                        return;
                    }
                    Ok(o) => {
                        ctx.eval((o.target > 0).then(|| hash_str(&format!("{}{j}{}{:?}", it.name, o.target, rq))));
                        ctx.sample(|| format!("{} seek to frame {} at {}+{}: {} frames, {:?}", it.name, o.target, o.scan_target.start, o.scan_target.skip, o.frames.len(), o.end));
                        // Later frames only are what they should be if they do not need earlier frames than the target.
                        let all = (o.target + len).min(nf) - o.target;
                        let reach = reach(&index, o.target, all);
                        let want = &base.frames[o.target..o.target + reach];
                        if reach == 0 || o.frames.is_empty() || o.frames.len() > all || reach == all && o.frames.len() != all {
                            fail("seek", format!("seek to {} gave {} frames, expected {} ({:?}, {:?})", o.target, o.frames.len(), all, o.end, rq));
                            return;
                        }
                        for (i, (a, b)) in want.iter().zip(&o.frames).enumerate() {
                            if let Some(d) = frame_diff(a, b) {
                                fail("seek", format!("seek to {}, frame {}: {d} ({:?})", o.target, o.target + i, rq));
                                return;
                            }
                        }
                        ctx.count("frames compared after seeks", want.len() as u64);
                        if o.target + want.len() == nf && o.end != so.end {
                            fail("seek", format!("seek to {} ended with {:?}, the scan with {:?}", o.target, o.end, so.end));
                            return;
                        }
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- P10
pub fn p10(ctx: &Ctx) {
    ctx.rule("each file is decoded completely and with random subsets of its frames skipped (one-shot and in pieces, sequential and parallel, preview decoded or not); every frame that is decoded must be bit-identical to the full decode, names, durations and index equal. Non-trivial: at least one frame skipped and one decoded; distinct by (file, subset, history).");
    let all = work::items(ctx, ctx.n(2500, 100_000));
    let budget = ctx.n(1500, 20000);
    ctx.par(&all, |_, it| {
        let mut r = Rng::derive(ctx.seed, "p10", hash_str(&it.name));
        let _g = vh::watch::begin(&it.name);
        let base = decode(&it.data, &Req { opts: limited(), hash_only: true, ..Default::default() });
        let nf = base.frames.len();
        let n = it.reps(if nf > 1 { budget } else { 30 }, ctx.n(40, 300)).max(2);
        for k in 0..n {
            let mut rq = Req { opts: limited(), hash_only: true, ..Default::default() };
            rq.skip_mask = match k % 5 {
                0 => u64::MAX ^ (1 << r.below(nf.clamp(1, 64))),
                1 => 1 << r.below(nf.clamp(1, 64)),
                2 => u64::MAX,
                _ => r.u64() | if r.bool() { r.u64() } else { 0 },
            };
            if r.bool() {
                rq.feed = random_feed(&mut r, it.data.len());
            }
            if r.chance(1, 3) {
                rq.runner = random_runner(&mut r);
            }
            if r.chance(1, 3) {
                rq.input = random_input(&mut r);
            }
            let o = decode(&it.data, &rq);
            let skipped = o.frames.iter().filter(|f| f.skipped).count();
            ctx.eval((skipped > 0 && skipped < o.frames.len()).then(|| hash_str(&format!("{}{:?}", it.name, rq))));
            ctx.count("frames_skipped", skipped as u64);
            ctx.count("frames_decoded", (o.frames.len() - skipped) as u64);
            ctx.sample(|| format!("{} skip mask {:x}: {} of {} frames skipped, {:?}", it.name, rq.skip_mask, skipped, o.frames.len(), o.end));
            // a skipped frame's section data is not looked at, so errors in it may go unnoticed
            let d = if base.end.class() == "error" { diff_prefix(&base, &o) } else { diff(&base, &o, true) };
            if let Some(d) = d {
                ctx.violation(&format!("skip {}", it.short()), &format!("{} {:?}: all decoded vs some skipped: {d}", it.name, rq), &files(&it.data));
                return;
            }
        }
        // the preview
        let mut rq = Req { opts: Opts { skip_preview: false, ..limited() }, hash_only: true, ..Default::default() };
        rq.fmt = Fmt::Default;
        if base.meta.as_ref().is_some_and(|m| !m.info.contains("preview None")) {
            for k in 0..4 {
                rq.skip_mask = [0, 1, 0, 1][k];
                if k >= 2 {
                    rq.feed = random_feed(&mut r, it.data.len());
                }
                let mut o = decode(&it.data, &rq);
                ctx.count("previews", 1);
                ctx.eval(Some(hash_str(&format!("preview{}{k}", it.name))));
                if !o.frames.is_empty() {
                    o.frames.remove(0);
                }
                if let Some(d) = diff(&base, &o, true) {
                    ctx.violation(&format!("preview {}", it.short()), &format!("{} preview decoded or skipped by the caller ({k}): {d}", it.name), &files(&it.data));
                    return;
                }
            }
        }
    });
}

// ---------------------------------------------------------------- P13
pub fn p13(ctx: &Ctx) {
    ctx.rule("each file (corpus, truncations, bit flips) is decoded into buffers of random geometry (strides with slack, leading space, odd alignment) surrounded by canary bytes and pre-filled with two different patterns, in every sample format, one-shot, in pieces with flushes, sequential and parallel: canaries must survive and, for completed frames, both fills must give the same bytes; wrong buffer counts must give an error. Non-trivial: the frame was completed or flushed; distinct by (file, request).");
    let mut items = work::items(ctx, ctx.n(700, 100_000));
    let extra = variants(ctx, &items, "p13", 0, ctx.n(1, 5), ctx.n(3, 20));
    items.extend(extra);
    items.sort_by_key(|i| std::cmp::Reverse(i.cost));
    let budget = ctx.n(150, 10000);
    ctx.par(&items, |_, it| {
        let mut r = Rng::derive(ctx.seed, "p13", hash_str(&it.name) ^ hash_bytes(&it.data));
        let _g = vh::watch::begin(&it.name);
        let base0 = decode(&it.data, &Req { opts: limited(), hash_only: true, ..Default::default() });
        let gray = is_gray(&base0);
        let n = it.reps(budget, ctx.n(24, 200)).max(2);
        for k in 0..n {
            let mut rq = Req { opts: random_opts(&mut r), fmt: random_fmt(&mut r, gray), hash_only: it.cost > 300, geom: random_geom(&mut r), ..Default::default() };
            if k % 2 == 1 && it.cost < 300 {
                rq.feed = random_feed(&mut r, it.data.len());
                rq.flush = FlushPlan::Random { seed: r.u64(), num: 1, den: 4, rep: 1 };
            }
            if r.bool() {
                rq.runner = random_runner(&mut r);
            }
            rq.geom.fill = 0;
            rq.geom.fill_seed = 0;
            let a = decode(&it.data, &rq);
            let mut rb = rq.clone();
            rb.geom.fill = 0xA5;
            rb.geom.fill_seed = if r.bool() { r.u64() | 1 } else { 0 };
            if r.bool() {
                rb.geom.pad_bytes = 0;
                rb.geom.lead = r.below(20);
            }
            let b = decode(&it.data, &rb);
            ctx.eval((!a.frames.is_empty() || a.stats.flush_true > 0).then(|| hash_str(&format!("{}{:?}", it.name, rq))));
            ctx.count("frames_compared", a.frames.len() as u64);
            ctx.count("flushes", (a.stats.flushes + b.stats.flushes) as u64);
            ctx.sample(|| format!("{} {:?} {:?}: {} frames {:?}", it.name, rq.geom, rq.fmt, a.frames.len(), a.end));
            for (o, q) in [(&a, &rq), (&b, &rb)] {
                if let Some(c) = o.anomaly("canary") {
                    ctx.violation(&format!("canary {}", it.short()), &format!("{} {:?}: {c}", it.name, q), &files(&it.data));
                    return;
                }
            }
            if let Some(d) = diff(&a, &b, true) {
                ctx.violation(&format!("fill {}", it.short()), &format!("{} {:?} vs {:?}: {d}", it.name, rq, rb.geom), &files(&it.data));
                return;
            }
        }
        if !it.name.contains('#') {
            for delta in [-1i32, 1] {
                let rq = Req { opts: limited(), fmt: random_fmt(&mut r, gray), buffer_delta: delta, hash_only: true, max_frames: 1, ..Default::default() };
                let o = decode(&it.data, &rq);
                if o.meta.as_ref().is_none_or(|m| plan_planes(&m.fmt, m.size).is_empty()) || o.stats.process_calls < 2 {
                    continue;
                }
                ctx.count("wrong_buffer_counts", 1);
                if !matches!(o.end, End::Err { .. }) {
                    ctx.violation(&format!("buffercount {}", it.short()), &format!("{} with {delta} buffers relative to {:?}: {:?}", it.name, rq.fmt, o.end), &files(&it.data));
                }
                if it.cost > 300 {
                    continue;
                }
                let rq = Req { buffer_delta: 0, flush_delta: delta, feed: random_feed(&mut r, it.data.len()), ..rq };
                let o = decode(&it.data, &rq);
                ctx.count("wrong_buffer_counts", o.stats.flush_wrong_count as u64);
                if let Some(c) = o.anomaly("flush-count") {
                    ctx.violation(&format!("flushcount {}", it.short()), &format!("{} {:?}: {c}", it.name, rq), &files(&it.data));
                }
                if let End::Panic(p) = &o.end {
                    ctx.violation(&format!("flushcount {}", it.short()), &format!("{} {:?}: {p}", it.name, rq), &files(&it.data));
                }
            }
        }
    });
}

// ---------------------------------------------------------------- P22
pub fn p22(ctx: &Ctx) {
    ctx.rule("the same request is decoded repeatedly in one process, on all cores at once and interleaved with decodes of other files, with failing and abandoned decodes in between, into differently filled buffers, and by a decoder that is sent back to the first frame again and again: every outcome must be identical. Non-trivial: at least one other decode ran in between or at the same time; distinct by (file, history).");
    let mut items = work::items(ctx, ctx.n(500, 100_000));
    let extra = variants(ctx, &items, "p22", 0, 1, ctx.n(2, 10));
    items.extend(extra);
    // sequential baseline, alone in the process
    let lim = |c: usize| Req { opts: limited(), hash_only: c > 50, ..Default::default() };
    let mut r = Rng::derive(ctx.seed, "p22", 0);
    let cheap: Vec<usize> = (0..items.len()).filter(|&i| items[i].cost < ctx.n(120, 2000)).collect();
    let mut base: Vec<Option<Outcome>> = items.iter().map(|_| None).collect();
    for &i in &cheap {
        let _g = vh::watch::begin(&items[i].name);
        base[i] = Some(decode(&items[i].data, &lim(items[i].cost)));
    }
    ctx.note(format!("{} baseline decodes done alone", cheap.len()));
    // 1. concurrently, in random order, with abandoned and failing decodes in between
    let mut jobs: Vec<(usize, u64)> = vec![];
    for _ in 0..ctx.n(4, 40) {
        for &i in &cheap {
            jobs.push((i, r.u64()));
        }
    }
    r.shuffle(&mut jobs);
    ctx.par(&jobs, |_, (i, s)| {
        let it = &items[*i];
        let _g = vh::watch::begin(&it.name);
        let mut r = Rng::new(*s);
        match r.below(4) {
            0 => {
                // abandoned
                let p = r.below(it.data.len());
                let _ = decode(&it.data[..p], &Req { flush: FlushPlan::Always, ..lim(1000) });
            }
            1 => {
                let mut d = it.data.clone();
                if !d.is_empty() {
                    let p = r.below(d.len());
                    d[p] ^= 1 << r.below(8);
                }
                let _ = decode(&d, &Req { opts: Opts { sample_limit: Some(1 << 22), ..Default::default() }, hash_only: true, ..Default::default() });
            }
            2 => {
                let _ = decode(&it.data, &Req { fail_at: Some(1 + r.below(5)), ..lim(1000) });
            }
            _ => {}
        }
        let mut rq = lim(it.cost);
        rq.geom = random_geom(&mut r);
        if r.chance(1, 3) {
            rq.runner = random_runner(&mut r);
        }
        let o = decode(&it.data, &rq);
        ctx.eval(Some(*s));
        ctx.count(&format!("end_{}", o.end.class()), 1);
        ctx.sample(|| format!("{} among other decodes: {:?}", it.name, o.end));
        if let Some(d) = diff(base[*i].as_ref().unwrap(), &o, true) {
            ctx.violation(&format!("repeat {}", it.short()), &format!("{}: first decode vs a later one among others {:?}: {d}", it.name, rq), &files(&it.data));
        }
    });
    // 2. a decoder that is rewound
    ctx.par(&cheap, |_, &i| {
        let it = &items[i];
        let b = base[i].as_ref().unwrap();
        if it.name.contains('#') || !b.end.is_done() {
            return;
        }
        let _g = vh::watch::begin(&it.name);
        let mut r = Rng::derive(ctx.seed, "p22r", i as u64);
        let (_, index) = scan_index(&it.data, &Req { opts: Opts { scan_only: true, ..limited() }, hash_only: true, ..Default::default() });
        let mut rq = lim(it.cost);
        if r.bool() {
            rq.max_frames = 1;
        }
        let reach = reach(&index, 0, index.len());
        let (_, outs) = decode_seek(&it.data, &rq, Some(index), &[0, 0, 0], 1000);
        for o in outs {
            ctx.count("rewinds", 1);
            ctx.eval(Some(hash_str(&format!("rewind {}", it.name))));
            let bad = match &o {
                Err(e) => Some(e.clone()),
                Ok(o) if o.frames.len() != b.frames.len() && reach >= b.frames.len() || o.frames.len() < reach => Some(format!("{} frames vs {} ({:?})", b.frames.len(), o.frames.len(), o.end)),
                Ok(o) => b.frames.iter().zip(&o.frames).take(reach).enumerate().find_map(|(k, (x, y))| frame_diff(x, y).map(|d| format!("frame {k}: {d}"))),
            };
            if let Some(d) = bad {
                ctx.violation(&format!("rewind {}", it.short()), &format!("{}: rewound to the first frame: {d}", it.name), &files(&it.data));
                return;
            }
        }
    });
}

// ---------------------------------------------------------------- P14
pub fn p14(ctx: &Ctx) {
    ctx.rule("each corpus file is decoded to float (and its default format) at every SIMD level the CPU has (scalar, SSE4.2, AVX2, AVX-512), one level at a time; samples must agree within rounding, metadata and frame counts exactly. Non-trivial: at least two levels compared; distinct by file.");
    let items = work::items(ctx, ctx.n(700, 100_000));
    let mut items: Vec<Item> = items;
    let extra = variants(ctx, &items, "p14", 0, 0, ctx.n(2, 10));
    items.extend(extra);
    compare_levels(ctx, &items);
}
pub fn compare_levels(ctx: &Ctx, items: &[Item]) {
    use std::sync::Mutex;
    let f32all = Fmt::all(jxl::api::JxlDataFormat::f32());
    let ref_out: Vec<Mutex<Option<(Outcome, Outcome)>>> = items.iter().map(|_| Mutex::new(None)).collect();
    for level in [0u32, 1, 2, 3] {
        jxl_simd::verif::set_max_level(level as _);
        ctx.par(items, |i, it| {
            let _g = vh::watch::begin(&it.name);
            let lim = Req { opts: limited(), fmt: f32all.clone(), max_frames: 8, ..Default::default() };
            let o = decode(&it.data, &lim);
            let d = decode(&it.data, &Req { fmt: Fmt::Default, ..lim.clone() });
            let mut slot = ref_out[i].lock().unwrap();
            match &*slot {
                None => *slot = Some((o, d)),
                Some((bo, bd)) => {
                    ctx.eval(Some(hash_str(&it.name)));
                    ctx.count(&format!("compared_level_{level}"), 1);
                    let fail = |m: String| ctx.violation(&format!("level{level} {}", it.short()), &format!("{}: scalar vs level {level}: {m}", it.name), &[("input.jxl", &it.data)]);
                    for (a, b, float) in [(bo, &o, true), (bd, &d, false)] {
                        if a.meta != b.meta || a.end.class() != b.end.class() || a.frames.len() != b.frames.len() || a.scanned != b.scanned {
                            fail(format!("{:?} {} frames vs {:?} {} frames", a.end, a.frames.len(), b.end, b.frames.len()));
                            return;
                        }
                        if !float {
                            continue;
                        }
                        for (k, (x, y)) in a.frames.iter().zip(&b.frames).enumerate() {
                            let mut worst = 0f64;
                            let mut at = (0, 0);
                            for (c, (p, q)) in x.bufs.iter().zip(&y.bufs).enumerate() {
                                for (j, (u, v)) in to_f32(p).iter().zip(&to_f32(q)).enumerate() {
                                    let e = if u.to_bits() == v.to_bits() || (u.is_nan() && v.is_nan()) { 0.0 } else { ((u - v).abs() as f64) / (1.0f64).max(u.abs() as f64) };
                                    let e = if e.is_nan() { f64::INFINITY } else { e };
                                    if e > worst {
                                        worst = e;
                                        at = (c, j);
                                    }
                                }
                            }
                            ctx.max("worst_1e9", (worst * 1e9).min(1e18) as u64);
                            if std::env::var("VH_VERBOSE").is_ok() && worst > 1e-5 {
                                println!("{} level {level} frame {k} worst {worst}", it.name);
                            }
                            let tol = if it.name.contains('#') { 0.05 } else { 2e-3 };
                            if worst > tol {
                                fail(format!("frame {k}: buffer {} sample {} differs by {worst}", at.0, at.1));
                                return;
                            }
                        }
                    }
                }
            }
        });
    }
    jxl_simd::verif::set_max_level(3);
}
