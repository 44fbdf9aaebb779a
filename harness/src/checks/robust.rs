//! P01: hostile inputs.
use super::delivery::{random_feed, random_input};
use vh::boxes;
use vh::drv::*;
use vh::report::Ctx;
use vh::rng::*;
use vh::work::{self, *};

/// One random damage to `d`.
pub fn mutate(d: &mut Vec<u8>, r: &mut Rng, other: &[u8]) {
    if d.is_empty() {
        d.push(r.u64() as u8);
        return;
    }
    let n = d.len();
    // most of the interesting structure is near the start or right after it
    let pos = |r: &mut Rng| match r.below(4) {
        0 => r.below(n.min(24)),
        1 => r.below(n.min(100)),
        2 => r.below(n.min(1000)),
        _ => r.below(n),
    };
    match r.below(10) {
        0..=3 => {
            let p = pos(r);
            d[p] ^= 1 << r.below(8);
        }
        4 => {
            let p = pos(r);
            d[p] = [0, 0xff, 0x7f, 0x80, 1, r.u64() as u8][r.below(6)];
        }
        5 => {
            // a run of random bytes
            let p = pos(r);
            let k = (1 + r.below(8)).min(n - p);
            for x in &mut d[p..p + k] {
                *x = r.u64() as u8;
            }
        }
        6 => {
            let p = pos(r);
            let k = (1 + r.below(4)).min(n - p);
            d.drain(p..p + k);
        }
        7 => {
            let p = pos(r);
            for _ in 0..1 + r.below(4) {
                d.insert(p, r.u64() as u8);
            }
        }
        8 => {
            // bit shift of the tail: every later field is read from elsewhere
            let p = pos(r);
            let sh = 1 + r.below(7);
            let mut carry = 0u16;
            for x in &mut d[p..] {
                let v = (*x as u16) << sh | carry;
                *x = v as u8;
                carry = v >> 8;
            }
        }
        _ => {
            // splice with another file
            let p = pos(r);
            let q = r.below(other.len().max(1)).min(other.len());
            let k = 1 + r.below(200);
            let src = &other[q..(q + k).min(other.len())];
            let e = (p + src.len()).min(n);
            d.splice(p..e, src.iter().copied());
        }
    }
}
pub fn random_request(r: &mut Rng, len: usize, gray: bool, limit: usize) -> Req {
    let mut rq = Req { opts: random_opts(r), fmt: random_fmt(r, gray), hash_only: true, geom: random_geom(r), ..Default::default() };
    rq.opts.sample_limit = Some(limit);
    rq.opts.skip_preview = r.bool();
    rq.opts.scan_only = r.chance(1, 16);
    if r.bool() {
        rq.feed = random_feed(r, len);
        if r.bool() {
            rq.flush = FlushPlan::Random { seed: r.u64(), num: 1, den: 1 + r.below(8), rep: 2 };
        }
    }
    if r.chance(1, 3) {
        rq.input = random_input(r);
    }
    if r.chance(1, 3) {
        rq.runner = random_runner(r);
    }
    if r.chance(1, 6) {
        rq.skip_mask = r.u64();
    }
    if r.chance(1, 10) {
        rq.fail_at = Some(1 + r.below(20));
    }
    rq
}
fn judge(ctx: &Ctx, name: &str, d: &[u8], rq: &Req, o: &Outcome) {
    match &o.end {
        End::Panic(p) => {
            let p1 = p.replace("/repo/", "");
            // place and kind, without the numbers in the message
            let (loc, msg) = p1.split_once(": ").unwrap_or((&p1, ""));
            let loc = loc.split(':').next().unwrap_or("");
            let msg: String = msg.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
            ctx.violation(&format!("panic {loc} {}", msg.chars().take(120).collect::<String>()), &format!("{name} {rq:?}: {p}"), &[("input.jxl", d)]);
        }
        End::NeedMore { hint: 0, .. } => ctx.violation("hint0", &format!("{name} {rq:?}: size hint 0"), &[("input.jxl", d)]),
        _ => {}
    }
    if let Some(a) = o.anomaly("canary") {
        ctx.violation("canary", &format!("{name} {rq:?}: {a}"), &[("input.jxl", d)]);
    }
}
pub fn p01(ctx: &Ctx) {
    ctx.rule("damaged files (1-6 random damages each: bit flips, extreme bytes, runs, insertions, deletions, bit shifts of the tail, splices between files; container layouts), random bytes after a signature, and truncations are decoded with random options, pixel formats, input objects, delivery, flushes, skips, runners and injected I/O errors, with overflow checks and debug assertions on; no panic may escape, no call may spin or deadlock (CPU-time and thread-state watchdog) and empty reads may not repeat without bound. Non-trivial: the damaged file got past the signature; distinct by (input, outcome).");
    let mut items = work::items(ctx, ctx.n(120, 1500));
    items.retain(|i| i.data.len() < ctx.n(60_000, 400_000));
    let rounds = ctx.n(1, 30);
    let per = ctx.n(6500, 16000);
    let mut jobs = vec![];
    for k in 0..rounds {
        for i in 0..items.len() {
            // the deadline of a job is its own amount of work, so that runs are repeatable
            let n = (per / (items[i].cost.max(2) / 2)).clamp(12, per / 3);
            for part in 0..n.div_ceil(40) {
                jobs.push((i, k, part, (n - part * 40).min(40)));
            }
        }
    }
    let mut r = Rng::derive(ctx.seed, "p01jobs", 0);
    r.shuffle(&mut jobs);
    ctx.par(&jobs, |_, &(i, k, part, n)| {
        let it = &items[i];
        let mut r = Rng::derive(ctx.seed, "p01", hash_str(&it.name) ^ ((k * 1000 + part) as u64) << 20);
        let gray = it.base().meta.as_ref().is_some_and(|m| m.fmt.color_type.is_grayscale());
        let bare = boxes::extract(&it.data);
        for _ in 0..n {
            let mut d = match (&bare, r.below(3)) {
                (Some(b), 0) => b.clone(),
                (Some(b), 1) => boxes::random_layout(b, &mut r, &boxes::LayoutOpts { allow_ooo: true, frame_starts: vec![], max_parts: 5, trailing: true }).file,
                _ => it.data.clone(),
            };
            let other = &items[r.below(items.len())].data;
            let most = if r.bool() { 2 } else { 6 };
            for _ in 0..1 + r.below(most) {
                mutate(&mut d, &mut r, other);
            }
            if r.chance(1, 20) {
                d.truncate(r.below(d.len() + 1));
            }
            let limit = [1 << 14, 1 << 18, 1 << 20, 1 << 21][r.below(4)];
            let rq = random_request(&mut r, d.len(), gray, limit);
            let _g = vh::watch::begin(&format!("mutant@{} {:x} {:?}", it.name, hash_bytes(&d), rq));
            let o = decode(&d, &rq);
            ctx.eval((o.meta.is_some() || o.stats.process_calls > 1).then(|| hash_bytes(&d) ^ o.digest()));
            ctx.count(&format!("end_{}", o.end.class()), 1);
            if let End::Err { msg, .. } = &o.end {
                let m: String = msg.chars().take_while(|c| c.is_alphanumeric()).collect();
                ctx.count(&format!("err_{m}"), 1);
            }
            ctx.count("flushes", o.stats.flushes as u64);
            ctx.sample(|| format!("{} damaged, {} bytes, {:?}: {:?}", it.name, d.len(), rq.feed, o.end));
            judge(ctx, &it.name, &d, &rq, &o);
        }
    });
    // generated streams: as they are, and damaged
    let js: Vec<u64> = (0..ctx.n(4000, 60_000) as u64).collect();
    ctx.par(&js, |_, &k| {
        let mut r = Rng::derive(ctx.seed, "p01g", k);
        let (base, gray) = generated(&mut r);
        for j in 0..6 {
            let mut d = base.clone();
            if j > 0 {
                for _ in 0..1 + r.below(3) {
                    mutate(&mut d, &mut r, &base);
                }
            }
            let rq = random_request(&mut r, d.len(), gray, 1 << 20);
            let _g = vh::watch::begin(&format!("generated@{k} {:x} {:?}", hash_bytes(&d), rq));
            let o = decode(&d, &rq);
            ctx.eval(o.meta.is_some().then(|| hash_bytes(&d) ^ o.digest()));
            ctx.count(&format!("end_{}", o.end.class()), 1);
            ctx.count("decodes of generated streams", 1);
            judge(ctx, "generated", &d, &rq, &o);
        }
    });
    // short random streams after a signature
    let js: Vec<u64> = (0..ctx.n(1200, 8000) as u64).collect();
    ctx.par(&js, |_, &k| {
        let mut r = Rng::derive(ctx.seed, "p01r", k);
        for _ in 0..25 {
            let mut d = vec![0xff, 0x0a];
            let n = r.below(120);
            let bias = r.below(3);
            for _ in 0..n {
                let x = r.u64() as u8;
                d.push(match bias {
                    0 => x,
                    1 => x & r.u64() as u8,
                    _ => x & (r.u64() as u8) & (r.u64() as u8),
                });
            }
            let rq = random_request(&mut r, d.len(), false, 1 << 18);
            let _g = vh::watch::begin(&format!("random@{:x} {:?}", hash_bytes(&d), rq));
            let o = decode(&d, &rq);
            ctx.eval(o.meta.is_some().then(|| hash_bytes(&d)));
            ctx.count(&format!("end_{}", o.end.class()), 1);
            judge(ctx, "random", &d, &rq, &o);
        }
    });
}
/// Workload for the sanitizers: like P01, and valid streams with everything on.
fn sanitized(ctx: &Ctx, tag: &str, threads_only: bool, per: usize, max_cost: usize, gen_n: usize) {
    let mut items = work::items(ctx, max_cost);
    items.retain(|i| i.data.len() < ctx.n(60_000, 400_000));
    ctx.count("files", items.len() as u64);
    let mut levels: Vec<u8> = vec![3, 2, 1, 0];
    if threads_only {
        levels.truncate(ctx.n(2, 4));
    }
    for &level in &levels {
        jxl_simd::verif::set_max_level(level);
        let mut jobs = vec![];
        for i in 0..items.len() {
            let n = (per / (items[i].cost.max(2) / 2)).clamp(4, per / 3) / levels.len() + 1;
            for part in 0..n.div_ceil(10) {
                jobs.push((i, part, (n - part * 10).min(10)));
            }
        }
        // threads in the decoder compete with the jobs
        let par = if threads_only { 4 } else { 8 };
        ctx.par_n(&jobs, par, |_, &(i, part, n)| {
            let it = &items[i];
            let mut r = Rng::derive(ctx.seed, tag, hash_str(&it.name) ^ (part as u64) << 20 ^ (level as u64) << 50);
            let gray = it.base().meta.as_ref().is_some_and(|m| m.fmt.color_type.is_grayscale());
            for k in 0..n {
                let mut d = it.data.clone();
                let valid = k % if threads_only { 3 } else { 4 } == 0;
                if !valid {
                    let other = &items[r.below(items.len())].data;
                    for _ in 0..1 + r.below(3) {
                        mutate(&mut d, &mut r, other);
                    }
                }
                let limit = if valid { 1 << 26 } else { [1 << 14, 1 << 18, 1 << 20][r.below(3)] };
                let mut rq = random_request(&mut r, d.len(), gray, limit);
                if threads_only {
                    rq.runner = RunnerKind::Threads(2 + r.below(6), r.u64());
                }
                let o = decode(&d, &rq);
                ctx.eval((o.meta.is_some() || o.stats.process_calls > 1).then(|| hash_bytes(&d) ^ o.digest()));
                ctx.count(&format!("end_{}", o.end.class()), 1);
                ctx.count(&format!("decodes at SIMD level {level}"), 1);
                ctx.count("tasks", o.stats.tasks as u64);
                ctx.count("frames rendered", o.frames.len() as u64);
                ctx.count("flushes", o.stats.flushes as u64);
                ctx.sample(|| format!("{} {} {:?}: {:?}", it.name, if valid { "as is" } else { "damaged" }, rq.runner, o.end));
                judge(ctx, &it.name, &d, &rq, &o);
            }
        });
        let js: Vec<u64> = (0..gen_n as u64).collect();
        ctx.par_n(&js, par, |_, &k| {
            let mut r = Rng::derive(ctx.seed, &format!("{tag}g{level}"), k);
            let (mut d, gray) = generated(&mut r);
            let valid = r.bool();
            if !valid {
                let other = d.clone();
                mutate(&mut d, &mut r, &other);
            }
            let mut rq = random_request(&mut r, d.len(), gray, 1 << 22);
            if threads_only {
                rq.runner = RunnerKind::Threads(2 + r.below(6), r.u64());
            }
            let o = decode(&d, &rq);
            ctx.eval(o.meta.is_some().then(|| hash_bytes(&d) ^ o.digest()));
            ctx.count(&format!("end_{}", o.end.class()), 1);
            ctx.count("generated streams", 1);
            ctx.count("tasks", o.stats.tasks as u64);
            ctx.count("frames rendered", o.frames.len() as u64);
            judge(ctx, "generated", &d, &rq, &o);
        });
    }
    jxl_simd::verif::set_max_level(3);
}
/// A generated stream; whether it is gray.
pub fn generated(r: &mut Rng) -> (Vec<u8>, bool) {
    let mut c = vh::enc::make::Cfg::default();
    c.max_px = 20_000;
    if r.bool() {
        c.big = 40;
    }
    let s = vh::enc::make::still(r, &c);
    let g = s.img.gray();
    (s.data, g)
}
pub fn p02(ctx: &Ctx) {
    match std::env::var("VH_SAN").as_deref() {
        Ok("asan") => {
            ctx.rule("AddressSanitizer with debug assertions (pointer alignment, null, library preconditions of unsafe functions) watches decodes of the corpus and generated streams, as they are and damaged, with random options, formats, buffer geometries, inputs, runners, skips and injected errors, at every SIMD level; distinct by (input, outcome)");
            sanitized(ctx, "p02a", false, ctx.n(380, 8000), ctx.n(230, 3000), ctx.n(230, 8000));
        }
        Ok("msan") => {
            ctx.rule("MemorySanitizer (whole program, including std) watches the same kind of workload for uses of uninitialised memory; distinct by (input, outcome)");
            sanitized(ctx, "p02m", false, ctx.n(220, 6000), ctx.n(150, 2000), ctx.n(150, 6000));
        }
        Ok("miri") => miri(ctx),
        _ => {
            ctx.rule("checked build");
            sanitized(ctx, "p02c", false, ctx.n(200, 2000), ctx.n(200, 2000), ctx.n(200, 4000));
        }
    }
}
pub fn p04(ctx: &Ctx) {
    ctx.rule("ThreadSanitizer (whole program, including std) watches decodes with 2-7 worker threads and seeded yields and orders, of corpus and generated streams, as they are and damaged, with flushes, deliveries, skips; distinct by (input, outcome)");
    sanitized(ctx, "p04", true, ctx.n(170, 4000), ctx.n(150, 3000), ctx.n(190, 6000));
}
fn miri(ctx: &Ctx) {
    ctx.rule("Miri interprets decodes of tiny streams");
    let n = ctx.n(6, 60);
    for k in 0..n as u64 {
        let mut r = Rng::derive(ctx.seed, "miri", k);
        let mut c = vh::enc::make::Cfg::default();
        c.big = 9;
        c.max_px = 60;
        let s = vh::enc::make::still(&mut r, &c);
        let rq = random_request(&mut r, s.data.len(), s.img.gray(), 1 << 20);
        let o = decode(&s.data, &rq);
        ctx.eval(Some(hash_bytes(&s.data)));
        println!("{k} {:?}", o.end);
        judge(ctx, "generated", &s.data, &rq, &o);
    }
}
