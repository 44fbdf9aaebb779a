//! P05: the way input is delivered is not observable.
use vh::boxes;
use vh::drv::*;
use vh::report::Ctx;
use vh::rng::*;
use vh::work::{self, Item};

pub fn random_input(r: &mut Rng) -> InputKind {
    match r.below(6) {
        0 => InputKind::Slice,
        1 => InputKind::BufReader([1, 2, 3, 7, 16, 100, 1000, 4096, 8192, 65536][r.below(10)]),
        2 => InputKind::BufReader(1 + r.below(300)),
        _ => InputKind::Custom { avail: r.below(4) as u8, skip: [SkipImpl::Default, SkipImpl::Partial, SkipImpl::Full][r.below(3)].clone() },
    }
}
pub fn random_feed(r: &mut Rng, len: usize) -> Feed {
    match r.below(8) {
        0 => Feed::OneShot,
        1 if len < 6000 => Feed::Fixed(1),
        1 | 2 => Feed::Fixed(1 + r.below(40) + len / 4000),
        3 => Feed::Fixed(1 + r.below(len.max(2))),
        4 => {
            let k = 1 + r.below(6);
            let mut c: Vec<usize> = (0..k).map(|_| r.below(len + 1)).collect();
            c.sort();
            Feed::Cuts(c)
        }
        5 => Feed::Random(r.u64(), 1 + len / 20),
        _ => Feed::Random(r.u64(), 1 + r.below(200) + len / 2000),
    }
}
/// files for the delivery-type checks: corpus, damaged corpus files, generated container layouts
pub fn variants(ctx: &Ctx, items: &[Item], tag: &str, n_layout: usize, n_cut: usize, n_mut: usize) -> Vec<Item> {
    let mut v = vec![];
    for it in items {
        if it.cost > 60 {
            continue;
        }
        let mut r = Rng::derive(ctx.seed, tag, hash_str(&it.name));
        let Some(cs) = boxes::extract(&it.data) else { continue };
        for _ in 0..n_layout {
            let l = boxes::random_layout(&cs, &mut r, &boxes::LayoutOpts { allow_ooo: true, frame_starts: vec![], max_parts: 8, trailing: true });
            let mut x = Item::new(&format!("{}#layout[{}]", it.name, l.desc), l.file);
            x.cost = it.cost;
            v.push(x);
        }
        for _ in 0..n_cut {
            let n = r.below(it.data.len() + 1);
            let mut x = Item::new(&format!("{}#prefix{}", it.name, n), it.data[..n].to_vec());
            x.cost = it.cost;
            v.push(x);
        }
        for _ in 0..n_mut {
            let mut d = it.data.clone();
            let k = 1 + r.below(3);
            for _ in 0..k {
                let p = r.below(d.len());
                d[p] ^= 1 << r.below(8);
            }
            let mut x = Item::new(&format!("{}#bitflips", it.name), d);
            x.cost = 1;
            x.cost = work::cost_of(&x.data).max(it.cost);
            if x.cost < 2000 {
                v.push(x);
            }
        }
    }
    if n_mut > 0 {
        // damaged containers
        let k = v.len();
        for i in 0..k {
            if v[i].name.contains("#layout") {
                let mut r = Rng::derive(ctx.seed, tag, hash_str(&v[i].name) ^ 77);
                let mut d = v[i].data.clone();
                let mut heads: Vec<usize> = vec![];
                for w in 12..d.len().saturating_sub(8) {
                    if matches!(&d[w..w + 4], b"jxlp" | b"jxlc" | b"ftyp") {
                        heads.push(w);
                    }
                }
                match r.below(3) {
                    0 => {
                        let p = *r.pick(&heads) + r.below(8);
                        let p = p.saturating_sub(4).min(d.len() - 1);
                        d[p] ^= 1 << r.below(8);
                    }
                    1 => {
                        let p = *r.pick(&heads) - 4;
                        d.truncate(p + r.below(20));
                    }
                    _ => {
                        let p = r.below(d.len());
                        let n = 1 + r.below(12);
                        d.drain(p..(p + n).min(d.len()));
                    }
                }
                let mut x = Item::new(&format!("{}#damaged", v[i].name), d);
                x.cost = work::cost_of(&x.data).max(v[i].cost);
                if x.cost < 2000 {
                    v.push(x);
                }
            }
        }
    }
    v
}
pub fn p05(ctx: &Ctx) {
    ctx.rule("each corpus file, random container layouts of its codestream, truncations and bit flips of it: decoded one-shot from a slice, then again with random cuts and input objects (growing slice, BufReader of any capacity over a growing reader, custom inputs with vague availability and partial or default skip); every outcome is compared (metadata, frame headers, pixels, index, file length, end). Non-trivial: the delivery needed at least one request for more input or another input object; distinct by (file, delivery).");
    let mut items = work::items(ctx, ctx.n(600, 100_000));
    let extra = variants(ctx, &items, "p05", ctx.n(14, 60), ctx.n(3, 10), ctx.n(6, 30));
    items.extend(extra);
    items.sort_by_key(|i| std::cmp::Reverse(i.cost));
    let budget = ctx.n(250, 4000);
    ctx.par(&items, |_, it| {
        let mut r = Rng::derive(ctx.seed, "p05", hash_str(&it.name) ^ hash_bytes(&it.data));
        let _g = vh::watch::begin(&it.name);
        let lim = Opts { sample_limit: Some(1 << 27), ..Default::default() };
        let base = decode(&it.data, &Req { opts: lim.clone(), hash_only: it.cost > 400, ..Default::default() });
        ctx.count(&format!("base_{}", base.end.class()), 1);
        if base.stats.retries_without_feed > 0 {
            ctx.violation(&format!("oneshot-incomplete {}", it.short()), &format!("{}: the whole file was offered, the decoder asked for more input, and continued when called again without any ({} times)", it.name, base.stats.retries_without_feed), &[("input.jxl", &it.data)]);
        }
        let n = it.reps(budget, ctx.n(24, 200)).max(2);
        for k in 0..n {
            let mut rq = Req { opts: lim.clone(), hash_only: it.cost > 400, ..Default::default() };
            let full = r.chance(1, 3);
            if k == 0 {
                // every prefix of the headers
                let m = ctx.n(4000, 20000).min(it.data.len());
                rq.feed = Feed::Cuts((1..=m).collect());
            } else if full {
                rq.feed = random_feed(&mut r, it.data.len());
            } else if r.bool() {
                rq.input = random_input(&mut r);
            } else {
                rq.input = random_input(&mut r);
                rq.feed = random_feed(&mut r, it.data.len());
            }
            let o = decode(&it.data, &rq);
            ctx.eval((o.stats.need_more > 0 || rq.input != InputKind::Slice).then(|| hash_str(&format!("{}{:?}{:?}", it.name, rq.feed, rq.input))));
            ctx.count("process_calls", o.stats.process_calls as u64);
            ctx.count("need_more", o.stats.need_more as u64);
            ctx.count("reads", o.stats.reads as u64);
            ctx.count(&format!("input_{}", match &rq.input { InputKind::Slice => "slice", InputKind::BufReader(_) => "bufreader", _ => "custom" }), 1);
            ctx.sample(|| format!("{} {:?} {:?}: {:?}, {} requests for more", it.name, rq.input, rq.feed, o.end, o.stats.need_more));
            let d = if it.name.ends_with("#damaged") { diff_prefix(&base, &o) } else { diff(&base, &o, true) };
            if let Some(d) = d {
                ctx.violation(&format!("delivery {}", it.short()), &format!("{} delivered by {:?} {:?}: {d}", it.name, rq.input, rq.feed), &[("input.jxl", &it.data)]);
                break;
            }
            if let Some(a) = o.anomaly("hint0") {
                ctx.violation(&format!("hint0 {}", it.short()), &format!("{} delivered by {:?} {:?}: {a}", it.name, rq.input, rq.feed), &[("input.jxl", &it.data)]);
                break;
            }
            let _ = k;
        }
    });
}
