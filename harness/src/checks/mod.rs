use vh::corpus;
use vh::drv::*;
use vh::report::Ctx;
mod codec;
mod delivery;
mod headers;
mod history;
mod icc;
mod output;
mod limits;
mod prims;
mod render;
mod robust;

pub fn run(ctx: &Ctx, _args: &[String]) -> bool {
    match ctx.pid.as_str() {
        "P05" => delivery::p05(ctx),
        "P16" => codec::p16(ctx),
        "P17" => headers::p17(ctx),
        "P20" => icc::p20(ctx),
        "P01" => robust::p01(ctx),
        "P02" => robust::p02(ctx),
        "P04" => robust::p04(ctx),
        "P03" => history::p03(ctx),
        "P06" => history::p06(ctx),
        "P07" => history::p07(ctx),
        "P08" => history::p08(ctx),
        "P09" => history::p09(ctx),
        "P10" => history::p10(ctx),
        "P13" => history::p13(ctx),
        "P14" => history::p14(ctx),
        "P19" => render::p19(ctx),
        "P23" => render::p23(ctx),
        "P15" => limits::p15(ctx),
        "P18" => render::p18(ctx),
        "P26" => prims::p26(ctx),
        "P24" => output::p24(ctx),
        "P21" => output::p21(ctx),
        "P12" => output::p12(ctx),
        "P11" => output::p11(ctx),
        "P22" => history::p22(ctx),
        _ => return false,
    }
    true
}
pub use output::{dec, dumpfmt};
pub fn info(args: &[String]) {
    let files: Vec<corpus::File> = if args.is_empty() {
        corpus::load()
    } else {
        args.iter().map(|a| corpus::File { name: a.clone(), data: std::fs::read(a).unwrap() }).collect()
    };
    for f in files {
        let t = std::time::Instant::now();
        let o = decode(&f.data, &Req { hash_only: true, ..Default::default() });
        println!(
            "{} len {} ms {} {:?} frames {} leftover {} {} {}",
            f.name,
            f.data.len(),
            t.elapsed().as_millis(),
            o.end,
            o.frames.len(),
            o.stats.leftover,
            o.meta.as_ref().map(|m| m.info.clone()).unwrap_or_default(),
            o.meta.as_ref().map(|m| m.icc.clone()).unwrap_or_default(),
        );
    }
}
pub fn feedtest(args: &[String]) {
    let d = std::fs::read(&args[0]).unwrap();
    let n: usize = args[1].parse().unwrap();
    let kind = match args.get(2).map(|s| s.as_str()) {
        Some("b") => InputKind::BufReader(args[3].parse().unwrap()),
        Some("c") => InputKind::Custom { avail: args[3].parse().unwrap(), skip: [SkipImpl::Default, SkipImpl::Partial, SkipImpl::Full][args[4].parse::<usize>().unwrap()].clone() },
        _ => InputKind::Slice,
    };
    let t = std::time::Instant::now();
    let o = decode(&d, &Req { hash_only: true, feed: if n == 0 { Feed::OneShot } else { Feed::Fixed(n) }, input: kind, ..Default::default() });
    println!("{:?} {:?} {:?} {:?}", t.elapsed(), o.end, o.stats, o.anomalies);
}

pub fn nocolor(args: &[String]) {
    for a in args {
        let d = std::fs::read(a).unwrap();
        let o = decode(&d, &Req { fmt: Fmt::Pix { color: None, alpha: false, fmt: None, ec: vec![Some(jxl::api::JxlDataFormat::f32())] }, ..Default::default() });
        let b = decode(&d, &Req { fmt: Fmt::Pix { color: None, alpha: false, fmt: Some(jxl::api::JxlDataFormat::f32()), ec: vec![Some(jxl::api::JxlDataFormat::f32())] }, ..Default::default() });
        let same = o.frames.iter().zip(&b.frames).all(|(x, y)| x.bufs[..] == y.bufs[1..]);
        println!("{a} {:?} vs {:?} same {same}", o.end, b.end);
    }
}
/// Repeats a partial decode of a file with threads and flushes.
pub fn stress(args: &[String]) {
    let d = std::fs::read(&args[0]).unwrap();
    let n: u64 = args[1].parse().unwrap();
    let threads: usize = args[2].parse().unwrap();
    let mut seen = std::collections::BTreeMap::new();
    for k in 0..n {
        let runner = match threads { 0 => RunnerKind::Shuffle(k), 1 => RunnerKind::None, t => RunnerKind::Threads(t, k) };
        let rq = Req { feed: Feed::Random(k, 1636), flush: FlushPlan::Random { seed: k, num: 1, den: 2, rep: 2 }, runner, hash_only: true, ..Default::default() };
        let o = decode(&d, &rq);
        *seen.entry(format!("{:?}", o.end)).or_insert(0) += 1;
    }
    println!("{seen:?}");
}
