//! The files checks work on, with their one-shot baseline.
use crate::drv::*;
use crate::report::Ctx;
use crate::rng::Rng;
use jxl::api::*;
use std::sync::OnceLock;

pub struct Item {
    pub name: String,
    pub data: Vec<u8>,
    /// rough decode cost, 1 = about a millisecond
    pub cost: usize,
    base: OnceLock<Outcome>,
}
impl Item {
    pub fn new(name: &str, data: Vec<u8>) -> Item {
        Item { name: name.into(), data, cost: 0, base: OnceLock::new() }
    }
    pub fn short(&self) -> &str {
        self.name.rsplit('/').next().unwrap()
    }
    pub fn base(&self) -> &Outcome {
        self.base.get_or_init(|| decode(&self.data, &Req { hash_only: self.cost > 400, ..Default::default() }))
    }
    /// how many variations of this item to run, of a total budget of about `ms` per item
    pub fn reps(&self, ms: usize, max: usize) -> usize {
        (ms / self.cost.max(1)).min(max)
    }
}
/// frames in the file by an index scan; cost by declared pixels
pub fn cost_of(data: &[u8]) -> usize {
    let o = decode(data, &Req { opts: Opts { scan_only: true, sample_limit: Some(1 << 28), ..Default::default() }, hash_only: true, ..Default::default() });
    let px = o.meta.as_ref().map(|m| m.size.0 * m.size.1).unwrap_or(1);
    px * o.scanned.len().max(1) / 10_000 + data.len() / 5_000 + 1
}
/// all corpus files with cost at most `max_cost` and generated ones
pub fn items(ctx: &Ctx, max_cost: usize) -> Vec<Item> {
    let mut v = corpus_items(ctx, max_cost);
    v.extend(with_cost(ctx, movie_items(ctx, ctx.n(96, 1000)), max_cost));
    v.sort_by_key(|i| std::cmp::Reverse(i.cost));
    v
}
/// Generated images and animations: blending, crops, references, patches, splines, noise, filters,
/// upsampling, extra channels, previews, several groups and passes.
pub fn movie_items(ctx: &Ctx, n: usize) -> Vec<Item> {
    use crate::enc::movie::*;
    (0..n)
        .map(|i| {
            let mut r = Rng::derive(ctx.seed, "movies", i as u64);
            let c = match i % 6 {
                0 => MovieCfg { vardct: 50, blend: 20, features: 30, filters: 20, max_frames: 2, max_dim: 420, preview: true, ..Default::default() },
                1 => MovieCfg { vardct: 25, max_frames: 14, max_dim: 40, anim: 100, features: 70, preview: true, ..Default::default() },
                2 => MovieCfg { vardct: 30, max_frames: 3, max_dim: 300, upsample: 60, ..Default::default() },
                3 => MovieCfg { vardct: 30, features: 100, max_dim: 150, max_frames: 4, ..Default::default() },
                4 => MovieCfg { vardct: 60, filters: 100, max_dim: 280, max_frames: 3, ..Default::default() },
                _ => MovieCfg::default(),
            };
            Item::new(&format!("gen/movie-{}-{i}", ctx.seed), movie(&mut r, &c).data)
        })
        .collect()
}
/// all corpus files with cost at most `max_cost`
pub fn corpus_items(ctx: &Ctx, max_cost: usize) -> Vec<Item> {
    let v: Vec<Item> = crate::corpus::load().into_iter().map(|f| Item::new(&f.name, f.data)).collect();
    with_cost(ctx, v, max_cost)
}
pub fn with_cost(ctx: &Ctx, v: Vec<Item>, max_cost: usize) -> Vec<Item> {
    let costs: Vec<OnceLock<usize>> = v.iter().map(|_| OnceLock::new()).collect();
    ctx.par(&v, |i, it| {
        let _g = crate::watch::begin(&it.name);
        let _ = costs[i].set(cost_of(&it.data));
    });
    let mut v: Vec<Item> = v
        .into_iter()
        .zip(costs)
        .map(|(mut i, c)| {
            i.cost = c.into_inner().unwrap_or(1 << 30);
            i
        })
        .filter(|i| i.cost <= max_cost)
        .collect();
    // expensive ones first, so that the tail of a parallel run is short
    v.sort_by_key(|i| std::cmp::Reverse(i.cost));
    v
}

pub fn random_data_format(r: &mut Rng) -> JxlDataFormat {
    let e = if r.bool() { Endianness::LittleEndian } else { Endianness::BigEndian };
    match r.below(6) {
        0 => JxlDataFormat::U8 { bit_depth: 8 },
        1 => JxlDataFormat::U8 { bit_depth: 1 + r.below(8) as u8 },
        2 => JxlDataFormat::U16 { endianness: e, bit_depth: 16 },
        3 => JxlDataFormat::U16 { endianness: e, bit_depth: 1 + r.below(16) as u8 },
        4 => JxlDataFormat::F16 { endianness: e },
        _ => JxlDataFormat::F32 { endianness: e },
    }
}
/// a random valid output request for an image
pub fn random_fmt(r: &mut Rng, gray: bool) -> Fmt {
    if r.chance(1, 6) {
        return Fmt::Default;
    }
    let color = if r.chance(1, 3) {
        None
    } else {
        let all = [JxlColorType::Rgb, JxlColorType::Rgba, JxlColorType::Bgr, JxlColorType::Bgra, JxlColorType::Grayscale, JxlColorType::GrayscaleAlpha];
        Some(all[r.below(if gray { 6 } else { 4 })])
    };
    let fmt = if r.chance(1, 12) { None } else { Some(random_data_format(r)) };
    let k = 1 + r.below(3);
    let mut ec: Vec<Option<JxlDataFormat>> = (0..k).map(|_| if r.chance(1, 4) { None } else { Some(random_data_format(r)) }).collect();
    if fmt.is_none() && ec.iter().all(|x| x.is_none()) {
        ec[0] = Some(JxlDataFormat::f32());
    }
    Fmt::Pix { color, alpha: r.bool(), fmt, ec }
}
pub fn random_opts(r: &mut Rng) -> Opts {
    Opts { spot: r.bool(), skip_preview: true, sample_limit: Some(1 << 27), high_precision: r.bool(), premultiply: r.chance(1, 3), scan_only: false }
}
pub fn is_gray(o: &Outcome) -> bool {
    o.meta.as_ref().is_some_and(|m| m.fmt.color_type.is_grayscale())
}
pub fn random_runner(r: &mut Rng) -> RunnerKind {
    match r.below(8) {
        0 => RunnerKind::Forward,
        1 => RunnerKind::Reverse,
        2 | 3 => RunnerKind::Shuffle(r.u64()),
        _ => RunnerKind::Threads(1 + r.below(8), r.u64()),
    }
}
pub fn random_geom(r: &mut Rng) -> Geom {
    Geom {
        pad_bytes: [0, 0, 1, 2, 3, 5, 8, 16, 60, 64, 100, 257][r.below(12)],
        lead: [0, 0, 1, 2, 4, 8, 12, 16, 33, 60][r.below(10)],
        fill: r.u64() as u8,
        fill_seed: if r.bool() { r.u64() | 1 } else { 0 },
    }
}
/// frames of a file: (start, end) in the codestream, in order, and whether visible; from the hook log
pub struct FrameMap {
    pub frames: Vec<jxl::verif::FrameEvent>,
    pub end: usize,
}
pub fn frame_map(cs: &[u8]) -> Option<FrameMap> {
    jxl::verif::start_log();
    let o = decode(cs, &Req { opts: Opts { scan_only: true, skip_preview: true, ..Default::default() }, hash_only: true, ..Default::default() });
    let frames = jxl::verif::take_log();
    match o.end {
        End::Done(Some(l)) => Some(FrameMap { frames, end: l as usize }),
        _ => None,
    }
}
