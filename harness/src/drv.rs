//! Drives the real decoder through its public API and records what can be observed.
use crate::rng::{Rng, hash_bytes, mix};
use jxl::api::states::*;
use jxl::api::*;
use jxl::error::{Error, Result as JResult};
use std::cell::{Cell, RefCell};
use std::io::{BufReader, IoSliceMut, Read, Seek, SeekFrom};
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::rc::Rc;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

// ---------------------------------------------------------------- panics
thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
pub fn install_panic_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("VH_BT").is_some() {
            eprintln!("{loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("{loc}: {msg}"));
            }
        });
        if !QUIET.with(|q| q.get()) {
            def(info);
        }
    }));
}
/// Runs `f`, turning a panic into Err(location: message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|e| {
        if let Some(w) = e.downcast_ref::<WorkerPanic>() {
            return w.0.clone();
        }
        LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
    })
}
pub struct WorkerPanic(pub String);

// ---------------------------------------------------------------- requests
#[derive(Clone, Debug)]
pub struct Opts {
    pub spot: bool,
    pub skip_preview: bool,
    pub sample_limit: Option<usize>,
    pub high_precision: bool,
    pub premultiply: bool,
    pub scan_only: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { spot: true, skip_preview: true, sample_limit: None, high_precision: false, premultiply: false, scan_only: false }
    }
}
impl Opts {
    pub fn to_jxl(&self) -> JxlDecoderOptions {
        let mut o = JxlDecoderOptions::default();
        o.render_spot_colors = self.spot;
        o.skip_preview = self.skip_preview;
        o.sample_limit = self.sample_limit;
        o.high_precision = self.high_precision;
        o.premultiply_output = self.premultiply;
        o.scan_frames_only = self.scan_only;
        o
    }
}
#[derive(Clone, Debug)]
pub enum Fmt {
    Default,
    /// colour type None: take the file's natural one (gray/rgb, +alpha if the flag is set);
    /// extra channel formats are cycled; an alpha channel that is interleaved is set to None.
    Pix { color: Option<JxlColorType>, alpha: bool, fmt: Option<JxlDataFormat>, ec: Vec<Option<JxlDataFormat>> },
}
impl Fmt {
    pub fn all(f: JxlDataFormat) -> Fmt {
        Fmt::Pix { color: None, alpha: false, fmt: Some(f), ec: vec![Some(f)] }
    }
    pub fn resolve(&self, bi: &JxlBasicInfo, def: &JxlPixelFormat) -> JxlPixelFormat {
        match self {
            Fmt::Default => def.clone(),
            Fmt::Pix { color, alpha, fmt, ec } => {
                let mut ct = color.unwrap_or(def.color_type);
                if color.is_none() && *alpha {
                    ct = ct.add_alpha();
                }
                let main_alpha = bi.extra_channels.iter().position(|c| c.ec_type == jxl::headers::extra_channels::ExtraChannel::Alpha);
                let ecs = (0..bi.extra_channels.len())
                    .map(|i| if ct.has_alpha() && Some(i) == main_alpha { None } else if ec.is_empty() { None } else { ec[i % ec.len()] })
                    .collect();
                JxlPixelFormat { color_type: ct, color_data_format: *fmt, extra_channel_format: ecs }
            }
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum InputKind {
    Slice,
    /// std BufReader over a growing Read+Seek, with this capacity
    BufReader(usize),
    /// own implementation: reads fill completely; `avail` policy 0: exact, 1: says 1 when non-empty, 2: too much
    Custom { avail: u8, skip: SkipImpl },
}
#[derive(Clone, Debug, PartialEq)]
pub enum SkipImpl {
    Default,
    Partial,
    Full,
}
#[derive(Clone)]
pub enum Feed {
    OneShot,
    Fixed(usize),
    /// cut positions (absolute offsets, ascending)
    Cuts(Vec<usize>),
    /// random chunk sizes up to max
    Random(u64, usize),
}
impl std::fmt::Debug for Feed {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Feed::OneShot => write!(f, "OneShot"),
            Feed::Fixed(n) => write!(f, "Fixed({n})"),
            Feed::Cuts(c) if c.len() > 8 => write!(f, "Cuts({:?}.. {} cuts to {})", &c[..3], c.len(), c[c.len() - 1]),
            Feed::Cuts(c) => write!(f, "Cuts({c:?})"),
            Feed::Random(s, n) => write!(f, "Random({s},{n})"),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum RunnerKind {
    None,
    Forward,
    Reverse,
    Shuffle(u64),
    /// real threads, seed for yields/orders
    Threads(usize, u64),
}
#[derive(Clone, Debug)]
pub enum FlushPlan {
    Never,
    /// after each request for more input with probability num/den; up to `rep` times
    Random { seed: u64, num: usize, den: usize, rep: usize },
    Always,
}
#[derive(Clone, Debug, Default)]
pub struct Geom {
    pub pad_bytes: usize,
    pub lead: usize,
    pub fill: u8,
    /// > 0: pseudo-random fill with this seed
    pub fill_seed: u64,
}
#[derive(Clone, Debug)]
pub struct Req {
    pub opts: Opts,
    pub fmt: Fmt,
    pub input: InputKind,
    pub feed: Feed,
    pub runner: RunnerKind,
    pub flush: FlushPlan,
    pub geom: Geom,
    /// bit i: skip the i-th frame notified to the user
    pub skip_mask: u64,
    pub max_frames: usize,
    /// fail the n-th input operation (read or skip) with an io error
    pub fail_at: Option<usize>,
    /// pass this many buffers more (or fewer) than needed
    pub buffer_delta: i32,
    /// in the middle of a frame, also flush with this many buffers more (or fewer)
    pub flush_delta: i32,
    /// keep no pixels, only their hash
    pub hash_only: bool,
}
impl Default for Req {
    fn default() -> Self {
        Req {
            opts: Opts::default(),
            fmt: Fmt::Default,
            input: InputKind::Slice,
            feed: Feed::OneShot,
            runner: RunnerKind::None,
            flush: FlushPlan::Never,
            geom: Geom::default(),
            skip_mask: 0,
            max_frames: 100_000,
            fail_at: None,
            buffer_delta: 0,
            flush_delta: 0,
            hash_only: false,
        }
    }
}

// ---------------------------------------------------------------- outcomes
#[derive(Clone, Debug, PartialEq)]
pub struct Meta {
    pub size: (usize, usize),
    pub info: String,
    pub icc: String,
    pub fmt: JxlPixelFormat,
    /// first alpha channel and whether it is associated
    pub alpha: Option<(usize, bool)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct FrameOut {
    pub name: String,
    pub duration: Option<f64>,
    pub size: (usize, usize),
    pub skipped: bool,
    /// tight rows, one vector per buffer
    pub bufs: Vec<Vec<u8>>,
    pub hash: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done(Option<u64>),
    NeedMore { hint: usize, stage: u8 },
    Err { msg: String, io: bool },
    Panic(String),
    /// stopped by max_frames
    Stopped,
}
impl End {
    pub fn class(&self) -> &'static str {
        match self {
            End::Done(_) => "done",
            End::NeedMore { .. } => "needmore",
            End::Err { .. } => "error",
            End::Panic(_) => "panic",
            End::Stopped => "stopped",
        }
    }
    pub fn is_done(&self) -> bool {
        matches!(self, End::Done(_))
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Scan {
    pub index: usize,
    pub duration_ms: u64,
    pub ticks: u32,
    pub offset: u64,
    pub last: bool,
    pub key: bool,
    pub start: u64,
    pub skip: usize,
    pub name: String,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Stats {
    pub process_calls: usize,
    pub need_more: usize,
    /// NeedsMoreInput although unread input was on offer
    pub leftover: usize,
    /// the decoder asked for more input, none was added, and it went on when called again
    pub retries_without_feed: usize,
    pub pending_retry: Option<usize>,
    pub flushes: usize,
    pub flush_true: usize,
    pub flush_err: usize,
    pub flush_wrong_count: usize,
    pub runs: usize,
    pub tasks: usize,
    pub reads: usize,
    pub skips: usize,
    pub zero_reads: usize,
    pub max_hint: usize,
    /// the injected I/O error was delivered
    pub io_failed: bool,
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub meta: Option<Meta>,
    pub frames: Vec<FrameOut>,
    pub end: End,
    pub scanned: Vec<Scan>,
    pub stats: Stats,
    pub anomalies: Vec<(String, String)>,
    pub consumed: usize,
}
impl Outcome {
    fn completed(&mut self) {
        if self.stats.pending_retry.take().is_some() {
            self.stats.retries_without_feed += 1;
        }
    }
    pub fn digest(&self) -> u64 {
        let mut h = 1u64;
        if let Some(m) = &self.meta {
            h = mix(h ^ hash_bytes(format!("{m:?}").as_bytes()));
        }
        for f in &self.frames {
            h = mix(h ^ f.hash ^ hash_bytes(f.name.as_bytes()));
        }
        mix(h ^ hash_bytes(self.end.class().as_bytes()))
    }
    pub fn anomaly(&self, kind: &str) -> Option<&str> {
        self.anomalies.iter().find(|a| a.0 == kind).map(|a| a.1.as_str())
    }
}
/// First difference between two outcomes, if any (pixels, metadata, frames, end, scan).
pub fn diff(a: &Outcome, b: &Outcome, with_end_detail: bool) -> Option<String> {
    if a.meta != b.meta {
        return Some(format!("metadata differ: {:?} vs {:?}", a.meta, b.meta));
    }
    let (ea, eb) = (&a.end, &b.end);
    if ea.class() != eb.class() {
        return Some(format!("end differs: {ea:?} vs {eb:?} (frames {} vs {})", a.frames.len(), b.frames.len()));
    }
    if with_end_detail && matches!(ea, End::Done(_)) && ea != eb {
        return Some(format!("file length differs: {ea:?} vs {eb:?}"));
    }
    if a.frames.len() != b.frames.len() {
        return Some(format!("frame count differs: {} vs {}", a.frames.len(), b.frames.len()));
    }
    for (i, (x, y)) in a.frames.iter().zip(&b.frames).enumerate() {
        if let Some(d) = frame_diff(x, y) {
            return Some(format!("frame {i}: {d}"));
        }
    }
    if a.scanned != b.scanned {
        return Some(format!("frame index differs: {:?} vs {:?}", a.scanned, b.scanned));
    }
    None
}
/// Like `diff`, but an error may surface earlier or later (a damaged container is noticed when the
/// input reaches the damage, which depends on how far the decoder read ahead).
pub fn diff_prefix(a: &Outcome, b: &Outcome) -> Option<String> {
    let err = |o: &Outcome| matches!(o.end, End::Err { .. });
    if !err(a) && !err(b) {
        return diff(a, b, true);
    }
    if a.end.class() == "panic" || b.end.class() == "panic" {
        return Some(format!("end differs: {:?} vs {:?}", a.end, b.end));
    }
    if a.meta.is_some() && b.meta.is_some() && a.meta != b.meta {
        return Some(format!("metadata differ: {:?} vs {:?}", a.meta, b.meta));
    }
    for (i, (x, y)) in a.frames.iter().zip(&b.frames).enumerate() {
        if let Some(d) = frame_diff(x, y) {
            return Some(format!("frame {i}: {d}"));
        }
    }
    if a.scanned.iter().zip(&b.scanned).any(|(x, y)| x != y) {
        return Some(format!("frame index differs: {:?} vs {:?}", a.scanned, b.scanned));
    }
    None
}
pub fn frame_diff(x: &FrameOut, y: &FrameOut) -> Option<String> {
    if x.name != y.name || x.duration != y.duration || x.size != y.size {
        return Some(format!("header differs: {:?} vs {:?}", (&x.name, x.duration, x.size), (&y.name, y.duration, y.size)));
    }
    if x.skipped || y.skipped {
        return None;
    }
    if x.hash != y.hash {
        for (b, (p, q)) in x.bufs.iter().zip(&y.bufs).enumerate() {
            if p.len() != q.len() {
                return Some(format!("buffer {b} length {} vs {}", p.len(), q.len()));
            }
            if let Some(k) = (0..p.len()).find(|&k| p[k] != q[k]) {
                let n = (0..p.len()).filter(|&k| p[k] != q[k]).count();
                let row = p.len() / x.size.1.max(1);
                return Some(format!(
                    "buffer {b}: {n} of {} bytes differ, first at byte {k} (row {}, byte {} of row): {} vs {}",
                    p.len(),
                    k / row.max(1),
                    k % row.max(1),
                    p[k],
                    q[k]
                ));
            }
        }
        return Some("pixel hash differs".into());
    }
    None
}

// ---------------------------------------------------------------- inputs
struct Shared<'a> {
    data: &'a [u8],
    end: Rc<Cell<usize>>,
}
pub struct GrowReader<'a> {
    s: Shared<'a>,
    pos: usize,
}
impl Read for GrowReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let e = self.s.end.get();
        let p = self.pos.min(e);
        let n = buf.len().min(e - p);
        buf[..n].copy_from_slice(&self.s.data[p..p + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Seek for GrowReader<'_> {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        let np = match to {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.s.end.get() as i128 + x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
        };
        if np < 0 || np > i64::MAX as i128 {
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "seek out of range"));
        }
        self.pos = np as usize;
        Ok(np as u64)
    }
}
pub enum Src<'a> {
    Slice { data: &'a [u8], pos: usize, end: Rc<Cell<usize>> },
    Buf(BufReader<GrowReader<'a>>),
    Custom { data: &'a [u8], pos: usize, end: Rc<Cell<usize>>, avail: u8, skip: SkipImpl },
}
pub struct AnyInput<'a> {
    src: Src<'a>,
    total_end: Rc<Cell<usize>>,
    pub reads: usize,
    pub skips: usize,
    pub zero: usize,
    zero_run: usize,
    ops: usize,
    fail_at: Option<usize>,
    pub failed: bool,
    touched: bool,
}
const IO_MARK: &str = "vh-injected-io-error";
impl<'a> AnyInput<'a> {
    pub fn new(data: &'a [u8], start: usize, kind: &InputKind, end: Rc<Cell<usize>>, fail_at: Option<usize>) -> Self {
        let src = match kind {
            InputKind::Slice => Src::Slice { data, pos: start, end: end.clone() },
            InputKind::BufReader(c) => Src::Buf(BufReader::with_capacity(*c, GrowReader { s: Shared { data, end: end.clone() }, pos: start })),
            InputKind::Custom { avail, skip } => Src::Custom { data, pos: start, end: end.clone(), avail: *avail, skip: skip.clone() },
        };
        AnyInput { src, total_end: end, reads: 0, skips: 0, zero: 0, zero_run: 0, ops: 0, fail_at, failed: false, touched: false }
    }
    /// position of the next unread byte
    pub fn pos(&mut self) -> usize {
        match &mut self.src {
            Src::Slice { pos, .. } => *pos,
            Src::Buf(b) => b.stream_position().unwrap() as usize,
            Src::Custom { pos, .. } => *pos,
        }
    }
    pub fn unread(&mut self) -> usize {
        let p = self.pos();
        self.total_end.get().saturating_sub(p)
    }
    fn op(&mut self) -> std::io::Result<()> {
        self.ops += 1;
        self.touched = true;
        if Some(self.ops) == self.fail_at {
            self.failed = true;
            return Err(std::io::Error::other(IO_MARK));
        }
        Ok(())
    }
    fn note(&mut self, n: usize) {
        if n == 0 {
            self.zero += 1;
            self.zero_run += 1;
            if self.zero_run > 200_000 {
                panic!("vh: no progress (200000 consecutive empty reads in one call)");
            }
        } else {
            self.zero_run = 0;
        }
    }
}
impl JxlBitstreamInput for AnyInput<'_> {
    fn available_bytes(&mut self) -> Result<usize, std::io::Error> {
        self.op()?;
        match &mut self.src {
            Src::Slice { data, pos, end } => (&data[(*pos).min(end.get())..end.get()]).available_bytes(),
            Src::Buf(b) => b.available_bytes(),
            Src::Custom { pos, end, avail, .. } => {
                let left = end.get() - *pos;
                Ok(match avail {
                    0 => left,
                    1 => left.min(1),
                    2 => left * 2 + 1000,
                    _ => left.min(100),
                })
            }
        }
    }
    fn read(&mut self, bufs: &mut [IoSliceMut]) -> Result<usize, std::io::Error> {
        self.op()?;
        self.reads += 1;
        let want: usize = bufs.iter().map(|b| b.len()).sum();
        let n = match &mut self.src {
            Src::Slice { data, pos, end } => {
                let mut s = &data[*pos..end.get()];
                let n = JxlBitstreamInput::read(&mut s, bufs)?;
                *pos += n;
                n
            }
            Src::Buf(b) => JxlBitstreamInput::read(b, bufs)?,
            Src::Custom { data, pos, end, .. } => {
                let mut n = 0;
                for b in bufs.iter_mut() {
                    let k = b.len().min(end.get() - *pos);
                    b[..k].copy_from_slice(&data[*pos..*pos + k]);
                    *pos += k;
                    n += k;
                }
                n
            }
        };
        if want > 0 || n > 0 {
            self.note(n);
        } else {
            self.note(0);
        }
        Ok(n)
    }
    fn skip(&mut self, bytes: usize) -> Result<usize, std::io::Error> {
        self.op()?;
        self.skips += 1;
        let n = match &mut self.src {
            Src::Slice { data, pos, end } => {
                let mut s = &data[*pos..end.get()];
                let n = JxlBitstreamInput::skip(&mut s, bytes)?;
                *pos += n;
                n
            }
            Src::Buf(b) => JxlBitstreamInput::skip(b, bytes)?,
            Src::Custom { data, pos, end, skip, .. } => match skip {
                SkipImpl::Full => {
                    let n = bytes.min(end.get() - *pos);
                    *pos += n;
                    n
                }
                SkipImpl::Partial => {
                    let n = bytes.min(end.get() - *pos).min(777);
                    *pos += n;
                    n
                }
                SkipImpl::Default => {
                    // the provided implementation of the trait, over the same bytes
                    struct D<'b>(&'b [u8]);
                    impl JxlBitstreamInput for D<'_> {
                        fn available_bytes(&mut self) -> Result<usize, std::io::Error> {
                            Ok(self.0.len())
                        }
                        fn read(&mut self, bufs: &mut [IoSliceMut]) -> Result<usize, std::io::Error> {
                            Read::read_vectored(&mut self.0, bufs)
                        }
                    }
                    if bytes > 1 << 40 {
                        // (an open-ended skip through the provided loop would take for ever)
                        let n = end.get() - *pos;
                        *pos = end.get();
                        n
                    } else {
                        let mut d = D(&data[*pos..end.get()]);
                        let n = d.skip(bytes)?;
                        *pos = end.get() - d.0.len();
                        n
                    }
                }
            },
        };
        self.note(n);
        Ok(n)
    }
}

// ---------------------------------------------------------------- runners
type Job = Box<dyn FnOnce() + Send + 'static>;
struct Helper(std::sync::mpsc::Sender<(Job, std::sync::mpsc::Sender<()>)>);
thread_local! {
    static POOL: RefCell<Vec<Helper>> = const { RefCell::new(vec![]) };
}
/// Runs each job in a thread of its own (kept for the next call) and waits for all. Jobs do not unwind.
fn pool_run(jobs: Vec<Box<dyn FnOnce() + Send + '_>>) {
    let (done, all) = std::sync::mpsc::channel();
    let n = jobs.len();
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        while p.len() < n {
            let (tx, rx) = std::sync::mpsc::channel::<(Job, std::sync::mpsc::Sender<()>)>();
            std::thread::spawn(move || {
                let _reg = crate::watch::register_helper();
                while let Ok((j, d)) = rx.recv() {
                    j();
                    let _ = d.send(());
                }
            });
            p.push(Helper(tx));
        }
        for (k, j) in jobs.into_iter().enumerate() {
            // SAFETY: all jobs have ended (and been dropped) before this function returns.
            let j: Job = unsafe { std::mem::transmute(j) };
            p[k].0.send((j, done.clone())).unwrap();
        }
    });
    for _ in 0..n {
        all.recv().unwrap();
    }
}
pub struct Runner {
    kind: RunnerKind,
    rng: Rng,
    pub runs: usize,
    pub tasks: usize,
}
impl Runner {
    pub fn new(kind: RunnerKind) -> Runner {
        let s = match &kind {
            RunnerKind::Shuffle(s) => *s,
            RunnerKind::Threads(_, s) => *s,
            _ => 0,
        };
        Runner { kind, rng: Rng::new(s), runs: 0, tasks: 0 }
    }
}
impl JxlParallelRunner for Runner {
    fn run(&mut self, num: usize, fun: &JxlParallelRunnerFun<'_>) -> JResult<()> {
        self.runs += 1;
        self.tasks += num;
        match &self.kind {
            RunnerKind::None | RunnerKind::Forward => {
                for i in 0..num {
                    fun(i)?;
                }
                Ok(())
            }
            RunnerKind::Reverse => {
                for i in (0..num).rev() {
                    fun(i)?;
                }
                Ok(())
            }
            RunnerKind::Shuffle(_) => {
                let mut v: Vec<usize> = (0..num).collect();
                self.rng.shuffle(&mut v);
                for i in v {
                    fun(i)?;
                }
                Ok(())
            }
            RunnerKind::Threads(n, _) => {
                let mut v: Vec<usize> = (0..num).collect();
                let shuffled = self.rng.bool();
                if shuffled {
                    self.rng.shuffle(&mut v);
                }
                let run_all = self.rng.bool();
                let next = AtomicUsize::new(0);
                let stop = AtomicBool::new(false);
                let err: Mutex<Option<Error>> = Mutex::new(None);
                let pan: Mutex<Option<String>> = Mutex::new(None);
                let seeds: Vec<u64> = (0..*n).map(|_| self.rng.u64()).collect();
                let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
                {
                    for seed in seeds {
                        let (v, next, stop, err, pan) = (&v, &next, &stop, &err, &pan);
                        jobs.push(Box::new(move || {
                            let mut r = Rng::new(seed);
                            loop {
                                if stop.load(Ordering::Relaxed) && !run_all {
                                    break;
                                }
                                let k = next.fetch_add(1, Ordering::Relaxed);
                                if k >= v.len() {
                                    break;
                                }
                                match r.below(8) {
                                    0 => std::thread::yield_now(),
                                    1 => std::thread::sleep(std::time::Duration::from_micros(r.below(200) as u64)),
                                    _ => {}
                                }
                                match guarded(|| fun(v[k])) {
                                    Ok(Ok(())) => {}
                                    Ok(Err(e)) => {
                                        err.lock().unwrap().get_or_insert(e);
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                    Err(p) => {
                                        pan.lock().unwrap().get_or_insert(p);
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                }
                            }
                        }));
                    }
                }
                pool_run(jobs);
                if let Some(p) = pan.into_inner().unwrap() {
                    resume_unwind(Box::new(WorkerPanic(p)));
                }
                match err.into_inner().unwrap() {
                    Some(e) => Err(e),
                    None => Ok(()),
                }
            }
        }
    }
}

// ---------------------------------------------------------------- buffers
struct Plane {
    mem: Vec<u8>,
    start: usize,
    rows: usize,
    row_bytes: usize,
    stride: usize,
}
const CANARY_SEED: u64 = 0x1234_5678_9abc_def1;
fn canary(i: usize) -> u8 {
    (mix(i as u64 ^ CANARY_SEED) >> 13) as u8
}
impl Plane {
    fn new(rows: usize, row_bytes: usize, align: usize, g: &Geom) -> Plane {
        let stride = row_bytes + g.pad_bytes.div_ceil(align) * align;
        let lead = g.lead.div_ceil(align) * align;
        let total = lead + stride * rows + 64;
        let mut mem = vec![0u8; total + 16];
        let base = mem.as_ptr() as usize;
        let fix = (16 - base % 16) % 16;
        let start = fix + lead;
        let n = mem.len();
        let mut paint = |lo: usize, hi: usize| {
            for i in lo..hi {
                mem[i] = canary(i);
            }
        };
        paint(0, start);
        if stride != row_bytes {
            for r in 0..rows {
                paint(start + r * stride + row_bytes, start + (r + 1) * stride);
            }
        }
        paint(start + stride * rows, n);
        for r in 0..rows {
            let row = &mut mem[start + r * stride..start + r * stride + row_bytes];
            if g.fill_seed != 0 {
                let mut rr = Rng::new(g.fill_seed ^ (r as u64) << 20);
                for b in row.iter_mut() {
                    *b = rr.u64() as u8;
                }
            } else {
                row.fill(g.fill);
            }
        }
        Plane { mem, start, rows, row_bytes, stride }
    }
    fn used_len(&self) -> usize {
        self.stride * (self.rows - 1) + self.row_bytes
    }
    fn buffer(&mut self) -> JxlOutputBuffer<'_> {
        let l = self.used_len();
        JxlOutputBuffer::new_with_stride(&mut self.mem[self.start..self.start + l], self.rows, self.row_bytes, self.stride)
    }
    fn bad(&self, lo: usize, hi: usize) -> Option<String> {
        let i = (lo..hi).find(|&i| self.mem[i] != canary(i))?;
        Some(format!(
            "byte at offset {} from the buffer start (row {}, byte {}; row bytes {}, stride {}) overwritten",
            i as i64 - self.start as i64,
            (i as i64 - self.start as i64).div_euclid(self.stride as i64),
            (i as i64 - self.start as i64).rem_euclid(self.stride as i64),
            self.row_bytes,
            self.stride
        ))
    }
    fn check(&self) -> Option<String> {
        if let Some(x) = self.bad(0, self.start) {
            return Some(x);
        }
        if self.stride != self.row_bytes {
            for r in 0..self.rows {
                let e = self.start + r * self.stride;
                if let Some(x) = self.bad(e + self.row_bytes, e + self.stride) {
                    return Some(x);
                }
            }
        }
        self.bad(self.start + self.rows * self.stride, self.mem.len())
    }
    fn tight(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.rows * self.row_bytes);
        for r in 0..self.rows {
            v.extend_from_slice(&self.mem[self.start + r * self.stride..][..self.row_bytes]);
        }
        v
    }
}
pub fn plan_planes(fmt: &JxlPixelFormat, size: (usize, usize)) -> Vec<(usize, usize)> {
    // (row bytes, alignment)
    let mut v = vec![];
    if let Some(f) = &fmt.color_data_format {
        v.push((size.0 * fmt.color_type.samples_per_pixel() * f.bytes_per_sample(), f.bytes_per_sample()));
    }
    for f in fmt.extra_channel_format.iter().flatten() {
        v.push((size.0 * f.bytes_per_sample(), f.bytes_per_sample()));
    }
    v
}
fn make_planes(fmt: &JxlPixelFormat, size: (usize, usize), g: &Geom) -> Vec<Plane> {
    let plan = plan_planes(fmt, size);
    if plan.iter().map(|p| p.0.saturating_mul(size.1)).fold(0, usize::saturating_add) > 16 << 30 {
        panic!("frame too large for the harness");
    }
    plan.into_iter().map(|(rb, al)| Plane::new(size.1, rb, al, g)).collect()
}

pub fn profile_string(p: &JxlColorProfile) -> String {
    match p {
        JxlColorProfile::Simple(e) => format!("{e:?}"),
        JxlColorProfile::Icc(b) => format!("icc len {} hash {:x}", b.len(), hash_bytes(b)),
    }
}
pub fn basic_string(b: &JxlBasicInfo) -> String {
    format!(
        "size {:?} depth {:?} orient {:?} ec {:?} anim {:?} orig {} tone [{} {} {} {}] preview {:?}",
        b.size,
        b.bit_depth,
        b.orientation,
        b.extra_channels,
        b.animation,
        b.uses_original_profile,
        b.tone_mapping.intensity_target,
        b.tone_mapping.min_nits,
        b.tone_mapping.relative_to_max_display,
        b.tone_mapping.linear_below,
        b.preview_size
    )
}
pub fn scan_of<S: JxlState>(d: &JxlDecoder<S>) -> Vec<Scan> {
    d.scanned_frames().iter().map(scan_info).collect()
}
pub fn scan_info(f: &VisibleFrameInfo) -> Scan {
    Scan {
        index: f.index,
        duration_ms: f.duration_ms.to_bits(),
        ticks: f.duration_ticks,
        offset: f.file_offset,
        last: f.is_last,
        key: f.is_keyframe,
        start: f.seek_target.decode_start_file_offset,
        skip: f.seek_target.visible_frames_to_skip,
        name: f.name.clone(),
    }
}

// ---------------------------------------------------------------- driving
struct Feeder {
    end: Rc<Cell<usize>>,
    total: usize,
    feed: Feed,
    rng: Rng,
    cut: usize,
}
impl Feeder {
    fn new(end: Rc<Cell<usize>>, start: usize, total: usize, feed: &Feed) -> Feeder {
        let rng = match feed {
            Feed::Random(s, _) => Rng::new(*s),
            _ => Rng::new(0),
        };
        end.set(start);
        let mut f = Feeder { end, total, feed: feed.clone(), rng, cut: 0 };
        f.extend();
        f
    }
    /// offers more input; false if there is none left
    fn extend(&mut self) -> bool {
        let e = self.end.get();
        if e >= self.total {
            return false;
        }
        let ne = match &self.feed {
            Feed::OneShot => self.total,
            Feed::Fixed(n) => e + n,
            Feed::Cuts(c) => {
                while self.cut < c.len() && c[self.cut] <= e {
                    self.cut += 1;
                }
                if self.cut < c.len() { c[self.cut] } else { self.total }
            }
            Feed::Random(_, m) => {
                // mixture of tiny and large pieces
                let m = *m;
                let n = match self.rng.below(4) {
                    0 => 1,
                    1 => 1 + self.rng.below(8),
                    _ => 1 + self.rng.below(m.max(1)),
                };
                e + n
            }
        };
        self.end.set(ne.min(self.total));
        true
    }
}

pub fn is_io(e: &Error) -> bool {
    matches!(e, Error::IOError(_))
}
fn err_end(e: Error) -> End {
    End::Err { io: is_io(&e), msg: format!("{e:?}") }
}

/// Hooks a check can put into the run.
pub trait Monitor {
    fn on_image_info(&mut self, _d: &mut JxlDecoder<WithImageInfo>) {}
    /// after a flush that wrote: frame index, planes (tight)
    fn on_flush(&mut self, _frame: usize, _wrote: bool, _bufs: &dyn Fn() -> Vec<Vec<u8>>, _pos: usize) {}
    fn on_done(&mut self, _d: &mut JxlDecoder<WithImageInfo>) {}
}
pub type Wi = JxlDecoder<WithImageInfo>;
pub struct NoMon;
impl Monitor for NoMon {}

pub fn decode(data: &[u8], req: &Req) -> Outcome {
    decode_mon(data, req, &mut NoMon)
}

pub fn decode_mon(data: &[u8], req: &Req, mon: &mut dyn Monitor) -> Outcome {
    let mut out = new_outcome();
    crate::bb::enter(data, req);
    let r = guarded(|| drive(data, req, &mut out, mon));
    crate::bb::leave();
    match r {
        Ok(e) => out.end = e,
        Err(p) => out.end = End::Panic(p),
    }
    if std::env::var_os("VH_ENDS").is_some() {
        eprintln!("END {:?} {:?}", out.end, req.fmt);
    }
    out
}

fn drive(data: &[u8], req: &Req, out: &mut Outcome, mon: &mut dyn Monitor) -> End {
    let dec = JxlDecoder::<Initialized>::new(req.opts.to_jxl());
    let end = Rc::new(Cell::new(0usize));
    let mut input = AnyInput::new(data, 0, &req.input, end.clone(), req.fail_at);
    let mut feeder = Feeder::new(end, 0, data.len(), &req.feed);
    let mut runner = Runner::new(req.runner.clone());
    let (e, _) = drive_states(dec, req, &mut input, &mut feeder, &mut runner, out, mon);
    finish(&mut input, &runner, out);
    e
}
fn finish(input: &mut AnyInput, runner: &Runner, out: &mut Outcome) {
    out.stats.reads = input.reads;
    out.stats.skips = input.skips;
    out.stats.zero_reads = input.zero;
    out.stats.io_failed = input.failed;
    out.stats.runs = runner.runs;
    out.stats.tasks = runner.tasks;
    out.consumed = input.pos();
}

fn run_opt<'a>(kind: &RunnerKind, r: &'a mut Runner) -> Option<&'a mut dyn JxlParallelRunner> {
    match kind {
        RunnerKind::None => None,
        _ => Some(r),
    }
}

enum More {
    Retry,
    Stop,
}
/// common reaction to NeedsMoreInput
fn more(hint: usize, prev_pos: usize, input: &mut AnyInput, feeder: &mut Feeder, out: &mut Outcome, stage: &str) -> More {
    out.stats.need_more += 1;
    out.stats.max_hint = out.stats.max_hint.max(hint);
    if hint == 0 {
        out.anomalies.push(("hint0".into(), format!("size hint 0 in stage {stage} at input position {}", input.pos())));
    }
    let p = input.pos();
    if let Some(q) = out.stats.pending_retry.take() {
        if q != p {
            out.stats.retries_without_feed += 1;
        }
    }
    if input.unread() > 0 {
        out.stats.leftover += 1;
    }
    if feeder.extend() {
        return More::Retry;
    }
    if input.unread() > 0 && p != prev_pos {
        out.stats.pending_retry = Some(p);
        return More::Retry;
    }
    More::Stop
}

fn drive_states(
    mut dec: JxlDecoder<Initialized>,
    req: &Req,
    input: &mut AnyInput,
    feeder: &mut Feeder,
    runner: &mut Runner,
    out: &mut Outcome,
    mon: &mut dyn Monitor,
) -> (End, Option<Wi>) {
    let kind = req.runner.clone();
    let wi = loop {
        let p0 = input.pos();
        out.stats.process_calls += 1;
        match dec.process(input, run_opt(&kind, runner)) {
            Err(e) => return (err_end(e), None),
            Ok(ProcessingResult::Complete { result }) => {
                    out.completed();
                    break result;
                }
            Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                dec = fallback;
                if let More::Stop = more(size_hint, p0, input, feeder, out, "header") {
                    return (End::NeedMore { hint: size_hint, stage: 0 }, None);
                }
            }
        }
    };
    drive_info(wi, req, input, feeder, runner, out, mon)
}

fn drive_info(
    wi: JxlDecoder<WithImageInfo>,
    req: &Req,
    input: &mut AnyInput,
    feeder: &mut Feeder,
    runner: &mut Runner,
    out: &mut Outcome,
    mon: &mut dyn Monitor,
) -> (End, Option<Wi>) {
    let mut wi = wi;
    let bi = wi.basic_info().clone();
    let fmt = match &req.fmt {
        Fmt::Default => wi.current_pixel_format().clone(),
        f => {
            let r = f.resolve(&bi, wi.current_pixel_format());
            wi.set_pixel_format(r.clone());
            r
        }
    };
    mon.on_image_info(&mut wi);
    out.meta = Some(Meta {
        size: bi.size,
        info: basic_string(&bi),
        icc: format!("embedded {} output {}", profile_string(wi.embedded_color_profile()), profile_string(wi.output_color_profile())),
        fmt: fmt.clone(),
        alpha: bi.extra_channels.iter().enumerate().find(|c| c.1.ec_type == jxl::headers::extra_channels::ExtraChannel::Alpha).map(|(i, c)| (i, c.alpha_associated)),
    });
    drive_frames(wi, req, &bi, &fmt, input, feeder, runner, out, mon)
}

#[allow(clippy::too_many_arguments)]
fn drive_frames(
    mut wi: Wi,
    req: &Req,
    bi: &JxlBasicInfo,
    fmt: &JxlPixelFormat,
    input: &mut AnyInput,
    feeder: &mut Feeder,
    runner: &mut Runner,
    out: &mut Outcome,
    mon: &mut dyn Monitor,
) -> (End, Option<Wi>) {
    let kind = req.runner.clone();
    let mut frng = match &req.flush {
        FlushPlan::Random { seed, .. } => Rng::new(*seed),
        _ => Rng::new(0),
    };
    let mut nframe = 0usize;
    let mut planes: Option<Vec<Plane>> = None;
    let mut last_flush: Option<u64> = None;
    loop {
        // to the next frame
        let mut wf = loop {
            let p0 = input.pos();
            out.stats.process_calls += 1;
            match wi.process(input, run_opt(&kind, runner)) {
                Err(e) => return (err_end(e), None),
                Ok(ProcessingResult::Complete { result }) => {
                    out.completed();
                    break result;
                }
                Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                    wi = fallback;
                    out.scanned = scan_of(&wi);
                    if let Err(e) = flushes(&req.flush, &mut frng, out, bi, fmt, req, &mut planes, &mut last_flush, nframe, input, mon, |b, r| wi.flush_pixels(b, r), runner, &kind) {
                        return (e, None);
                    }
                    if let More::Stop = more(size_hint, p0, input, feeder, out, "frame header") {
                        return (End::NeedMore { hint: size_hint, stage: 1 }, Some(wi));
                    }
                }
            }
        };
        out.scanned = scan_of(&wf);
        let fh = wf.frame_header();
        let skip = nframe < 64 && req.skip_mask >> nframe & 1 == 1;
        wi = loop {
            let p0 = input.pos();
            out.stats.process_calls += 1;
            let r = if skip {
                wf.skip_frame(input)
            } else {
                if planes.is_none() {
                    let p = make_planes(fmt, fh.size, &req.geom);
                    if !matches!(req.flush, FlushPlan::Never) {
                        last_flush = Some(planes_hash(&p));
                    }
                    planes = Some(p);
                }
                let pl = planes.as_mut().unwrap();
                let mut bufs: Vec<JxlOutputBuffer> = pl.iter_mut().map(|p| p.buffer()).collect();
                let mut spare = vec![0u8; if req.buffer_delta > 0 { bi.size.0 * bi.size.1 * 16 } else { 0 }];
                if req.buffer_delta < 0 {
                    bufs.pop();
                } else if req.buffer_delta > 0 {
                    bufs.push(JxlOutputBuffer::new(&mut spare, bi.size.1, bi.size.0 * 16));
                }
                wf.process(input, &mut bufs, run_opt(&kind, runner))
            };
            match r {
                Err(e) => {
                    check_planes(&planes, out, "error");
                    return (err_end(e), None);
                }
                Ok(ProcessingResult::Complete { result }) => {
                    out.completed();
                    break result;
                }
                Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                    wf = fallback;
                    check_planes(&planes, out, "process");
                    if !skip && req.flush_delta != 0 {
                        let mut bufs: Vec<JxlOutputBuffer> = planes.as_mut().unwrap().iter_mut().map(|p| p.buffer()).collect();
                        let n = bufs.len();
                        let mut spare = vec![0u8; bi.size.0 * bi.size.1 * 16];
                        if req.flush_delta > 0 {
                            bufs.push(JxlOutputBuffer::new(&mut spare, bi.size.1, bi.size.0 * 16));
                        } else {
                            bufs.pop();
                        }
                        if bufs.len() != n {
                            out.stats.flush_wrong_count += 1;
                            if let Ok(w) = wf.flush_pixels(&mut bufs, run_opt(&kind, runner)) {
                                out.anomalies.push(("flush-count".into(), format!("flush in frame {nframe} at input position {} with {} buffers instead of {n} returned {w}", input.pos(), bufs.len())));
                            }
                        }
                    }
                    if !skip {
                        if let Err(e) = flushes(&req.flush, &mut frng, out, bi, fmt, req, &mut planes, &mut last_flush, nframe, input, mon, |b, r| wf.flush_pixels(b, r), runner, &kind) {
                            return (e, None);
                        }
                    }
                    if let More::Stop = more(size_hint, p0, input, feeder, out, "frame data") {
                        return (End::NeedMore { hint: size_hint, stage: 2 }, None);
                    }
                }
            }
        };
        out.scanned = scan_of(&wi);
        check_planes(&planes, out, "frame");
        let (bufs, hash) = if skip || req.opts.scan_only {
            (vec![], 0)
        } else {
            let pl = planes.take().unwrap();
            let mut b: Vec<Vec<u8>> = pl.iter().map(|p| p.tight()).collect();
            let h = b.iter().fold(7u64, |h, v| mix(h ^ hash_bytes(v)));
            if req.hash_only {
                b.clear();
            }
            (b, h)
        };
        planes = None;
        last_flush = None;
        out.frames.push(FrameOut { name: fh.name, duration: fh.duration, size: fh.size, skipped: skip, bufs, hash });
        nframe += 1;
        if !wi.has_more_frames() {
            mon.on_done(&mut wi);
            let e = End::Done(wi.file_length());
            return (e, Some(wi));
        }
        if nframe >= req.max_frames {
            return (End::Stopped, Some(wi));
        }
    }
}

fn check_planes(planes: &Option<Vec<Plane>>, out: &mut Outcome, when: &str) {
    if let Some(pl) = planes {
        for (i, p) in pl.iter().enumerate() {
            if let Some(c) = p.check() {
                out.anomalies.push(("canary".into(), format!("buffer {i} after {when}: {c}")));
                return;
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn flushes(
    plan: &FlushPlan,
    rng: &mut Rng,
    out: &mut Outcome,
    bi: &JxlBasicInfo,
    fmt: &JxlPixelFormat,
    req: &Req,
    planes: &mut Option<Vec<Plane>>,
    last_flush: &mut Option<u64>,
    nframe: usize,
    input: &mut AnyInput,
    mon: &mut dyn Monitor,
    mut f: impl FnMut(&mut [JxlOutputBuffer<'_>], Option<&mut dyn JxlParallelRunner>) -> JResult<bool>,
    runner: &mut Runner,
    kind: &RunnerKind,
) -> Result<(), End> {
    let n = match plan {
        FlushPlan::Never => 0,
        FlushPlan::Always => 1,
        FlushPlan::Random { num, den, rep, .. } => {
            if rng.chance(*num, *den) {
                1 + rng.below(*rep)
            } else {
                0
            }
        }
    };
    for _ in 0..n {
        if planes.is_none() {
            let p = make_planes(fmt, bi.size, &req.geom);
            *last_flush = Some(planes_hash(&p));
            *planes = Some(p);
        }
        let pl = planes.as_mut().unwrap();
        let r = {
            let mut bufs: Vec<JxlOutputBuffer> = pl.iter_mut().map(|p| p.buffer()).collect();
            f(&mut bufs, run_opt(kind, runner))
        };
        out.stats.flushes += 1;
        let wrote = match r {
            Ok(b) => b,
            Err(e) => {
                out.stats.flush_err += 1;
                return Err(err_end(e));
            }
        };
        let after = planes_hash(pl);
        if wrote {
            out.stats.flush_true += 1;
        } else if last_flush.is_some_and(|b| b != after) {
            out.anomalies.push(("flush-false".into(), format!("flush returned false in frame {nframe} at input position {} but the buffers changed since the previous flush", input.pos())));
        }
        *last_flush = Some(after);
        let pos = input.pos();
        let plr: &Vec<Plane> = pl;
        mon.on_flush(nframe, wrote, &|| plr.iter().map(|p| p.tight()).collect(), pos);
    }
    check_planes(planes, out, "flush");
    Ok(())
}
fn planes_hash(pl: &[Plane]) -> u64 {
    pl.iter().fold(3u64, |h, p| mix(h ^ hash_bytes(&p.mem)))
}


/// One seek of a decoder that was rewound with `start_new_frame`.
pub struct SeekOut {
    pub target: usize,
    pub frames: Vec<FrameOut>,
    pub end: End,
    pub scan_target: Scan,
}
/// Decodes the file with `req` (a prefix of `stop_after` frames, or all of it), then seeks with the
/// same decoder to each of `targets`, decoding up to `n` frames after each.  The frame index comes
/// from `index` if given (a scan made by another decoder), else from this decoder.
pub fn decode_seek(data: &[u8], req: &Req, index: Option<Vec<VisibleFrameInfo>>, targets: &[usize], n: usize) -> (Outcome, Vec<Result<SeekOut, String>>) {
    let mut out = new_outcome();
    let mut res: Vec<Result<SeekOut, String>> = vec![];
    let r = guarded(|| {
        let dec = JxlDecoder::<Initialized>::new(req.opts.to_jxl());
        let end = Rc::new(Cell::new(0usize));
        let mut input = AnyInput::new(data, 0, &req.input, end.clone(), None);
        let mut feeder = Feeder::new(end, 0, data.len(), &req.feed);
        let mut runner = Runner::new(req.runner.clone());
        let (e, wi) = drive_states(dec, req, &mut input, &mut feeder, &mut runner, &mut out, &mut NoMon);
        finish(&mut input, &runner, &mut out);
        (e, wi)
    });
    let mut wi = match r {
        Ok((e, wi)) => {
            out.end = e;
            wi
        }
        Err(p) => {
            out.end = End::Panic(p);
            None
        }
    };
    let Some(w) = &wi else { return (out, res) };
    let index = index.unwrap_or_else(|| w.scanned_frames().to_vec());
    let bi = w.basic_info().clone();
    let fmt = w.current_pixel_format().clone();
    for &t in targets {
        let Some(mut w) = wi.take() else { break };
        if t >= index.len() {
            wi = Some(w);
            continue;
        }
        let st = index[t].seek_target;
        let start = st.decode_start_file_offset as usize;
        if start > data.len() {
            res.push(Err(format!("target {t}: seek offset {start} beyond the file of {} bytes", data.len())));
            wi = Some(w);
            continue;
        }
        let mut o = new_outcome();
        let mut rq = req.clone();
        rq.max_frames = n;
        rq.skip_mask = 0;
        let r = guarded(|| {
            w.start_new_frame(st);
            let end = Rc::new(Cell::new(0usize));
            let mut input = AnyInput::new(data, start, &req.input, end.clone(), None);
            let mut feeder = Feeder::new(end, start, data.len(), &req.feed);
            let mut runner = Runner::new(req.runner.clone());
            drive_frames(w, &rq, &bi, &fmt, &mut input, &mut feeder, &mut runner, &mut o, &mut NoMon)
        });
        match r {
            Ok((e, back)) => {
                res.push(Ok(SeekOut { target: t, frames: o.frames, end: e, scan_target: scan_info(&index[t]) }));
                wi = back;
            }
            Err(p) => res.push(Err(format!("target {t}: panic while seeking: {p}"))),
        }
    }
    (out, res)
}
pub fn new_outcome() -> Outcome {
    Outcome { meta: None, frames: vec![], end: End::Stopped, scanned: vec![], stats: Stats::default(), anomalies: vec![], consumed: 0 }
}
/// The raw frame index (with seek targets) of a file, by scanning.
pub fn scan_index(data: &[u8], req: &Req) -> (Outcome, Vec<VisibleFrameInfo>) {
    struct Grab(Vec<VisibleFrameInfo>);
    impl Monitor for Grab {
        fn on_done(&mut self, d: &mut Wi) {
            self.0 = d.scanned_frames().to_vec();
        }
    }
    let mut g = Grab(vec![]);
    let o = decode_mon(data, req, &mut g);
    (o, g.0)
}
