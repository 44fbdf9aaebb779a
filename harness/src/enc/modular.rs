//! Modular sub-bitstreams: MA trees, predictors, transforms.  Streams are generated from the coded
//! channels upwards: residuals are drawn, and the samples they stand for are computed with the
//! inverse transforms below.
use super::bits::*;
use super::entropy::*;
use crate::rng::Rng;

pub type Shift = Option<(usize, usize)>;
/// Marks a generated stream whose values would leave the range in which the format is defined.
#[derive(Debug, Clone, Copy)]
pub struct Blow;
pub const LIM: i64 = 1 << 27;

#[derive(Clone, Debug)]
pub struct Chan {
    pub w: usize,
    pub h: usize,
    /// None: meta channel
    pub shift: Shift,
    pub data: Vec<i64>,
}
impl Chan {
    pub fn new(w: usize, h: usize, shift: Shift) -> Chan {
        Chan { w, h, shift, data: vec![0; w * h] }
    }
    pub fn at(&self, x: usize, y: usize) -> i64 {
        self.data[y * self.w + x]
    }
}
/// A channel to be coded, with the range its values are drawn from.
#[derive(Clone, Debug, PartialEq)]
pub struct Info {
    pub w: usize,
    pub h: usize,
    pub shift: Shift,
    pub lo: i64,
    pub hi: i64,
    /// values are picked from this list, if any
    pub vals: Option<std::sync::Arc<Vec<i64>>>,
    /// palette: the first so many columns are small differences
    pub deltas: usize,
}
impl Info {
    pub fn sample(w: usize, h: usize, shift: Shift, lo: i64, hi: i64) -> Info {
        Info { w, h, shift, lo, hi, vals: None, deltas: 0 }
    }
    fn same(&self, o: &Info) -> bool {
        let same_vals = match (&self.vals, &o.vals) {
            (None, None) => true,
            (Some(a), Some(b)) => a == b,
            _ => false,
        };
        self.w == o.w && self.h == o.h && self.shift == o.shift && same_vals
    }
    pub fn empty(&self) -> bool {
        self.w == 0 || self.h == 0
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Sq {
    pub horizontal: bool,
    pub in_place: bool,
    pub begin: usize,
    pub num: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Tr {
    Rct { begin: usize, ty: u32 },
    Palette { begin: usize, num: usize, colors: usize, deltas: usize, pred: u32 },
    /// the explicit list (empty: the default one is implied)
    Squeeze(Vec<Sq>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Wp {
    pub p1: i64,
    pub p2: i64,
    pub p3: [i64; 5],
    pub w: [u32; 4],
}
impl Wp {
    pub fn default() -> Wp {
        Wp { p1: 16, p2: 10, p3: [7, 7, 7, 0, 0], w: [13, 12, 12, 12] }
    }
    pub fn random(r: &mut Rng) -> Wp {
        if r.bool() {
            return Wp::default();
        }
        Wp { p1: r.below(32) as i64, p2: r.below(32) as i64, p3: std::array::from_fn(|_| r.below(32) as i64), w: std::array::from_fn(|_| r.below(16) as u32) }
    }
}

// ---------------------------------------------------------------- prediction
#[derive(Clone, Copy, Debug)]
pub struct Nb {
    w: i64,
    n: i64,
    nw: i64,
    ne: i64,
    nn: i64,
    ww: i64,
    nee: i64,
}
pub fn neighbours(c: &Chan, x: usize, y: usize) -> Nb {
    let g = |x: usize, y: usize| c.data[y * c.w + x];
    let w = if x > 0 { g(x - 1, y) } else if y > 0 { g(x, y - 1) } else { 0 };
    let n = if y > 0 { g(x, y - 1) } else { w };
    let nw = if x > 0 && y > 0 { g(x - 1, y - 1) } else { w };
    let ne = if x + 1 < c.w && y > 0 { g(x + 1, y - 1) } else { n };
    let nn = if y > 1 { g(x, y - 2) } else { n };
    let ww = if x > 1 { g(x - 2, y) } else { w };
    let nee = if x + 2 < c.w && y > 0 { g(x + 2, y - 1) } else { ne };
    Nb { w, n, nw, ne, nn, ww, nee }
}
pub fn grad(w: i64, n: i64, nw: i64) -> i64 {
    (w + n - nw).clamp(w.min(n), w.max(n))
}
pub fn predict(p: u32, b: &Nb, wp: i64) -> i64 {
    match p {
        0 => 0,
        1 => b.w,
        2 => b.n,
        3 => (b.w + b.n) / 2,
        4 => {
            let p = b.w + b.n - b.nw;
            if (p - b.w).abs() < (p - b.n).abs() { b.w } else { b.n }
        }
        5 => grad(b.w, b.n, b.nw),
        6 => wp,
        7 => b.ne,
        8 => b.nw,
        9 => b.ww,
        10 => (b.w + b.nw) / 2,
        11 => (b.n + b.nw) / 2,
        12 => (b.n + b.ne) / 2,
        13 => (6 * b.n - 2 * b.nn + 7 * b.w + b.ww + b.nee + 3 * b.ne + 8) / 16,
        _ => unreachable!(),
    }
}
/// Self-correcting predictor, after the specification's formulas (errors kept per sample).
pub struct WpState {
    p: Wp,
    w: usize,
    err: [Vec<u64>; 4],
    terr: Vec<i64>,
    sub: [i64; 4],
    pred8: i64,
}
impl WpState {
    pub fn new(p: &Wp, w: usize, h: usize) -> WpState {
        WpState { p: p.clone(), w, err: std::array::from_fn(|_| vec![0; w * h]), terr: vec![0; w * h], sub: [0; 4], pred8: 0 }
    }
    /// (prediction, property 15)
    pub fn predict(&mut self, x: usize, y: usize, b: &Nb) -> (i64, i64) {
        let w = self.w;
        let last = x + 1 == w;
        let at = |v: &Vec<u64>, dx: i64, dy: i64| -> u64 {
            let (xx, yy) = (x as i64 + dx, y as i64 - dy);
            if xx < 0 || yy < 0 { 0 } else { v[yy as usize * w + xx as usize] }
        };
        let mut weight = [0u64; 4];
        for i in 0..4 {
            let e = &self.err[i];
            let en = at(e, 0, 1);
            let ew = at(e, -1, 0);
            let enw = if x > 0 { at(e, -1, 1) } else { en };
            let eww = at(e, -2, 0);
            // where there is no NE sample, the errors of N stand in for it, which includes those of W
            let ene = if last { en + ew } else { at(e, 1, 1) };
            let sum = en + ew + enw + eww + ene;
            let shift = (63 - (sum + 1).leading_zeros() as i64 - 5).max(0) as u32;
            weight[i] = 4 + ((self.p.w[i] as u64 * ((1u64 << 24) / ((sum >> shift) + 1))) >> shift);
        }
        let t = |dx: i64, dy: i64| -> i64 {
            let (xx, yy) = (x as i64 + dx, y as i64 - dy);
            if xx < 0 || yy < 0 { 0 } else { self.terr[yy as usize * w + xx as usize] }
        };
        let tw = t(-1, 0);
        let tn = t(0, 1);
        let tnw = if x > 0 { t(-1, 1) } else { tn };
        let tne = if last { tn } else { t(1, 1) };
        let mut prop = tw;
        for e in [tn, tnw, tne] {
            if e.abs() > prop.abs() {
                prop = e;
            }
        }
        let (n, wv, ne, nw, nn) = (b.n * 8, b.w * 8, b.ne * 8, b.nw * 8, b.nn * 8);
        let p3 = self.p.p3;
        self.sub = [
            wv + ne - n,
            n - (((tw + tn + tne) * self.p.p1) >> 5),
            wv - (((tw + tn + tnw) * self.p.p2) >> 5),
            n - ((tnw * p3[0] + tn * p3[1] + tne * p3[2] + (nn - n) * p3[3] + (nw - wv) * p3[4]) >> 5),
        ];
        let total: u64 = weight.iter().sum();
        let lw = 63 - total.leading_zeros();
        let mut sw = 0i64;
        let mut s = 0i64;
        for i in 0..4 {
            let q = (weight[i] >> (lw - 4)) as i64;
            sw += q;
            s += self.sub[i] * q;
        }
        s += (sw >> 1) - 1;
        self.pred8 = (s * ((1i64 << 24) / sw)) >> 24;
        if ((tn ^ tw) | (tn ^ tnw)) <= 0 {
            let mx = wv.max(ne).max(n);
            let mn = wv.min(ne).min(n);
            self.pred8 = self.pred8.clamp(mn, mx);
        }
        ((self.pred8 + 3) >> 3, prop)
    }
    pub fn update(&mut self, x: usize, y: usize, v: i64) {
        let i = y * self.w + x;
        self.terr[i] = self.pred8 - v * 8;
        for k in 0..4 {
            self.err[k][i] = (((self.sub[k] - v * 8).abs() + 3) >> 3) as u64;
        }
    }
}

// ---------------------------------------------------------------- trees
#[derive(Clone, Debug)]
pub enum Node {
    Split { prop: u32, val: i32, left: usize, right: usize },
    Leaf { pred: u32, offset: i32, mult: u32, ctx: u32 },
}
#[derive(Clone, Debug)]
pub struct Tree {
    pub nodes: Vec<Node>,
    pub nleaves: usize,
    pub knobs: Knobs,
    pub kind: &'static str,
}
enum B {
    S(u32, i32, Box<B>, Box<B>),
    L(u32, i32, u32),
}
#[derive(Clone, Debug)]
pub struct TreeCfg {
    pub channels: usize,
    pub streams: usize,
    pub w: usize,
    pub h: usize,
    pub amp: i64,
    /// samples use the whole range of 32 bits
    pub wide: bool,
}
impl Tree {
    pub fn random(r: &mut Rng, c: &TreeCfg) -> Tree {
        let mut knobs = Knobs::default();
        let kind = match r.below(12) {
            0 | 1 => "single",
            2 => "wp-only",
            3 => "gradient-only",
            4 => "fast-lossless",
            5 => "zero",
            _ => "random",
        };
        let kind = if c.wide && kind == "wp-only" { "single" } else { kind };
        let b = match kind {
            "single" => leaf(r, c, None),
            "zero" => B::L(0, 0, 1),
            "wp-only" => {
                let n = r.below(12);
                lut_tree(r, 15, 6, -1023, 1022, n)
            }
            "gradient-only" => {
                let n = r.below(12);
                lut_tree(r, 9, 5, -1023, 1022, n)
            }
            "fast-lossless" => {
                knobs.rle = true;
                knobs.prefix = Some(true);
                lut_tree(r, 0, 5, 0, c.channels as i64 + 1, r.clone().below(4))
            }
            _ => {
                let size = [3, 8, 20, 60, 200][r.below(5)];
                let mut left = size;
                let mut ranges = vec![(i32::MIN as i64, i32::MAX as i64); 256];
                random_tree(r, c, &mut ranges, &mut left, 0)
            }
        };
        if matches!(kind, "wp-only" | "gradient-only") && r.chance(2, 3) {
            knobs.conf420 = true;
            knobs.allow_lz = false;
        }
        if r.chance(1, 8) && !knobs.rle {
            knobs.conf420 = true;
            knobs.allow_lz = false;
        }
        // breadth first
        let mut nodes = vec![];
        let mut nleaves = 0;
        let mut q = std::collections::VecDeque::from([b]);
        while let Some(b) = q.pop_front() {
            match b {
                B::L(pred, offset, mult) => {
                    nodes.push(Node::Leaf { pred, offset, mult, ctx: nleaves as u32 });
                    nleaves += 1;
                }
                B::S(prop, val, l, rr) => {
                    let left = nodes.len() + q.len() + 1;
                    nodes.push(Node::Split { prop, val, left, right: left + 1 });
                    q.push_back(*l);
                    q.push_back(*rr);
                }
            }
        }
        Tree { nodes, nleaves, knobs, kind }
    }
    pub fn leaf(&self, props: &[i64]) -> (u32, i64, i64, u32) {
        let mut i = 0;
        loop {
            match self.nodes[i] {
                Node::Split { prop, val, left, right } => i = if props[prop as usize] > val as i64 { left } else { right },
                Node::Leaf { pred, offset, mult, ctx } => return (pred, offset as i64, mult as i64, ctx),
            }
        }
    }
    fn uses_wp(&self) -> bool {
        self.nodes.iter().any(|n| matches!(n, Node::Split { prop: 15, .. } | Node::Leaf { pred: 6, .. }))
    }
    fn max_prop(&self) -> usize {
        self.nodes.iter().map(|n| if let Node::Split { prop, .. } = n { *prop as usize } else { 0 }).max().unwrap()
    }
    pub fn write(&self, b: &mut Bw, r: &mut Rng) {
        let mut toks = vec![];
        for n in &self.nodes {
            match *n {
                Node::Split { prop, val, .. } => {
                    toks.push(Tok { ctx: 1, val: prop + 1 });
                    toks.push(Tok { ctx: 0, val: pack_signed(val as i64) as u32 });
                }
                Node::Leaf { pred, offset, mult, .. } => {
                    toks.push(Tok { ctx: 1, val: 0 });
                    toks.push(Tok { ctx: 2, val: pred });
                    toks.push(Tok { ctx: 3, val: pack_signed(offset as i64) as u32 });
                    let log = r.below(mult.trailing_zeros() as usize + 1) as u32;
                    toks.push(Tok { ctx: 4, val: log });
                    toks.push(Tok { ctx: 5, val: (mult >> log) - 1 });
                }
            }
        }
        let s = Stream { toks, mult: 0 };
        let c = Code::build(r, 6, std::slice::from_ref(&s), &Knobs::default());
        c.write_header(b, r);
        c.write_stream(b, 0);
    }
}
fn leaf(r: &mut Rng, c: &TreeCfg, pred: Option<u32>) -> B {
    let mut p = pred.unwrap_or_else(|| if r.bool() { *r.pick(&[0, 1, 2, 5, 6]) } else { r.below(14) as u32 });
    if c.wide && p == 6 {
        p = 5;
    }
    let plain = r.chance(2, 3);
    let offset = if plain { 0 } else { r.range(-c.amp / 4 - 2, c.amp / 4 + 2) as i32 };
    let mult = if c.wide || plain || r.bool() { 1 } else { *r.pick(&[2, 2, 3, 4, 5, 8, 12, 16]) };
    B::L(p, offset, mult)
}
/// splits on one property only, same predictor everywhere
fn lut_tree(r: &mut Rng, prop: u32, pred: u32, lo: i64, hi: i64, n: usize) -> B {
    // values v with lo <= v < hi split the range (.., v] (v+1, ..)
    if n == 0 || hi - lo < 2 {
        return B::L(pred, 0, 1);
    }
    let mut v = if r.chance(2, 3) && lo < 40 && hi > -40 { r.range((-40).max(lo), 40.min(hi - 1)) } else { r.range(lo, hi - 1) };
    v = v.clamp(lo, hi - 1);
    let a = r.below(n);
    let left = lut_tree(r, prop, pred, v + 1, hi, a);
    let right = lut_tree(r, prop, pred, lo, v, n - 1 - a);
    B::S(prop, v as i32, Box::new(left), Box::new(right))
}
fn random_tree(r: &mut Rng, c: &TreeCfg, ranges: &mut Vec<(i64, i64)>, left: &mut usize, depth: usize) -> B {
    if *left == 0 || depth > 20 || (depth > 2 && r.chance(1, 6)) {
        return leaf(r, c, None);
    }
    for _ in 0..4 {
        let mut prop = match r.below(8) {
            0 => 0,
            1 => 1,
            2 | 3 => 2 + r.below(2),
            4 => 16 + r.below(4 * c.channels.min(6) + 1),
            5 => 15,
            _ => 4 + r.below(11),
        };
        if c.wide && prop == 15 {
            prop = 9;
        }
        let v = match prop {
            0 => r.below(c.channels + 1) as i64,
            1 => r.below(c.streams + 1) as i64,
            2 => r.below(c.h.max(1)) as i64,
            3 => r.below(c.w.max(1)) as i64,
            4 | 5 => r.range(-1, c.amp),
            6 | 7 => r.range(-c.amp, c.amp),
            15 => r.range(-60, 60),
            _ if r.chance(1, 20) => r.range(i32::MIN as i64, i32::MAX as i64),
            _ if r.bool() => r.range(-8, 8),
            _ => r.range(-c.amp, c.amp),
        };
        let (lo, hi) = ranges[prop];
        if v < lo || v >= hi {
            continue;
        }
        *left -= 1;
        ranges[prop] = (v + 1, hi);
        let l = random_tree(r, c, ranges, left, depth + 1);
        ranges[prop] = (lo, v);
        let rr = random_tree(r, c, ranges, left, depth + 1);
        ranges[prop] = (lo, hi);
        return B::S(prop as u32, v as i32, Box::new(l), Box::new(rr));
    }
    leaf(r, c, None)
}

// ---------------------------------------------------------------- coding channels
fn wrap(v: i64) -> i64 {
    v as i32 as i64
}
/// Turns the channels' target values into codeable ones (in place) and produces the symbols.
pub fn code_channels(chans: &mut [Chan], tree: &Tree, wp: &Wp, stream_id: usize, wide: bool, toks: &mut Vec<Tok>) -> Result<u32, Blow> {
    let maxp = tree.max_prop();
    let uses_wp = tree.uses_wp();
    let nprops = maxp.max(16) + 1 + 4;
    let mut mult = 0;
    for i in 0..chans.len() {
        mult = mult.max(chans[i].w);
        if chans[i].w == 0 || chans[i].h == 0 {
            continue;
        }
        let (done, rest) = chans.split_at_mut(i);
        let c = &mut rest[0];
        let refs: Vec<&Chan> = if maxp >= 16 { done.iter().rev().filter(|o| o.w == c.w && o.h == c.h && o.shift == c.shift).take((maxp - 16) / 4 + 1).collect() } else { vec![] };
        let mut st = WpState::new(wp, if uses_wp { c.w } else { 0 }, if uses_wp { c.h } else { 0 });
        let mut props = vec![0i64; nprops];
        props[0] = i as i64;
        props[1] = stream_id as i64;
        for y in 0..c.h {
            let mut prev9 = 0;
            for x in 0..c.w {
                let b = neighbours(c, x, y);
                let (wpred, wprop) = if uses_wp { st.predict(x, y, &b) } else { (0, 0) };
                props[2] = y as i64;
                props[3] = x as i64;
                props[4] = (b.n as i32).wrapping_abs() as i64;
                props[5] = (b.w as i32).wrapping_abs() as i64;
                props[6] = b.n;
                props[7] = b.w;
                props[8] = wrap(b.w - prev9);
                props[9] = wrap(b.w + b.n - b.nw);
                prev9 = props[9];
                props[10] = wrap(b.w - b.nw);
                props[11] = wrap(b.nw - b.n);
                props[12] = wrap(b.n - b.ne);
                props[13] = wrap(b.n - b.nn);
                props[14] = wrap(b.w - b.ww);
                props[15] = wprop;
                for (k, o) in refs.iter().enumerate() {
                    let v = o.at(x, y);
                    let l = if x > 0 { o.at(x - 1, y) } else { 0 };
                    let t = if y > 0 { o.at(x, y - 1) } else { l };
                    let tl = if x > 0 && y > 0 { o.at(x - 1, y - 1) } else { l };
                    let g = grad(l, t, tl);
                    let j = 16 + 4 * k;
                    if j + 3 < nprops {
                        props[j] = (v as i32).wrapping_abs() as i64;
                        props[j + 1] = v;
                        props[j + 2] = (v - g).abs() as i32 as i64;
                        props[j + 3] = wrap(v - g);
                    }
                }
                let (p, off, mul, ctx) = tree.leaf(&props);
                let guess = predict(p, &b, wpred) + off;
                let target = c.data[y * c.w + x];
                let res;
                let v;
                if wide {
                    // arithmetic modulo 2^32
                    assert!(mul == 1);
                    v = target;
                    res = wrap(target - guess);
                } else {
                    let d = target - guess;
                    res = if mul == 1 { d } else { (d + if d > 0 { mul / 2 } else { -(mul / 2) }) / mul };
                    v = guess + res * mul;
                    if v.abs() > LIM || guess.abs() > LIM {
                        return Err(Blow);
                    }
                }
                c.data[y * c.w + x] = v;
                toks.push(Tok { ctx, val: pack_signed(res) as u32 });
                if uses_wp {
                    st.update(x, y, v);
                }
            }
        }
    }
    Ok(mult as u32)
}

// ---------------------------------------------------------------- contents
pub fn fill(r: &mut Rng, i: &Info) -> Chan {
    let mut c = Chan::new(i.w, i.h, i.shift);
    let (lo, hi) = (i.lo, i.hi);
    let span = (hi - lo).max(0) as f64;
    let kind = r.below(9);
    let (a, b, d) = (r.f64() - 0.5, r.f64() - 0.5, r.f64());
    let v0 = r.range(lo, hi);
    let period = (1 + r.below(16), 1 + r.below(16));
    let noise = [0, 0, 1, 3, 10][r.below(5)].min(hi - lo);
    let mut walk = v0;
    let tile: Vec<i64> = (0..period.0 * period.1).map(|_| r.range(lo, hi)).collect();
    for y in 0..i.h {
        for x in 0..i.w {
            let (fx, fy) = (x as f64 / (i.w as f64).max(1.0), y as f64 / (i.h as f64).max(1.0));
            let mut v = match kind {
                0 => v0,
                1 => lo + ((d + a * fx + b * fy) * span) as i64,
                2 => r.range(lo, hi),
                3 => {
                    if r.chance(1, 40) {
                        r.range(lo, hi)
                    } else {
                        v0
                    }
                }
                4 => lo + (span * (0.5 + 0.5 * ((a * 20.0 * fx).sin() * (b * 20.0 * fy).cos()))) as i64,
                5 => tile[(y % period.1) * period.0 + x % period.0],
                6 => lo + ((x / (period.0 + 1) * 37 + y / (period.1 + 1) * 91) % (span as usize + 1).max(1)) as i64,
                7 => {
                    walk += r.range(-2, 2);
                    walk = walk.clamp(lo, hi);
                    walk
                }
                _ => {
                    if y > 0 && r.chance(9, 10) {
                        c.data[(y - 1) * i.w + x]
                    } else if x > 0 && r.chance(1, 2) {
                        c.data[y * i.w + x - 1]
                    } else {
                        r.range(lo, hi)
                    }
                }
            };
            if noise > 0 && kind != 0 && kind != 2 {
                v += r.range(-noise, noise);
            }
            v = v.clamp(lo, hi);
            if x < i.deltas {
                v = r.range(-12, 12);
            }
            if let Some(l) = &i.vals {
                let k = (v - lo).rem_euclid(l.len() as i64);
                v = l[k as usize];
            }
            c.data[y * i.w + x] = v;
        }
    }
    c
}

// ---------------------------------------------------------------- transforms
/// What the transforms make of a list of channels; resolves implied squeezes.
pub fn meta_apply(ch: &mut Vec<Info>, trs: &[Tr], bits: u32) -> Vec<Tr> {
    let mut out = vec![];
    for t in trs {
        match t {
            Tr::Rct { begin, ty } => {
                let (lo, hi) = (ch[*begin].lo, ch[*begin].hi);
                let d = (hi - lo) / 8 + 1;
                if ty % 7 != 0 {
                    let k = ty % 7;
                    if k == 6 {
                        for i in 1..3 {
                            ch[begin + i].lo = -d;
                            ch[begin + i].hi = d;
                        }
                    } else {
                        if k >= 2 && k != 1 {
                            ch[begin + 1].lo = -d;
                            ch[begin + 1].hi = d;
                        }
                        if k & 1 == 1 {
                            ch[begin + 2].lo = -d;
                            ch[begin + 2].hi = d;
                        }
                    }
                    for i in 0..3 {
                        ch[begin + i].vals = None;
                    }
                }
                out.push(t.clone());
            }
            Tr::Palette { begin, num, colors, deltas, .. } => {
                let src = ch[*begin].clone();
                let total = (colors + deltas) as i64;
                let pal = Info { w: colors + deltas, h: *num, shift: None, lo: src.lo, hi: src.hi, vals: src.vals.clone(), deltas: *deltas };
                ch.drain(begin + 1..begin + num);
                let implicit = src.vals.is_none();
                // which indices occur
                let (lo, hi) = match (implicit, total) {
                    (false, 0) => unreachable!(),
                    (false, _) => (0, total - 1),
                    (true, 0) => (-150, 189),
                    (true, _) => match total % 4 {
                        0 => (0, total - 1),
                        1 => (-3, total + 64 + 130),
                        2 => (-150, total + 64),
                        _ => (0, total - 1 + (bits as i64 % 3) * 40),
                    },
                };
                let vals = if implicit { None } else { Some(std::sync::Arc::new((0..total).collect())) };
                ch[*begin] = Info { w: src.w, h: src.h, shift: src.shift, lo, hi, vals, deltas: 0 };
                ch.insert(0, pal);
                out.push(t.clone());
            }
            Tr::Squeeze(list) => {
                let list = if list.is_empty() { default_squeeze(ch) } else { list.clone() };
                for s in &list {
                    let off = if s.in_place { s.begin + s.num } else { ch.len() };
                    for k in 0..s.num {
                        let c = &mut ch[s.begin + k];
                        let (w, h) = (c.w, c.h);
                        let mut res = c.clone();
                        if s.horizontal {
                            c.w = w.div_ceil(2);
                            res.w = w / 2;
                        } else {
                            c.h = h.div_ceil(2);
                            res.h = h / 2;
                        }
                        if let Some((a, b)) = c.shift {
                            c.shift = Some(if s.horizontal { (a + 1, b) } else { (a, b + 1) });
                        }
                        res.shift = c.shift;
                        let d = (c.hi - c.lo) / 16 + 1;
                        res.lo = -d;
                        res.hi = d;
                        res.vals = None;
                        res.deltas = 0;
                        ch.insert(off + k, res);
                    }
                }
                out.push(Tr::Squeeze(list));
            }
        }
    }
    out
}
pub fn default_squeeze(ch: &[Info]) -> Vec<Sq> {
    let meta = ch.iter().take_while(|c| c.shift.is_none()).count();
    let n = ch.len() - meta;
    let (mut w, mut h) = (ch[meta].w, ch[meta].h);
    let mut out = vec![];
    if n > 2 && ch[meta + 1].w == w && ch[meta + 1].h == h {
        for horizontal in [true, false] {
            out.push(Sq { horizontal, in_place: false, begin: meta + 1, num: 2 });
        }
    }
    let mut push = |horizontal| out.push(Sq { horizontal, in_place: true, begin: meta, num: n });
    if h >= w && h > 8 {
        push(false);
        h = h.div_ceil(2);
    }
    while w > 8 || h > 8 {
        if w > 8 {
            push(true);
            w = w.div_ceil(2);
        }
        if h > 8 {
            push(false);
            h = h.div_ceil(2);
        }
    }
    out
}
/// A random list of transforms that is legal for these channels (which are updated).
pub fn random_transforms(r: &mut Rng, ch: &mut Vec<Info>, bits: u32, wide: bool, max: usize) -> (Vec<Tr>, Vec<Tr>) {
    let mut trs = vec![];
    let mut resolved = vec![];
    let n = [0, 0, 1, 1, 2, 3][r.below(6)].min(max);
    for _ in 0..n {
        let first = ch.iter().take_while(|c| c.shift.is_none()).count();
        if first == ch.len() {
            break;
        }
        let t = match r.below(3) {
            0 if !wide => {
                let cand: Vec<usize> = (first..ch.len().saturating_sub(2)).filter(|&i| ch[i].same(&ch[i + 1]) && ch[i].same(&ch[i + 2])).collect();
                if cand.is_empty() {
                    continue;
                }
                Tr::Rct { begin: *r.pick(&cand), ty: if r.bool() { 6 } else { r.below(42) as u32 } }
            }
            1 => {
                let begin = first + r.below(ch.len() - first);
                let most = (begin..ch.len()).take_while(|&i| ch[i].same(&ch[begin])).count();
                let num = if r.bool() { most.min(3) } else { 1 + r.below(most) };
                let colors = if wide { 1 + r.below(20) } else { [r.below(4), r.below(20), 1 + r.below(300)][r.below(3)] };
                let colors = if ch[begin..begin + num].iter().any(|c| c.vals.is_some()) { colors.max(1) } else { colors };
                let deltas = if wide || r.bool() { 0 } else { 1 + r.below(12) };
                let pred = if wide || r.bool() { 0 } else { r.below(14) as u32 };
                Tr::Palette { begin, num, colors, deltas, pred }
            }
            _ if !wide => {
                if ch.len() > 24 {
                    continue;
                }
                let small = ch[first].w < 2 || ch[first].h < 2;
                if r.bool() && !(small && ch.len() - first > 2) && ch.len() <= 6 {
                    Tr::Squeeze(vec![])
                } else {
                    let mut l = vec![];
                    let mut c2 = ch.clone();
                    for _ in 0..1 + r.below(4) {
                        if c2.len() > 30 {
                            break;
                        }
                        let begin = first + r.below(c2.len() - first);
                        let num = 1 + r.below((c2.len() - begin).min(4));
                        let s = Sq { horizontal: r.bool(), in_place: r.bool(), begin, num };
                        // nothing is squeezed that is empty in both directions
                        let mut c3 = c2.clone();
                        meta_apply(&mut c3, &[Tr::Squeeze(vec![s])], bits);
                        if c3.iter().any(|c| c.shift.is_some_and(|s| s.0 > 12 || s.1 > 12)) {
                            continue;
                        }
                        c2 = c3;
                        l.push(s);
                    }
                    if l.is_empty() {
                        continue;
                    }
                    Tr::Squeeze(l)
                }
            }
            _ => continue,
        };
        resolved.extend(meta_apply(ch, std::slice::from_ref(&t), bits));
        trs.push(t);
    }
    (trs, resolved)
}
fn tendency(b: i64, a: i64, n: i64) -> i64 {
    let mut d = 0;
    if b >= a && a >= n {
        d = (4 * b - 3 * n - a + 6) / 12;
        if d - (d & 1) > 2 * (b - a) {
            d = 2 * (b - a) + 1;
        }
        if d + (d & 1) > 2 * (a - n) {
            d = 2 * (a - n);
        }
    } else if b <= a && a <= n {
        d = (4 * b - 3 * n - a - 6) / 12;
        if d + (d & 1) < 2 * (b - a) {
            d = 2 * (b - a) - 1;
        }
        if d - (d & 1) < 2 * (a - n) {
            d = 2 * (a - n);
        }
    }
    d
}
/// one row or column
fn unsqueeze(avg: &[i64], res: &[i64], out: &mut [i64]) {
    for i in 0..res.len() {
        let a = avg[i];
        let next = if i + 1 < avg.len() { avg[i + 1] } else { a };
        let left = if i > 0 { out[2 * i - 1] } else { a };
        let diff = res[i] + tendency(left, a, next);
        let first = a + diff / 2;
        out[2 * i] = first;
        out[2 * i + 1] = first - diff;
    }
    if avg.len() > res.len() {
        out[2 * res.len()] = avg[res.len()];
    }
}
const DELTA: [[i64; 3]; 72] = [
    [0, 0, 0], [4, 4, 4], [11, 0, 0], [0, 0, -13], [0, -12, 0], [-10, -10, -10], [-18, -18, -18], [-27, -27, -27], [-18, -18, 0], [0, 0, -32], [-32, 0, 0], [-37, -37, -37],
    [0, -32, -32], [24, 24, 45], [50, 50, 50], [-45, -24, -24], [-24, -45, -45], [0, -24, -24], [-34, -34, 0], [-24, 0, -24], [-45, -45, -24], [64, 64, 64], [-32, 0, -32], [0, -32, 0],
    [-32, 0, 32], [-24, -45, -24], [45, 24, 45], [24, -24, -45], [-45, -24, 24], [80, 80, 80], [64, 0, 0], [0, 0, -64], [0, -64, -64], [-24, -24, 45], [96, 96, 96], [64, 64, 0],
    [45, -24, -24], [34, -34, 0], [112, 112, 112], [24, -45, -45], [45, 45, -24], [0, -32, 32], [24, -24, 45], [0, 96, 96], [45, -24, 24], [24, -45, -24], [-24, -45, 24], [0, -64, 0],
    [96, 0, 0], [128, 128, 128], [64, 0, 64], [144, 144, 144], [96, 96, 0], [-36, -36, 36], [45, -24, -45], [45, -45, -24], [0, 0, -96], [0, 128, 128], [0, 96, 0], [45, 24, -45],
    [-128, 0, 0], [24, -45, 24], [-45, 24, -45], [64, 0, -64], [64, -64, -64], [96, 0, 96], [45, -45, 24], [24, 45, -45], [64, 64, -64], [128, 128, 0], [0, 0, -128], [-24, 45, -45],
];
fn palette_value(pal: &Chan, index: i64, c: usize, size: i64, bits: u32) -> i64 {
    let bits = bits.min(24);
    let maxv = (1i64 << bits) - 1;
    if index < 0 {
        if c >= 3 {
            return 0;
        }
        let k = (-(index + 1)) % 143;
        let v = DELTA[((k + 1) >> 1) as usize][c] * if k & 1 == 1 { 1 } else { -1 };
        return if bits > 8 { v << (bits - 8) } else { v };
    }
    if index < size {
        return pal.at(index as usize, c);
    }
    if c >= 3 {
        return 0;
    }
    let k = index - size;
    if k < 64 {
        let q = (k >> (2 * c)) % 4;
        return q * maxv / 4 + (1 << (bits as i64 - 3).max(0));
    }
    let k = (k - 64) / [1, 5, 25][c];
    (k % 5) * maxv / 4
}
/// Undoes resolved transforms.
pub fn inverse(mut ch: Vec<Chan>, trs: &[Tr], wp: &Wp, bits: u32, wide: bool) -> Result<Vec<Chan>, Blow> {
    for t in trs.iter().rev() {
        match t {
            Tr::Rct { begin, ty } => {
                let (perm, op) = ((ty / 7) as usize, ty % 7);
                let n = ch[*begin].data.len();
                let mut out: Vec<Vec<i64>> = vec![vec![0; n]; 3];
                let pos = [perm % 3, (perm + 1 + perm / 3) % 3, (perm + 2 - perm / 3) % 3];
                for i in 0..n {
                    let (a, mut b, mut c) = (ch[*begin].data[i], ch[begin + 1].data[i], ch[begin + 2].data[i]);
                    let v = if op == 6 {
                        let t = a - (c >> 1);
                        let g = c + t;
                        let bb = t - (b >> 1);
                        [bb + b, g, bb]
                    } else {
                        if op & 1 == 1 {
                            c += a;
                        }
                        match op >> 1 {
                            1 => b += a,
                            2 => b += (a + c) >> 1,
                            _ => {}
                        }
                        [a, b, c]
                    };
                    for k in 0..3 {
                        out[pos[k]][i] = v[k];
                    }
                }
                for (k, o) in out.into_iter().enumerate() {
                    ch[begin + k].data = o;
                }
            }
            Tr::Palette { begin, num, colors, deltas, pred } => {
                let pal = ch.remove(0);
                let idx = ch[*begin].clone();
                let size = (colors + deltas) as i64;
                for c in 0..*num {
                    let mut o = Chan::new(idx.w, idx.h, idx.shift);
                    let use_wp = *pred == 6;
                    let mut st = WpState::new(wp, if use_wp { o.w } else { 0 }, if use_wp { o.h } else { 0 });
                    for y in 0..o.h {
                        for x in 0..o.w {
                            let i = idx.at(x, y);
                            let mut v = palette_value(&pal, i, c, size, bits);
                            let b = neighbours(&o, x, y);
                            let wpv = if use_wp { st.predict(x, y, &b).0 } else { 0 };
                            if i < *deltas as i64 {
                                v += predict(*pred, &b, wpv);
                            }
                            if use_wp {
                                st.update(x, y, v);
                            }
                            if !wide && v.abs() > LIM {
                                return Err(Blow);
                            }
                            o.data[y * idx.w + x] = v;
                        }
                    }
                    if c == 0 {
                        ch[*begin] = o;
                    } else {
                        ch.insert(begin + c, o);
                    }
                }
            }
            Tr::Squeeze(list) => {
                for s in list.iter().rev() {
                    let off = if s.in_place { s.begin + s.num } else { ch.len() - s.num };
                    let res: Vec<Chan> = ch.drain(off..off + s.num).collect();
                    for (k, rs) in res.iter().enumerate() {
                        let a = &ch[s.begin + k];
                        let sh = a.shift.map(|(x, y)| if s.horizontal { (x - 1, y) } else { (x, y - 1) });
                        let o = if s.horizontal {
                            let mut o = Chan::new(a.w + rs.w, a.h, sh);
                            let ow = o.w;
                            for y in 0..a.h {
                                unsqueeze(&a.data[y * a.w..][..a.w], &rs.data[y * rs.w..][..rs.w], &mut o.data[y * ow..][..ow]);
                            }
                            o
                        } else {
                            let mut o = Chan::new(a.w, a.h + rs.h, sh);
                            let mut buf = vec![0; o.h];
                            for x in 0..a.w {
                                let av: Vec<i64> = (0..a.h).map(|y| a.at(x, y)).collect();
                                let rv: Vec<i64> = (0..rs.h).map(|y| rs.at(x, y)).collect();
                                unsqueeze(&av, &rv, &mut buf);
                                for y in 0..o.h {
                                    o.data[y * a.w + x] = buf[y];
                                }
                            }
                            o
                        };
                        ch[s.begin + k] = o;
                    }
                }
            }
        }
        if !wide && ch.iter().any(|c| c.data.iter().any(|v| v.abs() > LIM)) {
            return Err(Blow);
        }
    }
    Ok(ch)
}

// ---------------------------------------------------------------- sub-bitstreams
pub struct Sub {
    pub use_global: bool,
    pub wp: Wp,
    pub trs: Vec<Tr>,
    pub local: Option<Tree>,
    pub stream: Stream,
    /// nothing at all is coded if there is no channel with samples
    pub empty: bool,
    /// a global stream codes its header even when it has no samples
    pub has_header: bool,
    pub copies: usize,
}
pub fn write_group_header(b: &mut Bw, r: &mut Rng, use_global: bool, wp: &Wp, trs: &[Tr]) {
    b.bit(use_global);
    let def = *wp == Wp::default() && r.chance(3, 4);
    b.bit(def);
    if !def {
        for v in [wp.p1, wp.p2, wp.p3[0], wp.p3[1], wp.p3[2], wp.p3[3], wp.p3[4]] {
            b.put(5, v as u64);
        }
        for v in wp.w {
            b.put(4, v as u64);
        }
    }
    b.u2s(r, [D::V(0), D::V(1), D::B(4, 2), D::B(8, 18)], trs.len() as u32);
    let ch = [D::B(3, 0), D::B(6, 8), D::B(10, 72), D::B(13, 1096)];
    for t in trs {
        match t {
            Tr::Rct { begin, ty } => {
                b.put(2, 0);
                b.u2s(r, ch, *begin as u32);
                b.u2s(r, [D::V(6), D::B(2, 0), D::B(4, 2), D::B(6, 10)], *ty);
            }
            Tr::Palette { begin, num, colors, deltas, pred } => {
                b.put(2, 1);
                b.u2s(r, ch, *begin as u32);
                b.u2s(r, [D::V(1), D::V(3), D::V(4), D::B(13, 1)], *num as u32);
                b.u2s(r, [D::B(8, 0), D::B(10, 256), D::B(12, 1280), D::B(16, 5376)], *colors as u32);
                b.u2s(r, [D::V(0), D::B(8, 1), D::B(10, 257), D::B(16, 1281)], *deltas as u32);
                b.put(4, *pred as u64);
            }
            Tr::Squeeze(l) => {
                b.put(2, 2);
                b.u2s(r, [D::V(0), D::B(4, 1), D::B(6, 9), D::B(8, 41)], l.len() as u32);
                for s in l {
                    b.bit(s.horizontal);
                    b.bit(s.in_place);
                    b.u2s(r, ch, s.begin as u32);
                    b.u2s(r, [D::V(1), D::V(2), D::V(3), D::B(4, 4)], s.num as u32);
                }
            }
        }
    }
}
impl Sub {
    /// `global`: the code of all streams that use the global tree, and this stream's number in it
    pub fn write(&self, b: &mut Bw, r: &mut Rng, global: Option<(&Code, usize)>) {
        if self.has_header {
            write_group_header(b, r, self.use_global, &self.wp, &self.trs);
        }
        if self.empty {
            return;
        }
        if let Some(t) = &self.local {
            t.write(b, r);
            let c = Code::build(r, t.nleaves, std::slice::from_ref(&self.stream), &t.knobs);
            c.write_header(b, r);
            c.write_stream(b, 0);
        } else {
            let (c, i) = global.unwrap();
            c.write_stream(b, i);
        }
    }
}
/// Draws a sub-bitstream for these channels; returns it and the samples it decodes to.
pub struct SubCfg<'a> {
    pub global: Option<&'a Tree>,
    pub id: usize,
    pub bits: u32,
    pub wide: bool,
    pub max_transforms: usize,
    /// largest value of property 1 in the frame
    pub streams: usize,
}
pub fn gen_sub(r: &mut Rng, infos: &[Info], cfg: &SubCfg) -> Result<(Sub, Vec<Chan>), Blow> {
    let empty = infos.iter().all(|i| i.empty());
    if empty {
        let chans = infos.iter().map(|i| Chan::new(i.w, i.h, i.shift)).collect();
        return Ok((Sub { use_global: false, wp: Wp::default(), trs: vec![], local: None, stream: Stream::default(), empty: true, has_header: false, copies: 0 }, chans));
    }
    let mut ch = infos.to_vec();
    let (trs, resolved) = random_transforms(r, &mut ch, cfg.bits, cfg.wide, cfg.max_transforms);
    let wp = Wp::random(r);
    let local = if cfg.global.is_none() || r.chance(1, 4) { Some(Tree::random(r, &tree_cfg(&ch, cfg.streams, cfg.wide))) } else { None };
    let mut chans: Vec<Chan> = ch.iter().map(|i| fill(r, i)).collect();
    let mut toks = vec![];
    let mult = code_channels(&mut chans, local.as_ref().or(cfg.global).unwrap(), &wp, cfg.id, cfg.wide, &mut toks)?;
    let out = inverse(chans, &resolved, &wp, cfg.bits, cfg.wide)?;
    Ok((Sub { use_global: local.is_none(), wp, trs, local, stream: Stream { toks, mult }, empty: false, has_header: true, copies: 0 }, out))
}
pub fn tree_cfg(ch: &[Info], streams: usize, wide: bool) -> TreeCfg {
    TreeCfg {
        channels: ch.len(),
        streams,
        w: ch.iter().map(|c| c.w).max().unwrap_or(1),
        h: ch.iter().map(|c| c.h).max().unwrap_or(1),
        amp: ch.iter().map(|c| c.hi.abs().max(c.lo.abs())).max().unwrap_or(1).clamp(1, 1 << 24),
        wide,
    }
}
