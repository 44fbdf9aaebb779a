//! Entropy coder: hybrid integers, context clustering, LZ77, prefix codes and ANS.
use super::bits::*;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug)]
pub struct Tok {
    pub ctx: u32,
    pub val: u32,
}
#[derive(Clone, Debug, Default)]
pub struct Stream {
    pub toks: Vec<Tok>,
    /// distance multiplier (image width), 0: none
    pub mult: u32,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Hybrid {
    pub split: u32,
    pub msb: u32,
    pub lsb: u32,
}
impl Hybrid {
    /// (token, number of extra bits, extra bits)
    pub fn encode(self, v: u32) -> (u32, u32, u32) {
        if (v as u64) < 1u64 << self.split {
            return (v, 0, 0);
        }
        let n = 31 - v.leading_zeros();
        let m = (v as u64 - (1u64 << n)) as u32;
        let tok = (1u32 << self.split) + ((n - self.split) << (self.msb + self.lsb)) + ((m >> (n - self.msb)) << self.lsb) + (m & ((1 << self.lsb) - 1));
        let nb = n - self.msb - self.lsb;
        let bits = (m >> self.lsb) & (((1u64 << nb) - 1) as u32);
        (tok, nb, bits)
    }
    fn write(self, b: &mut Bw, log_alpha: u32) {
        b.put(ceil_log2(log_alpha as usize + 1), self.split as u64);
        if self.split != log_alpha {
            b.put(ceil_log2(self.split as usize + 1), self.msb as u64);
            b.put(ceil_log2((self.split - self.msb) as usize + 1), self.lsb as u64);
        }
    }
    fn random(r: &mut Rng, log_alpha: u32) -> Hybrid {
        match r.below(4) {
            0 => Hybrid { split: 4, msb: 2, lsb: 0 },
            1 => Hybrid { split: 0, msb: 0, lsb: 0 },
            _ => {
                let split = r.below(log_alpha as usize + 1).min(12) as u32;
                if split == log_alpha {
                    return Hybrid { split, msb: 0, lsb: 0 };
                }
                let msb = r.below(split as usize + 1) as u32;
                let lsb = r.below((split - msb) as usize + 1) as u32;
                Hybrid { split, msb, lsb }
            }
        }
    }
}
pub fn ceil_log2(n: usize) -> usize {
    if n <= 1 { 0 } else { (n - 1).ilog2() as usize + 1 }
}

#[derive(Clone, Debug)]
pub struct Lz {
    pub min_symbol: u32,
    pub min_length: u32,
    pub conf: Hybrid,
}
#[derive(Clone, Debug)]
pub struct Knobs {
    pub prefix: Option<bool>,
    pub lz: Option<bool>,
    pub allow_lz: bool,
    pub max_clusters: usize,
    /// runs only: every copy has distance 1, coded as the single symbol 1
    pub rle: bool,
    /// every cluster uses the configuration (4, 2, 0)
    pub conf420: bool,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs { prefix: None, lz: None, allow_lz: true, max_clusters: 256, rle: false, conf420: false }
    }
}
enum Table {
    Prefix { lens: Vec<u8>, codes: Vec<u32>, size: usize, only: Option<usize> },
    Ans { freq: Vec<u16>, map: Vec<Vec<u16>>, form: AnsForm },
}
#[derive(Clone, Debug)]
enum AnsForm {
    One(usize),
    Two(usize, usize),
    Flat(usize),
    Full { shift: u32, omit: usize, rle: bool },
}
#[derive(Clone, Copy, Debug)]
struct Sym {
    cluster: u16,
    tok: u32,
    nb: u32,
    bits: u32,
}
pub struct Code {
    prefix: bool,
    log_alpha: u32,
    nctx: usize,
    map: Vec<u8>,
    conf: Vec<Hybrid>,
    lz: Option<Lz>,
    tables: Vec<Table>,
    streams: Vec<Vec<Sym>>,
    pub used_lz: bool,
    pub copies: usize,
}

/// (dx, dy) of the special distances
pub const SPECIAL: [(i32, i32); 120] = [
    (0, 1), (1, 0), (1, 1), (-1, 1), (0, 2), (2, 0), (1, 2), (-1, 2), (2, 1), (-2, 1), (2, 2), (-2, 2), (0, 3), (3, 0), (1, 3), (-1, 3), (3, 1), (-3, 1), (2, 3), (-2, 3),
    (3, 2), (-3, 2), (0, 4), (4, 0), (1, 4), (-1, 4), (4, 1), (-4, 1), (3, 3), (-3, 3), (2, 4), (-2, 4), (4, 2), (-4, 2), (0, 5), (3, 4), (-3, 4), (4, 3), (-4, 3), (5, 0),
    (1, 5), (-1, 5), (5, 1), (-5, 1), (2, 5), (-2, 5), (5, 2), (-5, 2), (4, 4), (-4, 4), (3, 5), (-3, 5), (5, 3), (-5, 3), (0, 6), (6, 0), (1, 6), (-1, 6), (6, 1), (-6, 1),
    (2, 6), (-2, 6), (6, 2), (-6, 2), (4, 5), (-4, 5), (5, 4), (-5, 4), (3, 6), (-3, 6), (6, 3), (-6, 3), (0, 7), (7, 0), (1, 7), (-1, 7), (5, 5), (-5, 5), (7, 1), (-7, 1),
    (4, 6), (-4, 6), (6, 4), (-6, 4), (2, 7), (-2, 7), (7, 2), (-7, 2), (3, 7), (-3, 7), (7, 3), (-7, 3), (5, 6), (-5, 6), (6, 5), (-6, 5), (8, 0), (4, 7), (-4, 7), (7, 4),
    (-7, 4), (8, 1), (8, 2), (6, 6), (-6, 6), (8, 3), (5, 7), (-5, 7), (7, 5), (-7, 5), (8, 4), (6, 7), (-6, 7), (7, 6), (-7, 6), (8, 5), (7, 7), (-7, 7), (8, 6), (8, 7),
];
fn distance_value(r: &mut Rng, d: u32, mult: u32) -> u32 {
    if mult == 0 {
        return d - 1;
    }
    let cand: Vec<u32> = (0..120u32)
        .filter(|&k| {
            let (x, y) = SPECIAL[k as usize];
            (x as i64 + y as i64 * mult as i64).max(1) == d as i64
        })
        .collect();
    if !cand.is_empty() && r.chance(7, 8) { *r.pick(&cand) } else { d - 1 + 120 }
}

enum Item {
    Plain(Tok),
    Copy { ctx: u32, len: u32, dist: u32 },
}
fn find_copies(r: &mut Rng, s: &Stream, min_length: u32, greedy: bool, rle: bool) -> Vec<Item> {
    let t = &s.toks;
    let mut out = vec![];
    let mut i = 0;
    let mut last: std::collections::HashMap<(u32, u32), Vec<usize>> = Default::default();
    let ml = min_length as usize;
    while i < t.len() {
        let mut best = (0usize, 0usize);
        if i > 0 && (greedy || r.bool()) {
            let mut cand: Vec<usize> = vec![1, s.mult as usize, s.mult as usize + 1, s.mult as usize * 2, 2];
            if i + 1 < t.len()
                && let Some(v) = last.get(&(t[i].val, t[i + 1].val))
            {
                cand.extend(v.iter().rev().take(6).map(|&p| i - p));
            }
            for d in cand {
                if d != 1 && rle {
                    continue;
                }
                if d == 0 || d > i || d > (1 << 20) {
                    continue;
                }
                let mut l = 0;
                while i + l < t.len() && t[i + l].val == t[i + l - d].val {
                    l += 1;
                }
                if l > best.0 {
                    best = (l, d);
                }
            }
        }
        let mut step = 1;
        if best.0 >= ml && best.0 > 0 {
            let mut l = best.0;
            if r.chance(1, 6) {
                l = ml.max(1) + r.below(l - ml.max(1) + 1);
            }
            out.push(Item::Copy { ctx: t[i].ctx, len: l as u32, dist: best.1 as u32 });
            step = l;
        } else {
            out.push(Item::Plain(t[i]));
        }
        for k in i..(i + step).min(t.len().saturating_sub(1)) {
            let e = last.entry((t[k].val, t[k + 1].val)).or_default();
            e.push(k);
            if e.len() > 64 {
                e.drain(..32);
            }
        }
        i += step;
    }
    out
}

impl Code {
    /// Chooses a code for the given streams.
    pub fn build(r: &mut Rng, nctx: usize, streams: &[Stream], k: &Knobs) -> Code {
        let prefix = k.prefix.unwrap_or_else(|| r.chance(2, 5));
        let want_lz = k.rle || (k.allow_lz && k.lz.unwrap_or_else(|| r.chance(1, 3)));
        // clusters
        let total = nctx + want_lz as usize;
        let ncl = match r.below(5) {
            0 => 1,
            1 => total.min(8),
            2 => 1 + r.below(total.min(k.max_clusters - k.rle as usize)),
            _ => total.min(k.max_clusters - k.rle as usize),
        };
        let mut map: Vec<u8> = (0..total).map(|i| if ncl >= total && !r.chance(1, 4) { i % ncl } else { r.below(ncl) } as u8).collect();
        if k.rle {
            map[nctx] = 255;
        }
        // no holes, in order of first use unless a random renumbering is wanted
        let mut seen: Vec<u8> = vec![];
        for m in map.iter_mut() {
            let p = seen.iter().position(|s| s == m).unwrap_or_else(|| {
                seen.push(*m);
                seen.len() - 1
            });
            *m = p as u8;
        }
        let ncl = seen.len();
        if r.chance(1, 3) {
            let mut perm: Vec<u8> = (0..ncl).map(|i| i as u8).collect();
            r.shuffle(&mut perm);
            for m in map.iter_mut() {
                *m = perm[*m as usize];
            }
        }
        for attempt in 0.. {
            let log_alpha = if prefix { 15 } else { [5, 6, 7, 8][r.below(4)].max(if attempt > 2 { 8 } else { 5 }) };
            let safe = attempt > 6;
            let uniform = if k.conf420 { Some(Hybrid { split: 4, msb: 2, lsb: 0 }) } else { None };
            let conf: Vec<Hybrid> = (0..ncl).map(|_| if let Some(u) = uniform { u } else if safe { Hybrid { split: 4, msb: 1, lsb: 0 } } else { Hybrid::random(r, log_alpha) }).collect();
            let mut conf = conf;
            if k.rle {
                conf[map[nctx] as usize] = Hybrid { split: 0, msb: 0, lsb: 0 };
            }
            let conf = conf;
            let lim = 1u32 << log_alpha;
            // largest plain token
            let mut maxtok = 0;
            for s in streams {
                for t in &s.toks {
                    maxtok = maxtok.max(conf[map[t.ctx as usize] as usize].encode(t.val).0);
                }
            }
            if maxtok >= lim {
                continue;
            }
            let mut lz = None;
            if want_lz {
                let opts: Vec<u32> = [224, 512, 4096, (maxtok + 1).max(8), (maxtok + 3).max(9)].into_iter().filter(|&m| m > maxtok && m + 16 <= lim && m < 32768 + 8).collect();
                if !opts.is_empty() && attempt < 12 {
                    let min_symbol = *r.pick(&opts);
                    let min_length = match r.below(4) {
                        0 => 3,
                        1 => 4,
                        2 => 5 + r.below(4) as u32,
                        _ => 9 + r.below(20) as u32,
                    };
                    let conf = if r.bool() { Hybrid { split: 0, msb: 0, lsb: 0 } } else { Hybrid::random(r, 8) };
                    lz = Some(Lz { min_symbol, min_length, conf });
                } else if !safe {
                    continue;
                }
            }
            // if LZ77 was wanted but is impossible, it is still signalled with a huge minimum symbol
            if want_lz && lz.is_none() {
                lz = Some(Lz { min_symbol: 4096.max(lim), min_length: 3, conf: Hybrid { split: 0, msb: 0, lsb: 0 } });
                if lz.as_ref().unwrap().min_symbol > 32767 + 8 {
                    lz.as_mut().unwrap().min_symbol = 32767 + 8;
                }
            }
            let can_copy = lz.as_ref().is_some_and(|l| l.min_symbol + 16 <= lim);
            let greedy = r.bool();
            let mut bad = false;
            let mut copies = 0;
            let syms: Vec<Vec<Sym>> = streams
                .iter()
                .map(|s| {
                    let items: Vec<Item> = match &lz {
                        Some(l) if can_copy => find_copies(r, s, l.min_length, greedy, k.rle),
                        _ => s.toks.iter().map(|t| Item::Plain(*t)).collect(),
                    };
                    let mut o = vec![];
                    for it in items {
                        match it {
                            Item::Plain(t) => {
                                let c = map[t.ctx as usize];
                                let (tok, nb, bits) = conf[c as usize].encode(t.val);
                                o.push(Sym { cluster: c as u16, tok, nb, bits });
                            }
                            Item::Copy { ctx, len, dist } => {
                                copies += 1;
                                let l = lz.as_ref().unwrap();
                                let (tok, nb, bits) = l.conf.encode(len - l.min_length);
                                bad |= tok + l.min_symbol >= lim;
                                o.push(Sym { cluster: map[ctx as usize] as u16, tok: tok + l.min_symbol, nb, bits });
                                let c = map[nctx];
                                let (tok, nb, bits) = conf[c as usize].encode(if k.rle { 1 } else { distance_value(r, dist, s.mult) });
                                bad |= tok >= lim;
                                o.push(Sym { cluster: c as u16, tok, nb, bits });
                            }
                        }
                    }
                    o
                })
                .collect();
            if bad && attempt < 40 {
                continue;
            }
            assert!(!bad, "cannot code");
            let mut counts: Vec<Vec<u64>> = vec![vec![]; ncl];
            for s in syms.iter().flatten() {
                let c = &mut counts[s.cluster as usize];
                if c.len() <= s.tok as usize {
                    c.resize(s.tok as usize + 1, 0);
                }
                c[s.tok as usize] += 1;
            }
            if k.rle {
                counts[map[nctx] as usize] = vec![0, 1];
            }
            let tables = counts.iter().map(|c| if prefix { prefix_table(r, c) } else { ans_table(r, c, log_alpha) }).collect();
            return Code { prefix, log_alpha, nctx, map, conf, used_lz: lz.is_some(), lz, tables, streams: syms, copies };
        }
        unreachable!()
    }

    pub fn write_header(&self, b: &mut Bw, r: &mut Rng) {
        b.bit(self.lz.is_some());
        if let Some(l) = &self.lz {
            b.u2s(r, [D::V(224), D::V(512), D::V(4096), D::B(15, 8)], l.min_symbol);
            b.u2s(r, [D::V(3), D::V(4), D::B(2, 5), D::B(8, 9)], l.min_length);
            l.conf.write(b, 8);
        }
        if self.nctx + self.lz.is_some() as usize > 1 {
            write_ctx_map(&self.map, b, r);
        }
        b.bit(self.prefix);
        if !self.prefix {
            b.put(2, self.log_alpha as u64 - 5);
        }
        for c in &self.conf {
            c.write(b, self.log_alpha);
        }
        if self.prefix {
            for t in &self.tables {
                let Table::Prefix { size, .. } = t else { unreachable!() };
                let v = *size - 1;
                b.bit(v > 0);
                if v > 0 {
                    let n = v.ilog2() as usize;
                    b.put(4, n as u64);
                    b.put(n, (v - (1 << n)) as u64);
                }
            }
        }
        for t in &self.tables {
            match t {
                Table::Prefix { lens, size, only, .. } => write_prefix(b, r, lens, *size, *only),
                Table::Ans { freq, form, .. } => write_ans(b, freq, form),
            }
        }
    }
    pub fn write_stream(&self, b: &mut Bw, i: usize) {
        let syms = &self.streams[i];
        if self.prefix {
            for s in syms {
                let Table::Prefix { lens, codes, .. } = &self.tables[s.cluster as usize] else { unreachable!() };
                b.put(lens[s.tok as usize] as usize, codes[s.tok as usize] as u64);
                b.put(s.nb as usize, s.bits as u64);
            }
            return;
        }
        let mut state = 0x130000u64;
        let mut chunks: Vec<(u32, u32)> = vec![];
        for s in syms.iter().rev() {
            let Table::Ans { freq, map, .. } = &self.tables[s.cluster as usize] else { unreachable!() };
            let f = freq[s.tok as usize] as u64;
            chunks.push((s.nb, s.bits));
            if state >= f << 20 {
                chunks.push((16, (state & 0xffff) as u32));
                state >>= 16;
            }
            state = (state / f) << 12 | map[s.tok as usize][(state % f) as usize] as u64;
        }
        b.put(32, state);
        for (n, v) in chunks.iter().rev() {
            b.put(*n as usize, *v as u64);
        }
    }
}

/// A context map on its own.
pub fn write_ctx_map(map: &[u8], b: &mut Bw, r: &mut Rng) {
    let max = *map.iter().max().unwrap() as usize;
    let need = if max == 0 { 0 } else { max.ilog2() as usize + 1 };
    if need <= 3 && r.bool() {
        let n = need + r.below(4 - need);
        b.bit(true);
        b.put(2, n as u64);
        for &m in map {
            b.put(n, m as u64);
        }
        return;
    }
    b.bit(false);
    let mtf = r.bool();
    b.bit(mtf);
    let vals: Vec<u32> = if mtf {
        let mut l: Vec<u8> = (0..=255).collect();
        map
            .iter()
            .map(|&m| {
                let p = l.iter().position(|&x| x == m).unwrap();
                l.remove(p);
                l.insert(0, m);
                p as u32
            })
            .collect()
    } else {
        map.iter().map(|&m| m as u32).collect()
    };
    let s = Stream { toks: vals.iter().map(|&v| Tok { ctx: 0, val: v }).collect(), mult: 0 };
    let k = Knobs { allow_lz: map.len() > 2, ..Knobs::default() };
    let c = Code::build(r, 1, std::slice::from_ref(&s), &k);
    c.write_header(b, r);
    c.write_stream(b, 0);
}

// ---------------------------------------------------------------- prefix codes
fn prefix_table(r: &mut Rng, counts: &[u64]) -> Table {
    let used: Vec<usize> = (0..counts.len()).filter(|&i| counts[i] > 0).collect();
    let mut size = counts.len().max(1);
    if r.chance(1, 4) && size < 30000 && size > 1 {
        size += r.below(20);
    }
    let mut lens = vec![0u8; size];
    if used.len() > 1 {
        // lengths by Huffman's algorithm on (possibly distorted) frequencies
        let mut flat = 0u64;
        loop {
            let distort = r.chance(1, 3);
            let mut nodes: Vec<(u64, Vec<usize>)> = used.iter().map(|&i| (counts[i] + flat + if distort { r.below(50) as u64 } else { 0 }, vec![i])).collect();
            let mut l = vec![0u8; size];
            while nodes.len() > 1 {
                nodes.sort_by(|a, b| b.0.cmp(&a.0));
                let a = nodes.pop().unwrap();
                let mut c = nodes.pop().unwrap();
                c.0 += a.0;
                c.1.extend(a.1);
                for &i in &c.1 {
                    l[i] += 1;
                }
                nodes.push(c);
            }
            if *l.iter().max().unwrap() <= 15 {
                lens = l;
                break;
            }
            flat = flat * 2 + counts.iter().sum::<u64>() / 64 + 1;
        }
    }
    // (one symbol only: a code that takes no bits)
    let only = if used.len() == 1 { Some(used[0]) } else { None };
    let codes = canonical(&lens);
    Table::Prefix { lens, codes, size, only }
}
fn canonical(lens: &[u8]) -> Vec<u32> {
    let mut codes = vec![0u32; lens.len()];
    let mut code = 0u32;
    for l in 1..=15u8 {
        for i in 0..lens.len() {
            if lens[i] == l {
                codes[i] = code.reverse_bits() >> (32 - l as u32);
                code += 1;
            }
        }
        code <<= 1;
    }
    codes
}
const CL_ORDER: [usize; 18] = [1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15];
fn write_prefix(b: &mut Bw, r: &mut Rng, lens: &[u8], size: usize, only: Option<usize>) {
    if size == 1 {
        return;
    }
    let used: Vec<usize> = (0..size).filter(|&i| lens[i] > 0 || only == Some(i)).collect();
    let sb = ceil_log2(size);
    let ls: Vec<u8> = used.iter().map(|&i| lens[i]).collect();
    let simple = match used.len() {
        0 | 1 => true,
        2 => true,
        3 => true,
        4 => true,
        _ => false,
    };
    if simple && (used.len() <= 1 || r.chance(3, 4)) {
        b.put(2, 1);
        let sel: Vec<usize> = if used.is_empty() { vec![0] } else { used.clone() };
        b.put(2, sel.len() as u64 - 1);
        let mut order = sel.clone();
        match sel.len() {
            1 => {}
            2 => r.shuffle(&mut order),
            3 => {
                let s = *sel.iter().find(|&&i| lens[i] == 1).unwrap();
                let mut o: Vec<usize> = sel.iter().copied().filter(|&i| i != s).collect();
                r.shuffle(&mut o);
                order = vec![s, o[0], o[1]];
            }
            _ => {
                if ls.iter().all(|&l| l == 2) {
                    r.shuffle(&mut order);
                } else {
                    let a = *sel.iter().find(|&&i| lens[i] == 1).unwrap();
                    let c = *sel.iter().find(|&&i| lens[i] == 2).unwrap();
                    let mut o: Vec<usize> = sel.iter().copied().filter(|&i| lens[i] == 3).collect();
                    r.shuffle(&mut o);
                    order = vec![a, c, o[0], o[1]];
                }
            }
        }
        for s in &order {
            b.put(sb, *s as u64);
        }
        if sel.len() == 4 {
            b.bit(!ls.iter().all(|&l| l == 2));
        }
        return;
    }
    // run-length code of the lengths up to the last used symbol
    let last = *used.last().unwrap();
    let mut ops: Vec<(u8, u32, u32)> = vec![]; // symbol, nbits, bits
    let mut prev = 8u8;
    let mut i = 0;
    let use_rle = r.chance(3, 4);
    while i <= last {
        let v = lens[i];
        let mut n = 1;
        while i + n <= last && lens[i + n] == v {
            n += 1;
        }
        i += n;
        if v == 0 {
            if n < 3 || !use_rle {
                for _ in 0..n {
                    ops.push((0, 0, 0));
                }
            } else {
                let mut reps = n - 3;
                let mut tmp = vec![];
                loop {
                    tmp.push((17u8, 3, (reps & 7) as u32));
                    reps >>= 3;
                    if reps == 0 {
                        break;
                    }
                    reps -= 1;
                }
                tmp.reverse();
                ops.extend(tmp);
            }
        } else {
            if v != prev {
                ops.push((v, 0, 0));
                n -= 1;
                prev = v;
            } else if ops.last().is_some_and(|o| o.0 == 16) {
                // a repeat directly after another one would extend it
                ops.push((v, 0, 0));
                n -= 1;
            }
            if n < 3 || !use_rle {
                for _ in 0..n {
                    ops.push((v, 0, 0));
                }
            } else {
                let mut reps = n - 3;
                let mut tmp = vec![];
                loop {
                    tmp.push((16u8, 2, (reps & 3) as u32));
                    reps >>= 2;
                    if reps == 0 {
                        break;
                    }
                    reps -= 1;
                }
                tmp.reverse();
                ops.extend(tmp);
            }
        }
    }
    // code for the 18 code-length symbols, lengths up to 5
    let mut cnt = [0u64; 18];
    for o in &ops {
        cnt[o.0 as usize] += 1;
    }
    let u: Vec<usize> = (0..18).filter(|&i| cnt[i] > 0).collect();
    let mut cl = [0u8; 18];
    if u.len() == 1 {
        cl[u[0]] = 1 + r.below(5) as u8;
    } else {
        let mut flat = 0;
        loop {
            let mut nodes: Vec<(u64, Vec<usize>)> = u.iter().map(|&i| (cnt[i] + flat, vec![i])).collect();
            let mut l = [0u8; 18];
            while nodes.len() > 1 {
                nodes.sort_by(|a, b| b.0.cmp(&a.0));
                let a = nodes.pop().unwrap();
                let mut c = nodes.pop().unwrap();
                c.0 += a.0;
                c.1.extend(a.1);
                for &i in &c.1 {
                    l[i] += 1;
                }
                nodes.push(c);
            }
            if *l.iter().max().unwrap() <= 5 {
                cl = l;
                break;
            }
            flat = flat * 2 + 1 + cnt.iter().sum::<u64>() / 32;
        }
    }
    let lead = CL_ORDER.iter().take_while(|&&s| cl[s] == 0).count();
    let opts: Vec<usize> = [0usize, 2, 3].into_iter().filter(|&h| h <= lead).collect();
    let hskip = *r.pick(&opts);
    b.put(2, hskip as u64);
    let mut space = 32i32;
    const SYM: [u64; 6] = [0, 7, 3, 2, 1, 15];
    const LEN: [usize; 6] = [2, 4, 3, 2, 2, 4];
    for &s in &CL_ORDER[hskip..] {
        if space <= 0 {
            break;
        }
        b.put(LEN[cl[s] as usize], SYM[cl[s] as usize]);
        if cl[s] > 0 {
            space -= 32 >> cl[s];
        }
    }
    let codes = canonical(&cl);
    for (s, n, v) in &ops {
        if u.len() > 1 {
            b.put(cl[*s as usize] as usize, codes[*s as usize] as u64);
        }
        b.put(*n as usize, *v as u64);
    }
}

// ---------------------------------------------------------------- ANS
fn prec(log: u32, shift: u32) -> u32 {
    (shift as i32 - ((12 - log as i32) >> 1)).clamp(0, log as i32) as u32
}
fn ans_table(r: &mut Rng, counts: &[u64], log_alpha: u32) -> Table {
    let used: Vec<usize> = (0..counts.len()).filter(|&i| counts[i] > 0).collect();
    let n = 1usize << log_alpha;
    let mut freq = vec![0u16; n];
    let form;
    if used.len() <= 1 && !r.chance(1, 6) {
        let s = used.first().copied().unwrap_or_else(|| if r.bool() { 0 } else { r.below(n) });
        freq[s] = 4096;
        form = AnsForm::One(s);
    } else if used.len() == 2 && !r.chance(1, 4) {
        let (a, c) = (used[0], used[1]);
        let p = (counts[a] as f64 / (counts[a] + counts[c]) as f64 * 4096.0).round().clamp(1.0, 4095.0) as u16;
        let (a, c, p) = if r.bool() { (a, c, p) } else { (c, a, 4096 - p) };
        freq[a] = p;
        freq[c] = 4096 - p;
        form = AnsForm::Two(a, c);
    } else if r.chance(1, 8) {
        let size = (counts.len().max(1) + r.below(n - counts.len().max(1) + 1)).clamp(1, n);
        for (i, f) in freq.iter_mut().enumerate().take(size) {
            *f = (4096 / size + (i < 4096 % size) as usize) as u16;
        }
        form = AnsForm::Flat(size);
    } else {
        let mut cnt: Vec<u64> = counts.to_vec();
        cnt.resize(n, 0);
        if used.len() < 2 {
            // some symbols that never occur
            for _ in 0..3 {
                cnt[r.below(n)] += 1;
            }
            cnt[0] += 1;
            cnt[1] += 1;
        }
        if r.chance(1, 4) {
            cnt[r.below(n)] += 1;
        }
        let tot: u64 = cnt.iter().sum();
        let nz = cnt.iter().filter(|&&c| c > 0).count() as u64;
        let avail = 4096 - nz;
        for i in 0..n {
            if cnt[i] > 0 {
                freq[i] = 1 + (cnt[i] as u128 * avail as u128 / tot as u128) as u16;
            }
        }
        if r.chance(1, 3) {
            // equal neighbours, for run lengths
            for i in 1..n {
                if freq[i] > 0 && freq[i - 1] > 0 && (freq[i] as i32 - freq[i - 1] as i32).abs() < 8 {
                    freq[i] = freq[i].min(freq[i - 1]);
                }
            }
        }
        let shift = [13, 13, 12, 10, 8, 6, 3, 0][r.below(8)];
        let code = |f: u16| if f == 0 { 0 } else { f.ilog2() + 1 };
        let mx = freq.iter().map(|&f| code(f)).max().unwrap();
        let omit = freq.iter().position(|&f| code(f) == mx).unwrap();
        let mut sum = 0u32;
        for i in 0..n {
            if i != omit && freq[i] > 1 {
                let log = freq[i].ilog2();
                let drop = log - prec(log, shift);
                freq[i] = freq[i] >> drop << drop;
            }
            if i != omit {
                sum += freq[i] as u32;
            }
        }
        freq[omit] = (4096 - sum) as u16;
        form = AnsForm::Full { shift, omit, rle: r.chance(2, 3) };
    }
    let map = alias_inverse(&freq, log_alpha);
    Table::Ans { freq, map, form }
}
/// For every symbol and every offset below its frequency: the slot (0..4096) that stands for it.
fn alias_inverse(freq: &[u16], log_alpha: u32) -> Vec<Vec<u16>> {
    let n = 1usize << log_alpha;
    let log_bucket = 12 - log_alpha;
    let bucket = 1u32 << log_bucket;
    let mut inv: Vec<Vec<u16>> = freq.iter().map(|&f| vec![0; f as usize]).collect();
    if let Some(s) = freq.iter().position(|&f| f == 4096) {
        for x in 0..4096 {
            inv[s][x] = x as u16;
        }
        return inv;
    }
    let mut cut: Vec<u32> = freq.iter().map(|&f| f as u32).collect();
    let mut sym = vec![0usize; n];
    let mut off = vec![0i64; n];
    let mut over = vec![];
    let mut under = vec![];
    for i in 0..n {
        if cut[i] > bucket {
            over.push(i);
        } else if cut[i] < bucket {
            under.push(i);
        }
    }
    while let Some(o) = over.pop() {
        let u = under.pop().unwrap();
        let by = bucket - cut[u];
        cut[o] -= by;
        sym[u] = o;
        off[u] = cut[o] as i64;
        if cut[o] < bucket {
            under.push(o);
        } else if cut[o] > bucket {
            over.push(o);
        }
    }
    for i in 0..n {
        if cut[i] == bucket {
            sym[i] = i;
            off[i] = 0;
            cut[i] = 0;
        } else {
            off[i] -= cut[i] as i64;
        }
    }
    for x in 0..4096u32 {
        let i = (x >> log_bucket) as usize;
        let pos = x & (bucket - 1);
        let (s, o) = if pos >= cut[i] { (sym[i], (off[i] + pos as i64) as usize) } else { (i, pos as usize) };
        inv[s][o] = x as u16;
    }
    inv
}
fn put_u8(b: &mut Bw, v: usize) {
    b.bit(v > 0);
    if v > 0 {
        let n = v.ilog2() as usize;
        b.put(3, n as u64);
        b.put(n, (v - (1 << n)) as u64);
    }
}
fn write_ans(b: &mut Bw, freq: &[u16], form: &AnsForm) {
    match form {
        AnsForm::One(s) => {
            b.bit(true);
            b.bit(false);
            put_u8(b, *s);
        }
        AnsForm::Two(a, c) => {
            b.bit(true);
            b.bit(true);
            put_u8(b, *a);
            put_u8(b, *c);
            b.put(12, freq[*a] as u64);
        }
        AnsForm::Flat(n) => {
            b.bit(false);
            b.bit(true);
            put_u8(b, n - 1);
        }
        AnsForm::Full { shift, omit, rle } => {
            b.bit(false);
            b.bit(false);
            let method = shift + 1;
            let log = method.ilog2();
            b.put(log as usize, (1 << log) - 1);
            if log != 3 {
                b.bit(false);
            }
            b.put(log as usize, (method & ((1 << log) - 1)) as u64);
            let len = (freq.iter().rposition(|&f| f > 0).unwrap() + 1).max(3).min(freq.len());
            put_u8(b, len - 3);
            const BL: [usize; 14] = [5, 4, 4, 4, 4, 4, 3, 3, 3, 3, 3, 6, 7, 7];
            const SY: [u64; 14] = [17, 11, 15, 3, 9, 7, 4, 2, 5, 6, 0, 33, 1, 65];
            let mut mant: Vec<(usize, u64)> = vec![];
            let mut i = 0;
            while i < len {
                if *rle && i > 0 && i - 1 != *omit {
                    let mut n = 0;
                    while i + n < len && freq[i + n] == freq[i - 1] && i + n != *omit && n < 259 {
                        n += 1;
                    }
                    if n >= 4 {
                        b.put(BL[13], SY[13]);
                        put_u8(b, n - 4);
                        i += n;
                        continue;
                    }
                }
                let f = freq[i] as u32;
                let code = if f == 0 { 0 } else { f.ilog2() as usize + 1 };
                b.put(BL[code], SY[code]);
                if i != *omit && code > 1 {
                    let log = code as u32 - 1;
                    let p = prec(log, *shift);
                    mant.push((p as usize, ((f - (1 << log)) >> (log - p)) as u64));
                }
                i += 1;
            }
            for (n, v) in mant {
                b.put(n, v);
            }
        }
    }
}
