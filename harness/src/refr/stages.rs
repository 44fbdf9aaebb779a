//! The steps of rendering one frame, from their definitions.
use super::num::*;
use super::weights::*;
use crate::enc::bits::half_value;
use crate::enc::hdr::*;

pub fn chroma_h(p: &Plane) -> Plane {
    Plane::from_fn(p.w * 2, p.h, |x, y| {
        let i = (x / 2) as i64;
        let o = p.mir(if x % 2 == 0 { i - 1 } else { i + 1 }, y as i64);
        o * c(0.25) + p.mir(i, y as i64) * c(0.75)
    })
}
pub fn chroma_v(p: &Plane) -> Plane {
    Plane::from_fn(p.w, p.h * 2, |x, y| {
        let i = (y / 2) as i64;
        let o = p.mir(x as i64, if y % 2 == 0 { i - 1 } else { i + 1 });
        o * c(0.25) + p.mir(x as i64, i) * c(0.75)
    })
}
pub fn gaborish(p: &Plane, w1: V, w2: V) -> Plane {
    let norm = c(1.0) / (c(1.0) + (w1 + w2) * c(4.0));
    Plane::from_fn(p.w, p.h, |x, y| {
        let (x, y) = (x as i64, y as i64);
        let at = |dx: i64, dy: i64| p.mir(x + dx, y + dy);
        let n4 = at(-1, 0) + at(1, 0) + at(0, -1) + at(0, 1);
        let d4 = at(-1, -1) + at(1, -1) + at(-1, 1) + at(1, 1);
        at(0, 0) * norm + n4 * (w1 * norm) + d4 * (w2 * norm)
    })
}
pub const GAB: [f64; 2] = [0.115169525, 0.061248592];
/// Gaborish weights per channel.
pub fn gab_weights(f: &Filter) -> [(V, V); 3] {
    match &f.gab_w {
        None => [(k(GAB[0]), k(GAB[1])); 3],
        Some(w) => [0, 1, 2].map(|i| (c(half_value(w[2 * i])), c(half_value(w[2 * i + 1])))),
    }
}
pub struct Epf {
    pub scale: [V; 3],
    pub pass: [V; 3],
    pub border: V,
}
pub fn epf_params(f: &Filter) -> Epf {
    let scale = match &f.weights {
        None => [c(40.0), c(5.0), c(3.5)],
        Some(w) => [0, 1, 2].map(|i| c(half_value(w[i]))),
    };
    let (p0, p2, b) = match &f.sigma {
        None => (k(0.9), k(6.5), k(2.0 / 3.0)),
        Some(s) => (c(half_value(s[1])), c(half_value(s[2])), c(half_value(s[3]))),
    };
    Epf { scale, pass: [p0, c(1.0), p2], border: b }
}
const PLUS: [(i64, i64); 5] = [(0, 0), (-1, 0), (1, 0), (0, -1), (0, 1)];
/// One pass of the edge preserving filter. `inv_sigma(bx, by)` of the 8x8 block.
pub fn epf(ch: &[Plane], e: &Epf, pass: usize, inv_sigma: &dyn Fn(usize, usize) -> V) -> Vec<Plane> {
    let (w, h) = (ch[0].w, ch[0].h);
    let mut out = ch[..3].to_vec();
    let mut nb = vec![];
    let r = if pass == 0 { 2i64 } else { 1 };
    for dy in -r..=r {
        for dx in -r..=r {
            if (dx, dy) != (0, 0) && dx.abs() + dy.abs() <= r {
                nb.push((dx, dy));
            }
        }
    }
    for y in 0..h {
        for x in 0..w {
            let s = inv_sigma(x / 8, y / 8);
            // beyond this the filter has no effect
            if s.v + s.e < -3.90524291751269967465540850526868 {
                continue;
            }
            if s.v - s.e < -3.90524291751269967465540850526868 {
                for p in &mut out {
                    p.set(x, y, V::unknown());
                }
                continue;
            }
            let edge = [0, 7].contains(&(x % 8)) || [0, 7].contains(&(y % 8));
            let sm = k(1.65) * e.pass[pass];
            let sm = if edge { sm * e.border } else { sm };
            let (xi, yi) = (x as i64, y as i64);
            let mut wsum = c(1.0);
            let mut acc: Vec<V> = ch[..3].iter().map(|p| p.at(x, y)).collect();
            for &(dx, dy) in &nb {
                let mut sad = c(0.0);
                for (i, p) in ch[..3].iter().enumerate() {
                    let mut s = c(0.0);
                    let pts: &[(i64, i64)] = if pass == 2 { &PLUS[..1] } else { &PLUS };
                    for &(px, py) in pts {
                        s += (p.mir(xi + px, yi + py) - p.mir(xi + dx + px, yi + dy + py)).abs();
                    }
                    sad += s * e.scale[i];
                }
                let wt = (c(1.0) + sad * (s * sm)).max(c(0.0));
                wsum += wt;
                for (a, p) in acc.iter_mut().zip(ch) {
                    *a += wt * p.mir(xi + dx, yi + dy);
                }
            }
            for (o, a) in out.iter_mut().zip(acc) {
                // (some implementations use an approximate reciprocal: none is accurate to less than this)
                o.set(x, y, a / wsum);
            }
        }
    }
    out
}
pub fn upsample_weights(img: &ImageHdr, n: usize) -> Vec<V> {
    let (cust, def): (&Option<Vec<u16>>, &[f64]) = match n {
        2 => (&img.custom.w2, &W2),
        4 => (&img.custom.w4, &W4),
        _ => (&img.custom.w8, &W8),
    };
    match cust {
        Some(v) => v.iter().map(|&b| c(half_value(b))).collect(),
        None => def.iter().map(|&v| k(v)).collect(),
    }
}
pub fn upsample(p: &Plane, n: usize, w: &[V]) -> Plane {
    // kernels for the upper left quadrant of the n x n sub-positions
    let m = n / 2;
    let weight = |sx: usize, sy: usize, kx: usize, ky: usize| -> V {
        // the other quadrants are reflections
        let (sx, kx) = if sx >= m { (n - 1 - sx, 4 - kx) } else { (sx, kx) };
        let (sy, ky) = if sy >= m { (n - 1 - sy, 4 - ky) } else { (sy, ky) };
        let (i, j) = (5 * sy + ky, 5 * sx + kx);
        let (y, x) = (i.min(j), i.max(j));
        w[5 * m * y - y * y.saturating_sub(1) / 2 + x - y]
    };
    let mut kern = vec![];
    for sy in 0..n {
        for sx in 0..n {
            let mut kv = [c(0.0); 25];
            for ky in 0..5 {
                for kx in 0..5 {
                    kv[ky * 5 + kx] = weight(sx, sy, kx, ky);
                }
            }
            kern.push(kv);
        }
    }
    let mut out = Plane::new(p.w * n, p.h * n);
    for y in 0..p.h {
        for x in 0..p.w {
            let mut win = [c(0.0); 25];
            for (i, v) in win.iter_mut().enumerate() {
                *v = p.mir(x as i64 + (i % 5) as i64 - 2, y as i64 + (i / 5) as i64 - 2);
            }
            let lo = win.iter().copied().reduce(V::min).unwrap();
            let hi = win.iter().copied().reduce(V::max).unwrap();
            for sy in 0..n {
                for sx in 0..n {
                    let kv = &kern[sy * n + sx];
                    let mut s = c(0.0);
                    for i in 0..25 {
                        s += win[i] * kv[i];
                    }
                    out.set(x * n + sx, y * n + sy, s.max(lo).min(hi));
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- blending
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    None,
    Replace,
    Add,
    Mul,
    BlendAbove,
    BlendBelow,
    AddAbove,
    AddBelow,
}
pub const MODES: [Mode; 8] = [Mode::None, Mode::Replace, Mode::Add, Mode::Mul, Mode::BlendAbove, Mode::BlendBelow, Mode::AddAbove, Mode::AddBelow];
#[derive(Clone, Copy, Debug)]
pub struct Bl {
    pub mode: Mode,
    pub alpha: usize,
    pub clamp: bool,
}
/// Combines one pixel: `old` (what is there) with `new`; channel 0..3 colour, then the extra ones.
/// In "Below" modes `new` goes underneath.
pub fn blend_pixel(old: &[V], new: &[V], color: Bl, ec: &[Bl], ecs: &[Ec]) -> Vec<V> {
    let has_alpha = ecs.iter().any(|e| e.ty == EC_ALPHA);
    let mut out = old.to_vec();
    let cl = |v: V, b: bool| if b { v.clamp01() } else { v };
    let one = c(1.0);
    let over = |top: V, ta: V, bot: V, ba: V, assoc: bool| -> V {
        if assoc {
            top + bot * (one - ta)
        } else {
            let na = one - (one - ta) * (one - ba);
            let num = top * ta + bot * ba * (one - ta);
            if na.v - na.e > 0.0 {
                num / na
            } else if na.v + na.e <= 0.0 {
                c(0.0)
            } else {
                V::unknown()
            }
        }
    };
    for (i, b) in ec.iter().enumerate() {
        let (o, n) = (old[3 + i], new[3 + i]);
        let (oa, na) = (old[3 + b.alpha], new[3 + b.alpha]);
        let assoc = ecs[b.alpha].assoc && ecs[b.alpha].ty == EC_ALPHA;
        out[3 + i] = match b.mode {
            Mode::None => o,
            Mode::Replace => n,
            Mode::Add => o + n,
            Mode::Mul => o * cl(n, b.clamp),
            Mode::BlendAbove | Mode::BlendBelow => {
                let above = b.mode == Mode::BlendAbove;
                let (top, ta, bot, ba) = if above { (n, na, o, oa) } else { (o, oa, n, na) };
                let ta = cl(ta, b.clamp);
                if i == b.alpha { one - (one - ta) * (one - ba) } else { over(top, ta, bot, ba, assoc) }
            }
            Mode::AddAbove => if i == b.alpha { o } else { o + n * cl(na, b.clamp) },
            Mode::AddBelow => if i == b.alpha { n } else { n + o * cl(oa, b.clamp) },
        };
    }
    let b = color;
    let (oa, na) = if ecs.is_empty() { (one, one) } else { (old[3 + b.alpha], new[3 + b.alpha]) };
    let assoc = !ecs.is_empty() && ecs[b.alpha].assoc && ecs[b.alpha].ty == EC_ALPHA;
    for k in 0..3 {
        let (o, n) = (old[k], new[k]);
        out[k] = match b.mode {
            Mode::None => o,
            Mode::Replace => n,
            Mode::Add => o + n,
            Mode::Mul => o * cl(n, b.clamp),
            Mode::BlendAbove | Mode::BlendBelow => {
                let above = b.mode == Mode::BlendAbove;
                if !has_alpha {
                    if above { n } else { o }
                } else {
                    let (top, ta, bot, ba) = if above { (n, na, o, oa) } else { (o, oa, n, na) };
                    over(top, cl(ta, b.clamp), bot, ba, assoc)
                }
            }
            Mode::AddAbove => if has_alpha { o + n * cl(na, b.clamp) } else { o + n },
            Mode::AddBelow => if has_alpha { n + o * cl(oa, b.clamp) } else { o + n },
        };
    }
    if has_alpha && matches!(b.mode, Mode::BlendAbove | Mode::BlendBelow) {
        let (ta, ba) = if b.mode == Mode::BlendAbove { (na, oa) } else { (oa, na) };
        out[3 + b.alpha] = one - (one - cl(ta, b.clamp)) * (one - ba);
    }
    out
}

// ---------------------------------------------------------------- noise
fn split_mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
struct Xs {
    s: [(u64, u64); 8],
}
impl Xs {
    fn new(a: u32, b: u32, x: u32, y: u32) -> Xs {
        let mut s0 = split_mix((((a as u64) << 32) + b as u64).wrapping_add(0x9E3779B97F4A7C15));
        let mut s1 = split_mix((((x as u64) << 32) + y as u64).wrapping_add(0x9E3779B97F4A7C15));
        let mut s = [(0, 0); 8];
        for v in &mut s {
            *v = (s0, s1);
            s0 = split_mix(s0);
            s1 = split_mix(s1);
        }
        Xs { s }
    }
    /// sixteen values in [1, 2)
    fn batch(&mut self) -> [f64; 16] {
        let mut o = [0.0; 16];
        for (i, (s0, s1)) in self.s.iter_mut().enumerate() {
            let (mut a, b) = (*s0, *s1);
            let bits = a.wrapping_add(b);
            *s0 = b;
            a ^= a << 23;
            *s1 = a ^ b ^ (a >> 18) ^ (b >> 5);
            for h in 0..2 {
                let u = (bits >> (32 * h)) as u32;
                o[2 * i + h] = f32::from_bits(u >> 9 | 0x3f80_0000) as f64;
            }
        }
        o
    }
}
pub fn random_planes(w: usize, h: usize, dim: usize, vis: u32, invis: u32) -> Vec<Plane> {
    // the sub-regions of a group are as large as a group before upsampling: a plain grid
    let mut p = vec![Plane::new(w, h); 3];
    for y0 in (0..h).step_by(dim) {
        for x0 in (0..w).step_by(dim) {
            let mut g = Xs::new(vis, invis, x0 as u32, y0 as u32);
            let (x1, y1) = ((x0 + dim).min(w), (y0 + dim).min(h));
            for pl in &mut p {
                for y in y0..y1 {
                    let mut x = x0;
                    while x < x1 {
                        for v in g.batch() {
                            if x < x1 {
                                pl.set(x, y, c(v));
                                x += 1;
                            }
                        }
                    }
                }
            }
        }
    }
    p
}
pub fn convolve_noise(p: &Plane) -> Plane {
    Plane::from_fn(p.w, p.h, |x, y| {
        let mut o = 0.0;
        for dy in -2..=2 {
            for dx in -2..=2 {
                if (dx, dy) != (0, 0) {
                    o += p.mir(x as i64 + dx, y as i64 + dy).v;
                }
            }
        }
        V::new(o * 0.16 - 3.84 * p.at(x, y).v, 2e-5)
    })
}
fn strength(lut: &[f64; 8], v: V) -> V {
    let f = |x: f64| {
        let s = (6.0 * x).max(0.0);
        if s >= 7.0 {
            return lut[7].clamp(0.0, 1.0);
        }
        let i = s.floor() as usize;
        (lut[i] + (lut[i + 1] - lut[i]) * (s - i as f64)).clamp(0.0, 1.0)
    };
    if !v.decided() {
        return V::unknown();
    }
    // piecewise linear: the slope bounds what an error does
    let slope = (0..7).map(|i| (lut[i + 1] - lut[i]).abs() * 6.0).fold(0.0, f64::max);
    V::new(f(v.v), v.e * slope + 1e-6)
}
pub fn add_noise(ch: &mut [Plane], lut: &[u32; 8], rnd: &[Plane], ytox: V, ytob: V) {
    if lut.iter().all(|&v| v == 0) {
        return;
    }
    let lut = lut.map(|v| v as f64 / 1024.0);
    let n: Vec<Plane> = rnd.iter().map(convolve_noise).collect();
    for i in 0..ch[0].d.len() {
        let (x, y) = (ch[0].d[i], ch[1].d[i]);
        let sg = strength(&lut, (y - x) * c(0.5));
        let sr = strength(&lut, (y + x) * c(0.5));
        let [r, g, cc] = [0, 1, 2].map(|k_| n[k_].d[i] * k(0.22));
        let red = sr * (c(0.0078125) * r + c(0.9921875) * cc);
        let green = sg * (c(0.0078125) * g + c(0.9921875) * cc);
        let rg = red + green;
        ch[0].d[i] = x + ytox * rg + red - green;
        ch[1].d[i] = y + rg;
        ch[2].d[i] = ch[2].d[i] + ytob * rg;
    }
}

// ---------------------------------------------------------------- splines
#[derive(Clone, Debug)]
pub struct Spline {
    pub start: (i64, i64),
    /// second differences
    pub deltas: Vec<(i64, i64)>,
    pub color: [[i64; 32]; 3],
    pub sigma: [i64; 32],
}
fn cos_approx(x: f64) -> f64 {
    let pi = std::f64::consts::PI;
    let m = x - (x / (2.0 * pi)).floor() * 2.0 * pi;
    let xp = m.min(2.0 * pi - m);
    let neg = xp >= pi / 2.0;
    let q = if neg { pi - xp } else { xp } * 0.25;
    let x2 = q * q;
    let p = x2 * x2 * 0.06960438 + (x2 * -0.84087373 + 1.68179268);
    let a = p * p - std::f64::consts::SQRT_2;
    let b = a * a - 1.0;
    if neg { -b } else { b }
}
fn erf_approx(x: f64) -> f64 {
    let a = x.abs();
    let d = (((a * 7.77394369e-02 + 2.05260015e-04) * a + 2.32120216e-01) * a + 2.77820801e-01) * a + 1.0;
    (1.0 - 1.0 / (d * d * d * d)).copysign(x)
}
/// Every spline's points: (x, y, multiplier).
fn spline_points(s: &Spline) -> Vec<(f64, f64, f64)> {
    let mut pts = vec![(s.start.0 as f64, s.start.1 as f64)];
    let (mut x, mut y) = s.start;
    let (mut dx, mut dy) = (0, 0);
    for d in &s.deltas {
        dx += d.0;
        dy += d.1;
        x += dx;
        y += dy;
        pts.push((x as f64, y as f64));
    }
    let n = pts.len();
    let mut curve = vec![];
    if n == 1 {
        curve.push(pts[0]);
    } else {
        let mut ext = vec![(2.0 * pts[0].0 - pts[1].0, 2.0 * pts[0].1 - pts[1].1)];
        ext.extend(&pts);
        ext.push((2.0 * pts[n - 1].0 - pts[n - 2].0, 2.0 * pts[n - 1].1 - pts[n - 2].1));
        let lerp = |a: (f64, f64), b: (f64, f64), t: f64| (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t);
        for w in ext.windows(4) {
            let mut t = [0.0f64; 4];
            for i in 0..3 {
                t[i + 1] = t[i] + (w[i + 1].0 - w[i].0).hypot(w[i + 1].1 - w[i].1).sqrt();
            }
            curve.push(w[1]);
            for i in 1..16 {
                let tt = t[1] + i as f64 / 16.0 * (t[2] - t[1]);
                let a: Vec<_> = (0..3).map(|j| lerp(w[j], w[j + 1], (tt - t[j]) / (t[j + 1] - t[j]))).collect();
                let b: Vec<_> = (0..2).map(|j| lerp(a[j], a[j + 1], (tt - t[j]) / (t[j + 2] - t[j]))).collect();
                curve.push(lerp(b[0], b[1], (tt - t[1]) / (t[2] - t[1])));
            }
        }
        curve.push(pts[n - 1]);
    }
    let mut out = vec![(curve[0].0, curve[0].1, 1.0)];
    if curve.len() == 1 {
        return out;
    }
    let mut acc = 0.0;
    for w in curve.windows(2) {
        let (mut cur, next) = (w[0], w[1]);
        let len = (next.0 - cur.0).hypot(next.1 - cur.1);
        let u = ((next.0 - cur.0) / len, (next.1 - cur.1) / len);
        let mut left = len;
        while acc + left >= 1.0 {
            let step = 1.0 - acc;
            cur = (cur.0 + u.0 * step, cur.1 + u.1 * step);
            out.push((cur.0, cur.1, 1.0));
            left -= step;
            acc = 0.0;
        }
        acc += left;
    }
    let l = curve[curve.len() - 1];
    out.push((l.0, l.1, acc));
    out
}
pub const SPLINE_WEIGHTS: [f64; 4] = [0.0042, 0.075, 0.07, 0.3333];
pub fn draw_splines(ch: &mut [Plane], splines: &[Spline], adj: i64, ytox: f64, ytob: f64, high: bool) {
    let (w, h) = (ch[0].w as i64, ch[0].h as i64);
    for s in splines {
        let pts = spline_points(s);
        let n = pts.len();
        let length = n as f64 - 2.0 + pts[n - 1].2;
        let far = pts.iter().map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max);
        if length <= 1e-4 {
            continue;
        }
        let inv = if adj >= 0 { 1.0 / (1.0 + adj as f64 / 8.0) } else { 1.0 - adj as f64 / 8.0 };
        let deq = |d: &[i64; 32], wt: f64| -> Vec<f64> { d.iter().enumerate().map(|(i, &v)| v as f64 * wt * inv * if i == 0 { std::f64::consts::FRAC_1_SQRT_2 } else { 1.0 }).collect() };
        let mut col: Vec<Vec<f64>> = (0..3).map(|i| deq(&s.color[i], SPLINE_WEIGHTS[i])).collect();
        let sig = deq(&s.sigma, SPLINE_WEIGHTS[3]);
        for i in 0..32 {
            col[0][i] += ytox * col[1][i];
            col[2][i] += ytob * col[1][i];
        }
        let all = [&col[0], &col[1], &col[2], &sig];
        let mag = all.map(|v| v.iter().map(|x| x.abs()).sum::<f64>() * std::f64::consts::SQRT_2);
        for (i, &(px, py, mult)) in pts.iter().enumerate() {
            let t = 31.0 * (i as f64 / length).min(1.0);
            let cs: Vec<f64> = (0..32).map(|j| cos_approx(std::f64::consts::PI / 32.0 * j as f64 * (t + 0.5))).collect();
            let val = all.map(|v| v.iter().zip(&cs).map(|(a, b)| a * b).sum::<f64>() * std::f64::consts::SQRT_2);
            // t carries the rounding of up to some thousand steps
            let dt = 31.0 * 3e-6 + 1e-5;
            let err = mag.map(|m| m * (dt * 3.2 + 3e-5));
            let (sg, se) = (val[3], err[3]);
            if sg.abs() > 1e30 {
                continue;
            }
            let exp = if high { 5.0 } else { 3.0 };
            let reach = |sg: f64, up: f64| -> f64 {
                let mc = (0..3).map(|i| (val[i].abs() + up * err[i]).max(0.0) * mult).fold(0.01 * mult, f64::max);
                (-2.0 * sg * sg * (0.1f64.ln() * exp - mc.ln())).sqrt()
            };
            let md = reach(sg, 0.0);
            let outer = reach(sg.abs() + se, 1.0);
            let inner = reach((sg.abs() - se).max(0.0), -1.0);
            let inner = if inner.is_nan() { -1.0 } else { inner };
            let dpos = 1e-3 + far * 4e-6;
            let outer = if outer.is_nan() {
                // what is not a number is drawn at the very corner or not at all
                0.0
            } else {
                outer
            };
            let lim = |cen: f64, r: f64, sgn: f64| (cen + sgn * r).round() as i64;
            let (oy0, oy1) = (lim(py - dpos, outer, -1.0), lim(py + dpos, outer, 1.0));
            let (ox0, ox1) = (lim(px - dpos, outer, -1.0), lim(px + dpos, outer, 1.0));
            let (iy0, iy1) = (lim(py + dpos, inner, -1.0), lim(py - dpos, inner, 1.0));
            let (ix0, ix1) = (lim(px + dpos, inner, -1.0), lim(px - dpos, inner, 1.0));
            let nan = md.is_nan() || (sg - se).signum() != (sg + se).signum();
            let intensity = |d: f64, sg: f64| {
                let f = erf_approx((d * 0.5 + 0.35355338) / sg) - erf_approx((d * 0.5 - 0.35355338) / sg);
                0.25 * sg * mult * f * f
            };
            let mut pix = |x: i64, y: i64, sure: bool| {
                if x < 0 || y < 0 || x >= w || y >= h {
                    return;
                }
                let d = (x as f64 - px).hypot(y as f64 - py);
                let (v, e) = if (sg.abs() - se) * 0.5 <= se {
                    (intensity(d, sg), (sg.abs() + se) * mult * 2.0)
                } else {
                    let v = intensity(d, sg);
                    let dd = dpos;
                    let mut e = 0.0f64;
                    for a in [-1.0, 1.0] {
                        for b in [-1.0, 1.0] {
                            e = e.max((intensity((d + a * dd).max(0.0), sg + b * se) - v).abs());
                        }
                    }
                    (v, e * 4.0 + v.abs() * 3e-5 + sg.abs() * mult * 1e-6)
                };
                let v = if v.is_finite() { v } else { 0.0 };
                let q = (y * w + x) as usize;
                for k in 0..3 {
                    let add = v * val[k];
                    let ee = e * (val[k].abs() + err[k]) + v.abs() * err[k] + 1e-9;
                    let o = ch[k].d[q];
                    ch[k].d[q] = if sure { o + V::new(add, ee) } else { V::new(o.v + add * 0.5, o.e + add.abs() * 0.5 + ee + EPS * o.v.abs()) };
                }
            };
            if nan {
                pix(0, 0, false);
            }
            for y in oy0.max(0)..=oy1.min(h - 1) {
                for x in ox0.max(0)..=ox1.min(w - 1) {
                    let sure = !nan && x >= ix0 && x <= ix1 && y >= iy0 && y <= iy1;
                    pix(x, y, sure);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- spot colours
pub fn spot(ch: &mut [Plane], i: usize, e: &Ec) {
    let s = e.spot.map(half_value);
    for q in 0..ch[0].d.len() {
        let mix = c(s[3]) * ch[3 + i].d[q];
        for k in 0..3 {
            ch[k].d[q] = mix * c(s[k]) + (c(1.0) - mix) * ch[k].d[q];
        }
    }
}
