//! ICC profiles: embedded ones byte for byte, synthesised ones against an own reading of the ICC format.
use jxl::api::*;
use jxl::headers::color_encoding::RenderingIntent;
use vh::drv::*;
use vh::enc::hdr::*;
use vh::enc::make::*;
use vh::report::Ctx;
use vh::rng::*;
use vh::work::*;

/// MD5, from RFC 1321.
fn md5(d: &[u8]) -> [u8; 16] {
    let s: [u32; 16] = [7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21];
    let mut m = d.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend(((d.len() as u64) * 8).to_le_bytes());
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    for c in m.chunks(64) {
        let w: Vec<u32> = c.chunks(4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).collect();
        let [mut a, mut b, mut cc, mut dd] = h;
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => (b & cc | !b & dd, i),
                1 => (dd & b | !dd & cc, (5 * i + 1) % 16),
                2 => (b ^ cc ^ dd, (3 * i + 5) % 16),
                _ => (cc ^ (b | !dd), 7 * i % 16),
            };
            let k = ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32;
            let f = f.wrapping_add(a).wrapping_add(k).wrapping_add(w[g]);
            a = dd;
            dd = cc;
            cc = b;
            b = b.wrapping_add(f.rotate_left(s[i / 16 * 4 + i % 4]));
        }
        for (x, y) in h.iter_mut().zip([a, b, cc, dd]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut o = [0; 16];
    for i in 0..4 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    o
}
struct Icc<'a> {
    d: &'a [u8],
    tags: Vec<([u8; 4], usize, usize)>,
}
fn u32be(d: &[u8], p: usize) -> Result<u32, String> {
    d.get(p..p + 4).map(|b| u32::from_be_bytes(b.try_into().unwrap())).ok_or(format!("end of profile at {p}"))
}
fn s15(d: &[u8], p: usize) -> Result<f64, String> {
    Ok(u32be(d, p)? as i32 as f64 / 65536.0)
}
impl<'a> Icc<'a> {
    fn parse(d: &'a [u8]) -> Result<Icc<'a>, String> {
        if u32be(d, 0)? as usize != d.len() {
            return Err(format!("size field {} of {} bytes", u32be(d, 0)?, d.len()));
        }
        if d.len() < 132 || d.len() % 4 != 0 {
            return Err("length".into());
        }
        if &d[36..40] != b"acsp" {
            return Err("no acsp".into());
        }
        if d[8] != 4 {
            return Err(format!("version {}", d[8]));
        }
        if (u32be(d, 68)?, u32be(d, 72)?, u32be(d, 76)?) != (0xf6d6, 0x10000, 0xd32d) {
            return Err("illuminant".into());
        }
        if d[100..128].iter().any(|&b| b != 0) {
            return Err("reserved".into());
        }
        let mut m = d.to_vec();
        m[44..48].fill(0);
        m[64..68].fill(0);
        m[84..100].fill(0);
        if md5(&m) != d[84..100] {
            return Err("profile id is not the checksum".into());
        }
        let n = u32be(d, 128)? as usize;
        let mut tags = vec![];
        for i in 0..n {
            let p = 132 + 12 * i;
            let (o, s) = (u32be(d, p + 4)? as usize, u32be(d, p + 8)? as usize);
            let sig: [u8; 4] = d[p..p + 4].try_into().unwrap();
            if o < 132 + 12 * n || o % 4 != 0 || o + s > d.len() || s < 8 {
                return Err(format!("tag {} at {o} size {s}", String::from_utf8_lossy(&sig)));
            }
            if tags.iter().any(|t: &([u8; 4], usize, usize)| t.0 == sig) {
                return Err(format!("tag {} twice", String::from_utf8_lossy(&sig)));
            }
            // elements are the same or apart
            if tags.iter().any(|t| (t.1, t.2) != (o, s) && t.1 < o + s && o < t.1 + t.2) {
                return Err(format!("tag {} overlaps another", String::from_utf8_lossy(&sig)));
            }
            tags.push((sig, o, s));
        }
        Ok(Icc { d, tags })
    }
    fn tag(&self, sig: &[u8; 4], ty: &[u8; 4]) -> Result<&'a [u8], String> {
        let name = String::from_utf8_lossy(sig);
        let (_, o, s) = self.tags.iter().find(|t| t.0 == *sig).ok_or(format!("no {name} tag"))?;
        let b = &self.d[*o..o + s];
        if &b[..4] != ty || b[4..8] != [0; 4] {
            return Err(format!("type of {name}: {:?}", String::from_utf8_lossy(&b[..4])));
        }
        Ok(b)
    }
    fn xyz(&self, sig: &[u8; 4]) -> Result<[f64; 3], String> {
        let b = self.tag(sig, b"XYZ ")?;
        if b.len() != 20 {
            return Err(format!("XYZ tag of {} bytes", b.len()));
        }
        Ok([s15(b, 8)?, s15(b, 12)?, s15(b, 16)?])
    }
    fn text(&self, sig: &[u8; 4]) -> Result<String, String> {
        let b = self.tag(sig, b"mluc")?;
        if u32be(b, 8)? != 1 || u32be(b, 12)? != 12 {
            return Err("mluc records".into());
        }
        let (l, o) = (u32be(b, 20)? as usize, u32be(b, 24)? as usize);
        if o + l != b.len() || o != 28 || l % 2 != 0 {
            return Err(format!("mluc length {l} at {o} in {}", b.len()));
        }
        Ok(b[o..].chunks(2).map(|c| char::from_u32(u16::from_be_bytes([c[0], c[1]]) as u32).unwrap_or('?')).collect())
    }
}
/// A curve element at the start of `b`: its function and its length.
fn curve(b: &[u8]) -> Result<(Box<dyn Fn(f64) -> f64>, usize), String> {
    match b.get(..4) {
        Some(b"para") => {
            let t = u32be(b, 8)? >> 16;
            let n = *[1usize, 3, 4, 5, 7].get(t as usize).ok_or(format!("parametric type {t}"))?;
            let p: Vec<f64> = (0..n).map(|i| s15(b, 12 + 4 * i)).collect::<Result<_, _>>()?;
            let f: Box<dyn Fn(f64) -> f64> = match t {
                0 => Box::new(move |x| x.powf(p[0])),
                3 => Box::new(move |x| if x >= p[4] { (p[1] * x + p[2]).max(0.0).powf(p[0]) } else { p[3] * x }),
                _ => return Err(format!("parametric type {t}")),
            };
            Ok((f, 12 + 4 * n))
        }
        Some(b"curv") => {
            let n = u32be(b, 8)? as usize;
            if n < 2 || b.len() < 12 + 2 * n {
                return Err(format!("table of {n} in {} bytes", b.len()));
            }
            let t: Vec<f64> = (0..n).map(|i| u16::from_be_bytes([b[12 + 2 * i], b[13 + 2 * i]]) as f64 / 65535.0).collect();
            let f = move |x: f64| {
                let y = x.clamp(0.0, 1.0) * (t.len() - 1) as f64;
                let k = (y as usize).min(t.len() - 2);
                t[k] + (t[k + 1] - t[k]) * (y - k as f64)
            };
            Ok((Box::new(f), 12 + 2 * n))
        }
        x => Err(format!("curve type {x:?}")),
    }
}
pub fn eotf(tf: &JxlTransferFunction, x: f64) -> f64 {
    match tf {
        JxlTransferFunction::Linear => x,
        JxlTransferFunction::SRGB => if x <= 0.04045 { x / 12.92 } else { ((x + 0.055) / 1.055).powf(2.4) },
        JxlTransferFunction::BT709 => if x < 0.081 { x / 4.5 } else { ((x + 0.099) / 1.099).powf(1.0 / 0.45) },
        JxlTransferFunction::DCI => x.powf(2.6),
        JxlTransferFunction::Gamma(g) => x.powf(1.0 / *g as f64),
        JxlTransferFunction::PQ => {
            let p = x.powf(32.0 / 2523.0);
            ((p - 107.0 / 128.0).max(0.0) / (2413.0 / 128.0 - 2392.0 / 128.0 * p)).powf(16384.0 / 2610.0)
        }
        JxlTransferFunction::HLG => {
            let a = 0.17883277f64;
            let b = 1.0 - 4.0 * a;
            let c = 0.5 - a * (4.0 * a).ln();
            if x <= 0.5 { x * x / 3.0 } else { (((x - c) / a).exp() + b) / 12.0 }
        }
    }
}
type M3 = [[f64; 3]; 3];
pub fn mul(a: &M3, b: &M3) -> M3 {
    std::array::from_fn(|i| std::array::from_fn(|j| (0..3).map(|k| a[i][k] * b[k][j]).sum()))
}
pub fn mulv(a: &M3, b: [f64; 3]) -> [f64; 3] {
    std::array::from_fn(|i| (0..3).map(|k| a[i][k] * b[k]).sum())
}
pub fn inv(m: &M3) -> M3 {
    let c = |i: usize, j: usize| {
        let (a, b, e, f) = ((i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3);
        m[a][e] * m[b][f] - m[a][f] * m[b][e]
    };
    let det = m[0][0] * c(0, 0) + m[0][1] * c(0, 1) + m[0][2] * c(0, 2);
    std::array::from_fn(|i| std::array::from_fn(|j| c(j, i) / det))
}
pub const BRADFORD: M3 = [[0.8951, 0.2664, -0.1614], [-0.7502, 1.7135, 0.0367], [0.0389, -0.0685, 1.0296]];
pub fn white_xyz((x, y): (f64, f64)) -> [f64; 3] {
    [x / y, 1.0, (1.0 - x - y) / y]
}
pub fn adapt_d50(w: (f64, f64)) -> M3 {
    let s = mulv(&BRADFORD, white_xyz(w));
    let d = mulv(&BRADFORD, [0.96422, 1.0, 0.82521]);
    let k: M3 = std::array::from_fn(|i| std::array::from_fn(|j| if i == j { d[i] / s[i] } else { 0.0 }));
    mul(&inv(&BRADFORD), &mul(&k, &BRADFORD))
}
pub fn rgb_to_xyz(p: [(f64, f64); 3], w: (f64, f64)) -> M3 {
    let m: M3 = [[p[0].0, p[1].0, p[2].0], [p[0].1, p[1].1, p[2].1], [1.0 - p[0].0 - p[0].1, 1.0 - p[1].0 - p[1].1, 1.0 - p[2].0 - p[2].1]];
    let s = mulv(&inv(&m), white_xyz(w));
    std::array::from_fn(|i| std::array::from_fn(|j| m[i][j] * s[j]))
}
pub fn white_xy(w: &JxlWhitePoint) -> (f64, f64) {
    match w {
        JxlWhitePoint::D65 => (0.3127, 0.3290),
        JxlWhitePoint::E => (1.0 / 3.0, 1.0 / 3.0),
        JxlWhitePoint::DCI => (0.314, 0.351),
        JxlWhitePoint::Chromaticity { wx, wy } => (*wx as f64, *wy as f64),
    }
}
pub fn prim_xy(p: &JxlPrimaries) -> [(f64, f64); 3] {
    match p {
        JxlPrimaries::SRGB => [(0.64, 0.33), (0.30, 0.60), (0.15, 0.06)],
        JxlPrimaries::BT2100 => [(0.708, 0.292), (0.170, 0.797), (0.131, 0.046)],
        JxlPrimaries::P3 => [(0.680, 0.320), (0.265, 0.690), (0.150, 0.060)],
        JxlPrimaries::Chromaticities { rx, ry, gx, gy, bx, by } => [(*rx as f64, *ry as f64), (*gx as f64, *gy as f64), (*bx as f64, *by as f64)],
    }
}
fn near(what: &str, a: &[f64], b: &[f64], tol: f64) -> Result<(), String> {
    if a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol) {
        return Ok(());
    }
    Err(format!("{what}: {a:?} instead of {b:?}"))
}
/// Whether the profile says what the encoding says.
fn judge(e: &JxlColorEncoding, d: &[u8], ctx: &Ctx) -> Result<(), String> {
    let p = Icc::parse(d)?;
    let (gray, wp, prim, tf, ri) = match e {
        JxlColorEncoding::RgbColorSpace { white_point, primaries, transfer_function, rendering_intent } => (false, white_point, Some(primaries), transfer_function, rendering_intent),
        JxlColorEncoding::GrayscaleColorSpace { white_point, transfer_function, rendering_intent } => (true, white_point, None, transfer_function, rendering_intent),
        JxlColorEncoding::XYB { .. } => return judge_xyb(&p),
    };
    if &d[12..16] != b"mntr" || &d[16..20] != if gray { b"GRAY" } else { b"RGB " } {
        return Err("class: or space".into());
    }
    if u32be(d, 64)? != *ri as u32 {
        return Err(format!("intent: {}", u32be(d, 64)?));
    }
    let desc = p.text(b"desc")?;
    if desc != e.get_color_encoding_description() {
        return Err(format!("description: {desc:?}"));
    }
    if let Some(want) = description(e) {
        if desc != want {
            return Err(format!("description: {desc:?} instead of {want:?}"));
        }
    }
    p.text(b"cprt")?;
    let w = white_xy(wp);
    let custom = matches!(wp, JxlWhitePoint::Chromaticity { .. }) || matches!(prim, Some(JxlPrimaries::Chromaticities { .. }));
    let tol = if custom { 2e-4 } else { 3e-5 };
    if gray {
        near("white point", &p.xyz(b"wtpt")?, &white_xyz(w), 3e-5)?;
    } else {
        near("white point", &p.xyz(b"wtpt")?, &[0.9642, 1.0, 0.8249], 2e-4)?;
        let b = p.tag(b"chad", b"sf32")?;
        let m: Vec<f64> = (0..9).map(|i| s15(b, 8 + 4 * i)).collect::<Result<_, _>>()?;
        let a = adapt_d50(w);
        near("chad", &m, &a.concat(), tol)?;
        let rgb = mul(&a, &rgb_to_xyz(prim_xy(prim.unwrap()), w));
        for (c, t) in [b"rXYZ", b"gXYZ", b"bXYZ"].into_iter().enumerate() {
            let col: [f64; 3] = std::array::from_fn(|i| rgb[i][c]);
            let big = col.iter().fold(1.0f64, |x, y| x.max(y.abs()));
            near("colorant", &p.xyz(t)?, &col, tol.max(2e-5 * big) * big)?;
        }
    }
    let hdr = matches!(tf, JxlTransferFunction::PQ | JxlTransferFunction::HLG);
    let lut = p.tags.iter().any(|t| &t.0 == b"A2B0");
    let trc: &[&[u8; 4]] = if gray { &[b"kTRC"] } else { &[b"rTRC", b"gTRC", b"bTRC"] };
    if lut {
        if !hdr || gray || &d[20..24] != b"Lab " {
            return Err("lut: not expected".into());
        }
        judge_hdr(&p, tf, prim.unwrap(), wp, ctx)?;
        ctx.count("profiles with a tone mapping table", 1);
    } else {
        if &d[20..24] != b"XYZ " {
            return Err("connection space: not XYZ".into());
        }
        for t in trc {
            let b = {
                let (_, o, s) = p.tags.iter().find(|x| &x.0 == *t).ok_or("curve: missing")?;
                &d[*o..o + s]
            };
            let (f, len) = curve(b).map_err(|e| format!("curve: {e}"))?;
            if len != b.len() {
                return Err(format!("curve: {len} bytes in a tag of {}", b.len()));
            }
            for i in 0..=126 {
                let x = i as f64 / 126.0;
                // sampled curves are exact at their nodes
                let tol = if hdr && i % 2 == 1 { 0.02 } else { 1e-4 };
                if (f(x) - eotf(tf, x)).abs() > tol {
                    return Err(format!("curve: {} instead of {} at {x}", f(x), eotf(tf, x)));
                }
            }
        }
        ctx.count("profiles with tone curves", 1);
    }
    match p.tags.iter().find(|t| &t.0 == b"cicp") {
        Some(_) => {
            let b = p.tag(b"cicp", b"cicp")?;
            let code = |t: &JxlTransferFunction| match t { JxlTransferFunction::BT709 => 1u8, JxlTransferFunction::Linear => 8, JxlTransferFunction::SRGB => 13, JxlTransferFunction::PQ => 16, JxlTransferFunction::DCI => 17, JxlTransferFunction::HLG => 18, _ => 255 };
            let pc = match (wp, prim) {
                (JxlWhitePoint::D65, Some(JxlPrimaries::SRGB)) => 1u8,
                (JxlWhitePoint::D65, Some(JxlPrimaries::BT2100)) => 9,
                (JxlWhitePoint::D65, Some(JxlPrimaries::P3)) => 12,
                (JxlWhitePoint::DCI, Some(JxlPrimaries::P3)) => 11,
                _ => 255,
            };
            if b.len() != 12 || b[8..12] != [pc, code(tf), 0, 1] {
                return Err(format!("cicp: {b:?}"));
            }
            ctx.count("profiles with cicp", 1);
        }
        None => {
            if lut {
                return Err("cicp: missing beside a tone mapping table".into());
            }
        }
    }
    Ok(())
}
fn description(e: &JxlColorEncoding) -> Option<String> {
    let wps = |w: &JxlWhitePoint| match w { JxlWhitePoint::D65 => Some("D65"), JxlWhitePoint::E => Some("EER"), JxlWhitePoint::DCI => Some("DCI"), _ => None };
    let tfs = |t: &JxlTransferFunction| match t {
        JxlTransferFunction::BT709 => Some("709"), JxlTransferFunction::Linear => Some("Lin"), JxlTransferFunction::SRGB => Some("SRG"), JxlTransferFunction::PQ => Some("PeQ"), JxlTransferFunction::DCI => Some("DCI"), JxlTransferFunction::HLG => Some("HLG"), _ => None };
    let ris = |r: u32| ["Per", "Rel", "Sat", "Abs"][r as usize];
    match e {
        JxlColorEncoding::RgbColorSpace { white_point, primaries, transfer_function, rendering_intent } => {
            let ri = *rendering_intent as u32;
            let ps = match primaries { JxlPrimaries::SRGB => "SRG", JxlPrimaries::BT2100 => "202", JxlPrimaries::P3 => "DCI", _ => return None };
            let (w, t) = (wps(white_point)?, tfs(transfer_function)?);
            Some(match (w, ps, t, ri) {
                ("D65", "SRG", "SRG", 0) => "sRGB".into(),
                ("D65", "DCI", "SRG", 0) => "DisplayP3".into(),
                ("D65", "202", "PeQ", 1) => "Rec2100PQ".into(),
                ("D65", "202", "HLG", 1) => "Rec2100HLG".into(),
                _ => format!("RGB_{w}_{ps}_{}_{t}", ris(ri)),
            })
        }
        JxlColorEncoding::GrayscaleColorSpace { white_point, transfer_function, rendering_intent } => Some(format!("Gra_{}_{}_{}", wps(white_point)?, ris(*rendering_intent as u32), tfs(transfer_function)?)),
        _ => None,
    }
}
/// Tone and gamut mapping of HDR signals to a display of 250 (PQ) or 80 (HLG) nits, in 8-bit Lab.
fn tone_mapped(tf: &JxlTransferFunction, prim: &JxlPrimaries, wp: &JxlWhitePoint, v: [f64; 3]) -> [f64; 3] {
    let w = white_xy(wp);
    let xyz = rgb_to_xyz(prim_xy(prim), w);
    let lum = xyz[1];
    let dot = |v: [f64; 3]| lum[0] * v[0] + lum[1] * v[1] + lum[2] * v[2];
    let mut l = v.map(|x| eotf(tf, x));
    let pq = |y: f64| -> f64 {
        let m = (y / 10000.0).powf(2610.0 / 16384.0);
        ((107.0 + 2413.0 * m) / (128.0 + 2392.0 * m)).powf(2523.0 / 32.0)
    };
    if *tf == JxlTransferFunction::PQ {
        // BT.2408 annex 5, black at 0
        let y = dot(l) * 10000.0;
        let (lo, hi) = (pq(0.0), pq(10000.0));
        let max = (pq(250.0) - lo) / (hi - lo);
        let ks = 1.5 * max - 0.5;
        let e1 = ((pq(y) - lo) / (hi - lo)).min(1.0);
        let e2 = if e1 < ks { e1 } else {
            let t = (e1 - ks) / (1.0 - ks);
            (2.0 * t.powi(3) - 3.0 * t * t + 1.0) * ks + (t.powi(3) - 2.0 * t * t + t) * (1.0 - ks) + (3.0 * t * t - 2.0 * t.powi(3)) * max
        };
        let ny = (eotf(tf, e2 * (hi - lo) + lo) * 10000.0).clamp(0.0, 250.0);
        l = l.map(|x| if y <= 1e-6 { ny / 250.0 } else { x * ny / y * 10000.0 / 250.0 });
    } else {
        let g = 1.2 * 1.111f64.powf((80.0f64 / 1000.0).log2());
        let y = dot(l);
        if y > 0.0 {
            l = l.map(|x| x * y.powf(g - 1.0));
        }
    }
    // desaturate towards grey of the same luminance
    let y = dot(l);
    let (mut ms, mut ml) = (0.0f64, 0.0f64);
    for x in l {
        let d = x - y;
        let i = 1.0 / if d == 0.0 { 1.0 } else { d };
        if d < 0.0 {
            ms = ms.max(x * i);
        }
        ml = ml.max(if d <= 0.0 { ms } else { x * i - i });
    }
    let mix = (0.3 * (ms - ml) + ml).clamp(0.0, 1.0);
    l = l.map(|x| x + mix * (y - x));
    let top = l.iter().fold(1.0f64, |a, b| a.max(*b));
    let q = mulv(&mul(&adapt_d50(w), &xyz), l.map(|x| x / top));
    let f = |x: f64| if x <= (6.0f64 / 29.0).powi(3) { x * (29.0f64 / 6.0).powi(2) / 3.0 + 4.0 / 29.0 } else { x.cbrt() };
    let (fx, fy, fz) = (f(q[0] / 0.9642), f(q[1]), f(q[2] / 0.8249));
    [(116.0 * fy - 16.0) * 2.55, 128.0 + 500.0 * (fx - fy), 128.0 + 200.0 * (fy - fz)].map(|v| v.clamp(0.0, 255.0))
}
/// The tone mapping table: greys stay grey, brighter stays brighter, and the ends are black and white.
fn judge_hdr(p: &Icc, tf: &JxlTransferFunction, prim: &JxlPrimaries, wp: &JxlWhitePoint, ctx: &Ctx) -> Result<(), String> {
    let b = p.tag(b"A2B0", b"mft1")?;
    let (i, o, n) = (b[8] as usize, b[9] as usize, b[10] as usize);
    let end = 48 + 768 + 768 + 3 * n * n * n;
    if i != 3 || o != 3 || b.len() < end || b.len() > end + 3 {
        return Err(format!("lut: {i} {o} {n} in {} bytes", b.len()));
    }
    for k in 0..9 {
        if s15(b, 12 + 4 * k)? != if k % 4 == 0 { 1.0 } else { 0.0 } {
            return Err("lut: matrix".into());
        }
    }
    for c in 0..3 {
        for v in 0..256 {
            if b[48 + c * 256 + v] != v as u8 || b[end - 768 + c * 256 + v] != v as u8 {
                return Err("lut: tables".into());
            }
        }
    }
    let at = |x: usize, y: usize, z: usize| -> [i32; 3] { std::array::from_fn(|c| b[48 + 768 + 3 * ((x * n + y) * n + z) + c] as i32) };
    let mut last = -1;
    for k in 0..n {
        let v = at(k, k, k);
        if (v[1] - 128).abs() > 1 || (v[2] - 128).abs() > 1 {
            return Err(format!("lut: grey {k} is {v:?}"));
        }
        if v[0] < last {
            return Err(format!("lut: grey {k} is {v:?}, darker than the one before"));
        }
        last = v[0];
    }
    if at(0, 0, 0)[0] != 0 || last < 200 {
        return Err(format!("lut: black {:?} white {last}", at(0, 0, 0)));
    }
    // red, green and blue lie where they belong
    let (r, g, bl) = (at(n - 1, 0, 0), at(0, n - 1, 0), at(0, 0, n - 1));
    if !(r[1] > 140 && g[1] < 120 && bl[2] < 120 && g[0] > r[0] && r[0] > bl[0]) {
        return Err(format!("lut: primaries {r:?} {g:?} {bl:?}"));
    }
    for x in 0..n {
        for y in 0..n {
            for z in 0..n {
                let want = tone_mapped(tf, prim, wp, [x, y, z].map(|v| v as f64 / (n - 1) as f64));
                let got = at(x, y, z);
                ctx.count("table nodes compared", 1);
                if (0..3).any(|c| (got[c] as f64 - want[c]).abs() > 2.0) {
                    return Err(format!("lut: {got:?} instead of {want:?} at {x} {y} {z}"));
                }
            }
        }
    }
    noop(p)
}
fn noop(p: &Icc) -> Result<(), String> {
    let b = p.tag(b"B2A0", b"mBA ")?;
    if b[8..10] != [3, 3] || u32be(b, 12)? != 32 || (16..32).any(|i| b[i] != 0) {
        return Err("b2a: header".into());
    }
    let mut o = 32;
    for _ in 0..3 {
        let (f, l) = curve(&b[o..])?;
        if (0..=10).any(|i| (f(i as f64 / 10.0) - i as f64 / 10.0).abs() > 1e-9) {
            return Err("b2a: not the identity".into());
        }
        o += l.next_multiple_of(4);
    }
    Ok(())
}
/// The profile of XYB: scaled XYB samples lead to the colours they stand for.
fn judge_xyb(p: &Icc) -> Result<(), String> {
    if &p.d[12..24] != b"scnrRGB XYZ " {
        return Err("xyb: class or space".into());
    }
    let b = p.tag(b"A2B0", b"mAB ")?;
    let (ob, om, omc, oc, oa) = (u32be(b, 12)? as usize, u32be(b, 16)? as usize, u32be(b, 20)? as usize, u32be(b, 24)? as usize, u32be(b, 28)? as usize);
    let curves = |mut o: usize| -> Result<Vec<Box<dyn Fn(f64) -> f64>>, String> {
        let mut v = vec![];
        for _ in 0..3 {
            let (f, l) = curve(b.get(o..).ok_or("xyb: offset")?)?;
            v.push(f);
            o += l.next_multiple_of(4);
        }
        Ok(v)
    };
    let (fa, fb, fm) = (curves(oa)?, curves(ob)?, curves(omc)?);
    if b[oc..oc + 3] != [2, 2, 2] || b[oc + 16] != 2 {
        return Err("xyb: table".into());
    }
    let t = |x: usize, y: usize, z: usize, c: usize| u16::from_be_bytes([b[oc + 20 + 2 * (((x * 2 + y) * 2 + z) * 3 + c)], b[oc + 21 + 2 * (((x * 2 + y) * 2 + z) * 3 + c)]]) as f64 / 65535.0;
    let m: Vec<f64> = (0..12).map(|i| s15(b, om + 4 * i)).collect::<Result<_, _>>()?;
    let fwd = |rgb: [f64; 3]| -> [f64; 3] {
        let bias = 0.0037930732552754493f64;
        let o = [[0.3, 0.622, 0.078], [0.23, 0.692, 0.078], [0.24342268924547819, 0.20476744424496821, 0.5518098665095536]];
        let l: [f64; 3] = std::array::from_fn(|i| (o[i][0] * rgb[0] + o[i][1] * rgb[1] + o[i][2] * rgb[2] + bias).cbrt() - bias.cbrt());
        [(l[0] - l[1]) / 2.0, (l[0] + l[1]) / 2.0, l[2]]
    };
    // the scaled form: (x + off) * scale, b minus y
    let off = [0.015386134, 0.0, 0.27770459];
    let sc = [22.995788804, 1.183000077, 1.502141333];
    let srgb = mul(&adapt_d50((0.3127, 0.3290)), &rgb_to_xyz(prim_xy(&JxlPrimaries::SRGB), (0.3127, 0.3290)));
    for i in 0..125 {
        let rgb = [i % 5, i / 5 % 5, i / 25].map(|v| v as f64 / 4.0);
        let v = fwd(rgb);
        let s = [(v[0] + off[0]) * sc[0], (v[1] + off[1]) * sc[1], (v[2] - v[1] + off[2]) * sc[2]];
        let a: [f64; 3] = std::array::from_fn(|c| fa[c](s[c].clamp(0.0, 1.0)));
        let mut u = [0.0; 3];
        for k in 0..8 {
            let q = [k >> 2 & 1, k >> 1 & 1, k & 1];
            let w: f64 = (0..3).map(|c| if q[c] == 1 { a[c] } else { 1.0 - a[c] }).product();
            for c in 0..3 {
                u[c] += w * t(q[0], q[1], q[2], c);
            }
        }
        let u: [f64; 3] = std::array::from_fn(|c| fm[c](u[c]));
        // XYZ connection space values are coded over 1 + 32767/32768
        let x: [f64; 3] = std::array::from_fn(|c| fb[c](m[3 * c] * u[0] + m[3 * c + 1] * u[1] + m[3 * c + 2] * u[2] + m[9 + c]) * (1.0 + 32767.0 / 32768.0));
        near(&format!("xyb colour {rgb:?}"), &x, &mulv(&srgb, rgb), 3e-3)?;
    }
    noop(p)
}
fn random_encoding(r: &mut Rng, i: usize) -> JxlColorEncoding {
    let ris = || {
        [RenderingIntent::Perceptual, RenderingIntent::Relative, RenderingIntent::Saturation, RenderingIntent::Absolute]
    };
    // all combinations of named values first
    let named = |r: &mut Rng, k: usize| -> (JxlWhitePoint, JxlPrimaries, JxlTransferFunction, RenderingIntent) {
        let (w, p, t, ri) = (k % 4, k / 4 % 4, k / 16 % 7, k / 112 % 4);
        let mut j = |x: f32, y: f32, a: f64| (x + ((r.f64() - 0.5) * a) as f32, y + ((r.f64() - 0.5) * a) as f32);
        let wp = match w { 0 => JxlWhitePoint::D65, 1 => JxlWhitePoint::E, 2 => JxlWhitePoint::DCI, _ => { let (wx, wy) = j(0.33, 0.34, 0.1); JxlWhitePoint::Chromaticity { wx, wy } } };
        let pr = match p { 0 => JxlPrimaries::SRGB, 1 => JxlPrimaries::BT2100, 2 => JxlPrimaries::P3, _ => {
            let ((rx, ry), (gx, gy), (bx, by)) = (j(0.66, 0.31, 0.1), j(0.25, 0.7, 0.2), j(0.14, 0.05, 0.15));
            JxlPrimaries::Chromaticities { rx, ry, gx, gy, bx, by }
        } };
        let tf = match t { 0 => JxlTransferFunction::BT709, 1 => JxlTransferFunction::Linear, 2 => JxlTransferFunction::SRGB, 3 => JxlTransferFunction::PQ, 4 => JxlTransferFunction::DCI, 5 => JxlTransferFunction::HLG, _ => JxlTransferFunction::Gamma((0.05 + 0.95 * r.f64()) as f32) };
        (wp, pr, tf, ris()[ri])
    };
    if i == 0 {
        return JxlColorEncoding::XYB { rendering_intent: RenderingIntent::Perceptual };
    }
    let k = if i < 900 { i / 2 } else { r.below(448) };
    let (white_point, primaries, transfer_function, rendering_intent) = named(r, k);
    if i % 2 == 1 {
        JxlColorEncoding::GrayscaleColorSpace { white_point, transfer_function, rendering_intent }
    } else {
        JxlColorEncoding::RgbColorSpace { white_point, primaries, transfer_function, rendering_intent }
    }
}
fn synth(ctx: &Ctx, i: usize) {
    let mut r = Rng::derive(ctx.seed, "p20s", i as u64);
    let e = random_encoding(&mut r, i);
    let key = hash_str(&format!("{e:?}"));
    ctx.eval(Some(key));
    let p = match guarded(|| e.maybe_create_profile()) {
        Err(m) => return ctx.violation("synth panic", &format!("{e:?}: {m}"), &[]),
        Ok(Ok(Some(p))) => p,
        Ok(x) => return ctx.violation("synth none", &format!("{e:?}: no profile: {x:?}"), &[]),
    };
    ctx.count("profiles synthesised", 1);
    if let Err(m) = judge(&e, &p, ctx) {
        ctx.violation(&format!("synth {}", m.split(':').next().unwrap()), &format!("{e:?}: {m}"), &[("profile.icc", &p)]);
    }
    if i % 40 == 0 {
        ctx.sample(|| format!("{e:?}: {} bytes", p.len()));
    }
    // the profile of an encoding with linear transfer is that of the linear encoding
    let prof = JxlColorProfile::Simple(e.clone());
    if prof.try_as_icc().as_deref() != Some(&p) || *prof.as_icc() != p {
        ctx.violation("synth access", &format!("{e:?}: as_icc differs"), &[]);
    }
    let lin = e.with_linear_tf();
    let ok = match (&e, &lin) {
        (JxlColorEncoding::RgbColorSpace { white_point: a, primaries: b, rendering_intent: c, .. }, JxlColorEncoding::RgbColorSpace { white_point, primaries, rendering_intent, transfer_function }) => (a, b, c, &JxlTransferFunction::Linear) == (white_point, primaries, rendering_intent, transfer_function),
        (JxlColorEncoding::GrayscaleColorSpace { white_point: a, rendering_intent: c, .. }, JxlColorEncoding::GrayscaleColorSpace { white_point, rendering_intent, transfer_function }) => (a, c, &JxlTransferFunction::Linear) == (white_point, rendering_intent, transfer_function),
        (JxlColorEncoding::XYB { .. }, l) => matches!(l, JxlColorEncoding::RgbColorSpace { white_point: JxlWhitePoint::D65, primaries: JxlPrimaries::SRGB, transfer_function: JxlTransferFunction::Linear, .. }),
        _ => false,
    };
    if !ok {
        ctx.violation("synth linear", &format!("{e:?}: linear form {lin:?}"), &[]);
    }
}
#[derive(Default)]
struct Prof {
    emb: Option<JxlColorProfile>,
    out: Option<JxlColorProfile>,
}
impl Monitor for Prof {
    fn on_image_info(&mut self, d: &mut JxlDecoder<states::WithImageInfo>) {
        self.emb = Some(d.embedded_color_profile().clone());
        self.out = Some(d.output_color_profile().clone());
    }
}
fn embedded(ctx: &Ctx, i: usize) {
    let mut r = Rng::derive(ctx.seed, "p20e", i as u64);
    let mut img = ImageHdr::new(1 + r.below(4) as u32, 1 + r.below(4) as u32);
    if r.chance(1, 3) {
        img.color = Color::gray();
    }
    let icc = vh::enc::icc::random(&mut r);
    img.color.icc = Some(icc.clone());
    let mut data = vh::enc::frame::image_start(&mut r, &img);
    let head = data.len();
    let hd = FrameHdr::new(&img);
    let o = random_mod_opts(&mut r, &img, &Cfg { max_transforms: 0, ..Default::default() });
    if let Ok((b, _, _)) = vh::enc::frame::modular_frame(&mut r, &img, &hd, &Default::default(), &o) {
        data.extend(b);
    }
    let cut = r.chance(1, 4).then(|| r.below(head));
    let feed = match r.below(4) { 0 => Feed::OneShot, 1 => Feed::Fixed(1), 2 => Feed::Random(r.u64(), 40), _ => Feed::Random(r.u64(), data.len()) };
    let bytes = &data[..cut.unwrap_or(data.len())];
    let mut m = Prof::default();
    let req = Req { feed, ..Default::default() };
    let o = decode_mon(bytes, &req, &mut m);
    ctx.eval(Some(hash_bytes(bytes)));
    ctx.count("embedded profiles", 1);
    ctx.max("largest embedded profile", icc.len() as u64);
    let bad = match (&m.emb, cut) {
        (None, Some(_)) if matches!(o.end, End::NeedMore { .. }) => None,
        (Some(JxlColorProfile::Icc(b)), None) if *b == icc => {
            if !o.end.is_done() { Some(format!("end: {:?}", o.end)) }
            else if !matches!(&m.out, Some(JxlColorProfile::Icc(b)) if *b == icc) { Some("output: not the embedded profile".into()) }
            else { None }
        }
        (Some(JxlColorProfile::Icc(b)), None) => Some(format!("bytes: {} bytes instead of {}, first difference at {:?}", b.len(), icc.len(), b.iter().zip(&icc).position(|(x, y)| x != y))),
        (x, c) => Some(format!("outcome: {:?} with cut {c:?} of {head}, profile {}", o.end, x.is_some())),
    };
    if let Some(d) = bad {
        ctx.violation(&format!("embedded {}", d.split(':').next().unwrap()), &format!("case {i}: {d}"), &[("stream.jxl", bytes), ("profile.icc", &icc)]);
    }
}
pub fn p20(ctx: &Ctx) {
    ctx.rule("colour encoding, or generated stream with an embedded profile; parsed or compared in full");
    let n = ctx.n(12_000, 200_000);
    let m = ctx.n(3000, 60_000);
    let ids: Vec<usize> = (0..n + m).collect();
    ctx.par(&ids, |_, &i| {
        let _g = vh::watch::begin(&format!("icc {i}"));
        if i < m { synth(ctx, i) } else { embedded(ctx, i - m) }
    });
}
