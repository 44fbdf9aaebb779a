//! ICC profiles as they are coded in the codestream: a byte string to commands and data, entropy coded.
use super::bits::*;
use super::entropy::*;
use crate::rng::Rng;

fn varint(o: &mut Vec<u8>, r: &mut Rng, mut v: u64) {
    loop {
        let b = (v & 127) as u8;
        v >>= 7;
        if v == 0 {
            if r.chance(1, 20) && o.len() < 4 {
                // an over-long coding
                o.push(b | 128);
                o.push(0);
            } else {
                o.push(b);
            }
            return;
        }
        o.push(b | 128);
    }
}
const TAGS: [&[u8; 4]; 17] = [
    b"cprt", b"wtpt", b"bkpt", b"rXYZ", b"gXYZ", b"bXYZ", b"kXYZ", b"rTRC", b"gTRC", b"bTRC", b"kTRC", b"chad", b"desc", b"chrm", b"dmnd", b"dmdd", b"lumi",
];
const TYPES: [&[u8; 4]; 8] = [b"XYZ ", b"desc", b"text", b"mluc", b"para", b"curv", b"sf32", b"gbd "];
fn twenty(t: &[u8]) -> bool {
    [&b"rXYZ"[..], b"gXYZ", b"bXYZ", b"kXYZ", b"wtpt", b"bkpt", b"lumi"].contains(&t)
}
/// The order in which a block of n bytes is transmitted as `w` interleaved planes.
fn planes(v: &[u8], w: usize) -> Vec<u8> {
    let mut o = vec![];
    for k in 0..w {
        o.extend(v.iter().skip(k).step_by(w));
    }
    o
}
fn predict_header(icc: &[u8], i: usize, size: u32) -> u8 {
    let mut h = [0u8; 128];
    h[..4].copy_from_slice(&size.to_be_bytes());
    h[8] = 4;
    h[12..16].copy_from_slice(b"mntr");
    h[16..20].copy_from_slice(b"RGB ");
    h[20..24].copy_from_slice(b"XYZ ");
    h[36..40].copy_from_slice(b"acsp");
    h[70] = 0xf6;
    h[71] = 0xd6;
    h[73] = 1;
    h[78] = 0xd3;
    h[79] = 0x2d;
    if i >= 8 {
        h[80..84].copy_from_slice(&icc[4..8]);
    }
    if i > 40 {
        match icc[40] {
            b'A' => h[41..44].copy_from_slice(b"PPL"),
            b'M' => h[41..44].copy_from_slice(b"SFT"),
            _ => {}
        }
    }
    if i > 41 && icc[40] == b'S' {
        match icc[41] {
            b'G' => h[42..44].copy_from_slice(b"I "),
            b'U' => h[42..44].copy_from_slice(b"NW"),
            _ => {}
        }
    }
    h[i]
}
fn be(v: &[u8]) -> u32 {
    v.iter().fold(0, |a, &b| a << 8 | b as u32)
}
pub fn to_stream(r: &mut Rng, icc: &[u8]) -> Vec<u8> {
    let mut cmd: Vec<u8> = vec![];
    let mut data: Vec<u8> = vec![];
    for i in 0..icc.len().min(128) {
        data.push(icc[i].wrapping_sub(predict_header(icc, i, icc.len() as u32)));
    }
    let mut pos = 128;
    if icc.len() > 128 {
        // tag list, if there is room for one and it can be expressed
        let n = if icc.len() >= 132 { be(&icc[128..132]) as usize } else { usize::MAX };
        let ok = n < 200
            && 132 + 12 * n <= icc.len()
            && (0..n).all(|i| {
                let t = &icc[132 + 12 * i..][..12];
                let (s, z) = (be(&t[4..8]) as u64, be(&t[8..12]) as u64);
                s + 3 * z <= icc.len() as u64
            });
        if ok && r.chance(9, 10) {
            varint(&mut cmd, r, n as u64 + 1);
            pos = 132;
            let (mut ps, mut pz) = (12 * n as u32 + 128, 0u32);
            let mut i = 0;
            let stop = if r.chance(1, 10) { r.below(n + 1) } else { n };
            while i < stop {
                let t = &icc[132 + 12 * i..];
                let (tag, s, z) = (&t[..4], be(&t[4..8]), be(&t[8..12]));
                let same = |k: usize, tag: &[u8], s: u32, z: u32| i + k < n && t[12 * k..12 * k + 4] == *tag && be(&t[12 * k + 4..12 * k + 8]) == s && be(&t[12 * k + 8..12 * k + 12]) == z;
                let mut k = 1;
                let code = if tag == b"rTRC" && same(1, b"gTRC", s, z) && same(2, b"bTRC", s, z) && r.chance(7, 8) {
                    k = 3;
                    2
                } else if tag == b"rXYZ" && same(1, b"gXYZ", s.wrapping_add(z), z) && same(2, b"bXYZ", s.wrapping_add(2 * z), z) && r.chance(7, 8) {
                    k = 3;
                    3
                } else if let Some(c) = TAGS.iter().position(|x| &x[..] == tag).filter(|_| r.chance(7, 8)) {
                    4 + c as u8
                } else {
                    1
                };
                if i + k > stop {
                    break;
                }
                let eo = s != ps.wrapping_add(pz) || r.chance(1, 10);
                let dz = if twenty(tag) { 20 } else { pz };
                let ez = z != dz || r.chance(1, 10);
                cmd.push(code | (eo as u8) << 6 | (ez as u8) << 7);
                if code == 1 {
                    data.extend_from_slice(tag);
                }
                if eo {
                    varint(&mut cmd, r, s as u64);
                }
                if ez {
                    varint(&mut cmd, r, z as u64);
                }
                (ps, pz) = (s, z);
                i += k;
            }
            pos += 12 * i;
            if pos < icc.len() || r.bool() {
                cmd.push(0);
            }
        } else {
            cmd.push(0);
        }
    }
    while pos < icc.len() {
        let rest = &icc[pos..];
        if rest.len() >= 20 && &rest[..4] == b"XYZ " && rest[4..8] == [0; 4] && r.chance(3, 4) {
            cmd.push(10);
            data.extend_from_slice(&rest[8..20]);
            pos += 20;
            continue;
        }
        if rest.len() >= 8 && rest[4..8] == [0; 4] && r.chance(3, 4) {
            if let Some(k) = TYPES.iter().position(|t| t[..] == rest[..4]) {
                cmd.push(16 + k as u8);
                pos += 8;
                continue;
            }
        }
        let big = if r.chance(1, 4) { rest.len() } else { 40 };
        let n = (1 + r.below(big)).min(rest.len());
        let v = &rest[..n];
        match r.below(4) {
            0 => {
                cmd.push(1);
                varint(&mut cmd, r, n as u64);
                data.extend_from_slice(v);
            }
            1 => {
                let w = [2usize, 4][r.below(2)];
                cmd.push(if w == 2 { 2 } else { 3 });
                varint(&mut cmd, r, n as u64);
                data.extend(planes(v, w));
            }
            _ => {
                let w = [1usize, 2, 4][r.below(3)];
                let order = r.below(3);
                let stride = if r.bool() { w } else { w + r.below(20) };
                if stride * 4 >= pos {
                    continue;
                }
                let explicit = stride != w || r.chance(1, 6);
                cmd.push(4);
                cmd.push(w as u8 - 1 | (order as u8) << 2 | (explicit as u8) << 4);
                if explicit {
                    varint(&mut cmd, r, stride as u64);
                }
                varint(&mut cmd, r, n as u64);
                let mut res = vec![];
                for i in 0..n {
                    // the sample of w bytes that this byte is part of, predicted from earlier ones
                    let p = pos + i / w * w;
                    let at = |k: usize| be(&icc[p - k * stride..][..w]) as i64;
                    let pred = match order {
                        0 => at(1),
                        1 => 2 * at(1) - at(2),
                        _ => 3 * at(1) - 3 * at(2) + at(3),
                    };
                    let b = (pred >> (8 * (w - 1 - i % w))) as u8;
                    res.push(v[i].wrapping_sub(b));
                }
                data.extend(planes(&res, w));
            }
        }
        pos += n;
    }
    let mut out = vec![];
    varint(&mut out, r, icc.len() as u64);
    varint(&mut out, r, cmd.len() as u64);
    out.extend(cmd);
    out.extend(data);
    out
}
pub fn context(i: usize, b1: u8, b2: u8) -> u32 {
    if i <= 128 {
        return 0;
    }
    let alpha = |b: u8| b.is_ascii_alphabetic();
    let digit = |b: u8| b.is_ascii_digit() || b == b'.' || b == b',';
    let p1 = if alpha(b1) {
        0
    } else if digit(b1) {
        1
    } else if b1 <= 1 {
        2 + b1 as u32
    } else if b1 > 1 && b1 < 16 {
        4
    } else if b1 > 240 && b1 < 255 {
        5
    } else if b1 == 255 {
        6
    } else {
        7
    };
    let p2 = if alpha(b2) {
        0
    } else if digit(b2) {
        1
    } else if b2 < 16 {
        2
    } else if b2 > 240 {
        3
    } else {
        4
    };
    1 + p1 + p2 * 8
}
pub fn write(b: &mut Bw, r: &mut Rng, icc: &[u8]) {
    let s = to_stream(r, icc);
    b.u64(r, s.len() as u64);
    let toks = (0..s.len())
        .map(|i| Tok { ctx: context(i, if i > 0 { s[i - 1] } else { 0 }, if i > 1 { s[i - 2] } else { 0 }), val: s[i] as u32 })
        .collect();
    let st = Stream { toks, mult: 0 };
    let c = Code::build(r, 41, std::slice::from_ref(&st), &Knobs::default());
    c.write_header(b, r);
    c.write_stream(b, 0);
}
/// A profile-like byte string.
pub fn random(r: &mut Rng) -> Vec<u8> {
    let size = match r.below(8) { 0 => 1 + r.below(140), 1 => 128 + r.below(8), 2 => 2000 + r.below(8000), _ => 132 + r.below(900) };
    let mut v: Vec<u8> = vec![];
    for i in 0..128 {
        let p = predict_header(&{ let mut t = v.clone(); t.resize(128, 0); t }, i, size as u32);
        v.push(if r.chance(1, 12) { r.u64() as u8 } else { p });
    }
    if r.bool() {
        let p = [&b"APPL"[..], b"MSFT", b"SGI ", b"SUNW", b"AAAA", b"SGxx", b"\0\0\0\0"][r.below(7)];
        v[40..44].copy_from_slice(p);
    }
    let n = r.below(20).min(size.saturating_sub(132) / 12);
    v.extend_from_slice(&(n as u32).to_be_bytes());
    let mut start = 12 * n as u32 + if r.bool() { 128 } else { 132 };
    let mut z = 0;
    let mut i = 0;
    while i < n {
        let mut e = |v: &mut Vec<u8>, t: &[u8], s: u32, z: u32| {
            v.extend_from_slice(t);
            v.extend_from_slice(&s.to_be_bytes());
            v.extend_from_slice(&z.to_be_bytes());
        };
        let s = if r.chance(3, 4) { start + z } else { r.below(size) as u32 };
        if r.chance(1, 4) && i + 3 <= n {
            if r.bool() {
                z = r.below(100) as u32;
                for t in [b"rTRC", b"gTRC", b"bTRC"] { e(&mut v, t, s, z); }
                start = s;
            } else {
                z = if r.bool() { 20 } else { r.below(30) as u32 };
                for (k, t) in [b"rXYZ", b"gXYZ", b"bXYZ"].into_iter().enumerate() { e(&mut v, t, s + k as u32 * z, z); }
                // the following tag is predicted from the first of the three
                start = s;
            }
            i += 3;
            continue;
        }
        let t: Vec<u8> = if r.chance(3, 4) { r.pick(&TAGS).to_vec() } else { (0..4).map(|_| r.u64() as u8).collect() };
        if r.chance(1, 2) { z = r.below(80) as u32 }
        if twenty(&t) && r.bool() { z = 20 }
        e(&mut v, &t, s, z);
        start = s;
        i += 1;
    }
    while v.len() < size {
        match r.below(5) {
            0 => {
                v.extend_from_slice(*r.pick(&TYPES));
                v.extend_from_slice(&[0; 4]);
                for _ in 0..r.below(13) { v.push(r.u64() as u8) }
            }
            1 => {
                let mut x = r.u64() as u32;
                let d = r.below(3000) as u32;
                for _ in 0..r.below(40) { v.extend_from_slice(&(x as u16).to_be_bytes()); x = x.wrapping_add(d) }
            }
            2 => { for _ in 0..r.below(30) { v.push(b"abcDEF, .0129\0"[r.below(14)]) } }
            3 => { let b = r.u64() as u8; for _ in 0..r.below(20) { v.push(b) } }
            _ => { for _ in 0..r.below(20) { v.push(r.u64() as u8) } }
        }
    }
    v.truncate(size);
    v
}
