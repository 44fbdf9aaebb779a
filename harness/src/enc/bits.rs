//! Bit-level writers of the codestream: plain bits, the u2S / u64 / f16 / string codes.
use crate::rng::Rng;

#[derive(Clone, Default, Debug)]
pub struct Bw {
    pub bytes: Vec<u8>,
    pub nbits: usize,
}
impl Bw {
    pub fn new() -> Bw {
        Bw::default()
    }
    pub fn put(&mut self, n: usize, v: u64) {
        assert!(n <= 64 && (n == 64 || v >> n == 0), "put({n}, {v})");
        for i in 0..n {
            if self.nbits % 8 == 0 {
                self.bytes.push(0);
            }
            if v >> i & 1 == 1 {
                *self.bytes.last_mut().unwrap() |= 1 << (self.nbits % 8);
            }
            self.nbits += 1;
        }
    }
    pub fn bit(&mut self, b: bool) {
        self.put(1, b as u64);
    }
    pub fn align(&mut self) {
        self.nbits = self.bytes.len() * 8;
    }
    pub fn append(&mut self, o: &Bw) {
        if self.nbits % 8 == 0 {
            self.bytes.extend_from_slice(&o.bytes);
            self.nbits += o.nbits;
            return;
        }
        for i in 0..o.nbits {
            self.put(1, (o.bytes[i / 8] >> (i % 8) & 1) as u64);
        }
    }
    /// one of four distributions; a random one of those that can express the value
    pub fn u2s(&mut self, r: &mut Rng, d: [D; 4], v: u32) {
        let ok: Vec<usize> = (0..4).filter(|&i| d[i].fits(v)).collect();
        assert!(!ok.is_empty(), "{v} cannot be coded");
        let c = *r.pick(&ok);
        self.put(2, c as u64);
        match d[c] {
            D::V(_) => {}
            D::B(n, off) => self.put(n, (v - off) as u64),
        }
    }
    /// the shortest of the four
    pub fn u2s_min(&mut self, d: [D; 4], v: u32) {
        let c = (0..4).filter(|&i| d[i].fits(v)).min_by_key(|&i| match d[i] {
            D::V(_) => 0,
            D::B(n, _) => n,
        });
        let c = c.expect("value cannot be coded");
        self.put(2, c as u64);
        if let D::B(n, off) = d[c] {
            self.put(n, (v - off) as u64);
        }
    }
    pub fn u64(&mut self, r: &mut Rng, v: u64) {
        if v == 0 && !r.chance(1, 8) {
            self.put(2, 0);
        } else if (1..=16).contains(&v) && !r.chance(1, 8) {
            self.put(2, 1);
            self.put(4, v - 1);
        } else if (17..=272).contains(&v) && !r.chance(1, 8) {
            self.put(2, 2);
            self.put(8, v - 17);
        } else {
            self.put(2, 3);
            self.put(12, v & 0xfff);
            let mut rest = v >> 12;
            let mut shift = 12;
            loop {
                if rest == 0 {
                    self.put(1, 0);
                    break;
                }
                self.put(1, 1);
                if shift == 60 {
                    self.put(4, rest & 15);
                    break;
                }
                self.put(8, rest & 0xff);
                rest >>= 8;
                shift += 8;
            }
        }
    }
    pub fn f16(&mut self, bits: u16) {
        self.put(16, bits as u64);
    }
    pub fn string(&mut self, r: &mut Rng, s: &[u8]) {
        self.u2s(r, [D::V(0), D::B(4, 0), D::B(5, 16), D::B(10, 48)], s.len() as u32);
        for &b in s {
            self.put(8, b as u64);
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub enum D {
    V(u32),
    B(usize, u32),
}
impl D {
    fn fits(self, v: u32) -> bool {
        match self {
            D::V(x) => x == v,
            D::B(n, off) => v >= off && (n >= 32 || (v - off) as u64 >> n == 0),
        }
    }
}
pub fn pack_signed(v: i64) -> u64 {
    if v >= 0 { (v as u64) << 1 } else { (((-v) as u64) << 1) - 1 }
}
/// The value of a half float.
pub fn half_value(b: u16) -> f64 {
    let s = if b >> 15 == 1 { -1.0 } else { 1.0 };
    let e = (b >> 10 & 31) as i32;
    let m = (b & 1023) as f64;
    s * if e == 0 { m * 2f64.powi(-24) } else { (1.0 + m / 1024.0) * 2f64.powi(e - 15) }
}
/// The half float nearest to a value (finite results only).
pub fn to_half(v: f64) -> u16 {
    let s = if v < 0.0 { 0x8000u16 } else { 0 };
    let a = v.abs();
    let (mut lo, mut hi) = (0u16, 0x7bffu16);
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        if half_value(m) <= a { lo = m } else { hi = m }
    }
    s | if (half_value(hi) - a).abs() < (a - half_value(lo)).abs() { hi } else { lo }
}
