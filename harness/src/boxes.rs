//! Container layouts: an independent (simple, whole-file) box parser and a box writer.
use crate::rng::Rng;

pub const SIG: [u8; 12] = [0, 0, 0, 0xC, b'J', b'X', b'L', b' ', 0xD, 0xA, 0x87, 0xA];

#[derive(Clone, Debug, PartialEq)]
pub enum SizeMode {
    B32,
    B64,
    Open,
}
#[derive(Clone, Debug)]
pub struct Bx {
    pub ty: [u8; 4],
    pub body: Vec<u8>,
    pub mode: SizeMode,
    /// for codestream boxes: range of the codestream held (position in the codestream)
    pub cs: Option<(usize, usize)>,
}
pub fn bx(ty: &[u8; 4], body: Vec<u8>, mode: SizeMode) -> Bx {
    Bx { ty: *ty, body, mode, cs: None }
}
pub fn ftyp(version: u32) -> Bx {
    let mut b = b"jxl ".to_vec();
    b.extend_from_slice(&version.to_be_bytes());
    b.extend_from_slice(b"jxl ");
    bx(b"ftyp", b, SizeMode::B32)
}
pub fn jxlp(idx: u32, last: bool, data: &[u8], mode: SizeMode) -> Bx {
    let mut b = (idx | if last { 1 << 31 } else { 0 }).to_be_bytes().to_vec();
    b.extend_from_slice(data);
    bx(b"jxlp", b, mode)
}
pub fn header_len(b: &Bx) -> usize {
    match b.mode {
        SizeMode::B64 => 16,
        _ => 8,
    }
}
/// Serialises; returns the file and the offset of each box.
pub fn write(boxes: &[Bx]) -> (Vec<u8>, Vec<usize>) {
    let mut o = SIG.to_vec();
    let mut offs = vec![];
    for b in boxes {
        offs.push(o.len());
        match b.mode {
            SizeMode::B32 => {
                o.extend_from_slice(&((b.body.len() + 8) as u32).to_be_bytes());
                o.extend_from_slice(&b.ty);
            }
            SizeMode::B64 => {
                o.extend_from_slice(&1u32.to_be_bytes());
                o.extend_from_slice(&b.ty);
                o.extend_from_slice(&((b.body.len() + 16) as u64).to_be_bytes());
            }
            SizeMode::Open => {
                o.extend_from_slice(&0u32.to_be_bytes());
                o.extend_from_slice(&b.ty);
            }
        }
        o.extend_from_slice(&b.body);
    }
    (o, offs)
}
/// The bare codestream of a well-formed file (None if the boxes are odd).
pub fn extract(data: &[u8]) -> Option<Vec<u8>> {
    if data.starts_with(&[0xff, 0x0a]) {
        return Some(data.to_vec());
    }
    if !data.starts_with(&SIG) {
        return None;
    }
    let mut p = 12;
    let mut parts: Vec<(u32, bool, Vec<u8>)> = vec![];
    let mut jxlc = None;
    while p + 8 <= data.len() {
        let mut len = u32::from_be_bytes(data[p..p + 4].try_into().unwrap()) as usize;
        let ty = &data[p + 4..p + 8];
        let mut h = 8;
        if len == 1 {
            len = u64::from_be_bytes(data.get(p + 8..p + 16)?.try_into().unwrap()) as usize;
            h = 16;
        } else if len == 0 {
            len = data.len() - p;
        }
        let end = p.checked_add(len)?;
        if len < h || end > data.len() {
            return None;
        }
        let body = &data[p + h..end];
        match ty {
            b"jxlc" => jxlc = Some(body.to_vec()),
            b"jxlp" => {
                let i = u32::from_be_bytes(body.get(..4)?.try_into().unwrap());
                parts.push((i & 0x7fffffff, i >> 31 == 1, body[4..].to_vec()));
            }
            _ => {}
        }
        p = end;
    }
    if let Some(c) = jxlc {
        return if parts.is_empty() { Some(c) } else { None };
    }
    parts.sort_by_key(|x| x.0);
    for (i, x) in parts.iter().enumerate() {
        if x.0 as usize != i {
            return None;
        }
    }
    if parts.is_empty() || !parts.last().unwrap().1 {
        return None;
    }
    Some(parts.into_iter().flat_map(|x| x.2).collect())
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub file: Vec<u8>,
    pub desc: String,
    /// expected file length as the decoder should report it if it stops at the end of the codestream
    pub end_of_codestream: usize,
    /// maps codestream position -> file position of that byte
    pub map: Vec<(usize, usize, usize)>, // (cs start, cs end, file pos of cs start)
    pub out_of_order: bool,
}
impl Layout {
    pub fn file_pos(&self, cs: usize) -> Option<usize> {
        self.map.iter().find(|m| m.0 <= cs && cs < m.1).map(|m| m.2 + cs - m.0)
    }
}
fn junk_box(r: &mut Rng) -> Bx {
    let tys: [&[u8; 4]; 6] = [b"Exif", b"xml ", b"free", b"jbrd", b"jumb", b"abcd"];
    let n = match r.below(4) {
        0 => 0,
        1 => r.below(10),
        2 => r.below(300),
        _ => r.below(3000),
    };
    let body: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
    bx(tys[r.below(6)], body, if r.chance(1, 4) { SizeMode::B64 } else { SizeMode::B32 })
}
fn mode(r: &mut Rng) -> SizeMode {
    if r.chance(1, 3) { SizeMode::B64 } else { SizeMode::B32 }
}
pub struct LayoutOpts {
    pub allow_ooo: bool,
    /// do not let an out-of-order box hold any of these codestream positions (frame starts)
    pub frame_starts: Vec<usize>,
    pub max_parts: usize,
    pub trailing: bool,
}
/// A random container layout of a codestream.
pub fn random_layout(cs: &[u8], r: &mut Rng, o: &LayoutOpts) -> Layout {
    let ooo = o.allow_ooo && r.chance(1, 2);
    let version = if ooo { 1 } else { r.below(2) as u32 };
    let mut boxes = vec![ftyp(version)];
    let junk = |boxes: &mut Vec<Bx>, r: &mut Rng| {
        while r.chance(1, 3) {
            boxes.push(junk_box(r));
        }
    };
    junk(&mut boxes, r);
    let mut desc = format!("v{version}");
    let mut out_of_order = false;
    let single = r.chance(1, 5) && !ooo;
    let mut cs_range: Vec<Option<(usize, usize)>> = vec![None; boxes.len()];
    if single {
        let m = if r.chance(1, 3) { SizeMode::Open } else { mode(r) };
        desc += &format!(" jxlc {m:?}");
        let open = m == SizeMode::Open;
        boxes.push(bx(b"jxlc", cs.to_vec(), m));
        cs_range.push(None);
        while cs_range.len() < boxes.len() {
            cs_range.insert(cs_range.len() - 1, None);
        }
        *cs_range.last_mut().unwrap() = Some((0, cs.len()));
        if !open && o.trailing {
            junk(&mut boxes, r);
        }
    } else {
        let k = 1 + r.below(o.max_parts.max(1));
        let mut cuts: Vec<usize> = (0..k - 1)
            .map(|_| match r.below(4) {
                0 => r.below(40.min(cs.len() + 1)),
                1 if !o.frame_starts.is_empty() => {
                    let f = *r.pick(&o.frame_starts);
                    (f + r.below(5)).saturating_sub(2).min(cs.len())
                }
                _ => r.below(cs.len() + 1),
            })
            .collect();
        cuts.push(0);
        cuts.push(cs.len());
        cuts.sort();
        let parts: Vec<(usize, usize)> = cuts.windows(2).map(|w| (w[0], w[1])).collect();
        let n = parts.len();
        // order of appearance
        let mut order: Vec<usize> = (0..n).collect();
        if ooo && n >= 2 {
            // swap neighbouring runs so that box i+1.. precede box i; boxes holding a frame start (other
            // than by continuation) stay usable as checkpoints only when nothing is buffered before them
            for _ in 0..1 + r.below(3) {
                let i = r.below(n - 1);
                let len = 1 + r.below((n - 1 - i).min(3));
                // move part i after the next `len`
                let later: Vec<usize> = (i..=i + len).collect();
                let ok = later.iter().all(|&p| {
                    let (a, b) = parts[p];
                    !o.frame_starts.iter().any(|&f| f >= a && f < b.max(a + 1))
                }) && order[i..=i + len] == later[..];
                if ok {
                    let x = order.remove(i);
                    order.insert(i + len, x);
                    out_of_order = true;
                }
            }
        }
        desc += &format!(" jxlp parts {:?} order {:?}", parts.iter().map(|p| p.1 - p.0).collect::<Vec<_>>(), order);
        for (pos, &p) in order.iter().enumerate() {
            junk(&mut boxes, r);
            let lastbox = pos == n - 1;
            let m = if lastbox && p == n - 1 && r.chance(1, 4) { SizeMode::Open } else { mode(r) };
            boxes.push(jxlp(p as u32, p == n - 1, &cs[parts[p].0..parts[p].1], m.clone()));
            while cs_range.len() < boxes.len() {
                cs_range.push(None);
            }
            *cs_range.last_mut().unwrap() = Some(parts[p]);
            if lastbox && m == SizeMode::Open {
                desc += " open";
                break;
            }
            if lastbox && o.trailing {
                junk(&mut boxes, r);
                if r.chance(1, 8) {
                    let mut j = junk_box(r);
                    j.mode = SizeMode::Open;
                    boxes.push(j);
                    desc += " openjunk";
                }
            }
        }
    }
    while cs_range.len() < boxes.len() {
        cs_range.push(None);
    }
    let (file, offs) = write(&boxes);
    let mut map = vec![];
    for (i, b) in boxes.iter().enumerate() {
        if let Some((a, e)) = cs_range[i] {
            let extra = if &b.ty == b"jxlp" { 4 } else { 0 };
            map.push((a, e, offs[i] + header_len(b) + extra));
        }
    }
    let last = map.iter().find(|m| m.1 == cs.len() && m.0 < m.1).copied().unwrap_or((0, 0, 0));
    Layout { end_of_codestream: last.2 + last.1 - last.0, file, desc, map, out_of_order }
}
