//! P26: inverse transforms against their definition, vector operations against lane-by-lane definitions.
use jxl_simd::*;
use jxl_transforms::transform_map::HfTransformType;
use vh::refr::dct;
use vh::report::Ctx;
use vh::rng::{Rng, hash_bytes, mix};

fn special_f32(r: &mut Rng) -> f32 {
    match r.below(14) {
        0 => *r.pick(&[0.0f32, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE, f32::MAX, f32::MIN, 1e-45, -1e-45, f32::EPSILON]),
        1 => f32::from_bits(r.u32()),
        2 => *r.pick(&[0.5f32, 1.5, 2.5, -0.5, -1.5, 0.49999997, 254.5, 255.0, 65534.5, 8388607.5, 8388608.0, 16777216.0, 2147483520.0, -2147483648.0]),
        3 => r.range(-70000, 70000) as f32,
        4 => r.range(-70000, 70000) as f32 + 0.5,
        5 => f32::from_bits(r.u32() & 0x807f_ffff), // denormal
        6 => f32::from_bits((r.u32() & 0x807f_ffff) | ((0x66 + r.u32() % 0x30) << 23)),
        7 => (r.f64() * 256.0) as f32,
        8 => (r.f64() * 65536.0) as f32,
        _ => ((r.f64() - 0.5) * 10f64.powi(r.range(-8, 9) as i32)) as f32,
    }
}
fn special_i32(r: &mut Rng) -> i32 {
    match r.below(8) {
        0 => *r.pick(&[0, 1, -1, i32::MAX, i32::MIN, i32::MIN + 1, 255, 256, 65535, 65536, -65536, 1 << 24, (1 << 24) + 1]),
        1 | 2 => r.range(-300, 300) as i32,
        3 => 1i32.wrapping_shl(r.below(32) as u32).wrapping_add(r.range(-2, 2) as i32),
        4 => r.range(-70000, 70000) as i32,
        _ => r.u32() as i32,
    }
}
struct Bad(std::collections::BTreeMap<String, String>);
impl Bad {
    fn f(&mut self, op: &str, level: &str, lane: usize, ops: &[f32], got: f32, ok: impl Fn(f32) -> bool, want: &str) {
        if !ok(got) {
            self.0.entry(format!("{op} {level}")).or_insert_with(|| {
                format!("{op} at {level}, lane {lane}: operands {:?} ({:x?}) give {got} ({:x}), definition {want}", ops, ops.iter().map(|v| v.to_bits()).collect::<Vec<_>>(), got.to_bits())
            });
        }
    }
    fn i(&mut self, op: &str, level: &str, lane: usize, ops: &[i64], got: i64, want: i64) {
        if got != want {
            self.0.entry(format!("{op} {level}")).or_insert_with(|| format!("{op} at {level}, lane {lane}: operands {ops:?} give {got}, definition {want}"));
        }
    }
}
fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn half_of(f: f32) -> Option<u16> {
    // round to nearest, ties to even, by search over the definition of the format
    if f.is_nan() {
        return None;
    }
    let s = if f.is_sign_negative() { 0x8000 } else { 0 };
    let a = f.abs() as f64;
    if a >= 65520.0 {
        return Some(s | 0x7c00);
    }
    let e = if a < 2f64.powi(-14) { -14 } else { a.log2().floor() as i32 };
    let q = 2f64.powi(e - 10);
    let n = a / q; // exact
    let fl = n.floor();
    let up = n - fl > 0.5 || (n - fl == 0.5 && fl as u64 % 2 == 1);
    let m = fl as u32 + up as u32; // 0..=2048
    Some(s | (((e + 14) as u32 * 1024) + m) as u16)
}
fn half_val(b: u16) -> Option<f32> {
    let (e, m) = ((b >> 10) & 31, (b & 1023) as f64);
    if e == 31 && m != 0.0 {
        return None;
    }
    let v = if e == 31 { f64::INFINITY } else if e == 0 { m * 2f64.powi(-24) } else { (1024.0 + m) * 2f64.powi(e as i32 - 25) };
    Some((if b >> 15 == 1 { -v } else { v }) as f32)
}
fn mask_lanes<D: SimdDescriptor>(d: D, m: D::Mask) -> Vec<bool> {
    let n = D::I32Vec::LEN;
    let mut o = vec![0i32; n];
    m.if_then_else_i32(D::I32Vec::splat(d, -1), D::I32Vec::splat(d, 0)).store(&mut o);
    o.iter().map(|v| *v != 0).collect()
}
/// Buffers are filled with a pattern that must survive beyond the lanes written.
fn guarded<T: Copy + PartialEq + From<u8>>(n: usize, f: impl FnOnce(&mut [T])) -> (Vec<T>, bool) {
    let g = T::from(0x5a);
    let mut v = vec![g; n + 16];
    f(&mut v[8..8 + n]);
    let ok = v[..8].iter().chain(&v[8 + n..]).all(|x| *x == g);
    // and into a longer slice only the first n
    (v[8..8 + n].to_vec(), ok)
}
fn round_ok(v: f32, got: f64) -> bool {
    let f = (v as f64).floor();
    let fr = v as f64 - f;
    if fr == 0.5 { got == f || got == f + 1.0 } else { got == (v as f64 + 0.5).floor() }
}
#[inline(always)]
fn vec_ops<D: SimdDescriptor>(d: D, lv: &str, r: &mut Rng, bad: &mut Bad) -> u64 {
    let n = D::F32Vec::LEN;
    let mut ops = 0;
    let mk = |r: &mut Rng| -> Vec<f32> { (0..n).map(|_| special_f32(r)).collect() };
    let (a, b, c) = (mk(r), mk(r), mk(r));
    let (va, vb, vc) = (D::F32Vec::load(d, &a), D::F32Vec::load(d, &b), D::F32Vec::load(d, &c));
    let st = |v: D::F32Vec| {
        let mut o = vec![0f32; n];
        v.store(&mut o);
        o
    };
    macro_rules! exact {
        ($name:expr, $v:expr, |$i:ident| $def:expr) => {{
            let o = st($v);
            for $i in 0..n {
                let w: f32 = $def;
                bad.f($name, lv, $i, &[a[$i], b[$i], c[$i]], o[$i], |g| same(g, w), &format!("{w}"));
            }
            ops += 1;
        }};
    }
    exact!("load/store", va, |i| a[i]);
    exact!("splat", D::F32Vec::splat(d, a[0]), |i| {
        let _ = i;
        a[0]
    });
    exact!("zero", D::F32Vec::zero(d), |i| {
        let _ = i;
        0.0
    });
    exact!("add", va + vb, |i| a[i] + b[i]);
    exact!("sub", va - vb, |i| a[i] - b[i]);
    exact!("mul", va * vb, |i| a[i] * b[i]);
    exact!("div", va / vb, |i| a[i] / b[i]);
    exact!("add_assign", { let mut t = va; t += vb; t }, |i| a[i] + b[i]);
    exact!("sub_assign", { let mut t = va; t -= vb; t }, |i| a[i] - b[i]);
    exact!("mul_assign", { let mut t = va; t *= vb; t }, |i| a[i] * b[i]);
    exact!("div_assign", { let mut t = va; t /= vb; t }, |i| a[i] / b[i]);
    exact!("abs", va.abs(), |i| a[i].abs());
    exact!("floor", va.floor(), |i| a[i].floor());
    exact!("sqrt", va.sqrt(), |i| a[i].sqrt());
    exact!("neg", va.neg(), |i| -a[i]);
    exact!("copysign", va.copysign(vb), |i| a[i].copysign(b[i]));
    for (name, v, neg) in [("mul_add", va.mul_add(vb, vc), false), ("neg_mul_add", va.neg_mul_add(vb, vc), true)] {
        let o = st(v);
        for i in 0..n {
            let m = if neg { -a[i] } else { a[i] };
            let (w1, w2) = (m.mul_add(b[i], c[i]), m * b[i] + c[i]);
            bad.f(name, lv, i, &[a[i], b[i], c[i]], o[i], |g| same(g, w1) || same(g, w2), &format!("{w1} or {w2}"));
        }
        ops += 1;
    }
    for (name, v, mx) in [("max", va.max(vb), true), ("min", va.min(vb), false)] {
        let o = st(v);
        for i in 0..n {
            let (x, y) = (a[i], b[i]);
            let ok = |g: f32| {
                if x.is_nan() || y.is_nan() { same(g, x) || same(g, y) || g.is_nan() } else if mx { g == if x > y { x } else { y } } else { g == if x < y { x } else { y } }
            };
            bad.f(name, lv, i, &[x, y], o[i], ok, if mx { "the larger" } else { "the smaller" });
        }
        ops += 1;
    }
    let m = mask_lanes(d, va.gt(vb));
    for i in 0..n {
        bad.i("f32 gt", lv, i, &[a[i].to_bits() as i64, b[i].to_bits() as i64], m[i] as i64, (a[i] > b[i]) as i64);
    }
    // integers
    let ia: Vec<i32> = (0..n).map(|_| special_i32(r)).collect();
    let ib: Vec<i32> = (0..n).map(|i| if r.chance(1, 4) { ia[i] } else { special_i32(r) }).collect();
    let (wa, wb) = (D::I32Vec::load(d, &ia), D::I32Vec::load(d, &ib));
    let si = |v: D::I32Vec| {
        let mut o = vec![0i32; n];
        v.store(&mut o);
        o
    };
    macro_rules! int {
        ($name:expr, $v:expr, |$i:ident| $def:expr) => {{
            let o = si($v);
            for $i in 0..n {
                bad.i($name, lv, $i, &[ia[$i] as i64, ib[$i] as i64], o[$i] as i64, ($def) as i64);
            }
            ops += 1;
        }};
    }
    int!("i32 load/store", wa, |i| ia[i]);
    int!("i32 splat", D::I32Vec::splat(d, ia[0]), |i| {
        let _ = i;
        ia[0]
    });
    int!("i32 add", wa + wb, |i| ia[i].wrapping_add(ib[i]));
    int!("i32 sub", wa - wb, |i| ia[i].wrapping_sub(ib[i]));
    int!("i32 mul", wa * wb, |i| ia[i].wrapping_mul(ib[i]));
    int!("i32 and", wa & wb, |i| ia[i] & ib[i]);
    int!("i32 or", wa | wb, |i| ia[i] | ib[i]);
    int!("i32 xor", wa ^ wb, |i| ia[i] ^ ib[i]);
    int!("i32 neg", -wa, |i| ia[i].wrapping_neg());
    int!("i32 add_assign", { let mut t = wa; t += wb; t }, |i| ia[i].wrapping_add(ib[i]));
    int!("i32 sub_assign", { let mut t = wa; t -= wb; t }, |i| ia[i].wrapping_sub(ib[i]));
    int!("i32 mul_assign", { let mut t = wa; t *= wb; t }, |i| ia[i].wrapping_mul(ib[i]));
    int!("i32 and_assign", { let mut t = wa; t &= wb; t }, |i| ia[i] & ib[i]);
    int!("i32 or_assign", { let mut t = wa; t |= wb; t }, |i| ia[i] | ib[i]);
    int!("i32 xor_assign", { let mut t = wa; t ^= wb; t }, |i| ia[i] ^ ib[i]);
    {
        let ab: Vec<i32> = ia.iter().map(|v| (*v).max(-i32::MAX)).collect();
        int!("i32 abs", D::I32Vec::load(d, &ab).abs(), |i| ab[i].abs());
    }
    int!("i32 mul_wide_take_high", wa.mul_wide_take_high(wb), |i| (ia[i] as i64 * ib[i] as i64) >> 32);
    macro_rules! shifts { ($($k:literal)*) => { $(
        int!(concat!("i32 shl ", $k), shl!(wa, $k), |i| ia[i] << $k);
        int!(concat!("i32 shr ", $k), shr!(wa, $k), |i| ia[i] >> $k);
        int!(concat!("u32 shr ", $k), shr!(wa.bitcast_to_u32(), $k).bitcast_to_i32(), |i| ((ia[i] as u32) >> $k) as i32);
    )* } }
    shifts!(1 2 5 8 16 23 31);
    int!("bitcast", va.bitcast_to_i32(), |i| a[i].to_bits() as i32);
    {
        let o = si(wa.bitcast_to_f32().bitcast_to_i32());
        for i in 0..n {
            bad.i("bitcast_to_f32", lv, i, &[ia[i] as i64], o[i] as i64, ia[i] as i64);
        }
        let o = st(wa.as_f32());
        for i in 0..n {
            let w = ia[i] as f32;
            bad.f("as_f32", lv, i, &[], o[i], |g| same(g, w), &format!("{w} of {}", ia[i]));
        }
        let t: Vec<f32> = a.iter().map(|v| if v.is_nan() || v.abs() >= 2147483648.0 { 3.75 } else { *v }).collect();
        let o = si(D::F32Vec::load(d, &t).as_i32());
        for i in 0..n {
            bad.i("as_i32", lv, i, &[t[i].to_bits() as i64], o[i] as i64, t[i] as i32 as i64);
        }
        ops += 3;
    }
    // masks
    for (name, m, want) in [
        ("i32 gt", wa.gt(wb), (0..n).map(|i| ia[i] > ib[i]).collect::<Vec<_>>()),
        ("i32 eq", wa.eq(wb), (0..n).map(|i| ia[i] == ib[i]).collect()),
        ("i32 lt_zero", wa.lt_zero(), (0..n).map(|i| ia[i] < 0).collect()),
        ("i32 eq_zero", wa.eq_zero(), (0..n).map(|i| ia[i] == 0).collect()),
        ("mask and", wa.lt_zero() & wb.lt_zero(), (0..n).map(|i| ia[i] < 0 && ib[i] < 0).collect()),
        ("mask or", wa.lt_zero() | wb.lt_zero(), (0..n).map(|i| ia[i] < 0 || ib[i] < 0).collect()),
        ("mask andnot", wa.lt_zero().andnot(wb.lt_zero()), (0..n).map(|i| !(ia[i] < 0) && ib[i] < 0).collect()),
    ] {
        let g = mask_lanes(d, m);
        for i in 0..n {
            bad.i(name, lv, i, &[ia[i] as i64, ib[i] as i64], g[i] as i64, want[i] as i64);
        }
        bad.i(&format!("all of {name}"), lv, 0, &[], m.all() as i64, want.iter().all(|x| *x) as i64);
        let o = st(m.if_then_else_f32(va, vb));
        for i in 0..n {
            let w = if want[i] { a[i] } else { b[i] };
            bad.f("if_then_else_f32", lv, i, &[a[i], b[i]], o[i], |g| g.to_bits() == w.to_bits(), &format!("{w}"));
        }
        let (o, z) = (si(m.if_then_else_i32(wa, wb)), si(m.maskz_i32(wa)));
        for i in 0..n {
            bad.i("if_then_else_i32", lv, i, &[], o[i] as i64, if want[i] { ia[i] } else { ib[i] } as i64);
            bad.i("maskz_i32", lv, i, &[], z[i] as i64, if want[i] { 0 } else { ia[i] } as i64);
        }
        ops += 5;
    }
    {
        let e = D::I32Vec::load(d, &ia).eq(D::I32Vec::load(d, &ia));
        bad.i("all of equal", lv, 0, &[], e.all() as i64, 1);
        let mut one = ia.clone();
        let k = r.below(n);
        one[k] = one[k].wrapping_add(1);
        bad.i("all of all but one", lv, k, &[], wa.eq(D::I32Vec::load(d, &one)).all() as i64, 0);
        // all lanes equal to all lanes of the opposite
        ops += 2;
    }
    // stores that narrow
    {
        let (o, g) = guarded::<u16>(n, |s| wa.store_u16(s));
        for i in 0..n {
            bad.i("store_u16", lv, i, &[ia[i] as i64], o[i] as i64, ia[i] as u16 as i64);
        }
        bad.i("store_u16 outside", lv, 0, &[], g as i64, 1);
        let (o, g) = guarded::<u8>(n, |s| wa.store_u8(s));
        for i in 0..n {
            bad.i("store_u8", lv, i, &[ia[i] as i64], o[i] as i64, ia[i] as u8 as i64);
        }
        bad.i("store_u8 outside", lv, 0, &[], g as i64, 1);
        for (mx, wide) in [(255.0f32, false), (65535.0, true)] {
            let t: Vec<f32> = (0..n).map(|i| if a[i] >= 0.0 && a[i] <= mx { a[i] } else if r.bool() { r.below(mx as usize) as f32 + 0.5 } else { (r.f64() * mx as f64) as f32 }).collect();
            let v = D::F32Vec::load(d, &t);
            let (o, g): (Vec<u32>, bool) = if wide {
                let (o, g) = guarded::<u16>(n, |s| v.round_store_u16(s));
                (o.iter().map(|x| *x as u32).collect(), g)
            } else {
                let (o, g) = guarded::<u8>(n, |s| v.round_store_u8(s));
                (o.iter().map(|x| *x as u32).collect(), g)
            };
            let name = if wide { "round_store_u16" } else { "round_store_u8" };
            for i in 0..n {
                bad.f(name, lv, i, &[t[i]], o[i] as f32, |g| round_ok(t[i], g as f64), "the nearest integer");
            }
            bad.i(&format!("{name} outside"), lv, 0, &[], g as i64, 1);
        }
        ops += 4;
    }
    // half floats
    {
        let h: Vec<u16> = (0..n).map(|_| r.u32() as u16).collect();
        let o = st(D::F32Vec::load_f16_bits(d, &h));
        for i in 0..n {
            let w = half_val(h[i]);
            bad.f("load_f16_bits", lv, i, &[], o[i], |g| w.map_or(g.is_nan(), |w| same(g, w)), &format!("{w:?} of {:x}", h[i]));
        }
        let (o, g) = guarded::<u16>(n, |s| va.store_f16_bits(s));
        for i in 0..n {
            match half_of(a[i]) {
                Some(w) => bad.i("store_f16_bits", lv, i, &[a[i].to_bits() as i64], o[i] as i64, w as i64),
                None => bad.i("store_f16_bits of NaN", lv, i, &[a[i].to_bits() as i64], (o[i] & 0x7fff > 0x7c00) as i64, 1),
            }
        }
        bad.i("store_f16_bits outside", lv, 0, &[], g as i64, 1);
        ops += 2;
    }
    // table lookup
    {
        let t: [f32; 8] = std::array::from_fn(|_| ((r.f64() - 0.3) * 10f64.powi(r.range(-4, 4) as i32)) as f32);
        let idx: Vec<i32> = (0..n).map(|_| r.below(8) as i32).collect();
        let o = st(D::F32Vec::table_lookup_bf16_8(d, D::F32Vec::prepare_table_bf16_8(d, &t), D::I32Vec::load(d, &idx)));
        for i in 0..n {
            let w = t[idx[i] as usize];
            bad.f("table_lookup_bf16_8", lv, i, &[], o[i], |g| (g - w).abs() <= w.abs() / 128.0, &format!("{w} to 8 bits"));
        }
        ops += 1;
    }
    // interleaved accesses and transposition move bits
    let bits = |r: &mut Rng, k: usize| -> Vec<f32> { (0..k).map(|_| f32::from_bits(r.u32() & 0xff7f_ffff)).collect() };
    let planes: Vec<Vec<f32>> = (0..8).map(|_| bits(r, n)).collect();
    let p = |i: usize| D::F32Vec::load(d, &planes[i]);
    for k in [2usize, 3, 4, 8] {
        let (o, g) = guarded_f32(n * k, |s| match k {
            2 => D::F32Vec::store_interleaved_2(p(0), p(1), s),
            3 => D::F32Vec::store_interleaved_3(p(0), p(1), p(2), s),
            4 => D::F32Vec::store_interleaved_4(p(0), p(1), p(2), p(3), s),
            _ => D::F32Vec::store_interleaved_8(p(0), p(1), p(2), p(3), p(4), p(5), p(6), p(7), s),
        });
        for i in 0..n * k {
            bad.i(&format!("f32 store_interleaved_{k}"), lv, i, &[], o[i].to_bits() as i64, planes[i % k][i / k].to_bits() as i64);
        }
        bad.i(&format!("f32 store_interleaved_{k} outside"), lv, 0, &[], g as i64, 1);
        if k < 8 {
            let src = bits(r, n * k);
            let got: Vec<Vec<f32>> = match k {
                2 => {
                    let (x, y) = D::F32Vec::load_deinterleaved_2(d, &src);
                    vec![st(x), st(y)]
                }
                3 => {
                    let (x, y, z) = D::F32Vec::load_deinterleaved_3(d, &src);
                    vec![st(x), st(y), st(z)]
                }
                _ => {
                    let (x, y, z, w) = D::F32Vec::load_deinterleaved_4(d, &src);
                    vec![st(x), st(y), st(z), st(w)]
                }
            };
            for i in 0..n * k {
                bad.i(&format!("load_deinterleaved_{k}"), lv, i, &[], got[i % k][i / k].to_bits() as i64, src[i].to_bits() as i64);
            }
        }
        ops += 2;
    }
    {
        let mut o = vec![0i32; 2 * n];
        D::I32Vec::store_interleaved_2(wa, wb, &mut o);
        for i in 0..2 * n {
            bad.i("i32 store_interleaved_2", lv, i, &[], o[i] as i64, if i % 2 == 0 { ia[i / 2] } else { ib[i / 2] } as i64);
        }
        let stride = 1 + r.below(3);
        let rows = stride * (n - 1) + 1;
        let src = bits(r, rows * n);
        let mut t = src.clone();
        D::F32Vec::transpose_square(d, D::F32Vec::make_array_slice_mut(&mut t), stride);
        for y in 0..rows {
            for x in 0..n {
                let w = if y % stride == 0 { src[x * stride * n + y / stride] } else { src[y * n + x] };
                bad.i("transpose_square", lv, x, &[stride as i64, y as i64], t[y * n + x].to_bits() as i64, w.to_bits() as i64);
            }
        }
        ops += 2;
    }
    {
        let n8 = D::U8Vec::LEN;
        let pl: Vec<Vec<u8>> = (0..4).map(|_| (0..n8).map(|_| r.u32() as u8).collect()).collect();
        let q = |i: usize| D::U8Vec::load(d, &pl[i]);
        for k in 1..=4usize {
            let (o, g) = guarded::<u8>(n8 * k, |s| match k {
                1 => q(0).store(s),
                2 => D::U8Vec::store_interleaved_2(q(0), q(1), s),
                3 => D::U8Vec::store_interleaved_3(q(0), q(1), q(2), s),
                _ => D::U8Vec::store_interleaved_4(q(0), q(1), q(2), q(3), s),
            });
            for i in 0..n8 * k {
                bad.i(&format!("u8 store_interleaved_{k}"), lv, i, &[], o[i] as i64, pl[i % k][i / k] as i64);
            }
            bad.i(&format!("u8 store_interleaved_{k} outside"), lv, 0, &[], g as i64, 1);
        }
        let (o, _) = guarded::<u8>(n8, |s| D::U8Vec::splat(d, pl[0][0]).store(s));
        bad.i("u8 splat", lv, 0, &[], o.iter().all(|v| *v == pl[0][0]) as i64, 1);
        let n16 = D::U16Vec::LEN;
        let pl: Vec<Vec<u16>> = (0..4).map(|_| (0..n16).map(|_| r.u32() as u16).collect()).collect();
        let q = |i: usize| D::U16Vec::load(d, &pl[i]);
        for k in 1..=4usize {
            let (o, g) = guarded::<u16>(n16 * k, |s| match k {
                1 => q(0).store(s),
                2 => D::U16Vec::store_interleaved_2(q(0), q(1), s),
                3 => D::U16Vec::store_interleaved_3(q(0), q(1), q(2), s),
                _ => D::U16Vec::store_interleaved_4(q(0), q(1), q(2), q(3), s),
            });
            for i in 0..n16 * k {
                bad.i(&format!("u16 store_interleaved_{k}"), lv, i, &[], o[i] as i64, pl[i % k][i / k] as i64);
            }
            bad.i(&format!("u16 store_interleaved_{k} outside"), lv, 0, &[], g as i64, 1);
        }
        let (o, _) = guarded::<u16>(n16, |s| D::U16Vec::splat(d, pl[0][0]).store(s));
        bad.i("u16 splat", lv, 0, &[], o.iter().all(|v| *v == pl[0][0]) as i64, 1);
        ops += 10;
    }
    // the approximations the stages are built of
    {
        use jxl::util::*;
        let x: Vec<f32> = (0..n).map(|_| ((r.f64() - 0.5) * 10f64.powi(r.range(-3, 2) as i32)) as f32).collect();
        let v = D::F32Vec::load(d, &x);
        let o = st(fast_erff_simd(d, v));
        for i in 0..n {
            let w = erf(x[i] as f64);
            bad.f("fast_erff_simd", lv, i, &[x[i]], o[i], |g| (g as f64 - w).abs() < 7e-4, &format!("{w}"));
        }
        let x: Vec<f32> = (0..n).map(|_| ((r.f64() - 0.5) * 240.0) as f32).collect();
        let o = st(fast_pow2f_simd(d, D::F32Vec::load(d, &x)));
        for i in 0..n {
            let w = (x[i] as f64).exp2();
            bad.f("fast_pow2f_simd", lv, i, &[x[i]], o[i], |g| (g as f64 - w).abs() < 2e-6 * w, &format!("{w}"));
        }
        let x: Vec<f32> = (0..n).map(|_| (r.f64() * 200.0 - 100.0).exp2() as f32).collect();
        let o = st(fast_log2f_simd(d, D::F32Vec::load(d, &x)));
        for i in 0..n {
            let w = (x[i] as f64).log2();
            bad.f("fast_log2f_simd", lv, i, &[x[i]], o[i], |g| (g as f64 - w).abs() < 4e-6 + 2e-7 * w.abs(), &format!("{w}"));
        }
        let e = (r.f64() * 6.0 - 3.0) as f32;
        let x: Vec<f32> = (0..n).map(|_| (r.f64() * 20.0 - 10.0).exp2() as f32).collect();
        let o = st(fast_powf_simd(d, D::F32Vec::load(d, &x), D::F32Vec::splat(d, e)));
        for i in 0..n {
            let w = (x[i] as f64).powf(e as f64);
            bad.f("fast_powf_simd", lv, i, &[x[i], e], o[i], |g| (g as f64 - w).abs() < 3e-5 * w, &format!("{w}"));
        }
        ops += 4;
    }
    ops
}
fn erf(x: f64) -> f64 {
    // series / continued fraction to double precision
    let a = x.abs();
    let v = if a < 3.0 {
        let (mut t, mut s, mut n) = (a, a, 0.0);
        while t.abs() > 1e-17 * s.abs().max(1e-300) {
            n += 1.0;
            t *= -a * a / n;
            s += t / (2.0 * n + 1.0);
            if n > 200.0 {
                break;
            }
        }
        s * 2.0 / std::f64::consts::PI.sqrt()
    } else {
        let mut f = 0.0;
        for k in (1..60).rev() {
            f = k as f64 / 2.0 / (a + f);
        }
        1.0 - (-a * a).exp() / ((a + f) * std::f64::consts::PI.sqrt())
    };
    v.copysign(x)
}
fn guarded_f32(n: usize, f: impl FnOnce(&mut [f32])) -> (Vec<f32>, bool) {
    let g = 12345.678f32;
    let mut v = vec![g; n + 32];
    f(&mut v[16..16 + n]);
    let ok = v[..16].iter().chain(&v[16 + n..]).all(|x| *x == g);
    (v[16..16 + n].to_vec(), ok)
}
fn run_ops<D: SimdDescriptor>(ctx: &Ctx, name: &str, cases: usize) {
    let Some(d) = D::new() else {
        ctx.note(format!("{name} is not available on this machine"));
        return;
    };
    let ids: Vec<usize> = (0..64).collect();
    ctx.par(&ids, |_, &b| {
        let mut bad = Bad(Default::default());
        let mut r = Rng::derive(ctx.seed, name, b as u64);
        let mut ops = 0;
        for _ in 0..cases / 64 {
            ops += d.call(|d| vec_ops(d, name, &mut r, &mut bad));
        }
        ctx.eval(Some(mix(r.u64())));
        ctx.count(&format!("vector operations checked ({name})"), ops);
        for (k, m) in bad.0 {
            ctx.violation(&format!("op {k}"), &m, &[]);
        }
    });
}
fn level_name(l: u8) -> &'static str {
    ["scalar", "SSE4.2", "AVX2", "AVX-512"][l as usize]
}
/// A block of coefficients of some kind; lf in raster order.
fn coefs(r: &mut Rng, ty: usize, case: usize) -> (Vec<f32>, Vec<f32>, String, usize) {
    let (by, bx) = dct::BLOCKS[ty];
    let n = by * bx * 64;
    let mut lf = vec![0f32; by * bx];
    let mut c = vec![0f32; n];
    let amp = 10f64.powi(r.range(-3, 3) as i32);
    let rnd = |r: &mut Rng| ((r.f64() * 2.0 - 1.0) * amp) as f32;
    let kind = if n <= 256 && case < n { 0 } else { 1 + r.below(5) };
    let what;
    match kind {
        0 => {
            // each coefficient of the small transforms alone
            c[case] = amp as f32;
            what = format!("coefficient {case} alone");
        }
        1 => {
            let k = r.below(n);
            c[k] = rnd(r);
            what = format!("coefficient {k} alone");
        }
        2 => {
            let k = r.below(by * bx);
            lf[k] = rnd(r);
            what = format!("lf {k} alone");
        }
        3 => {
            lf.iter_mut().chain(c.iter_mut()).for_each(|v| *v = rnd(r));
            what = "all random".into();
        }
        4 => {
            // what encoders produce: sparse, decaying
            lf.iter_mut().for_each(|v| *v = rnd(r));
            for _ in 0..1 + r.below(n / 4) {
                let k = (r.f64() * r.f64() * n as f64) as usize;
                c[k] = rnd(r) / (1 + k / 8) as f32;
            }
            what = "sparse".into();
        }
        _ => {
            // one magnitude, all signs the same, or alternating
            let f = r.bool();
            lf.iter_mut().for_each(|v| *v = amp as f32);
            c.iter_mut().enumerate().for_each(|(i, v)| *v = if f && i % 2 == 1 { -amp as f32 } else { amp as f32 });
            what = "equal magnitudes".into();
        }
    }
    (lf, c, what, kind)
}
fn transforms(ctx: &Ctx) {
    // per sample, relative to the root of the sum of the squares of what goes in
    for level in [0u8, 1, 2, 3] {
        jxl_simd::verif::set_max_level(level);
        let mut items = vec![];
        for ty in 0..27 {
            let (by, bx) = dct::BLOCKS[ty];
            let n = by * bx * 64;
            let k = ctx.n(if n <= 256 { n + 1000 } else { (3_000_000 / n).max(30) }, if n <= 256 { n + 20_000 } else { 60_000_000 / n });
            for b in 0..k.div_ceil(16) {
                items.push((ty, b * 16, (b * 16 + 16).min(k)));
            }
        }
        // the large ones first
        items.sort_by_key(|i| std::cmp::Reverse(dct::BLOCKS[i.0].0 * dct::BLOCKS[i.0].1));
        ctx.par(&items, |_, &(ty, lo, hi)| {
            let (by, bx) = dct::BLOCKS[ty];
            let n = by * bx * 64;
            let t = HfTransformType::from_usize(ty).unwrap();
            let name = dct::NAMES[ty];
            if jxl_transforms::transform_map::covered_blocks_y(t) as usize != by || jxl_transforms::transform_map::covered_blocks_x(t) as usize != bx {
                ctx.violation(&format!("size {name}"), &format!("{name} covers {by}x{bx} blocks"), &[]);
                return;
            }
            let mut worst = 0.0f64;
            let mut changed = 0;
            for case in lo..hi {
                // the same cases at every level
                let mut r = Rng::derive(ctx.seed, name, case as u64);
                let (lf, mut c, what, kind) = coefs(&mut r, ty, case);
                // what is in the places of the LF coefficients must not matter
                let mut st: Vec<f64> = c.iter().map(|v| *v as f64).collect();
                let lf64: Vec<f64> = lf.iter().map(|v| *v as f64).collect();
                dct::put_lf(ty, &lf64, &mut st);
                let want = dct::inverse(ty, &st);
                let mut l = lf.clone();
                jxl_transforms::transform::transform_to_pixels(t, &mut l, &mut c);
                let norm = st.iter().map(|v| v * v).sum::<f64>().sqrt();
                let bound = 1e-30 + norm * limit(ty, kind);
                changed += 1;
                for k in 0..n {
                    let d = (c[k] as f64 - want[k]).abs();
                    worst = worst.max(d / (norm + 1e-30));
                    if !(d <= bound) {
                        let mut f = Vec::new();
                        for v in lf.iter() {
                            f.extend_from_slice(&v.to_le_bytes());
                        }
                        ctx.violation(
                            &format!("transform {name} {}", level_name(level)),
                            &format!("{name} at {}, {what}: sample ({}, {}) is {}, by definition {} (allowed {bound:e}, norm {norm})", level_name(level), k % (bx * 8), k / (bx * 8), c[k], want[k]),
                            &[("lf", &f)],
                        );
                        break;
                    }
                }
                ctx.eval(Some(hash_bytes(format!("{ty} {case} {level}").as_bytes())));
            }
            ctx.count(&format!("{name} blocks compared"), changed);
            ctx.max(&format!("{name} worst error (1e-9 of norm)"), (worst * 1e9) as u64);
        });
    }
    jxl_simd::verif::set_max_level(3);
}
/// The fast algorithms amplify rounding errors with the size, most where everything adds up in a corner;
/// the constants that relate LF and lowest frequencies have six decimals. Three times the worst seen in long runs.
fn limit(ty: usize, kind: usize) -> f64 {
    let (by, bx) = dct::BLOCKS[ty];
    by.max(bx) as f64 * [3e-6, 3e-6, 2e-5, 1e-5, 1e-5, 6e-5][kind]
}
fn halves(ctx: &Ctx) {
    // exhaustive in the half, and every boundary between halves from the single side
    let mut n = 0;
    for b in 0..=u16::MAX {
        let h = f16::from_bits(b);
        let w = half_val(b);
        let g = h.to_f32();
        if !w.map_or(g.is_nan(), |w| same(g, w)) {
            ctx.violation("f16 to_f32", &format!("half {b:04x} reads as {g}, is {w:?}"), &[]);
        }
        if h.is_finite() != (b & 0x7c00 != 0x7c00) {
            ctx.violation("f16 is_finite", &format!("half {b:04x}"), &[]);
        }
        if let Some(w) = w.filter(|w| w.is_finite()) {
            let next = half_val(b + 1).filter(|v| v.is_finite()).unwrap_or(65536f32.copysign(w));
            let mid = ((w as f64 + next as f64) / 2.0) as f32;
            for bits in [w.to_bits(), w.to_bits() + 1, w.to_bits().wrapping_sub(1), mid.to_bits(), mid.to_bits() + 1, mid.to_bits().wrapping_sub(1)] {
                let f = f32::from_bits(bits);
                if let Some(e) = half_of(f) {
                    let g = f16::from_f32(f).to_bits();
                    if g != e {
                        ctx.violation("f16 from_f32", &format!("{f:e} rounds to half {g:04x}, nearest is {e:04x}"), &[]);
                    }
                    n += 1;
                }
            }
        }
    }
    ctx.eval(Some(1));
    ctx.count("half conversions checked", n + 65536);
}
pub fn p26(ctx: &Ctx) {
    ctx.rule("a transform type, SIMD level and block of coefficients, or a batch of vector operations on random and special operands; compared with the definition");
    halves(ctx);
    let k = ctx.n(60_000, 4_000_000);
    run_ops::<ScalarDescriptor>(ctx, "scalar", k);
    run_ops::<Sse42Descriptor>(ctx, "SSE4.2", k);
    run_ops::<AvxDescriptor>(ctx, "AVX2", k);
    run_ops::<Avx512Descriptor>(ctx, "AVX-512", k);
    run_ops::<<Avx512Descriptor as SimdDescriptor>::Descriptor256>(ctx, "AVX-512 limited to 256", k);
    run_ops::<<Avx512Descriptor as SimdDescriptor>::Descriptor128>(ctx, "AVX-512 limited to 128", k);
    run_ops::<<AvxDescriptor as SimdDescriptor>::Descriptor128>(ctx, "AVX2 limited to 128", k);
    transforms(ctx);
}
