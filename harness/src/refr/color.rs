//! Colour conversion by definition, in double precision.
use super::num::*;
use crate::enc::bits::half_value;
use crate::enc::hdr::*;

pub type M3 = [[f64; 3]; 3];
pub fn mul(a: &M3, b: &M3) -> M3 {
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    o
}
pub fn app(a: &M3, v: [f64; 3]) -> [f64; 3] {
    [0, 1, 2].map(|i| (0..3).map(|j| a[i][j] * v[j]).sum())
}
pub fn inv(m: &M3) -> Option<M3> {
    let c = |i: usize, j: usize| {
        let (a, b) = ((i + 1) % 3, (i + 2) % 3);
        let (p, q) = ((j + 1) % 3, (j + 2) % 3);
        m[a][p] * m[b][q] - m[a][q] * m[b][p]
    };
    let det: f64 = (0..3).map(|j| m[0][j] * c(0, j)).sum();
    if det.abs() < 1e-12 {
        return None;
    }
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[j][i] = c(i, j) / det;
        }
    }
    Some(o)
}
pub fn white_xyz(w: (f64, f64)) -> [f64; 3] {
    [w.0 / w.1, 1.0, (1.0 - w.0 - w.1) / w.1]
}
pub fn rgb_to_xyz(p: [(f64, f64); 3], w: (f64, f64)) -> Option<M3> {
    let mut m = [[0.0; 3]; 3];
    for (j, c) in p.iter().enumerate() {
        m[0][j] = c.0;
        m[1][j] = c.1;
        m[2][j] = 1.0 - c.0 - c.1;
    }
    let s = app(&inv(&m)?, white_xyz(w));
    for r in &mut m {
        for j in 0..3 {
            r[j] *= s[j];
        }
    }
    Some(m)
}
pub fn adapt_d50(w: (f64, f64)) -> Option<M3> {
    const B: M3 = [[0.8951, 0.2664, -0.1614], [-0.7502, 1.7135, 0.0367], [0.0389, -0.0685, 1.0296]];
    let d50 = [0.96422, 1.0, 0.82521];
    let (a, b) = (app(&B, white_xyz(w)), app(&B, d50));
    let mut d = [[0.0; 3]; 3];
    for i in 0..3 {
        d[i][i] = b[i] / a[i];
    }
    Some(mul(&inv(&B)?, &mul(&d, &B)))
}
pub fn white_of(c: &Color) -> (f64, f64) {
    match c.white {
        1 => (0.3127, 0.3290),
        10 => (1.0 / 3.0, 1.0 / 3.0),
        11 => (0.314, 0.351),
        _ => (c.white_xy.0 as f64 * 1e-6, c.white_xy.1 as f64 * 1e-6),
    }
}
pub fn prims_of(c: &Color) -> [(f64, f64); 3] {
    match c.prim {
        1 => [(0.639998686, 0.330010138), (0.300003784, 0.600003357), (0.150002046, 0.059997204)],
        9 => [(0.708, 0.292), (0.170, 0.797), (0.131, 0.046)],
        11 => [(0.680, 0.320), (0.265, 0.690), (0.150, 0.060)],
        _ => c.prim_xy.map(|p| (p.0 as f64 * 1e-6, p.1 as f64 * 1e-6)),
    }
}
pub const OPSIN: M3 = [
    [11.031566901960783, -9.866943921568629, -0.16462299647058826],
    [-3.254147380392157, 4.418770392156863, -0.16462299647058826],
    [-3.6588512862745097, 2.7129230470588235, 1.9459282392156863],
];
pub const BIAS: f64 = -0.0037930732552754493;
#[derive(Clone, Debug)]
pub struct Xyb {
    pub mat: M3,
    pub bias: [f64; 3],
    pub target: f64,
    pub lum: [f64; 3],
}
pub const LUM: [f64; 3] = [0.2126, 0.7152, 0.0722];
pub fn xyb_params(img: &ImageHdr) -> Option<Xyb> {
    let (mut mat, bias) = match &img.custom.opsin {
        None => (OPSIN, [BIAS; 3]),
        Some(o) => {
            let v: Vec<f64> = o.iter().map(|&b| half_value(b)).collect();
            ([[v[0], v[1], v[2]], [v[3], v[4], v[5]], [v[6], v[7], v[8]]], [v[9], v[10], v[11]])
        }
    };
    let mut lum = LUM;
    let c = &img.color;
    if c.icc.is_none() {
        if c.space == 1 {
            mat = mul(&[LUM; 3], &mat);
        } else if c.prim != 1 || c.white != 1 {
            let s = Color::srgb();
            let from = mul(&adapt_d50(white_of(&s))?, &rgb_to_xyz(prims_of(&s), white_of(&s))?);
            let xyz = rgb_to_xyz(prims_of(c), white_of(c))?;
            lum = xyz[1];
            let to = mul(&adapt_d50(white_of(c))?, &xyz);
            mat = mul(&mul(&inv(&to)?, &from), &mat);
        }
    }
    Some(Xyb { mat, bias, target: half_value(img.tone.target), lum })
}
pub fn xyb_to_linear(p: &Xyb, x: V, y: V, b: V) -> [V; 3] {
    let sc = 255.0 / p.target;
    let g = [y + x, y - x, b];
    let l = [0, 1, 2].map(|i| {
        let t = g[i] - k(p.bias[i].cbrt());
        (t * t * t + k(p.bias[i])) * k(sc)
    });
    [0, 1, 2].map(|i| l[0] * k(p.mat[i][0]) + l[1] * k(p.mat[i][1]) + l[2] * k(p.mat[i][2]))
}
/// Encoded value of a linear one, for all but HLG (whose first step mixes the channels).
pub fn encode(tf: &Tf, target: f64, x: f64) -> f64 {
    let a = x.abs();
    let y = match tf {
        Tf::Gamma(g) => a.powf(*g as f64 * 1e-7),
        Tf::Code(TF_709) => if a < 0.018 { 4.5 * a } else { 1.099 * a.powf(0.45) - 0.099 },
        Tf::Code(TF_LINEAR) => a,
        Tf::Code(TF_SRGB) => if a <= 0.0031308 { 12.92 * a } else { 1.055 * a.powf(1.0 / 2.4) - 0.055 },
        Tf::Code(TF_DCI) => a.powf(1.0 / 2.6),
        Tf::Code(TF_PQ) => {
            let xp = (a * target / 10000.0).powf(2610.0 / 16384.0);
            ((0.8359375 + 18.8515625 * xp) / (1.0 + 18.6875 * xp)).powf(2523.0 / 32.0)
        }
        Tf::Code(TF_HLG) => {
            let (ha, hc) = (0.17883277, 0.5599107295);
            let hb = 1.0 - 4.0 * ha;
            if a <= 1.0 / 12.0 { (3.0 * a).sqrt() } else { ha * (12.0 * a - hb).ln() + hc }
        }
        _ => f64::NAN,
    };
    y.copysign(x)
}
/// Allowed error of the encoded value (the approximations the format's decoders use).
pub fn tf_tol(tf: &Tf) -> (f64, f64) {
    match tf {
        Tf::Code(TF_LINEAR) => (0.0, 0.0),
        Tf::Code(TF_PQ) => (2e-5, 2e-5),
        Tf::Code(TF_HLG) => (2e-5, 2e-5),
        _ => (2e-5, 4e-6),
    }
}
/// HLG: display-referred to scene-referred.
pub fn hlg_exp(target: f64) -> f64 {
    let g = 1.2 * 1.111f64.powf((target / 1000.0).log2());
    (1.0 - g) / g
}
pub fn from_linear(tf: &Tf, p: &Xyb, mut v: [V; 3]) -> [V; 3] {
    let (rel, abs) = tf_tol(tf);
    if *tf == Tf::Code(TF_HLG) {
        let e = hlg_exp(p.target);
        if e.abs() >= 0.1 {
            let m = v[0] * k(p.lum[0]) + v[1] * k(p.lum[1]) + v[2] * k(p.lum[2]);
            if m.v - m.e <= 0.0 {
                return [V::unknown(); 3];
            }
            let f = m.map_mono(|x| x.powf(e), 2e-5, 0.0);
            v = v.map(|x| x * f);
        }
    }
    v.map(|x| {
        let y = x.map_mono(|t| encode(tf, p.target, t), rel, abs);
        // the approximations of decoders are made for [0, 1]
        let beyond = x.v.abs() - 1.0;
        if *tf == Tf::Code(TF_PQ) {
            if y.v.abs() > 1.0 { V::unknown() } else { y }
        } else if *tf == Tf::Code(TF_LINEAR) || beyond <= 0.0 {
            y
        } else if beyond < 3.0 {
            y.widen(1e-3 * beyond * y.v.abs())
        } else {
            V::unknown()
        }
    })
}
pub fn ycbcr_to_rgb(cb: V, y: V, cr: V) -> [V; 3] {
    let y = y + k(128.0 / 255.0);
    [y + cr * k(1.402), y - cr * k(0.299 * 1.402 / 0.587) - cb * k(0.114 * 1.772 / 0.587), y + cb * k(1.772)]
}
