//! A slow renderer of decoded frames, written from the definitions, that knows how exact it is.
pub mod afv;
pub mod color;
pub mod dct;
pub mod num;
pub mod quant;
pub mod stages;
pub mod vardct;
pub mod weights;
use crate::enc::bits::half_value;
use crate::enc::hdr::*;
use crate::enc::make::sample_value;
use crate::enc::modular::Chan;
use num::*;
use stages::*;

#[derive(Clone, Debug)]
pub struct PatchRef {
    pub slot: usize,
    pub x0: usize,
    pub y0: usize,
    pub w: usize,
    pub h: usize,
    /// position, blending of colour and of each extra channel
    pub places: Vec<(usize, usize, Vec<Bl>)>,
}
#[derive(Clone, Debug, Default)]
pub struct Feat {
    pub patches: Vec<PatchRef>,
    pub splines: Vec<Spline>,
    pub spline_adj: i64,
    pub noise: Option<[u32; 8]>,
    pub lf_quant: Option<[u16; 3]>,
}
/// The samples a frame starts from.
#[derive(Clone)]
pub enum Source {
    /// the decoded modular channels
    Modular(Vec<Chan>),
    /// what a lossy frame codes; the extra channels' samples
    Lossy(std::sync::Arc<vardct::VarDct>, Vec<Chan>),
}
#[derive(Clone)]
pub struct MFrame {
    pub hdr: FrameHdr,
    pub feat: Feat,
    pub src: Source,
}
#[derive(Clone)]
pub struct Shown {
    /// index into the frames
    pub frame: usize,
    pub planes: Vec<Plane>,
}
#[derive(Clone, Copy, Default, Debug)]
pub struct RenderOpts {
    pub high_precision: bool,
    pub spot: bool,
}
pub struct Slot {
    pub planes: Vec<Plane>,
    pub before_ct: bool,
}
pub struct State {
    pub refs: [Option<Slot>; 4],
    pub lf: [Option<[Plane; 3]>; 4],
    pub vis: u32,
    pub invis: u32,
}
impl State {
    pub fn new() -> State {
        State { refs: [None, None, None, None], lf: [None, None, None, None], vis: 0, invis: 0 }
    }
}
pub fn chan_plane(ch: &Chan, d: &Depth) -> Plane {
    Plane::from_fn(ch.w, ch.h, |x, y| {
        let v = sample_value(d, ch.at(x, y));
        if d.exp > 0 && d.exp < 8 && ch.at(x, y) >> (d.bits - 1 - d.exp) & ((1 << d.exp) - 1) == (1 << d.exp) - 1 {
            return V::unknown(); // infinities, NaNs or the largest numbers
        }
        if d.exp > 0 { c(v) } else { V::new(v, v.abs() * 2.5e-7) }
    })
}
const EPF_BASE: f64 = -1.1715728752538099024;
/// Renders the next frame of the stream; returns what it shows if it is visible.
pub fn step(img: &ImageHdr, f: &MFrame, st: &mut State, o: &RenderOpts) -> Option<Vec<Plane>> {
    let h = &f.hdr;
    if h.visible() {
        st.vis += 1;
        st.invis = 0;
    } else {
        st.invis += 1;
    }
    let (cw, chh) = h.coded_size(img);
    let necs = img.ecs.len();
    let mut ch: Vec<Plane>;
    let ec_chans: &[Chan];
    let (mut ytox, mut ytob) = (0.0, 1.0);
    match &f.src {
        Source::Modular(m) => {
            let nc = m.len() - necs;
            ec_chans = &m[nc..];
            if img.xyb {
                let q: Vec<f64> = match &f.feat.lf_quant {
                    None => vec![1.0 / 4096.0, 1.0 / 512.0, 1.0 / 256.0],
                    Some(q) => q.iter().map(|&b| half_value(b) / 128.0).collect(),
                };
                let p = |v: f64, q: f64| V::new(v * q, (v * q).abs() * 2.5e-7);
                let (a, b, d) = (&m[0], &m[1], &m[2]);
                ch = vec![
                    Plane::from_fn(cw, chh, |x, y| p(b.at(x, y) as f64, q[0])),
                    Plane::from_fn(cw, chh, |x, y| p(a.at(x, y) as f64, q[1])),
                    Plane::from_fn(cw, chh, |x, y| p((d.at(x, y) + a.at(x, y)) as f64, q[2])),
                ];
            } else {
                ch = m[..nc].iter().map(|c| chan_plane(c, &img.depth)).collect();
                while ch.len() < 3 {
                    let p = ch[0].clone();
                    ch.push(p);
                }
            }
        }
        Source::Lossy(v, e) => {
            ch = v.planes(img, h, st.lf.get(h.lf_level as usize).and_then(|l| l.as_ref()));
            ec_chans = e;
            (ytox, ytob) = v.lf_mix();
        }
    }
    // chroma
    for (i, p) in ch.iter_mut().enumerate() {
        let s = h.shift(i);
        for _ in 0..s.0 {
            *p = chroma_h(p);
        }
        for _ in 0..s.1 {
            *p = chroma_v(p);
        }
        let q = std::mem::replace(p, Plane::new(0, 0));
        *p = q.crop(cw, chh);
    }
    // filters
    if h.filter.gab {
        let w = gab_weights(&h.filter);
        for i in 0..3 {
            ch[i] = gaborish(&ch[i], w[i].0, w[i].1);
        }
    }
    if h.filter.epf > 0 {
        let e = epf_params(&h.filter);
        let konst = k(EPF_BASE) / c(half_value(h.filter.sigma_modular));
        let sig: Box<dyn Fn(usize, usize) -> V> = match &f.src {
            Source::Modular(_) => Box::new(move |_, _| konst),
            Source::Lossy(v, _) => Box::new(v.sigma(h)),
        };
        for pass in 0..3 {
            if h.filter.epf >= [3, 1, 2][pass] {
                let n = epf(&ch, &e, pass, &*sig);
                ch[..3].clone_from_slice(&n);
            }
        }
    }
    // extra channels
    let ups: Vec<usize> = (0..necs).map(|i| (h.ec_up[i] << img.ecs[i].dim_shift) as usize).collect();
    let up = h.upsampling as usize;
    let late = up > 1 && ups.iter().all(|&u| u == up);
    for (i, e) in img.ecs.iter().enumerate() {
        let mut p = chan_plane(&ec_chans[i], &e.depth);
        if !late && ups[i] > 1 {
            p = upsample(&p, ups[i], &upsample_weights(img, ups[i]));
        }
        ch.push(p);
    }
    let (fw, fh) = h.canvas_size(img);
    if up == 1 {
        for p in &mut ch[3..] {
            let q = std::mem::replace(p, Plane::new(0, 0));
            *p = q.crop(fw, fh);
        }
    }
    // patches and splines
    for p in &f.feat.patches {
        let src = &st.refs[p.slot].as_ref().unwrap().planes;
        for (px, py, bl) in &p.places {
            for y in 0..p.h {
                for x in 0..p.w {
                    let old: Vec<V> = ch.iter().map(|c| c.at(px + x, py + y)).collect();
                    let new: Vec<V> = src.iter().map(|c| c.at(p.x0 + x, p.y0 + y)).collect();
                    let v = blend_pixel(&old, &new, bl[0], &bl[1..], &img.ecs);
                    for (c, v) in ch.iter_mut().zip(v) {
                        c.set(px + x, py + y, v);
                    }
                }
            }
        }
    }
    if !f.feat.splines.is_empty() {
        draw_splines(&mut ch, &f.feat.splines, f.feat.spline_adj, ytox, ytob, o.high_precision);
    }
    // upsampling
    if up > 1 {
        let w = upsample_weights(img, up);
        for (i, p) in ch.iter_mut().enumerate() {
            if i < 3 || late {
                *p = upsample(p, up, &w);
            }
        }
        ch = ch.into_iter().map(|p| p.crop(fw, fh)).collect();
    }
    if let Some(lut) = &f.feat.noise {
        let r = random_planes(fw, fh, h.group_dim(), st.vis, st.invis);
        add_noise(&mut ch, lut, &r, c(ytox), c(ytob));
    }
    if h.lf_level > 0 {
        st.lf[h.lf_level as usize - 1] = Some(std::array::from_fn(|i| ch[i].clone()));
    }
    let mut saved = None;
    if h.can_be_referenced() && h.saves_before_ct(img) {
        saved = Some(Slot { planes: ch.clone(), before_ct: true });
    }
    // colour
    if h.ycbcr {
        for q in 0..ch[0].d.len() {
            let v = color::ycbcr_to_rgb(ch[0].d[q], ch[1].d[q], ch[2].d[q]);
            for i in 0..3 {
                ch[i].d[q] = v[i];
            }
        }
    } else if img.xyb {
        let p = color::xyb_params(img).unwrap();
        // colours that need a conversion are output as linear sRGB if samples are floating point
        let tf = if img.color.icc.is_some() || (img.color.space == 1 && img.color.white != 1) { Tf::Code(TF_LINEAR) } else { img.color.tf.clone() };
        for q in 0..ch[0].d.len() {
            let v = color::xyb_to_linear(&p, ch[0].d[q], ch[1].d[q], ch[2].d[q]);
            let v = color::from_linear(&tf, &p, v);
            for i in 0..3 {
                ch[i].d[q] = v[i];
            }
        }
    }
    // blending onto the canvas
    let needs = h.normal() && (h.crop.is_some() || std::iter::once(&h.blend).chain(&h.ec_blend).any(|b| b.mode != BM_REPLACE));
    if needs {
        let (iw, ih) = (img.w as usize, img.h as usize);
        let (x0, y0) = h.crop.map_or((0, 0), |c| (c.0 as i64, c.1 as i64));
        let src: Vec<usize> = (0..3).map(|_| h.blend.source).chain(h.ec_blend.iter().map(|b| b.source)).map(|s| s as usize).collect();
        let m = |b: &Blend| Bl {
            mode: [Mode::Replace, Mode::Add, Mode::BlendAbove, Mode::AddAbove, Mode::Mul][b.mode as usize],
            alpha: b.alpha as usize,
            clamp: b.clamp,
        };
        let ec: Vec<Bl> = h.ec_blend.iter().map(m).collect();
        let bc = m(&h.blend);
        let mut out = vec![Plane::new(iw, ih); 3 + necs];
        for y in 0..ih {
            for x in 0..iw {
                let old: Vec<V> = (0..3 + necs).map(|i| st.refs[src[i]].as_ref().map_or(c(0.0), |s| s.planes[i].at(x, y))).collect();
                let (fx, fy) = (x as i64 - x0, y as i64 - y0);
                let v = if fx >= 0 && fy >= 0 && fx < fw as i64 && fy < fh as i64 {
                    let new: Vec<V> = ch.iter().map(|c| c.at(fx as usize, fy as usize)).collect();
                    frame_blend(&old, &new, bc, &ec, &img.ecs)
                } else {
                    old
                };
                for (p, v) in out.iter_mut().zip(v) {
                    p.set(x, y, v);
                }
            }
        }
        ch = out;
    }
    if h.can_be_referenced() && !h.saves_before_ct(img) {
        saved = Some(Slot { planes: ch.clone(), before_ct: false });
    }
    // (only now: the frame may have been blended with what the slot held)
    if saved.is_some() {
        st.refs[h.save as usize] = saved;
    }
    if !h.visible() {
        return None;
    }
    if o.spot {
        for (i, e) in img.ecs.iter().enumerate() {
            if e.ty == EC_SPOT {
                spot(&mut ch, i, e);
            }
        }
    }
    Some(ch)
}
/// A frame over the canvas. (As in the reference implementation the clamp of the
/// multiplying mode applies to what is there already.)
fn frame_blend(old: &[V], new: &[V], col: Bl, ec: &[Bl], ecs: &[Ec]) -> Vec<V> {
    let mut v = blend_pixel(old, new, col, ec, ecs);
    let cl = |v: V, b: bool| if b { v.clamp01() } else { v };
    for (i, b) in std::iter::repeat_n(&col, 3).chain(ec).enumerate() {
        let by_color = i >= 3 && i - 3 == col.alpha && col.mode == Mode::BlendAbove && ecs.iter().any(|e| e.ty == EC_ALPHA);
        if b.mode == Mode::Mul && !by_color {
            v[i] = new[i] * cl(old[i], b.clamp);
        }
    }
    v
}
pub fn render_movie(img: &ImageHdr, frames: &[MFrame], o: &RenderOpts) -> Vec<Shown> {
    let mut st = State::new();
    let mut out = vec![];
    for (i, f) in frames.iter().enumerate() {
        if let Some(planes) = step(img, f, &mut st, o) {
            out.push(Shown { frame: i, planes });
        }
    }
    out
}
