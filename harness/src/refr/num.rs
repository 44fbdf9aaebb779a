//! Real arithmetic with a bound on what single precision may make of it.
//! `v` is the value by definition (in double precision), `e` bounds the
//! distance of any reasonable single-precision evaluation of it.
use std::ops::*;

#[derive(Clone, Copy, Debug, Default)]
pub struct V {
    pub v: f64,
    pub e: f64,
}
/// two roundings
pub const EPS: f64 = 1.3e-7;
pub fn c(v: f64) -> V {
    V { v, e: 0.0 }
}
/// a constant of the format that is held in single precision
pub fn k(v: f64) -> V {
    V { v, e: v.abs() * 7e-8 }
}
impl V {
    pub fn new(v: f64, e: f64) -> V {
        V { v, e }
    }
    /// What a single-precision evaluation may have turned into an infinity is not known.
    fn ranged(v: f64, e: f64) -> V {
        V { v, e: if e.is_nan() || v.abs() + e > 1e37 { f64::INFINITY } else { e } }
    }
    pub fn widen(self, e: f64) -> V {
        V { v: self.v, e: self.e + e }
    }
    pub fn abs(self) -> V {
        V { v: self.v.abs(), e: self.e }
    }
    pub fn max(self, o: V) -> V {
        V { v: self.v.max(o.v), e: self.e.max(o.e) }
    }
    pub fn min(self, o: V) -> V {
        V { v: self.v.min(o.v), e: self.e.max(o.e) }
    }
    pub fn clamp01(self) -> V {
        // beyond the range by more than the error the result is exact
        if self.v + self.e < 0.0 {
            c(0.0)
        } else if self.v - self.e > 1.0 {
            c(1.0)
        } else {
            V { v: self.v.clamp(0.0, 1.0), e: self.e }
        }
    }
    pub fn unknown() -> V {
        V { v: 0.0, e: f64::INFINITY }
    }
    /// A function with values at the ends of the uncertainty, plus a relative and an absolute error.
    pub fn map_mono(self, f: impl Fn(f64) -> f64, rel: f64, abs: f64) -> V {
        let y = f(self.v);
        let (a, b) = (f(self.v - self.e), f(self.v + self.e));
        let e = (a - y).abs().max((b - y).abs());
        V { v: y, e: e + y.abs() * rel + abs }
    }
    pub fn contains(&self, g: f64) -> bool {
        if !self.v.is_finite() || !self.e.is_finite() {
            return true;
        }
        (g - self.v).abs() <= self.e + 1e-30
    }
    pub fn decided(&self) -> bool {
        self.v.is_finite() && self.e.is_finite()
    }
}
impl Add for V {
    type Output = V;
    fn add(self, o: V) -> V {
        V::ranged(self.v + o.v, self.e + o.e + EPS * (self.v.abs() + o.v.abs()))
    }
}
impl Sub for V {
    type Output = V;
    fn sub(self, o: V) -> V {
        V::ranged(self.v - o.v, self.e + o.e + EPS * (self.v.abs() + o.v.abs()))
    }
}
impl Neg for V {
    type Output = V;
    fn neg(self) -> V {
        V { v: -self.v, e: self.e }
    }
}
impl Mul for V {
    type Output = V;
    fn mul(self, o: V) -> V {
        let v = self.v * o.v;
        // (0 times infinity is not a bound)
        let e = self.e * o.v.abs() + o.e * self.v.abs() + self.e * o.e + EPS * v.abs();
        V::ranged(v, e)
    }
}
impl Div for V {
    type Output = V;
    fn div(self, o: V) -> V {
        let d = o.v.abs() - o.e;
        if d <= 0.0 {
            return V::unknown();
        }
        let v = self.v / o.v;
        V::ranged(v, (self.e + v.abs() * o.e) / d + 2.0 * EPS * v.abs())
    }
}
impl AddAssign for V {
    fn add_assign(&mut self, o: V) {
        *self = *self + o;
    }
}

#[derive(Clone, Debug)]
pub struct Plane {
    pub w: usize,
    pub h: usize,
    pub d: Vec<V>,
}
pub fn mirror(mut x: i64, n: usize) -> usize {
    let n = n as i64;
    loop {
        if x < 0 {
            x = -x - 1;
        } else if x >= n {
            x = 2 * n - 1 - x;
        } else {
            return x as usize;
        }
    }
}
impl Plane {
    pub fn new(w: usize, h: usize) -> Plane {
        Plane { w, h, d: vec![V::default(); w * h] }
    }
    pub fn at(&self, x: usize, y: usize) -> V {
        self.d[y * self.w + x]
    }
    pub fn mir(&self, x: i64, y: i64) -> V {
        self.d[mirror(y, self.h) * self.w + mirror(x, self.w)]
    }
    pub fn set(&mut self, x: usize, y: usize, v: V) {
        self.d[y * self.w + x] = v;
    }
    pub fn from_fn(w: usize, h: usize, mut f: impl FnMut(usize, usize) -> V) -> Plane {
        let mut p = Plane::new(w, h);
        for y in 0..h {
            for x in 0..w {
                p.d[y * w + x] = f(x, y);
            }
        }
        p
    }
    /// the part that lies within a smaller size
    pub fn crop(self, w: usize, h: usize) -> Plane {
        if (w, h) == (self.w, self.h) {
            return self;
        }
        Plane::from_fn(w, h, |x, y| self.at(x, y))
    }
}
