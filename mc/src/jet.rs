//! Reference: values with first derivatives in `D` directions and a running error analysis.
//!
//! Written from the mathematical definition of each operation (closed-form first and second
//! partials), independent of the implementation. `ev` and `ed` bound the difference that any
//! reasonable floating point evaluation of the same composition may show (first order error
//! propagation with every argument perturbed by at least one rounding); `vok`/`dok` say whether
//! the value / derivative is inside the domain of the property and well conditioned.
use crate::prog::{Alg, Bin, Un};

#[derive(Clone, Copy, Debug)]
pub struct Jet<const D: usize, const SP: bool> {
    pub v: f64,
    pub ev: f64,
    pub d: [f64; D],
    pub ed: [f64; D],
    pub vok: bool,
    pub dok: bool,
    pub active: bool,
}

impl<const D: usize, const SP: bool> Jet<D, SP> {
    pub const U: f64 = if SP { 5.97e-8 } else { 1.12e-16 };
    pub const BIG: f64 = if SP { 1e15 } else { 1e120 };
    pub const TINY: f64 = if SP { 1e-15 } else { 1e-120 };
    pub const ABS: f64 = if SP { 1e-30 } else { 1e-220 };

    pub fn input(v: f64, d: [f64; D]) -> Self {
        let v = if SP { v as f32 as f64 } else { v };
        Jet { v, ev: 0.0, d, ed: [0.0; D], vok: v.is_finite(), dok: v.is_finite(), active: true }.range()
    }

    fn range(mut self) -> Self {
        let out = |x: f64| !x.is_finite() || x.abs() > Self::BIG || (x != 0.0 && x.abs() < Self::TINY);
        if out(self.v) || !self.ev.is_finite() || self.ev > 1e-3 * self.v.abs().max(1e-6) {
            self.vok = false;
            self.dok = false;
        }
        for i in 0..D {
            if out(self.d[i]) || !self.ed[i].is_finite() {
                self.dok = false;
            }
        }
        self
    }

    /// error of this operand, at least a rounding
    fn e(&self) -> f64 {
        self.ev + 2.0 * Self::U * self.v.abs()
    }

    fn f1(self, v: f64, f: f64, ff: f64) -> Self {
        let e = self.e();
        let p = |a: f64, b: f64| if b == 0.0 { 0.0 } else { a * b };
        let mut r = self;
        r.v = v;
        r.ev = p(f.abs(), e) + p(ff.abs(), e * e) + 4.0 * Self::U * v.abs();
        for i in 0..D {
            r.d[i] = p(f, self.d[i]);
            r.ed[i] = p(f.abs(), self.ed[i]) + p(ff.abs(), e * (self.d[i].abs() + self.ed[i])) + 6.0 * Self::U * r.d[i].abs();
        }
        if !f.is_finite() || (e > 0.0 && !ff.is_finite()) {
            r.dok = false;
            if e > 0.0 {
                r.vok = false;
            }
        }
        r.range()
    }

    #[allow(clippy::too_many_arguments)]
    fn f2(a: Self, b: Self, v: f64, fa: f64, fb: f64, faa: f64, fab: f64, fbb: f64) -> Self {
        let (ea, eb) = (a.e(), b.e());
        let p = |x: f64, y: f64| if y == 0.0 { 0.0 } else { x * y };
        let mut r = a;
        r.v = v;
        r.active = a.active || b.active;
        r.vok = a.vok && b.vok;
        r.dok = a.dok && b.dok;
        r.ev = p(fa.abs(), ea) + p(fb.abs(), eb) + p(faa.abs(), ea * ea) + p(2.0 * fab.abs(), ea * eb) + p(fbb.abs(), eb * eb) + 4.0 * Self::U * v.abs();
        for i in 0..D {
            let (ta, tb) = (p(fa, a.d[i]), p(fb, b.d[i]));
            r.d[i] = ta + tb;
            r.ed[i] = p(fa.abs(), a.ed[i])
                + p(fb.abs(), b.ed[i])
                + (p(faa.abs(), ea) + p(fab.abs(), eb)) * (a.d[i].abs() + a.ed[i])
                + (p(fab.abs(), ea) + p(fbb.abs(), eb)) * (b.d[i].abs() + b.ed[i])
                + 6.0 * Self::U * (ta.abs() + tb.abs());
        }
        if !fa.is_finite() || !fb.is_finite() {
            r.dok = false;
        }
        r.range()
    }

    fn bad(mut self) -> Self {
        self.vok = false;
        self.dok = false;
        self
    }

    fn nod(mut self) -> Self {
        self.dok = false;
        self
    }

    fn away_from_zero(&self) -> bool {
        self.v.abs() > 1e3 * self.e()
    }

    fn konst(k: f64) -> Self {
        let v = if SP { k as f32 as f64 } else { k };
        Jet { v, ev: 0.0, d: [0.0; D], ed: [0.0; D], vok: v.is_finite(), dok: v.is_finite(), active: false }.range()
    }

    fn add(a: Self, b: Self) -> Self {
        Self::f2(a, b, a.v + b.v, 1.0, 1.0, 0.0, 0.0, 0.0)
    }
    fn sub(a: Self, b: Self) -> Self {
        Self::f2(a, b, a.v - b.v, 1.0, -1.0, 0.0, 0.0, 0.0)
    }
    fn mul(a: Self, b: Self) -> Self {
        Self::f2(a, b, a.v * b.v, b.v, a.v, 0.0, 1.0, 0.0)
    }
    fn div(a: Self, b: Self) -> Self {
        if !b.away_from_zero() {
            return Self::f2(a, b, a.v / b.v, 0.0, 0.0, 0.0, 0.0, 0.0).bad();
        }
        let (x, y) = (a.v, b.v);
        Self::f2(a, b, x / y, 1.0 / y, -x / (y * y), 0.0, -1.0 / (y * y), 2.0 * x / (y * y * y))
    }
    fn ln(a: Self) -> Self {
        let x = a.v;
        if x <= 0.0 || !a.away_from_zero() {
            return a.f1(x.ln(), 0.0, 0.0).bad();
        }
        a.f1(x.ln(), 1.0 / x, -1.0 / (x * x))
    }
    /// the increment model of the absolute value
    fn abs(a: Self) -> Self {
        let mut r = a;
        r.v = a.v.abs();
        for i in 0..D {
            r.d[i] = (a.v + a.d[i]).abs() - a.v.abs();
            r.ed[i] = 2.0 * a.e() + a.ed[i] + 4.0 * Self::U * (a.v.abs() + a.d[i].abs());
        }
        r.range()
    }
    fn sqrt(a: Self) -> Self {
        let x = a.v;
        if x == 0.0 && a.ev == 0.0 {
            let mut r = Self::konst(0.0);
            r.active = a.active;
            r.vok = a.vok;
            return r.nod();
        }
        if x <= 0.0 || !a.away_from_zero() {
            return a.f1(0.0, 0.0, 0.0).bad();
        }
        let s = x.sqrt();
        a.f1(s, 0.5 / s, -0.25 / (x * s))
    }
    fn powf(a: Self, b: Self) -> Self {
        let (x, y) = (a.v, b.v);
        let v = x.powf(y);
        if x > 0.0 && a.away_from_zero() {
            let l = x.ln();
            return Self::f2(a, b, v, y * x.powf(y - 1.0), l * v, y * (y - 1.0) * x.powf(y - 2.0), x.powf(y - 1.0) * (1.0 + y * l), l * l * v);
        }
        // Not in the interior of the domain of the exponent
        let exact = b.ev == 0.0;
        let mut bc = b;
        bc.d = [0.0; D];
        bc.ed = [0.0; D];
        bc.ev = 0.0;
        let varies = b.active;
        let int = y.fract() == 0.0 && y.abs() < 1e6;
        let r = if x < 0.0 && a.away_from_zero() && int && exact {
            let mut r = Self::f2(a, bc, v, y * x.powf(y - 1.0), 0.0, y * (y - 1.0) * x.powf(y - 2.0), 0.0, 0.0);
            if varies {
                r.dok = false;
            }
            r
        } else if x == 0.0 && a.ev == 0.0 && exact && y >= 0.0 {
            let f = if y == 1.0 { 1.0 } else { 0.0 };
            let mut r = Self::f2(a, bc, v, f, 0.0, 0.0, 0.0, 0.0);
            if varies || (y > 0.0 && y < 1.0) {
                r.dok = false;
            }
            r
        } else {
            Self::f2(a, bc, v, 0.0, 0.0, 0.0, 0.0, 0.0).bad()
        };
        r
    }
    fn max(a: Self, b: Self, sign: f64) -> Self {
        let t = Self::abs(Self::sub(a, b));
        let mut t2 = t;
        t2.v *= sign;
        for i in 0..D {
            t2.d[i] *= sign;
        }
        let mut r = Self::add(Self::add(a, b), t2);
        r.v = if sign > 0.0 { a.v.max(b.v) } else { a.v.min(b.v) };
        r.ev = a.e() + b.e() + 4.0 * Self::U * (a.v.abs() + b.v.abs());
        for i in 0..D {
            // max(a+da, b+db) - max(a, b)
            r.d[i] *= 0.5;
        }
        r.range()
    }
}

impl<const D: usize, const SP: bool> Alg for Jet<D, SP> {
    fn lift(k: f64) -> Self {
        Self::konst(k)
    }
    fn bin(b: Bin, x: Self, y: Self) -> Self {
        match b {
            Bin::Add => Self::add(x, y),
            Bin::Sub => Self::sub(x, y),
            Bin::Mul => Self::mul(x, y),
            Bin::Div => Self::div(x, y),
            Bin::Powf => Self::powf(x, y),
            Bin::Max => Self::max(x, y, 1.0),
            Bin::Min => Self::max(x, y, -1.0),
            Bin::Hypot => Self::sqrt(Self::add(Self::mul(x, x), Self::mul(y, y))),
            Bin::AbsSub => Self::max(Self::sub(x, y), Self::konst(0.0), 1.0),
            Bin::Log => Self::div(Self::ln(x), Self::ln(y)),
        }
    }
    fn un(u: Un, a: Self) -> Self {
        let x = a.v;
        match u {
            Un::Neg => a.f1(-x, -1.0, 0.0),
            Un::Sin | Un::SinCosS => a.f1(x.sin(), x.cos(), -x.sin()),
            Un::Cos | Un::SinCosC => a.f1(x.cos(), -x.sin(), -x.cos()),
            Un::Tan => {
                let c = x.cos();
                if c.abs() < 1e3 * a.e() {
                    return a.f1(x.tan(), 0.0, 0.0).bad();
                }
                a.f1(x.tan(), 1.0 / (c * c), 2.0 * x.tan() / (c * c))
            }
            Un::Abs => Self::abs(a),
            Un::Exp => a.f1(x.exp(), x.exp(), x.exp()),
            Un::Ln => Self::ln(a),
            Un::Asin | Un::Acos => {
                let s = if u == Un::Asin { 1.0 } else { -1.0 };
                let v = if u == Un::Asin { x.asin() } else { x.acos() };
                let w = 1.0 - x.abs();
                if w <= 0.0 || w < 1e3 * a.e() {
                    let r = a.f1(v, 0.0, 0.0);
                    return if w == 0.0 && a.ev == 0.0 { r.nod() } else { r.bad() };
                }
                let q = (w * (1.0 + x.abs())).sqrt();
                a.f1(v, s / q, s * x / (q * q * q))
            }
            Un::Atan => a.f1(x.atan(), 1.0 / (1.0 + x * x), -2.0 * x / (1.0 + x * x).powi(2)),
            Un::Sqrt => Self::sqrt(a),
            Un::Recip => Self::div(Self::konst(1.0), a),
            Un::Exp2 => {
                let l = std::f64::consts::LN_2;
                a.f1(x.exp2(), l * x.exp2(), l * l * x.exp2())
            }
            Un::Log2 => Self::div(Self::ln(a), Self::ln(Self::konst(2.0))),
            Un::Log10 => Self::div(Self::ln(a), Self::ln(Self::konst(10.0))),
            Un::Cbrt => {
                if x == 0.0 && a.ev == 0.0 {
                    return a.f1(0.0, 0.0, 0.0).nod();
                }
                if !a.away_from_zero() {
                    return a.bad();
                }
                let c = x.cbrt();
                a.f1(c, 1.0 / (3.0 * c * c), -2.0 / (9.0 * c * c * x))
            }
            Un::Powi(n) => Self::powf(a, Self::konst(n as f64)),
        }
    }
    fn mul_add(x: Self, y: Self, z: Self) -> Self {
        Self::add(Self::mul(x, y), z)
    }
}

pub const FACTOR: f64 = 64.0;

/// |got - want| within the analysed error (or same non-finite class when exact)
pub fn close(got: f64, want: f64, err: f64, abs: f64) -> bool {
    if got == want || (got.is_nan() && want.is_nan()) {
        return true;
    }
    want.is_finite() && (got - want).abs() <= FACTOR * err + abs
}
